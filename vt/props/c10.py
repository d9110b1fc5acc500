"""C10: every boundary value solver setting finds the same solution from a guess near it."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import bvps
from vt.props import c09

RULE = ('a well-conditioned boundary value problem with a manufactured solution counts as non-trivial when two or more solver settings '
        'were run from a nearby guess and compared with that solution')

MUST = ('Armijo', 'fsolve', 'hybr')


def run(case, pool=None):
    b = bvps.BVP(case['bvp'])
    J = b.jac()
    if not np.all(np.isfinite(J)) or np.linalg.cond(J) > 40:
        raise Skip('ill-conditioned')
    inv = np.linalg.norm(np.linalg.inv(J), 2)
    nJ = np.linalg.norm(J, 2)
    if inv > 10 or nJ > 10:
        raise Skip('ill-conditioned')
    z = b.zstar()
    used = 0
    for cfg in case['cfgs']:
        g = b.guess(case['dz'], case['nodes'], True)
        alg = b.install(c09.solver(cfg))
        must = cfg['solver'].lower() == 'spbvp' or cfg.get('algorithm', 'Armijo') in MUST
        with sut('solving from a nearby guess with %s' % cfg):
            try:
                out = alg.solve(g, pool=pool) if pool is not None else alg.solve(g)
            except (ArithmeticError, np.linalg.LinAlgError):
                if must:
                    raise
                continue  # a line search of SciPy that diverges
        sol = out['sol']
        if not sol.converged:
            if must:
                root, worst = b.newton(z + np.array(case['dz'])[:b.dim])
                if root is None or worst > 0.1:
                    continue  # too nonlinear for a promise
                raise Violation('%s does not converge from a nearby guess: %s' % (cfg, out['message']))
            continue
        used += 1
        y, q = np.asarray(sol.y, dtype=float), np.asarray(sol.q, dtype=float)
        got = np.r_[y[0], q[0] if b.nq else np.array([]), sol.dynamical_parameters, sol.nondynamical_parameters]
        if got.shape != z.shape:
            raise Violation('%s: solution has %d unknowns, the problem %d' % (cfg, got.size, z.size))
        btol, otol = c09.tolerances(cfg)
        bound = 5 * inv * (btol + (otol or 0) * nJ) + 0.02 * (1 if b.nq or otol else 0.1) * max(1.0, inv)
        # a solver may at most return to a solution within the size of the perturbation plus its tolerance
        e = np.max(np.abs(got - z))
        if e > bound:
            root, _ = b.newton(got)
            if root is not None and np.max(np.abs(got - root)) <= bound:
                continue  # the problem has another solution
            raise Violation('%s finds %s, the solution is %s (difference %.3g, allowed %.3g)' % (cfg, got, z, e, bound))
    return dict(nontrivial=used > 1, label=['%d agree' % used] + [c['solver'] + ' ' + c.get('algorithm', '') + ' %d' % c.get('num_arcs', 1)
                                                                 for c in case['cfgs']])


class InProcessPool:
    """the pool interface used by the solver; functions travel through the same serialisation, but run here"""

    def map(self, f, args):
        return [f(a) for a in args]


def run_pool(case):
    return run(case, InProcessPool())


@st.composite
def cfg(draw):
    if draw(st.integers(0, 3)) == 0:
        return dict(solver='spbvp')
    c = dict(solver='Shooting', algorithm=draw(st.sampled_from(['Armijo', 'Armijo', 'Armijo', 'fsolve', 'hybr', 'SLSQP', 'lm'])))
    if draw(st.integers(0, 7)) == 0:
        c.update(max_iterations=40, algorithm=draw(st.sampled_from(
            ['COBYLA', 'krylov', 'broyden1', 'df-sane', 'L-BFGS-B', 'trust-constr', 'TNC', 'CG'])))
    if draw(st.integers(0, 2)):
        c['num_arcs'] = draw(st.integers(1, 5)) if draw(st.integers(0, 3)) else draw(st.integers(6, 12))
    if draw(st.booleans()):
        c['tolerance'] = draw(st.sampled_from([1e-4, 1e-6, 1e-3]))
    if draw(st.booleans()):
        c['ivp_args'] = dict(abstol=1e-8, reltol=1e-8, maxstep=draw(st.sampled_from([0.1, 0.03])))
    return c


@st.composite
def cases(draw, ncfg=3):
    d = draw(bvps.problem())
    dim = len(d['y']) + len(d['q']) + len(d['p']) + len(d['nu'])
    amp = draw(st.sampled_from([0.005, 0.1, 0.1]))
    return dict(bvp=d, dz=[draw(st.integers(-100, 100)) / 100.0 * amp for _ in range(dim)], nodes=draw(st.integers(5, 15)),
                cfgs=[draw(cfg()) for _ in range(ncfg)])


@st.composite
def pool_cases(draw):
    c = draw(cases(ncfg=1))
    c['cfgs'] = [dict(solver='Shooting', algorithm='Armijo'), dict(solver='Shooting', algorithm='Armijo', num_arcs=draw(st.integers(2, 4)))]
    return c


PARTS = [Part('parallel', pool_cases, run_pool, quick=(2, 15), thorough=(2, 200), timeout=60), Part('agree', cases, run, quick=(8, 40), thorough=(8, 900), timeout=10)]
