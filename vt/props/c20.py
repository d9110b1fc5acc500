"""C20: analytical Jacobians are the derivatives of the functions they belong to, and solvers using them find the same solution."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import bvps, gen, genocp
from vt.ocp import build_problem, formulate
from vt.props import c09

RULE = ('a generated problem counts as non-trivial when every analytical Jacobian was compared with differences of its function at a '
        'regular point, or when a solver converged with the Jacobians supplied')


def central(f, x, n_out):
    """fourth-order differences, with an error estimate from a coarser step"""
    x = np.array(x, dtype=float)
    J = np.zeros((n_out, x.size))
    E = np.zeros((n_out, x.size))
    for j in range(x.size):
        d = []
        for h in (1e-3, 2e-3):
            e = np.zeros(x.size)
            e[j] = h
            d.append((-f(x + 2 * e) + 8 * f(x + e) - 8 * f(x - e) + f(x - 2 * e)) / (12 * h))
        J[:, j] = d[0]
        E[:, j] = np.abs(d[0] - d[1])
    return J, E


def cmp(what, A, J, E):
    A = np.asarray(A, dtype=float)
    if A.shape != J.shape:
        if A.size == J.size and A.size:
            A = A.reshape(J.shape)
        else:
            raise Violation('%s has shape %s, expected %s' % (what, A.shape, J.shape))
    if not A.size:
        return
    tol = 1e-5 * (1 + np.abs(J)) + 20 * E + 1e-7 * np.max(np.abs(J))
    bad = ~(np.abs(A - J) <= tol)
    if np.any(bad):
        i, j = np.argwhere(bad)[0]
        raise Violation('%s[%d, %d] is %.8g, differences of the function give %.8g' % (what, i, j, A[i, j], J[i, j]))


def run(case):
    spec = case['spec']
    with sut('formulating with analytical Jacobians'):
        bvp = formulate(build_problem(spec), analytical_jacobian=True, **dict(dict(control_method='differential'), **case['opts']))
    fp = bvp.functional_problem
    ny, nq, npar, nnu = len(bvp.states), len(bvp.quads), len(bvp.parameters), len(bvp.constraint_parameters)
    if fp.deriv_func_jac is None and fp.bc_func_jac is None and case['opts'].get('control_method', '').lower() == 'algebraic':
        return dict(nontrivial=False, label='none with an algebraic law')    # stated as not available
    if fp.deriv_func_jac is None or fp.bc_func_jac is None:
        raise Violation('analytical Jacobians were requested but are not available')
    k = np.array([[c['value'] for c in spec['constants'] if c['name'] == b.name][0] for b in bvp.constants], dtype=float)
    names = [s.name for s in bvp.states]
    pos = set([s['name'] for s in spec['states']] + [spec['indep']] + [c['name'] for c in spec['controls']])

    def vec(vals):
        return np.array([abs(vals[j % len(vals)]) + 0.1 if nm in pos else vals[j % len(vals)] for j, nm in enumerate(names)])
    p = np.abs(np.array((case['par'] * 4)[:npar], dtype=float)) + 0.1
    nu = np.array((case['par'] * 40)[:nnu], dtype=float)
    used = 0
    for va, vb in zip(case['vals'][:-1], case['vals'][1:]):
        y, yf = vec(va), vec(vb)
        with sut('rates'):
            r0 = np.asarray(fp.deriv_func(y, p, k), dtype=float)
        if not np.all(np.isfinite(r0)) or np.max(np.abs(r0)) > 1e4:
            continue
        Jy, Ey = central(lambda z: np.asarray(fp.deriv_func(z, p, k), dtype=float), y, ny)
        Jp, Ep = central(lambda z: np.asarray(fp.deriv_func(y, z, k), dtype=float), p, ny)
        if not np.all(np.isfinite(Jy)) or np.max(np.abs(Jy)) > 1e5 or np.max(Ey) > 1e-2 * (1 + np.max(np.abs(Jy))):
            continue
        with sut('Jacobian of the rates'):
            out = fp.deriv_func_jac(y, p, k)
        cmp('Jacobian of the rates by the variables', out[0], Jy, Ey)
        cmp('Jacobian of the rates by the parameters', out[1], Jp, Ep)
        q0 = np.array([abs(va[(j + 3) % len(va)]) for j in range(nq)])
        qf = np.array([abs(vb[(j + 3) % len(vb)]) for j in range(nq)])
        z0 = [y, q0, yf, qf, p, nu]

        def bc(*z):
            return np.asarray(fp.bc_func(z[0], z[1], z[2], z[3], z[4], z[5], k) if nq
                              else fp.bc_func(z[0], z[2], z[4], z[5], k), dtype=float)
        with sut('boundary residuals'):
            b0 = bc(*z0)
        if not np.all(np.isfinite(b0)) or np.max(np.abs(b0)) > 1e5:
            continue
        J = []
        for i in range(6):
            def g(v, i=i):
                a = list(z0)
                a[i] = v
                return bc(*a)
            J.append(central(g, z0[i], b0.size))
        if any(not np.all(np.isfinite(j[0])) or (j[0].size and (np.max(np.abs(j[0])) > 1e6 or np.max(j[1]) > 1e-2 * (1 + np.max(np.abs(j[0])))))
               for j in J):
            continue
        with sut('Jacobian of the boundary residuals'):
            out = fp.bc_func_jac(*([y, q0, yf, qf, p, nu, k] if nq else [y, yf, p, nu, k]))
        cmp('Jacobian of the boundary residuals by the initial variables', out[0], *J[0])
        cmp('Jacobian of the boundary residuals by the final variables', out[1], *J[2])
        cmp('Jacobian of the boundary residuals by the parameters', out[2],
            np.hstack((J[4][0], J[5][0])), np.hstack((J[4][1], J[5][1])))
        if nq:
            cmp('Jacobian of the boundary residuals by the initial quadratures', out[3], *J[1])
            cmp('Jacobian of the boundary residuals by the final quadratures', out[4], *J[3])
        used += 1
    if not used:
        raise Skip('no regular point')
    return dict(nontrivial=True, label=[case['opts']['method'], '%d quads' % nq])


@st.composite
def cases(draw, small=False):
    meth = draw(st.sampled_from(['traditional', 'diffyg', 'reduced'][:2 if small else 3]))
    opts = dict(method='traditional' if meth == 'traditional' else 'diffyg')
    kw = dict(max_states=2, max_controls=2, quantities=1, end_bounds=1, utm=1)
    if draw(st.integers(0, 9)) == 0:
        opts['control_method'] = draw(st.sampled_from(['algebraic', 'Algebraic']))
        kw = dict(max_states=2, max_controls=2, nonlinear_u=False)
    if meth == 'reduced':
        opts['reduction'] = True
        kw.update(cyclic=2, max_states=3, max_controls=1)
    if small:       # compilation takes a while
        opts.pop('control_method', None)
        kw = dict(max_states=1, max_controls=1)
    spec = draw(genocp.ocp_spec(**kw))
    return dict(spec=spec, opts=opts, vals=[draw(gen.signed(9)) for _ in range(3)], par=draw(gen.signed(4)))


def dF(kind, z):
    return [1.0, np.cos(z), 1 / np.cosh(z) ** 2, -np.sin(z)][kind]


def jac_y(b, y, p, k):
    n, m = b.n, len(p)
    A, B = np.zeros((n, n)), np.zeros((n, m))
    for i, r in enumerate(b.d['rows']):
        c = 1.0
        if r['p'] is not None and m:
            c = 1 + p[r['p'] % m]
            B[i, r['p'] % m] = r['b'] * k[0] + sum(a * bvps.F[kind](y[j]) for a, kind, j in r['terms'])
        for a, kind, j in r['terms']:
            A[i, j] += c * a * dF(kind, y[j])
    return A, B


def bc_jac(b, y0, q0, yf, qf, p, nu, k):
    src = dict(y0=y0, yf=yf, q0=q0, qf=qf, p=p, nu=nu)
    J = {key: np.zeros((len(b.d['bc']), len(v) if v is not None else 0)) for key, v in src.items()}
    for i, row in enumerate(b.d['bc']):
        for w, kind, idx, form in row:
            z = src[kind][idx]
            J[kind][i, idx] += k[-1] * w * (1 if form == 0 else 1 + 0.2 * np.cos(z))
    return J


def run_solver(case):
    b = bvps.BVP(case['bvp'])
    J = b.jac()
    if not np.all(np.isfinite(J)) or np.linalg.cond(J) > 40 or np.linalg.norm(np.linalg.inv(J), 2) > 10 or np.linalg.norm(J, 2) > 10:
        raise Skip('ill-conditioned')
    inv, nJ = np.linalg.norm(np.linalg.inv(J), 2), np.linalg.norm(J, 2)
    cfg = case['cfg']
    alg = b.install(c09.solver(cfg))
    alg.set_derivative_jacobian(lambda y, p, k: jac_y(b, y, p, k))

    if b.nq:
        def f(y0, q0, yf, qf, p, nu, k):
            d = bc_jac(b, y0, q0, yf, qf, p, nu, k)
            return d['y0'], d['yf'], np.hstack((d['p'], d['nu'])), d['q0'], d['qf']
    else:
        def f(y0, yf, p, nu, k):
            d = bc_jac(b, y0, None, yf, None, p, nu, k)
            return d['y0'], d['yf'], np.hstack((d['p'], d['nu']))
    alg.set_boundarycondition_jacobian(f)
    with sut('solving with analytical Jacobians and %s' % cfg):
        out = alg.solve(b.guess(case['dz'], case['nodes'], True))
    sol = out['sol']
    if not sol.converged:
        root, worst = b.newton(b.zstar() + np.array(case['dz'])[:b.dim])
        if root is None or worst > 0.1:
            raise Skip('too nonlinear for a promise')
        raise Violation('%s with analytical Jacobians does not converge from a nearby guess: %s' % (cfg, out['message']))
    y, q = np.asarray(sol.y, dtype=float), np.asarray(sol.q, dtype=float)
    got = np.r_[y[0], q[0] if b.nq else np.array([]), sol.dynamical_parameters, sol.nondynamical_parameters]
    btol, otol = c09.tolerances(cfg)
    bound = 5 * inv * (btol + (otol or 0) * nJ) + 0.02 * (1 if b.nq or otol else 0.1) * max(1.0, inv)
    z = b.zstar()
    if got.shape != z.shape or np.max(np.abs(got - z)) > bound:
        if got.shape == z.shape:
            root, _ = b.newton(got)
            if root is not None and np.max(np.abs(got - root)) <= bound:
                raise Skip('the problem has another solution')
        raise Violation('%s with analytical Jacobians finds %s, the solution is %s' % (cfg, got, z))
    return dict(nontrivial=True, label='%s with %d quads' % (cfg['solver'], b.nq))


@st.composite
def solver_cases(draw):
    d = draw(bvps.problem())
    dim = len(d['y']) + len(d['q']) + len(d['p']) + len(d['nu'])
    cfg = draw(st.sampled_from([dict(solver='spbvp'), dict(solver='spbvp'), dict(solver='Shooting'), dict(solver='Shooting', num_arcs=3)]))
    return dict(bvp=d, dz=[draw(st.integers(-100, 100)) / 1000.0 for _ in range(dim)], nodes=draw(st.integers(5, 15)), cfg=cfg)


PARTS = [Part('compiled', cases, run, quick=(8, 25), thorough=(8, 600)),
         Part('jit', lambda: cases(small=True), run, quick=(1, 2), thorough=(4, 30), jit=True, timeout=90),
         Part('solvers', solver_cases, run_solver, quick=(6, 40), thorough=(8, 900), timeout=30)]
