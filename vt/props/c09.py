"""C09: a solution reported as converged satisfies the equations of motion and every boundary condition."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import bvps

RULE = ('a generated boundary value problem with solver settings and a guess (near, far or arbitrary) counts as non-trivial when the '
        'solver returned a verdict: converged solutions were checked against the equations, the others for a consistent verdict')


def solver(cfg):
    import beluga
    cfg = dict(cfg)
    name = cfg.pop('solver')
    with sut('constructing a solver'):
        return beluga.bvp_algorithm(name, **cfg)


def tolerances(cfg):
    """(boundary residual, equation of motion error) promised by a converged verdict"""
    if cfg['solver'].lower() == 'spbvp':
        return 2e-3, 2e-2
    tol = cfg.get('tolerance', 1e-4)
    if cfg.get('algorithm', 'Armijo').lower() == 'armijo':
        return tol * 1.01, None
    return np.sqrt(tol) * 1.01, None


def check_solution(b, cfg, g, out):
    sol = out['sol']
    t, y, q = np.asarray(sol.t, dtype=float), np.asarray(sol.y, dtype=float), np.asarray(sol.q, dtype=float)
    p, nu = np.asarray(sol.dynamical_parameters, dtype=float), np.asarray(sol.nondynamical_parameters, dtype=float)
    if y.shape != (len(t), b.n) or (b.nq and q.shape != (len(t), b.nq)) or p.shape != (b.np,) or nu.shape != (b.nn,):
        raise Violation('shapes of the solution: y %s q %s p %s nu %s' % (y.shape, q.shape, p.shape, nu.shape))
    if not np.array_equal(np.asarray(sol.const), b.k):
        raise Violation('the constants were changed to %s' % sol.const)
    if bool(out['success']) != bool(sol.converged):
        raise Violation('verdicts disagree')
    if not sol.converged:
        return False
    if abs(t[0] - g.t[0]) > 1e-12 or abs(t[-1] - g.t[-1]) > 1e-12 or not np.all(np.diff(t) > 0):
        raise Violation('solution grid runs from %r to %r (monotone: %s)' % (t[0], t[-1], bool(np.all(np.diff(t) > 0))))
    if not all(np.all(np.isfinite(v)) for v in (y, q, p, nu)):
        raise Violation('a converged solution contains non-finite values')
    btol, otol = tolerances(cfg)
    r = b.residual((y[0], q[0] if b.nq else None, y[-1], q[-1] if b.nq else None), p, nu, b.k)
    scale = 1 + max(np.max(np.abs(y)), np.max(np.abs(q)) if b.nq else 0)
    slack = 1.0 if cfg['solver'].lower() == 'shooting' else 1 + np.max(np.abs(r + b.target))
    if np.linalg.norm(r) > btol * slack * (1 if otol is None else np.sqrt(len(r))):
        raise Violation('reported converged, boundary residuals are %s (tolerance %g)' % (r, btol))
    yr, qr = b.flow(y[0], q[0] if b.nq else b.qstar, p, t)
    lip = max(1.0, sum(abs(a) for row in b.d['rows'] for a, _, _ in row['terms']) * (1 + (abs(p[0]) if b.np else 0)))
    grow = np.exp(min(lip, 5.0))
    if otol is None:
        itol = max(cfg.get('ivp_args', {}).get('abstol', 1e-6), cfg.get('ivp_args', {}).get('reltol', 1e-6))
        ytol = 200 * itol * scale * grow + (cfg.get('num_arcs', 1) - 1) * btol * grow
        h = np.max(np.diff(t))
        gs = 1 + np.max(np.abs([b.quad(v, p, b.k) for v in yr])) if b.nq else 0
        qtol = ytol * 10 * gs + (0.5 * h ** 3 * lip ** 2 + 2 * h ** 4 * lip ** 4) * gs * scale * cfg.get('num_arcs', 1)
    else:
        ytol = qtol = otol * scale * grow
    e = np.max(np.abs(yr - y))
    if e > ytol:
        raise Violation('reported converged, states deviate from the equations of motion by %.3g (allowed %.3g)' % (e, ytol))
    if b.nq:
        e = np.max(np.abs(qr - q))
        if e > qtol:
            raise Violation('reported converged, quadratures deviate by %.3g (allowed %.3g)' % (e, qtol))
    return True


def run(case):
    b = bvps.BVP(case['bvp'])
    cfg = case['cfg']
    g = b.guess(case['dz'], case['nodes'], case['flow'])
    alg = b.install(solver(cfg))
    before = copy.deepcopy(g)
    try:
        out = alg.solve(g)
    except RuntimeError as e:
        if 'nan' in str(e).lower():
            return dict(nontrivial=False, label='diverged')
        raise Violation('solving raised %r' % e)
    except Exception as e:
        if isinstance(e, (np.linalg.LinAlgError, ArithmeticError)) and not case['near'] or isinstance(e, ValueError) and case['bvp'].get('twist'):
            # diverging: an error is not a verdict
            return dict(nontrivial=False, label='no verdict')
        with sut('solving a boundary value problem'):
            raise e
    for nme in ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        if not np.array_equal(getattr(before, nme), getattr(g, nme)):
            raise Violation('solving modified the guess (%s)' % nme)
    ok = check_solution(b, cfg, before, out)
    if not ok and case['near']:
        J = b.jac()
        if np.linalg.cond(J) < 30 and np.linalg.norm(np.linalg.inv(J), 2) < 10 and np.linalg.norm(J, 2) < 10 \
                and cfg.get('algorithm', 'Armijo') in ('Armijo', 'armijo', 'fsolve', 'hybr'):
            raise Violation('a well-conditioned problem with a guess next to its solution is reported as not converged: %s' % out['message'])
    return dict(nontrivial=True, label=['twist ' + case['bvp']['twist'][1] if case['bvp'].get('twist') else 'gain' if 'gain' in case['bvp'] else 'plain', 'converged' if ok else 'not converged', cfg['solver'] + ' ' + cfg.get('algorithm', ''),
                                        'near guess' if case['near'] else 'other guess', 'quadratures' if b.nq else 'no quadratures'])


SLOW = ('SLSQP', 'BFGS', 'trust-constr', 'krylov', 'broyden1', 'df-sane', 'Powell')
ALGS = ['Armijo', 'Armijo', 'Armijo', 'armijo', 'fsolve', 'SLSQP', 'hybr', 'lm', 'BFGS', 'trust-constr', 'krylov', 'broyden1', 'df-sane', 'Powell', 'COBYLA']


@st.composite
def config(draw):
    if draw(st.integers(0, 2)) == 0:
        cfg = dict(solver=draw(st.sampled_from(['spbvp', 'SPBVP'])))
        if draw(st.integers(0, 4)) == 0:
            cfg['max_nodes'] = draw(st.sampled_from([30, 100]))
        return cfg
    cfg = dict(solver=draw(st.sampled_from(['Shooting', 'shooting'])), algorithm=draw(st.sampled_from(ALGS)))
    if draw(st.booleans()):
        cfg['num_arcs'] = draw(st.integers(1, 4)) if draw(st.integers(0, 3)) else draw(st.integers(5, 12))
    if draw(st.booleans()):
        cfg['tolerance'] = draw(st.sampled_from([1e-4, 1e-5, 1e-3, 1e-2]))
    if draw(st.booleans()):
        cfg['ivp_args'] = dict(abstol=1e-7, reltol=1e-7)
    if draw(st.integers(0, 4)) == 0:
        cfg['max_iterations'] = draw(st.sampled_from([1, 2, 5]))
    elif cfg['algorithm'] in SLOW:
        cfg['max_iterations'] = draw(st.sampled_from([10, 25]))
    return cfg


@st.composite
def cases(draw):
    d = draw(bvps.problem())
    dim = len(d['y']) + len(d['q']) + len(d['p']) + len(d['nu'])
    cfg = draw(config())
    mode = draw(st.sampled_from(['near', 'near', 'mid', 'far', 'flat']))
    amp = dict(near=1e-3, mid=0.3, far=2.0, flat=1.0)[mode]
    dz = [draw(st.integers(-100, 100)) / 100.0 * amp for _ in range(dim)]
    near = mode == 'near' and 'max_iterations' not in cfg and 'max_nodes' not in cfg
    if draw(st.integers(0, 3)) == 0:
        # conditions in large units: small steps of the unknowns, large residuals
        one = draw(st.sampled_from([1e3, 1e5, 1e7]))
        d['gain'] = [one * draw(st.sampled_from([1, 1, 2, -1])) for _ in range(len(d['bc']))]
        near = False
        if cfg['solver'].lower() == 'shooting':
            cfg['max_error'] = 1e12
            cfg['max_iterations'] = min(cfg.get('max_iterations', 40), 40)
        else:
            cfg['max_nodes'] = 100
    if draw(st.integers(0, 3)) == 0:
        # a problem that has no solution, or none with a regular Jacobian
        d['twist'] = [draw(st.integers(0, 8)), draw(st.sampled_from(['exp', 'exp', 'square', 'cube', 'steep', 'kink'])),
                      draw(st.sampled_from([0.3, 1.0, 3.0, 20.0])), draw(st.sampled_from([0.0, 0.1, 1.0, 3.0]))]
        if draw(st.booleans()):
            cfg['max_error'] = 1e9
        near = False
        if cfg['solver'].lower() == 'spbvp':
            cfg['max_nodes'] = draw(st.sampled_from([30, 100, 200]))
        else:
            cfg.setdefault('max_iterations', draw(st.sampled_from([10, 40])))
    return dict(bvp=d, cfg=cfg, dz=dz, nodes=draw(st.integers(2 if mode == 'flat' else 5, 12)) if cfg['solver'].lower() == 'shooting'
                else draw(st.integers(5, 20)), flow=mode != 'flat', near=near)


def attempt(b, cfg, g):
    try:
        return b.install(solver(cfg)).solve(copy.deepcopy(g))
    except Exception:
        return None   # diverging: an error is not a verdict (judged by the other part)


def run_edge(case):
    """The tolerance is put just below (or above) the residual at which the iterations stop."""
    b = bvps.BVP(case['bvp'])
    g = b.guess(case['dz'], case['nodes'], case['flow'])
    cfg = dict(case['cfg'], tolerance=1e-11)
    out = attempt(b, cfg, g)
    if out is None:
        return dict(nontrivial=False, label='no verdict')
    sol = out['sol']
    y, q = np.asarray(sol.y, dtype=float), np.asarray(sol.q, dtype=float)
    r = np.linalg.norm(b.residual((y[0], q[0] if b.nq else None, y[-1], q[-1] if b.nq else None), np.asarray(sol.dynamical_parameters, dtype=float),
                                  np.asarray(sol.nondynamical_parameters, dtype=float), b.k))
    if not np.isfinite(r) or r < 1e-6 or r > 1e3:
        return dict(nontrivial=False, label='residual out of range')
    f = case['factor']
    cfg['tolerance'] = float(r / f if cfg['algorithm'] == 'Armijo' else r * r / f ** 2)
    if cfg['tolerance'] > 0.5:
        return dict(nontrivial=False, label='residual out of range')
    out = attempt(b, cfg, g)
    if out is None:
        return dict(nontrivial=False, label='no verdict')
    ok = check_solution(b, cfg, g, out)
    return dict(nontrivial=True, label=['converged' if ok else 'not converged', cfg['algorithm'], 'tolerance %s the residual' % ('below' if f > 1 else 'above')])


@st.composite
def edge_cases(draw):
    d = draw(bvps.problem())
    dim = len(d['y']) + len(d['q']) + len(d['p']) + len(d['nu'])
    cfg = dict(solver='Shooting', algorithm=draw(st.sampled_from(['Armijo', 'Armijo', 'Armijo', 'fsolve', 'hybr', 'lm', 'SLSQP'])),
               max_iterations=draw(st.integers(0, 4)))
    if draw(st.booleans()):
        cfg['num_arcs'] = draw(st.integers(1, 4))
    mode = draw(st.sampled_from(['mid', 'far', 'flat']))
    dz = [draw(st.integers(-100, 100)) / 100.0 * dict(mid=0.3, far=2.0, flat=1.0)[mode] for _ in range(dim)]
    if draw(st.booleans()):
        d['twist'] = [draw(st.integers(0, 8)), draw(st.sampled_from(['exp', 'square', 'cube', 'steep', 'kink'])),
                      draw(st.sampled_from([0.3, 1.0, 3.0])), draw(st.sampled_from([0.0, 0.1, 1.0]))]
    return dict(bvp=d, cfg=cfg, dz=dz, nodes=draw(st.integers(2 if mode == 'flat' else 5, 12)), flow=mode != 'flat',
                factor=draw(st.sampled_from([1.2, 1.5, 2.0, 4.0, 8.0, 0.8])))


PARTS = [Part('solve', cases, run, quick=(8, 80), thorough=(8, 1500), timeout=5),
         Part('edge', edge_cases, run_edge, quick=(4, 60), thorough=(8, 1000), timeout=5)]
