"""C08: propagation follows the flow of the equations of motion and integrates the quadratures."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut

RULE = ('a generated initial value problem counts as non-trivial when the propagated states (and quadratures, if any) were compared '
        'with a reference solution of much higher accuracy at every returned time')

F = [lambda z: z, np.sin, np.tanh, np.cos]


def rhs(tab, p, k):
    n = len(tab)

    def f(y, *args):
        pp, kk = args if args else (p, k)
        out = np.zeros(n)
        for i, row in enumerate(tab):
            out[i] = row['b'] * pp[0] + sum(a * F[kind](y[j]) for a, kind, j in row['terms']) * kk[0]
        return out
    return f


def reference(f, t0, y0, times, g=None, q0=None, p=None, k=None):
    from scipy.integrate import solve_ivp
    y0 = np.array(y0, dtype=float)
    n = len(y0)

    def aug(t, z):
        d = f(z[:n], p, k)
        return d if g is None else np.r_[d, g(z[:n], p, k)]
    z0 = y0 if g is None else np.r_[y0, q0]
    times = np.asarray(times, dtype=float)
    sol = solve_ivp(aug, [t0, times[-1]], z0, method='DOP853', rtol=1e-12, atol=1e-13, dense_output=True)
    if not sol.success:
        raise Skip('reference failed')
    return sol.sol(times).T


def run(case):
    from beluga.numeric.ivp_solvers import Propagator
    p, k = np.array([case['p']]), np.array([case['k']])
    f = rhs(case['rows'], p, k)
    g = rhs(case['quads'], p, k) if case['quads'] else None
    n = len(case['y0'])
    t0, tf = case['t0'], case['t0'] + case['dt']
    opts = dict(case['opts'])
    with sut('constructing a propagator'):
        prop = Propagator(**opts)
    tol = max(opts['abstol'], opts['reltol'])
    seen = []

    def eom(y, pp, kk):
        seen.append((float(pp[0]), float(kk[0])))
        return f(y, pp, kk)
    q0 = np.array(case['q0'], dtype=float) if g else np.array([])
    y0 = np.array(case['y0'], dtype=float)
    y0c, q0c = y0.copy(), q0.copy()
    with sut('propagating a smooth initial value problem'):
        tr = prop(eom, (lambda y, pp, kk: g(y, pp, kk)) if g else None, np.array([t0, tf]), y0, q0, p, k)
    if not (np.array_equal(y0, y0c) and np.array_equal(q0, q0c)):
        raise Violation('the initial values were modified')
    if any(s != (case['p'], case['k']) for s in seen):
        raise Violation('the equations of motion were called with other arguments than given')
    t, y = np.asarray(tr.t, dtype=float), np.asarray(tr.y, dtype=float)
    if y.shape != (len(t), n):
        raise Violation('states have shape %s for %d times' % (y.shape, len(t)))
    if t[0] != t0 or t[-1] != tf:
        raise Violation('propagated over [%r, %r], asked for [%r, %r]' % (t[0], t[-1], t0, tf))
    d = np.diff(t) * np.sign(case['dt'])
    if not np.all(d > 0):
        raise Violation('times are not monotone')
    if opts.get('variable_step', True):
        if np.max(d) > opts['maxstep'] * (1 + 1e-9):
            raise Violation('step %.6g exceeds the maximum step %.6g' % (np.max(d), opts['maxstep']))
    else:
        if not np.allclose(d[:-1], opts['maxstep'], rtol=1e-6) or d[-1] > opts['maxstep'] * (1 + 1e-6):
            raise Violation('fixed-step grid is not spaced by %.6g: %s' % (opts['maxstep'], t))
    if not np.allclose(y[0], y0, rtol=1e-9, atol=1e-9):
        raise Violation('the trajectory does not start at the initial state')
    ref = reference(f, t0, y0, t, g, q0, p, k)
    scale = 1 + np.max(np.abs(ref[:, :n]))
    lip = max(1.0, sum(abs(a) for r in case['rows'] for a, _, _ in r['terms']) * abs(case['k']))
    grow = np.exp(min(lip * abs(case['dt']), 6.0))
    err = np.max(np.abs(y - ref[:, :n]))
    bound = 200 * tol * scale * grow
    if err > bound:
        raise Violation('state error %.3g exceeds %.3g (tolerances %g)' % (err, bound, tol))
    if g:
        q = np.asarray(tr.q, dtype=float)
        if q.shape != (len(t), len(q0)):
            raise Violation('quadratures have shape %s for %d times' % (q.shape, len(t)))
        if not np.allclose(q[0], q0):
            raise Violation('quadratures start at %s, asked for %s' % (q[0], q0))
        h = np.max(d)
        gs = 1 + np.max(np.abs([g(v, p, k) for v in ref[:, :n]]))
        qb = (0.5 * h ** 3 * lip ** 2 + 2 * h ** 4 * lip ** 4) * gs * scale + bound * abs(case['dt']) * 10
        rows = [len(t) - 1] if opts.get('quick_reconstruct') else range(len(t))
        e = max(np.max(np.abs(q[i] - ref[i, n:])) for i in rows)
        if e > qb:
            raise Violation('quadrature error %.3g exceeds %.3g' % (e, qb))
    lab = [opts['stepper'], 'backward' if case['dt'] < 0 else 'forward', 'quadratures' if g else 'no quadratures',
           'variable step' if opts.get('variable_step', True) else 'fixed step']
    return dict(nontrivial=True, label=lab)


@st.composite
def table(draw, n, rows):
    co = st.integers(-20, 20).filter(bool).map(lambda i: i / 10.0)
    return [dict(b=draw(co), terms=[[draw(co), draw(st.integers(0, 3)), draw(st.integers(0, n - 1))]
                                    for _ in range(draw(st.integers(1, 2)))]) for _ in range(rows)]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 4)) if draw(st.integers(0, 7)) else draw(st.integers(5, 9))
    nq = draw(st.sampled_from([0, 0, 1, 2, 3]))
    val = st.integers(-300, 300).map(lambda i: i / 100.0)
    tol = draw(st.sampled_from([1e-6, 1e-6, 1e-8]))
    opts = dict(abstol=tol, reltol=tol, maxstep=draw(st.sampled_from([0.1, 0.05, 0.02, 0.07])),
                stepper=draw(st.sampled_from(['RK45', 'rk45', 'RK23', 'DOP853', 'Radau', 'LSODA', 'BDF'])))
    sign = draw(st.sampled_from([1, 1, -1]))
    if draw(st.integers(0, 3)) == 0:
        opts['variable_step'] = False
    dt = sign * draw(st.integers(5, 200)) / 100.0
    t0 = draw(st.sampled_from([0, 0, 100, -150, 37])) / 100.0
    if nq and sign > 0 and draw(st.integers(0, 3)) == 0:
        opts['quick_reconstruct'] = True
    return dict(rows=draw(table(n, n)), quads=draw(table(n, nq)), y0=[draw(val) for _ in range(n)],
                q0=[draw(val) for _ in range(nq)], t0=t0, dt=dt, p=draw(st.integers(1, 20)) / 10.0,
                k=draw(st.integers(2, 15)) / 10.0, opts=opts)


# ---------------------------------------------------------------- quadratures along a given trajectory


def run_given(case):
    from beluga.numeric.ivp_solvers import reconstruct, integrate_quads
    from beluga.numeric.data_classes.Trajectory import Trajectory
    p, k = np.array([case['p']]), np.array([case['k']])
    g = rhs(case['quads'], p, k)
    w = np.cumsum([0.0] + [1 + 0.5 * e for e in case['jitter']])
    t = case['t0'] + case['dt'] * w / w[-1]
    amp, om, ph = (np.array(v) for v in zip(*case['waves']))
    y = lambda time: amp * np.sin(om * time + ph)
    h = np.max(np.abs(np.diff(t)))
    lip = max(1.0, sum(abs(a) for row in case['quads'] for a, _, _ in row['terms']) * abs(case['k'])) * (1 + np.max(np.abs(amp))) ** 3
    tol = 2 * lip * h ** 3 * (1 + abs(case['dt'])) + 1e-9
    xg, wg = np.polynomial.legendre.leggauss(40)

    def integral(a, b):
        return sum(wi * g(y((a + b) / 2 + (b - a) / 2 * xi), p, k) for xi, wi in zip(xg, wg)) * (b - a) / 2
    q0 = np.array(case['q0'], dtype=float)
    gam = Trajectory(t, np.array([y(v) for v in t]))
    with sut('reconstructing quadratures along a trajectory'):
        out = reconstruct(lambda yy, pp, kk: g(yy, pp, kk), gam, q0.copy(), p, k)
    q = np.asarray(out.q, dtype=float)
    if q.shape != (len(t), len(q0)) or not np.array_equal(out.t, t) or not np.array_equal(out.y, np.array([y(v) for v in t])):
        raise Violation('reconstruction returned quadratures of shape %s on %d nodes, or other times or states' % (q.shape, len(t)))
    for i in range(len(t)):
        e = np.max(np.abs(q[i] - q0 - integral(t[0], t[i])))
        if e > tol:
            raise Violation('reconstructed quadratures at node %d are off by %.3g (allowed %.3g)' % (i, e, tol))
    if case['dt'] < 0:
        return dict(nontrivial=True, label='reconstruct backward')
    # over part of the trajectory, starting from the quadratures it has there
    slope = np.array(case['slope'], dtype=float)
    if case['with_q']:
        gam.q = q0 + np.outer(t - t[0], slope)
    a, b = case['part']
    span = [t[int(v)] if v == int(v) else t[int(v)] + (v - int(v)) * (t[int(v) + 1] - t[int(v)]) for v in (a, b)]
    with sut('integrating quadratures over part of a trajectory'):
        qf = np.asarray(integrate_quads(lambda tt, yy, pp, kk: g(yy, pp, kk), np.array(span), gam, p, k), dtype=float)
    want = integral(*span) + (q0 + slope * (span[0] - t[0]) if case['with_q'] else 0)
    if qf.shape != q0.shape or np.max(np.abs(qf - want)) > tol:
        raise Violation('quadratures over [%.6g, %.6g] of [%.6g, %.6g]: %s, expected %s (allowed %.3g)' % (*span, t[0], t[-1], qf, want, tol))
    return dict(nontrivial=True, label=['part of a trajectory', 'with quadratures' if case['with_q'] else 'without quadratures'])


@st.composite
def given_cases(draw):
    n, nq, N = draw(st.integers(1, 3)), draw(st.integers(1, 3)), draw(st.integers(8, 30))
    val = st.integers(-300, 300).map(lambda i: i / 100.0)
    # positions on the grid: whole numbers are nodes
    a = draw(st.one_of(st.integers(0, N - 3), st.integers(0, 4 * (N - 3)).map(lambda i: i / 4.0), st.just(0)))
    b = draw(st.one_of(st.integers(int(a) + 1, N - 1), st.integers(4 * (int(a) + 1), 4 * (N - 1)).map(lambda i: i / 4.0), st.just(N - 1)))
    return dict(quads=draw(table(n, nq)), q0=[draw(val) for _ in range(nq)], slope=[draw(val) for _ in range(nq)], with_q=draw(st.booleans()),
                jitter=[draw(st.integers(0, 2)) for _ in range(N - 1)], waves=[[draw(val), draw(st.integers(1, 10)) / 10.0, draw(val)] for _ in range(n)],
                t0=draw(st.sampled_from([0.0, 0.0, 1.0, -1.5])), dt=draw(st.sampled_from([1.0, 0.5, 2.0, -1.0])), part=[a, b],
                p=draw(st.integers(1, 20)) / 10.0, k=draw(st.integers(2, 15)) / 10.0)


PARTS = [Part('ivp', cases, run, quick=(8, 300), thorough=(8, 2500), timeout=30),
         Part('given', given_cases, run_given, quick=(2, 200), thorough=(4, 3000), timeout=30)]
