"""C17: the algebraic control law is stationary and picks the option with the smallest Hamiltonian."""
import math
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, pmp, maps
from vt.ocp import build_problem, formulate, lam

RULE = ('a generated (problem, points) pair counts as non-trivial when at one or more points the control law was compared with every '
        'stationary point of the Hamiltonian found by search, and (label "several") there was more than one to choose from')


def roots(g, lo, hi, n):
    from scipy.optimize import brentq
    xs = np.linspace(lo, hi, n)
    gs = np.array([g(x) for x in xs])
    out = []
    for a, b, ga, gb in zip(xs[:-1], xs[1:], gs[:-1], gs[1:]):
        if not (np.isfinite(ga) and np.isfinite(gb)):
            continue
        if ga == 0:
            out.append(a)
        elif ga * gb < 0:
            out.append(brentq(g, a, b, xtol=1e-13))
    return out


def run(case):
    spec, opt = case['spec'], dict(case['options'])
    method = opt.pop('method')
    with sut('formulating a valid problem with an algebraic control law'):
        bvp = formulate(build_problem(spec), method=method, control_method='algebraic', **opt)
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    fp = bvp.functional_problem
    names = [s.name for s in bvp.states]
    k = [c['value'] for c in spec['constants']]
    args = P.x + [P.t] + P.u + P.lamx + [P.lamt] + P.consts
    fH = lam(args, [P.H] + P.g)
    used = several = 0
    lay = None
    if len(names) == 2 * n + 2:
        lay = pmp.layout(bvp, P)
    p = np.array([case['dt']])
    kk = np.array([k[P.r.const_names.index(c.name)] for c in bvp.constants], dtype=float)
    if lay is None or lay['t'] is None or len(lay['rest']) != n + 1:
        raise Violation('the boundary value problem has variables %s' % names)
    for pt in case['pts']:
        def H(u):
            return fH(list(pt['x']) + [pt['t']] + list(u) + list(pt['lam']) + [pt['lamt']] + k)
        y = np.zeros(len(names))
        for i, v in zip(lay['x'], pt['x']):
            y[i] = v
        y[lay['t']] = pt['t']
        for i, v in zip(lay['rest'], list(pt['lam']) + [pt['lamt']]):
            y[i] = v
        # stationary points, control by control (the Hamiltonian of these problems is a sum over controls)
        best, count, ok = [], 1, True
        base = [0.3] * m
        for j in range(m):
            kind = case['kinds'][j]
            if kind == 'coupled':
                break
            lo, hi, cnt = (-math.pi, math.pi, 401) if kind in ('trig', 'bounded') else (-60, 60, 4001)

            def g(v):
                u = list(base)
                u[j] = v
                return H(u)[1 + j]
            if kind in ('trig', 'bounded'):
                amp = max(abs(g(a)) for a in np.linspace(-3, 3, 13))
                if not amp > 1e-2:
                    ok = False
                    break
            rs = roots(g, lo, hi, cnt)
            hs = []
            for r in rs:
                u = list(base)
                u[j] = r
                hs.append(H(u)[0])
            if not rs or not np.all(np.isfinite(hs)):
                ok = False
                break
            order = np.argsort(hs)
            count *= len(rs)
            best.append((rs[order[0]], hs[order[0]]))
        if case['kinds'][0] == 'coupled':
            # stationarity is linear in the controls
            g0 = np.array(H([0.] * m)[1:])
            J = np.array([np.array(H([float(i == j) for i in range(m)])[1:]) - g0 for j in range(m)]).T
            if not (np.all(np.isfinite(J)) and np.linalg.cond(J) < 1e4):
                continue
            best = [(v, None) for v in np.linalg.solve(J, -g0)]
            ok = True
        if not ok:
            continue
        with sut('control law evaluation'):
            got = np.asarray(fp.compute_u(y, p, kk))
        if got.shape != (m,):
            raise Violation('the control law returns shape %s for %d controls' % (got.shape, m))
        if np.iscomplexobj(got):
            raise Violation('the control law returns complex numbers %s' % got)
        got = got.astype(float)
        if not np.all(np.isfinite(got)):
            raise Violation('the control law gives %s although the Hamiltonian has a stationary point at %s (point %s)'
                            % (got, [b[0] for b in best], pt))
        h = H(list(got))
        hb = H([b[0] for b in best])
        sc = 1 + abs(hb[0]) + sum(abs(v) for v in got)
        for j in range(m):
            if not abs(h[1 + j]) <= 1e-6 * sc * (1 + max(abs(H([b[0] + 1 for b in best])[1 + j]), 1)):
                raise Violation('dH/d%s is %.6g at the control %s of the law (point %s)' % (spec['controls'][j]['name'], h[1 + j], got, pt))
        if not h[0] <= hb[0] + 1e-6 * sc:
            raise Violation('the law picks the control %s with Hamiltonian %.9g, but the stationary control %s has %.9g (point %s)'
                            % (got, h[0], [b[0] for b in best], hb[0], pt))
        # the rates use the same control
        with sut('rates'):
            yd = np.asarray(fp.deriv_func(y, p, kk), dtype=float)
        d = P.dyn(dict(x=pt['x'], t=pt['t'], u=list(got), lam=pt['lam'], lamt=pt['lamt'], dt=case['dt'], k=k))
        want = np.zeros(len(names))
        for i, v in zip(lay['x'], d['xd']):
            want[i] = v * case['dt']
        want[lay['t']] = case['dt']
        for i, v in zip(lay['rest'], list(d['ld']) + [d['ltd']]):
            want[i] = v * case['dt']
        if pmp.finite(want) and np.max(np.abs(want)) < 1e7:
            bad = np.where(np.abs(yd - want) > 1e-6 * (1 + np.abs(want)) + 1e-7 * np.max(np.abs(want)))[0]
            if bad.size:
                raise Violation('rate of %s is %.9g, with the control of the law it has to be %.9g (point %s)'
                                % (names[bad[0]], yd[bad[0]], want[bad[0]], pt))
        used += 1
        several += count > 1
    if not used:
        raise Skip('no point with a regular stationary control')
    traj_check(case, spec, P, bvp, fp)
    return dict(nontrivial=True, label=['%s' % '+'.join(case['kinds']), 'several' if several else 'single', method])


def traj_check(case, spec, P, bvp, fp):
    """the controls of a solution handed back are the law at its nodes"""
    n, m, n0, nf = P.sizes()
    pts = case['pts']
    rows = [dict(x=q['x'], u=[0.5] * m, lam=q['lam'], lamt=q['lamt']) for q in pts]
    if len(rows) < 2:
        return
    traj = dict(t=[0.25 + 0.5 * i for i in range(len(rows))], rows=rows, nu=[0.1] * (n0 + nf), give_nu=True)
    u, bounded = maps.controls_within(spec, traj)
    sol = maps.make_traj(spec, traj, u, [c['value'] for c in spec['constants']])
    mp = maps.forward(bvp, sol)
    back = maps.backward(bvp, mp)
    with sut('control law at the nodes of a solution'):
        law = np.array([fp.compute_u(mp.y[i], mp.dynamical_parameters, mp.const) for i in range(len(rows))], dtype=float)
    for kk, (lo, up) in bounded.items():
        law[:, kk] = lo + (up - lo) * (1 + np.sin(law[:, kk])) / 2
    if back.u.shape != law.shape:
        raise Violation('controls of the solution have shape %s, expected %s' % (back.u.shape, law.shape))
    a, b = np.asarray(back.u, dtype=float), law
    if not np.all((np.abs(a - b) <= 1e-9 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))):
        raise Violation('controls of the solution are %s, the law gives %s' % (back.u, law))


PAIRS = [('trig', 'quad'), ('quad', 'quad'), ('bounded', 'quad'), ('trig', 'bounded'), ('bounded', 'bounded'), ('coupled', 'coupled'),
         ('coupled', 'coupled'), ('quartic', 'quartic'), ('quartic', 'trig'), ('quad', 'quartic'), ('cubic', 'cubic'), ('quad', 'cubic')]


@st.composite
def cases(draw, small=False):
    m = 1 if small else draw(st.sampled_from([1, 1, 1, 2, 2]))
    n = draw(st.integers(1, 2 if m == 2 else 3)) if not small else 1
    sn = draw(st.permutations(gen.STATE_NAMES))[:n]
    cn = draw(st.permutations(gen.CONTROL_NAMES))[:m]
    kinds = [draw(st.sampled_from(['trig', 'quad', 'quartic', 'cubic', 'exp', 'bounded', 'trig', 'mixed'])) for _ in cn]
    if m == 2:
        kinds = list(draw(st.sampled_from(PAIRS)))
    consts = [dict(name='c1', value=draw(st.integers(20, 200)) / 100.0)]
    base = list(sn) + ['c1'] + draw(st.sampled_from([[], ['t']]))
    co = st.sampled_from(['1', '0.5', '-1', '2', 'c1'] + list(sn))
    eoms = [draw(gen.expr(base, 1, 2)) for _ in sn]
    L = draw(st.sampled_from(['1', '0', draw(gen.expr(base, 1, 2))]))
    path = []
    for c, kind in zip(cn, kinds):
        rows = draw(st.lists(st.sampled_from(list(range(n))), min_size=1, max_size=n, unique=True))
        for j, i in enumerate(rows):
            a = draw(co)
            if kind == 'trig':
                f = draw(st.sampled_from(['cos', 'sin'])) if n > 1 else ['sin', 'cos'][j % 2]
                eoms[i] += ' + %s*%s(%s)' % (a, f, c)
            elif kind not in ('quartic', 'mixed'):
                eoms[i] += ' + %s*%s' % (a, c)
        if kind == 'trig' and n == 1 or kind == 'trig' and draw(st.booleans()):
            L += ' + 0.7*cos(%s)' % c
        elif kind == 'quad':
            L += ' + %s*%s**2' % (draw(st.sampled_from(['0.5', '2', '1.5'])), c)
            if draw(st.booleans()):
                L += ' + 0.5*%s*%s' % (c, draw(st.sampled_from(base)))
        elif kind == 'quartic':
            # the sign of the quadratic term changes from point to point: one or three stationary points
            w = draw(st.sampled_from(base))
            eoms[rows[0]] += ' + %s**2' % c
            L += ' + 0.25*%s**4 + (1.1 - %s)*%s**2' % (c, w, c)
        elif kind == 'mixed':
            # stationary points v and +-sqrt(w), the latter real at some points only
            d = dict(c=c, v=draw(st.sampled_from(base + ['0.5', '(0.5 + c1**2*%s)' % sn[0], '(c1 + 0.25*%s**2 + 0.1)' % sn[-1]])), w='(%s - %s)' % (draw(st.sampled_from(base)), draw(st.sampled_from(['1.1', 'c1']))))
            q = '(%(c)s**4/4 - %(v)s*%(c)s**3/3 - %(w)s*%(c)s**2/2 + %(w)s*%(v)s*%(c)s)' % d
            if draw(st.booleans()):
                q = '(%(c)s**5/5 - (%(v)s + %(w)s)*%(c)s**3/3 + %(w)s*%(v)s*%(c)s)' % d
            L += ' + ' + q
            if draw(st.booleans()):
                eoms[rows[0]] += ' + 0.3*' + q
        elif kind == 'coupled':
            L += ' + %s*%s**2' % (draw(st.sampled_from(['0.5', '2', '1.5'])), c)
            if c == cn[-1]:
                L += ' + %s*%s*%s' % (draw(st.sampled_from(['0.5', '-0.4', 'sin(%s)' % sn[0], 'cos(c1)'])), cn[0], cn[1])
        elif kind == 'cubic':
            L += ' + %s**3/3 - (%s)*%s' % (c, draw(st.sampled_from(base)), c)
        elif kind == 'exp':
            L += ' + exp(%s) - 3*%s*%s' % (c, draw(st.sampled_from(base)), c)
        elif kind == 'bounded':
            lo, up = draw(st.sampled_from([('-1', '1'), ('-0.5', '2'), ('-c1', '2*c1'), ('0.1', '0.9')]))
            consts.append(dict(name='eps_' + c, value=draw(st.sampled_from([0.5, 0.1, 1.0]))))
            path.append(dict(expr=c, lower=lo, upper=up, activator='eps_' + c, method='epstrig'))
    spec = dict(indep='t', states=[dict(name=s, eom=e) for s, e in zip(sn, eoms)], controls=[dict(name=c) for c in cn], constants=consts,
                path_cost=L, initial=[dict(expr='%s - 1' % s) for s in sn] + [dict(expr='t')],
                terminal=[dict(expr='%s - 2' % sn[0])] + draw(st.sampled_from([[], [dict(expr='t - 1')]])))
    if path:
        spec['path'] = path
    pts = [dict(x=draw(gen.point(n)), t=draw(st.integers(20, 200)) / 100.0, lam=draw(gen.signed(n)),
                lamt=draw(st.integers(-200, 200)) / 100.0) for _ in range(draw(st.integers(2, 6)))]
    return dict(spec=spec, kinds=kinds, pts=pts, dt=draw(st.integers(20, 300)) / 100.0,
                options=dict(method=draw(st.sampled_from(['traditional', 'diffyg']))))


PARTS = [
    Part('law', cases, run, quick=(8, 45), thorough=(8, 900)),
    Part('jit', lambda: cases(small=True), run, quick=(1, 6), thorough=(4, 60), jit=True, timeout=200),
]
