"""C12: the cost reported with a solution is the objective of the problem on that solution."""
import math
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, pmp, maps
from vt.ocp import build_problem, formulate, lam

RULE = ('a generated (problem, formulation, smooth trajectory) triple counts as non-trivial when the objective is finite, differs from '
        'zero and was compared with the cost reported on the way back from the boundary value problem')


def smooth(c, s):
    """a smooth function of s in 0..1 with values within 0.2..2, from three numbers within 0.2..2"""
    a, b, w = c
    return 1.1 + 0.45 * (a - 1.1) + 0.45 * (b - 1.1) * np.sin(2.5 * w * s + a) + 0.15 * np.cos(3 * s + w)


def grid(case):
    N = case['N']
    s = np.linspace(0.0, 1.0, N)
    z = s + case['warp'] * np.sin(2 * math.pi * s) / 10.0
    return s, case['t0'] + case['span'] * z


def run(case):
    spec, opt = case['spec'], dict(case['options'])
    method = opt.pop('method')
    with sut('formulating a valid problem'):
        bvp = formulate(build_problem(spec), method=method, **opt)
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    s, t = grid(case)
    cyc = maps.cyclic_names(spec)
    rows = []
    shape = (lambda c, _: smooth(c, case['still'] * s)) if 'still' in case else smooth
    X = [shape(c, s) for c in case['x']]
    U = [shape(c, s) for c in case['u']]
    LAM = [shape(c, s) if spec['states'][j]['name'] not in cyc else np.full(len(s), c[0]) for j, c in enumerate(case['lam'])]
    LT = shape(case['lamt'], s)
    for i in range(len(s)):
        rows.append(dict(x=[float(v[i]) for v in X], u=[float(v[i]) for v in U], lam=[float(v[i]) for v in LAM], lamt=float(LT[i])))
    traj = dict(t=[float(v) for v in t], rows=rows, nu=[0.5] * (n0 + nf), give_nu=case['give_nu'], noq=case['noq'])
    u, bounded = maps.controls_within(spec, traj)
    k = [c['value'] for c in spec['constants']]
    sol = maps.make_traj(spec, traj, u, k)
    back = maps.backward(bvp, maps.forward(bvp, sol))
    bu = np.array(back.u, dtype=float)
    if bu.shape != (len(s), m):
        raise Violation('controls have shape %s' % (bu.shape,))
    if opt.get('control_method') == 'algebraic' and not np.all(np.isfinite(bu)):
        raise Skip('no real control')
    w = np.array(bu)
    for kk, (lo, up) in bounded.items():
        w[:, kk] = np.arcsin(np.clip((2 * bu[:, kk] - lo - up) / (up - lo), -1, 1))
    args = P.x + [P.t] + P.u + P.consts
    fL, f0, ff = lam(args, [P.L]), lam(args, [P.phi0]), lam(args, [P.phif])

    def at(f, i):
        return f(list(rows[i]['x']) + [traj['t'][i]] + list(w[i]) + k)[0]
    Ls = np.array([at(fL, i) for i in range(len(s))])
    ends = at(f0, 0) + at(ff, len(s) - 1)
    if not np.all(np.isfinite(Ls)) or not np.isfinite(ends) or np.max(np.abs(Ls)) > 1e6 or abs(ends) > 1e6:
        raise Skip('objective not finite')
    from scipy.interpolate import CubicSpline
    best = float(CubicSpline(t, Ls).integrate(t[0], t[-1]))
    trap = float(np.sum(0.5 * (Ls[1:] + Ls[:-1]) * np.diff(t)))
    scale = max(1.0, float(np.sum(0.5 * (abs(Ls[1:]) + abs(Ls[:-1])) * np.diff(t))), abs(ends))
    rough = abs(best - trap)
    few = 0.3 * float(np.sum(np.abs(np.diff(Ls)) * np.diff(t))) if 'still' in case else 0.0   # rules differ on few nodes, not by that much
    if rough > 0.01 * scale and not few:
        raise Skip('integrand too rough for the nodes')
    got = float(back.cost)
    want = best + ends
    from scipy.integrate import simpson
    fine = abs(float(simpson(Ls, x=t)) - best)       # what a rule for smooth integrands leaves
    if not abs(got - want) <= 0.5 * rough + 10 * fine + few + 1e-7 * scale:
        raise Violation('reported cost %.10g, the objective is %.10g (path %.6g, ends %.6g)' % (got, want, best, ends))
    return dict(nontrivial=abs(want) > 1e-6, label=['%s %s%s' % (method, opt.get('control_method'), ' reduced' if opt.get('reduction') else ''),
                                                    'ends' if ends else 'path only', 'bounded' if bounded else 'free'])


OPTIONS = [
    dict(method='traditional', control_method='differential'), dict(method='diffyg', control_method='differential'),
    dict(method='traditional', control_method='algebraic'), dict(method='diffyg', control_method='algebraic'),
    dict(method='traditional', control_method='differential', do_normalize_time=False),
    dict(method='diffyg', control_method='differential', reduction=True),
]


def triple():
    return gen.point(3)


@st.composite
def cases(draw, small=False):
    opt = draw(st.sampled_from(OPTIONS))
    alg = opt['control_method'] == 'algebraic'
    kw = dict(max_states=2, max_controls=1 if alg else 2, nonlinear_u=not alg, qty_controls=not alg)
    if small:
        kw.update(max_states=1 + bool(opt.get('reduction')), max_controls=1, costs=True, cyclic=1 if opt.get('reduction') else 0)
    elif opt.get('reduction'):
        kw.update(cyclic=2, max_states=3)
    else:
        kw.update(quantities=draw(st.sampled_from([0, 2])), switches=0 if alg else draw(st.sampled_from([0, 0, 1])),
                  utm=0 if alg else draw(st.sampled_from([0, 1])), end_bounds=draw(st.sampled_from([0, 1])),
                  epstrig=(not alg and draw(st.integers(0, 3)) == 0))
    spec = draw(genocp.ocp_spec(**kw))
    n, m = len(spec['states']), len(spec['controls'])
    return dict(spec=spec, options=opt, N=draw(st.integers(24, 61)), noq=draw(st.booleans()), warp=draw(st.integers(-10, 10)) / 10.0,
                t0=draw(st.integers(20, 120)) / 100.0, span=draw(st.integers(20, 100)) / 100.0, give_nu=draw(st.booleans()),
                x=[draw(triple()) for _ in range(n)], u=[draw(triple()) for _ in range(m)],
                lam=[draw(triple()) for _ in range(n)], lamt=draw(triple()))


@st.composite
def still_cases(draw):
    """few nodes, with nothing or little moving along the trajectory: every rule of integration gives about the same"""
    case = draw(cases())
    case.update(still=draw(st.sampled_from([0.0, 0.3, 0.6])), N=draw(st.integers(2, 6)), span=draw(st.sampled_from([0.5, 1.0, 1.5])))
    return case


PARTS = [
    Part('cost', cases, run, quick=(8, 25), thorough=(8, 700)),
    Part('still', still_cases, run, quick=(4, 15), thorough=(4, 300)),
    Part('jit', lambda: cases(small=True), run, quick=(1, 3), thorough=(4, 30), jit=True, timeout=200),
]
