"""C03: solution maps between the original problem and the boundary value problem are mutually inverse and consistent."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import genocp, pmp, maps
from vt.ocp import build_problem, formulate

RULE = ('a generated (problem, formulation options, trajectory) triple counts as non-trivial when the trajectory was '
        'mapped forward, checked against the formulation and mapped back')


def check_back(spec, sol, back, what, algebraic=False, bvp=None, dual_t=True):
    for nme in ('t', 'y', 'const', 'dynamical_parameters'):
        if not maps.same(getattr(sol, nme), getattr(back, nme)):
            raise Violation('%s: %s comes back as %s, was %s' % (what, nme, getattr(back, nme), getattr(sol, nme)))
    if not maps.same(sol.dual, back.dual):
        raise Violation('%s: costates come back as %s, were %s' % (what, back.dual, sol.dual))
    if dual_t and not maps.same(sol.dual_t, back.dual_t):
        raise Violation('%s: costate of time comes back as %s, was %s' % (what, back.dual_t, sol.dual_t))
    if not algebraic and not maps.same(sol.u, back.u, 1e-7):
        raise Violation('%s: controls come back as %s, were %s' % (what, back.u, sol.u))
    if back.u.shape != sol.u.shape:
        raise Violation('%s: controls come back with shape %s, were %s' % (what, back.u.shape, sol.u.shape))


def run(case):
    spec, opt = case['spec'], dict(case['options'])
    method = opt.pop('method')
    algebraic = opt.get('control_method') == 'algebraic'
    full_time = opt.get('do_momentum_shift', True) and opt.get('do_normalize_time', True)
    with sut('formulating a valid problem'):
        bvp = formulate(build_problem(spec), method=method, **opt)
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    k = [c['value'] for c in spec['constants']]
    u, bounded = maps.controls_within(spec, case['traj'])
    sol = maps.make_traj(spec, case['traj'], u, k)
    orig = copy.deepcopy(sol)
    mp = maps.forward(bvp, sol)
    N = len(sol.t)
    ny, nq = len(bvp.states), len(bvp.quads)
    if mp.y.shape != (N, ny) or mp.q.shape != (N, nq) and not (nq == 0 and mp.q.size == 0):
        raise Violation('mapped trajectory has shapes y %s q %s, the problem has %d states %d quadratures'
                        % (mp.y.shape, mp.q.shape, ny, nq))
    if len(mp.dynamical_parameters) != len(bvp.parameters) \
            or len(mp.nondynamical_parameters) != len(bvp.constraint_parameters):
        raise Violation('mapped trajectory has %d parameters and %d multipliers, the problem %d and %d'
                        % (len(mp.dynamical_parameters), len(mp.nondynamical_parameters), len(bvp.parameters),
                           len(bvp.constraint_parameters)))
    if case['traj']['give_nu'] and not maps.same(mp.nondynamical_parameters, case['traj']['nu']):
        raise Violation('supplied multipliers %s became %s' % (case['traj']['nu'], mp.nondynamical_parameters))
    back = maps.backward(bvp, mp)
    known = False
    if bounded and back.u.shape == u.shape:
        # known finding: the forward map halves the excursion of a trigonometrically bounded control from mid-range
        half = np.array(u)
        for kk, (lo, up) in bounded.items():
            half[:, kk] = (lo + up) / 2 + (u[:, kk] - (lo + up) / 2) / 2
        if maps.same(half, back.u, 1e-7) and not maps.same(u, back.u, 1e-7):
            known, u = True, half
            orig.u = half
    check_back(spec, orig, back, 'round trip', algebraic=algebraic, dual_t=opt.get('do_momentum_shift', True))
    # boundary value side: mapping the recovered trajectory again gives the same data
    back = dict_free(back)
    if known:
        back.u = np.array(sol.u)
    again = maps.forward(bvp, back)
    for nme in ('t', 'y', 'q', 'dynamical_parameters', 'const'):
        if not maps.same(getattr(mp, nme), getattr(again, nme), 1e-7):
            raise Violation('mapping the recovered trajectory again changes %s: %s -> %s'
                            % (nme, getattr(mp, nme), getattr(again, nme)))
    # meaning: at the mapped points the compiled problem shows the residuals of the original data
    used = 0
    if full_time:
        used = meaning(case, spec, P, bvp, mp, u, bounded, k, method, algebraic)
    lab = ['%s %s%s%s' % (method, opt.get('control_method'), ' reduced' if opt.get('reduction') else '',
                          '' if full_time else ' partial-time'),
           ('bounded controls' if bounded else 'free controls') + (' (known finding)' if known else ''), 'controls %d' % m]
    return dict(nontrivial=True, label=lab)


def dict_free(back):
    back = copy.deepcopy(back)
    if back.q.ndim != 2:
        back.q = np.zeros((len(back.t), 0))
    return back


def meaning(case, spec, P, bvp, mp, u, bounded, k, method, algebraic):
    n, m, n0, nf = P.sizes()
    fp = bvp.functional_problem
    rows = case['traj']['rows']
    t = case['traj']['t']
    dt = t[-1] - t[0]
    nu = list(mp.nondynamical_parameters)

    def pt(i):
        uu = list(u[i])
        for kk, (lo, up) in bounded.items():
            uu[kk] = float(np.arcsin((2 * u[i][kk] - lo[i] - up[i]) / (up[i] - lo[i])))
        return dict(x=rows[i]['x'], t=t[i], u=uu, lam=rows[i]['lam'], lamt=rows[i]['lamt'], dt=dt, k=k, nu=nu)
    if not maps.same(mp.t, (np.array(t) - t[0]) / dt):
        raise Violation('normalised time grid is %s for times %s' % (mp.t, t))
    cn = [c.name for c in bvp.constants]
    kk = np.array([k[P.r.const_names.index(c)] for c in cn], dtype=float)
    p0, pf = pt(0), pt(len(t) - 1)
    if algebraic:
        with sut('control law'):
            p0['u'] = list(np.asarray(fp.compute_u(mp.y[0], mp.dynamical_parameters, kk), dtype=float))
            pf['u'] = list(np.asarray(fp.compute_u(mp.y[-1], mp.dynamical_parameters, kk), dtype=float))
    ref = P._fbc0(P.flat(p0, nu=True)) + P._fbcf(P.flat(pf, nu=True))
    if algebraic:
        ref = ref[:-m]
    elif method == 'diffyg':
        ref = ref + [0.0] * m
    if not pmp.finite(ref) or np.max(np.abs(ref)) > 1e7:
        return 0
    with sut('boundary conditions at a mapped trajectory'):
        if len(bvp.quads):
            act = fp.bc_func(mp.y[0], mp.q[0], mp.y[-1], mp.q[-1], mp.dynamical_parameters,
                             mp.nondynamical_parameters, kk)
        else:
            act = fp.bc_func(mp.y[0], mp.y[-1], mp.dynamical_parameters, mp.nondynamical_parameters, kk)
    msg = pmp.match_rows(np.array([ref]).T, np.array([np.asarray(act, dtype=float)]).T)
    if msg:
        raise Violation('boundary conditions at the mapped trajectory: %s' % msg)
    names = [s.name for s in bvp.states]
    for i in range(len(t)):
        q = pt(i)
        if algebraic:
            with sut('control law'):
                q['u'] = list(np.asarray(fp.compute_u(mp.y[i], mp.dynamical_parameters, kk), dtype=float))
        d = P.dyn(q)
        if not all(pmp.finite(v) for v in d.values()):
            continue
        with sut('rates at a mapped trajectory'):
            yd = np.asarray(fp.deriv_func(mp.y[i], mp.dynamical_parameters, kk), dtype=float)
        sc = max(1.0, np.max(np.abs(d['xd'])) * abs(dt))
        for nme, v in list(zip(P.r.state_names, d['xd'])) + [(P.r.indep, 1.0)]:
            if nme in names:
                got = yd[names.index(nme)]
                if sc < 1e7 and abs(got - v * dt) > 1e-6 * sc:
                    raise Violation('rate of %s at the mapped trajectory is %.9g, expected %.9g' % (nme, got, v * dt))
    return 1


OPTIONS = [
    dict(method='traditional', control_method='differential'), dict(method='diffyg', control_method='differential'),
    dict(method='traditional', control_method='algebraic'), dict(method='diffyg', control_method='algebraic'),
    dict(method='traditional', control_method='differential', do_normalize_time=False),
    dict(method='diffyg', control_method='differential', do_normalize_time=False),
    dict(method='traditional', control_method='differential', do_momentum_shift=False),
]


@st.composite
def plain(draw):
    opt = draw(st.sampled_from(OPTIONS))
    alg = opt['control_method'] == 'algebraic'
    no_shift = not opt.get('do_momentum_shift', True)
    kw = dict(utm=0 if alg else 1, end_bounds=1, quantities=1, qty_controls=not alg, max_controls=2 if alg else 3, max_states=3)
    if no_shift:
        kw.update(time_dep=False, end_time=False)
    spec = draw(genocp.ocp_spec(nonlinear_u=not alg, epstrig=(not alg and draw(st.booleans())), **kw))
    return dict(spec=spec, options=opt, traj=draw(maps.nodes(spec, t0_zero=no_shift)))


@st.composite
def reduced(draw):
    cm = draw(st.sampled_from(['differential', 'algebraic']))
    spec = draw(genocp.ocp_spec(cyclic=3, nonlinear_u=cm == 'differential', max_states=4, max_controls=1 if cm == 'algebraic' else 2,
                                epstrig=(cm == 'differential' and draw(st.integers(0, 3)) == 0)))
    return dict(spec=spec, options=dict(method='diffyg', control_method=cm, reduction=True), traj=draw(maps.nodes(spec)))


PARTS = [
    Part('plain', plain, run, quick=(8, 40), thorough=(8, 800)),
    Part('reduced', reduced, run, quick=(6, 15), thorough=(8, 250)),
    Part('jit', plain, run, quick=(1, 4), thorough=(4, 40), jit=True, timeout=200),
]
