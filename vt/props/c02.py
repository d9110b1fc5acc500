"""C02: the geometric formulation and its symmetry reduction state the same problem as the classical one."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import genocp, pmp
from vt.ocp import build_problem, formulate

RULE = ('a generated problem counts as non-trivial when the geometric (or reduced) boundary value problem was compared '
        'with the necessary conditions at one or more regular points')


def regular(P, pt, diff=True):
    d = P.dyn(pt)
    if not all(pmp.finite(v) for v in d.values()):
        return None
    if max(np.max(np.abs(v)) if np.size(v) else 0 for v in d.values()) > 1e6:
        return None
    if diff:
        sv = np.linalg.svd(d['Huu'], compute_uv=False)
        if sv[-1] < 2e-2 * max(1.0, sv[0]):
            return None
    return d


def near(a, b, scale):
    return np.abs(a - b) <= 1e-6 * max(1.0, scale)


def fill(cols, vals):
    return dict(zip(cols, vals))


def consts_for(bvp, P, k):
    cn = [c.name for c in bvp.constants]
    if sorted(cn) != sorted(P.r.const_names):
        raise Violation('constants differ: %s' % cn)
    return np.array([k[P.r.const_names.index(c)] for c in cn], dtype=float)


def full_vars(bvp, P, diff):
    """name -> kind for the unreduced geometric problem; costates in the order of the states"""
    lay = pmp.layout(bvp, P)
    n, m, n0, nf = P.sizes()
    if lay['t'] is None:
        raise Violation('time is not a state')
    if diff:
        if any(c is None for c in lay['u']):
            raise Violation('controls are not dynamic variables: %s' % lay['names'])
        if len(lay['rest']) != n + 1 + m:
            raise Violation('expected %d costates, found variables %s' % (n + 1 + m, lay['names']))
    elif len(lay['rest']) != n + 1:
        raise Violation('expected %d costates, found variables %s' % (n + 1, lay['names']))
    return lay


def on_manifold(spec, P, pt):
    """choose the eta constants such that dH/du = 0 at the point"""
    names = [c['name'] for c in spec['constants']]
    k = list(pt['k'])
    for i in range(len(P.u)):
        k[names.index('eta%d' % i)] = 0.0
    g = P.dyn(dict(pt, k=k))['g']
    for i in range(len(P.u)):
        k[names.index('eta%d' % i)] = -float(g[i])
    return dict(pt, k=k)


def run_differential(case):
    spec = case['spec']
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    with sut('formulating a valid problem geometrically'):
        bvp = formulate(build_problem(spec), method='diffyg', control_method='differential')
    lay = full_vars(bvp, P, True)
    fp = bvp.functional_problem
    if len(bvp.parameters) != 1 or len(bvp.constraint_parameters) != n0 + nf:
        raise Violation('expected one parameter and %d multipliers' % (n0 + nf))
    rref, ract, used = [], [], 0
    lamu_cols = lay['rest'][n + 1:]
    for j, pt0 in enumerate(case['pts']):
        manifold = j > 0
        pt = on_manifold(spec, P, pt0) if manifold else pt0
        d = regular(P, pt)
        if d is None:
            continue
        y = np.zeros(len(lay['names']))
        lamu = np.zeros(m) if manifold else np.array(pt0['f']['x'] * m)[:m] * 0.3
        cols = lay['x'] + [lay['t']] + lay['u'] + lay['rest']

        def pack(q):
            y = np.zeros(len(lay['names']))
            y[cols] = list(q['x']) + [q['t']] + list(q['u']) + list(q['lam']) + [q['lamt']] + list(lamu)
            return y
        y = pack(pt)
        k = consts_for(bvp, P, pt['k'])
        p = np.array([pt['dt']])
        with sut('derivative evaluation'):
            yd = np.asarray(fp.deriv_func(y, p, k), dtype=float)
        ud = np.linalg.solve(d['Huu'], d['rhs'])
        exp = np.full(len(y), np.nan)
        exp[lay['x']] = d['xd']
        exp[lay['t']] = 1.0
        exp[lay['u']] = ud
        exp[lay['rest'][:n]] = d['ld']
        if manifold:
            exp[lay['rest'][n]] = d['ltd']
            exp[lamu_cols] = 0.0
        exp *= pt['dt']
        if yd.shape != exp.shape:
            raise Violation('derivative has shape %s, expected %s' % (yd.shape, exp.shape))
        sc = np.nanmax(np.abs(exp))
        if sc > 1e6:
            continue
        sel = ~np.isnan(exp)
        bad = [i for i in np.where(sel)[0] if not near(yd[i], exp[i], sc)]
        if bad:
            i = bad[0]
            raise Violation('geometric rate of %s is %.10g, the classical conditions give %.10g (at %s)'
                            % (lay['names'][i], yd[i], exp[i], pt))
        used += 1
        ptf = dict(pt, **{kk: pt0['f'][kk] for kk in ('x', 't', 'u', 'lam', 'lamt')})
        ref = P._fbc0(P.flat(pt, nu=True)) + P._fbcf(P.flat(ptf, nu=True)) + list(lamu)
        if not pmp.finite(ref) or np.max(np.abs(ref)) > 1e7:
            continue
        with sut('boundary condition evaluation'):
            act = np.asarray(fp.bc_func(y, pack(ptf), p, np.array(pt['nu'], dtype=float), k), dtype=float)
        rref.append(ref)
        ract.append(act)
    if not used:
        raise Skip('no regular point')
    if rref:
        msg = pmp.match_rows(np.array(rref).T, np.array(ract).T)
        if msg:
            raise Violation('geometric boundary conditions: %s' % msg)
    return dict(nontrivial=True, label='n%dm%d' % (n, m))


def run_algebraic(case):
    """control eliminated algebraically: the geometric and the classical problems are identical functions"""
    spec = case['spec']
    with sut('formulating a valid problem (algebraic control law)'):
        a = formulate(build_problem(spec), method='traditional', control_method='algebraic')
        b = formulate(build_problem(spec), method='diffyg', control_method='algebraic')
    used = pmp.compare(spec, a, case['pts'], control='algebraic', what='classical: ')
    pmp.compare(spec, b, case['pts'], control='algebraic', what='geometric: ')
    return dict(nontrivial=used > 0, label='%d options' % len(a.control_law))


def run_reduced(case):
    """reduction by translation symmetries: same rates, same boundary residuals, fewer variables"""
    spec, cm = case['spec'], case['control']
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    diff = cm == 'differential'
    cyc = [s['name'] for i, s in enumerate(spec['states']) if any(f['field'][i] == '1' for f in spec['symmetries'])]
    order = [spec['states'][f['field'].index('1')]['name'] for f in spec['symmetries']]
    with sut('formulating a valid problem with symmetries'):
        full = formulate(build_problem(spec), method='diffyg', control_method=cm)
        red = formulate(build_problem(spec), method='diffyg', control_method=cm, reduction=True)
    lay = full_vars(full, P, diff)
    rn = [s.name for s in red.states]
    ns = len(cyc)
    if len(red.quads) != ns or len(red.parameters) != 1 + ns or len(rn) != len(lay['names']) - 2 * ns:
        raise Violation('reduction by %d symmetries: %d dynamic variables, %d quadratures, %d parameters (unreduced: %d)'
                        % (ns, len(rn), len(red.quads), len(red.parameters), len(lay['names'])))
    fa, fb = full.functional_problem, red.functional_problem
    names = lay['names']
    x_cols = {nme: c for nme, c in zip(P.r.state_names, lay['x'])}
    l_cols = {nme: c for nme, c in zip(P.r.state_names, lay['rest'])}
    keep = [i for i in range(len(names)) if i not in [x_cols[c] for c in cyc] + [l_cols[c] for c in cyc]]
    if rn != [names[i] for i in keep]:
        raise Violation('reduced variables %s, expected %s' % (rn, [names[i] for i in keep]))
    used = 0
    r1, r2 = [], []
    for pt in case['pts']:
        if regular(P, pt, diff) is None:
            continue
        k = consts_for(full, P, pt['k'])

        def pack(q):
            y = np.zeros(len(names))
            cols = lay['x'] + [lay['t']] + (lay['u'] if diff else []) + lay['rest']
            v = list(q['x']) + [q['t']] + (list(q['u']) if diff else []) + list(q['lam']) + [q['lamt']] \
                + ([0.17, -0.31][:m] if diff else [])
            y[cols] = v
            return y
        y0 = pack(pt)
        q = pt['f']
        yf = pack(dict(x=q['x'], t=q['t'], u=q['u'], lam=q['lam'], lamt=q['lamt']))
        for c in cyc:     # the momenta conjugate to ignorable coordinates are constant on trajectories
            yf[l_cols[c]] = y0[l_cols[c]]
        with sut('derivative evaluation'):
            da = np.asarray(fa.deriv_func(y0, np.array([pt['dt']]), k), dtype=float)
        if not pmp.finite(da) or np.max(np.abs(da)) > 1e6:
            continue
        for c in cyc:
            if abs(da[l_cols[c]]) > 1e-9:
                raise Violation('momentum conjugate to ignorable coordinate %s is not constant' % c)
        # the constants of motion: momenta up to a fixed sign; recover sign from the map between the two problems
        com = np.array([y0[l_cols[c]] for c in order])
        ok = None
        for sgn in ([1.0] * ns, [-1.0] * ns):
            pr = np.r_[pt['dt'], com * np.array(sgn)]
            with sut('derivative evaluation of the reduced problem'):
                db = np.asarray(fb.deriv_func(y0[keep], pr, k), dtype=float)
                qd = np.asarray(fb.quad_func(y0[keep], pr, k), dtype=float)
            sc = max(1.0, np.max(np.abs(da)))
            if db.shape == da[keep].shape and np.all(np.abs(db - da[keep]) <= 1e-6 * sc):
                ok = sgn
                break
        if ok is None:
            raise Violation('reduced rates %s differ from the unreduced rates %s' % (db, da[keep]))
        qx = np.array([da[x_cols[c]] for c in order])
        qs = 1.0 if np.all(np.abs(qd - qx) <= 1e-6 * sc) else -1.0
        if not np.all(np.abs(qd - qs * qx) <= 1e-6 * sc):
            raise Violation('quadrature rates %s differ from the rates of the ignorable coordinates %s' % (qd, qx))
        with sut('boundary condition evaluation'):
            ba = np.asarray(fa.bc_func(y0, yf, np.array([pt['dt']]), np.array(pt['nu'], dtype=float), k), dtype=float)
            q0 = qs * np.array([y0[x_cols[c]] for c in order])
            qf = qs * np.array([yf[x_cols[c]] for c in order])
            bb = np.asarray(fb.bc_func(y0[keep], q0, yf[keep], qf, pr, np.array(pt['nu'], dtype=float), k), dtype=float)
        used += 1
        if pmp.finite(ba) and np.max(np.abs(ba)) < 1e7:
            r1.append(ba)
            r2.append(bb)
    if not used:
        raise Skip('no regular point')
    if r1:
        msg = pmp.match_rows(np.array(r1).T, np.array(r2).T)
        if msg:
            raise Violation('reduced boundary conditions: %s' % msg)
    return dict(nontrivial=True, label='%s, %d symmetries' % (cm, ns))


@st.composite
def lin_u_case(draw, **kw):
    spec = draw(genocp.ocp_spec(nonlinear_u=False, **kw))
    return dict(spec=spec, pts=draw(genocp.points_for(spec, 3)))


@st.composite
def red_case(draw, **kw):
    cm = draw(st.sampled_from(['differential', 'algebraic']))
    if cm == 'differential':
        kw = dict(kw, utm=draw(st.sampled_from([0, 0, 1])), quantities=draw(st.sampled_from([0, 1])))
    spec = draw(genocp.ocp_spec(cyclic=draw(st.sampled_from([2, 2, 3])), nonlinear_u=(cm == 'differential'), qty_controls=(cm == 'differential'), **kw))
    return dict(spec=spec, control=cm, pts=draw(genocp.points_for(spec, 3)))


@st.composite
def diff_case(draw):
    more = draw(st.sampled_from(['plain', 'plain', 'bounds', 'quantities', 'wide']))
    kw = dict(max_states=2)
    if more == 'bounds':
        kw.update(utm=1, max_controls=1)
    elif more == 'quantities':
        kw.update(quantities=2, max_controls=1)
    elif more == 'wide':
        kw.update(max_states=4)
    return draw(genocp.case(eta=True, **kw))


PARTS = [
    Part('differential', diff_case, run_differential, quick=(6, 15), thorough=(8, 300)),
    Part('algebraic', lambda: lin_u_case(max_states=2), run_algebraic, quick=(4, 15), thorough=(8, 300)),
    Part('reduced', lambda: red_case(max_states=3), run_reduced, quick=(6, 12), thorough=(8, 250)),
    Part('jit', lambda: red_case(max_states=2, max_controls=1), run_reduced, quick=(1, 2), thorough=(4, 25), jit=True, timeout=200),
]
