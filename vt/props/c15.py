"""C15: the differential geometry under the geometric method obeys its laws, and symmetries give conserved quantities."""
import numpy as np
import sympy
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, pmp
from vt.ocp import build_problem, formulate, lam, FUNCS

RULE = ('a generated case counts as non-trivial when derivatives, vector fields or conserved quantities of it were compared with '
        'the reference at one or more points where they are finite (and, for conserved quantities, the quantity varies with the point)')


def parse(text, syms):
    return sympy.sympify(text, locals={**FUNCS, **{s.name: s for s in syms}})


def same(a, b, what, pts, syms):
    a, b = sympy.sympify(a), sympy.sympify(b)
    f = lam(syms, [a, b])
    n = 0
    for p in pts:
        x, y = f(p)
        if not np.isfinite(y) or abs(y) > 1e9:
            continue
        if not np.isfinite(x):
            # a root of a negative number may cancel in one of two equal expressions: judge in complex numbers
            try:
                z = complex(a.evalf(30, subs=dict(zip(syms, p))))
            except (TypeError, ValueError):
                continue
            if not np.isfinite(abs(z)):
                continue
            x = z
        if not abs(x - y) <= 1e-8 * (1 + abs(y)):
            x = complex(x).real
            raise Violation('%s is %s = %.10g, expected %s = %.10g at %s' % (what, a, x, b, y, p))
        n += 1
    return n


def run_forms(case):
    from beluga.symbolic.differential_geometry import differential_geometry as dg
    syms = [sympy.Symbol(n) for n in case['basis']]
    n = len(syms)
    pts = case['pts']
    f, g = parse(case['f'], syms), parse(case['g'], syms)
    al = [parse(e, syms) for e in case['alpha']]
    used = 0
    with sut('exterior derivative of a function'):
        df, dgf = dg.exterior_derivative(f, syms), dg.exterior_derivative(g, syms)
        dsum = dg.exterior_derivative(2 * f - g, syms)
        dprod = dg.exterior_derivative(f * g, syms)
    for i in range(n):
        used += same(df[i], sympy.diff(f, syms[i]), 'd f along %s' % syms[i], pts, syms)
        same(dsum[i], 2 * df[i] - dgf[i], 'd(2f - g) along %s' % syms[i], pts, syms)
        same(dprod[i], f * dgf[i] + g * df[i], 'd(fg) along %s' % syms[i], pts, syms)
    kind = {'array': sympy.Array, 'mutable': sympy.MutableDenseNDimArray}[case['kind']]
    with sut('exterior derivative of a one-form'):
        ddf = dg.exterior_derivative(kind([df[i] for i in range(n)]), syms)
        da = dg.exterior_derivative(kind(al), syms)
    if da is None or tuple(da.shape) != (n, n):
        raise Violation('the exterior derivative of a one-form has shape %s' % (getattr(da, 'shape', None),))
    for i in range(n):
        for j in range(n):
            same(ddf[i, j], 0, 'd(df)[%d,%d]' % (i, j), pts, syms)
            same(da[i, j], sympy.diff(al[j], syms[i]) - sympy.diff(al[i], syms[j]), 'd(alpha)[%d,%d]' % (i, j), pts, syms)
    # total derivative through dependent variables
    dep = {sympy.Symbol('dep0'): f, sympy.Symbol('dep1'): g}
    a, b = dep
    outer = parse(case['outer'], syms + [a, b])
    with sut('total derivative'):
        td = dg.total_derivative(outer, syms[0], dep)
        td0 = dg.total_derivative(outer, syms[0])
    same(sympy.sympify(td).subs(dep), sympy.diff(outer.subs(dep), syms[0]), 'total derivative', pts, syms)
    if sympy.simplify(td0 - sympy.diff(outer, syms[0])) != 0:
        raise Violation('derivative without dependent variables is %s' % td0)
    return dict(nontrivial=used > 0, label=['dimension %d' % n, case['kind']])


def run_fields(case):
    from beluga.symbolic.differential_geometry import differential_geometry as dg
    n = case['n']
    q, p = [sympy.Symbol('q%d' % i) for i in range(n)], [sympy.Symbol('p%d' % i) for i in range(n)]
    z = q + p
    H = parse(case['H'], z)
    pts = case['pts']
    with sut('standard symplectic form'):
        om = dg.make_standard_symplectic_form(q, p)
        if not dg.is_symplectic(om):
            raise Violation('the standard form is not recognised as symplectic')
    J = sympy.Matrix(2 * n, 2 * n, lambda i, j: 1 if j - i == n else (-1 if i - j == n else 0))
    if om.tomatrix() != J:
        raise Violation('the standard form is %s' % om)
    with sut('Hamiltonian vector field'):
        X = dg.make_hamiltonian_vector_field(H, om, z)
    used = 0
    for i in range(n):
        used += same(X[i], sympy.diff(H, p[i]), 'rate of %s' % q[i], pts, z)
        same(X[n + i], -sympy.diff(H, q[i]), 'rate of %s' % p[i], pts, z)
    # any other non-degenerate antisymmetric form
    W = sympy.Matrix(J)
    for (i, j, e) in case['twist']:
        i, j = i % (2 * n), j % (2 * n)
        if i == j:
            continue
        W[i, j] = W[i, j] + parse(e, z)
        W[j, i] = -W[i, j]
    wv = sympy.lambdify(z, W, 'numpy')
    with np.errstate(all='ignore'):
        good = [pt for pt in pts if np.all(np.isfinite(np.array(wv(*pt), dtype=float))) and
                np.linalg.cond(np.array(wv(*pt), dtype=float)) < 1e6]
    if good:
        form = sympy.MutableDenseNDimArray(W)
        with sut('Hamiltonian vector field of a general form'):
            if not dg.is_symplectic(form):
                raise Violation('the antisymmetric form %s is refused' % form)
            Y = dg.make_hamiltonian_vector_field(H, form, z)
        dH = [sympy.diff(H, s) for s in z]
        for i in range(2 * n):
            same(sum(W[i, j] * Y[j] for j in range(2 * n)), -dH[i], 'omega X + dH, component %d' % i, good, z)
        same(sum(a * b for a, b in zip(dH, Y)), 0, 'rate of the Hamiltonian along its own field', good, z)
    # forms that are not symplectic, and mismatched sizes, are refused
    bad = sympy.MutableDenseNDimArray(J)
    i, j = case['spoil']
    i, j = i % (2 * n), j % (2 * n)
    bad[i, j] = bad[i, j] + 1
    for nme, form in (('not antisymmetric', bad), ('odd', sympy.MutableDenseNDimArray(sympy.zeros(2 * n + 1, 2 * n + 1))),
                      ('rectangular', sympy.MutableDenseNDimArray(sympy.zeros(2 * n, 2 * n + 2))), ('missing', None),
                      ('vector', sympy.MutableDenseNDimArray([0] * 2 * n))):
        with sut('checking a form that is %s' % nme):
            if dg.is_symplectic(form):
                raise Violation('a form that is %s passes as symplectic: %s' % (nme, form))
    for bad_call in (lambda: dg.make_standard_symplectic_form(q, p[:-1] if n > 1 else p + [q[0]]),
                     lambda: dg.make_hamiltonian_vector_field(H, sympy.MutableDenseNDimArray(sympy.zeros(2 * n, 2 * n + 2)), z),
                     lambda: dg.make_hamiltonian_vector_field(H, sympy.MutableDenseNDimArray(sympy.eye(2 * n + 1)), z)):
        try:
            bad_call()
        except ValueError:
            continue
        raise Violation('a form of the wrong size is accepted')
    return dict(nontrivial=used > 0, label=['pairs %d' % n, 'general form' if good else 'standard form only'])


def run_flow(case):
    """symmetric problems: momentum and Hamiltonian are conserved, and the flow of the compiled problem is Hamiltonian"""
    spec = case['spec']
    method, cm = case['options']['method'], case['options']['control_method']
    with sut('formulating a symmetric problem'):
        bvp = formulate(build_problem(spec), method=method, control_method=cm)
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    lay = pmp.layout(bvp, P)
    fp = bvp.functional_problem
    k = np.array([c['value'] for c in spec['constants']])
    kk = np.array([k[P.r.const_names.index(c.name)] for c in bvp.constants], dtype=float)
    names = lay['names']
    nsym = len(spec.get('symmetries', []))
    if lay['t'] is None or cm == 'differential' and None in lay['u']:
        raise Violation('the boundary value problem has variables %s' % names)
    dt = case['dt']
    par = np.array([dt])
    ny = len(names)
    coms = list(bvp.constants_of_motion)
    want = 1 + (nsym if method == 'diffyg' else 0)
    if len(coms) < want:
        raise Violation('%d constants of motion for %d symmetries: %s' % (len(coms), nsym, coms))
    zs = [s.sym for s in bvp.states]
    if cm == 'algebraic':
        control = [c.sym for c in bvp.controls]
    csyms = [c.sym for c in bvp.constants]
    used = 0
    # columns of the costates: lambda_x, lambda_t in the order of the states, time last
    lamcols = lay['rest'][:n + 1]
    for pt in case['pts']:
        y = np.zeros(ny)
        for i, v in zip(lay['x'], pt['x']):
            y[i] = v
        y[lay['t']] = pt['t']
        for i, v in zip(lamcols, list(pt['lam']) + [pt['lamt']]):
            y[i] = v
        if cm == 'differential':
            # place the point on the stationarity manifold: control from dH/du = 0
            u = stationary(P, pt, k)
            if u is None:
                continue
            for i, v in zip(lay['u'], u):
                y[i] = v
        with sut('rates'):
            yd = np.asarray(fp.deriv_func(y, par, kk), dtype=float)
            uu = np.asarray(fp.compute_u(y, par, kk), dtype=float) if cm == 'algebraic' else None
        if not np.all(np.isfinite(yd)) or np.max(np.abs(yd)) > 1e5:
            continue

        values = []
        for ci, com in enumerate(coms):
            expr = com.expr
            args = zs + (control if cm == 'algebraic' else []) + csyms
            grads = [sympy.diff(expr, s) for s in zs] + ([sympy.diff(expr, s) for s in control] if cm == 'algebraic' else [])
            vals = list(y) + (list(uu) if cm == 'algebraic' else []) + list(kk)
            gr = np.array(lam(args, grads)(vals))
            rate = float(np.dot(gr[:ny], yd))
            sc = 1 + float(np.dot(np.abs(gr[:ny]), np.abs(yd)))
            if cm == 'algebraic' and ci == 0 and not np.all(np.abs(gr[ny:]) <= 1e-6 * sc):
                raise Violation('the Hamiltonian is not stationary at the control: %s' % gr[ny:])
            if not abs(rate) <= 1e-8 * sc:
                raise Violation('%s = %s changes at rate %.6g along the flow (point %s)' % (com.name, expr, rate, pt))
            values.append(lam(args, [expr])(vals)[0])
        if method == 'diffyg':
            # each declared symmetry has its momentum, costates times field, among the constants of motion
            for sy in spec.get('symmetries', []):
                mom = float(np.dot(lam(P.x, [P.r.parse(e) for e in sy['field']])(pt['x']), pt['lam']))
                if not any(abs(abs(v) - abs(mom)) <= 1e-8 * (1 + abs(mom)) for v in values[1:]):
                    raise Violation('no constant of motion has the momentum %.9g of the symmetry %s: %s have the values %s'
                                    % (mom, sy['field'], coms, values))
        used += 1
        if cm == 'algebraic' and used == 1:
            # the flow keeps the symplectic form: omega times the Jacobian is symmetric
            order = lay['x'] + [lay['t']] + lamcols
            if len(order) == ny:
                Jn = np.zeros((ny, ny))
                for a, col in enumerate(order):
                    h = 1e-5 * (1 + abs(y[col]))
                    yp, ym = np.array(y), np.array(y)
                    yp[col] += h
                    ym[col] -= h
                    with sut('rates'):
                        up, um = fp.compute_u(yp, par, kk), fp.compute_u(ym, par, kk)
                        d = (np.asarray(fp.deriv_func(yp, par, kk)) - np.asarray(fp.deriv_func(ym, par, kk))) / (2 * h)
                    if not np.all(np.abs(np.asarray(up) - np.asarray(um)) < 0.05):
                        Jn = None
                        break
                    Jn[:, a] = [d[c] for c in order]
                if Jn is not None and np.all(np.isfinite(Jn)):
                    half = ny // 2
                    Om = np.zeros((ny, ny))
                    Om[:half, half:] = np.eye(half)
                    Om[half:, :half] = -np.eye(half)
                    S = Om @ Jn
                    if not np.max(np.abs(S - S.T)) <= 1e-4 * (1 + np.max(np.abs(S))):
                        raise Violation('the flow is not Hamiltonian: omega J is not symmetric (defect %.3g, point %s)' % (np.max(np.abs(S - S.T)), pt))
    if not used:
        raise Skip('no regular point')
    return dict(nontrivial=True, label=['%s %s' % (method, cm), case['kind']])


def stationary(P, pt, k):
    from scipy.optimize import fsolve
    m = len(P.u)

    def g(u):
        d = P.dyn(dict(x=pt['x'], t=pt['t'], u=list(u), lam=pt['lam'], lamt=pt['lamt'], dt=1.0, k=list(k)))
        return d['g'], d['Huu']
    u, info, ok, _ = fsolve(lambda v: g(v)[0], np.array([0.4] * m), full_output=True, xtol=1e-13)
    gg, Huu = g(u)
    if ok != 1 or not np.all(np.isfinite(gg)) or np.max(np.abs(gg)) > 1e-10 or np.linalg.cond(Huu) > 1e4 or np.min(np.abs(np.linalg.eigvals(Huu))) < 1e-2:
        return None
    return u


@st.composite
def forms(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7]))
    basis = draw(st.permutations(gen.STATE_NAMES + ['_lam_x', '_lam_v']))[:n]
    pool = list(basis)
    return dict(basis=list(basis), f=draw(gen.expr(pool, 2, 2)), g=draw(gen.expr(pool, 2, 2)),
                alpha=[draw(gen.expr(pool, 2, 2)) for _ in basis], kind=draw(st.sampled_from(['array', 'mutable'])),
                outer=draw(gen.expr(pool + ['dep0', 'dep1'], 2, 2)) + ' + dep0*dep1',
                pts=[draw(gen.point(n)) for _ in range(3)])


@st.composite
def fields(draw):
    n = draw(st.integers(1, 3))
    pool = ['q%d' % i for i in range(n)] + ['p%d' % i for i in range(n)]
    return dict(n=n, H=draw(gen.expr(pool, 3, 2)),
                twist=[[draw(st.integers(0, 5)), draw(st.integers(0, 5)), draw(gen.expr(pool[:2], 1, 1))] for _ in range(draw(st.integers(0, 2)))],
                spoil=[draw(st.integers(0, 5)), draw(st.integers(0, 5))], pts=[draw(gen.point(2 * n)) for _ in range(3)])


@st.composite
def flows(draw):
    """problems with a translation, scaling or rotation symmetry by construction"""
    kind = draw(st.sampled_from(['translation', 'scaling', 'rotation', 'none']))
    sn = list(draw(st.permutations(gen.STATE_NAMES))[:3])
    a, b, z = sn
    c = draw(st.sampled_from(gen.CONTROL_NAMES))
    cm = draw(st.sampled_from(['algebraic', 'differential']))
    td = draw(st.booleans())
    pool = [z, 'c1'] + (['t'] if td else [])
    A, B, C = (draw(gen.expr(pool, 1, 2)) for _ in range(3))
    con = draw(st.sampled_from(['0.5*%s' % c, 'c1*%s' % c, '%s*%s' % (z, c)]))
    if kind == 'translation':
        states = [(a, '%s + %s' % (A, con)), (z, '%s + %s' % (B, c))]
        L = '%s**2 + %s' % (c, C)
        field = {a: '1'}
    elif kind == 'scaling':
        states = [(a, '%s*(%s + %s)' % (a, A, con)), (z, '%s + %s' % (B, c))]
        L = '%s**2 + %s' % (c, C)
        field = {a: a}
    elif kind == 'rotation':
        r = '(%s**2 + %s**2)' % (a, b)
        states = [(a, '%s*(%s) - %s*(%s + %s)' % (a, A, b, B, con)), (b, '%s*(%s) + %s*(%s + %s)' % (b, A, a, B, con)),
                  (z, '%s + 0.2*%s*%s' % (C, r, c))]
        L = '%s**2 + 0.3*%s' % (c, r)
        field = {a: '-' + b, b: a}
    else:
        states = [(a, '%s + %s*%s' % (A, a, con)), (z, '%s + %s' % (B, c))]
        L = '%s**2 + 0.3*%s*%s' % (c, a, z)
        field = None
    states = draw(st.permutations(states))
    names = [s for s, _ in states]
    spec = dict(indep='t', states=[dict(name=s, eom=e) for s, e in states], controls=[dict(name=c)],
                constants=[dict(name='c1', value=draw(st.integers(20, 200)) / 100.0)], path_cost='%s' % L,
                initial=[dict(expr='%s - 1' % s) for s in names] + [dict(expr='t')], terminal=[dict(expr='%s - 2' % names[0]), dict(expr='t - 1')])
    if cm == 'differential' and draw(st.booleans()):
        # bounds keep the symmetry, and with time in one of them time is no symmetry
        up, lo = (draw(st.sampled_from(['8', '9', '8 + 0.5*t', '9 + 0.2*%s' % z, '8 + c1'])) for _ in range(2))
        spec['constants'].append(dict(name='eps', value=0.2))
        spec['path'] = [dict(expr=draw(st.sampled_from([c, z, '%s + %s' % (c, z)])), lower='-(%s)' % lo, upper=up, activator='eps', method='utm')]
    if field:
        spec['symmetries'] = [dict(field=[field.get(s, '0') for s in names])]
    n = len(names)
    pts = [dict(x=draw(gen.point(n)), t=draw(st.integers(20, 200)) / 100.0, lam=draw(gen.signed(n)), lamt=draw(st.integers(-200, 200)) / 100.0)
           for _ in range(3)]
    return dict(kind=kind, spec=spec, pts=pts, dt=draw(st.integers(20, 300)) / 100.0,
                options=dict(method=draw(st.sampled_from(['diffyg', 'diffyg', 'traditional'])), control_method=cm))


PARTS = [
    Part('forms', forms, run_forms, quick=(3, 60), thorough=(8, 1500)),
    Part('fields', fields, run_fields, quick=(3, 50), thorough=(8, 1000)),
    Part('flow', flows, run_flow, quick=(4, 30), thorough=(8, 700)),
]
