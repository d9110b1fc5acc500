"""C04: scaling by units changes numbers only: the scaled boundary value problem is the same problem, and unscaling undoes it."""
import copy
import re
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp
from vt.ocp import build_problem, formulate

RULE = ('a generated unit-consistent problem counts as non-trivial when its rates, boundary residuals and control law were compared '
        'between the original and the scaled numbers at one or more regular points, with a scale factor different from one')

DIMS = ['m', 's', 'kg']
DC = dict(m='cL_', s='cT_', kg='cM_')


def mono(e, names):
    """unit monomial with exponents e as text over the given names"""
    parts = []
    for d, k in zip(DIMS, e):
        if k:
            parts.append('%s**(%d)' % (names[d], k))
    return '*'.join(parts) or '1'


def hat(text, table):
    """divide every dimensional symbol by its unit monomial"""
    def sub(m):
        w = m.group(0)
        e = table.get(w)
        return '(%s/(%s))' % (w, mono(e, DC)) if e is not None and any(e) else w
    return re.sub(r'[A-Za-z_]\w*', sub, text)


def dimensional(spec, units, scale_by):
    """a unit-consistent problem from a dimensionless one: units maps names (and 'COST', 'c0'.. constraints) to exponents"""
    U = dict(m='m', s='s', kg='kg')
    tn = spec['indep']
    tab = {n: units[n] for n in units if n in [s['name'] for s in spec['states']] + [c['name'] for c in spec['controls']]
           + [c['name'] for c in spec['constants'] + spec.get('parameters', [])] + [tn]}

    def minus(a, b):
        return [x - y for x, y in zip(a, b)]

    cost = units['COST']
    rate = minus(cost, units[tn])
    act = {}
    for loc in ('initial', 'path', 'terminal'):
        for c in spec.get(loc, []):
            if c.get('activator'):
                act[c['activator']] = rate if loc == 'path' else cost
    tab = {k: v for k, v in tab.items() if k not in act}

    def scaled(e, text):
        return '(%s)*(%s)' % (mono(e, DC), hat(text, tab)) if any(e) else hat(text, tab)
    out = dict(indep=tn, indep_units=mono(units[tn], U))
    out['states'] = [dict(name=s['name'], eom=scaled(minus(units[s['name']], units[tn]), s['eom']), units=mono(units[s['name']], U))
                     for s in spec['states']]
    out['controls'] = [dict(name=c['name'], units=mono(units[c['name']], U)) for c in spec['controls']]
    out['constants'] = [dict(name=c['name'], value=c['value'], units=mono(act.get(c['name'], units.get(c['name'], [0, 0, 0])), U))
                        for c in spec['constants']]
    if spec.get('parameters'):
        out['parameters'] = [dict(name=c['name'], units=mono(units[c['name']], U)) for c in spec['parameters']]
    out['constants'] += [dict(name=DC[d], value=v, units=d) for d, v in zip(DIMS, scale_by['dc'])]
    out['quantities'] = [dict(name=q['name'], expr=hat(q['expr'], tab)) for q in spec.get('quantities', [])]
    out['switches'] = [dict(name=s['name'], functions=[hat(f, tab) for f in s['functions']],
                            conditions=[[hat(f, tab) for f in c] for c in s['conditions']], tol=hat(s['tol'], tab))
                       for s in spec.get('switches', [])]
    out['path_cost'], out['path_cost_units'] = scaled(rate, spec['path_cost']), mono(rate, U)
    out['cost_units'] = mono(cost, U)
    for k in ('initial_cost', 'terminal_cost'):
        if spec.get(k):
            out[k] = scaled(cost, spec[k])
    j = 0
    for loc in ('initial', 'path', 'terminal'):
        rows = []
        for c in spec.get(loc, []):
            e = units['CON'][j % len(units['CON'])]
            j += 1
            d = dict(c)
            if c.get('method', '').lower() == 'epstrig':
                e = units[c['expr']]
                d['expr'] = c['expr']
            else:
                d['expr'] = scaled(e, c['expr'])
            d['units'] = mono(e, U)
            for b in ('lower', 'upper'):
                if c.get(b) is not None:
                    d[b] = scaled(e, c[b])
            rows.append(d)
        if rows:
            out[loc] = rows
    if spec.get('symmetries'):
        out['symmetries'] = [dict(field=f['field'], units=mono(units[[s['name'] for s in spec['states']][f['field'].index('1')]], U))
                             for f in spec['symmetries']]
    # scale expressions: the dimension constant itself, or a state/constant of a single dimension
    sc = {}
    for d, ch in zip(DIMS, scale_by['choice']):
        pure = [n for n in [s['name'] for s in spec['states']] + [c['name'] for c in spec['constants'] if c['name'] not in act]
                if units.get(n) == [1 if q == d else 0 for q in DIMS] and n not in scale_by['avoid']]
        cands = [DC[d], 1] + pure + ['2*%s' % DC[d], '%s**2/%s' % (DC[d], pure[0]) if pure else DC[d], 'ref_' + d, '3.5', 'qref_' + d,
                                     'ref_%s + %s' % (d, pure[-1]) if pure else 'ref_' + d]
        sc[d] = cands[ch % len(cands)]
        if 'ref_' + d in str(sc[d]):
            # reference constants may be negative: their magnitude counts
            out['constants'].append(dict(name='ref_' + d, value=scale_by['ref'][DIMS.index(d)], units=d))
        if 'qref_' in str(sc[d]):
            out['quantities'].append(dict(name=sc[d], expr='2.5*ref_%s' % d))
    out['scale'] = sc
    return out


def factor_ok(f):
    f = np.asarray(f, dtype=float)
    return bool(np.all(np.isfinite(f)) and np.all(f > 0))


def run(case):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    base = case['spec']
    spec = dimensional(base, case['units'], case['scale_by'])
    with sut('formulating a valid unit-consistent problem'):
        bvp = formulate(build_problem(spec), **case['opts'])
    fp = bvp.functional_problem
    ny, nq, npar, nnu = len(bvp.states), len(bvp.quads), len(bvp.parameters), len(bvp.constraint_parameters)
    k = np.array([[c['value'] for c in spec['constants'] if c['name'] == b.name][0] for b in bvp.constants], dtype=float)
    names = [s.name for s in bvp.states]
    pos = set([s['name'] for s in spec['states']] + [spec['indep']] + [c['name'] for c in spec['controls']])
    N = len(case['vals'])

    def col(vals, nm, j):
        v = vals[j % len(vals)]
        return abs(v) if nm in pos else v
    y = np.array([[col(row, nm, j) for j, nm in enumerate(names)] for row in case['vals']], dtype=float)
    q = np.array([[abs(row[(j + 5) % len(row)]) for j in range(nq)] for row in case['vals']], dtype=float)
    q = q.reshape((N, nq))
    t = np.linspace(0.0, 1.0, N) if case['opts'].get('do_normalize_time', True) else np.linspace(0, case['vals'][0][0] ** 2 + 1, N)
    sol = Trajectory(t, y, q, np.zeros((N, 0)))
    sol.dynamical_parameters = np.array([abs(v) for v in (case['par'] * 3)[:npar]])
    sol.nondynamical_parameters = np.array((case['par'] * 40)[:nnu], dtype=float)
    sol.const = k
    if fp.compute_u is not None:
        with sut('control law'):
            sol.u = np.array([fp.compute_u(y[i], sol.dynamical_parameters, k) for i in range(N)], dtype=float)
        if not np.all(np.isfinite(sol.u)):
            raise Skip('control not finite')
    keep = copy.deepcopy(sol)
    with sut('computing scale factors'):
        fac = fp.compute_scale_factors(sol)
    with sut('scaling a trajectory'):
        sc = fp.scale_sol(sol, fac)
    with sut('unscaling a trajectory'):
        back = fp.scale_sol(sc, fac, inv=True)
    fields = ('t', 'y', 'q', 'u', 'dynamical_parameters', 'nondynamical_parameters', 'const')
    for nm in fields:
        a, b, c, d = (np.asarray(getattr(o, nm), dtype=float) for o in (keep, sol, back, sc))
        if a.shape != b.shape or not np.array_equal(a, b):
            raise Violation('scaling changed the %s of its input' % nm)
        if d.shape != a.shape:
            raise Violation('scaled %s has shape %s, expected %s' % (nm, d.shape, a.shape))
        if c.shape != a.shape or not np.all(np.abs(c - a) <= 1e-10 * (1 + np.abs(a))):
            raise Violation('unscaling after scaling does not return the %s: %s -> %s' % (nm, a.tolist(), c.tolist()))
        with np.errstate(all='ignore'):
            if a.size and np.any((a != 0) & ~(a * d > 0)):
                raise Violation('scaling changes the sign of the %s or loses it: %s -> %s' % (nm, a.tolist(), d.tolist()))
    # factor of every number, from the numbers themselves (entries are never zero except for time)
    Fy = y[0] / sc.y[0]
    Ft = (t[-1] - t[0]) / (sc.t[-1] - sc.t[0])
    Fq = q[0] / sc.q[0] if nq else np.zeros(0)
    # a unit scaled by a single symbol makes the largest magnitude of that symbol one
    for d in DIMS:
        ch = spec['scale'][d]
        if ch in names and not np.isclose(np.max(np.abs(sc.y[:, names.index(ch)])), 1.0, rtol=1e-9):
            raise Violation('unit %s is scaled by %s but scaled %s has magnitude %g' % (d, ch, ch, np.max(np.abs(sc.y[:, names.index(ch)]))))
        cn = [c.name for c in bvp.constants]
        if ch in cn and not np.isclose(abs(sc.const[cn.index(ch)]), 1.0, rtol=1e-9):
            raise Violation('unit %s is scaled by constant %s but its scaled value is %g' % (d, ch, sc.const[cn.index(ch)]))
    check_factors(spec, case, bvp, names, y, q, sol, Fy)
    # the same with states of any sign along the trajectory
    other = copy.deepcopy(sol)
    other.y = np.array([[v * case['signs'][j % len(case['signs'])][i % 3] for j, v in enumerate(row)] for i, row in enumerate(y)])
    with sut('scaling a trajectory'):
        fac2 = fp.compute_scale_factors(other)
        sc2 = fp.scale_sol(other, fac2)
        back2 = fp.scale_sol(sc2, fac2, inv=True)
    if not np.all(np.abs(np.asarray(back2.y) - other.y) <= 1e-10 * (1 + np.abs(other.y))):
        raise Violation('unscaling after scaling does not return the states: %s -> %s' % (other.y.tolist(), np.asarray(back2.y).tolist()))
    if not np.all(np.asarray(sc2.y) * other.y > 0):
        raise Violation('scaling changes the sign of the states or loses it: %s -> %s' % (other.y.tolist(), np.asarray(sc2.y).tolist()))
    check_factors(spec, case, bvp, names, other.y, q, sol, other.y[0] / sc2.y[0])
    p, ps, nu, nus, ks = (sol.dynamical_parameters, sc.dynamical_parameters, sol.nondynamical_parameters,
                          sc.nondynamical_parameters, sc.const)
    used = 0
    rows = []
    for i in range(N):
        with sut('rates'):
            r = np.asarray(fp.deriv_func(y[i], p, k), dtype=float)
            rs = np.asarray(fp.deriv_func(sc.y[i], ps, ks), dtype=float)
        if not np.all(np.isfinite(r)) or np.max(np.abs(r)) > 1e7:
            continue
        exp = r * Ft / Fy
        sz = np.max(np.abs(exp))
        if np.any(~(np.abs(rs - exp) <= 1e-6 * np.abs(exp) + 1e-9 * max(1.0, sz))):
            j = int(np.argmax(np.abs(rs - exp) / (1e-12 + np.abs(exp))))
            # cancellation between large terms is judged against the size of the terms
            if not cancel_ok(fp, y[i], p, k, j, rs[j] * Fy[j] / Ft - r[j]):
                raise Violation('rate of %s in scaled numbers is %.10g, the original rate scales to %.10g (scales %s)'
                                % (names[j], rs[j], exp[j], spec['scale']))
        if nq:
            with sut('quadrature rates'):
                r = np.asarray(fp.quad_func(y[i], p, k), dtype=float)
                rs = np.asarray(fp.quad_func(sc.y[i], ps, ks), dtype=float)
            exp = r * Ft / Fq
            if np.any(~(np.abs(rs - exp) <= 1e-6 * np.abs(exp) + 1e-9 * max(1.0, np.max(np.abs(exp))))):
                raise Violation('quadrature rates in scaled numbers %s, the original rates scale to %s' % (rs, exp))
        if fp.compute_u is not None:
            with sut('control law'):
                us = np.asarray(fp.compute_u(sc.y[i], ps, ks), dtype=float)
            exp = np.asarray(sc.u[i], dtype=float)
            if np.any(~(np.abs(us - exp) <= 1e-6 * np.abs(exp) + 1e-9)):
                raise Violation('control law in scaled numbers gives %s, the original control scales to %s' % (us, exp))
        used += 1
        f = N - 1 - i
        a = (y[i], q[i], y[f], q[f], p, nu, k) if nq else (y[i], y[f], p, nu, k)
        b = (sc.y[i], sc.q[i], sc.y[f], sc.q[f], ps, nus, ks) if nq else (sc.y[i], sc.y[f], ps, nus, ks)
        with sut('boundary residuals'):
            ra = np.asarray(fp.bc_func(*a), dtype=float)
            rb = np.asarray(fp.bc_func(*b), dtype=float)
        if np.all(np.isfinite(ra)) and np.max(np.abs(ra)) < 1e6:
            rows.append((ra, rb))
    if not used:
        raise Skip('no regular point')
    if len(rows) >= 2:
        A = np.array([r[0] for r in rows]).T
        B = np.array([r[1] for r in rows]).T
        for i in range(A.shape[0]):
            j = int(np.argmax(np.abs(A[i])))
            if abs(A[i, j]) < 1e-3:
                continue
            F = B[i, j] / A[i, j]
            err = np.abs(B[i] - F * A[i])
            if not F > 0 or np.any(~(err <= 1e-6 * np.abs(F) * np.max(np.abs(A[i])) + 1e-7 * abs(F))):
                raise Violation('boundary condition %d: residuals %s become %s in scaled numbers, not proportional (scales %s)'
                                % (i, A[i].tolist(), B[i].tolist(), spec['scale']))
    diff = bool(np.any(np.abs(Fy - 1) > 1e-6))
    return dict(nontrivial=diff, label=[case['opts']['method'] + ' ' + case['opts']['control_method'],
                                        'free parameters' if spec.get('parameters') else 'reduced' if nq else 'not reduced'])


def check_factors(spec, case, bvp, names, y, q, sol, Fy):
    """the factors are the stated expressions, evaluated with the largest magnitudes along the trajectory"""
    env = {nm: float(np.max(np.abs(y[:, j]))) for j, nm in enumerate(names)}
    env.update({c.name: abs(float(v)) for c, v in zip(bvp.constants, sol.const)})
    for r in spec.get('quantities', []):
        if r['name'].startswith('qref_'):
            env[r['name']] = eval(r['expr'], {}, env)
    unit = {}
    for d in DIMS:
        try:
            unit[d] = float(eval(str(spec['scale'][d]), {}, env))
        except NameError:
            return              # scaled by a variable that the formulation removed
    def factor(e):
        return float(np.prod([unit[d] ** k for d, k in zip(DIMS, e)]))
    u = case['units']
    known = {s['name']: u[s['name']] for s in spec['states']}
    known[spec['indep']] = u[spec['indep']]
    trig = [c['expr'] for c in spec.get('path', []) if c.get('method', '').lower() == 'epstrig']
    known.update({c['name']: u[c['name']] for c in spec['controls'] if c['name'] not in trig})
    known.update({'_%s_trig' % c: [0, 0, 0] for c in trig})
    known.update({'_lam_' + nm: [a - b for a, b in zip(u['COST'], e)] for nm, e in list(known.items())})
    for j, nm in enumerate(names):
        if nm in known and not abs(Fy[j] - factor(known[nm])) <= 1e-9 * abs(Fy[j]):
            raise Violation('%s is scaled by %.12g, its unit in the stated scales %s is %.12g' % (nm, Fy[j], spec['scale'], factor(known[nm])))


def cancel_ok(fp, y, p, k, j, gap):
    """rounding of a sum with large cancelling terms: estimate from the response to relative perturbations of the inputs"""
    tot = 0.0
    base = np.asarray(fp.deriv_func(y, p, k), dtype=float)[j]
    for i in range(len(y)):
        z = np.array(y)
        z[i] *= 1 + 1e-6
        tot += abs(np.asarray(fp.deriv_func(z, p, k), dtype=float)[j] - base)
    return abs(gap) <= 1e-3 * tot * 1e-2


@st.composite
def cases(draw):
    meth = draw(st.sampled_from(['traditional', 'diffyg', 'diffyg']))
    cm = draw(st.sampled_from(['differential', 'differential', 'algebraic']))
    red = meth == 'diffyg' and draw(st.booleans())
    opts = dict(method=meth, control_method=cm)
    if red:
        opts['reduction'] = True
    kw = dict(max_states=2, max_controls=2 if cm == 'differential' else 1)
    if cm == 'algebraic':
        kw['nonlinear_u'] = False
        kw['qty_controls'] = False
    if red:
        kw.update(cyclic=1, max_states=3)
    else:
        kind = draw(st.sampled_from(['none', 'none', 'utm', 'ends', 'trig', 'quantity']))
        if cm == 'differential':
            kw.update(dict(none={}, utm=dict(utm=1), ends=dict(end_bounds=1), trig=dict(epstrig=True),
                           quantity=dict(quantities=1, switches=1))[kind])
    spec = draw(genocp.ocp_spec(**kw))
    free = []
    if meth == 'traditional' and draw(st.booleans()):
        # constants become free parameters, and a further one is paid for at an end
        free = [c for c in spec['constants'] if c['name'] in gen.CONST_NAMES and draw(st.booleans())]
        spec['constants'] = [c for c in spec['constants'] if c not in free]
        spec['parameters'] = [dict(name=c['name']) for c in free] + [dict(name='pfree')]
        end = draw(st.sampled_from(['initial_cost', 'terminal_cost']))
        spec[end] = '%s + %s*pfree' % (spec.get(end) or '0', spec['states'][0]['name'])
        spec['path_cost'] += ' + 0.3*pfree**2'
    nm = [spec['indep']] + [s['name'] for s in spec['states']] + [c['name'] for c in spec['controls']] \
        + [c['name'] for c in spec['constants'] if not c['name'].startswith(('eps', 'tol'))] + ['COST'] \
        + [c['name'] for c in spec.get('parameters', [])]
    ex = st.sampled_from([[1, 0, 0], [0, 1, 0], [1, -1, 0], [0, 0, 1], [1, -2, 0], [0, 0, 0], [-1, 0, 0], [2, -1, 1]])
    units = {n: draw(ex) for n in nm}
    if draw(st.booleans()):
        units[spec['indep']] = [0, 1, 0]
    units['CON'] = [draw(ex) for _ in range(4)]
    # a lower or upper bound may be a named constant: give it the unit of the bounded expression by leaving it dimensionless
    for c in spec['constants']:
        if c['name'].startswith('bnd_'):
            units[c['name']] = [0, 0, 0]
    scale_by = dict(dc=[draw(st.integers(50, 400)) / 100.0 for _ in DIMS], choice=[draw(st.integers(0, 23)) for _ in DIMS],
                    ref=[draw(st.sampled_from([0.25, 2.5, -1.5, -3.25, 7.0])) for _ in DIMS],
                    avoid=[s['name'] for i, s in enumerate(spec['states'])
                           if red and any(f['field'][i] == '1' for f in spec.get('symmetries', []))])
    # constants that may be zero cannot set a scale
    scale_by['avoid'] += [c['name'] for c in spec['constants'] if c['value'] == 0]
    vals = [draw(gen.signed(9)) for _ in range(3)]
    sg = st.sampled_from([[1, 1, 1], [-1, -1, -1], [1, -1, 1], [-1, 1, -1], [-1, -1, 1]])
    return dict(spec=spec, units=units, scale_by=scale_by, opts=opts, vals=vals, signs=[draw(sg) for _ in range(5)], par=draw(gen.signed(4)))


PARTS = [Part('covariance', cases, run, quick=(8, 90), thorough=(8, 900))]
