"""C28: a boundary value problem stated directly is the one that is solved."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, maps
from vt.ocp import build_problem, formulate_direct, Ref, lam
from vt.props.c20 import central, cmp

RULE = ('a generated boundary value problem counts as non-trivial when its compiled rates, quadrature rates, conditions and Jacobians were compared '
        'with the expressions given at a regular point (part formulation), or when a converged solve was compared with the known solution (part solve), or when the guess that reached the solver was compared with the one described (part guess)')


def options(case):
    return dict(do_normalize_time=case['normalize'], do_momentum_shift=case['shift'], analytical_jacobian=case['jac'])


def names_of(spec, key):
    return [d['name'] for d in spec.get(key, [])]


def order(what, got, want):
    if sorted(got) != sorted(want):
        raise Violation('%s of the boundary value problem are %s, expected %s' % (what, got, want))


def run_formulation(case):
    spec = case['spec']
    with sut('formulating a boundary value problem given directly'):
        B = formulate_direct(build_problem(spec), compile_=True, **options(case))
    t, sn, pn, qn, nn = spec['indep'], names_of(spec, 'states'), names_of(spec, 'parameters'), names_of(spec, 'quads'), names_of(spec, 'end_parameters')
    ys, ps, qs, ns = [[s.name for s in L] for L in (B.states, B.parameters, B.quads, B.constraint_parameters)]
    order('variables', ys, sn + ([t] if case['shift'] else []))
    order('quadratures', qs, qn)
    order('multipliers', ns, nn)
    extra = [p for p in ps if p not in pn]
    if [p for p in ps if p in pn] != pn or len(extra) != int(case['normalize']):
        raise Violation('parameters of the boundary value problem are %s, expected %s%s' % (ps, pn, ' and the duration' if case['normalize'] else ''))
    ref = Ref(spec)
    kn = names_of(spec, 'constants')
    args = [t] + sn + pn + qn + nn + kn
    syms = [ref.sym[a] for a in args]
    f = lam(syms, ref.f)
    g = lam(syms, [ref.parse(q['eom']) for q in spec.get('quads', [])]) if qn else None
    b0, bf = lam(syms, ref.psi0), lam(syms, ref.psif)
    fp = B.functional_problem
    kb = [c.name for c in B.constants]
    used = 0
    for pt in case['pts']:
        vals = [dict(zip(args, v)) for v in pt['vals']]
        vals[1].update({n: vals[0][n] for n in pn + nn + kn})
        dt = pt['dt'] if case['normalize'] else 1.0
        R = [f([v[a] for a in args]) for v in vals]
        Rq = [g([v[a] for a in args]) for v in vals] if qn else [[], []]
        C = b0([vals[0][a] for a in args]) + bf([vals[1][a] for a in args])
        allv = np.array(sum(R, []) + sum(Rq, []) + C, dtype=float)
        if not np.all(np.isfinite(allv)) or np.max(np.abs(allv)) > 1e6:
            continue
        Y = [np.array([v[n] for n in ys]) for v in vals]
        Q = [np.array([v[n] for n in qs]) for v in vals]
        P = np.array([vals[0][n] if n in pn else dt for n in ps])
        N = np.array([vals[0][n] for n in ns])
        K = np.array([vals[0][n] for n in kb])
        with sut('evaluating a boundary value problem given directly'):
            rr = [np.asarray(fp.deriv_func(y, P, K), dtype=float) for y in Y]
            rq = [np.asarray(fp.quad_func(y, P, K), dtype=float) for y in Y] if qn else []
            res = np.asarray(fp.bc_func(Y[0], Q[0], Y[1], Q[1], P, N, K) if qn else fp.bc_func(Y[0], Y[1], P, N, K), dtype=float)
        for v, r, want in zip(vals, rr, R):
            w = dict(zip(sn, np.array(want) * dt))
            w[t] = dt
            for n, x in zip(ys, r):
                if not abs(x - w[n]) <= 1e-8 * (1 + np.max(np.abs(allv)) * dt):
                    raise Violation('rate of %s is %.12g, given was %.12g%s (at %s)' % (n, x, w[n], ' with duration %s' % dt if case['normalize'] else '', v))
        for v, r, want in zip(vals, rq, Rq):
            w = dict(zip(qn, np.array(want) * dt))
            for n, x in zip(qs, r):
                if not abs(x - w[n]) <= 1e-8 * (1 + np.max(np.abs(allv)) * dt):
                    raise Violation('rate of the quadrature %s is %.12g, given was %.12g (at %s)' % (n, x, w[n], v))
        if len(res) != len(C):
            raise Violation('%d conditions, given were %d' % (len(res), len(C)))
        n0 = len(ref.psi0)
        for a, b in ((res[:n0], C[:n0]), (res[n0:], C[n0:])):
            a, b = np.sort(np.abs(a)), np.sort(np.abs(b))
            if not np.all(np.abs(a - b) <= 1e-8 * (1 + np.max(np.abs(allv)))):
                raise Violation('conditions at one end %s, given were %s (in any order and sign)' % (a.tolist(), b.tolist()))
        if case['jac']:
            if fp.deriv_func_jac is None or fp.bc_func_jac is None:
                raise Violation('analytical Jacobians were requested but are not available')
            F = lambda y, p: np.asarray(fp.deriv_func(y, p, K), dtype=float)
            Jy, Jp = central(lambda z: F(z, P), Y[0], len(ys)), central(lambda z: F(Y[0], z), P, len(ys))
            G = lambda z: np.asarray(fp.bc_func(z[0], z[1], z[2], z[3], z[4], z[5], K) if qn else fp.bc_func(z[0], z[2], z[4], z[5], K), dtype=float)
            z0 = [Y[0], Q[0], Y[1], Q[1], P, N]
            J = []
            for i in range(6):
                J.append(central(lambda v, i=i: G(z0[:i] + [v] + z0[i + 1:]), z0[i], len(C)))
            every = [Jy, Jp] + J
            if all(np.all(np.isfinite(a)) and (not a.size or (np.max(np.abs(a)) < 1e5 and np.max(e) < 1e-2 * (1 + np.max(np.abs(a))))) for a, e in every):
                with sut('Jacobians of a boundary value problem given directly'):
                    out = fp.deriv_func_jac(Y[0], P, K)
                    jb = fp.bc_func_jac(*([Y[0], Q[0], Y[1], Q[1], P, N, K] if qn else [Y[0], Y[1], P, N, K]))
                cmp('Jacobian of the rates by the variables', out[0], *Jy)
                cmp('Jacobian of the rates by the parameters', out[1], *Jp)
                cmp('Jacobian of the conditions by the initial variables', jb[0], *J[0])
                cmp('Jacobian of the conditions by the final variables', jb[1], *J[2])
                cmp('Jacobian of the conditions by parameters and multipliers', jb[2], np.hstack((J[4][0], J[5][0])), np.hstack((J[4][1], J[5][1])))
                if qn:
                    cmp('Jacobian of the conditions by the initial quadratures', jb[3], *J[1])
                    cmp('Jacobian of the conditions by the final quadratures', jb[4], *J[3])
        used += 1
    # trajectories go through the maps and come back
    from beluga.numeric.data_classes.Trajectory import Trajectory
    tr = case['traj']
    tt = np.cumsum([0.0 if not case['shift'] else tr['t0']] + tr['dt'])
    n = len(tt)
    sol = Trajectory(tt, np.array(tr['y'], dtype=float)[:n, :len(sn)], np.array(tr['q'], dtype=float)[:n, :len(qn)], np.zeros((n, 0)))
    sol.dynamical_parameters, sol.nondynamical_parameters = np.array(tr['p'][:len(pn)]), np.array(tr['nu'][:len(nn)])
    sol.const = np.array([c['value'] for c in spec['constants']], dtype=float)
    with sut('mapping a trajectory of a boundary value problem given directly'):
        mp = B.map_sol(copy.deepcopy(sol))
        got = dict(zip(ys, np.asarray(mp.y).T))
        back = B.inv_map_sol(copy.deepcopy(mp))
    if np.shape(mp.y) != (n, len(ys)) or len(mp.dynamical_parameters) != len(ps) or np.shape(mp.nondynamical_parameters) != (len(nn),):
        raise Violation('mapped trajectory has states %s, %d parameters, %d multipliers' % (np.shape(mp.y), len(mp.dynamical_parameters), len(mp.nondynamical_parameters)))
    for i, s in enumerate(sn):
        if not np.array_equal(got[s], sol.y[:, i]):
            raise Violation('state %s became %s, was %s' % (s, got[s], sol.y[:, i]))
    if case['shift'] and not np.array_equal(got[t], tt):
        raise Violation('time as a state is %s, times are %s' % (got[t], tt))
    want_t = (tt - tt[0]) / (tt[-1] - tt[0]) if case['normalize'] else tt
    if not maps.same(mp.t, want_t):
        raise Violation('times became %s, expected %s' % (mp.t, want_t))
    for nm, v in zip(ps, mp.dynamical_parameters):
        w = sol.dynamical_parameters[pn.index(nm)] if nm in pn else tt[-1] - tt[0]
        if not abs(v - w) <= 1e-12 * (1 + abs(w)):
            raise Violation('parameter %s became %r, expected %r' % (nm, v, w))
    for fld in ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters', 'const'):
        if not maps.same(np.asarray(getattr(back, fld), dtype=float), np.asarray(getattr(sol, fld), dtype=float)):
            raise Violation('%s did not come back: %s became %s' % (fld, getattr(sol, fld), getattr(back, fld)))
    return dict(nontrivial=used > 0, label=['normalized' if case['normalize'] else 'plain', 'time as state' if case['shift'] else 'no time',
                                            'jac' if case['jac'] else 'no jac', '%d quads' % len(qn), '%d parameters' % len(pn)])


@st.composite
def formulation(draw):
    shift, normalize, jac = draw(st.booleans()), draw(st.booleans()), draw(st.booleans())
    n = draw(st.integers(1, 3))
    sn = draw(st.permutations(gen.STATE_NAMES))[:n]
    kn = draw(st.permutations(gen.CONST_NAMES))[:draw(st.integers(0, 2))]
    pn = draw(st.permutations(['pa', 'pb', 'len1']))[:draw(st.sampled_from([0, 0, 1, 2]))]
    qn = draw(st.permutations(['w1', 'acc']))[:draw(st.sampled_from([0, 0, 1, 2]))]
    nn = draw(st.permutations(['n1', 'mult']))[:draw(st.sampled_from([0, 0, 1, 2]))]
    t = draw(st.sampled_from(['t', 'tau', 's1']))
    spec = dict(indep=t, constants=[dict(name=k, value=draw(st.integers(20, 200)) / 100.0) for k in kn], parameters=[dict(name=p) for p in pn],
                end_parameters=[dict(name=p) for p in nn])
    base = list(sn) * 2 + list(kn) + list(pn) + ([t] if shift else [])
    spec['quantities'] = []
    for i in range(draw(st.sampled_from([0, 0, 1, 2]))):
        spec['quantities'].append(dict(name='qty%d' % i, expr=draw(gen.expr(base, 2, 2))))
        base = base + ['qty%d' % i]
    if len(spec['quantities']) == 2 and draw(st.booleans()):
        spec['quantities'].reverse()
    ends = list(base)
    if draw(st.integers(0, 3)) == 0:
        nf = draw(st.integers(1, 2))
        spec['constants'].append(dict(name='tol_sw', value=draw(st.integers(50, 300)) / 100.0))
        spec['switches'] = [dict(name='sw0', functions=[draw(gen.expr(base, 1, 2)) for _ in range(nf)],
                                 conditions=[[draw(gen.expr(base, 1, 1)) for _ in range(draw(st.integers(1, 2)))] for _ in range(nf)], tol='tol_sw')]
        base = base + ['sw0']
    spec['states'] = [dict(name=s, eom=draw(gen.expr(base, 2, 2))) for s in sn]
    spec['quads'] = [dict(name=q, eom=draw(gen.expr(base, 2, 2))) for q in qn]
    ends = ends + list(qn) * 2 + list(nn) * 2
    spec['initial'] = [dict(expr=draw(gen.expr(ends, 2, 2))) for _ in range(draw(st.integers(1, 3)))]
    spec['terminal'] = [dict(expr=draw(gen.expr(ends, 2, 2))) for _ in range(draw(st.integers(1, 3)))]
    num = 1 + n + len(pn) + len(qn) + len(nn) + len(spec['constants'])
    pts = [dict(vals=[draw(gen.point(num)) for _ in range(2)], dt=draw(st.integers(20, 300)) / 100.0) for _ in range(3)]
    m = draw(st.integers(2, 5))
    return dict(spec=spec, shift=shift, normalize=normalize, jac=jac, pts=pts,
                traj=dict(t0=draw(st.sampled_from([0.0, 0.5, -1.25])), dt=[draw(st.integers(1, 100)) / 50.0 for _ in range(m - 1)],
                          y=[draw(gen.signed(3)) for _ in range(m)], q=[draw(gen.signed(2)) for _ in range(m)], p=draw(gen.signed(3)), nu=draw(gen.signed(2))))


# ---------------------------------------------------------------- whole solves against a manufactured solution

FN = ['%s', 'sin(%s)', 'tanh(%s)', 'cos(%s)']
FNUM = [lambda z: z, np.sin, np.tanh, np.cos]


class Known:
    """x' = (b + sum a F(x or t)) * (1 + p), conditions that hold for the manufactured start, parameters, multipliers and duration"""

    def __init__(self, c):
        self.c = c
        self.n, self.nq, self.np, self.nn = len(c['y']), len(c['q']), len(c['p']), len(c['nu'])
        self.freeT = c['normalize'] and not c['shift']
        self.z = np.array(c['y'] + c['q'] + c['p'] + c['nu'] + ([c['T']] if self.freeT else []), dtype=float)

    def split(self, z):
        return np.split(z, np.cumsum([self.n, self.nq, self.np, self.nn]))

    def flow(self, z, ts=None):
        from scipy.integrate import solve_ivp
        y, q, p, nu, T = self.split(np.asarray(z, dtype=float))
        T = T[0] if self.freeT else self.c['T']
        t0 = self.c['t0'] if self.c['shift'] else 0.0

        def f(t, w):
            out = []
            for r in self.c['rows'] + self.c['quads']:
                v = r['b'] + sum(a * FNUM[k](w[j] if j >= 0 else t) for a, k, j in r['terms'])
                out.append(v * (1 + p[r['p']]) if r['p'] is not None else v)
            return out
        t = np.array([t0, t0 + T]) if ts is None else np.asarray(ts)
        s = solve_ivp(f, [t[0], t[-1]], np.r_[y, q], method='DOP853', rtol=1e-11, atol=1e-12, dense_output=True, max_step=0.5)
        if not s.success or not np.all(np.isfinite(s.y)) or np.max(np.abs(s.y)) > 50:
            raise Skip('reference propagation failed')
        return t, s.sol(t).T

    def conditions(self, z):
        y, q, p, nu, T = self.split(np.asarray(z, dtype=float))
        _, w = self.flow(z)
        out = []
        for row in self.c['bc']:
            e = w[0] if row['end'] == 'initial' else w[-1]
            v = 0.0
            for a, kind, j, form in row['terms']:
                x = dict(y=e[:self.n], q=e[self.n:], nu=nu)[kind][j]
                v += a * (x if form == 0 else x + 0.2 * np.sin(x))
            out.append(v)
        return np.array(out)

    def jac(self, z):
        h = 1e-5
        return np.array([(self.conditions(z + h * e) - self.conditions(z - h * e)) / (2 * h) for e in np.eye(len(z))]).T

    def newton(self, z, target, most=12):
        """(root, worst reduction of the residual per step) of the undamped reference Newton iteration, root None if none"""
        z, worst = np.array(z, dtype=float), 0.0
        try:
            r = self.conditions(z) - target
            for _ in range(most):
                e = np.linalg.norm(r)
                if e < 1e-8:
                    return z, worst
                z = z - np.linalg.solve(self.jac(z), r)
                r = self.conditions(z) - target
                worst = max(worst, np.linalg.norm(r) / e)
        except (Skip, np.linalg.LinAlgError):
            pass
        return None, np.inf


def stated(kn, c):
    """the same as a problem of beluga: units of time on rates, targets as constants"""
    import beluga
    pr = beluga.Problem('direct')
    pr.independent('t', 's')
    con = []

    def rate(tag, r):
        con.append(('b' + tag, r['b'], '1/s'))
        ts = ['b' + tag]
        for i, (a, k, j) in enumerate(r['terms']):
            con.append(('a%s_%d' % (tag, i), a, '1/s'))
            ts.append('a%s_%d*' % (tag, i) + FN[k] % ('x%d' % j if j >= 0 else '(om*t)'))
        e = ' + '.join(ts)
        return '(%s)*(1 + p%d)' % (e, r['p']) if r['p'] is not None else e
    for i, r in enumerate(c['rows']):
        pr.state('x%d' % i, rate('x%d' % i, r), '1')
    for i, r in enumerate(c['quads']):
        pr.quad('w%d' % i, rate('w%d' % i, r), '1')
    for i in range(kn.np):
        pr.parameter('p%d' % i, '1')
    for i in range(kn.nn):
        pr.constraint_parameter('nu%d' % i, '1')
    target = kn.conditions(kn.z)
    moved = {}
    for i, row in enumerate(c['bc']):
        ts = []
        for a, kind, j, form in row['terms']:
            v = dict(y='x%d', q='w%d', nu='nu%d')[kind] % j
            ts.append('%r*%s' % (a, v if form == 0 else '(%s + 0.2*sin(%s))' % (v, v)))
        nm = 'c%d' % i
        getattr(pr, row['end'] + '_constraint')('%s - %s' % (' + '.join(ts), nm), '1')
        con.append((nm, float(target[i]), '1'))
        if row['move']:
            moved[nm] = float(target[i])
    con.append(('om', 1.0, '1/s'))
    if c['shift']:
        pr.initial_constraint('t - t_0', 's')
        con.append(('t_0', c['t0'], 's'))
        if c['normalize']:
            pr.terminal_constraint('t - t_f', 's')
            con.append(('t_f', c['t0'] + c['T'], 's'))
    con = [(n, (v - 0.02 if n in moved and c['steps'] else v), u) for n, v, u in con]
    for n, v, u in con:
        pr.constant(n, float(v), u)
    pr.scale(s=c['scale'])
    return pr, con, moved


def run_solve(case):
    import beluga
    from beluga.numeric.data_classes.Trajectory import Trajectory
    kn = Known(case)
    base = kn.conditions(kn.z)
    if len(base) != len(kn.z):
        raise Skip('as many conditions as unknowns are needed')
    J = kn.jac(kn.z)
    sv = np.linalg.svd(J, compute_uv=False)
    if not (sv[-1] > 0.15 and sv[0] < 12 and sv[0] / sv[-1] < 25):
        raise Skip('ill-conditioned')
    pr, con, moved = stated(kn, case)
    dz = np.array(case['dz'][:len(kn.z)]) * 0.02
    y, q, p, nu, T = kn.split(kn.z + dz)
    Tg = T[0] if kn.freeT else case['T']
    if case['mode'] == 'static' or kn.nn or (case['shift'] and case['t0']):
        t, w = kn.flow(kn.z + dz, np.linspace(case['t0'] if case['shift'] else 0.0, (case['t0'] if case['shift'] else 0.0) + Tg, case['nodes']))
        g = Trajectory(t, w[:, :kn.n], w[:, kn.n:], np.zeros((len(t), 0)))
        g.dynamical_parameters, g.nondynamical_parameters, g.const = np.array(p), np.array(nu), np.array([v for _, v, _ in con], dtype=float)
        gg = beluga.guess_generator('static', solinit=g)
    else:
        kw = dict(start=list(y), quad_guess=np.array(q), time_integrate=float(Tg), costate_guess=np.array([]) if case['nocostates'] else 0.1)
        if kn.np:
            kw['param_guess'] = list(p)
        gg = beluga.guess_generator('auto', **kw)
    if case['alg'] == 'SPBVP':
        solver = beluga.bvp_algorithm('SPBVP', bc_tolerance=1e-6, ode_tolerance=1e-6, max_nodes=20000)
    else:
        solver = beluga.bvp_algorithm('Shooting', tolerance=1e-7, max_error=1e6, max_iterations=60, num_arcs=case['arcs'])
    steps = None
    if case['steps'] and moved:
        steps = beluga.init_continuation()
        step = steps.add_step('bisection').num_cases(3)
        for n, v in moved.items():
            step.const(n, v)
    what = 'a boundary value problem given directly (%s)' % ', '.join(
        [case['alg']] + [k for k in ('normalize', 'shift', 'jac', 'autoscale') if case[k]] + (['%d arcs' % case['arcs']] if case['alg'] == 'Shooting' else []))
    sol = None
    with sut('solving ' + what):
        try:
            sol = beluga.solve(ocp=pr, method='direct', optim_options=options(case), bvp_algorithm=solver, guess_generator=gg, steps=steps,
                               autoscale=case['autoscale'], save_sols=False)[-1][-1]
        except RuntimeError as e:
            if 'converge' not in str(e):
                raise
    if sol is None or not sol.converged:
        start = base - np.array([0.02 if r['move'] and steps else 0.0 for r in case['bc']])
        z, worst = kn.newton(kn.z + dz, start)
        if z is None or worst > 0.1 or (steps and not kn.newton(z, base)[1] <= 0.1):
            raise Skip('too nonlinear for a promise')
        raise Violation('no convergence on ' + what)
    t = np.asarray(sol.t, dtype=float)
    got = np.r_[sol.y[0], sol.q[0] if kn.nq else [], sol.dynamical_parameters, sol.nondynamical_parameters, [t[-1]] if kn.freeT else []]
    if got.shape == kn.z.shape and np.max(np.abs(got - kn.z)) > 1e-2:
        root, _ = kn.newton(got, base)
        if root is not None and np.max(np.abs(root - got)) < 2e-3 and np.max(np.abs(root - kn.z)) > 1e-2:
            raise Skip('another solution of the same problem')
    T, t0 = case['T'], case['t0'] if case['shift'] else 0.0
    if abs(t[0] - t0) > 1e-4 or abs(t[-1] - t0 - T) > 2e-3 * (1 + T):
        raise Violation('%s: runs from %.8g to %.8g, expected %.8g to %.8g' % (what, t[0], t[-1], t0, t0 + T))
    _, w = kn.flow(kn.z, t0 + (t - t[0]) * (T / (t[-1] - t[0])))
    for nm, a, b in (('states', sol.y, w[:, :kn.n]), ('quadratures', sol.q, w[:, kn.n:]), ('parameters', sol.dynamical_parameters, np.array(case['p'])),
                     ('multipliers', sol.nondynamical_parameters, np.array(case['nu']))):
        a = np.asarray(a, dtype=float)
        if not b.size:
            if a.size:
                raise Violation('%s: there are no %s, got %s' % (what, nm, a))
            continue
        if a.shape != b.shape:
            raise Violation('%s: %s have shape %s, expected %s' % (what, nm, a.shape, b.shape))
        e = float(np.max(np.abs(a - b)))
        if not e <= 2e-3 * (1 + np.max(np.abs(b))):
            raise Violation('%s: %s differ from the solution by %.3g (at the end %s, solution %s)' % (what, nm, e, a[-1], b[-1]))
    want = {n: moved.get(n, v) if case['steps'] else v for n, v, _ in con}
    if not maps.same(np.asarray(sol.const, dtype=float), np.array([want[n] for n, _, _ in con], dtype=float)):
        raise Violation('%s: constants %s, expected %s' % (what, sol.const, want))
    return dict(nontrivial=True, label=[case['alg'], 'normalized' if case['normalize'] else 'plain', 'time as state' if case['shift'] else 'no time',
                                        'jac' if case['jac'] else 'no jac', '%d quads' % kn.nq, '%d parameters' % kn.np, '%d multipliers' % kn.nn])


def run_guess(case):
    import beluga
    from vt.props.c25 import catcher
    case = dict(case, t0=0.0, steps=False)
    kn = Known(case)
    if kn.nn:
        raise Skip('multipliers are only guessed with a trajectory')
    pr, con, _ = stated(kn, case)
    sign = -1.0 if case['reverse'] else 1.0
    T = case['T']
    t, w = kn.flow(kn.z, np.linspace(0, sign * T, 3))       # in domain only where the reference exists
    kw = dict(start=list(case['y']), time_integrate=T, direction='reverse' if case['reverse'] else 'forward')
    if case['nocostates']:
        kw['costate_guess'] = np.array([])
    if kn.nq:
        kw['quad_guess'] = np.array(case['q']) if case['nodes'] % 2 else list(case['q'])
    if kn.np:
        kw['param_guess'] = list(case['p'])
    ones = case['mode'] == 'static'
    what = 'a %s guess for a boundary value problem given directly%s' % ('constant' if ones else 'propagated', ', backwards' if case['reverse'] else '')
    with sut(what):
        alg = catcher()
        sol = beluga.solve(ocp=pr, method='direct', optim_options=options(case), bvp_algorithm=alg, guess_generator=beluga.guess_generator('ones' if ones else 'auto', **kw),
                           steps=None, autoscale=case['autoscale'], save_sols=False)[0][0]
    t = np.asarray(sol.t, dtype=float)
    if abs(t[0]) > 1e-9 or abs(t[-1] - sign * T) > 1e-9:
        raise Violation('%s runs from %.8g to %.8g, asked was %.8g' % (what, t[0], t[-1], sign * T))
    w = np.tile(np.array(case['y'] + case['q'], dtype=float), (len(t), 1)) if ones else kn.flow(kn.z, t)[1]
    for nm, a, b in (('states', sol.y, w[:, :kn.n]), ('quadratures', sol.q, w[:, kn.n:]), ('parameters', sol.dynamical_parameters, np.array(case['p']))):
        a = np.asarray(a, dtype=float)
        if b.size and (a.shape != b.shape or not np.max(np.abs(a - b)) <= (1e-9 if ones else 2e-3) * (1 + np.max(np.abs(b)))):
            raise Violation('%s: %s are %s, expected %s' % (what, nm, a.tolist(), b.tolist()))
    return dict(nontrivial=True, label=['ones' if ones else 'auto', 'reverse' if case['reverse'] else 'forward', '%d quads' % kn.nq, '%d parameters' % kn.np])


@st.composite
def guess_cases(draw):
    return dict(draw(solve_cases()), reverse=draw(st.booleans()))


@st.composite
def solve_cases(draw):
    co = st.integers(-12, 12).filter(bool).map(lambda i: i / 10.0)
    val = st.integers(-150, 150).map(lambda i: i / 100.0)
    shift, normalize = draw(st.booleans()), draw(st.booleans())
    n = draw(st.integers(1, 3))
    nq = draw(st.sampled_from([0, 0, 0, 1, 2]))
    npar = min(n, draw(st.sampled_from([0, 0, 1, 1, 2])))
    nn = draw(st.sampled_from([0, 0, 0, 1]))

    def table(rows):
        return [dict(b=draw(co), terms=[[draw(co), draw(st.integers(0, 3)), draw(st.integers(-1 if shift else 0, n - 1))] for _ in range(draw(st.integers(1, 2)))],
                     p=(i if i < npar else draw(st.integers(0, npar - 1)) if npar and draw(st.booleans()) else None)) for i in range(rows)]
    rows, quads = table(n), table(nq)
    form = st.integers(0, 1)
    move = st.booleans()
    bc, used = [], set()

    def add(end, j):
        used.add((end, j))
        terms = [[1.0, 'y', j, draw(form)]]
        if draw(st.integers(0, 3)) == 0:
            terms.append([draw(co) * 0.5, 'y', draw(st.integers(0, n - 1)), draw(form)])
        bc.append(dict(end=end, terms=terms, move=draw(move)))
    for j in range(n):
        add('initial' if j == 0 else draw(st.sampled_from(['initial', 'terminal'])), j)
    for _ in range(npar + int(normalize and not shift)):
        free = [(e, j) for e in ('terminal', 'initial') for j in range(n) if (e, j) not in used]
        if free:
            add(*draw(st.sampled_from(free)))
    for j in range(nq):
        bc.append(dict(end=draw(st.sampled_from(['initial', 'terminal'])), terms=[[1.0, 'q', j, draw(form)]], move=draw(move)))
    for j in range(nn):
        bc.append(dict(end=draw(st.sampled_from(['initial', 'terminal'])), terms=[[1.0, 'nu', j, draw(form)], [draw(co), 'y', draw(st.integers(0, n - 1)), 0]], move=draw(move)))
    if not shift and len(bc) == 1:      # conditions at both ends are needed
        bc.append(dict(end='terminal', terms=[[1.0, 'q', 0, 0]], move=False))
        quads += table(1)
        nq = 1
    for a, b in (('terminal', 'initial'), ('initial', 'terminal')):
        if not any(r['end'] == a for r in bc) and not (shift and (a == 'initial' or normalize)):
            [r for r in bc if r['end'] == b][-1]['end'] = a
    if draw(st.booleans()):
        bc = list(draw(st.permutations(bc)))
    return dict(shift=shift, normalize=normalize, jac=draw(st.booleans()), rows=rows, quads=quads, bc=bc, y=[draw(val) for _ in range(n)],
                q=[draw(val) for _ in range(nq)], p=[draw(st.integers(-40, 80)) / 100.0 for _ in range(npar)], nu=[draw(val) for _ in range(nn)],
                T=draw(st.integers(50, 150)) / 100.0, t0=draw(st.sampled_from([0.0, 0.0, 0.4, -0.7])), dz=draw(gen.signed(12, -100, 100)),
                mode=draw(st.sampled_from(['auto', 'auto', 'static'])), nodes=draw(st.integers(8, 20)), nocostates=draw(st.booleans()),
                steps=draw(st.booleans()), alg='Shooting' if draw(st.integers(0, 3)) == 0 else 'SPBVP', arcs=draw(st.integers(1, 3)),
                autoscale=draw(st.booleans()), scale=draw(st.sampled_from([1, 2, 0.5])))


PARTS = [
    Part('formulation', formulation, run_formulation, quick=(3, 30), thorough=(6, 600)),
    Part('solve', solve_cases, run_solve, quick=(8, 40), thorough=(8, 800), timeout=90),
    Part('guess', guess_cases, run_guess, quick=(2, 40), thorough=(4, 600)),
    Part('jit', solve_cases, run_solve, quick=(1, 6), thorough=(4, 60), jit=True, timeout=300),
]
