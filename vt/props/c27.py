"""C27: free parameters are optimised along with the trajectory."""
import copy
import re
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, maps
from vt.ocp import build_problem, formulate

RULE = ('a generated problem with free parameters counts as non-trivial when its boundary value problem was compared, at one or more regular '
        'points, with that of the same problem in which each parameter is a state of zero rate (part formulation), when the guess reached the '
        'solver (part guess), or when a converged solve was compared with the known optimum (part solve)')


def as_states(spec):
    """the same problem with every free parameter as a state that does not move"""
    s = copy.deepcopy(spec)
    s['states'] = s['states'] + [dict(name=p['name'], eom='0') for p in s.pop('parameters')]
    return s


def values(names, rng):
    return {nm: float(v) for nm, v in zip(names, rng)}


def run_formulation(case):
    spec = case['spec']
    opt = dict(method='traditional', control_method=case['control'])
    with sut('formulating a problem with free parameters'):
        A = formulate(build_problem(spec), **opt)
    try:
        B = formulate(build_problem(as_states(spec)), **opt)
    except Exception as e:
        raise Skip('reference formulation: %r' % e)
    pn = [p['name'] for p in spec['parameters']]
    ys, qs = [s.name for s in A.states], [q.name for q in A.quads]
    yb = [s.name for s in B.states]
    if sorted(ys + qs + pn) != sorted(yb):
        raise Violation('variables of the boundary value problem are %s and quadratures %s, expected the adjoints of %s as quadratures'
                        % (ys, qs, pn))
    if [p.name for p in A.parameters][:len(pn)] != pn and sorted(p.name for p in A.parameters)[:] != sorted(pn + ['_delta' + spec['indep']]):
        raise Violation('parameters of the boundary value problem: %s' % [p.name for p in A.parameters])
    fa, fb = A.functional_problem, B.functional_problem
    used = 0
    for pt in case['pts']:
        k = np.array(pt['k'], dtype=float)
        ends = []
        for vals in pt['vals']:
            d = dict(zip(sorted(ys + qs), vals))
            d.update(zip(pn, pt['p']))
            ends.append(d)
        dt = pt['dt']
        pa = np.array([dt if p.name not in pn else ends[0][p.name] for p in A.parameters])
        nu = np.array(pt['nu'][:len(A.constraint_parameters)], dtype=float)
        with sut('evaluating the rates and boundary conditions of a problem with free parameters'):
            ra, rq, res = [], [], None
            for d in ends:
                y = np.array([d[n] for n in ys])
                ra.append(np.asarray(fa.deriv_func(y, pa, k), dtype=float))
                rq.append(np.asarray(fa.quad_func(y, pa, k), dtype=float))
            Y = [np.array([d[n] for n in ys]) for d in ends]
            Q = [np.array([d[n] for n in qs]) for d in ends]
            res = np.asarray(fa.bc_func(Y[0], Q[0], Y[1], Q[1], pa, nu, k), dtype=float)
        Z = [np.array([d[n] for n in yb]) for d in ends]
        pb = np.array([dt])
        with np.errstate(all='ignore'):
            rb = [np.asarray(fb.deriv_func(z, pb, k), dtype=float) for z in Z]
            resb = np.asarray(fb.bc_func(Z[0], Z[1], pb, nu, k), dtype=float)
        if not (np.all(np.isfinite(resb)) and all(np.all(np.isfinite(r)) for r in rb)):
            continue
        if max([np.max(np.abs(resb))] + [np.max(np.abs(r)) for r in rb]) > 1e7:
            continue
        for a, q, b, d in zip(ra, rq, rb, ends):
            ref = dict(zip(yb, b))
            for nm, v in list(zip(ys, a)) + list(zip(qs, q)):
                if not abs(v - ref[nm]) <= 1e-7 * (1 + np.max(np.abs(b))):
                    raise Violation('rate of %s at %s with duration %s: %.12g, with the parameters as states of zero rate: %.12g'
                                    % (nm, d, dt, v, ref[nm]))
        if len(res) != len(resb):
            raise Violation('%d boundary conditions, with the parameters as states: %d' % (len(res), len(resb)))
        x, z = np.sort(np.abs(res)), np.sort(np.abs(resb))
        if not np.all(np.abs(x - z) <= 1e-7 * (1 + np.max(z))):
            raise Violation('boundary conditions %s, with the parameters as states of zero rate: %s (at %s)' % (res.tolist(), resb.tolist(), ends))
        used += 1
    # trajectories: parameters pass through, adjoints of the parameters are quadratures of the boundary value problem only
    tr = case['traj']
    u, _ = maps.controls_within(spec, tr)
    sol = maps.make_traj(spec, tr, u, [c['value'] for c in spec['constants']])
    sol.dynamical_parameters = np.array(case['pts'][0]['p'], dtype=float)
    before = copy.deepcopy(sol)
    with sut('mapping a trajectory of a problem with free parameters'):
        mp = A.map_sol(copy.deepcopy(sol))
    if np.shape(mp.q) != (len(sol.t), len(qs)) or np.shape(mp.y) != (len(sol.t), len(ys)) or len(mp.dynamical_parameters) != len(A.parameters):
        raise Violation('mapped trajectory has states %s, quadratures %s, %d parameters; the problem has %d, %d and %d'
                        % (np.shape(mp.y), np.shape(mp.q), len(mp.dynamical_parameters), len(ys), len(qs), len(A.parameters)))
    got = dict(zip([p.name for p in A.parameters], mp.dynamical_parameters))
    for nm, v in zip(pn, before.dynamical_parameters):
        if got[nm] != v:
            raise Violation('parameter %s = %r became %r' % (nm, v, got[nm]))
    mp.q = np.asarray(mp.q) + 0.5
    with sut('mapping back a trajectory of a problem with free parameters'):
        back = A.inv_map_sol(mp)
    for f in ('t', 'y', 'dual', 'dynamical_parameters', 'const') + (() if case['control'] == 'algebraic' else ('u',)):
        if not maps.same(np.asarray(getattr(back, f), dtype=float), np.asarray(getattr(before, f), dtype=float)):
            raise Violation('%s did not come back: %s became %s' % (f, getattr(before, f), getattr(back, f)))
    if np.size(back.q) != 0:
        raise Violation('a problem without quadratures got quadratures %s back' % (back.q,))
    return dict(nontrivial=used > 0, label=['%d parameters' % len(pn), case['control']])


@st.composite
def formulation(draw, small=False):
    control = draw(st.sampled_from(['differential', 'differential', 'algebraic']))
    alg = control == 'algebraic'
    spec = draw(genocp.ocp_spec(max_states=1 if small else 3, max_controls=1 if alg or small else 2, nonlinear_u=not alg, qty_controls=not alg,
                                quantities=0 if small else draw(st.sampled_from([0, 1])), utm=0 if alg or small else draw(st.sampled_from([0, 0, 1])),
                                end_bounds=0 if small else draw(st.sampled_from([0, 0, 1])), bound_controls=False))
    spec['parameters'] = [dict(name=nm) for nm in draw(st.permutations(['pa', 'pb', 'dur']))[:draw(st.integers(1, 2 if small else 3))]]
    pn = [p['name'] for p in spec['parameters']]
    # constants become parameters as well
    for c in list(spec['constants']):
        if c['name'] in gen.CONST_NAMES and draw(st.integers(0, 2)) == 0 and len(pn) < 4:
            spec['constants'].remove(c)
            spec['parameters'].append(dict(name=c['name']))
            pn.append(c['name'])

    def touch(text):
        other = draw(st.sampled_from([s['name'] for s in spec['states']] + ['1', '2'] + pn))
        return '%s + %s' % (text, draw(st.sampled_from(['0.5*%s*%s', '-%s*%s**2', '%s*sin(%s)', '0.3*%s**2*%s', '%s*exp(0.3*%s)'])) % (draw(st.sampled_from(pn)), other))
    for s in spec['states']:
        if draw(st.booleans()):
            s['eom'] = touch(s['eom'])
    if draw(st.booleans()):
        spec['path_cost'] = touch(spec['path_cost'])
    for loc in ('initial', 'terminal'):
        if draw(st.booleans()):
            spec[loc + '_cost'] = touch(spec.get(loc + '_cost') or '0')
        for c in spec[loc]:
            if draw(st.integers(0, 2)) == 0 and c.get('lower') is None:
                c['expr'] = touch(c['expr'])
    for q in spec.get('quantities', []):
        if draw(st.booleans()) and not q['name'].startswith('qbnd'):
            q['expr'] = touch(q['expr'])
    pts = []
    num = 2 * (len(spec['states']) + 1) + len(spec['controls']) + len(pn)
    for _ in range(3):
        neg = draw(st.booleans())
        pts.append(dict(vals=[[v * (-1 if neg and draw(st.integers(0, 2)) == 0 else 1) for v in draw(gen.point(num))] for _ in range(2)],
                        p=draw(gen.point(len(pn))), dt=draw(st.integers(20, 300)) / 100.0, nu=draw(gen.signed(20)),
                        k=[round(c['value'] + draw(st.integers(0, 20)) / 100.0, 6) for c in spec['constants']]))
    return dict(spec=spec, control=control, pts=pts, traj=draw(maps.nodes(spec)))


# ---------------------------------------------------------------- whole solves against the known optimum


class LQP:
    """min 1/2 xf'S xf + g'p + int (1/2 x'Qx + 1/2 u'Ru + 1/2 p'Wp) dt, x' = Ax + Bu + d + Ep; final states free, fixed, or tied to p0"""

    def __init__(self, c):
        n, m, r = c['n'], c['m'], c['np']
        self.n, self.m, self.r_ = n, m, r
        g = iter(c['num'])
        M = lambda a, b: np.array([[next(g) for _ in range(b)] for _ in range(a)])
        self.A, self.B, self.E = M(n, n), M(n, m), M(n, r)
        self.d = M(1, n)[0] * 0.5
        self.q, self.R, self.W = np.abs(M(1, n)[0]), 0.5 + np.abs(M(1, m)[0]), 0.6 + np.abs(M(1, r)[0])
        self.s, self.g = np.abs(M(1, n)[0]), M(1, r)[0]
        self.x0, self.xf = M(1, n)[0], M(1, n)[0]
        self.end, self.T, self.tau = c['end'][:n], c['T'], 0.75
        N = 2 * n + 2 * r + 1       # x, lam, lam_p, p, 1
        iX, iL, iG, iP = slice(0, n), slice(n, 2 * n), slice(2 * n, 2 * n + r), slice(2 * n + r, 2 * n + 2 * r)
        F = np.zeros((N, N))
        F[iX, iX], F[iX, iL], F[iX, iP], F[iX, N - 1] = self.A, -self.B @ np.diag(1 / self.R) @ self.B.T, self.E, self.d
        F[iL, iX], F[iL, iL] = -np.diag(self.q), -self.A.T
        F[iG, iL], F[iG, iP] = -self.E.T, -np.diag(self.W)
        self.F = F
        X = expm(F * self.T)
        U = np.zeros((N, n + r))            # unknowns lam(0), p
        U[iL, :n] = np.eye(n)
        U[iP, n:] = np.eye(r)
        b = np.zeros(N)
        b[iX], b[N - 1] = self.x0, 1.0
        XU, Xb = X @ U, X @ b
        K, h = np.zeros((n + r, n + r)), np.zeros(n + r)
        for i in range(n):
            if self.end[i] == 'free':
                K[i], h[i] = XU[n + i] - self.s[i] * XU[i], -(Xb[n + i] - self.s[i] * Xb[i])
            else:
                K[i], h[i] = XU[i], self.xf[i] - Xb[i]
                if self.end[i] == 'tied':
                    K[i] = K[i] - self.tau * U[2 * n + r]
        for j in range(r):
            K[n + j], h[n + j] = XU[2 * n + j], self.g[j] - Xb[2 * n + j]
            if j == 0:
                for i in range(n):
                    if self.end[i] == 'tied':
                        K[n] += self.tau * XU[n + i]
                        h[n] -= self.tau * Xb[n + i]
        sv = np.linalg.svd(K, compute_uv=False)
        self.cond = sv[0] / max(sv[-1], 1e-300)
        self.ok = self.cond < 40
        if self.ok:
            w = np.linalg.solve(K, h)
            self.p = w[n:]
            self.z0 = b + U @ w
            self.ok = np.max(np.abs(w)) < 20

    def at(self, t):
        z = expm(self.F * t) @ self.z0
        x, lam = z[:self.n], z[self.n:2 * self.n]
        return x, lam, -(self.B.T @ lam) / self.R

    def cost(self):
        from scipy.integrate import simpson
        tt = np.linspace(0, self.T, 201)
        L = []
        for t in tt:
            x, _, u = self.at(t)
            L.append(0.5 * np.sum(self.q * x ** 2) + 0.5 * np.sum(self.R * u ** 2) + 0.5 * np.sum(self.W * self.p ** 2))
        x = self.at(self.T)[0]
        return float(simpson(L, x=tt)) + float(self.g @ self.p) + sum(0.5 * self.s[i] * x[i] ** 2 for i in range(self.n) if self.end[i] == 'free')


def problem(lq, c):
    import beluga
    p = beluga.Problem('lqp')
    p.independent('t', 's')
    n, m, r = lq.n, lq.m, lq.r_
    con = []

    def lin(name, row, var, unit):
        out = []
        for j, v in enumerate(row):
            if v:
                con.append(('%s%d' % (name, j), v, unit))
                out.append('%s%d*%s%d' % (name, j, var, j))
        return out
    for j in c['porder'] if c['params_first'] else []:
        if j < r:
            p.parameter('p%d' % j, 'm/s')
    for i in range(n):
        t = lin('a%d_' % i, lq.A[i], 'x', '1/s') + lin('b%d_' % i, lq.B[i], 'u', '1') + lin('e%d_' % i, lq.E[i], 'p', '1')
        if lq.d[i]:
            con.append(('d%d' % i, lq.d[i], 'm/s'))
            t.append('d%d' % i)
        p.state('x%d' % i, ' + '.join(t) or '0', 'm')
    for j in range(m):
        p.control('u%d' % j, 'm/s')
    for j in c['porder'] if not c['params_first'] else []:
        if j < r:
            p.parameter('p%d' % j, 'm/s')
    L = []
    for nm, vec, var, unit in (('q', lq.q, 'x', '1/(m**2*s)'), ('r', lq.R, 'u', 's/m**2'), ('w', lq.W, 'p', 's/m**2')):
        for i, v in enumerate(vec):
            con.append(('%s%d' % (nm, i), v, unit))
            L.append('%s%d*%s%d**2/2' % (nm, i, var, i))
    p.path_cost(' + '.join(L), '1/s')
    F = []
    for i in range(n):
        if lq.end[i] == 'free':
            con.append(('s%d' % i, lq.s[i], '1/m**2'))
            F.append('s%d*x%d**2/2' % (i, i))
    for j in range(r):
        con.append(('g%d' % j, lq.g[j], 's/m'))
        F.append('g%d*p%d' % (j, j))
    p.terminal_cost(' + '.join(F), '1')
    for i in range(n):
        p.initial_constraint('x%d - x%d_0' % (i, i), 'm')
        con.append(('x%d_0' % i, lq.x0[i], 'm'))
        if lq.end[i] != 'free':
            p.terminal_constraint('x%d - x%d_f%s' % (i, i, ' - tau*p0' if lq.end[i] == 'tied' else ''), 'm')
            con.append(('x%d_f' % i, lq.xf[i], 'm'))
    p.initial_constraint('t', 's')
    p.terminal_constraint('t - t_f', 's')
    con += [('t_f', lq.T, 's'), ('tau', lq.tau, 's')]
    for nm, v, u in con:
        p.constant(nm, float(v), u)
    p.scale(m=c['scale'][0], s=c['scale'][1])
    return p


def run_solve(case):
    import beluga
    lq = LQP(case)
    if not lq.ok:
        raise Skip('ill-conditioned')
    p = problem(lq, case)
    order = [j for j in case['porder'] if j < lq.r_]
    kw = dict(start=[float(v) for v in lq.x0], costate_guess=0.1, control_guess=[0.1] * lq.m, time_integrate=lq.T)
    if case['pguess'] is not None:
        kw['param_guess'] = case['pguess'][:lq.r_]
    gg = beluga.guess_generator(case['mode'], **kw)
    if case['alg'] == 'SPBVP':
        solver = beluga.bvp_algorithm('SPBVP', bc_tolerance=1e-6, ode_tolerance=1e-6, max_nodes=20000)
    else:
        solver = beluga.bvp_algorithm('Shooting', tolerance=1e-7, max_error=1e6, max_iterations=60, num_arcs=case['arcs'])
        real = solver.solve

        def solve_(guess_, **kw_):
            r = real(guess_, **kw_)
            if not r['sol'].converged:
                raise Skip('shooting did not converge')
            return r
        solver.solve = solve_
    steps = None
    if case['steps']:
        steps = beluga.init_continuation()
        step = steps.add_step('bisection').num_cases(3)
        step.const('t_f', lq.T)
        for i in range(lq.n):
            if lq.end[i] != 'free':
                step.const('x%d_f' % i, float(lq.xf[i]))
    what = 'a linear-quadratic problem with free parameters (%s, %s, %s guess)' % (case['control'], case['alg'], case['mode'])
    with sut('solving ' + what):
        out = beluga.solve(ocp=p, method='indirect', optim_options=dict(control_method=case['control'], **({'analytical_jacobian': True} if case['jac'] else {})),
                           bvp_algorithm=solver, guess_generator=gg, steps=steps, autoscale=case['autoscale'], initial_helper=case['steps'], save_sols=False)
    sol = out[-1][-1]
    if not sol.converged:
        raise Violation('no convergence on ' + what)
    t = np.asarray(sol.t, dtype=float)
    if abs(t[0]) > 1e-4 or abs(t[-1] - lq.T) > 1e-4 * (1 + lq.T):
        raise Violation('%s: runs from %.8g to %.8g, expected 0 to %.8g' % (what, t[0], t[-1], lq.T))
    pref = lq.p[order]
    if np.shape(sol.dynamical_parameters) != (lq.r_,):
        raise Violation('%s: %d parameters, got %s' % (what, lq.r_, sol.dynamical_parameters))
    ref = [lq.at(tt) for tt in t]
    for nm, a, b in (('parameters', sol.dynamical_parameters, pref), ('states', sol.y, np.array([q[0] for q in ref])),
                     ('costates', sol.dual, np.array([q[1] for q in ref])), ('controls', sol.u, np.array([q[2] for q in ref]))):
        if np.shape(a) != np.shape(b):
            raise Violation('%s: %s have shape %s, expected %s' % (what, nm, np.shape(a), np.shape(b)))
        e = float(np.max(np.abs(a - b)))
        if not e <= 2e-3 * (1 + np.max(np.abs(b))):
            raise Violation('%s: %s differ from the optimal ones by %.3g (%s, optimal %s)' % (what, nm, e, np.asarray(a)[-1], b[-1]))
    if len(t) >= 15:
        J = lq.cost()
        if not abs(sol.cost - J) <= 1e-2 * (1 + abs(J)):
            raise Violation('%s: reported cost %.8g, optimal %.8g' % (what, sol.cost, J))
    return dict(nontrivial=True, label=[case['control'], case['alg'], case['mode'], 'autoscale' if case['autoscale'] else 'unscaled',
                                        'tied' if 'tied' in lq.end else 'plain', 'steps' if case['steps'] else 'no steps'])


@st.composite
def solve_cases(draw):
    n = draw(st.integers(1, 2))
    m = draw(st.integers(1, n))
    r = draw(st.integers(1, 2))
    k = n * n + n * m + n * r + 6 * n + m + 2 * r
    alg = 'Shooting' if draw(st.integers(0, 3)) == 0 else 'SPBVP'
    control = draw(st.sampled_from(['differential', 'algebraic']))
    return dict(n=n, m=m, np=r, num=draw(st.lists(st.integers(-100, 100).map(lambda i: i / 100.0), min_size=k, max_size=k)),
                end=draw(st.lists(st.sampled_from(['free', 'fixed', 'tied', 'free']), min_size=n, max_size=n)), T=draw(st.integers(50, 200)) / 100.0,
                porder=draw(st.permutations([0, 1])), params_first=draw(st.booleans()), control=control, alg=alg, arcs=draw(st.integers(1, 3)),
                mode=draw(st.sampled_from(['auto', 'auto', 'ones'])), steps=draw(st.booleans()), autoscale=draw(st.booleans()),
                jac=control == 'differential' and alg == 'SPBVP' and draw(st.booleans()),
                pguess=draw(st.one_of(st.none(), st.lists(st.sampled_from([0.1, 0.5, -0.3]), min_size=1, max_size=2))),
                scale=[draw(st.sampled_from([1, 2, 0.5])), draw(st.sampled_from([1, 2, 't_f']))])


# ---------------------------------------------------------------- the guess of the parameters


def run_guess(case):
    import beluga
    from vt.props.c25 import catcher
    spec = case['spec']
    np_ = len(spec['parameters'])
    alg = catcher()
    kw = dict(start=list(case['start']), time_integrate=case['time'], control_guess=list(case['u']))
    if case['pguess'] is not None:
        kw['param_guess'] = np.array(case['pguess']) if case['array'] else list(case['pguess'])
    given = copy.deepcopy(kw.get('param_guess'))
    gg = beluga.guess_generator(case['mode'], **kw)
    solve = lambda: beluga.solve(ocp=build_problem(spec), method='indirect', optim_options=dict(control_method='differential'), bvp_algorithm=alg,
                                 guess_generator=gg, steps=None, autoscale=False, save_sols=False)
    if case['pguess'] is not None and len(case['pguess']) > np_:
        try:
            solve()
        except ValueError:
            return dict(nontrivial=True, label='too many values refused')
        except Exception as e:
            raise Violation('guess of %d values for %d parameters: %r instead of ValueError' % (len(case['pguess']), np_, e))
        raise Violation('guess of %d values for %d parameters was accepted' % (len(case['pguess']), np_))
    with sut('a solve with a guess of the parameters'):
        out = [solve() for _ in range(case['times'])]
    for o in out:
        s = o[0][0]
        want = list(case['pguess'] or [])
        want = want + [1.0] * (np_ - len(want))
        if not maps.same(np.asarray(s.dynamical_parameters, dtype=float), np.array(want)):
            raise Violation('the solver started with parameters %s, guessed were %s for %d parameters' % (s.dynamical_parameters, case['pguess'], np_))
        if not maps.same(np.asarray(s.y[0]), np.array(case['start'])):
            raise Violation('the solver started with states %s, guessed were %s' % (s.y[0], case['start']))
    if given is not None and not maps.same(np.asarray(kw['param_guess'], dtype=float), np.asarray(given, dtype=float)):
        raise Violation('the guess of the user was changed from %s to %s' % (given, kw['param_guess']))
    return dict(nontrivial=True, label='%d of %d guessed' % (len(case['pguess'] or []), np_))


@st.composite
def guess_cases(draw):
    base = draw(formulation(small=True))
    spec = base['spec']
    r = len(spec['parameters'])
    return dict(spec=spec, start=draw(gen.point(len(spec['states']))), u=draw(gen.point(len(spec['controls']))), mode=draw(st.sampled_from(['ones', 'auto'])),
                time=draw(st.sampled_from([0.05, 0.1])), times=draw(st.integers(1, 2)), array=draw(st.booleans()),
                pguess=draw(st.one_of(st.none(), st.lists(st.integers(-20, 20).map(lambda i: i / 10.0), min_size=1, max_size=r + 1),
                                      st.lists(st.integers(-20, -1).map(lambda i: i / 10.0), min_size=max(r - 1, 1), max_size=max(r - 1, 1)))))


PARTS = [
    Part('formulation', formulation, run_formulation, quick=(4, 20), thorough=(6, 500)),
    Part('solve', solve_cases, run_solve, quick=(8, 10), thorough=(8, 300), timeout=90),
    Part('guess', guess_cases, run_guess, quick=(4, 20), thorough=(4, 200)),
]
PARTS.append(Part('jit', solve_cases, run_solve, quick=(1, 2), thorough=(4, 30), jit=True, timeout=300))
