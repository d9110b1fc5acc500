"""C22: end to end, the solver returns the optimal trajectory, whatever formulation, solver, scaling and continuation is chosen."""
import numpy as np
from hypothesis import strategies as st
from scipy.linalg import expm

from vt.core import Part, Skip, Violation, sut

RULE = ('a generated optimal control problem with known solution and a generated choice of options counts as non-trivial when the '
        'solve reported convergence and the whole trajectory (states, costates, controls, time, cost, constants) was compared')

UNITS = {'m': [1, 0], 'kg': [0, 1], '1': [0, 0], 'm/kg': [1, -1]}


class LQ:
    """min 1/2 xf'S xf + int (1/2 x'Qx + 1/2 u'Ru + c'x) dt, x' = Ax + Bu + d, some final states fixed, fixed duration"""

    def __init__(self, c):
        n, m = c['n'], c['m']
        self.n, self.m = n, m
        g = iter(c['num'])
        self.A = np.array([[next(g) for _ in range(n)] for _ in range(n)])
        self.B = np.array([[next(g) for _ in range(m)] for _ in range(n)])
        self.d = np.array([next(g) * 0.5 for _ in range(n)])
        self.q = np.array([abs(next(g)) for _ in range(n)])
        self.r = np.array([0.5 + abs(next(g)) for _ in range(m)])
        self.s = np.array([abs(next(g)) for _ in range(n)])
        self.x0 = np.array([next(g) for _ in range(n)])
        self.xf = np.array([next(g) for _ in range(n)])
        self.fixed = list(c['fixed'])[:n]
        self.t0, self.T = c['t0'], c['T']
        for i in c['cyclic']:
            if i < n:
                self.A[:, i] = 0.0
                self.q[i] = 0.0
        n2 = 2 * n
        BR = self.B @ np.diag(1 / self.r) @ self.B.T
        M = np.zeros((n2 + 1, n2 + 1))
        M[:n, :n] = self.A
        M[:n, n:n2] = -BR
        M[n:n2, :n] = -np.diag(self.q)
        M[n:n2, n:n2] = -self.A.T
        M[:n, n2] = self.d
        self.M = M
        E = expm(M * self.T)
        # unknown lam0: final conditions
        K = np.zeros((n, n))
        rhs = np.zeros(n)
        base = E @ np.r_[self.x0, np.zeros(n), 1.0]
        for i in range(n):
            if self.fixed[i]:
                K[i] = E[i, n:n2]
                rhs[i] = self.xf[i] - base[i]
            else:
                K[i] = E[n + i, n:n2] - self.s[i] * E[i, n:n2]
                rhs[i] = -(base[n + i] - self.s[i] * base[i])
        sv = np.linalg.svd(K, compute_uv=False)
        self.cond = sv[0] / max(sv[-1], 1e-300)
        self.lam0 = np.linalg.solve(K, rhs) if sv[-1] > 1e-12 else None

    def at(self, t):
        z = expm(self.M * (t - self.t0)) @ np.r_[self.x0, self.lam0, 1.0]
        x, lam = z[:self.n], z[self.n:2 * self.n]
        return x, lam, -(self.B.T @ lam) / self.r

    def cost(self):
        tt = np.linspace(self.t0, self.t0 + self.T, 401)
        L = []
        for t in tt:
            x, lam, u = self.at(t)
            L.append(0.5 * np.sum(self.q * x ** 2) + 0.5 * np.sum(self.r * u ** 2))
        from scipy.integrate import simpson
        J = float(simpson(L, x=tt))
        x = self.at(self.t0 + self.T)[0]
        return J + sum(0.5 * self.s[i] * x[i] ** 2 for i in range(self.n) if not self.fixed[i])


def un(e, t=0):
    return 'm**(%d)*kg**(%d)*s**(%d)' % (e[0], e[1], t)


def problem(lq, c):
    import beluga
    n, m = lq.n, lq.m
    ux = [UNITS[k] for k in c['ux'][:n]]
    uu = [UNITS[k] for k in c['uu'][:m]]
    uj = UNITS[c['uj']]
    p = beluga.Problem('lq')
    p.independent('t', 's')
    sn = ['x%d' % i for i in range(n)]
    cn = ['u%d' % i for i in range(m)]
    sub = lambda a, *b: [a[0] - sum(z[0] for z in b), a[1] - sum(z[1] for z in b)]
    consts = []
    decl = []
    for i in range(n):
        terms = []
        for j in range(n):
            if lq.A[i, j]:
                terms.append('a%d%d*x%d' % (i, j, j))
                consts.append(('a%d%d' % (i, j), lq.A[i, j], un(sub(ux[i], ux[j]), -1)))
        for j in range(m):
            if lq.B[i, j]:
                terms.append('b%d%d*u%d' % (i, j, j))
                consts.append(('b%d%d' % (i, j), lq.B[i, j], un(sub(ux[i], uu[j]), -1)))
        if lq.d[i]:
            terms.append('d%d' % i)
            consts.append(('d%d' % i, lq.d[i], un(ux[i], -1)))
        decl.append(('x%d' % i, ' + '.join(terms) or '0', un(ux[i])))
    order = [k for k in c['order'] if k < n]
    lq.order = order
    for k in order:
        p.state(*decl[k])
    for j in range(m):
        p.control('u%d' % j, un(uu[j]))
    L = []
    for i in range(n):
        if lq.q[i]:
            L.append('q%d*x%d**2/2' % (i, i))
            consts.append(('q%d' % i, lq.q[i], un(sub(uj, ux[i], ux[i]), -1)))
    for j in range(m):
        L.append('r%d*u%d**2/2' % (j, j))
        consts.append(('r%d' % j, lq.r[j], un(sub(uj, uu[j], uu[j]), -1)))
    p.path_cost(' + '.join(L), un(uj, -1))
    F = []
    for i in range(n):
        if not lq.fixed[i] and lq.s[i]:
            F.append('s%d*x%d**2/2' % (i, i))
            consts.append(('s%d' % i, lq.s[i], un(sub(uj, ux[i], ux[i]))))
    if F:
        p.terminal_cost(' + '.join(F), un(uj))
    ends = []
    for i in range(n):
        p.initial_constraint('x%d - x%d_0' % (i, i), un(ux[i]))
        ends.append(('x%d_0' % i, lq.x0[i], un(ux[i])))
        if lq.fixed[i]:
            p.terminal_constraint('x%d - x%d_f' % (i, i), un(ux[i]))
            ends.append(('x%d_f' % i, lq.xf[i], un(ux[i])))
    p.initial_constraint('t - t_0', 's')
    p.terminal_constraint('t - t_f', 's')
    ends += [('t_0', lq.t0, 's'), ('t_f', lq.t0 + lq.T, 's')]
    consts += ends
    consts.append(('tref', lq.T, 's'))
    consts = [consts[k % len(consts)] for k in _perm(c['cperm'], len(consts))]
    for nm, v, u in consts:
        p.constant(nm, float(v), u)
    for i in c['cyclic']:
        if i < n and c['opts'].get('reduction'):
            p.symmetry(['1' if k == i else '0' for k in order], un(ux[i]))
    sc = dict(m=c['scale'][0], kg=c['scale'][1], s=c['scale'][2])
    p.scale(**sc)
    return p, dict((nm, float(v)) for nm, v, u in ends), [nm for nm, v, u in consts], dict((nm, float(v)) for nm, v, u in consts)


def _perm(keys, n):
    return sorted(range(n), key=lambda i: (keys[i % len(keys)], i))


def run(case):
    import beluga
    lq = LQ(case)
    if lq.lam0 is None or lq.cond > 40 or np.max(np.abs(lq.lam0)) > 30:
        raise Skip('ill-conditioned')
    p, ends, cnames, cvals = problem(lq, case)
    o = dict(case['opts'])
    method = o.pop('method')
    guess = case['guess']
    n = lq.n
    x0 = [float(lq.x0[k]) for k in lq.order]
    gg = beluga.guess_generator(guess['mode'], start=x0, costate_guess=guess['costate'], time_integrate=lq.T,
                                control_guess=[guess['control']] * lq.m)
    alg = case['alg']
    if alg['name'] == 'SPBVP':
        solver = beluga.bvp_algorithm('SPBVP', bc_tolerance=1e-6, ode_tolerance=1e-6, max_nodes=20000)
    else:
        solver = beluga.bvp_algorithm('Shooting', tolerance=1e-7, max_error=1e6, max_iterations=60, num_arcs=alg['arcs'],
                                      algorithm=alg['algorithm'], derivative_method=alg['deriv'])
    steps, kind = None, case['steps']
    if kind != 'none':
        steps = beluga.init_continuation()
        tgt = {k: v for k, v in ends.items() if k.endswith('_f') and k != 't_f' or k[:2] == 't_' and lq.t0}
        if not tgt:
            tgt = {'t_f': ends['t_f']}
        names = list(tgt)
        groups = [names] if kind in ('manual', 'bisection', 'product') or len(names) == 1 else [names[:1], names[1:]]
        for g in groups:
            st_ = steps.add_step({'manual': 'manual', 'bisection': 'bisection', 'product': 'productspace', 'chain': 'bisection'}[kind])
            if kind == 'product':
                st_.num_subdivisions(2)
            else:
                st_.num_cases(case['cases'])
            for k in g:
                st_.const(k, tgt[k])
    if alg['name'] == 'Shooting':
        # shooting does not promise to converge from a distant guess
        real = solver.solve

        def solve_(guess_, **kw):
            r = real(guess_, **kw)
            if not r['sol'].converged:
                raise Skip('shooting did not converge')
            return r
        solver.solve = solve_
    with sut('solving a well-conditioned linear-quadratic problem (%s, %s, %s, steps %s)' % (method, o, alg, kind)):
        out = beluga.solve(ocp=p, method=method, optim_options=o, bvp_algorithm=solver, guess_generator=gg, steps=steps,
                           autoscale=case['autoscale'], initial_helper=kind != 'none', save_sols=False)
    sol = out[-1][-1]
    if not sol.converged:
        raise Violation('no convergence on a well-conditioned linear-quadratic problem (%s, %s, %s, steps %s)' % (method, o, alg, kind))
    compare(lq, sol, cnames, cvals)
    return dict(nontrivial=True, label=['%s %s%s' % (method, o['control_method'], ' reduced' if o.get('reduction') else ''),
                                        alg['name'], 'steps ' + kind, 'autoscale' if case['autoscale'] else 'unscaled',
                                        'n=%d m=%d' % (lq.n, lq.m)])


def compare(lq, sol, cnames, cvals):
    t = np.asarray(sol.t, dtype=float)
    if abs(t[0] - lq.t0) > 1e-4 or abs(t[-1] - lq.t0 - lq.T) > 1e-4 * (1 + lq.T):
        raise Violation('trajectory runs from time %.8g to %.8g, expected %.8g to %.8g' % (t[0], t[-1], lq.t0, lq.t0 + lq.T))
    for nm, v in zip(cnames, sol.const):
        if abs(v - cvals[nm]) > 1e-9 * (1 + abs(cvals[nm])):
            raise Violation('the solution belongs to %s = %.10g, asked for %.10g' % (nm, v, cvals[nm]))
    if sol.y.shape != (len(t), lq.n) or sol.u.shape != (len(t), lq.m) or sol.dual.shape != (len(t), lq.n):
        raise Violation('shapes of the solution: y %s u %s costates %s' % (sol.y.shape, sol.u.shape, sol.dual.shape))
    ref = [lq.at(tt) for tt in t]
    X = np.array([r[0][lq.order] for r in ref])
    Lm = np.array([r[1][lq.order] for r in ref])
    U = np.array([r[2] for r in ref])
    tol = 2e-3
    for what, a, b in (('states', sol.y, X), ('costates', sol.dual, Lm), ('controls', sol.u, U)):
        e = np.max(np.abs(a - b))
        if not e <= tol * (1 + np.max(np.abs(b))):
            i, j = np.unravel_index(np.argmax(np.abs(a - b)), b.shape)
            raise Violation('%s differ from the optimal ones by %.3g (column %d at t=%.4g: %.6g, optimal %.6g)'
                            % (what, e, j, t[i], a[i, j], b[i, j]))
    if len(t) >= 6:
        J = lq.cost()
        slack = 0.05 if len(t) < 15 else 5e-3
        if not abs(sol.cost - J) <= slack * (1 + abs(J)):
            raise Violation('reported cost %.8g, optimal cost %.8g' % (sol.cost, J))


def number():
    return st.integers(-100, 100).map(lambda i: i / 100.0)


@st.composite
def cases(draw, shooting=None):
    n = draw(st.integers(1, 3))
    m = draw(st.integers(1, n))
    meth = draw(st.sampled_from(['traditional', 'diffyg', 'indirect', 'traditional', 'BrysonHo']))
    cm = draw(st.sampled_from(['differential', 'algebraic']))
    opts = dict(method=meth, control_method=cm)
    cyc = []
    if n > 1 and draw(st.booleans()):
        cyc = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n - 1, unique=True))
        if draw(st.booleans()):
            opts['method'] = 'diffyg'
            opts['reduction'] = True
    if shooting is None:
        shooting = draw(st.integers(0, 3)) == 0
    if shooting:
        alg = dict(name='Shooting', arcs=draw(st.integers(1, 3)), algorithm=draw(st.sampled_from(['Armijo', 'Armijo', 'hybr'])),
                   deriv=draw(st.sampled_from(['fd', 'csd'])) if cm == 'differential' else 'fd')
    else:
        alg = dict(name='SPBVP')
    k = n * n + n * m + n + n + m + n + n + n
    return dict(n=n, m=m, num=draw(st.lists(number(), min_size=k, max_size=k)), fixed=draw(st.lists(st.booleans(), min_size=n, max_size=n)),
                t0=draw(st.sampled_from([0.0, 0.0, 0.5, -1.0])), T=draw(st.integers(50, 200)) / 100.0, cyclic=cyc, opts=opts,
                ux=draw(st.lists(st.sampled_from(list(UNITS)), min_size=n, max_size=n)),
                uu=draw(st.lists(st.sampled_from(list(UNITS)), min_size=m, max_size=m)), uj=draw(st.sampled_from(list(UNITS))),
                order=draw(st.permutations(list(range(n)))), cperm=draw(st.lists(st.integers(0, 9), min_size=5, max_size=5)),
                scale=[draw(st.sampled_from([1, 2, 10, 0.5])) for _ in range(2)] + [draw(st.sampled_from([1, 2, 'tref', '2*tref', 0.25]))],
                guess=dict(mode=draw(st.sampled_from(['auto', 'ones'])), costate=draw(st.sampled_from([0.1, -0.1, 0.0, 0.3])),
                           control=draw(st.sampled_from([0.1, 0.0, -0.2]))),
                alg=alg, steps=draw(st.sampled_from(['none', 'none', 'manual', 'bisection', 'product', 'chain'])),
                cases=draw(st.integers(2, 5)), autoscale=draw(st.booleans()))



class Energy1:
    """min int (c + r u^2/2), x' = b u + d, x: 0 -> L, free final time"""
    names, controls, cyc = ['x'], ['u'], [0]

    def __init__(self, q):
        self.c, self.r, self.b = 0.3 + q[0], 0.3 + q[1], 0.4 + q[2]
        self.d, self.L = q[3] - 1.0, 0.5 + q[4]
        # c + lam d - lam^2 b^2/(2 r) = 0, lam < 0 so that x grows
        A, B, C = -self.b ** 2 / (2 * self.r), self.d, self.c
        self.lam = [l for l in np.roots([A, B, C]) if l < 0][0].real
        self.u = -self.lam * self.b / self.r
        self.v = self.b * self.u + self.d
        self.ok = self.v > 0.15
        self.T = self.L / self.v
        self.J = (self.c + self.r * self.u ** 2 / 2) * self.T

    def define(self, p):
        p.state('x', 'b*u + d', 'm')
        p.control('u', '1')
        for n, v, u in (('b', self.b, 'm/s'), ('d', self.d, 'm/s'), ('c', self.c, '1/s'), ('r', self.r, '1/s')):
            p.constant(n, v, u)
        p.path_cost('c + r*u**2/2', '1/s')

    start, end = [0.0], property(lambda self: [self.L])

    def at(self, t):
        return [self.v * t], [self.lam], [self.u]


class Energy2:
    """min int (c + r u^2/2), double integrator from rest to rest over L, free final time"""
    names, controls, cyc = ['x', 'v'], ['u'], [0]

    def __init__(self, q):
        self.c, self.r, self.L = 0.3 + q[0], 0.3 + q[1], 0.5 + q[2]
        self.ok = True
        # J(T) = c T + 6 r L^2 / T^3
        self.T = (18 * self.r * self.L ** 2 / self.c) ** 0.25
        self.J = self.c * self.T + 6 * self.r * self.L ** 2 / self.T ** 3

    def define(self, p):
        p.state('x', 'v', 'm')
        p.state('v', 'u', 'm/s')
        p.control('u', 'm/s**2')
        p.constant('c', self.c, '1/s')
        p.constant('r', self.r, 's**3/m**2')
        p.path_cost('c + r*u**2/2', '1/s')

    start, end = [0.0, 0.0], property(lambda self: [self.L, 0.0])

    def at(self, t):
        L, T = self.L, self.T
        u = 6 * L / T ** 2 - 12 * L * t / T ** 3
        return [3 * L * t ** 2 / T ** 2 - 2 * L * t ** 3 / T ** 3, 6 * L * t / T ** 2 - 6 * L * t ** 2 / T ** 3], \
            [-12 * L * self.r / T ** 3, -self.r * u], [u]


class Zermelo:
    """least time across a uniform current"""
    names, controls, cyc = ['x', 'y'], ['th'], [0, 1]

    def __init__(self, q):
        self.V = 0.8 + q[0]
        self.w = np.array([q[1] - 1.0, q[2] - 1.0]) * 0.6 * self.V / 1.5
        self.r = np.array([0.4 + q[3], 0.4 + q[4]])
        # |r - w T| = V T
        A = self.w @ self.w - self.V ** 2
        B = -2 * self.r @ self.w
        C = self.r @ self.r
        T = [z.real for z in np.roots([A, B, C]) if abs(z.imag) < 1e-12 and z.real > 0]
        self.ok = len(T) == 1
        self.T = self.J = T[0]
        e = (self.r - self.w * self.T) / (self.V * self.T)
        self.th = float(np.arctan2(e[1], e[0]))
        mu = 1 / (self.V + self.w @ e)
        self.lam = -mu * e
        self.ok = self.ok and 0.1 < self.th < 1.45

    def define(self, p):
        p.state('x', 'V*cos(th) + w1', 'm')
        p.state('y', 'V*sin(th) + w2', 'm')
        p.control('th', 'rad')
        p.constant('V', self.V, 'm/s')
        p.constant('w1', self.w[0], 'm/s')
        p.constant('w2', self.w[1], 'm/s')
        p.path_cost('1', '1')

    start, end = [0.0, 0.0], property(lambda self: list(self.r))

    def at(self, t):
        e = np.array([np.cos(self.th), np.sin(self.th)])
        return list((self.V * e + self.w) * t), list(self.lam), [self.th]


class Brachistochrone:
    names, controls, cyc = ['x', 'y', 'v'], ['th'], [0, 1]

    def __init__(self, q):
        self.g = 0.5 + q[0]
        self.phi = 1.0 + q[1]          # final cycloid angle, 1.2 .. 3
        self.R = 0.4 + 0.5 * q[2]
        self.v0 = 0.0
        self.phi0 = 0.25 + 0.2 * q[3]  # the start is a point of the cycloid with some speed
        self.ok = True
        om = np.sqrt(self.g / self.R)
        self.om = om
        self.T = self.J = (self.phi - self.phi0) / om
        self.ok = self.T > 0.3
        self.lx = -1 / np.sqrt(4 * self.g * self.R)

    def pos(self, p):
        return self.R * (p - np.sin(p)), -self.R * (1 - np.cos(p)), np.sqrt(2 * self.g * self.R * (1 - np.cos(p)))

    def define(self, p):
        p.state('x', 'v*cos(th)', 'm')
        p.state('y', 'v*sin(th)', 'm')
        p.state('v', '-g*sin(th)', 'm/s')
        p.control('th', 'rad')
        p.constant('g', self.g, 'm/s**2')
        p.path_cost('1', '1')

    @property
    def start(self):
        return list(self.pos(self.phi0))

    @property
    def end(self):
        return list(self.pos(self.phi))[:2]

    def at(self, t):
        p = self.phi0 + self.om * t
        x, y, v = self.pos(p)
        th = -(np.pi / 2 - p / 2)      # slope dy/dx = -cot(p/2)
        return [x, y, v], None, [th]


FAMILIES = dict(energy1=Energy1, energy2=Energy2, zermelo=Zermelo, brachistochrone=Brachistochrone)


def run_free(case):
    import beluga
    from beluga.numeric.data_classes.Trajectory import Trajectory
    f = FAMILIES[case['family']](case['q'])
    if not f.ok:
        raise Skip('outside the family')
    p = beluga.Problem('free')
    p.independent('t', 's')
    f.define(p)
    n, m = len(f.names), len(f.controls)
    units = {'x': 'm', 'y': 'm', 'v': 'm/s'}
    tgt = {}
    for nm, v in zip(f.names, f.start):
        p.constant(nm + '_0', float(v), units[nm])
        p.initial_constraint('%s - %s_0' % (nm, nm), units[nm])
        tgt[nm + '_0'] = float(v)
    p.initial_constraint('t', 's')
    for nm, v in zip(f.names, f.end):
        p.constant(nm + '_f', float(v), units[nm])
        p.terminal_constraint('%s - %s_f' % (nm, nm), units[nm])
        tgt[nm + '_f'] = float(v)
    o = dict(case['opts'])
    method = o.pop('method')
    if o.get('reduction'):
        for i in f.cyc:
            p.symmetry(['1' if k == i else '0' for k in range(n)], units[f.names[i]])
    p.scale(m=case['scale'][0], s=case['scale'][1], rad=1)
    # a guess near the solution, perhaps for nearby end points
    N = case['N']
    tt = np.linspace(0, f.T, N)
    ref = [f.at(t) for t in tt]
    z = case['z']
    g = Trajectory(tt * (1 + 0.05 * z[0]), np.array([r[0] for r in ref]) * (1 + 0.05 * z[1]) + 0.01 * z[2], np.zeros((N, 0)),
                   np.array([r[2] for r in ref]) + 0.05 * z[3])
    if ref[0][1] is not None:
        g.dual = np.array([r[1] for r in ref]) * (1 + 0.05 * z[4])
    else:
        lx = f.lx
        g.dual = np.array([[lx, -0.05 * z[4] - 0.01, -abs(np.sin(r[2][0])) / f.g * (1 - t / f.T)] for t, r in zip(tt, ref)])
        # H = 0: 1 + lx v cos + ly v sin - lv g sin = 0 with ly = lx tan(theta_f)
        ly = lx * np.tan(ref[-1][2][0])
        lv = [(1 + lx * r[0][2] * np.cos(r[2][0]) + ly * r[0][2] * np.sin(r[2][0])) / (f.g * np.sin(r[2][0]))
              if abs(np.sin(r[2][0])) > 1e-6 else 0.0 for r in ref]
        g.dual = np.array([[lx, ly, l] for l in lv]) * (1 + 0.05 * z[4])
    g.dual_t = np.zeros(N)
    names = [c.name for c in p.constants]
    vals = [c.default_val for c in p.constants]
    near = dict(zip(names, vals))
    steps = None
    if case['steps'] != 'none':
        for nm, v in zip(f.names, f.end):
            near[nm + '_f'] = v + 0.1 * z[5] * (1 + abs(v))
        steps = beluga.init_continuation()
        s_ = steps.add_step(case['steps'])
        s_.num_cases(case['cases'])
        for nm in f.names[:len(f.end)]:
            s_.const(nm + '_f', tgt[nm + '_f'])
    g.const = np.array([near[k] for k in names], dtype=float)
    alg = case['alg']
    if alg['name'] == 'SPBVP':
        solver = beluga.bvp_algorithm('SPBVP', bc_tolerance=1e-7, ode_tolerance=1e-6, max_nodes=20000)
    else:
        solver = beluga.bvp_algorithm('Shooting', tolerance=1e-7, max_error=1e6, max_iterations=60, num_arcs=alg['arcs'],
                                      algorithm=alg['algorithm'], derivative_method='fd')
    real = solver.solve

    def solve_(guess_, **kw):
        r = real(guess_, **kw)
        if not r['sol'].converged:
            if alg['name'] == 'SPBVP' and (case['family'].startswith('energy') or case['family'] == 'zermelo'):
                raise Violation('no convergence from a guess near the solution (%s, %s %s, steps %s): %s'
                                % (case['family'], method, o, case['steps'], r.get('message')))
            raise Skip('did not converge')
        return r
    solver.solve = solve_
    with sut('solving %s (%s, %s, %s, steps %s)' % (case['family'], method, o, alg, case['steps'])):
        out = beluga.solve(ocp=p, method=method, optim_options=o, bvp_algorithm=solver, steps=steps, save_sols=False,
                           guess_generator=beluga.guess_generator('static', solinit=g), autoscale=case['autoscale'])
    sol = out[-1][-1]
    t = np.asarray(sol.t, dtype=float)
    if abs(t[0]) > 1e-5 or abs(t[-1] - f.T) > 1e-3 * (1 + f.T):
        raise Violation('%s: final time %.8g, optimal %.8g' % (case['family'], t[-1], f.T))
    for nm, v in zip(names, sol.const):
        want = tgt.get(nm, near[nm])
        if abs(v - want) > 1e-9 * (1 + abs(want)):
            raise Violation('%s: the solution belongs to %s = %.10g, asked for %.10g' % (case['family'], nm, v, want))
    ref = [f.at(tau) for tau in t]
    X = np.array([r[0] for r in ref])
    U = np.array([r[2] for r in ref])
    if sol.y.shape != X.shape or sol.u.shape != U.shape:
        raise Violation('shapes of the solution: y %s u %s' % (sol.y.shape, sol.u.shape))
    checks = [('states', sol.y, X, False), ('controls', sol.u, U, f.controls == ['th'])]
    if ref[0][1] is not None:
        checks.append(('costates', sol.dual, np.array([r[1] for r in ref]), False))
    for what, a, b, angle in checks:
        d = a - b
        if angle:
            d = np.arctan2(np.sin(d), np.cos(d))
        e = np.max(np.abs(d))
        if not e <= 3e-3 * (1 + np.max(np.abs(b))):
            raise Violation('%s: %s differ from the optimal ones by %.3g' % (case['family'], what, e))
    if len(t) >= 6 and not abs(sol.cost - f.J) <= 1e-2 * (1 + abs(f.J)):
        raise Violation('%s: reported cost %.8g, optimal %.8g' % (case['family'], sol.cost, f.J))
    return dict(nontrivial=True, label=[case['family'], '%s %s%s' % (method, o['control_method'], ' reduced' if o.get('reduction') else ''),
                                        alg['name'], 'steps ' + case['steps']])


@st.composite
def free(draw):
    fam = draw(st.sampled_from(sorted(FAMILIES)))
    meth = draw(st.sampled_from(['traditional', 'diffyg']))
    opts = dict(method=meth, control_method=draw(st.sampled_from(['differential', 'algebraic'])))
    if meth == 'diffyg' and draw(st.booleans()):
        opts['reduction'] = True
    alg = dict(name='SPBVP')
    if draw(st.integers(0, 3)) == 0:
        alg = dict(name='Shooting', arcs=draw(st.integers(1, 3)), algorithm=draw(st.sampled_from(['Armijo', 'hybr'])))
    return dict(family=fam, q=[draw(st.integers(20, 200)) / 100.0 for _ in range(5)], opts=opts, alg=alg, N=draw(st.integers(8, 25)),
                z=[draw(st.integers(-100, 100)) / 100.0 for _ in range(6)], steps=draw(st.sampled_from(['none', 'manual', 'bisection'])),
                cases=draw(st.integers(2, 4)), scale=[draw(st.sampled_from([1, 2, 0.5])), draw(st.sampled_from([1, 3]))],
                autoscale=draw(st.booleans()))


PARTS = [
    Part('lq', cases, run, quick=(8, 30), thorough=(8, 600), timeout=90),
    Part('free', free, run_free, quick=(8, 12), thorough=(8, 400), timeout=90),
    Part('jit', free, run_free, quick=(1, 2), thorough=(4, 30), jit=True, timeout=300),
]
