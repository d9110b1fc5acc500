"""Boundary value problems with a manufactured solution, as plain data, with an independent reference."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Skip

F = [lambda z: z, np.sin, np.tanh, np.cos]


class BVP:
    def __init__(self, d):
        self.d = d
        self.n, self.nq, self.np, self.nn = len(d['y']), len(d['q']), len(d['p']), len(d['nu'])
        self.k = np.array(d['k'], dtype=float)
        self.ystar, self.qstar = np.array(d['y'], dtype=float), np.array(d['q'], dtype=float)
        self.p, self.nu = np.array(d['p'], dtype=float), np.array(d['nu'], dtype=float)
        self.dim = self.n + self.nq + self.np + self.nn
        yf, qf = self.flow(self.ystar, self.qstar, self.p)
        self.target = np.zeros(self.dim)
        self.target = self.raw_bc(self.ystar, self.qstar, yf, qf, self.p, self.nu, self.k)

    def _tab(self, tab, y, p, k):
        out = np.zeros(len(tab))
        for i, r in enumerate(tab):
            v = r['b'] * k[0] + sum(a * F[kind](y[j]) for a, kind, j in r['terms'])
            if r['p'] is not None and len(p):
                v = v * (1 + p[r['p'] % len(p)])
            out[i] = v
        return out

    # functions in the calling convention of the solvers
    def deriv(self, y, p, k):
        return self._tab(self.d['rows'], y, p, k)

    def quad(self, y, p, k):
        return self._tab(self.d['quads'], y, p, k)

    def raw_bc(self, y0, q0, yf, qf, p, nu, k):
        src = dict(y0=y0, yf=yf, q0=q0, qf=qf, p=p, nu=nu)
        out = []
        for row in self.d['bc']:
            v = 0.0
            for w, kind, idx, form in row:
                z = src[kind][idx]
                v += w * (z if form == 0 else z + 0.2 * np.sin(z))
            out.append(v * k[-1])
        return np.array(out)

    def _twist(self, r):
        """a condition without a (regular) zero, in place of one of the conditions"""
        tw = self.d.get('twist')
        if tw:
            i, kind, s, c = tw
            i %= len(r)
            z = r[i]
            with np.errstate(all='ignore'):
                r[i] = dict(exp=lambda: np.exp(np.minimum(s * z, 300.0)) + c, square=lambda: s * z * z + c, cube=lambda: s * z ** 3 + c,
                            steep=lambda: np.tanh(s * z) + 1 + c, kink=lambda: s * np.abs(z) + c)[kind]()
        return r * np.array(self.d['gain'], dtype=float) if 'gain' in self.d else r

    def bc_q(self, y0, q0, yf, qf, p, nu, k):
        return self._twist(self.raw_bc(y0, q0, yf, qf, p, nu, k) - self.target)

    def bc(self, y0, yf, p, nu, k):
        return self._twist(self.raw_bc(y0, None, yf, None, p, nu, k) - self.target)

    def residual(self, sol, p, nu, k):
        if self.nq:
            return self.bc_q(sol[0], sol[1], sol[2], sol[3], p, nu, k)
        return self.bc(sol[0], sol[2], p, nu, k)

    def flow(self, y0, q0, p, ts=None):
        from scipy.integrate import solve_ivp
        t = np.array([0.0, 1.0] if ts is None else ts)

        def f(_, z):
            return np.r_[self.deriv(z[:self.n], p, self.k), self.quad(z[:self.n], p, self.k)]
        s = solve_ivp(f, [t[0], t[-1]], np.r_[y0, q0], method='DOP853', rtol=1e-11, atol=1e-12,
                      dense_output=ts is not None, max_step=0.5)
        if not s.success or not np.all(np.isfinite(s.y)) or np.max(np.abs(s.y)) > 1e3:
            raise Skip('reference propagation failed')
        if ts is None:
            return s.y[:self.n, -1], s.y[self.n:, -1]
        z = s.sol(t).T
        return z[:, :self.n], z[:, self.n:]

    def shoot(self, z):
        y0, q0, p, nu = np.split(z, np.cumsum([self.n, self.nq, self.np]))
        yf, qf = self.flow(y0, q0, p)
        return self.residual((y0, q0, yf, qf), p, nu, self.k)

    def zstar(self):
        return np.r_[self.ystar, self.qstar, self.p, self.nu]

    def newton(self, z, most=12):
        """(root, worst reduction of the residual per step) of the undamped reference Newton iteration, root None if none"""
        z, worst = np.array(z, dtype=float), 0.0
        try:
            r = self.shoot(z)
            for _ in range(most):
                e = np.linalg.norm(r)
                if e < 1e-8:
                    return z, worst
                z = z - np.linalg.solve(self.jac(z), r)
                r = self.shoot(z)
                worst = max(worst, np.linalg.norm(r) / e)
        except (Skip, np.linalg.LinAlgError):
            pass
        return None, np.inf

    def jac(self, z=None):
        z, h = self.zstar() if z is None else z, 1e-5
        return np.array([(self.shoot(z + h * e) - self.shoot(z - h * e)) / (2 * h) for e in np.eye(self.dim)]).T

    def guess(self, dz, nodes, flow=True):
        from beluga.numeric.data_classes.Trajectory import Trajectory
        z = self.zstar() + np.array(dz)[:self.dim]
        y0, q0, p, nu = np.split(z, np.cumsum([self.n, self.nq, self.np]))
        t = np.linspace(0, 1, nodes)
        if flow:
            y, q = self.flow(y0, q0, p, t)
        else:
            y, q = np.tile(y0, (nodes, 1)), np.tile(q0, (nodes, 1))
        s = Trajectory(t, np.array(y), np.array(q).reshape(nodes, self.nq), np.zeros((nodes, 0)))
        s.dynamical_parameters, s.nondynamical_parameters, s.const = np.array(p), np.array(nu), np.array(self.k)
        return s

    def install(self, alg):
        alg.set_derivative_function(self.deriv)
        alg.set_derivative_jacobian(None)
        alg.set_quadrature_function(self.quad if self.nq else None)
        alg.set_boundarycondition_function(self.bc_q if self.nq else self.bc)
        alg.set_boundarycondition_jacobian(None)
        return alg


@st.composite
def problem(draw, max_n=3, max_q=2, max_p=2, max_nu=2):
    n = draw(st.integers(1, max_n + (draw(st.integers(0, 9)) == 0)))
    nq = draw(st.integers(0, max_q)) if draw(st.booleans()) else 0
    npar = min(draw(st.sampled_from([0, 0, 1, 1, 2])), max_p, n)
    nn = draw(st.integers(0, max_nu))
    co = st.integers(-12, 12).filter(bool).map(lambda i: i / 10.0)
    val = st.integers(-200, 200).map(lambda i: i / 100.0)

    def table(rows):
        return [dict(b=draw(co), terms=[[draw(co), draw(st.integers(0, 3)), draw(st.integers(0, n - 1))]
                                        for _ in range(draw(st.integers(1, 2)))],
                     p=((i if i < npar else draw(st.integers(0, 3))) if npar and (i < npar or draw(st.booleans())) else None)) for i in range(rows)]
    rows, quads = table(n), table(nq)
    form = st.integers(0, 1)
    bc = []
    for i in range(n):
        kind = draw(st.sampled_from(['y0', 'y0', 'yf', 'yf', 'mix']))
        if kind == 'mix':
            bc.append([[1.0, 'y0', i, draw(form)], [draw(co), 'yf', draw(st.integers(0, n - 1)), draw(form)]])
        else:
            bc.append([[1.0, kind, i, draw(form)]])
    for i in range(nq):
        kind = draw(st.sampled_from(['q0', 'qf', 'mix']))
        if kind == 'mix':
            bc.append([[1.0, 'q0', i, 0], [draw(co), 'qf', i, draw(form)]] if draw(st.booleans()) else
                      [[1.0, 'q0', i, 0], [draw(co), 'yf', draw(st.integers(0, n - 1)), 0]])
        else:
            bc.append([[1.0, kind, i, draw(form)]])
    for i in range(npar):
        # one more condition on the states: the end the first rows did not fix
        fixed = {(r[0][1], r[0][2]) for r in bc if len(r) == 1}
        j = draw(st.sampled_from([j for j in range(n) if not {('y0', j), ('yf', j)} <= fixed] or list(range(n))))
        kind = 'yf' if ('y0', j) in fixed else 'y0'
        bc.append([[1.0, kind, j, draw(form)]])
    for i in range(nn):
        bc.append([[1.0, 'nu', i, draw(form)], [draw(co), draw(st.sampled_from(['y0', 'yf'])), draw(st.integers(0, n - 1)), draw(form)]])
        if draw(st.booleans()):
            # multiplier conditions sit between the others and may feed back
            bc.insert(draw(st.integers(0, len(bc) - 1)), bc.pop())
    return dict(rows=rows, quads=quads, bc=bc, y=[draw(val) for _ in range(n)], q=[draw(val) for _ in range(nq)],
                p=[draw(st.integers(-50, 100)) / 100.0 for _ in range(npar)], nu=[draw(val) for _ in range(nn)],
                k=[draw(st.integers(5, 15)) / 10.0, draw(st.integers(5, 15)) / 10.0])
