"""Reference first-order necessary conditions, and comparison with a compiled boundary value problem."""
import numpy as np
import sympy

from vt.core import Violation, Skip, sut
from vt.ocp import Ref, lam


def sec_penalty(act, e, lo, up):
    return act * (1 / sympy.cos(sympy.pi / 2 * (2 * e - up - lo) / (up - lo)) - 1)


class PMP:
    """Pontryagin's conditions of a spec, derived by our own code.

    Dynamic variables: states, time, controls, costates (states then time); parameter: duration;
    multipliers: one per equality constraint, initial ones first.
    """

    def __init__(self, spec):
        r = self.r = Ref(spec)
        self.spec = spec
        t = r.sym[r.indep]
        self.t = t
        x = [r.sym[n] for n in r.state_names]
        u = [r.sym[n] for n in r.control_names]
        L, phi0, phif = r.L, r.phi0, r.phif
        f = list(r.f)
        psi0, psif = list(r.psi0), list(r.psif)
        self.trig = {}
        for loc in ('initial', 'path', 'terminal'):
            for c in spec.get(loc, []):
                if c.get('lower') is None:
                    continue
                lo, up, act = (r.parse(str(c[k])) for k in ('lower', 'upper', 'activator'))
                e = r.parse(c['expr'])
                if c.get('method', 'utm').lower() == 'utm':
                    pen = sec_penalty(act, e, lo, up)
                    if loc == 'initial':
                        phi0 = phi0 + pen
                    elif loc == 'terminal':
                        phif = phif + pen
                    else:
                        L = L + pen
                else:
                    k = u.index(e)
                    w = sympy.Symbol('w_trig_%d' % k)
                    self.trig[k] = (w, lo, up, act)
        if self.trig:
            m = {u[k]: (up - lo) / 2 * sympy.sin(w) + (up + lo) / 2 for k, (w, lo, up, act) in self.trig.items()}
            L = L.xreplace(m)
            f = [e.xreplace(m) for e in f]
            for k, (w, lo, up, act) in self.trig.items():
                L = L - act * sympy.cos(w)
                u[k] = w
        self.x, self.u, self.f, self.L = x, u, f, L
        self.phi0, self.phif = phi0, phif
        lamx = [sympy.Symbol('lam__' + n) for n in r.state_names]
        lamt = sympy.Symbol('lam__time')
        dt = sympy.Symbol('duration__')
        nu0 = [sympy.Symbol('nu0__%d' % i) for i in range(len(psi0))]
        nuf = [sympy.Symbol('nuf__%d' % i) for i in range(len(psif))]
        H = L + sum(l * fi for l, fi in zip(lamx, f)) + lamt
        self.H = H
        self.lamx, self.lamt, self.dt, self.nu0, self.nuf = lamx, lamt, dt, nu0, nuf
        self.consts = [r.sym[n] for n in r.const_names]
        P0 = phi0 + sum(n * p for n, p in zip(nu0, psi0))
        Pf = phif + sum(n * p for n, p in zip(nuf, psif))
        self.xdot = f
        self.ldot = [-sympy.diff(H, xi) for xi in x]
        self.ltdot = -sympy.diff(H, t)
        self.g = [sympy.diff(H, ui) for ui in u]
        z = x + [t] + lamx + [lamt]
        zdot = self.xdot + [sympy.Integer(1)] + self.ldot + [self.ltdot]
        self.Huu = [[sympy.diff(gi, uj) for uj in u] for gi in self.g]
        self.rhs = [-sum(sympy.diff(gi, zi) * zd for zi, zd in zip(z, zdot)) for gi in self.g]
        self.bc0 = list(psi0) + [l + sympy.diff(P0, xi) for l, xi in zip(lamx + [lamt], x + [t])]
        self.bcf = list(psif) + [l - sympy.diff(Pf, xi) for l, xi in zip(lamx + [lamt], x + [t])] + [H] + self.g
        self.dyn_args = x + [t] + u + lamx + [lamt] + [dt] + self.consts
        self.bc_args = self.dyn_args + nu0 + nuf
        self._fdyn = lam(self.dyn_args, self.xdot + self.ldot + [self.ltdot] + self.g + self.rhs
                         + [e for row in self.Huu for e in row] + [H])
        self._fbc0 = lam(self.bc_args, self.bc0)
        self._fbcf = lam(self.bc_args, self.bcf)

    def sizes(self):
        return len(self.x), len(self.u), len(self.nu0), len(self.nuf)

    def dyn(self, pt):
        """pt: dict x,t,u,lam,lamt,dt,k -> rates (per unit of normalised time)"""
        n, m, _, _ = self.sizes()
        v = self._fdyn(self.flat(pt))
        xd, ld, ltd = v[:n], v[n:2 * n], v[2 * n]
        g = v[2 * n + 1:2 * n + 1 + m]
        rhs = np.array(v[2 * n + 1 + m:2 * n + 1 + 2 * m])
        Huu = np.array(v[2 * n + 1 + 2 * m:2 * n + 1 + 2 * m + m * m]).reshape(m, m)
        H = v[-1]
        return dict(xd=np.array(xd), ld=np.array(ld), ltd=ltd, g=np.array(g), rhs=rhs, Huu=Huu, H=H)

    def flat(self, pt, nu=False):
        v = list(pt['x']) + [pt['t']] + list(pt['u']) + list(pt['lam']) + [pt['lamt'], pt['dt']] + list(pt['k'])
        if nu:
            v += list(pt['nu'])
        return v


def finite(a):
    return bool(np.all(np.isfinite(np.asarray(a, dtype=float))))


def layout(bvp, pmp):
    """Where the original variables sit in the compiled problem, by the names the user gave; the rest in order."""
    names = [s.name for s in bvp.states]
    r = pmp.r
    idx = {}
    for i, nme in enumerate(names):
        idx.setdefault(nme, i)
    xs, us = [], []
    for nme in r.state_names:
        if nme not in idx:
            raise Violation('state %s is missing from the boundary value problem (%s)' % (nme, names))
        xs.append(idx[nme])
    ti = idx.get(r.indep)
    ucols = []
    for k, nme in enumerate(r.control_names):
        if k in pmp.trig:
            cand = [i for i, s in enumerate(names) if s == '_%s_trig' % nme] or \
                [i for i, s in enumerate(names) if nme in s and 'trig' in s and not s.startswith('_lam')]
            ucols.append(cand[0] if cand else None)
        else:
            ucols.append(idx.get(nme))
    used = set(xs) | {ti} | set(ucols)
    rest = [i for i in range(len(names)) if i not in used]
    return dict(names=names, x=xs, t=ti, u=ucols, rest=rest)


def match_rows(ref, act, rtol=1e-6):
    """Is there a one-to-one pairing of reference and actual rows, equal up to sign at every point?"""
    ref = np.asarray(ref, dtype=float)
    act = np.asarray(act, dtype=float)
    if ref.shape != act.shape:
        return 'expected %d conditions, found %d' % (ref.shape[0], act.shape[0])
    left = list(range(act.shape[0]))
    for i in range(ref.shape[0]):
        hit = None
        for j in left:
            for sgn in (1.0, -1.0):
                tol = 0.1 * rtol + rtol * np.maximum(np.abs(ref[i]), np.abs(act[j]))
                if np.all(np.abs(ref[i] - sgn * act[j]) <= tol):
                    hit = j
                    break
            if hit is not None:
                break
        if hit is None:
            return 'condition %d (values %s) has no counterpart' % (i, np.array2string(ref[i], precision=5))
        left.remove(hit)
    return None


def compare(spec, bvp, pts, control='differential', normalized=True, what='', rtol=1e-6):
    """Compare a compiled traditional-form BVP with the reference at the points; returns number of compared values."""
    pmp = PMP(spec)
    n, m, n0, nf = pmp.sizes()
    lay = layout(bvp, pmp)
    fp = bvp.functional_problem
    nparam = len(bvp.parameters)
    diff = control == 'differential'
    want = n + 1 + (m if diff else 0)
    if lay['t'] is None:
        raise Violation('%stime is not a state of the boundary value problem' % what)
    if diff and any(c is None for c in lay['u']):
        raise Violation('%scontrols are not among the dynamic variables: %s' % (what, lay['names']))
    if len(lay['rest']) != n + 1 or len(lay['names']) != want + n + 1:
        raise Violation('%sexpected %d dynamic variables plus %d costates, found %s' % (what, want, n + 1, lay['names']))
    if nparam != 1 or len(bvp.constraint_parameters) != n0 + nf:
        raise Violation('%sexpected 1 parameter and %d multipliers, found %d and %d'
                        % (what, n0 + nf, nparam, len(bvp.constraint_parameters)))
    cn = [c.name for c in bvp.constants]
    korder = [pmp.r.const_names.index(c) for c in cn] if sorted(cn) == sorted(pmp.r.const_names) else None
    if korder is None:
        raise Violation('%sconstants differ: %s' % (what, cn))
    rows_ref0, rows_act, used = [], [], 0
    for pt in pts:
        d = pmp.dyn(pt)
        if not all(finite(v) for v in d.values()) or max(np.max(np.abs(v)) if np.size(v) else 0 for v in d.values()) > 1e7:
            continue
        if m:
            sv = np.linalg.svd(d['Huu'], compute_uv=False)
            if sv[-1] < 1e-2 * max(1.0, sv[0]):
                continue
        y = np.zeros(len(lay['names']))
        for i, xi in zip(lay['x'], pt['x']):
            y[i] = xi
        y[lay['t']] = pt['t']
        if diff:
            for i, ui in zip(lay['u'], pt['u']):
                y[i] = ui
        for i, li in zip(lay['rest'], list(pt['lam']) + [pt['lamt']]):
            y[i] = li
        k = np.array(pt['k'], dtype=float)[korder] if korder else np.array([])
        p = np.array([pt['dt']])
        nu = np.array(pt['nu'], dtype=float)
        if not diff:
            with sut(what + 'control law evaluation'):
                uu = np.asarray(fp.compute_u(y, p, k), dtype=float)
            pt = dict(pt, u=list(uu))
            d = pmp.dyn(pt)
        with sut(what + 'derivative evaluation'):
            yd = np.asarray(fp.deriv_func(y, p, k), dtype=float)
        dt = pt['dt'] if normalized else 1.0
        exp = np.zeros(len(y))
        for i, v in zip(lay['x'], d['xd']):
            exp[i] = v * dt
        exp[lay['t']] = dt
        if diff:
            ud = np.linalg.solve(d['Huu'], d['rhs']) * dt
            for i, v in zip(lay['u'], ud):
                exp[i] = v
        for i, v in zip(lay['rest'], list(d['ld']) + [d['ltd']]):
            exp[i] = v * dt
        if yd.shape != exp.shape:
            raise Violation('%sderivative has shape %s, expected %s' % (what, yd.shape, exp.shape))
        if np.max(np.abs(exp)) > 1e7:
            continue
        tol = 0.1 * rtol * max(1.0, np.max(np.abs(exp))) + rtol * np.abs(exp)
        bad = np.where(~(np.abs(yd - exp) <= tol))[0]
        if bad.size:
            i = bad[0]
            raise Violation('%srate of %s is %.10g, the necessary conditions give %.10g (at %s)'
                            % (what, lay['names'][i], yd[i], exp[i], pt))
        used += 1
        # boundary conditions at (this point as initial) and (next point as terminal)
        pt_f = dict(pt, **{kk: pt['f'][kk] for kk in ('x', 't', 'u', 'lam', 'lamt')})
        df = pmp.dyn(pt_f)
        yf = np.array(y)
        for i, v in zip(lay['x'], pt_f['x']):
            yf[i] = v
        yf[lay['t']] = pt_f['t']
        if diff:
            for i, v in zip(lay['u'], pt_f['u']):
                yf[i] = v
        for i, v in zip(lay['rest'], list(pt_f['lam']) + [pt_f['lamt']]):
            yf[i] = v
        if not diff:
            with sut(what + 'control law evaluation'):
                uf = np.asarray(fp.compute_u(yf, p, k), dtype=float)
            pt_f = dict(pt_f, u=list(uf))
        ref = pmp._fbc0(pmp.flat(pt, nu=True)) + pmp._fbcf(pmp.flat(pt_f, nu=True))
        if not diff and m:
            # stationarity is imposed by the control law itself, not as a boundary condition
            ref = ref[:-m]
        if not finite(ref) or np.max(np.abs(ref)) > 1e7:
            continue
        with sut(what + 'boundary condition evaluation'):
            act = np.asarray(fp.bc_func(y, yf, p, nu, k), dtype=float)
        rows_ref0.append(ref)
        rows_act.append(act)
    if used == 0:
        raise Skip('no regular point')
    if rows_ref0:
        lens = {a.shape for a in rows_act}
        if len(lens) != 1:
            raise Violation('%sboundary conditions change shape' % what)
        msg = match_rows(np.array(rows_ref0).T, np.array(rows_act).T, rtol)
        if msg:
            raise Violation('%sboundary conditions: %s (points %s)' % (what, msg, pts[:1]))
        nb = rows_act[0].size
        if nb != len(lay['names']) + nparam + n0 + nf:
            raise Violation('%s%d boundary conditions for %d unknowns' % (what, nb, len(lay['names']) + nparam + n0 + nf))
    return used
