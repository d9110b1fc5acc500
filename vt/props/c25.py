"""C25: the solver starts from the guess the user described."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, pmp, maps
from vt.ocp import build_problem

RULE = ('a generated (problem, formulation, guess settings) triple counts as non-trivial when the trajectory handed to the boundary value '
        'solver by a whole solve was compared, in the variables of the user, with the guess described')


def catcher():
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm

    class Catcher(BaseAlgorithm):
        def __init__(self):
            super().__init__()
            self.got = []

        def solve(self, solinit, **kwargs):
            self.got.append(copy.deepcopy(solinit))
            sol = copy.deepcopy(solinit)
            sol.converged = True
            return dict(sol=sol, success=True, niter=1, message='')
    return Catcher()


def control_of(P, pt):
    """control with dH/du = 0, for Hamiltonians quadratic in the controls"""
    u = np.zeros(len(P.u))
    for _ in range(2):
        d = P.dyn(dict(pt, u=list(u)))
        if not (pmp.finite(d['g']) and pmp.finite(d['Huu'])) or abs(np.linalg.det(d['Huu'])) < 1e-3:
            raise Skip('no regular control')
        u = u - np.linalg.solve(d['Huu'], d['g'])
    return u


def integrate(P, x0, lam0, u0, k, T, algebraic):
    """the reference trajectory: rates of the necessary conditions from the start of the guess, over physical time"""
    from scipy.integrate import solve_ivp
    n, m, _, _ = P.sizes()

    def rates(t, y):
        pt = dict(x=y[:n], lam=y[n:2 * n], t=t, lamt=y[2 * n], dt=1.0, k=k)
        u = control_of(P, pt) if algebraic else y[2 * n + 1:]
        d = P.dyn(dict(pt, u=list(u)))
        out = list(d['xd']) + list(d['ld']) + [d['ltd']]
        if not algebraic:
            if not (pmp.finite(d['Huu']) and pmp.finite(d['rhs'])) or abs(np.linalg.det(d['Huu'])) < 1e-3:
                raise Skip('control rates not regular')
            out += list(np.linalg.solve(d['Huu'], d['rhs']))
        if not pmp.finite(out) or np.max(np.abs(out)) > 1e4 or np.max(np.abs(y)) > 1e3:
            raise Skip('the guess leaves the region of interest')
        return out
    y0 = np.array(list(x0) + list(lam0) + [0.0] + ([] if algebraic else list(u0)), dtype=float)
    a = solve_ivp(rates, [0, T], y0, rtol=1e-9, atol=1e-10, method='DOP853', dense_output=True)
    b = solve_ivp(rates, [0, T], y0 + 1e-5 * np.cos(np.arange(len(y0))), rtol=1e-9, atol=1e-10, method='DOP853', dense_output=True)
    if not (a.success and b.success):
        raise Skip('reference integration failed')
    return a.sol, b.sol


def close(a, b, tol=1e-9):
    return maps.same(np.asarray(a, dtype=float), np.asarray(b, dtype=float), tol)


def run(case):
    import beluga
    from beluga.continuation import guess_generator
    spec, opt, g = case['spec'], dict(case['options']), case['guess']
    method = opt.pop('method')
    algebraic = opt.get('control_method') == 'algebraic'
    P = pmp.PMP(spec)
    n, m, n0, nf = P.sizes()
    k = [c['value'] for c in spec['constants']]
    knames = [c['name'] for c in spec['constants']]
    T = abs(g['time']) * (-1 if g.get('direction') == 'reverse' else 1)
    given = None
    if g['mode'] == 'static':
        u, _ = maps.controls_within(spec, case['traj'])
        k = list(case['k'])
        given = maps.make_traj(spec, case['traj'], u, k)
        before = copy.deepcopy(given)
        gg = guess_generator('static', solinit=given)
    else:
        kw = dict(start=list(g['start']), time_integrate=g['time'])
        for key in ('costate_guess', 'control_guess', 'direction'):
            if key in g:
                kw[key] = np.array(g[key]) if isinstance(g[key], list) and g.get('arrays') else copy.deepcopy(g[key])
        gg = guess_generator(g['mode'], **kw)
        lam0 = np.ones(n) * g.get('costate_guess', 0.1)
        u0 = np.ones(m) * g.get('control_guess', 0.1)
        ref = None
        if g['mode'] == 'auto':
            ref, ref2 = integrate(P, g['start'], lam0, u0, k, T, algebraic)
        elif algebraic:
            control_of(P, dict(x=g['start'], lam=lam0, t=0.0, lamt=0.0, dt=1.0, k=k))
    alg = catcher()
    with sut('a solve with a %s guess' % g['mode']):
        out = beluga.solve(ocp=build_problem(spec), method=method, optim_options=opt, bvp_algorithm=alg, guess_generator=gg,
                           steps=None, autoscale=False, save_sols=False, initial_helper=case['helper'])
    if len(alg.got) != 1 or len(out) != 1 or len(out[0]) != 1:
        raise Violation('one solve was asked for, the solver was called %d times, %s solutions came back' % (len(alg.got), [len(o) for o in out]))
    s = out[0][0]
    t, y, lam_, u_ = (np.asarray(v, dtype=float) for v in (s.t, s.y, s.dual, s.u))
    N = len(t)
    if y.shape != (N, n) or u_.shape != (N, m) or lam_.shape != (N, n):
        raise Violation('guess with %d nodes has states %s, costates %s, controls %s for %d states and %d controls'
                        % (N, y.shape, lam_.shape, u_.shape, n, m))
    req = np.asarray(alg.got[0].u, dtype=float)
    if algebraic and req.size and not close(req, u_, 1e-7):
        raise Violation('the guess handed to the solver has controls %s, its control law gives %s' % (req.tolist(), u_.tolist()))
    if given is not None:
        for a, b, what in ((t, before.t, 'times'), (y, before.y, 'states'), (lam_, before.dual, 'costates')) + \
                (() if algebraic else ((u_, before.u, 'controls'),)):
            if not close(a, b, 1e-7):
                raise Violation('static guess: %s are %s, given were %s' % (what, a.tolist(), np.asarray(b).tolist()))
        for f in ('t', 'y', 'dual', 'dual_t', 'u', 'const', 'nondynamical_parameters'):
            if not close(getattr(given, f), getattr(before, f), 0):
                raise Violation('solving changed %s of the trajectory given as guess from %s to %s' % (f, getattr(before, f), getattr(given, f)))
    else:
        if not (close(t[0], 0) and close(t[-1], T, 1e-8)) or not np.all(np.diff(t) * np.sign(T) > 0):
            raise Violation('guess runs over times %s, asked for 0 to %.6g' % (t.tolist(), T))
        if not close(y[0], g['start']):
            raise Violation('guess starts at %s, asked for %s' % (y[0].tolist(), g['start']))
        if not close(lam_[0], lam0):
            raise Violation('guess starts with costates %s, asked for %s' % (lam_[0].tolist(), g.get('costate_guess', 0.1)))
        if not algebraic and not close(u_[0], u0):
            raise Violation('guess starts with controls %s, asked for %s' % (u_[0].tolist(), g.get('control_guess', 0.1)))
        if g['mode'] == 'ones':
            for a, b, what in ((y, g['start'], 'states'), (lam_, lam0, 'costates')) + (() if algebraic else ((u_, u0, 'controls'),)):
                if not close(a, np.tile(np.asarray(b, dtype=float), (N, 1))):
                    raise Violation('constant guess: %s are %s, asked for %s' % (what, a.tolist(), list(b)))
        else:
            for i in range(N):
                r, r2 = ref(t[i]), ref2(t[i])
                amp = max(1.0, float(np.max(np.abs(r - r2))) / 1e-5)
                if amp > 100:
                    raise Skip('guess too sensitive to judge')
                tol = 1e-4 * amp * (1 + float(np.max(np.abs(r))))
                act = np.concatenate((y[i], lam_[i]) + (() if algebraic else (u_[i],)))
                want = np.concatenate((r[:2 * n],) + (() if algebraic else (r[2 * n + 1:],)))
                if not np.all(np.abs(act - want) <= tol):
                    j = int(np.argmax(np.abs(act - want)))
                    raise Violation('guess at time %.6g: states, costates%s are %s, following the necessary conditions from the start gives %s'
                                    % (t[i], '' if algebraic else ', controls', act.tolist(), want.tolist()))
    # the constants of the solve
    got = dict(zip(P.r.const_names, np.asarray(s.const, dtype=float)))
    if len(s.const) != len(knames):
        raise Violation('%d constants for %d' % (len(s.const), len(knames)))
    want = dict(zip(knames, k))
    if case['helper']:
        ends = {}
        for i, nme in enumerate(P.r.state_names):
            ends[nme + '_0'], ends[nme + '_f'] = y[0, i], y[-1, i]
        ends[P.r.indep + '_0'], ends[P.r.indep + '_f'] = t[0], t[-1]
        for nme in want:
            if nme in ends:
                want[nme] = ends[nme]
    for nme in want:
        matched = case['helper'] and nme in ends
        if not matched and nme.startswith('big') and not abs(got[nme] - want[nme]) <= 1e-7 * abs(want[nme]):
            raise Violation('constant %s is %.17g in the first solve, defined as %.17g' % (nme, got[nme], want[nme]))
        if not close(got[nme], want[nme], 1e-7 if given is not None else 1e-9 if matched else 4e-15):
            raise Violation('constant %s is %.17g in the first solve, expected %.17g (%s)' % (
                nme, got[nme], want[nme], 'matched to the guess' if case['helper'] else 'as defined'))
    helped = case['helper'] and any(nme.endswith(('_0', '_f')) for nme in want)
    return dict(nontrivial=True, label=[g['mode'] + ('' if given is not None else ' ' + g.get('direction', 'forward')),
                                        '%s %s%s' % (method, opt['control_method'], ' reduced' if opt.get('reduction') else ''),
                                        'matched constants' if helped else 'constants as defined'])


OPTIONS = [
    dict(method='traditional', control_method='differential'), dict(method='diffyg', control_method='differential'),
    dict(method='indirect', control_method='algebraic'), dict(method='diffyg', control_method='algebraic'),
    dict(method='traditional', control_method='differential', do_normalize_time=False),
    dict(method='diffyg', control_method='differential', reduction=True),
]


@st.composite
def cases(draw, small=False):
    opt = draw(st.sampled_from(OPTIONS))
    alg = opt['control_method'] == 'algebraic'
    mode = draw(st.sampled_from(['auto', 'auto', 'ones', 'static']))
    kw = dict(max_states=2, max_controls=1 if alg else 2, nonlinear_u=not alg, qty_controls=not alg)
    if opt.get('reduction'):
        kw.update(cyclic=2, max_states=3)
    elif not small:
        kw.update(quantities=draw(st.sampled_from([0, 1])), utm=0 if alg else draw(st.sampled_from([0, 0, 1])))
    else:
        kw.update(max_states=1, max_controls=1)
    spec = draw(genocp.ocp_spec(**kw))
    n, m = len(spec['states']), len(spec['controls'])
    if draw(st.booleans()):      # constants with all their digits, as measured data has them, and whole numbers
        for c in spec['constants']:
            kind = draw(st.sampled_from(['digits', 'digits', 'as is', 'int']))
            if kind == 'digits':
                c['value'] = c['value'] + draw(st.integers(1, 10 ** 6)) / 3e7
            elif kind == 'int' and c['value'] > 0.6:
                c['value'] = int(round(c['value']))
    if draw(st.booleans()):      # names that only begin like those of end values
        for i in range(draw(st.integers(1, 2))):
            nme = draw(st.sampled_from(spec['states']))['name'] + draw(st.sampled_from(['_f', '_0'])) + draw(st.sampled_from(['inal', '0', '_x']))
            if nme not in [c['name'] for c in spec['constants']]:
                spec['constants'].insert(draw(st.integers(0, len(spec['constants']))), dict(name=nme, value=draw(st.integers(1, 90)) / 10.0))
    if draw(st.integers(0, 2)) == 0:      # physical constants have any magnitude
        for i, v in enumerate(draw(st.lists(st.sampled_from([1.380649e-23, 6.02214076e23, -3.5e-14, 6.6743e-11, -1.6e-19, 1e-300, 3.986e14]), min_size=1, max_size=2))):
            spec['constants'].insert(draw(st.integers(0, len(spec['constants']))), dict(name='big%d' % i, value=v))
    g = dict(mode=mode, time=draw(st.sampled_from([0.1, 0.25, 0.5, 1, 0.35, -0.2])))
    if mode != 'static':
        g['start'] = [int(round(v)) if i and draw(st.booleans()) else v for i, v in enumerate(draw(gen.point(n)))]
        kind = draw(st.sampled_from(['default', 'int', 'float', 'list', 'list']))
        if kind != 'default':
            g['costate_guess'] = dict(int=1, float=-0.3, list=draw(gen.signed(n)))[kind]
        kind = draw(st.sampled_from(['default', 'int', 'float', 'list', 'list']))
        if kind != 'default':
            g['control_guess'] = dict(int=1, float=0.3, list=draw(gen.point(m)))[kind]
        g['arrays'] = draw(st.booleans())
        if draw(st.booleans()):
            g['direction'] = draw(st.sampled_from(['forward', 'reverse']))
    case = dict(spec=spec, options=opt, guess=g, helper=draw(st.booleans()))
    if mode == 'static':
        case['traj'] = draw(maps.nodes(spec))
        case['k'] = [c['value'] if c['name'].startswith('big') else round(c['value'] + draw(st.integers(0, 10)) / 100.0, 6) for c in spec['constants']]
    return case


PARTS = [
    Part('guess', cases, run, quick=(8, 25), thorough=(8, 700)),
    Part('jit', lambda: cases(small=True), run, quick=(1, 3), thorough=(4, 30), jit=True, timeout=200),
]
