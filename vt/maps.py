"""Trajectories of the original problem, pushed through the solution maps of a formulation."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt import gen, pmp
from vt.core import Violation, sut


@st.composite
def nodes(draw, spec, nmin=2, nmax=6, t0_zero=False):
    n, m = len(spec['states']), len(spec['controls'])
    N = draw(st.integers(nmin, nmax))
    t0 = 0.0 if t0_zero else draw(st.integers(-200, 300)) / 100.0
    gaps = draw(st.lists(st.integers(5, 150), min_size=N - 1, max_size=N - 1))
    t = [t0]
    for g in gaps:
        t.append(round(t[-1] + g / 100.0, 6))
    cyc = cyclic_names(spec)
    lam_c = draw(gen.signed(n))
    rows = []
    for i in range(N):
        lam = draw(gen.signed(n))
        lam = [lam_c[j] if spec['states'][j]['name'] in cyc else lam[j] for j in range(n)]
        rows.append(dict(x=draw(gen.point(n)), u=draw(gen.point(m)), lam=lam, lamt=draw(st.integers(-200, 200)) / 100.0))
    nu = draw(gen.signed(n_eq(spec)))
    zero = draw(st.sampled_from(['', '', '', 'nu', 'some nu', 'lamt']))      # zero is a guess like any other
    if zero == 'lamt':
        for r in rows:
            r['lamt'] = 0.0
    elif zero:
        nu = [0.0 if zero == 'nu' or i % 2 else v for i, v in enumerate(nu)]
    return dict(t=t, rows=rows, nu=nu, give_nu=draw(st.booleans()), noq=draw(st.booleans()))


def n_eq(spec):
    return len([c for loc in ('initial', 'terminal') for c in spec.get(loc, []) if c.get('lower') is None])


def cyclic_names(spec):
    return [s['name'] for i, s in enumerate(spec['states'])
            if any(f['field'][i] == '1' for f in spec.get('symmetries', []))]


def num(spec, text, more=()):
    vals = {c['name']: c['value'] for c in spec['constants']}
    vals.update(more)
    for q in spec.get('quantities', []):
        if q['name'].startswith('qbnd_'):
            vals[q['name']] = float(eval(q['expr'], {'__builtins__': {}}, vals))
    return float(eval(str(text), {'__builtins__': {}}, vals))


def controls_within(spec, traj):
    """place controls that carry bounds by the trigonometric method strictly inside their bounds"""
    out = np.array([r['u'] for r in traj['rows']], dtype=float)
    names = [c['name'] for c in spec['controls']]
    bounded = {}
    for c in spec.get('path', []):
        if c['method'].lower() == 'epstrig':
            k = names.index(c['expr'])
            at = [dict(zip([s['name'] for s in spec['states']], r['x']), **{spec.get('indep', 't'): t}) for r, t in zip(traj['rows'], traj['t'])]
            lo, up = (np.array([num(spec, c[side], here) for here in at]) for side in ('lower', 'upper'))
            frac = out[:, k] / 2.05
            out[:, k] = lo + (up - lo) * frac
            bounded[k] = (lo, up)
    return out, bounded


def make_traj(spec, traj, u, k):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    N = len(traj['t'])
    sol = Trajectory(np.array(traj['t'], dtype=float), np.array([r['x'] for r in traj['rows']], dtype=float),
                     np.array([]) if traj.get('noq') else np.zeros((N, 0)), np.array(u))     # solvers return either
    sol.dual = np.array([r['lam'] for r in traj['rows']], dtype=float)
    sol.dual_t = np.array([r['lamt'] for r in traj['rows']], dtype=float)
    sol.const = np.array(k, dtype=float)
    if traj['give_nu']:
        sol.nondynamical_parameters = np.array(traj['nu'], dtype=float)
    return sol


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.size == 0 and b.size == 0:
        return True
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= tol * (1 + np.maximum(np.abs(a), np.abs(b)))))


def forward(bvp, sol):
    with sut('mapping a trajectory to the boundary value problem'):
        return bvp.map_sol(copy.deepcopy(sol))


def backward(bvp, mapped):
    with sut('mapping a boundary value solution back'):
        return bvp.inv_map_sol(copy.deepcopy(mapped))
