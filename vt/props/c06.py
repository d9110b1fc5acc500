"""C06: product-space continuation covers its whole grid, survives failures and starts from nearest solutions."""
import copy
import itertools
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Violation, sut
from vt import stubs
from vt.props import c05

RULE = ('a generated grid (full or sparse) with a failure plan, alone or after another step, counts as non-trivial when two or '
        'more grid points were solved and compared with the grid of the model')


def grid(step, const, names):
    idx = [names.index(v['name']) for v in step['vars']]
    lo = [const[i] for i in idx]
    hi = [v['target'] for v in step['vars']]
    pts = []
    if step['strategy'] == 'productspace':
        axes = [[lo[k]] if step['num'] == 1 else c05.spaced(lo[k], hi[k], step['num'], 'linear') for k in range(len(idx))]
        pts = [list(p) for p in itertools.product(*axes)]
    else:
        M, m = step['major'], step['minor']
        axes = [c05.spaced(lo[k], hi[k], M[k], 'linear') for k in range(len(idx))]
        pts = [list(p) for p in itertools.product(*axes)]
        for n in range(len(idx)):
            # along direction n from every grid point of the earlier directions (later ones at their start)
            for p in itertools.product(*axes[:n]):
                for a, b in zip(axes[n][:-1], axes[n][1:]):
                    for q in range(1, m[n] + 1):
                        pts.append(list(p) + [a + (b - a) * q / (m[n] + 1)] + lo[n + 1:])
    out = []
    for p in pts:
        c = np.array(const, dtype=float)
        c[idx] = p
        out.append(c)
    return out


def match(points, calls):
    """the solves are a permutation of the grid"""
    left = list(points)
    for c in calls:
        for k, p in enumerate(left):
            if c05.near(p, c['const']):
                del left[k]
                break
        else:
            raise Violation('solved at constants %s, which is not an (unvisited) point of the grid' % c['const'])
    return left


def make(case):
    import beluga
    steps = beluga.init_continuation()
    objs = []
    for s in case['steps']:
        if s['strategy'] == 'productspace':
            o = steps.add_step('productspace').num_subdivisions(s['num'])
        elif s['strategy'] == 'sparse_product':
            o = steps.add_step('sparse_product').num_subdivisions((tuple(s['major']), tuple(s['minor'])))
        else:
            o = steps.add_step('manual').num_cases(s['num'])
        for v in s['vars']:
            o = o.const(v['name'], v['target'])
        objs.append(o)
    return steps


def verify(case, names, calls, out, err):
    const, i, tag = np.array(case['start'], dtype=float), 0, -1
    for si, s in enumerate(case['steps']):
        if s['strategy'] == 'manual':
            j, what, const2 = c05.model(s, calls, i, const, tag, names)
            if what == 'raise':
                if err is None:
                    raise Violation('an unrecoverable failure was not reported')
                return 'failed'
            const, i, tag = const2, j, j - 1
            continue
        pts = grid(s, const, names)
        j = min(len(calls), i + len(pts))
        mine = calls[i:j]
        if not mine:
            raise Violation('no solve for a grid of %d points' % len(pts))
        if not c05.near(mine[0]['const'], const):
            raise Violation('the grid starts at %s, not at the current constants %s' % (mine[0]['const'], const))
        left = match(pts, mine)
        for k in range(i, j):
            c05.check_guess(calls, i, k, const, tag)
        if not mine[0]['ok']:
            if err is None or len(calls) != i + 1:
                raise Violation('the first grid point failed to converge but the run went on (%d solves)' % (len(calls) - i))
            return 'failed'
        if left:
            raise Violation('%d of %d grid points were not visited (error: %r), e.g. %s' % (len(left), len(pts), err, left[0]))
        if out is not None:
            if len(out[si]) != len(pts):
                raise Violation('%d solutions for %d grid points' % (len(out[si]), len(pts)))
            for a, b in zip(out[si], mine):
                if not c05.near(a.const, b['const']) or bool(a.converged) != b['ok']:
                    raise Violation('returned solution does not match its solve')
        if not mine[-1]['ok'] and si + 1 < len(case['steps']):
            return 'last grid point failed'      # the hand-over after a failed last point is not specified
        const, i, tag = mine[-1]['const'], j, j - 1
    if err is not None:
        raise Violation('raised %r although every case was solved' % err)
    if i != len(calls):
        raise Violation('%d extra solves' % (len(calls) - i))
    return 'finished'


def run(case):
    names = ['c%d' % k for k in range(len(case['start']))]
    with sut('formulating'):
        scaled = case.get('scaled', False)
        bvp = stubs.problem(len(names), case.get("quads", False), scaled)
    with sut('defining the steps'):
        steps = make(case)
    labels = []
    for rep in range(2 if case['reuse'] else 1):
        alg = stubs.recorder(stubs.failure(case['fail']), stubs.factors(bvp, case['start']) if scaled else None)
        with sut('running a continuation set'):
            if rep:
                case = dict(case, start=case['start2'])
            out, err = stubs.run_steps(bvp, steps, stubs.start_guess(bvp, case['start']), alg, case['whole'], scaled)
        if err is stubs.Enough:
            return dict(nontrivial=False, label='too long')
        try:
            res = verify(case, names, alg.calls, out, err)
        except Violation as v:
            raise Violation(('second run with the same steps: ' if rep else '') + str(v))
        labels.append(res + (' (reused)' if rep else ''))
    return dict(nontrivial=len(alg.calls) > 1,
                label=labels + [s['strategy'] + ' %d vars' % len(s['vars']) for s in case['steps']])


@st.composite
def cases(draw):
    nk = draw(st.integers(1, 4)) if draw(st.integers(0, 4)) else draw(st.integers(5, 7))
    sign = st.sampled_from([1, 1, 1, -1])
    start = [draw(st.integers(5, 300)) / 100.0 * draw(sign) for _ in range(nk)]
    steps = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
        which = draw(st.lists(st.integers(0, nk - 1), min_size=1, max_size=min(nk, 3 if draw(st.integers(0, 5)) else 4), unique=True))
        vs = [dict(name='c%d' % k, target=round(draw(st.integers(1, 500)) / 100.0 + 0.001 * k, 4) * draw(sign)) for k in which]
        top = 3 if len(vs) < 4 else 2
        most = {1: 12, 2: 7, 3: 4, 4: 2}[len(vs)] if draw(st.integers(0, 4)) == 0 else {1: 5, 2: 5, 3: 3, 4: 2}[len(vs)]
        strat = draw(st.sampled_from(['productspace', 'sparse_product', 'manual']))
        if strat == 'sparse_product':
            big = draw(st.sampled_from([0, 0, 6 if len(vs) < 3 else 3]))
            s = dict(strategy=strat, vars=vs, major=[draw(st.integers(2, big if big and len(vs) == 1 else top + 1)) for _ in vs],
                     minor=[draw(st.integers(0, big or top - 1)) for _ in vs])
        else:
            s = dict(strategy=strat, vars=vs, num=draw(st.integers(2, most)))
        if strat == 'manual':
            s['spacing'] = 'linear'
        steps.append(s)
    if all(s['strategy'] == 'manual' for s in steps):
        steps[0] = dict(strategy='productspace', vars=steps[0]['vars'], num=steps[0]['num'])
    kind = draw(st.sampled_from(['none', 'none', 'index', 'index', 'region']))
    fail = dict(kind=kind)
    if kind == 'index':
        fail['which'] = sorted(set(draw(st.lists(st.integers(0, 40), max_size=12))))
    elif kind == 'region':
        fail['var'] = draw(st.integers(0, nk - 1))
        fail['centers'] = [draw(st.integers(50, 400)) / 100.0 for _ in range(2)]
        fail['width'] = draw(st.sampled_from([0.02, 0.1, 0.3]))
    start2 = start if draw(st.booleans()) else [draw(st.integers(5, 300)) / 100.0 * draw(sign) for _ in range(nk)]
    return dict(start=start, start2=start2, steps=steps, fail=fail, reuse=draw(st.booleans()), quads=draw(st.booleans()),
                whole=draw(st.booleans()),
                scaled=draw(st.integers(0, 2)) == 0)


PARTS = [Part('grids', cases, run, quick=(8, 200), thorough=(8, 6000))]
