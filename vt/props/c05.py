"""C05: manual and bisection continuation visit exactly the promised constants and start from the nearest solution."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Violation, sut
from vt import stubs

RULE = ('a generated chain of continuation steps with a generated failure plan counts as non-trivial when at least two '
        'solves took place and were compared with the model of the step sequence')


def near(a, b, scale=1.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (scale + np.maximum(np.abs(a), np.abs(b)))))


def spaced(a, b, n, spacing):
    if spacing == 'log':
        return [a * (b / a) ** (i / (n - 1)) for i in range(n)]
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def check_guess(calls, first, i, start_const, start_tag):
    """call i of a step whose calls start at index `first`: the guess is a nearest converged trajectory of this step"""
    c = calls[i]
    pool = [j for j in range(first, i) if calls[j]['ok']]
    if not pool:
        if c['guess'] != start_tag:
            raise Violation('solve %d starts from trajectory %s, expected the incoming trajectory %s' % (i, c['guess'], start_tag))
        return
    dist = {j: float(np.sum(np.abs(calls[j]['const'] - c['const']))) for j in pool}
    best = min(dist.values())
    if c['guess'] not in dist:
        raise Violation('solve %d for constants %s starts from trajectory %d, which is not a converged one of this step (%s)'
                        % (i, c['const'], c['guess'], pool))
    if dist[c['guess']] > best * (1 + 1e-9) + 1e-12:
        raise Violation('solve %d for constants %s starts from trajectory %d at distance %.6g, nearest converged is at %.6g'
                        % (i, c['const'], c['guess'], dist[c['guess']], best))


def model(step, calls, first, const, start_tag, names, cut=False):
    """replay one manual/bisection step against the recorded calls; returns (next index, outcome, constants)"""
    idx = {v['name']: names.index(v['name']) for v in step['vars']}
    vals = {v['name']: spaced(const[idx[v['name']]], v['target'], step['num'], step['spacing']) for v in step['vars']}
    order = [v['name'] for v in step['vars']]
    total, ctr, i, div = step['num'], 0, first, 0
    const = np.array(const, dtype=float)
    # rounding: relative to the value on logarithmic steps and for untouched constants, to the range on linear steps
    scale = np.zeros(len(const))
    if step['spacing'] == 'linear':
        for v in step['vars']:
            scale[idx[v['name']]] = max(abs(const[idx[v['name']]]), abs(v['target']))
    while ctr < total:
        exp = np.array(const)
        for nme in order:
            exp[idx[nme]] = vals[nme][ctr]
        if i >= len(calls):
            if cut:
                return i, 'cut', exp
            raise Violation('step ended after %d solves, the model expects constants %s next' % (i - first, exp))
        if not near(calls[i]['const'], exp, scale):
            raise Violation('solve %d of the step uses constants %s, expected %s' % (i - first, calls[i]['const'], exp))
        check_guess(calls, first, i, const, start_tag)
        ctr += 1
        if calls[i]['ok']:
            div = 0
        else:
            if step['strategy'] == 'manual' or ctr == 1:
                return i + 1, 'raise', exp
            if div > step['max_div']:
                return i + 1, 'raise', exp
            for nme in order:
                new = spaced(vals[nme][ctr - 2], vals[nme][ctr - 1], step['num_div'] + 1, step['spacing'])[1:-1]
                vals[nme] = vals[nme][:ctr - 1] + new + vals[nme][ctr - 1:]
            ctr -= 1
            total += step['num_div'] - 1
            div += 1
        i += 1
    fin = np.array(const)
    for v in step['vars']:
        fin[idx[v['name']]] = v['target']
    return i, 'done', fin


def make_steps(case):
    import beluga
    from beluga.continuation.continuation import ManualStrategy, BisectionStrategy
    steps = beluga.init_continuation()
    for s in case['steps']:
        style = s.get('style', {})
        kw = {}
        if s['strategy'] == 'bisection' and not s['default']:
            kw = dict(max_divisions=s['max_div'], num_divisions=s['num_div'])
        cases_given = style.get('constructor') and s['spacing'] == 'linear'
        if cases_given:
            kw['num_cases' if s['strategy'] == 'manual' else 'initial_num_cases'] = s['num']
        if style.get('object'):
            obj = steps.add_step((ManualStrategy if s['strategy'] == 'manual' else BisectionStrategy)(**kw))
        else:
            obj = steps.add_step(s['strategy'], **kw)

        def number(obj):
            if cases_given:
                return obj
            if s['spacing'] == 'linear' and not s['explicit']:
                return obj.num_cases(s['num'])
            return obj.num_cases(s['num'], s['spacing'])
        if style.get('cleared'):
            obj = obj.num_cases(17).const(s['vars'][0]['name'], 0.123).const('c0', 0.321)
            obj.clear()
            if cases_given or style.get('last'):
                obj = obj.num_cases(s['num'])
        if not style.get('last'):
            obj = number(obj)
        for v in s['vars']:
            if style.get('twice'):
                obj = obj.const(v['name'], v['target'] * 0.5)
            obj = (obj.constant if style.get('constant') else obj.const)(v['name'], v['target'])
        if style.get('last'):
            obj = number(obj)
    return steps


def verify(case, names, calls, out, err, tag0=-1):
    const, i, tag = np.array(case['start'], dtype=float), 0, tag0
    for si, s in enumerate(case['steps']):
        j, what, const2 = model(s, calls, i, const, tag, names, err is stubs.Enough)
        if what == 'cut':
            return 'long history'
        if what == 'raise':
            if err is None:
                raise Violation('step %d: a failure that cannot be recovered was not reported' % si)
            if j != len(calls):
                raise Violation('step %d: %d further solves after an unrecoverable failure' % (si, len(calls) - j))
            return 'failed'
        if err is stubs.Enough and j == len(calls):
            return 'long history'
        if err is not None and j == len(calls):
            raise Violation('step %d: raised %r although every case was reached' % (si, err))
        if out is not None:
            if len(out) != len(case['steps']):
                raise Violation('%d result lists for %d steps' % (len(out), len(case['steps'])))
            if len(out[si]) != j - i:
                raise Violation('step %d: %d solutions returned for %d solves' % (si, len(out[si]), j - i))
            for a, b in zip(out[si], calls[i:j]):
                if not near(a.const, b['const'], 0) or bool(a.converged) != b['ok']:
                    raise Violation('step %d: returned solution does not match its solve' % si)
            if not out[si][-1].converged or not near(out[si][-1].const, const2, 0):
                raise Violation('step %d does not end converged at its targets: %s' % (si, out[si][-1].const))
        const, i, tag = const2, j, j - 1
    if err is not None:
        raise Violation('raised %r although every step was completed' % err)
    if i != len(calls):
        raise Violation('%d extra solves' % (len(calls) - i))
    return 'finished'


def run(case):
    names = ['c%d' % k for k in range(len(case['start']))]
    with sut('formulating'):
        scaled = case.get('scaled', False)
        bvp = stubs.problem(len(names), case['quads'], scaled)
    steps = make_steps(case)
    guess = stubs.start_guess(bvp, case['start'])
    before = copy.deepcopy(guess.const)
    labels = []
    for rep in range(2 if case['reuse'] else 1):
        alg = stubs.recorder(stubs.failure(case['fail']), stubs.factors(bvp, case['start']) if scaled else None)
        with sut('running a continuation set'):
            if rep:
                case = dict(case, start=case['start2'])
                guess = stubs.start_guess(bvp, case['start'])
                before = copy.deepcopy(guess.const)
            out, err = stubs.run_steps(bvp, steps, guess, alg, case['whole'], scaled)
        try:
            res = verify(case, names, alg.calls, out, err)
        except Violation as v:
            raise Violation(('second run with the same steps: ' if rep else '') + str(v))
        labels.append(res + (' (reused)' if rep else ''))
    if not near(guess.const, before, 0) or guess.y[0, 0] != -1:
        raise Violation('the initial guess was modified by the run')
    nfail = sum(not c['ok'] for c in alg.calls)
    return dict(nontrivial=len(alg.calls) > 1, label=labels + ['failures' if nfail else 'no failures'])


@st.composite
def cases(draw):
    nk = draw(st.integers(1, 4)) if draw(st.integers(0, 4)) else draw(st.integers(5, 8))
    start = [draw(st.integers(5, 300)) / 100.0 for _ in range(nk)]
    steps = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5]))):
        spacing = draw(st.sampled_from(['linear', 'linear', 'log']))
        which = draw(st.lists(st.integers(0, nk - 1), min_size=1, max_size=nk, unique=True))
        vs = [dict(name='c%d' % k, target=draw(st.integers(1, 500)) / 100.0 if spacing == 'log'
                   else draw(st.integers(1, 500)) / 100.0 * draw(st.sampled_from([1, 1, 1, -1]))) for k in which]
        strat = draw(st.sampled_from(['manual', 'bisection', 'bisection']))
        default = draw(st.booleans())
        steps.append(dict(strategy=strat, spacing=spacing, vars=vs, num=draw(st.integers(2, 9)) if draw(st.integers(0, 7)) else draw(st.integers(10, 60)), default=default,
                          max_div=10 if default else draw(st.integers(1, 5)),
                          num_div=2 if default else draw(st.integers(2, 4)), explicit=draw(st.booleans()),
                          style={k: draw(st.integers(0, 3)) == 0 for k in ('object', 'constructor', 'cleared', 'last', 'constant', 'twice')}))
    # logarithmic steps need a positive starting value
    cur = list(start)
    for s in steps:
        if s['spacing'] == 'log' and any(cur[int(v['name'][1:])] <= 0 for v in s['vars']):
            s['spacing'] = 'linear'
        for v in s['vars']:
            cur[int(v['name'][1:])] = v['target']
    kind = draw(st.sampled_from(['none', 'index', 'index', 'jump', 'jump', 'region']))
    fail = dict(kind=kind)
    if kind == 'index':
        fail['which'] = sorted(set(draw(st.lists(st.integers(0, 30), max_size=8)) +
                                   draw(st.sampled_from([[], [], list(range(3, 9)), list(range(2, 14)), list(range(4, 16))]))))
    elif kind == 'jump':
        fail['max'] = draw(st.sampled_from([0.05, 0.2, 0.5, 1.0]))
    elif kind == 'region':
        fail['var'] = draw(st.integers(0, nk - 1))
        fail['centers'] = [draw(st.integers(50, 400)) / 100.0 for _ in range(2)]
        fail['width'] = draw(st.sampled_from([0.02, 0.1, 0.3]))
    # magnitudes: smoothing parameters reach 1e-9, heights and radii 1e7
    mag = [draw(st.sampled_from([1, 1, 1, 1e-9, 1e-6, 1e3, 1e7])) for _ in range(nk)] if draw(st.booleans()) else [1] * nk
    decades = draw(st.booleans())
    for s in steps:
        for v in s['vars']:
            v['target'] *= mag[int(v['name'][1:])]
            if decades and s['spacing'] == 'log':
                v['target'] *= draw(st.sampled_from([1, 1e-6, 1e5]))
    start = [v * f for v, f in zip(start, mag)]
    start2 = start if draw(st.booleans()) else [draw(st.integers(5, 300)) / 100.0 * f for f in mag]
    return dict(start=start, start2=start2, steps=steps, fail=fail, reuse=draw(st.booleans()), quads=draw(st.booleans()), whole=draw(st.booleans()),
                scaled=draw(st.integers(0, 2)) == 0)


PARTS = [Part('steps', cases, run, quick=(8, 250), thorough=(8, 8000))]
