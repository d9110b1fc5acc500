"""C07: a trajectory evaluates to its own data: nodes, interpolation, indexing, for every shape."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Violation, sut

RULE = ('a generated trajectory with one or more data arrays and query times counts as non-trivial when interior, node and '
        'vector queries were compared with the reference interpolation')

KINDS = ['linear', 'linear', 'cubic', 'quadratic', 'Linear', 'nearest', 'previous', 'next', 'zero', 'slinear', 'callable']


def build(case):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    t = np.array(case['t'], dtype=float)
    arrs = [shape(case['data'][k], case['form'][k], len(t)) for k in ('y', 'q', 'u')]
    kind = case['kind']
    with sut('constructing a trajectory'):
        if kind == 'callable':
            tr = Trajectory(t, *arrs)
            tr.set_interpolate_function(own_interpolation)
        elif case['how'] == 'args':
            tr = Trajectory(t, *arrs) if kind == 'linear' else Trajectory(t, *arrs, interpolation_type=kind)
        else:
            tr = Trajectory()
            tr.t, (tr.y, tr.q, tr.u) = t, arrs
            tr.set_interpolate_function(kind)
    return tr, t, arrs


def own_interpolation(t, c):
    """a user's interpolation: the smaller of the two neighbours"""
    t, c = (t, c) if t[0] < t[-1] else (t[::-1], c[::-1])

    def f(s):
        hi = np.clip(np.searchsorted(t, s, side='right'), 1, len(t) - 1)
        return np.minimum(c[hi], c[hi - 1])
    return f


def shape(cols, form, N):
    """cols: list of columns; form: '2d' or '1d' (1d only for zero or one column)"""
    if len(cols) == 0:
        return np.array([]) if form == '1d' else np.empty((N, 0))
    a = np.array(cols, dtype=float).T
    return a[:, 0] if form == '1d' and a.shape[1] == 1 else a


def reference(kind, t, c, s):
    kind = kind.lower()
    c = np.array(c, dtype=float)
    i = int(np.clip(np.searchsorted(t, s, side='right') - 1, 0, len(t) - 2))
    if kind in ('linear', 'slinear'):
        w = (s - t[i]) / (t[i + 1] - t[i])
        return c[i] * (1 - w) + c[i + 1] * w
    if kind == 'callable':
        return min(c[i], c[i + 1])
    if kind in ('previous', 'zero'):
        j = int(np.searchsorted(t, s, side='right') - 1)
        return c[min(j, len(t) - 1)]
    if kind == 'next':
        return c[min(int(np.searchsorted(t, s, side='left')), len(t) - 1)]
    if kind == 'nearest':
        d = np.abs(t - s)
        lo = np.min(d)
        if np.sum(d <= lo + 1e-9 * np.max(np.abs(np.diff(t)))) > 1:
            return None
        return c[int(np.argmin(d))]
    # quadratic / cubic: polynomials of that degree are reproduced (columns are built that way)
    return None


def value(case, k, j, s):
    """exact value of column j of array k at time s, or None if not determined"""
    kind = case['kind'].lower()
    if kind in ('cubic', 'quadratic'):
        co = case['poly'][k][j]
        return float(np.polyval(co[:4] if kind == 'cubic' else co[:3], s))
    t, c = np.array(case['t'], dtype=float), case['data'][k][j]
    return reference(kind, t, c, s) if t[0] < t[-1] else reference(kind, t[::-1], c[::-1], s)


def run(case):
    kind = case['kind'].lower()
    if kind in ('cubic', 'quadratic'):
        case['data'] = {k: [list(np.polyval((p[:4] if kind == 'cubic' else p[:3]), np.array(case['t']))) for p in case['poly'][k]]
                        for k in ('y', 'q', 'u')}
    tr, t, arrs = build(case)
    if len(tr) != len(t):
        raise Violation('length %d for %d nodes' % (len(tr), len(t)))
    mag = 1 + max([np.max(np.abs(a)) for a in arrs if a.size] + [0])
    # indexing
    for item in case['items']:
        it = slice(*item) if isinstance(item, list) else item
        with sut('indexing a trajectory'):
            got = tr[it]
        exp = [t[it]] + [a[it] if a.size else np.array([]) for a in arrs]
        for g, e, nme in zip(got, exp, 'tyqu'):
            if nme != 't' and np.size(e) == 0 and not arrs['yqu'.index(nme)].size:
                if np.size(g):
                    raise Violation('item %s of the empty %s is %s' % (item, nme, g))
                continue
            if np.shape(g) != np.shape(e) or not np.array_equal(np.asarray(g), np.asarray(e)):
                raise Violation('item %s of %s is %s, the data is %s' % (item, nme, g, e))
    # evaluation
    span = t[-1] - t[0]
    qs = [float(t[0] + f * span) for f in case['fracs']] + [float(t[0]), float(t[-1]), float(t[len(t) // 2])]
    qs = [min(max(q, float(min(t))), float(max(t))) for q in qs]
    singles = []
    for s in qs:
        with sut('evaluating a trajectory at one time'):
            got = tr(s)
        singles.append(got)
        compare(case, got, s, mag, None)
    with sut('evaluating a trajectory at several times'):
        many = tr(np.array(qs))
    for idx, s in enumerate(qs):
        for g, k in zip(many, ('y', 'q', 'u')):
            n = len(case['data'][k])
            if n == 0:
                if np.size(g):
                    raise Violation('empty %s evaluates to %s' % (k, g))
                continue
            g2 = np.asarray(g, dtype=float)
            if g2.shape not in ((len(qs), n), (len(qs),) if n == 1 else (len(qs), n)):
                raise Violation('%s at %d times has shape %s' % (k, len(qs), g2.shape))
            row = g2.reshape(len(qs), n)[idx]
            one = np.asarray(singles[idx]['yqu'.index(k)], dtype=float).reshape(n)
            if not np.allclose(row, one, rtol=1e-12, atol=1e-12 * mag, equal_nan=True):
                raise Violation('%s at time %s is %s in a vector query and %s alone' % (k, s, row, one))
    for k, a in zip(('y', 'q', 'u'), arrs):
        if not np.array_equal(np.asarray(getattr(tr, k)), a):
            raise Violation('evaluation modified the data')
    if case['mutate'] and arrs[0].size and kind in ('linear', 'slinear'):
        tr.y = arrs[0] * 2.0 + 1.0
        s = qs[0]
        with sut('evaluating after new data'):
            got = np.asarray(tr(s)[0], dtype=float).reshape(-1)
        exp = np.array([value(case, 'y', j, s) * 2 + 1 for j in range(len(case['data']['y']))])
        if not np.allclose(got, exp, rtol=1e-9, atol=1e-9 * mag):
            raise Violation('after replacing the data, evaluation gives %s, expected %s' % (got, exp))
    copies(case, tr, t, arrs)
    return dict(nontrivial=any(len(case['data'][k]) for k in 'yqu'), label=[kind, 'forwards' if t[0] < t[-1] else 'backwards'])


ARRAYS = ('t', 'y', 'q', 'u', 'dual', 'dual_t', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const')


def copies(case, tr, t, arrs):
    """a copy has the same data and behaviour, and neither of the two sees changes of the other"""
    import copy
    rest = np.arange(1.0, 4.0)
    for i, nme in enumerate(ARRAYS[4:]):
        setattr(tr, nme, rest + i)
    tr.converged, tr.cost = True, 3.25
    before = {nme: np.array(getattr(tr, nme)) for nme in ARRAYS}
    with sut('copying a trajectory'):
        two = copy.deepcopy(tr)
    for a, b, what in ((tr, two, 'copy'),):
        for nme in ARRAYS:
            if not np.array_equal(getattr(b, nme), before[nme]):
                raise Violation('the copy has other %s: %s instead of %s' % (nme, getattr(b, nme), before[nme]))
        if b.converged is not True or b.cost != 3.25:
            raise Violation('the copy lost the verdict or the cost')
    mid = float(t[0] + 0.37 * (t[1] - t[0]))
    with sut('evaluating a copy'):
        va, vb = tr(mid), two(mid)
    if not all(np.array_equal(p, q, equal_nan=True) for p, q in zip(va, vb)):
        raise Violation('a copy evaluates to %s, the original to %s' % (vb, va))
    one, other = (tr, two) if case['mutate'] else (two, tr)
    for nme in ARRAYS:
        a = getattr(one, nme)
        if np.size(a):
            a += 1.5
    one.converged, one.cost = False, 0.0
    one.set_interpolate_function('nearest')
    for nme in ARRAYS:
        if not np.array_equal(getattr(other, nme), before[nme]):
            raise Violation('changing %s of one copy changed the other' % nme)
    if other.converged is not True or other.cost != 3.25:
        raise Violation('changing the verdict of one copy changed the other')
    with sut('evaluating a copy'):
        vb = other(mid)
    if not all(np.array_equal(p, q, equal_nan=True) for p, q in zip(va, vb)):
        raise Violation('after changes of its copy a trajectory evaluates to %s instead of %s' % (vb, va))


def compare(case, got, s, mag, _):
    if len(got) != 3:
        raise Violation('evaluation returns %d values' % len(got))
    for g, k in zip(got, ('y', 'q', 'u')):
        n = len(case['data'][k])
        g = np.asarray(g, dtype=float)
        if g.size != n:
            raise Violation('%s has %d entries for %d columns' % (k, g.size, n))
        for j, v in enumerate(g.reshape(-1)):
            e = value(case, k, j, s)
            tol = 1e-6 if case['kind'].lower() in ('cubic', 'quadratic') else 1e-9
            if e is not None and not abs(v - e) <= tol * (mag + abs(e)):
                raise Violation('%s[%d] at time %.9g is %.9g, expected %.9g' % (k, j, s, v, e))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(KINDS))
    lo = {'cubic': 4, 'quadratic': 3}.get(kind, 2)
    N = draw(st.integers(lo, 9)) if draw(st.integers(0, 5)) else draw(st.integers(10, 40))
    t0 = draw(st.integers(-500, 500)) / 100.0
    gaps = draw(st.lists(st.integers(20, 300), min_size=N - 1, max_size=N - 1))
    t = [t0]
    for g in gaps:
        t.append(round(t[-1] + g / 100.0, 6))
    if kind not in ('cubic', 'quadratic'):
        unit = draw(st.sampled_from([1, 1, 1, 1e-6, 1e4]))
        t = [v * unit for v in t]
    if draw(st.integers(0, 3)) == 0:
        t = [-v for v in t]      # a trajectory that runs backwards in time
    sizes = {k: draw(st.integers(0, 4)) if draw(st.integers(0, 6)) else draw(st.integers(5, 9)) for k in 'yqu'}
    col = st.lists(st.integers(-1000, 1000).map(lambda i: i / 100.0), min_size=N, max_size=N)
    data = {k: [draw(col) for _ in range(sizes[k])] for k in 'yqu'}
    poly = {k: [[draw(st.integers(-20, 20)) / 10.0 for _ in range(4)] for _ in range(sizes[k])] for k in 'yqu'}
    form = {k: draw(st.sampled_from(['1d', '2d'])) for k in 'yqu'}
    items = draw(st.lists(st.one_of(st.integers(-N, N - 1), st.lists(st.one_of(st.none(), st.integers(-N, N)), min_size=2, max_size=2)), min_size=1, max_size=4))
    return dict(kind=kind, t=t, data=data, poly=poly, form=form, items=items, how=draw(st.sampled_from(['args', 'attrs'])),
                fracs=draw(st.lists(st.integers(0, 1000).map(lambda i: i / 1000.0), min_size=1, max_size=5)),
                mutate=draw(st.booleans()))


PARTS = [Part('trajectory', cases, run, quick=(6, 400), thorough=(8, 20000))]
