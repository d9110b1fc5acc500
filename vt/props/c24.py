"""C24: composing problem transformations follows the laws of function composition."""
from hypothesis import strategies as st

from vt.core import Part, Violation, sut

RULE = ('a generated composition counts as non-trivial when it applies two or more transformations and was evaluated, together with its '
        'parts, against the reference sequence')

NAMES = ['a', 'b', 'c', 'd']


def model(e):
    """the sequence of elementary transformations, in the order they are applied"""
    op = e[0]
    if op == 'leaf':
        return [e[1]]
    if op == 'id':
        return []
    if op in ('mul', 'lshift'):
        return model(e[2]) + model(e[1])
    if op == 'rshift':
        return model(e[1]) + model(e[2])
    return model(e[1]) * e[2]


def run(case):
    from beluga.symbolic.data_classes.mapping_functions import GenericFunctor

    def leaf(n):
        if case['kinds'][NAMES.index(n)] == 'class':
            class F(GenericFunctor):
                strrep = n

                def __init__(self, arg):
                    self.arg = arg

                def transformation(self, prob):
                    return prob + [self.arg]
            return F(n)
        f = GenericFunctor()
        f.set_transformation(lambda self, prob: prob + [n])
        f.strrep = n
        return f
    with sut('making functors'):
        leaves = {n: leaf(n) for n in NAMES}
    seen = []

    def build(e):
        op = e[0]
        if op == 'leaf':
            r = leaves[e[1]]
        elif op == 'id':
            r = GenericFunctor()
        elif op == 'mul':
            x, y = build(e[1]), build(e[2])
            r = x * y
        elif op == 'lshift':
            x, y = build(e[1]), build(e[2])
            r = x << y
        elif op == 'rshift':
            x, y = build(e[1]), build(e[2])
            r = x >> y
        else:
            r = build(e[1]) ** e[2]
        seen.append((e, r))
        return r
    with sut('composing functors'):
        whole = build(case['expr'])
    # the whole and every part built on the way, after all compositions were made
    for e, r in seen:
        for start in ([], ['s']):
            with sut('applying a composition'):
                got = r(list(start))
            if got != start + model(e):
                raise Violation('%s applied to %s gives %s, expected %s' % (e, start, got, start + model(e)))
    with sut('applying a composition twice'):
        if whole([]) != model(case['expr']):
            raise Violation('a second application differs')
    for bad, exc in ((case['neg'], ValueError), (1.5, TypeError), ('2', TypeError)):
        try:
            whole ** bad
        except exc:
            continue
        raise Violation('raising a functor to the power %r is accepted' % (bad,))
    return dict(nontrivial=len(model(case['expr'])) > 1, label=['length %d' % min(len(model(case['expr'])), 8)])


def tree():
    leafs = st.one_of(st.sampled_from(NAMES).map(lambda n: ['leaf', n]), st.sampled_from(NAMES).map(lambda n: ['leaf', n]),
                      st.just(['id']))
    return st.recursive(leafs, lambda ch: st.one_of(
        st.tuples(st.sampled_from(['mul', 'lshift', 'rshift']), ch, ch).map(list),
        st.tuples(st.just('pow'), ch, st.sampled_from([0, 1, 2, 2, 3, 3, 4, 5])).map(list)), max_leaves=8)


def cases():
    return st.fixed_dictionaries(dict(expr=tree(), kinds=st.lists(st.sampled_from(['class', 'plain']), min_size=4, max_size=4),
                                      neg=st.integers(-5, -1)))


PARTS = [Part('algebra', cases, run, quick=(2, 300), thorough=(8, 5000))]
