"""C14: generated numerical derivatives approximate the true derivative to the order of their method."""
import math
import numpy as np
import sympy
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt.ocp import FUNCS, py_func
from vt.props import c13

RULE = ('a generated function with a differentiation method and order counts as non-trivial when the derivative is of order one or more '
        'and was compared with the exact derivative; a difference formula when it was tried on all powers it must reproduce')

ARGS = ['a', 'b', 'c']


class Opaque:
    """a function behind a Python object: it cannot be compiled"""

    def __init__(self, f):
        self.f = f

    def value(self, *args):
        return self.f(*args)


def run(case):
    from beluga.numeric.numerical_derivatives import gen_fin_diff, gen_num_diff
    from beluga.numeric.compilation import jit_compile_func
    f = case['f']
    n = len(f['args'])
    order = case['order'][:n]
    order = order + [0] * (n - len(order))
    tot = sum(order)
    pf = py_func(f)
    if case['opaque']:
        ns = {'inner': Opaque(pf)}
        exec('def fn(%s):\n    return inner.value(%s)\n' % (', '.join(f['args']), ', '.join(f['args'])), ns)
        pf = ns['fn']
    if case['compiled']:
        with sut('compiling a function'):
            pf = jit_compile_func(pf, ['scalar'] * n)
    syms = [sympy.Symbol(a) for a in f['args']]
    e = sympy.sympify(f['body'], locals={**FUNCS, **dict(zip(f['args'], syms))})
    d = e
    for s, o in zip(syms, order):
        d = sympy.diff(d, s, o) if o else d
    higher = [d]
    for s in syms:
        higher += [sympy.diff(d, s), sympy.diff(d, s, 2)]
        higher += [sympy.diff(d, s, s2) for s2 in syms]
    h3 = [sympy.diff(x, s) for x in higher[1:] for s in syms]
    at = sympy.lambdify(syms, [e, d] + higher + h3, modules=['numpy'])
    meth = case['method']
    h = 1e-6 * 10 ** tot if tot else 1e-6
    with sut('generating a derivative of order %s by %s' % (order, meth)):
        if case['direct'] and meth != 'csd' and tot:
            g = gen_fin_diff(pf, deriv_order=tuple(order), step_size=h, acc_order=case['acc'],
                             method=dict(f_diff='forward', b_diff='backward', c_diff='central')[meth])
        else:
            g = gen_num_diff(pf, order=tuple(order), method=meth)
    for pt in case['pts']:
        v = [float(z) for z in at(*[float(x) for x in pt[:n]])]
        exact, M = v[1], max(1.0, max(abs(z) for z in v))
        with sut('evaluating a derivative of order %s by %s' % (order, meth)):
            got = float(g(*[float(x) for x in pt[:n]]))
        first = meth in ('f_diff', 'b_diff') or (meth == 'csd' and tot == 2 and max(order) == 2)
        tol = 3 * tot * n * M * (h if first else h * h) + 400 * 2.2e-16 * M * (8.0 if first else 4.0) ** tot / h ** tot + 1e-9 * M
        if not abs(got - exact) <= tol:
            raise Violation('derivative of order %s of %s by %s at %s is %.12g, exactly %.12g (allowed error %.2g)'
                            % (order, f['body'], meth, pt[:n], got, exact, tol))
    return dict(nontrivial=tot > 0, label=['%s order %d, %d args' % (meth, tot, n), 'cannot be compiled' if case['opaque'] else 'can be compiled'])


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4]))
    order = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
    while sum(order) > 3:
        order[order.index(max(order))] -= 1
    return dict(f=draw(c13.function('fn', n)), order=order, method=draw(st.sampled_from(['c_diff', 'c_diff', 'f_diff', 'b_diff', 'csd'])),
                compiled=draw(st.booleans()), opaque=draw(st.booleans()), direct=draw(st.booleans()), acc=draw(st.integers(1, 3)),
                pts=[draw(st.lists(st.integers(-150, 150).map(lambda i: i / 100.0), min_size=n, max_size=n)) for _ in range(3)])


def run_coeff(case):
    from beluga.numeric.numerical_derivatives.finite_diff import gen_fin_diff_coeff
    g = np.array(case['grid'], dtype=float)
    m = case['m']
    if m >= len(g):
        raise Skip('too few points')
    with sut('difference coefficients'):
        c = np.asarray(gen_fin_diff_coeff(m, g), dtype=float)
    if c.shape != g.shape:
        raise Violation('coefficients have shape %s for %d points' % (c.shape, len(g)))
    for k in range(len(g)):
        s = float(np.sum(c * g ** k))
        e = float(math.factorial(m)) if k == m else 0.0
        size = float(np.sum(np.abs(c) * np.abs(g) ** k)) + abs(e)
        if abs(s - e) > 1e-8 * max(size, 1e-12):
            raise Violation('the difference formula of order %d on %s gives %.10g for the power %d, expected %.10g' % (m, g.tolist(), s, k, e))
    return dict(nontrivial=True, label='order %d on %d points' % (m, len(g)))


@st.composite
def coeff_cases(draw):
    g = draw(st.lists(st.integers(-8, 8), min_size=2, max_size=9, unique=True))
    return dict(grid=[v / 2.0 for v in g], m=draw(st.integers(0, 7)))


def run_exact(case):
    """a formula of accuracy order a for the derivative of order m has no error on polynomials of degree below m + a"""
    from beluga.numeric.numerical_derivatives import gen_fin_diff
    n, order, acc, h = len(case['order']), case['order'], case['acc'], case['h']
    args = ['a', 'b', 'c', 'd'][:n]
    monos = [(co, [min(e, m + acc - 1) for e, m in zip(ex, order)]) for co, ex in case['monos']]
    ns = {}
    exec('def fn(%s):\n    return %s\n' % (', '.join(args), ' + '.join('%r*%s' % (co, '*'.join('%s**%d' % (a, e) for a, e in zip(args, ex))) for co, ex in monos)), ns)
    with sut('generating a difference formula of order %s and accuracy %d' % (order, acc)):
        g = gen_fin_diff(ns['fn'], deriv_order=tuple(order), step_size=h, acc_order=acc, method=case['method'])
    for pt in case['pts']:
        with sut('evaluating a difference formula'):
            got = float(g(*[float(v) for v in pt]))
        exact = size = 0.0
        for co, ex in monos:
            d, big = co, abs(co)
            for v, e, m in zip(pt, ex, order):
                d *= math.perm(e, m) * v ** (e - m) if e >= m else 0.0
                big *= (abs(v) + (m + acc + 1) * h) ** e * 4.0 ** (m + acc) / h ** m
            exact, size = exact + d, size + big
        if not abs(got - exact) <= 1e-12 * size + 1e-12:
            raise Violation('the %s difference formula of order %s and accuracy %d with step %g gives %.12g for the polynomial %s at %s, exactly %.12g'
                            % (case['method'], order, acc, h, got, monos, pt, exact))
    return dict(nontrivial=sum(order) > 0, label=['order %d' % sum(order), 'accuracy %d' % acc, '%d args' % n])


@st.composite
def exact_cases(draw):
    n = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 4]))
    top, acc = {1: (6, 6), 2: (3, 4), 3: (2, 2), 4: (1, 2)}[n]
    return dict(order=draw(st.lists(st.integers(0, top), min_size=n, max_size=n)), acc=draw(st.integers(1, acc)),
                h=draw(st.sampled_from([0.25, 0.5, 1.0])), method=draw(st.sampled_from(['forward', 'backward', 'central'])),
                monos=[[draw(st.integers(-30, 30)) / 10.0, draw(st.lists(st.integers(0, 12), min_size=n, max_size=n))] for _ in range(draw(st.integers(1, 3)))],
                pts=[draw(st.lists(st.integers(-15, 15).map(lambda i: i / 10.0), min_size=n, max_size=n)) for _ in range(2)])


PARTS = [Part('exact', exact_cases, run_exact, quick=(2, 200), thorough=(4, 8000)),
         Part('derivative', cases, run, quick=(6, 150), thorough=(8, 6000)),
         Part('formula', coeff_cases, run_coeff, quick=(2, 200), thorough=(2, 10000)),
         Part('jit', cases, run, quick=(4, 25), thorough=(4, 300), jit=True, timeout=120)]
