"""C19: compiled functions compute what their expressions or Python sources say, compiled or not."""
import math
import numpy as np
import sympy
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt.ocp import FUNCS

RULE = ('a generated (expressions, argument layout, points) triple counts as non-trivial when the compiled function was compared with '
        'arbitrary-precision evaluation of the expressions (or with the plain Python function) at one or more points')

LOC = dict(FUNCS, Abs=sympy.Abs, Max=sympy.Max, Min=sympy.Min, atan2=sympy.atan2, Piecewise=sympy.Piecewise, pi=sympy.pi, E=sympy.E,
           asin=sympy.asin, acos=sympy.acos, sign=sympy.sign)


def foo(a):
    return 2.0 * a + math.sin(a)


def bar(a, b):
    return a * b - 0.5 * a


def flat(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v[()]
    if isinstance(v, (tuple, list, np.ndarray)):
        out = []
        for e in v:
            out += flat(e)
        return out
    return [v]


def shape(v):
    if isinstance(v, np.ndarray) and v.ndim == 0:
        return 0
    return [shape(e) for e in v] if isinstance(v, (tuple, list, np.ndarray)) else 0


def strided(vals, how, dtype):
    a = np.array(vals, dtype=dtype)
    if how == 'plain' or a.ndim == 0:
        return a
    big = np.full((2 * len(vals) + 1, 3), 9.25, dtype=dtype)
    if how == 'column':
        big[:len(vals), 1] = a
        return big[:len(vals), 1]
    if how == 'step':
        big[0:2 * len(vals):2, 2] = a
        return big[0:2 * len(vals):2, 2]
    f = np.asfortranarray(np.tile(a, (4, 1)))
    return f[2, :]


def run_expr(case):
    from beluga.numeric.compilation import LocalCompiler, jit_lambdify
    groups = case['groups']
    syms = {n: sympy.Symbol(n) for g in groups for n in (g if isinstance(g, list) else [g])}
    f, g = sympy.Function('foo'), sympy.Function('bar')
    loc = dict(LOC, **syms)
    if case['functions'] != 'none':
        loc.update(foo=f, bar=g)
    try:
        def build(e):
            return [build(x) for x in e] if isinstance(e, list) else sympy.sympify(e, locals=loc)
        expr = build(case['expr'])
    except (TypeError, ZeroDivisionError, ValueError):
        raise Skip('not an expression')
    ex = flat(expr)
    if any(e.has(sympy.zoo, sympy.nan, sympy.oo, sympy.I) for e in ex):
        raise Skip('not finite')
    args = [[syms[n] for n in gr] if isinstance(gr, list) else syms[gr] for gr in groups]
    cplx = case['complex']
    with sut('compiling expressions'):
        if case['functions'] == 'none':
            fn = jit_lambdify(args, expr, complex_numbers=cplx) if case['via'] == 'jit' else \
                LocalCompiler().lambdify(args, expr, complex_numbers=cplx)
        else:
            from beluga.numeric.compilation import jit_compile_func
            lc = LocalCompiler()
            wrap = (lambda h, n: jit_compile_func(h, ['scalar'] * n)) if case['functions'] == 'compiled' else (lambda h, n: h)
            if case['via'] == 'jit':
                lc.add_function_local('foo', wrap(foo, 1))
                lc.add_function_local('bar', wrap(bar, 2))
                fn = lc.lambdify(args, expr)
            else:
                lc.add_function_local('foo', wrap(foo, 1))
                lc.add_function_local('bar', lambda a, b: -1.0)     # replaced for this one expression
                fn = lc.lambdify(args, expr, additional_modules={'bar': wrap(bar, 2)})
    used = 0
    for pt in case['pts']:
        vals = dict(zip(syms, pt))
        sub = {syms[n]: (sympy.Rational(str(v[0])) + (sympy.I * sympy.Rational(str(v[1])) if cplx else 0)) for n, v in vals.items()}

        def exact(sub, wobble=0):
            out = []
            for e in ex:
                if wobble:
                    nums = sorted(e.atoms(sympy.Float), key=str)
                    e = e.xreplace({c: c * (1 + wobble * sympy.Rational(3 + i, 10 ** 13)) for i, c in enumerate(nums)})
                w = e.subs(sub)
                if case['functions'] != 'none':
                    w = w.replace(f, lambda a: 2 * a + sympy.sin(a)).replace(g, lambda a, b: a * b - a / 2)
                try:
                    out.append(complex(w.evalf(25)))
                except (TypeError, ValueError):
                    out.append(complex('nan'))
            return np.array(out)
        want = exact(sub)
        # how much rounding of the arguments alone matters
        d = np.zeros(len(ex))
        for s1 in (1, -1):
            d = np.maximum(d, np.abs(exact({z: v * (1 + s1 * sympy.Rational(1 + i, 10 ** 13)) for i, (z, v) in enumerate(sub.items())}, s1) - want))
        if not np.all(d <= 1e-6 * (1 + np.abs(want))):
            continue
        if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e9 or not cplx and np.max(np.abs(want.imag)) > 0:
            continue
        dtype = complex if cplx else float
        call = [strided([complex(*vals[n]) if cplx else vals[n][0] for n in gr], case['layout'], dtype) if isinstance(gr, list)
                else (complex(*vals[gr]) if cplx else vals[gr][0]) for gr in groups]
        with sut('calling a compiled function'):
            try:
                got = fn(*call)
            except ZeroDivisionError:
                if 'Piecewise' in str(case['expr']):
                    continue        # the branch not taken
                raise
        if shape(got) != shape(expr):
            raise Violation('the compiled function returns the shape %s for %s' % (shape(got), expr))
        got = np.array(flat(got), dtype=complex)
        bad = np.where(~(np.abs(got - want) <= 1e-12 * (1 + np.abs(want)) + 100 * d))[0]
        if bad.size:
            i = bad[0]
            raise Violation('%s at %s compiles to a function with the value %s, exactly it is %s' % (ex[i], vals, got[i], want[i]))
        used += 1
    if not used:
        raise Skip('no finite point')
    return dict(nontrivial=True, label=['complex' if cplx else 'real', case['functions'], case['layout'], 'outputs %d' % min(len(ex), 4)])


# Python functions over scalars (s) and arrays (a); those marked False use what the compiler does not know
SRC = [
    ('s', 's*s + 1.5', True), ('s', 'abs(s) ** 0.5', True), ('a', 'a[0] * 2 + a[-1]', True), ('a', 'a * 2.0 + 1.0', True),
    ('sa', 's * a[0] - a.shape[0]', True), ('as', 'a + s', True), ('ss', '(s, s2, s * s2)', True), ('aa', 'np.dot(a, a2)', True),
    ('a', 'np.sum(a) if a[0] > 0 else -np.sum(a)', True), ('s', 'int(s * 3) % 2 + s', True),
    ('a', 'sum(sorted(list(a), key=lambda v: -v)[:1])', False), ('s', '{"k": s}["k"] * 2', False), ('a', 'TABLE[0](a)', False),
    ('sa', 'TABLE[1](s) + a[0]', False), ('s', 'OBJ.double(s)', False), ('aa', 'np.vander(a, N=2).sum() + a2[0]', False),
    ('ssa', 's + 10 * s2 + 100 * a[0]', True), ('asa', 'a[0] + 10 * s + 100 * a2[0]', True),
]


class Obj:
    @staticmethod
    def double(v):
        return 2 * v


ENV = dict(np=np, TABLE=[lambda a: float(a[0]) + 1, lambda s: s - 2], OBJ=Obj())


def make(src):
    kinds, body, _ = src
    names, c = [], {}
    for ch in kinds:
        c[ch] = c.get(ch, 0) + 1
        names.append(ch if c[ch] == 1 else '%s%d' % (ch, c[ch]))
    ns = dict(ENV)
    exec('def fun(%s):\n    return %s\n' % (', '.join(names), body), ns)
    return ns['fun'], kinds


def run_func(case):
    from beluga.numeric.compilation import jit_compile_func, jit_compile_func_num_args
    src = SRC[case['src'] % len(SRC)]
    fun, kinds = make(src)
    cplx = case['complex'] and 'int(' not in src[1] and '>' not in src[1] and 'sorted' not in src[1] and 'abs' not in src[1]
    if case['via'] == 'num_args':
        if len(set(kinds)) > 1:
            raise Skip('mixed arguments')
        with sut('compiling a Python function'):
            fn = jit_compile_func_num_args(fun, len(kinds), complex_numbers=cplx, array_inputs=kinds[0] == 'a')
    else:
        if case['via'] == 'names':
            args = ['scalar' if ch == 's' else 'array' for ch in kinds]
        else:
            args = [sympy.Symbol('z%d' % i) if ch == 's' else [sympy.Symbol('z%d_0' % i), sympy.Symbol('z%d_1' % i)] for i, ch in enumerate(kinds)]
        if len(args) == 1 and case['bare'] and case['via'] == 'symbols':
            args = args[0] if kinds == 's' else args
        with sut('compiling a Python function'):
            fn = jit_compile_func(fun, args, complex_numbers=cplx)
    dtype = complex if cplx else float
    for pt in case['pts']:
        vals = [dtype(complex(*pt[i]) if cplx else pt[i][0]) if ch == 's' else
                strided([complex(*v) if cplx else v[0] for v in pt[i:i + 2]], case['layout'], dtype) for i, ch in enumerate(kinds)]
        try:
            want = fun(*vals)
        except Exception:
            raise Skip('outside the domain of the function')
        with sut('calling a compiled function'):
            got = fn(*vals)
        if shape(got) != shape(want):
            raise Violation('%s compiles to a function returning %s instead of %s' % (src[1], got, want))
        a, b = np.array(flat(got), dtype=complex), np.array(flat(want), dtype=complex)
        if not np.all(np.abs(a - b) <= 1e-12 * (1 + np.abs(b))):
            raise Violation('%s at %s compiles to a function with the value %s, the function gives %s' % (src[1], vals, got, want))
    return dict(nontrivial=True, label=['compilable' if src[2] else 'interpreted', case['via'], kinds])


def expr_strategy(names, cplx, functions):
    atoms = st.one_of(st.sampled_from(names), st.sampled_from(names), st.sampled_from(['2', '0.5', '3', '1', '0', 'pi', '-1.25', '2/3']),
                      st.sampled_from(['0.123456789012345', '3.14159265358979', '6378.137', '1.0e-7', '0.333333333333333', '1234567.891']))
    un = ['sin(%s)', 'cos(%s)', 'exp(-%s)', '(%s)**2', '(%s)**3', '-(%s)', 'sqrt(1 + (%s)**2)', '1/(1.5 + (%s)**2)', 'tanh(%s)', '(%s)**(-1)']
    if not cplx:
        un += ['Abs(%s)', 'atan(%s)', 'log(1 + (%s)**2)', '(1 + (%s)**2)**(1/3)', 'Piecewise((%s, x0 > 1), (2, True))', 'asin(sin(%s)/2)',
               'sign(%s)', 'cosh(%s)', 'tan((%s)/3)']
    bi = ['(%s + %s)', '(%s)*(%s)', '(%s - %s)', '(%s)/(%s)']
    if not cplx:
        bi += ['Max(%s, %s)', 'Min(%s, %s)', 'atan2(%s, %s)']
    if functions:
        un += ['foo(%s)'] * 4
        bi += ['bar(%s, %s)'] * 3
    return st.recursive(atoms, lambda ch: st.one_of(
        st.tuples(st.sampled_from(un), ch).map(lambda t: t[0] % t[1]),
        st.tuples(st.sampled_from(bi), ch, ch).map(lambda t: t[0] % (t[1], t[2]))), max_leaves=6)


@st.composite
def exprs(draw):
    groups, names = [], []
    for i in range(draw(st.integers(1, 4))):
        if draw(st.integers(0, 3)) == 0:
            groups.append('x%d' % len(names))
            names.append('x%d' % len(names))
        else:
            g = []
            for _ in range(draw(st.integers(0 if i else 1, 3))):
                g.append('x%d' % len(names))
                names.append('x%d' % len(names))
            groups.append(g)
    functions = draw(st.sampled_from(['none', 'none', 'compiled', 'plain']))
    cplx = functions == 'none' and draw(st.integers(0, 3)) == 0
    e = expr_strategy(names, cplx, functions != 'none')
    kind = draw(st.sampled_from(['scalar', 'list', 'list', 'nested']))
    if kind == 'scalar':
        expr = draw(e)
    elif kind == 'list':
        expr = draw(st.lists(e, min_size=1, max_size=4 if draw(st.integers(0, 5)) else 10))
    else:
        w, h = (draw(st.integers(1, 2)), draw(st.integers(1, 3))) if draw(st.integers(0, 5)) else (draw(st.integers(1, 5)), draw(st.integers(1, 5)))
        expr = [[draw(e) for _ in range(w)] for _ in range(h)]
    v = st.integers(-200, 200).filter(bool).map(lambda i: i / 100.0)
    pts = [[[draw(v), draw(v)] for _ in names] for _ in range(2)]
    return dict(groups=groups, expr=expr, functions=functions, complex=cplx, via=draw(st.sampled_from(['jit', 'local'])),
                layout=draw(st.sampled_from(['plain', 'column', 'step', 'row'])), pts=pts)


@st.composite
def funcs(draw):
    v = st.integers(-200, 200).filter(bool).map(lambda i: i / 100.0)
    return dict(src=draw(st.integers(0, len(SRC) - 1)), complex=draw(st.booleans()), via=draw(st.sampled_from(['names', 'symbols', 'num_args'])),
                bare=draw(st.booleans()), layout=draw(st.sampled_from(['plain', 'column', 'step', 'row'])),
                pts=[[[draw(v), draw(v)] for _ in range(5)] for _ in range(2)])


PARTS = [
    Part('expressions', exprs, run_expr, quick=(2, 120), thorough=(6, 3000)),
    Part('jit', exprs, run_expr, quick=(4, 25), thorough=(8, 600), jit=True, timeout=200),
    Part('functions', funcs, run_func, quick=(2, 40), thorough=(4, 600), jit=True, timeout=200),
]
