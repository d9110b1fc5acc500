"""C13: custom functions and tables enter the necessary conditions with their values and derivatives."""
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Violation, sut
from vt import gen, genocp, pmp
from vt.ocp import FUNCS, build_problem, formulate, py_func

RULE = ('a generated problem calling a custom function or table counts as non-trivial when its boundary value problem was compared with '
        'the necessary conditions of the written-out problem at a regular point; a table on its own when its values and derivatives '
        'were compared with a natural cubic spline')

BODY = ['{0}', '{0}**2', 'sin({0})', 'cos({0})', 'tanh({0})', 'exp(-0.5*{0})', 'sqrt(1 + {0}**2)']


def run(case):
    spec = case['spec']
    with sut('formulating a problem with custom functions and tables'):
        bvp = formulate(build_problem(spec), method='traditional', control_method='differential')
    used = pmp.compare(spec, bvp, case['pts'], rtol=2e-4)
    return dict(nontrivial=used > 0 and case['calls'] > 0,
                label=['%d functions %d tables' % (len(spec['functions']), len(spec['tables']))])


@st.composite
def function(draw, name, nargs):
    args = ['a', 'b', 'c', 'd'][:nargs]
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        fs = [draw(st.sampled_from(BODY)).format(draw(st.sampled_from(args))) for _ in range(draw(st.integers(1, 2)))]
        terms.append(draw(gen.coef()) + '*' + '*'.join(fs))
    return dict(name=name, args=args, body=' + '.join('(%s)' % t for t in terms))


@st.composite
def table(draw, name, lo=-4, hi=8, nmin=3):
    n = draw(st.integers(nmin, 9)) if draw(st.integers(0, 4)) else draw(st.integers(10, 20))
    xs = sorted(draw(st.lists(st.integers(lo * 10 + 1, hi * 10 - 1), min_size=n - 2, max_size=n - 2, unique=True)))
    xs = [lo * 10] + xs + [hi * 10]
    # neighbouring points keep some distance, so that the spline stays tame
    keep = [xs[0]]
    for v in xs[1:]:
        if v - keep[-1] >= 5:
            keep.append(v)
    if keep[-1] != hi * 10:
        keep[-1] = hi * 10
    ys = draw(st.lists(st.integers(-20, 20), min_size=len(keep), max_size=len(keep)))
    return dict(name=name, x=[v / 10.0 for v in keep], y=[v / 10.0 for v in ys])


@st.composite
def cases(draw, max_states=2):
    spec = draw(genocp.ocp_spec(max_states=max_states, max_controls=2, quantities=draw(st.sampled_from([0, 0, 2])), costs=True))
    nf = draw(st.integers(0, 2))
    nt = draw(st.sampled_from([0, 0, 1, 1, 1, 2] if nf else [1, 1, 2]))
    spec['functions'] = [draw(function('fn%d' % i, draw(st.sampled_from([1, 1, 2, 2, 3, 3, 4])))) for i in range(nf)]
    spec['tables'] = [draw(table('tab%d' % i)) for i in range(nt)]
    cn = [c['name'] for c in spec['controls']]
    sn = [s['name'] for s in spec['states']]
    base = sn + cn + [spec['indep']] + [q['name'] for q in spec['quantities']] \
        + [c['name'] for c in spec['constants'] if not c['name'].startswith('tol')]
    avail = [(f['name'], len(f['args'])) for f in spec['functions']] + [(t['name'], 1) for t in spec['tables']]

    def arg(depth):
        a = draw(st.sampled_from(base))
        k = draw(st.integers(0, 6))
        if k == 0:
            return '0.5*%s' % a
        if k == 1:
            return '%s*%s' % (a, draw(st.sampled_from(sn)))
        if k == 2:
            return '%s + %s' % (a, draw(st.sampled_from(sn)))
        if k == 3 and depth == 0:
            return call(1)
        return a

    def call(depth=0):
        nm, na = draw(st.sampled_from(avail))
        return '%s(%s)' % (nm, ', '.join(arg(depth) for _ in range(na)))
    calls = 0
    for s in spec['states']:
        for _ in range(draw(st.integers(0, 2))):
            s['eom'] += ' + %s*%s' % (draw(st.sampled_from(['0.5', '-1', '1'])), call())
            calls += 1
    if draw(st.booleans()):
        spec['path_cost'] += ' + 0.5*' + call()
        calls += 1
    if draw(st.integers(0, 3)) == 0:
        spec['terminal'].append(dict(expr='%s - 0.5*%s(%s)' % (sn[0], avail[-1][0], ', '.join([sn[-1]] * avail[-1][1]))))
        calls += 1
    if not calls:
        spec['states'][0]['eom'] += ' + ' + call()
        calls = 1
    return dict(spec=spec, pts=draw(genocp.points_for(spec, 3)), calls=calls)


def run_table(case):
    """the table of the symbolic layer on its own"""
    from scipy.interpolate import CubicSpline
    from beluga.symbolic.special_functions import TableSpline1D
    t = case['table']
    x, y = np.array(t['x'], dtype=float), np.array(t['y'], dtype=float)
    with sut('building a table'):
        tab = TableSpline1D('tab', y, x)
        fs = [tab.form_eval_function(o) for o in range(4)]
    ref = CubicSpline(x, y, bc_type='natural')
    sc = 1 + np.max(np.abs(y)) / np.min(np.diff(x)) ** np.arange(4)
    for j in range(len(x)):
        with sut('evaluating a table at a data point'):
            v = float(tab(x[j]))
        if abs(v - y[j]) > 1e-9 * sc[0]:
            raise Violation('the table gives %.10g at data point %.10g, expected %.10g' % (v, x[j], y[j]))
    for q in list(case['q']) + [x[-1], x[0]]:
        for o in range(4):
            if o == 3 and np.min(np.abs(x - q)) < 1e-9:
                continue
            with sut('evaluating derivative %d of a table at %r' % (o, q)):
                v = float(fs[o](float(q)))
            e = float(ref(q, o))
            if abs(v - e) > 1e-7 * sc[o] * (1 + abs(q) ** 3):
                raise Violation('derivative %d of the table at %.10g is %.10g, the natural cubic spline gives %.10g' % (o, q, v, e))
    inside = sum(1 for q in case['q'] if x[0] <= q <= x[-1])
    return dict(nontrivial=inside > 0, label='%d points' % len(x))


@st.composite
def table_cases(draw):
    t = draw(table('tab'))
    q = draw(st.lists(st.integers(-500, 900).map(lambda i: i / 100.0), min_size=3, max_size=8))
    q += draw(st.lists(st.sampled_from(t['x']), max_size=2))
    return dict(table=t, q=q)


def run_derivs(case):
    """derivatives of an expression with calls, as the formulation takes them, up to the third order"""
    import sympy
    from scipy.interpolate import CubicSpline
    import beluga
    fns, tabs = case['functions'], case['tables']
    prob = beluga.Problem('derivs')
    with sut('declaring functions and tables'):
        for f in fns:
            prob.custom_function(f['name'], py_func(f), '1', ['1'] * len(f['args']))
        for t in tabs:
            prob.table(t['name'], '1d_spline', t['y'], t['x'], '1', ['1'])
    comp = prob.local_compiler
    names = ['x', 'y', 'z'][:case['n']]
    syms = [sympy.Symbol(n) for n in names]
    with sut('differentiating an expression with calls'):
        e = comp.sympify(case['expr'])
        for j in case['by']:
            e = sympy.diff(e, syms[j % len(syms)])
        got = comp.lambdify(syms, e)
    # reference: functions written out; tables as unknown functions whose derivatives are read off the spline
    loc = dict(zip(names, syms))
    for f in fns:
        loc[f['name']] = sympy.Lambda([sympy.Symbol(a) for a in f['args']], sympy.sympify(f['body'], locals={**FUNCS, **{a: sympy.Symbol(a) for a in f['args']}}))
    spl = {t['name']: CubicSpline(t['x'], t['y'], bc_type='natural') for t in tabs}
    mods = {}
    for t in tabs:
        loc[t['name']] = taylor(t['name'], 0)
        for o in range(4):
            mods['%s__%d' % (t['name'], o)] = lambda v, o=o, c=spl[t['name']]: float(c(v, o))
    r = sympy.sympify(case['expr'], locals={**FUNCS, **loc})
    parts = [r]
    for j in case['by']:
        r = sympy.diff(r, syms[j % len(syms)])
        parts.append(r)
    ref = sympy.lambdify(syms, parts, modules=[mods, 'numpy'])
    tot, used = len(case['by']), 0
    for pt in case['pts']:
        pt = [float(v) for v in pt[:len(names)]]
        v = [float(w) for w in ref(*pt)]
        if not np.all(np.isfinite(v)) or max(map(abs, v)) > 1e4:
            continue
        with sut('evaluating a derivative of an expression with calls'):
            g = float(got(*pt))
        tol = [1e-10, 2e-5, 2e-3, 2e-2][tot] * (1 + max(map(abs, v)))
        if abs(g - v[-1]) > tol:
            # third derivatives of splines jump at the data points
            side = [float(ref(*[w + s for w in pt])[-1]) for s in (1e-3, -1e-3)] if tabs else []
            if tabs and (not np.all(np.isfinite(side)) or max(abs(w - v[-1]) for w in side) > tol):
                continue
            raise Violation('derivative of %s by %s at %s is %.9g, exactly %.9g' % (case['expr'], case['by'], pt, g, v[-1]))
        used += 1
    return dict(nontrivial=used > 0 and tot > 0, label='order %d' % tot)


def taylor(name, o):
    import sympy

    def fdiff(self, argindex=1):
        return taylor(name, o + 1)(*self.args)
    return type('%s__%d' % (name, o), (sympy.Function,), dict(nargs=1, fdiff=fdiff))


@st.composite
def deriv_cases(draw):
    n = draw(st.integers(1, 3))
    nf = draw(st.integers(0, 2))
    fns = [draw(function('fn%d' % i, draw(st.sampled_from([1, 2, 3])))) for i in range(nf)]
    tabs = [draw(table('tab%d' % i)) for i in range(draw(st.sampled_from([0, 1] if nf else [1, 2])))]
    vs = ['x', 'y', 'z'][:n]
    avail = [(f['name'], len(f['args'])) for f in fns] + [(t['name'], 1) for t in tabs]

    def arg():
        a, b = draw(st.sampled_from(vs)), draw(st.sampled_from(vs))
        return draw(st.sampled_from([a, a, a, '0.5*' + a, a + '*' + b, a + ' + 0.5*' + b, 'sin(%s)' % a]))

    def call():
        nm, na = draw(st.sampled_from(avail))
        return '%s(%s)' % (nm, ', '.join(arg() for _ in range(na)))
    expr = ' + '.join('%s*%s%s' % (draw(st.sampled_from(['1', '0.5', '-1'])), call(), draw(st.sampled_from(['', '', '*' + draw(st.sampled_from(vs)), '*' + call()])))
                      for _ in range(draw(st.integers(1, 2))))
    return dict(n=n, functions=fns, tables=tabs, expr=expr, by=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)),
                pts=[draw(gen.signed(3, -150, 150)) for _ in range(3)])


PARTS = [Part('derivs', deriv_cases, run_derivs, quick=(3, 60), thorough=(8, 3000)),
         Part('problem', cases, run, quick=(8, 20), thorough=(8, 600)),
         Part('table', table_cases, run_table, quick=(2, 150), thorough=(4, 5000)),
         Part('jit', lambda: cases(max_states=1), run, quick=(1, 2), thorough=(4, 25), jit=True, timeout=300),
         Part('tablejit', table_cases, run_table, quick=(1, 8), thorough=(2, 80), jit=True, timeout=100)]
