"""Problem specs as plain data, their construction through the public API, and an independent reference."""
import copy
import re
import numpy as np
import sympy

FUNCS = {f: getattr(sympy, f) for f in ('sin', 'cos', 'exp', 'log', 'sqrt', 'tanh', 'atan', 'tan', 'cosh', 'sinh')}


EXTRA = {}      # numeric meaning of reference tables, by name


def py_func(f):
    """The custom function of a spec as a plain Python function over numpy."""
    body = re.sub(r'\b(sin|cos|exp|tanh|sqrt)\(', r'np.\1(', f['body'])
    ns = {'np': np}
    exec('def %s(%s):\n    return %s\n' % (f['name'], ', '.join(f['args']), body), ns)
    return ns[f['name']]


def ref_table(name, x, y):
    """Reference table: natural cubic spline by SciPy, with its derivatives."""
    from scipy.interpolate import CubicSpline
    cs = CubicSpline(np.array(x, dtype=float), np.array(y, dtype=float), bc_type='natural') if len(x) > 2 else \
        np.poly1d(np.polyfit(x, y, 1))

    def make(order):
        nm = 'ref_%s_%d' % (name, order)
        if len(x) > 2:
            EXTRA[nm] = lambda v: float(cs(v, order)) if order <= 3 else 0.0
        else:
            EXTRA[nm] = lambda v: float(np.polyder(cs, order)(v)) if order else float(cs(v))
        return type(nm, (sympy.Function,), {'nargs': 1, 'fdiff': lambda self, argindex=1: make(order + 1)(self.args[0])})
    return make(0)


def build_problem(spec):
    """Create a beluga Problem from a spec through its public input functions."""
    import beluga
    p = beluga.Problem(spec.get('name', 'vt'))
    p.independent(spec.get('indep', 't'), spec.get('indep_units', '1'))
    for f in spec.get('functions', []):
        p.custom_function(f['name'], py_func(f), f.get('units', '1'), ['1'] * len(f['args']))
    for t in spec.get('tables', []):
        p.table(t['name'], '1d_spline', np.array(t['y'], dtype=float), np.array(t['x'], dtype=float), '1', ['1'])
    for s in spec['states']:
        p.state(s['name'], s['eom'], s.get('units', '1'))
    for c in spec.get('controls', []):
        p.control(c['name'], c.get('units', '1'))
    for c in spec.get('parameters', []):
        p.parameter(c['name'], c.get('units', '1'))
    for c in spec.get('quads', []):
        p.quad(c['name'], c['eom'], c.get('units', '1'))
    for c in spec.get('end_parameters', []):
        p.constraint_parameter(c['name'], c.get('units', '1'))
    for c in spec.get('constants', []):
        p.constant(c['name'], c['value'], c.get('units', '1'))
    for q in spec.get('quantities', []):
        p.quantity(q['name'], q['expr'])
    for s in spec.get('switches', []):
        p.switch(s['name'], s['functions'], s['conditions'], s['tol'])
    for s in spec.get('symmetries', []):
        p.symmetry(s['field'], s.get('units', '1'))
    cu = spec.get('cost_units', '1')
    if spec.get('initial_cost') is not None:
        p.initial_cost(spec['initial_cost'], cu)
    if spec.get('path_cost') is not None:
        p.path_cost(spec['path_cost'], spec.get('path_cost_units', '1'))
    if spec.get('terminal_cost') is not None:
        p.terminal_cost(spec['terminal_cost'], cu)
    for loc in ('initial', 'terminal'):
        for c in spec.get(loc, []):
            kw = {k: c[k] for k in ('lower', 'upper', 'activator', 'method') if k in c}
            getattr(p, loc + '_constraint')(c['expr'], c.get('units', '1'), **kw)
    for c in spec.get('path', []):
        p.path_constraint(c['expr'], c.get('units', '1'), lower=c['lower'], upper=c['upper'],
                          activator=c['activator'], method=c.get('method', 'utm'))
    sc = spec.get('scale', {'nd': 1})
    if sc:
        p.scale(**sc)
    return p


def formulate(problem, method='traditional', compile_=True, **options):
    """Run the same public pipeline as beluga.solve: preprocess, formulate, (compile)."""
    from beluga.symbolic.data_classes import make_indirect_method, make_postprocessor, make_preprocessor
    pre = make_preprocessor()(copy.deepcopy(problem))
    functor = make_indirect_method(copy.deepcopy(pre), method=method, **options)
    bvp = functor(copy.deepcopy(pre))
    if compile_:
        bvp = make_postprocessor()(copy.deepcopy(bvp))
    return bvp


def formulate_direct(problem, compile_=False, **options):
    from beluga.symbolic.data_classes import make_direct_method, make_postprocessor, make_preprocessor
    pre = make_preprocessor()(copy.deepcopy(problem))
    functor = make_direct_method(copy.deepcopy(pre), **options)
    bvp = functor(copy.deepcopy(pre))
    return make_postprocessor()(copy.deepcopy(bvp)) if compile_ else bvp


class Ref:
    """Independent symbolic model of a spec: quantities and switches inlined, penalties applied, by our own code."""

    def __init__(self, spec, trig_map=None):
        self.spec = spec
        self.indep = spec.get('indep', 't')
        self.state_names = [s['name'] for s in spec['states']]
        self.control_names = [c['name'] for c in spec.get('controls', [])]
        self.const_names = [c['name'] for c in spec.get('constants', [])]
        names = [self.indep] + self.state_names + self.control_names + self.const_names
        names += [d['name'] for key in ('parameters', 'quads', 'end_parameters') for d in spec.get(key, [])]
        q = {d['name']: d['expr'] for d in spec.get('quantities', [])}
        sw = {d['name']: d for d in spec.get('switches', [])}
        self.sym = {n: sympy.Symbol(n) for n in names}
        self._aux = {n: sympy.Symbol(n) for n in list(q) + list(sw)}
        self._loc = dict(self.sym)
        self._loc.update(self._aux)
        self._loc.update({k: v for k, v in FUNCS.items() if k not in self._loc})
        for fn in spec.get('functions', []):
            self._loc[fn['name']] = self._function(fn)
        for tb in spec.get('tables', []):
            self._loc[tb['name']] = ref_table(tb['name'], tb['x'], tb['y'])
        self._q, self._sw = q, sw
        self._def_cache = {}
        self.extra_path_cost = []
        self.trig = {}
        self.f = [self.parse(s['eom']) for s in spec['states']]
        self.L = self.parse(spec.get('path_cost') or '0')
        self.phi0 = self.parse(spec.get('initial_cost') or '0')
        self.phif = self.parse(spec.get('terminal_cost') or '0')
        self.psi0 = [self.parse(c['expr']) for c in spec.get('initial', []) if c.get('lower') is None]
        self.psif = [self.parse(c['expr']) for c in spec.get('terminal', []) if c.get('lower') is None]

    @staticmethod
    def _function(fn):
        formal = [sympy.Symbol('formal_arg_' + a) for a in fn['args']]
        loc = dict(zip(fn['args'], formal))
        body = sympy.sympify(fn['body'], locals={**FUNCS, **loc})

        def call(*args):
            return body.subs(dict(zip(formal, args)), simultaneous=True)
        return call

    def parse(self, text):
        e = sympy.sympify(text, locals=self._loc)
        return self.inline(e)

    def inline(self, e):
        """Textual meaning: replace every named quantity/switch by its (recursively inlined) definition."""
        m = {}
        for s in e.free_symbols:
            if s.name in self._aux:
                m[s] = self._definition(s.name)
        return e.xreplace(m) if m else e

    def _definition(self, n):
        if n not in self._def_cache:
            if n in self._q:
                self._def_cache[n] = self.parse(self._q[n])
            else:
                d = self._sw[n]
                tot = sympy.Integer(0)
                tol = self.parse(str(d['tol']))
                for fn, conds in zip(d['functions'], d['conditions']):
                    w = sympy.Integer(0)
                    for c in conds:
                        w += 1 / (1 + sympy.exp(self.parse(c) / tol))
                    tot += w * self.parse(fn)
                self._def_cache[n] = tot
        return self._def_cache[n]


def lam(args, exprs):
    """Plain numpy evaluator of sympy expressions (flat symbol list -> list of values)."""
    exprs = list(exprs)
    f = sympy.lambdify(list(args), list(exprs), modules=[EXTRA, 'numpy', 'math'], cse=True)

    def g(vals):
        with np.errstate(all='ignore'):
            try:
                out = f(*[np.float64(v) for v in vals])
            except (ZeroDivisionError, OverflowError, ValueError):
                return [float('nan')] * len(exprs)
            return [float(v) if np.isrealobj(v) else float('nan') for v in out]
    return g


def const_values(spec):
    return np.array([float(c['value']) for c in spec.get('constants', [])])
