"""C23: what a problem means does not depend on the order it was written down in; ill-formed definitions are refused."""
import copy
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import genocp, pmp
from vt.ocp import build_problem, formulate, py_func

RULE = ('order: a problem declared in a generated order, compared with its reference conditions at one or more regular points; '
        'refuse: a valid problem with one generated flaw, which has to be refused')


def declarations(spec):
    """(category, call) pairs; order inside the categories x, u, i, f, p carries meaning for our reference, elsewhere it does not"""
    out = [('t', ['independent', spec['indep'], '1'])]
    for s in spec['states']:
        out.append(('x', ['state', s['name'], s['eom'], '1']))
    for c in spec['controls']:
        out.append(('u', ['control', c['name'], '1']))
    for c in spec['constants']:
        out.append((None, ['constant', c['name'], c['value'], '1']))
    for q in spec.get('quantities', []):
        out.append((None, ['quantity', q['name'], q['expr']]))
    for s in spec.get('switches', []):
        out.append((None, ['switch', s['name'], s['functions'], s['conditions'], s['tol']]))
    for c in spec['initial']:
        out.append(('i', ['initial_constraint', c['expr'], '1'] + bounds(c)))
    for c in spec['terminal']:
        out.append(('f', ['terminal_constraint', c['expr'], '1'] + bounds(c)))
    for c in spec.get('path', []):
        out.append(('p', ['path_constraint', c['expr'], '1'] + bounds(c)))
    for nme in ('initial_cost', 'path_cost', 'terminal_cost'):
        if spec.get(nme) is not None:
            out.append((None, [nme, spec[nme], '1']))
    out.append((None, ['scale', 'nd', 1]))
    return out


def bounds(c):
    return [c['lower'], c['upper'], c['activator'], c['method']] if c.get('lower') is not None else []


def shuffled(decl, keys):
    """sort by generated keys, keeping the given order inside each category that has one"""
    order = sorted(range(len(decl)), key=lambda i: (keys[i % len(keys)] * 31 + i * keys[(i * 7 + 3) % len(keys)]) % 101)
    by = {}
    for i, (cat, _) in enumerate(decl):
        if cat is not None:
            by.setdefault(cat, []).append(i)
    nxt = {c: iter(v) for c, v in by.items()}
    return [decl[next(nxt[decl[i][0]])] if decl[i][0] is not None else decl[i] for i in order]


def declare(p, call):
    if call[0] == 'scale':
        return p.scale(**{call[1]: call[2]})
    return getattr(p, call[0])(*call[1:])


def run_order(case):
    import beluga
    spec = case['spec']
    calls = [c for _, c in shuffled(declarations(spec), case['keys'])]
    costs = [c for c in calls if c[0].endswith('_cost')]
    if case['set_cost']:
        calls = [c for c in calls if not c[0].endswith('_cost')]
    with sut('defining a problem'):
        p = beluga.Problem('vt')
        for c in calls:
            if case['twice'] and c[0].endswith('_cost'):
                # a cost given again replaces the earlier one
                declare(p, [c[0], '7*%s' % spec['states'][0]['name'], '1'])
            r = declare(p, c)
            if r is not p:
                raise Violation('%s does not return the problem, so declarations cannot be chained' % c[0])
        if case['set_cost']:
            p.set_cost(units='1', **{c[0].split('_')[0]: c[1] for c in costs})
    with sut('formulating a valid problem'):
        bvp = formulate(p, method='traditional', control_method='differential')
    used = pmp.compare(spec, bvp, case['pts'])
    return dict(nontrivial=used > 0, label=['set_cost' if case['set_cost'] else 'separate costs', 'declarations %d' % (10 * (len(calls) // 10))])


@st.composite
def orders(draw):
    spec = draw(genocp.ocp_spec(max_states=2, quantities=2, switches=1, utm=1, end_bounds=1))
    return dict(spec=spec, pts=draw(genocp.points_for(spec, 2)), keys=draw(st.lists(st.integers(0, 100), min_size=5, max_size=13)),
                set_cost=draw(st.booleans()), twice=draw(st.booleans()))


DUP = ['state', 'control', 'constant', 'quantity', 'switch', 'independent', 'scale', 'table', 'custom_function']
FLAWS = ['duplicate'] * 4 + ['constraint method', 'control method', 'numeric control', 'method', 'no state', 'cost units', 'table type',
                             'not preprocessed', 'activator', 'one-sided', 'constant value', 'singular', 'epstrig on state', 'no ocp',
                             'cpus', 'bvp without maps', 'guess mode', 'guess direction', 'guess time', 'continuation variable']


def names_of(spec):
    out = [('independent', spec['indep']), ('scale', 'nd')]
    for cat, k in (('state', 'states'), ('control', 'controls'), ('constant', 'constants'), ('quantity', 'quantities'), ('switch', 'switches')):
        out += [(cat, d['name']) for d in spec.get(k, [])]
    return out


def redeclare(p, kind, name):
    args = dict(state=[name, '1', '1'], control=[name, '1'], constant=[name, 3.5, '1'], quantity=[name, '1 + 1'],
                switch=[name, ['1'], [['1']], '1'], independent=[name, '1'])
    if kind == 'scale':
        return p.scale(**{name: 2})
    if kind == 'table':
        return p.table(name, '1d_spline', np.array([0., 1., 2.]), np.array([0., 1., 3.]), '1', ['1'])
    if kind == 'custom_function':
        return p.custom_function(name, py_func(dict(name='f', args=['a'], body='a*2')), '1', ['1'])
    return getattr(p, kind)(*args[kind])


def refused(what, call, kinds=(Exception,)):
    try:
        call()
    except kinds:
        return
    except Exception as e:
        raise Violation('%s raises %s instead of being refused: %s' % (what, type(e).__name__, str(e)[:200]))
    raise Violation('%s is accepted' % what)


def run_refuse(case):
    import beluga
    from beluga.symbolic.data_classes import make_indirect_method, make_preprocessor
    spec, flaw = copy.deepcopy(case['spec']), case['flaw']
    idx = case['idx']
    err = (NotImplementedError, ValueError, RuntimeError, RuntimeWarning)
    lab = flaw
    if flaw == 'duplicate':
        with sut('defining a problem'):
            p = build_problem(spec)
        have = names_of(spec)
        cat, name = have[idx % len(have)]
        kind = DUP[case['idx2'] % len(DUP)]
        refused('a %s named like the %s %s' % (kind, cat, name), lambda: redeclare(p, kind, name), (RuntimeWarning,))
        # and leaves the problem as it was
        with sut('formulating the problem after a refused declaration'):
            bvp = formulate(p, method='traditional', control_method='differential')
        try:
            pmp.compare(spec, bvp, case['pts'], what='after a refused %s: ' % kind)
        except Skip:
            pass
        lab = 'duplicate %s' % kind
    elif flaw == 'constraint method':
        loc = ['path', 'terminal', 'initial'][idx % 3]
        spec['constants'].append(dict(name='eps_flaw', value=0.1))
        spec.setdefault(loc, []).append(dict(expr=spec['states'][0]['name'], lower='-40', upper='41', activator='eps_flaw', method='banana'))
        refused('a constraint with an unknown method', lambda: formulate(build_problem(spec)), err)
    elif flaw in ('control method', 'numeric control'):
        cm = 'numeric' if flaw.startswith('numeric') else 'algebraical'
        refused('control method %s' % cm, lambda: formulate(build_problem(spec), control_method=cm), err)
    elif flaw == 'method':
        refused('an unknown solution method', lambda: beluga.solve(ocp=build_problem(spec), method='collocation', save_sols=False), err)
    elif flaw == 'no state':
        spec = dict(indep='t', states=[], controls=spec['controls'], constants=[], path_cost='1')
        refused('a problem without states', lambda: formulate(build_problem(spec)), err)
    elif flaw == 'cost units':
        def f():
            p = build_problem(dict(spec, initial_cost=None, terminal_cost=None, path_cost=None, scale={'m': 1, 's': 1}))
            p.terminal_cost('1', 'm**2')
            p.path_cost(spec['path_cost'], 'm**2*s')
            formulate(p)
        refused('a path cost whose units do not match the end cost', f, (RuntimeWarning,))
    elif flaw == 'table type':
        def f():
            build_problem(spec).table('tbl', '3d_spline', np.array([0., 1., 2.]), np.array([0., 1., 2.]), '1', ['1'])
        refused('an unknown kind of table', f, err)
    elif flaw == 'not preprocessed':
        def f():
            p = build_problem(spec)
            make_indirect_method(p)(p)
        refused('formulating a problem that was not preprocessed', f, (ValueError,))
    elif flaw == 'activator':
        loc = ['path', 'terminal', 'initial'][idx % 3]
        spec.setdefault(loc, []).append(dict(expr=spec['states'][0]['name'], lower='-40', upper='41', activator='no_such_constant'))
        refused('a penalty whose activator is not a constant', lambda: formulate(build_problem(spec)))
    elif flaw == 'one-sided':
        loc = ['path', 'terminal', 'initial'][idx % 3]
        spec['constants'].append(dict(name='eps_flaw', value=0.1))
        side = [dict(lower='-40', upper=None), dict(lower=None, upper='41')][case['idx2'] % 2]
        spec.setdefault(loc, []).append(dict(expr=spec['states'][0]['name'], activator='eps_flaw', method='utm', **side))
        refused('a %s constraint with one bound only' % loc, lambda: formulate(build_problem(spec)), err)
    elif flaw == 'constant value':
        refused('a constant without a numeric value', lambda: build_problem(dict(spec, constants=[dict(name='c_flaw', value='two')])), (ValueError,))
    elif flaw == 'singular':
        spec = dict(indep='t', states=[dict(name='x', eom='v'), dict(name='v', eom='u')], controls=[dict(name='u')], constants=[],
                    path_cost='1', initial=[dict(expr='x')], terminal=[dict(expr='x - 1')])
        refused('control rates of a Hamiltonian linear in its control', lambda: formulate(build_problem(spec), control_method='differential'))
    elif flaw == 'epstrig on state':
        spec['constants'].append(dict(name='eps_flaw', value=0.1))
        spec.setdefault('path', []).append(dict(expr=spec['states'][0]['name'], lower='-40', upper='41', activator='eps_flaw', method='epstrig'))
        refused('a trigonometric bound on a state', lambda: formulate(build_problem(spec)), err)
    elif flaw == 'no ocp':
        refused('solving without a problem', lambda: beluga.solve(save_sols=False), (NotImplementedError,))
    elif flaw == 'cpus':
        refused('solving on %d processors' % -(idx % 3), lambda: beluga.solve(ocp=build_problem(spec), n_cpus=-(idx % 3), save_sols=False), (ValueError,))
    elif flaw == 'bvp without maps':
        refused('a boundary value problem without its maps', lambda: beluga.solve(ocp=build_problem(spec), bvp=object(), save_sols=False), (ValueError,))
    elif flaw == 'guess mode':
        refused('an unknown kind of guess', lambda: beluga.guess_generator('magic'), (ValueError,))
    elif flaw == 'guess direction':
        refused('an unknown direction', lambda: beluga.guess_generator(['auto', 'ones'][idx % 2], start=[0], direction='sideways'), (ValueError,))
    elif flaw == 'guess time':
        refused('a guess over no time', lambda: beluga.guess_generator(['auto', 'ones'][idx % 2], start=[0], time_integrate=0), (ValueError,))
    elif flaw == 'continuation variable':
        refused('continuation in a constant that does not exist', lambda: continuation_flaw(case), (ValueError,))
    return dict(nontrivial=True, label=[lab])


def continuation_flaw(case):
    import beluga
    from beluga.continuation import run_continuation_set
    from vt import stubs
    bvp = stubs.problem(2)
    steps = beluga.init_continuation()
    kind = ['manual', 'bisection'][case['idx'] % 2]
    steps.add_step(kind).num_cases(4).const('c1', 2.0).const('no_such', 1.5)
    run_continuation_set(stubs.recorder(lambda *a: False), steps, stubs.start_guess(bvp, [1.0, 1.0]), bvp, None, False)


@st.composite
def refusals(draw):
    spec = draw(genocp.ocp_spec(max_states=2, max_controls=1, quantities=1, switches=1))
    return dict(spec=spec, pts=draw(genocp.points_for(spec, 2)), flaw=draw(st.sampled_from(FLAWS)), idx=draw(st.integers(0, 60)), idx2=draw(st.integers(0, 60)))


PARTS = [
    Part('order', orders, run_order, quick=(4, 25), thorough=(8, 600)),
    Part('refuse', refusals, run_refuse, quick=(4, 45), thorough=(8, 500)),
]
