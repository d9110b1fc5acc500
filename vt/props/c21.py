"""C21: solving leaves its inputs alone and gives the same answer again."""
import copy
import os
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, maps
from vt.ocp import build_problem, formulate
from vt.props import c13
from vt.reader import plain

RULE = ('a generated history of solves counts as non-trivial when two or more solves of the same problem were compared, request by request '
        'and solution by solution')


def recorder():
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm

    class Recorder(BaseAlgorithm):
        def __init__(self):
            super().__init__()
            self.seen = []

        def solve(self, solinit, **kwargs):
            asked = plain(solinit)
            # the question is also made of the functions handed over
            y, q = np.asarray(solinit.y, dtype=float), np.asarray(solinit.q, dtype=float)
            p, nu, k = solinit.dynamical_parameters, solinit.nondynamical_parameters, solinit.const
            rates = [np.asarray(self.derivative_function(y[i], p, k), dtype=float) for i in (0, -1)]
            if q.size:
                res = self.boundarycondition_function(y[0], q[0], y[-1], q[-1], p, nu, k)
            else:
                res = self.boundarycondition_function(y[0], y[-1], p, nu, k)
            for name, v in (('rates', np.r_[rates[0], rates[1]]), ('residuals', np.asarray(res, dtype=float))):
                asked[name] = [list(v.shape), [float(x).hex() for x in v]]
            self.seen.append(asked)
            sol = copy.deepcopy(solinit)
            sol.y = sol.y + 0.001 * len(self.seen)
            sol.converged = True
            return dict(sol=sol, success=True, niter=1, message='')
    return Recorder()


def dump(p):
    """what the user wrote, as text"""
    out = dict(indep=str(p.independent_variable.name))
    for cat, attrs in (('states', ('name', 'eom', 'units')), ('controls', ('name', 'units')), ('constants', ('name', 'default_val', 'units')),
                       ('quantities', ('name', 'expr')), ('switches', ('name', 'functions', 'conditions', 'tol_param'))):
        out[cat] = [[str(getattr(s, a, None)) for a in attrs] for s in getattr(p, cat)]
    out['constraints'] = {loc: [[str(getattr(c, a, None)) for a in ('expr', 'units', 'lower', 'upper', 'activator', 'method')]
                                for c in p.constraints[loc]] for loc in ('initial', 'path', 'terminal')}
    out['cost'] = [str(getattr(p.cost, a, None)) for a in ('initial', 'path', 'terminal')]
    out['symmetries'] = [str(list(s.field)) for s in p.symmetries]
    return out


class User:
    """the objects one user holds for one problem"""

    def __init__(self, d, extended=False):
        self.d = d
        self.opt = dict(d['options'])
        self.method = self.opt.pop('method')
        self.build()
        self.extended = False
        if extended:
            self.extend()

    def build(self, what=('ocp', 'guess', 'steps')):
        import beluga
        d = self.d
        if 'ocp' in what:
            self.ocp = build_problem(d['spec'])
        if 'guess' in what:
            g = d['guess']
            self.given = None
            if g['mode'] == 'static':
                u, _ = maps.controls_within(d['spec'], d['traj'])
                self.given = maps.make_traj(d['spec'], d['traj'], u, [c['value'] for c in d['spec']['constants']])
                self.gg = beluga.guess_generator('static', solinit=self.given)
            else:
                self.gg = beluga.guess_generator('ones', start=list(g['start']), costate_guess=list(g['lam']), control_guess=list(g['u']),
                                                 time_integrate=g['time'])
        if 'steps' in what:
            self.steps = beluga.init_continuation() if d['steps'] else None
            for s in d['steps'] or []:
                step = self.steps.add_step(s['kind'])
                if s['kind'] != 'manual':
                    step.num_cases(s['n'])
                for nm, v in s['targets']:
                    step.const(nm, v)
        self.bvp = None

    def extend(self):
        self.ocp.constant('later', 1.5, '1')
        self.ocp.path_cost('%s + later*%s**2' % (self.d['spec']['path_cost'], self.d['spec']['controls'][0]['name']), '1')
        self.extended = True

    def solve(self, ready=False):
        import beluga
        alg = recorder()
        ocp0, opt0 = dump(self.ocp), copy.deepcopy(self.opt)
        given0 = plain(self.given) if self.given is not None else None
        kw = dict(optim_options=self.opt)
        if ready:
            if self.bvp is None:
                self.bvp = formulate(self.ocp, method='traditional' if self.method == 'indirect' else self.method, **self.opt)
            kw = dict(bvp=self.bvp, ocp_map=self.bvp.map_sol, ocp_map_inverse=self.bvp.inv_map_sol)
        files = sorted(os.listdir('.'))
        with sut('a solve'):
            out = beluga.solve(ocp=self.ocp, method=self.method, bvp_algorithm=alg, guess_generator=self.gg, steps=self.steps,
                               autoscale=self.d['autoscale'], initial_helper=self.d['helper'], save_sols=False, **kw)
        if sorted(os.listdir('.')) != files:
            raise Violation('a solve told not to save left the files %s' % (set(os.listdir('.')) - set(files)))
        ocp1 = dump(self.ocp)
        for k in ocp0:
            if ocp1[k] != ocp0[k]:
                raise Violation('solving changed the %s of the problem from %s to %s' % (k, ocp0[k], ocp1[k]))
        if self.opt != opt0:
            raise Violation('solving changed the options from %s to %s' % (opt0, self.opt))
        if given0 is not None and plain(self.given) != given0:
            raise Violation('solving changed the trajectory given as guess')
        return dict(requests=alg.seen, solutions=[[plain(s) for s in step] for step in out])


def num(v):
    return np.array([float.fromhex(x) for x in v])


def same(a, b, what):
    for part in ('requests', 'solutions'):
        A, B = a[part], b[part]
        if part == 'solutions':
            if [len(s) for s in A] != [len(s) for s in B]:
                raise Violation('%s: %s solutions per step, before %s' % (what, [len(s) for s in A], [len(s) for s in B]))
            A, B = [s for st_ in A for s in st_], [s for st_ in B for s in st_]
        if len(A) != len(B):
            raise Violation('%s: the solver was asked %d times, before %d times' % (what, len(A), len(B)))
        for i, (p, q) in enumerate(zip(A, B)):
            for f in q:
                if p[f][0] != q[f][0]:
                    raise Violation('%s: %s of number %d of the %s has shape %s, before %s' % (what, f, i, part, p[f][0], q[f][0]))
                x, y = num(p[f][1]), num(q[f][1])
                if not np.all((np.abs(x - y) <= 1e-9 * (1 + np.abs(y))) | (np.isnan(x) & np.isnan(y)) | (x == y)):
                    raise Violation('%s: %s of number %d of the %s is %s, before %s' % (what, f, i, part, x.tolist(), y.tolist()))


def alone(d):
    """the solve of a problem in a copy of this process that solves nothing else of this history"""
    import json
    import signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            with os.fdopen(w, 'w') as f:
                json.dump(User(d).solve(), f)
        finally:
            os._exit(0)
    try:
        os.close(w)
        with os.fdopen(r) as f:
            text = f.read()
        os.waitpid(pid, 0)
        pid = None
    finally:
        if pid is not None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
    try:
        return json.loads(text)
    except ValueError:
        return None


def run(case):
    base = [None] + [alone(d) for d in case['problems'][1:]]
    users = [User(d) for d in case['problems']]
    first, firstx = [None] * len(users), [None] * len(users)
    compared = 0
    for op in case['ops']:
        i = op['who'] % len(users)
        u = users[i]
        if op['do'] == 'rebuild':
            what = op['what']
            if u.extended:
                what = [w for w in what if w != 'ocp']
            u.build(what)
            continue
        if op['do'] == 'extend':
            if not u.extended and 'later' not in [c['name'] for c in u.d['spec']['constants']] and u.given is None:
                u.extend()
                u.bvp = None
            continue
        ref = firstx if u.extended else first
        got = u.solve(ready=op['do'] == 'ready')
        if ref[i] is None:
            if u.extended:
                ref[i] = User(u.d, extended=True).solve()
                same(got, ref[i], 'a problem changed after a solve, compared with the same problem built at once')
                compared += 1
            else:
                ref[i] = got
                if base[i] is not None:
                    same(got, base[i], 'problem %d after a solve of another one, compared with a solve on its own' % i)
                    compared += 1
        else:
            same(got, ref[i], 'solve number %d of problem %d (%s)' % (case['ops'].index(op), i, op['do']))
            compared += 1
    return dict(nontrivial=compared > 0, label=['%d repeats' % min(compared, 3)] + sorted({op['do'] for op in case['ops']}))


OPTIONS = [
    dict(method='traditional', control_method='differential'), dict(method='indirect', control_method='differential'),
    dict(method='diffyg', control_method='differential'),
    dict(method='traditional', control_method='algebraic'), dict(method='diffyg', control_method='algebraic'),
    dict(method='diffyg', control_method='differential', reduction=True),
]


@st.composite
def one(draw):
    opt = draw(st.sampled_from(OPTIONS))
    alg = opt['control_method'] == 'algebraic'
    kw = dict(max_states=2, max_controls=1, nonlinear_u=not alg, qty_controls=not alg)
    if opt.get('reduction'):
        kw.update(cyclic=1)
    else:
        kw.update(quantities=draw(st.sampled_from([0, 1])), utm=0 if alg else draw(st.sampled_from([0, 1])),
                  switches=0 if alg else draw(st.sampled_from([0, 0, 1])))
    spec = draw(genocp.ocp_spec(**kw))
    if draw(st.booleans()):
        spec['constants'].append(dict(name='cc', value=1.0))
    if not alg and not opt.get('reduction'):
        nm = spec['states'][-1]['name']
        if draw(st.integers(0, 2)) == 0:
            spec['functions'] = [draw(c13.function('fn0', 1))]
            spec['states'][0]['eom'] += ' + fn0(%s)' % nm
        if draw(st.integers(0, 3)) == 0:
            spec['tables'] = [draw(c13.table('tab0'))]
            spec['states'][0]['eom'] += ' + 0.5*tab0(%s)' % nm
    n, m = len(spec['states']), len(spec['controls'])
    d = dict(spec=spec, options=opt, autoscale=draw(st.booleans()), helper=draw(st.booleans()), steps=None)
    if draw(st.integers(0, 2)) == 0:
        d['guess'], d['traj'] = dict(mode='static'), draw(maps.nodes(spec))
    else:
        d['guess'] = dict(mode='ones', start=draw(gen.point(n)), lam=draw(gen.signed(n)), u=draw(gen.point(m)), time=draw(st.sampled_from([0.5, 1, 2.0])))
    names = [c['name'] for c in spec['constants']]
    if names and draw(st.integers(0, 3)):
        d['steps'] = [dict(kind=draw(st.sampled_from(['manual', 'bisection', 'bisection', 'productspace'])), n=draw(st.integers(2, 4)),
                           targets=[[nm, draw(st.integers(50, 250)) / 100.0]
                                    for nm in draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True))])
                      for _ in range(draw(st.integers(1, 2)))]
    return d


@st.composite
def variant(draw, d):
    """the same names and equations, other definitions behind them"""
    d = copy.deepcopy(d)
    spec = d['spec']
    for q in spec['quantities']:
        if draw(st.booleans()):
            q['expr'] = '2*(%s)' % q['expr']
    for w in spec['switches']:
        if draw(st.booleans()):
            w['functions'] = ['2*(%s)' % e for e in w['functions']]
    for f in spec.get('functions', []):
        f['body'] = '0.5 + 1.25*(%s)' % f['body']
    for t in spec.get('tables', []):
        t['y'] = [v * 1.5 + 0.25 for v in t['y']]
    for c in spec['constants']:
        if not c['name'].startswith(('eps', 'bnd_')) and draw(st.booleans()):
            c['value'] = round(c['value'] + 0.125, 6)
    if draw(st.booleans()):
        opt = [o for o in OPTIONS if bool(o.get('reduction')) == bool(d['options'].get('reduction')) and o['control_method'] == d['options']['control_method']]
        d['options'] = dict(draw(st.sampled_from(opt)))
    return d


@st.composite
def cases(draw):
    problems = [draw(one()) for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        problems = [problems[0], draw(variant(problems[0]))]
    op = st.one_of(
        st.fixed_dictionaries(dict(do=st.sampled_from(['solve', 'solve', 'ready']), who=st.integers(0, 1))),
        st.fixed_dictionaries(dict(do=st.just('rebuild'), who=st.integers(0, 1),
                                   what=st.lists(st.sampled_from(['ocp', 'guess', 'steps']), min_size=1, max_size=3, unique=True))),
        st.fixed_dictionaries(dict(do=st.just('extend'), who=st.integers(0, 1))))
    ops = draw(st.lists(op, min_size=2, max_size=6))
    # at least one plain repeat
    ops = [dict(do='solve', who=0)] + ops + [dict(do='solve', who=0)]
    return dict(problems=problems, ops=ops)


# ---- real solvers

def algorithm(a):
    import beluga
    return beluga.bvp_algorithm(a['name'], **a['kw'])


def lq(q):
    return dict(indep='t', states=[dict(name='x', eom='u - %g*x' % q[0])], controls=[dict(name='u')],
                constants=[dict(name='x_f', value=0.5 + q[1])], path_cost='u**2 + %g*x**2' % q[3],
                initial=[dict(expr='x - 0.25'), dict(expr='t')], terminal=[dict(expr='x - x_f'), dict(expr='t - %g' % (0.2 + 0.2 * q[2]))])


def real_solve(case, q, alg, fresh):
    import beluga
    spec = lq(q)
    gg = beluga.guess_generator('auto', start=[0.25], costate_guess=[0.1], control_guess=[0.1], time_integrate=0.2)
    steps = None
    if case['steps']:
        steps = beluga.init_continuation()
        steps.add_step('bisection').num_cases(case['steps']).const('x_f', spec['constants'][0]['value'] + 0.4)
    with sut('solving a linear-quadratic problem'):
        out = beluga.solve(ocp=build_problem(spec), method=case['method'], bvp_algorithm=alg, guess_generator=gg, steps=steps,
                           optim_options=dict(control_method=case['control']), autoscale=case['autoscale'], initial_helper=bool(case['steps']), save_sols=False)
    return dict(requests=[], solutions=[[plain(s) for s in step] for step in out])


def settings(alg):
    out = {}
    for k, v in sorted(vars(alg).items()):
        if isinstance(v, (bool, int, float, str)):
            out[k] = v
    return {k: out[k] for k in ('tolerance', 'max_error', 'max_iterations', 'max_nodes', 'num_arcs', 'algorithm', 'ivp_method', 'stepper') if k in out}


def run_real(case):
    alg = algorithm(case['alg'])
    set0 = settings(alg)
    refs = []
    for q in case['qs']:
        try:
            refs.append(real_solve(case, q, algorithm(case['alg']), True))
        except Violation as e:
            if 'diverged' in str(e).lower() or 'RuntimeError' in str(e):
                raise Skip('no convergence')
            raise
    for j in case['order']:
        j = j % len(refs)
        got = real_solve(case, case['qs'][j], alg, False)
        same(got, refs[j], 'problem %d with an algorithm used before (order %s)' % (j, case['order']))
    if settings(alg) != set0:
        raise Violation('the settings of the algorithm changed from %s to %s' % (set0, settings(alg)))
    return dict(nontrivial=len(case['order']) > 1, label=[case['alg']['name'], case['method']])


@st.composite
def real(draw):
    a = draw(st.sampled_from([dict(name='spbvp', kw={}), dict(name='spbvp', kw=dict(error=1e-4)), dict(name='Shooting', kw={}),
                              dict(name='Shooting', kw=dict(num_arcs=3)), dict(name='Shooting', kw=dict(algorithm='fsolve'))]))
    return dict(alg=a, qs=[draw(gen.point(4)) for _ in range(draw(st.integers(1, 2)))], order=draw(st.lists(st.integers(0, 1), min_size=2, max_size=3)),
                steps=draw(st.sampled_from([0, 0, 3] if a['name'] == 'spbvp' else [0, 0, 2])), method=draw(st.sampled_from(['traditional', 'diffyg'])),
                control=draw(st.sampled_from(['algebraic', 'differential'] if a['name'] == 'spbvp' else ['algebraic'])), autoscale=draw(st.booleans()))


PARTS = [
    Part('histories', cases, run, quick=(8, 20), thorough=(8, 350), timeout=120),
    Part('solvers', real, run_real, quick=(8, 6), thorough=(8, 80), timeout=200),
]
