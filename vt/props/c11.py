"""C11: what is saved is what is loaded."""
import copy
import math
import os
import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Skip, Violation, sut
from vt import gen, genocp, maps
from vt.ocp import build_problem, formulate
from vt.reader import Reader, plain, evaluate, answer
from vt.props.c25 import catcher

RULE = ('a generated (problem, formulation, solutions) triple counts as non-trivial when a file was written, loaded in this process and in '
        'a fresh one, and the solutions, the problem and the compiled functions of both were compared with the originals')

READER = Reader()


def unhex(v):
    return [float.fromhex(x) for x in v]


def near(a, b):
    """functions compiled again may differ in the last digits"""
    if a is None or b is None:
        return a is b
    a, b = np.array(unhex(a)), np.array(unhex(b))
    if a.shape != b.shape:
        return False
    sc = np.max(np.abs(b[np.isfinite(b)]), initial=0)
    return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (1 + np.abs(b)) + 1e-12 * sc)))


def judge(what, got, want_sols, keys, ref=None, names=None):
    if 'error' in got:
        raise Violation('%s: loading and using the file failed: %s' % (what, got['error']))
    if got['keys'] != sorted(keys):
        raise Violation('%s: the file holds %s, saved were %s' % (what, got['keys'], sorted(keys)))
    if 'solutions' in keys and got['solutions'] != want_sols:
        if [len(s) for s in got['solutions']] != [len(s) for s in want_sols]:
            raise Violation('%s: %s solutions per step, saved were %s' % (what, [len(s) for s in got['solutions']], [len(s) for s in want_sols]))
        for i, (a, b) in enumerate(zip(got['solutions'], want_sols)):
            for j, (p, q) in enumerate(zip(a, b)):
                for f in q:
                    if p[f] != q[f]:
                        raise Violation('%s: %s of solution %d of step %d is %s, saved was %s' % (
                            what, f, j, i, [p[f][0], unhex(p[f][1])], [q[f][0], unhex(q[f][1])]))
    if 'bvp' in keys and ref is not None:
        for p, q in zip(got['bvp'], ref):
            for f in q:
                if not near(p[f], q[f]):
                    raise Violation('%s: %s of the loaded boundary value problem is %s, of the original %s' % (what, f, p[f] and unhex(p[f]), q[f] and unhex(q[f])))
    if 'ocp' in keys:
        if got['ocp'] != names:
            raise Violation('%s: the loaded problem has %s, the original %s' % (what, got['ocp'], names))
        if ref is not None and 'reformulated' in got:
            for p, q in zip(got['reformulated'], ref):
                for f in q:
                    if not near(p[f], q[f]):
                        raise Violation('%s: %s of the loaded problem, formulated again, is %s, of the original %s'
                                        % (what, f, p[f] and unhex(p[f]), q[f] and unhex(q[f])))


def points(bvp, raw):
    """evaluation points of the right sizes from generated numbers"""
    ny, npar, nc, nu = len(bvp.states), len(bvp.parameters), len(bvp.constants), len(bvp.constraint_parameters)
    nq = len(bvp.quads)
    out = []
    for r in raw:
        it = [r[i % len(r)] * (1 + 0.01 * (i // len(r))) for i in range(2 * (ny + nq) + npar + nu + 1)]
        cut = lambda k: [it.pop() for _ in range(k)]
        out.append(dict(y=cut(ny), yf=cut(ny), q=cut(nq), qf=cut(nq), p=cut(npar), nu=cut(nu), k=[float(c.default_val) for c in bvp.constants]))
    return out


def names_of(spec):
    return dict(states=[s['name'] for s in spec['states']], controls=[c['name'] for c in spec['controls']],
                constants=[[c['name'], str(c['value'])] for c in spec['constants']])


def finite_only(ref):
    return all(v is None or all(math.isfinite(x) for x in unhex(v)) for row in ref for v in row.values())


def run_solve(case):
    import beluga
    from beluga.continuation import guess_generator
    spec, opt = case['spec'], dict(case['options'])
    method = opt.pop('method')
    with sut('formulating a valid problem'):
        bvp = formulate(build_problem(spec), method=method, **opt)
    u, _ = maps.controls_within(spec, case['traj'])
    k = [c['value'] for c in spec['constants']]
    gg = guess_generator('static', solinit=maps.make_traj(spec, case['traj'], u, k))
    file = case['file'] if isinstance(case['file'], str) else 'data.beluga'
    for f in os.listdir('.'):
        if f.endswith('.beluga') or f.endswith('.sav'):
            os.remove(f)
    with sut('a solve that saves its solutions'):
        out = beluga.solve(ocp=build_problem(spec), method=method, optim_options=opt, bvp_algorithm=catcher(), guess_generator=gg,
                           steps=None, autoscale=False, save_sols=case['file'])
    left = [f for f in os.listdir('.') if f.endswith('.beluga') or f.endswith('.sav')]
    if left != ([file] if case['file'] else []):
        raise Violation('saving with %r left the files %s' % (case['file'], left))
    if not case['file']:
        return dict(nontrivial=True, label='nothing saved')
    want = [[plain(s) for s in step] for step in out]
    pts = points(bvp, case['raw'])
    with sut('evaluating the problem'):
        ref = evaluate(bvp, pts)
    req = dict(file=os.path.abspath(file), pts=pts, form=dict(opt, method=method), remap=True)
    with sut('loading a saved file'):
        here = answer(req)
    judge('same process', here, want, ['solutions', 'ocp', 'bvp'], ref, names_of(spec))
    there = READER.ask(**req)
    judge('fresh process', there, want, ['solutions', 'ocp', 'bvp'], ref, names_of(spec))
    again = plain(maps.backward(bvp, maps.forward(bvp, out[0][0])))
    for what, g in (('same process', here), ('fresh process', there)):
        for f, (shape, v) in again.items():
            if g['remap'][f][0] != shape or not near(g['remap'][f][1], v):
                raise Violation('%s: a loaded solution sent through the maps of the loaded problem and back has %s %s, with the original problem %s'
                                % (what, f, [g['remap'][f][0], unhex(g['remap'][f][1])], [shape, unhex(v)]))
    return dict(nontrivial=True, label=['%s %s%s' % (method, opt['control_method'], ' reduced' if opt.get('reduction') else ''),
                                        'functions' if spec.get('functions') or spec.get('tables') else 'plain'])


OPTIONS = [
    dict(method='traditional', control_method='differential'), dict(method='diffyg', control_method='differential'),
    dict(method='traditional', control_method='algebraic'), dict(method='diffyg', control_method='algebraic'),
    dict(method='diffyg', control_method='differential', reduction=True),
]


@st.composite
def solve_cases(draw, small=False):
    opt = draw(st.sampled_from(OPTIONS[:2] if small else OPTIONS))
    alg = opt['control_method'] == 'algebraic'
    kw = dict(max_states=2, max_controls=1 if alg else 2, nonlinear_u=not alg, qty_controls=not alg)
    if opt.get('reduction'):
        kw.update(cyclic=2, max_states=3)
    elif small:
        kw.update(max_states=1, max_controls=1)
    else:
        kw.update(quantities=draw(st.sampled_from([0, 1])), utm=0 if alg else draw(st.sampled_from([0, 0, 1])),
                  switches=0 if alg else draw(st.sampled_from([0, 0, 1])), epstrig=(not alg and draw(st.integers(0, 3)) == 0))
    spec = draw(genocp.ocp_spec(**kw))
    if not opt.get('reduction') and draw(st.integers(0, 2)) == 0:
        x = spec['states'][0]['name']
        if draw(st.booleans()):
            spec['functions'] = [dict(name='fun1', args=['a'], body='sin(a)*0.5 + 0.25*a')]
            spec['states'][0]['eom'] += ' + 0.5*fun1(%s)' % x
        else:
            spec['tables'] = [dict(name='tab1', x=[-3.0, -1.0, 0.5, 2.0, 4.0], y=[0.5, 1.0, -0.5, 1.5, 0.25])]
            spec['states'][0]['eom'] += ' + 0.5*tab1(%s)' % x
    return dict(spec=spec, options=opt, traj=draw(maps.nodes(spec)), raw=[draw(gen.point(5)) for _ in range(2)],
                file=draw(st.sampled_from([True, True, 'mine.sav', 'other name.beluga', False])))


def run_subset(case):
    from beluga.utils import save
    from beluga.numeric.data_classes.Trajectory import Trajectory
    from vt.stubs import problem
    spec = dict(states=[dict(name='x', eom='u + 0*x + 0.1*c0')], controls=[dict(name='u')], constants=[dict(name='c0', value=1.0)],
                path_cost='u**2', initial=[dict(expr='x'), dict(expr='t')], terminal=[dict(expr='x - 1'), dict(expr='t - 1')])
    bvp = problem(1)
    pts = points(bvp, [[0.5, 1.25, -0.75]])
    ref = evaluate(bvp, pts)
    for n, op in enumerate(case['ops']):
        sols = []
        for step in op['solutions'] or []:
            row = []
            for s in step:
                N = s['N']
                it = iter(s['vals'] * 40)
                arr = lambda *sh: np.array([next(it) for _ in range(int(np.prod(sh)))], dtype=float).reshape(sh)
                sol = Trajectory(np.arange(N) * 1.0, arr(N, s['n']), arr(N, s['q']), arr(N, s['m']))
                sol.dual, sol.const, sol.dynamical_parameters = arr(N, s['n']), arr(s['k']), arr(s['p'])
                sol.nondynamical_parameters = arr(s['q'])
                sol.cost, sol.converged = next(it), s['converged']
                if s['dual_t']:
                    sol.dual_t = arr(N)
                row.append(sol)
            sols.append(row)
        kw, keys = {}, []
        if op['solutions'] is not None:
            kw['sol_set'] = sols
            keys.append('solutions')
        if op['ocp']:
            kw['ocp'] = build_problem(spec)
            keys.append('ocp')
        if op['bvp']:
            kw['bvp'] = bvp
            keys.append('bvp')
        want = [[plain(s) for s in step] for step in sols]
        with sut('saving'):
            save(filename=op['file'], **kw)
        if [[plain(s) for s in step] for step in sols] != want:
            raise Violation('saving changed the solutions')
        req = dict(file=os.path.abspath(op['file']), pts=pts)
        with sut('loading a saved file'):
            judge('same process', answer(req), want, keys, ref, names_of(spec))
        if op['fresh']:
            judge('fresh process', READER.ask(**req), want, keys, ref, names_of(spec))
        os.utime(op['file'])
    return dict(nontrivial=True, label='rewrites' if len({o['file'] for o in case['ops']}) < len(case['ops']) else 'single files')


@st.composite
def subset_cases(draw):
    val = st.one_of(st.floats(width=64), st.sampled_from([0.0, -0.0, 1e-300, float('nan'), float('inf'), float('-inf'), 1.5]))
    sol = st.fixed_dictionaries(dict(N=st.integers(0, 4), n=st.integers(0, 3), q=st.integers(0, 2), m=st.integers(0, 2), k=st.integers(0, 2),
                                     p=st.integers(0, 2), vals=st.lists(val, min_size=3, max_size=3), converged=st.booleans(), dual_t=st.booleans()))
    op = st.fixed_dictionaries(dict(solutions=st.one_of(st.none(), st.lists(st.lists(sol, max_size=3), max_size=3)), ocp=st.booleans(), bvp=st.booleans(),
                                    file=st.sampled_from(['a.sav', 'b.sav']), fresh=st.booleans()))
    return dict(ops=draw(st.lists(op, min_size=1, max_size=4)))


PARTS = [
    Part('solve', solve_cases, run_solve, quick=(7, 14), thorough=(8, 400), timeout=90),
    Part('files', subset_cases, run_subset, quick=(2, 60), thorough=(8, 1500)),
    Part('jit', lambda: solve_cases(small=True), run_solve, quick=(1, 2), thorough=(4, 20), jit=True, timeout=300),
]
