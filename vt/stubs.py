"""A recording stand-in for the boundary value solver, driven by a generated failure plan."""
import copy
import numpy as np

from vt.core import Violation


_PROB = {}


class Enough(BaseException):
    """the history is long enough: judge what was seen so far"""


def problem(nconst, quads=False, scaled=False):
    """a real compiled boundary value problem with nconst free constants c0.. (c0 starts at 1); if scaled, with units of fixed size,
    powers of two so that scaling is exact"""
    if (nconst, quads, scaled) not in _PROB:
        from vt.ocp import build_problem, formulate
        spec = dict(states=[dict(name='x', eom='u' + ''.join(' + 0.1*c%d' % i for i in range(nconst)))],
                    controls=[dict(name='u')], constants=[dict(name='c%d' % i, value=1.0) for i in range(nconst)],
                    path_cost='u**2', initial=[dict(expr='x'), dict(expr='t')],
                    terminal=[dict(expr='x - 1'), dict(expr='t - 1')])
        if quads:
            spec['states'].append(dict(name='z', eom='x + u'))
            spec['initial'].append(dict(expr='z'))
            spec['terminal'].append(dict(expr='z - 1'))
            spec['symmetries'] = [dict(field=['0', '1'])]
        if scaled:
            spec.update(indep_units='s', path_cost_units='m**2/s**2', cost_units='m**2/s', scale=dict(m=4, s=2))
            for st in spec['states'] + spec['initial'][:1] + spec['terminal'][:1] + spec['initial'][2:] + spec['terminal'][2:]:
                st['units'] = 'm'
            spec['initial'][1]['units'] = spec['terminal'][1]['units'] = 's'
            spec['controls'][0]['units'] = 'm/s'
            for i, c in enumerate(spec['constants']):
                c['units'] = ['m/s', 's', 'm', '1/m', '1'][i % 5]
            for sy in spec.get('symmetries', []):
                sy['units'] = 'm'
        _PROB[nconst, quads, scaled] = formulate(build_problem(spec), method='diffyg', reduction=True) if quads else \
            formulate(build_problem(spec), method='traditional')
    return _PROB[nconst, quads, scaled]


def start_guess(bvp, const):
    from beluga.numeric.data_classes.Trajectory import Trajectory
    ny = len(bvp.states)
    sol = Trajectory(np.array([0.0, 1.0]), np.zeros((2, ny)), np.zeros((2, 0)), np.zeros((2, 0)))
    sol.dynamical_parameters = np.ones(len(bvp.parameters))
    sol.nondynamical_parameters = np.zeros(len(bvp.constraint_parameters))
    sol.q = np.zeros((2, len(bvp.quads)))
    sol.const = np.array(const, dtype=float)
    sol.y[:, 0] = -1.0          # tag: identity of the trajectory
    return sol


FIELDS = ('t', 'y', 'q', 'dynamical_parameters', 'nondynamical_parameters')


def factors(bvp, const):
    """sizes of the units of each component (they do not depend on the trajectory)"""
    return bvp.functional_problem.compute_scale_factors(start_guess(bvp, const))


def rescale(sol, f, op):
    for nme, v in zip(('t', 'y', 'q', None, 'dynamical_parameters', 'nondynamical_parameters', 'const'), f):
        if nme:
            setattr(sol, nme, op(np.asarray(getattr(sol, nme), dtype=float), np.asarray(v, dtype=float)))


def recorder(fails, scale=None):
    """fails(call index, requested constants, constants of the guess trajectory) -> bool; with scale, the solver sees scaled trajectories"""
    from beluga.numeric.bvp_solvers.BaseAlgorithm import BaseAlgorithm

    class Recorder(BaseAlgorithm):
        def __init__(self):
            super().__init__()
            self.calls = []     # dict(const, guess, ok)
            self.made = {}

        def solve(self, solinit, **kwargs):
            solinit = copy.deepcopy(solinit)
            if scale is not None:
                rescale(solinit, scale, np.multiply)
            sol = copy.deepcopy(solinit)
            tag = int(round(float(sol.y[0, 0])))
            if len(self.calls) >= 500:
                raise Enough()
            if not -1 <= tag < len(self.calls):
                raise Violation('the solver was given a guess that no solve produced')
            want = self.made.get(tag)
            for f in FIELDS if want else ():
                a, b = np.asarray(getattr(solinit, f), dtype=float), want[f]
                if a.shape != b.shape or not np.array_equal(a, b):
                    raise Violation('solve %d starts from trajectory %d, but its %s are %s, the solver had returned %s'
                                    % (len(self.calls), tag, f, a.tolist(), b.tolist()))
            ok = not fails(len(self.calls), np.array(sol.const), self.calls[tag]['const'] if tag >= 0 else None)
            i = len(self.calls)
            n = 2 + (i * i + i // 3) % 4            # a mesh, quadratures and parameters of its own for every answer
            sol.t = np.cumsum(np.arange(n) + 0.5 + i)
            sol.y = np.outer(np.ones(n), np.arange(sol.y.shape[1])) + np.sqrt(2 + np.arange(n))[:, None] + i
            sol.y[:, 0] = i
            sol.q = np.outer(np.arange(n) / 3 + i, np.ones(np.shape(sol.q)[1]))
            sol.dynamical_parameters = np.asarray(sol.dynamical_parameters) * 0 + 1.1 + i
            sol.nondynamical_parameters = np.asarray(sol.nondynamical_parameters) * 0 - 0.7 - i
            self.made[i] = {f: np.array(getattr(sol, f), dtype=float) for f in FIELDS}
            self.calls.append(dict(const=np.array(sol.const, dtype=float), guess=tag, ok=bool(ok)))
            sol.converged = bool(ok)
            if scale is not None:
                rescale(sol, scale, np.divide)
            return dict(sol=sol, success=bool(ok), niter=1, message='')
    return Recorder()


def failure(plan):
    """plan: kind index / jump / region / none -> predicate"""
    kind = plan['kind']
    if kind == 'index':
        return lambda i, c, g: i in plan['which']
    if kind == 'jump':
        return lambda i, c, g: g is not None and float(np.sum(np.abs(c - g))) > plan['max']
    if kind == 'region':
        return lambda i, c, g: bool(np.min(np.abs(c[plan['var']] - np.array(plan['centers']))) < plan['width'])
    return lambda i, c, g: False


def run_steps(bvp, steps, guess, alg, whole=False, autoscale=False):
    """the steps on their own, or inside a whole solve"""
    from beluga.continuation import run_continuation_set
    try:
        if whole:
            import beluga
            return beluga.solve(ocp=beluga.Problem(), bvp=bvp, ocp_map=copy.deepcopy, ocp_map_inverse=copy.deepcopy, bvp_algorithm=alg, steps=steps,
                                guess_generator=beluga.guess_generator('static', solinit=guess), autoscale=autoscale, save_sols=False), None
        return run_continuation_set(alg, steps, guess, bvp, None, autoscale), None
    except Enough:
        return None, Enough
    except (RuntimeError, ValueError) as e:
        if isinstance(e, RecursionError):
            raise
        return None, e
