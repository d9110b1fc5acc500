"""C01: the derived boundary value problem is exactly the first-order necessary conditions."""
from vt.core import Part, sut
from vt import genocp, pmp
from vt.ocp import build_problem, formulate

RULE = ('a generated optimal control problem counts as non-trivial when its compiled boundary value problem was '
        'compared with the independently derived necessary conditions at one or more regular points')


def run(case):
    spec = case['spec']
    with sut('formulating a valid problem'):
        bvp = formulate(build_problem(spec), method='traditional', control_method='differential')
    used = pmp.compare(spec, bvp, case['pts'])
    lab = ['n%dm%d' % (len(spec['states']), len(spec['controls'])),
           'time-dependent' if any(spec['indep'] in s['eom'] for s in spec['states']) else 'autonomous',
           'endpoint-cost' if spec.get('initial_cost') or spec.get('terminal_cost') else 'path-cost-only']
    return dict(nontrivial=used > 0, label=lab)


PARTS = [
    Part('plain', lambda: genocp.case(wide=True, roots=True), run, quick=(7, 45), thorough=(8, 1200)),
    Part('jit', lambda: genocp.case(max_states=2), run, quick=(1, 5), thorough=(4, 60), jit=True, timeout=200),
]
