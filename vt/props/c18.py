"""C18: bounded path and end constraints enter the problem exactly through their documented penalty or substitution."""
from hypothesis import strategies as st

from vt.core import Part, sut
from vt import genocp, pmp
from vt.ocp import build_problem, formulate

RULE = ('a generated problem with one or more bounded constraints counts as non-trivial when its boundary value problem was compared '
        'with the necessary conditions of the penalised problem at one or more regular points')


def run(case):
    spec = case['spec']
    nb = sum(1 for loc in ('initial', 'path', 'terminal') for c in spec.get(loc, []) if c.get('lower') is not None)
    with sut('formulating a valid problem with bounded constraints'):
        bvp = formulate(build_problem(spec), method=case['method'], control_method=case['control'])
    used = pmp.compare(spec, bvp, case['pts'], control=case['control'])
    return dict(nontrivial=used > 0 and nb > 0, label=['%d bounded constraints' % nb, '%s %s' % (case['method'], case['control'])])


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(['utm', 'utm2', 'ends', 'trig', 'mixed', 'algebraic']))
    if kind == 'algebraic':
        c = draw(genocp.case(max_states=2, utm=2, end_bounds=1, least=1, nonlinear_u=False, qty_controls=False, bound_controls=False))
        return dict(c, method=draw(st.sampled_from(['traditional', 'diffyg'])), control='algebraic')
    kw = dict(utm=dict(utm=1), utm2=dict(utm=3), ends=dict(end_bounds=2), trig=dict(epstrig=True),
              mixed=dict(utm=1, end_bounds=1, epstrig=True))[kind]
    return dict(draw(genocp.case(max_states=2, wide=True, least=1, **kw)), method='traditional', control='differential')


PARTS = [Part('penalty', cases, run, quick=(8, 25), thorough=(8, 900))]
