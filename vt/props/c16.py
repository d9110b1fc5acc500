"""C16: named quantities and switches mean the same as writing their definitions out."""
from hypothesis import strategies as st

from vt.core import Part, sut
from vt import genocp, pmp
from vt.ocp import build_problem, formulate

RULE = ('a generated problem with at least one quantity or switch counts as non-trivial when its boundary value problem was compared '
        'with the necessary conditions of the written-out problem at one or more regular points')


def run(case):
    spec = case['spec']
    with sut('formulating a valid problem with quantities and switches'):
        bvp = formulate(build_problem(spec), method=case['method'], control_method=case['control'])
    used = pmp.compare(spec, bvp, case['pts'], control=case['control'])
    nq, ns = len(spec['quantities']), len(spec['switches'])
    return dict(nontrivial=used > 0 and nq + ns > 0, label=['%dq %ds' % (nq, ns), '%s %s' % (case['method'], case['control'])])


@st.composite
def cases(draw, **kw):
    which = draw(st.sampled_from([(3, 0), (2, 2), (4, 0), (0, 2), (2, 1)]))
    if draw(st.integers(0, 6)) == 0:      # control law eliminated: controls enter plainly
        c = draw(genocp.case(quantities=min(which[0], 2), switches=min(which[1], 1), least=1, max_states=2, max_controls=1, nonlinear_u=False, qty_controls=False, bound_controls=False,
                             utm=draw(st.sampled_from([0, 0, 1])), end_bounds=draw(st.sampled_from([0, 0, 0, 1]))))
        return dict(c, method=draw(st.sampled_from(['traditional', 'diffyg'])), control='algebraic')
    c = draw(genocp.case(quantities=which[0], switches=which[1], max_states=2, max_controls=kw.get('mc', 2),
                          utm=draw(st.sampled_from([0, 0, 1])), end_bounds=draw(st.sampled_from([0, 0, 0, 1])),
                          epstrig=draw(st.integers(0, 5)) == 0, wide=True, least=1))
    if c['spec']['switches']:
        c['spec']['switches'] = list(draw(st.permutations(c['spec']['switches'])))
    return dict(c, method='traditional', control='differential')


PARTS = [
    Part('inline', cases, run, quick=(8, 30), thorough=(8, 900), timeout=15),
]
