#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MF = 'beluga/symbolic/data_classes/mapping_functions.py'
NP = 'beluga/numeric/data_classes/NumericProblem.py'
TM = 'beluga/numeric/data_classes/trajectory_mappers.py'
SP = 'beluga/symbolic/data_classes/symbolic_problem.py'
CS = 'beluga/symbolic/data_classes/components_structures.py'
CO = 'beluga/continuation/continuation.py'
GG = 'beluga/continuation/guess_generators.py'
SH = 'beluga/numeric/bvp_solvers/Shooting.py'
SB = 'beluga/numeric/bvp_solvers/SPBVP.py'
IV = 'beluga/numeric/ivp_solvers/ivpsol.py'
TR = 'beluga/numeric/data_classes/Trajectory.py'
DG = 'beluga/symbolic/differential_geometry/differential_geometry.py'
CF = 'beluga/symbolic/special_functions/custom_functions.py'
TB = 'beluga/symbolic/special_functions/tables.py'
FD = 'beluga/numeric/numerical_derivatives/finite_diff.py'
CX = 'beluga/numeric/numerical_derivatives/complex_step.py'
JI = 'beluga/numeric/compilation/jit.py'
CC = 'beluga/numeric/compilation/component_compilation.py'
LC = 'beluga/numeric/compilation/LocalCompiler.py'
BE = 'beluga/beluga.py'
ST = 'beluga/utils/storage.py'
LG = 'beluga/utils/logging.py'

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, state, observe, technique, note):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                              state=[dict(name=state, where=mech[0][1])], observe_at=[observe], hook_needed=None)),
        technique=technique, note=note))


exec(open(os.path.join(HERE, 'tools', 'props_text.py')).read())

NOT_APPLICABLE = []


def main():
    ids = [p['rec']['id'] for p in PROPS]
    assert len(ids) == len(set(ids))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['rec']['title']) <= 80, p['rec']['title']
            f.write(json.dumps(p['rec']) + '\n')
    checks = []
    for p in PROPS:
        i = p['rec']['id']
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                           technique=p['technique'], level='exploration', level_note=p['note']))
    man = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=NOT_APPLICABLE)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
