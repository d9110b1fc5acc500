"""C26: log messages go exactly where they were asked to go, and logging never changes an answer."""
import copy
import io
import logging
import os
import shutil
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

from vt.core import Part, Violation, sut
from vt import stubs

RULE = ('messages: a generated history of logging set-ups and messages counts as non-trivial when two or more messages were logged after a '
        'set-up; answers: a generated chain of continuation steps counts as non-trivial when it was run under different logging settings '
        'and asked the solver two or more questions')

LEVELS = [10, 15, 20, 25, 30, 40, 50]


class Scene:
    """standard output and the working directory replaced for a while"""

    def __enter__(self):
        self.dir, self.cwd, self.out = tempfile.mkdtemp(prefix='vt_log_'), os.getcwd(), sys.stdout
        self.log = logging.getLogger('beluga')
        self.state = (self.log.level, list(self.log.handlers), self.log.propagate, getattr(self.log, 'display_level_', None))
        os.chdir(self.dir)
        self.off = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *_):
        sys.stdout = self.out
        logging.disable(self.off)
        for h in self.log.handlers:
            if h not in self.state[1]:
                h.close()
        self.log.setLevel(self.state[0])
        self.log.handlers, self.log.propagate, self.log.display_level_ = self.state[1], self.state[2], self.state[3]
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)


def setup(op, dirname):
    import beluga
    kw = {}
    if op['display'] is not None:
        kw['display_level'] = op['display']
    if op['file'] is not None:
        kw['file_level'] = op['file']
    if op['name'] is not None:
        kw['filename'] = os.path.join(dirname, op['name']) if op['absolute'] else op['name']
    with sut('setting up logging'):
        (beluga.add_logger if op['add'] else beluga.init_logging)(**kw)
    file_level = op['file'] if op['file'] is not None else (10 if op['add'] else 0)
    return (20 if op['display'] is None else op['display']), file_level, op['name'] or 'beluga.log'


def run_messages(case):
    import beluga
    count, after = 0, 0
    with Scene() as sc:
        files, outs, shown = {}, [], []       # model: file -> lines, shown lines per set-up
        current = None
        for op in case['ops']:
            if op['op'] == 'setup':
                sys.stdout = io.StringIO()
                outs.append(sys.stdout)
                shown.append([])
                current = list(setup(op, sc.dir)) + [True]      # True: the file is still to be replaced
            else:
                msg = 'message %d %s' % (count, op['text'])
                count += 1
                with sut('logging a message'):
                    beluga.logger.log(op['level'], msg)
                if current is None:
                    continue
                after += 1
                display, flevel, name, fresh = current
                if op['level'] >= display:
                    shown[-1].append(msg)
                if flevel > 0 and op['level'] >= flevel:
                    if fresh:
                        files[name] = []
                        current[3] = False
                    files[name].append(msg)
        sys.stdout = sc.out
        for i, (o, want) in enumerate(zip(outs, shown)):
            got = o.getvalue().splitlines()
            compare('standard output of set-up %d' % i, got, want)
        have = sorted(os.listdir(sc.dir))
        extra = [f for f in have if f not in files]
        if extra:
            raise Violation('files %s were written although no message was to go there' % extra)
        for f, want in files.items():
            if f not in have:
                raise Violation('%d messages should be in %s, which does not exist' % (len(want), f))
            with open(os.path.join(sc.dir, f)) as fh:
                compare('log file ' + f, fh.read().splitlines(), want)
    return dict(nontrivial=after > 1, label=['file' if files else 'no file', '%d set-ups' % min(len(outs), 3)])


def compare(what, got, want):
    if len(got) != len(want) or not all(g.endswith(w) for g, w in zip(got, want)):
        raise Violation('%s holds %s, expected the messages %s' % (what, got, want))


@st.composite
def messages(draw):
    lvl = st.sampled_from(LEVELS)
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        if draw(st.integers(0, 3)) == 0 or not ops and draw(st.integers(0, 3)):
            ops.append(dict(op='setup', add=draw(st.booleans()), display=draw(st.one_of(st.none(), lvl)),
                            file=draw(st.one_of(st.none(), st.just(0), lvl)), absolute=draw(st.booleans()),
                            name=draw(st.sampled_from([None, 'a.log', 'b.log']))))
        else:
            ops.append(dict(op='log', level=draw(lvl), text=draw(st.sampled_from(['x', '100% done', '{} and %s', 'x -> 1e-3', 'é']))))
    return dict(ops=ops)


# ---- answers

def history(case, level):
    """everything a continuation run asked and returned under the given logging settings"""
    import beluga
    from vt.props import c05
    with Scene():
        sys.stdout = io.StringIO()
        if level is not None:
            with sut('setting up logging'):
                beluga.init_logging(display_level=level[0], file_level=level[1])
        with sut('formulating'):
            bvp = stubs.problem(len(case['start']), case['quads'])
        if case['solver'] == 'recorder':
            alg = stubs.recorder(stubs.failure(case['fail']))
        else:
            alg = beluga.bvp_algorithm('Shooting', num_arcs=case['arcs'])
        guess = stubs.start_guess(bvp, case['start'])
        with sut('running a continuation set'):
            out, err = stubs.run_steps(bvp, c05.make_steps(case), guess, alg)
    rec = [] if case['solver'] == 'shooting' else [(c['const'].tolist(), c['guess'], c['ok']) for c in alg.calls]
    sols = [[(np.asarray(s.t).tobytes(), np.asarray(s.y).tobytes(), np.asarray(s.const).tobytes(), bool(s.converged)) for s in part]
            for part in out] if out is not None else None
    return rec, sols, type(err).__name__ if isinstance(err, Exception) else str(err)


def run_answers(case):
    ref = history(case, (40, 0))
    for level in ((10, 10), (20, 0), (30, 20), (20, 30)):
        got = history(case, level)
        for a, b, what in zip(ref, got, ('questions to the solver', 'solutions', 'outcome')):
            if a != b:
                raise Violation('with display level %d and file level %d the %s differ from those of a quiet run' % (level + (what,)))
    n = sum(len(p) for p in ref[1]) if ref[1] else len(ref[0])
    return dict(nontrivial=n > 1, label=[case['solver'], ref[2]])


@st.composite
def answers(draw):
    from vt.props import c05
    case = copy.deepcopy(draw(c05.cases()))
    case['solver'] = draw(st.sampled_from(['recorder', 'recorder', 'recorder', 'shooting']))
    if case['solver'] == 'shooting':
        case['steps'] = case['steps'][:1]
        for s in case['steps']:
            s['num'] = min(s['num'], 3)
            for v in s['vars']:
                v['target'] = 1.5 if s['spacing'] == 'log' else min(max(v['target'], -1.5), 1.5)
        case['start'] = [1.0] * len(case['start'])
        case['quads'] = False
        case['arcs'] = draw(st.integers(1, 3))
    return case


# ---- labels

def run_label(case):
    from beluga.utils.logging import fit_string
    s, w = case['s'], case['width']
    args = (s, w) if case['just'] is None else (s, w, case['just'])
    if case['just'] == 'justified':
        if len(s) > w:
            return dict(nontrivial=False, label='too long')
        try:
            fit_string(*args)
        except ValueError:
            return dict(nontrivial=True, label='refused')
        raise Violation('unknown justification was accepted')
    with sut('fitting a label'):
        out = fit_string(*args)
    if len(out) != w:
        raise Violation('label %r fitted to width %d has width %d: %r' % (s, w, len(out), out))
    if len(s) > w:
        if out != s[:w - 3] + '...':
            raise Violation('label %r cut to width %d is %r' % (s, w, out))
    else:
        pad = w - len(s)
        left = dict(left=[0], right=[pad]).get(case['just'], [pad // 2, pad - pad // 2])
        if not any(out == ' ' * n + s + ' ' * (pad - n) for n in left):
            raise Violation('label %r fitted to width %d (%s) is %r' % (s, w, case['just'], out))
    return dict(nontrivial=True, label='cut' if len(s) > w else 'padded')


@st.composite
def labels(draw):
    return dict(s=draw(st.text(alphabet='abc {}->1.5', max_size=40)), width=draw(st.integers(3, 35)),
                just=draw(st.sampled_from([None, 'left', 'right', 'center', 'justified'])))


PARTS = [Part('messages', messages, run_messages, quick=(4, 400), thorough=(8, 10000)),
         Part('answers', answers, run_answers, quick=(8, 25), thorough=(8, 800), timeout=60),
         Part('labels', labels, run_label, quick=(1, 300), thorough=(1, 10000))]
