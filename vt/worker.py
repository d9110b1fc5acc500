"""Runs one shard of one part in its own process and writes a JSON result file."""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    prop, part_name, shard, seed, n, budget, out = sys.argv[1:8]
    shard, seed, n, budget = int(shard), int(seed), int(n), float(budget)
    warnings.filterwarnings('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    t_start = time.time()
    res = dict(part=part_name, shard=shard, seed=seed, requested=n, evaluations=0, nontrivial=0, skipped=0,
               inconclusive=0, labels={}, hashes=[], samples=[], violation=None, error=None)

    def finish():
        res['wall'] = time.time() - t_start
        with open(out + '.tmp', 'w') as f:
            json.dump(res, f)
        os.replace(out + '.tmp', out)

    try:
        from vt.core import Violation, Inconclusive, Skip, canon, time_limit
        try:
            mod = importlib.import_module('vt.props.' + prop.lower())
        except Violation:
            raise
        part = [p for p in mod.PARTS if p.name == part_name][0]
        if part.setup:
            part.setup()

        state = dict(best=None, best_msg=None, first_fail_at=None)
        seen = set()
        SHRINK_S = 0.0 if os.environ.get('VT_NOSHRINK') else 40.0

        def execute(case):
            if res['error']:
                return
            case = canon(case)
            js = json.dumps(case, sort_keys=True)
            if state['first_fail_at'] is None:
                if time.time() - t_start > budget:
                    return
                res['evaluations'] += 1
            elif time.time() - state['first_fail_at'] > SHRINK_S:
                return  # shrinking allowance used up
            try:
                with time_limit(part.timeout):
                    info = part.run(case) or {}
            except Skip:
                res['skipped'] += 1
                return
            except Inconclusive:
                res['inconclusive'] += 1
                return
            except Violation as v:
                if state['first_fail_at'] is None:
                    state['first_fail_at'] = time.time()
                if state['best'] is None or len(js) <= len(state['best']):
                    state['best'], state['best_msg'] = js, str(v)
                raise
            except Exception:
                res['error'] = traceback.format_exc()[-2500:] + '\ncase: ' + js[:1500]
                return
            if state['first_fail_at'] is not None:
                return
            lab = info.get('label', '')
            for l in (lab if isinstance(lab, (list, tuple)) else [lab]):
                res['labels'][l] = res['labels'].get(l, 0) + 1
            if info.get('nontrivial', True):
                h = hashlib.blake2b(js.encode(), digest_size=8).hexdigest()
                if h not in seen:
                    seen.add(h)
                    res['nontrivial'] += 1
                    if len(res['samples']) < 2 and len(js) < 1500:
                        res['samples'].append(case)

        try:
            if shard == 0:
                for ex in part.examples:
                    execute(ex)
            if n > 0:
                import hypothesis
                from hypothesis import HealthCheck, Phase, given, settings

                @hypothesis.seed(seed)
                @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          phases=(Phase.generate,) if os.environ.get('VT_NOSHRINK') else (Phase.generate, Phase.shrink), print_blob=False)
                @given(part.strategy())
                def test(case):
                    execute(case)

                test()
        except Violation:
            pass
        except BaseException:
            if state['best'] is None:
                raise
        if state['best'] is not None:
            res['violation'] = dict(case=json.loads(state['best']), message=state['best_msg'])
        res['hashes'] = sorted(seen)
    except BaseException:
        res['error'] = traceback.format_exc()[-4000:]
    finish()


if __name__ == '__main__':
    main()
