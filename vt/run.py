"""Driver: run every part of one property, write evidence, report.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: harness error.
"""
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HOME = os.environ.get('VT_HOME', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def load_findings():
    path = os.path.join(HOME, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    return []


def replay(prop, path):
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module('vt.props.' + prop.lower())
    part = [p for p in mod.PARTS if p.name == rec['part']][0]
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='vt_replay_')
    os.environ['VT_SCRATCH'] = os.environ['TMPDIR'] = scratch
    tempfile.tempdir = None
    os.chdir(scratch)
    try:
        return _replay(prop, path, part, rec)
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)


def _replay(prop, path, part, rec):
    from vt.core import Violation, Skip, Inconclusive
    if part.setup:
        part.setup()
    try:
        part.run(rec['case'])
    except Violation as v:
        print(str(v))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    except (Skip, Inconclusive) as e:
        print('replay undecided: %r' % (e,))
        return 2
    print('replay passes')
    return 0


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    if '--replay' in argv:
        path = argv[argv.index('--replay') + 1]
        with open(path) as f:
            rec = json.load(f)
        if not rec.get('jit') and os.environ.get('NUMBA_DISABLE_JIT') != '1':
            env = dict(os.environ, NUMBA_DISABLE_JIT='1')
            return subprocess.call([sys.executable, '-W', 'ignore', '-m', 'vt.run'] + argv, env=env)
        return replay(prop, os.path.abspath(path))
    seed0 = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vt_%s_' % prop)
    env_meta = dict(os.environ, NUMBA_DISABLE_JIT='1', MPLCONFIGDIR=scratch, VT_SCRATCH=scratch)
    try:
        out = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vt.describe', prop], env=env_meta,
                             cwd=scratch, capture_output=True, text=True, timeout=300)
        meta = None
        for line in out.stdout.splitlines():
            if line.startswith('META '):
                meta = json.loads(line[5:])
        if meta is None:
            if 'IMPORT-VIOLATION' in out.stdout:
                meta = None
            sys.stderr.write(out.stdout[-2000:] + out.stderr[-4000:])
            print('harness error: cannot load checks for %s' % prop)
            return 2
        ncpu = int(os.environ.get('VT_CPUS', 0)) or max(1, min(8, os.cpu_count() or 8))
        jobs = []
        only = os.environ.get('VT_ONLY')
        for pi, p in enumerate(meta['parts']):
            if only and p['name'] not in only.split(','):
                continue
            shards, n = p['quick'] if tier == 'quick' else p['thorough']
            scale = float(os.environ.get('VT_SCALE', '1'))
            n = max(1, int(n * scale)) if n > 0 else 0
            for s in range(shards):
                seed = (seed0 * 1000003 + pi * 7919 + s * 104729 + 17) % (2 ** 31)
                jobs.append(dict(part=p['name'], shard=s, seed=seed, n=n, jit=p['jit'],
                                 out=os.path.join(scratch, 'r_%d_%d.json' % (pi, s))))
        jobs.sort(key=lambda j: (not j['jit'],))
        budget = 240.0 if tier == 'quick' else 3000.0
        hard = 420.0 if tier == 'quick' else 4000.0
        running, pending, done, dead = [], list(jobs), [], []
        stop = False
        while running or (pending and not stop):
            while pending and len(running) < ncpu and not stop:
                j = pending.pop(0)
                cwd = os.path.join(scratch, 'cwd_%s_%d' % (j['part'], j['shard']))
                os.makedirs(cwd, exist_ok=True)
                env = dict(os.environ, MPLCONFIGDIR=cwd, VT_SCRATCH=cwd, TMPDIR=cwd)
                if j['jit']:
                    env.pop('NUMBA_DISABLE_JIT', None)
                else:
                    env['NUMBA_DISABLE_JIT'] = '1'
                log = open(j['out'] + '.log', 'w')
                left = max(20.0, budget - (time.time() - t0)) if tier == 'quick' else budget
                j['proc'] = subprocess.Popen(
                    [sys.executable, '-W', 'ignore', '-m', 'vt.worker', prop, j['part'], str(j['shard']),
                     str(j['seed']), str(j['n']), str(left), j['out']],
                    env=env, cwd=cwd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
                log.close()
                j['t'] = time.time()
                running.append(j)
            time.sleep(0.05)
            for j in list(running):
                if j['proc'].poll() is not None:
                    running.remove(j)
                    try:
                        os.killpg(j['proc'].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    if os.path.exists(j['out']):
                        with open(j['out']) as f:
                            j['res'] = json.load(f)
                        done.append(j)
                        if j['res']['violation'] is not None and not os.environ.get('VT_KEEP_GOING'):
                            stop = True
                    else:
                        dead.append(j)
                elif time.time() - j['t'] > hard or (stop and time.time() - j['t'] > hard / 4):
                    try:
                        os.killpg(j['proc'].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    j['proc'].wait()
                    running.remove(j)
                    if not stop:
                        dead.append(j)
            if stop:
                # a failure is in hand: end the other shards
                for j in list(running):
                    try:
                        os.killpg(j['proc'].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    j['proc'].wait()
                    running.remove(j)
        errors = [j for j in done if j['res']['error']]
        hashes = {}
        labels, samples, per_part = {}, [], {}
        ev = inc = skip = 0
        for j in done:
            r = j['res']
            ev += r['evaluations']
            inc += r['inconclusive']
            skip += r['skipped']
            hashes.setdefault(r['part'], set()).update(r['hashes'])
            for k, v in r['labels'].items():
                labels.setdefault(r['part'], {})
                labels[r['part']][k] = labels[r['part']].get(k, 0) + v
            pp = per_part.setdefault(r['part'], dict(evaluations=0, samples=[]))
            pp['evaluations'] += r['evaluations']
            if len(pp['samples']) < 2:
                for s in r['samples']:
                    if len(pp['samples']) < 2:
                        pp['samples'].append(s)
        for k, pp in per_part.items():
            for s in pp['samples']:
                if len(samples) < 12:
                    samples.append(dict(part=k, case=s))
        violations = []
        seen_parts = set()
        for j in done:
            v = j['res']['violation']
            if v is None or (j['part'] in seen_parts):
                continue
            seen_parts.add(j['part'])
            rdir = os.path.join(HOME, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s_%s_%d.json' % (prop, j['part'], seed0))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, part=j['part'], case=v['case'], message=v['message'],
                               jit=bool(j['jit'])), f, indent=1)
            violations.append(dict(part=j['part'], message=v['message'][:1500], replay=path))
        wall = time.time() - t0
        nontriv = sum(len(h) for h in hashes.values())
        evidence = dict(
            property=prop, tier=tier, seed=seed0, level='exploration',
            coverage=dict(evaluations=ev, distinct_nontrivial=nontriv, rule=meta['rule'],
                          samples=samples, skipped_out_of_domain=skip, inconclusive=inc,
                          per_part={k: dict(evaluations=pp['evaluations'], distinct_nontrivial=len(hashes.get(k, ())),
                                            classes=dict(sorted(labels.get(k, {}).items(), key=lambda kv: -kv[1])[:25]))
                                    for k, pp in per_part.items()}),
            wall_s=round(wall, 2), violations=len(violations))
        blob = json.dumps(evidence, indent=1)
        while len(blob) > 60000 and evidence['coverage']['samples']:
            evidence['coverage']['samples'].pop()
            blob = json.dumps(evidence, indent=1)
        edir = os.path.join(HOME, 'evidence')
        os.makedirs(edir, exist_ok=True)
        if not os.environ.get('VT_NOWRITE'):
            with open(os.path.join(edir, prop + '.json'), 'w') as f:
                f.write(blob + '\n')
        print('%s %s seed=%d: %d cases, %d distinct non-trivial, %d out of domain, %d inconclusive, %.1f s'
              % (prop, tier, seed0, ev, nontriv, skip, inc, wall))
        if os.environ.get('VT_VERBOSE'):
            print(json.dumps(evidence['coverage']['per_part'], indent=1))
            for j in done:
                print('  part %s shard %d: %.1f s, %d cases' % (j['part'], j['shard'], j['res']['wall'], j['res']['evaluations']))
        for f in load_findings():
            if f.get('property') == prop and f.get('status') == 'known':
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        if violations:
            for v in violations:
                print('  [%s] %s' % (v['part'], v['message']))
                print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
            return 1
        if errors or dead:
            for j in errors[:2]:
                print('harness error in part %s shard %d:\n%s' % (j['part'], j['shard'], j['res']['error']))
            for j in dead:
                tail = ''
                try:
                    with open(j['out'] + '.log') as f:
                        tail = f.read()[-1500:]
                except OSError:
                    pass
                print('worker for part %s shard %d ended without a result\n%s' % (j['part'], j['shard'], tail))
            return 2
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
