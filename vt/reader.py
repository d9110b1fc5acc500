"""A fresh process that loads saved files and answers questions about them (one JSON request per line)."""
import json
import os
import subprocess
import sys
import traceback


class Reader:
    """the client side: starts the process when first needed, restarts it after a failure"""

    def __init__(self):
        self.p = None

    def ask(self, **req):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vt.reader'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      stderr=subprocess.DEVNULL, text=True, env=dict(os.environ), bufsize=1)
        ok = False
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            ok = bool(line)
        finally:
            if not ok:
                self.stop()
        if not ok:
            return dict(error='the process died')
        return json.loads(line)

    def stop(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


FIELDS = ('t', 'dual_t', 'y', 'dual', 'q', 'u', 'dual_u', 'dynamical_parameters', 'nondynamical_parameters', 'const', 'converged', 'cost')


def plain(sol):
    """a trajectory as JSON-able data; exact (hex floats)"""
    import numpy as np
    out = {}
    for f in FIELDS:
        v = getattr(sol, f)
        a = np.asarray(v, dtype=float)
        out[f] = [list(a.shape), [float(x).hex() for x in a.ravel()]]
    return out


def evaluate(bvp, pts):
    """functions of a compiled problem at points; None when it has no such function"""
    import numpy as np
    fp = bvp.functional_problem
    out = []
    for p in pts:
        a = {k: np.array(v, dtype=float) for k, v in p.items()}
        row = dict(rates=fp.deriv_func(a['y'], a['p'], a['k']), u=None)
        if fp.compute_u is not None:
            row['u'] = fp.compute_u(a['y'], a['p'], a['k'])
        if len(bvp.quads):
            row['qrates'] = fp.quad_func(a['y'], a['p'], a['k'])
            row['bc'] = fp.bc_func(a['y'], a['q'], a['yf'], a['qf'], a['p'], a['nu'], a['k'])
        else:
            row['bc'] = fp.bc_func(a['y'], a['yf'], a['p'], a['nu'], a['k'])
        out.append({k: None if v is None else [float(x).hex() for x in np.asarray(v, dtype=float).ravel()] for k, v in row.items()})
    return out


def answer(req):
    import copy
    from beluga.utils import load
    d = load(req['file'])
    out = dict(keys=sorted(d))
    if 'solutions' in d:
        out['solutions'] = [[plain(s) for s in step] for step in d['solutions']]
    if 'bvp' in d and req.get('pts'):
        out['bvp'] = evaluate(d['bvp'], req['pts'])
        if req.get('remap') and d.get('solutions') and d['solutions'][0]:
            s = copy.deepcopy(d['solutions'][0][0])
            m = d['bvp'].map_sol(s)
            out['remap'] = plain(d['bvp'].inv_map_sol(m))
    if 'ocp' in d:
        ocp = d['ocp']
        out['ocp'] = dict(states=[s.name for s in ocp.states], controls=[s.name for s in ocp.controls],
                          constants=[[s.name, str(s.default_val)] for s in ocp.constants])
        if req.get('form') and req.get('pts'):
            from vt.ocp import formulate
            opt = dict(req['form'])
            out['reformulated'] = evaluate(formulate(ocp, method=opt.pop('method'), **opt), req['pts'])
    return out


def main():
    real = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        try:
            out = answer(json.loads(line))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            out = dict(error='%s: %s [%s]' % (type(e).__name__, e, ' <- '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in tb[::-1][:4])))
        real.write(json.dumps(out) + '\n')
        real.flush()


if __name__ == '__main__':
    main()
