#!/usr/bin/env python3
"""Development aid (no check uses it): sampled source mutants of a file, judged by the property checks.

usage: mutate.py FILE[,FILE] CHECK[,CHECK] NUMBER SEED WORKERS OUT.jsonl
Every mutant lives in a scratch copy of the repository under /tmp; the survivors are listed for reading by hand.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    """(description, function that mutates the node in place) for every site"""
    out = []
    doc = set()
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) \
                and isinstance(node.body[0].value, ast.Constant):
            doc.add(id(node.body[0]))
            doc.add(id(node.body[0].value))
        if isinstance(node, (ast.Raise, ast.JoinedStr)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)
                                                             and ast.unparse(node.value.func).startswith(('logg', 'print'))):
            for n in ast.walk(node):
                skip.add(id(n))
        if isinstance(node, ast.FunctionDef) and node.name in ('__repr__', '__str__', '_bc_jac', 'make_stmode', '_jacobian_function', 'estimate_bc_jac'):
            for n in ast.walk(node):
                skip.add(id(n))
    for node in ast.walk(tree):
        if id(node) in doc or id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
            out.append(('cmp', node, lambda n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        if isinstance(node, ast.BinOp) and type(node.op) in BIN:
            out.append(('bin', node, lambda n: setattr(n, 'op', BIN[type(n.op)]())))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            out.append(('neg', node, lambda n: setattr(n, 'op', ast.UAdd())))
        if isinstance(node, ast.BoolOp):
            out.append(('bool', node, lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        if isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            out.append(('const', node, lambda n: setattr(n, 'value', n.value + 1 if n.value in (0, 1) else n.value * 2)))
        if isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append(('flag', node, lambda n: setattr(n, 'value', not n.value)))
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            out.append(('not', node, lambda n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test))))
        if isinstance(node, ast.Call) and len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args[:2]):
            out.append(('swap', node, lambda n: n.args.__setitem__(slice(0, 2), [n.args[1], n.args[0]])))
        if isinstance(node, ast.Call) and ast.unparse(node.func) in ('copy.deepcopy', 'copy.copy', 'np.copy') and node.args:
            out.append(('nocopy', node, lambda n: (setattr(n, 'func', ast.Name('(lambda z: z)', ast.Load())), None)))
        if isinstance(node, (ast.FunctionDef, ast.For, ast.If, ast.While, ast.Module)):
            for i, s in enumerate(node.body):
                if id(s) in doc or id(s) in skip or isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.Return)):
                    continue
                if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Continue, ast.Break)):
                    out.append(('drop', s, lambda n, i=i, p=node: p.body.__setitem__(i, ast.Pass())))
    return out


def mutant(src, k):
    tree = ast.parse(src)
    desc, node, f = sites(tree)[k]
    line = getattr(node, 'lineno', 0)
    before = ast.unparse(node)
    f(node)
    ast.fix_missing_locations(tree)
    after = ast.unparse(node) if desc != 'drop' else 'pass'
    return ast.unparse(tree), '%s line %d: %s  ->  %s' % (desc, line, before.split('\n')[0][:120], after.split('\n')[0][:120])


def main():
    files, checks, num, seed, workers, out = sys.argv[1:7]
    rng = random.Random(int(seed))
    jobs = []
    for f in files.split(','):
        src = open('/repo/' + f).read()
        n = len(sites(ast.parse(src)))
        ks = list(range(n))
        rng.shuffle(ks)
        jobs += [(f, k) for k in ks]
    rng.shuffle(jobs)
    jobs = jobs[:int(num)]
    print('%d mutants' % len(jobs))
    workers = int(workers)
    pool = list(range(workers))
    for w in pool:
        d = '/tmp/mut/w%d_%d' % (os.getpid(), w)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git', '__pycache__'))

    def work(job):
        f, k = job
        src = open('/repo/' + f).read()
        new, desc = mutant(src, k)
        w = pool.pop()
        d = '/tmp/mut/w%d_%d' % (os.getpid(), w)
        try:
            open(os.path.join(d, f), 'w').write(new)
            env = dict(os.environ, VT_REPO=d, VT_CPUS=os.environ.get('MUT_CPUS') or str(max(1, 8 // workers)), VERIF_SEED='1', VT_NOSHRINK='1', VT_NOWRITE='1')
            verdict = 'survived'
            for c in checks.split(','):
                try:
                    r = subprocess.run([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'check'), c, 'quick'], env=env, capture_output=True, text=True, timeout=1500)
                except subprocess.TimeoutExpired:
                    verdict = 'timeout ' + c
                    break
                if r.returncode == 1:
                    verdict = 'killed ' + c
                    break
                if r.returncode != 0:
                    verdict = 'harness-error ' + c + ' ' + r.stdout[-300:] + r.stderr[-300:]
                    if 'cannot load' in r.stdout or 'Error' in r.stderr:
                        break
            with open(out, 'a') as g:
                g.write(json.dumps(dict(file=f, k=k, desc=desc, verdict=verdict)) + '\n')
            print(verdict[:60], '|', f.split('/')[-1], desc, flush=True)
        finally:
            open(os.path.join(d, f), 'w').write(src)
            pool.append(w)
    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, jobs))
    for w in range(workers):
        shutil.rmtree('/tmp/mut/w%d_%d' % (os.getpid(), w), ignore_errors=True)


if __name__ == '__main__':
    main()
