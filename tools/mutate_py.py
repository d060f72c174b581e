#!/usr/bin/env python3
"""The same as mutate.py for the Python binding: mutates the syntax tree of a module and runs a part of the workload of P24.

usage: mutate_py.py MODULE... [--cases N] [--slots N] [--out FILE]     (run check.py P24 before, which builds the package)
"""
import sys, os, ast, copy, shutil, subprocess, argparse, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
ap = argparse.ArgumentParser(); ap.add_argument('modules', nargs='+'); ap.add_argument('--cases', type=int, default=150); ap.add_argument('--slots', type=int, default=4); ap.add_argument('--out', default='/tmp/mut/py.out'); a = ap.parse_args()
import check
top = check.build_python(); env = check.job_environment(dict(script='python.py')); py = check.python_with_numpy()

def variants(tree):
    """Pairs of a line and a changed copy of the tree."""
    for node in ast.walk(tree):
        for field, value in ast.iter_fields(node):
            if isinstance(value, list) and value and all(isinstance(x, ast.stmt) for x in value):
                for i, s in enumerate(value):
                    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass): continue
                    old = value[i]; value[i] = ast.copy_location(ast.Pass(), old); yield old.lineno, 'drop: ' + ast.unparse(old).split('\n')[0]; value[i] = old
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            old = node.ops[0]
            swap = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for n in swap.get(type(old), []): node.ops[0] = n(); yield node.lineno, 'op: ' + ast.unparse(node); node.ops[0] = old
        if isinstance(node, ast.BoolOp):
            old = node.op; node.op = ast.Or() if isinstance(old, ast.And) else ast.And(); yield node.lineno, 'bool: ' + ast.unparse(node); node.op = old
        if isinstance(node, ast.BinOp):
            swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}; old = node.op
            if type(old) in swap: node.op = swap[type(old)](); yield node.lineno, 'bin: ' + ast.unparse(node); node.op = old
        if isinstance(node, ast.Constant) and not (isinstance(node.value, str) and len(node.value) > 40):
            old = node.value; new = [old + 1, old - 1] if type(old) is int else [not old] if type(old) is bool else [old + 'x'] if isinstance(old, str) else [0] if old is None else []
            for n in new: node.value = n; yield node.lineno, 'const: %r for %r' % (n, old); node.value = old
        if isinstance(node, ast.If) or isinstance(node, ast.IfExp) or isinstance(node, ast.While):
            old = node.test; node.test = ast.copy_location(ast.UnaryOp(ast.Not(), old), old); yield node.lineno, 'not: ' + ast.unparse(old); node.test = old
        if isinstance(node, ast.Call):
            for i, x in enumerate(node.args):
                if i + 1 < len(node.args): node.args[i], node.args[i + 1] = node.args[i + 1], x; yield node.lineno, 'swap: ' + ast.unparse(node)[:100]; node.args[i], node.args[i + 1] = x, node.args[i]

jobs = queue.Queue(); n = 0
for m in a.modules:
    tree = ast.parse(open(os.path.join(top, 'trax', m)).read()); seen = set()
    for line, what in variants(tree):
        ast.fix_missing_locations(tree); text = ast.unparse(tree)
        if text not in seen: seen.add(text); jobs.put((m, line, what, text)); n += 1
print(n, 'changes'); sys.stdout.flush()
lock = threading.Lock(); count = {}; out = open(a.out, 'w')
def slot(k):
    d = '/tmp/mut/py%d' % k; shutil.rmtree(d, ignore_errors=True); shutil.copytree(top, d)
    while True:
        try: m, line, what, text = jobs.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, 'trax', m); old = open(p).read(); open(p, 'w').write(text); e = dict(env, PYTHONPATH=d)
        try: r = subprocess.run([py, os.path.join(HERE, 'harness/python.py'), '--seed', '1', '--from', '0', '--to', str(a.cases)], env=dict(e, TMPDIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240, cwd=d).returncode; res = 'killed' if r else 'SURVIVED'
        except subprocess.TimeoutExpired: res = 'timeout'
        open(p, 'w').write(old)
        with lock: count[res] = count.get(res, 0) + 1; out.write('%s\t%s\t%d\t%s\n' % (res, m, line, what)); out.flush()
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=slot, args=(k,)) for k in range(a.slots)]; [t.start() for t in ts]; [t.join() for t in ts]
print(count)
