"""Development aid: python3 tools/mutate.py WORK FILE N SEED CHECK...
Mutates FILE (under WORK/repo/py_gnome) N times, runs the checks of WORK/verif on each (fail fast) and logs the survivors to WORK/log.jsonl.
WORK holds copies of /repo and /verif; run it as an unprivileged user, since mutants may delete files."""
import ast, json, os, random, subprocess, sys, time

work, fname, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
checks = sys.argv[5:]
path = os.path.join(work, 'repo/py_gnome', fname)
src = open(path, encoding='utf8').read()
lines = src.split('\n')
off = [0]
for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
b = src.encode()
pos = lambda l, c: off[l - 1] + c
span = lambda nd: (pos(nd.lineno, nd.col_offset), pos(nd.end_lineno, nd.end_col_offset))
muts = []
tree = ast.parse(src)
seg = lambda nd: b[slice(*span(nd))].decode()
SW = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BO = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}
skip = ('__repr__', '__str__', 'logger', 'log')


def visit(nd, infn, infunc_name=''):
    for ch in ast.iter_child_nodes(nd):
        f = infn
        name = infunc_name
        if isinstance(ch, (ast.FunctionDef,)):
            if ch.name in skip:
                continue
            f, name = True, ch.name
        if f:
            consider(ch, name)
        visit(ch, f, name)


def add(nd, new, name, what):
    muts.append((span(nd), new, name, what, nd.lineno))


def consider(nd, name):
    if isinstance(nd, ast.Compare) and len(nd.ops) == 1 and type(nd.ops[0]) in SW:
        add(nd, '(%s) %s (%s)' % (seg(nd.left), SW[type(nd.ops[0])], seg(nd.comparators[0])), name, 'compare')
    elif isinstance(nd, ast.BinOp) and type(nd.op) in BO and not (isinstance(nd.left, ast.Constant) and isinstance(nd.left.value, str)):
        add(nd, '(%s) %s (%s)' % (seg(nd.left), BO[type(nd.op)], seg(nd.right)), name, 'arith')
    elif isinstance(nd, ast.BoolOp):
        op = ' or ' if isinstance(nd.op, ast.And) else ' and '
        add(nd, '(' + op.join('(%s)' % seg(v) for v in nd.values) + ')', name, 'bool')
    elif isinstance(nd, ast.Constant) and isinstance(nd.value, bool):
        add(nd, str(not nd.value), name, 'flag')
    elif isinstance(nd, ast.Constant) and isinstance(nd.value, int):
        add(nd, str(nd.value + 1), name, 'const')
    elif isinstance(nd, ast.Constant) and isinstance(nd.value, float):
        add(nd, repr(nd.value * 1.1 + (nd.value == 0)), name, 'const')
    elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.Not):
        add(nd, '(%s)' % seg(nd.operand), name, 'not')
    elif isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.USub) and not isinstance(nd.operand, ast.Constant):
        add(nd, '(%s)' % seg(nd.operand), name, 'neg')
    elif isinstance(nd, (ast.Expr,)) and isinstance(nd.value, ast.Call):
        if 'log' in seg(nd)[:30] or 'warn' in seg(nd)[:30] or 'msg' in seg(nd)[:30]:
            return
        add(nd, 'pass', name, 'drop')
    elif isinstance(nd, (ast.Assign, ast.AugAssign)):
        if 'msg' in seg(nd)[:20]:
            return
        add(nd, 'pass', name, 'drop')
    elif isinstance(nd, ast.If) and not isinstance(nd.test, (ast.Compare, ast.UnaryOp, ast.BoolOp)):
        add(nd.test, 'not (%s)' % seg(nd.test), name, 'if')


visit(tree, False)
random.Random(seed).shuffle(muts)
env = dict(os.environ, VERIF_REPO=os.path.join(work, 'repo'), VERIF_FAILFAST='1', VERIF_CAP='150', PYTHONDONTWRITEBYTECODE='1')
done = 0
try:
    for (a, e), new, name, what, line in muts:
        if done >= n:
            break
        m = b[:a] + new.encode() + b[e:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        open(path, 'wb').write(m)
        done += 1
        t = time.time()
        by = None
        for c in checks:
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'vp.run', c, 'quick'], cwd=os.path.join(work, 'verif'), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=240)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc != 0:
                by = '%s(%s)' % (c, rc)
                break
        rec = dict(file=fname, line=line, fn=name, what=what, old=b[a:e].decode()[:120], new=new[:120], by=by, s=round(time.time() - t))
        with open(os.path.join(work, 'log.jsonl'), 'a') as f:
            f.write(json.dumps(rec) + '\n')
finally:
    open(path, 'wb').write(b)
