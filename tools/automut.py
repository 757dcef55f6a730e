#!/usr/bin/env python3
"""automut.py COUNT SEED [function-substring]: random small changes of one function each (an operator, an operand, a constant, a
statement), run through every check that looks at the function.  Prints the changes no check reports: each is either
without effect, outside the properties, or a gap to close.  Not part of any registered check."""
import ast, copy, difflib, importlib, multiprocessing as mp, os, pickle, random, shutil, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from sa import driver, entries
from sa.model import Program
SRC = '/repo/src/gimpy/'
CMP = {ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def options(fn):
    """closures that change a copy of fn in place; each takes the node list position"""
    out = []
    nodes = list(ast.walk(fn))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args} - {'self'})
    strs = sorted({n.slice.value for n in nodes if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str)})
    doc = fn.body[0] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else None
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for c in CMP.get(type(n.ops[0]), []):
                out.append((i, 'cmp', c))
        if isinstance(n, ast.BoolOp):
            out.append((i, 'bool', None))
            for k in range(len(n.values)):
                out.append((i, 'drop', k))
        if isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, ast.Compare):
            out.append((i, 'neg', None))
        if isinstance(n, ast.If) and n.orelse:
            out.append((i, 'noelse', None))
        if isinstance(n, ast.Constant) and not (doc and n is doc.value):
            if n.value is True or n.value is False:
                out.append((i, 'const', not n.value))
            elif isinstance(n.value, int):
                out.append((i, 'const', n.value + 1))
                if n.value:
                    out.append((i, 'const', n.value - 1))
            elif n.value is None:
                out.append((i, 'const', 0))
            elif isinstance(n.value, str) and n.value in strs and len(strs) > 1:
                out.append((i, 'const', strs[(strs.index(n.value) + 1) % len(strs)]))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((i, 'bin', None))
        if isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
            out.append((i, 'bin', None))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, 'swap', None))
        if isinstance(n, ast.Tuple) and len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            out.append((i, 'swapt', None))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and len(names) > 1:
            for o in names:
                if o != n.id:
                    out.append((i, 'name', o))
        if isinstance(n, (ast.Break, ast.Continue)):
            out.append((i, 'pass', None))
        for f in ('body', 'orelse'):
            l = getattr(n, f, None)
            if isinstance(l, list):
                for k, s in enumerate(l):
                    if s is not doc and isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.If, ast.For, ast.Delete)) and not (
                            isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)):
                        out.append((i, 'del' + f, k))
                    if k and isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign)) and isinstance(l[k - 1], (ast.Expr, ast.AugAssign, ast.Assign)):
                        out.append((i, 'ord' + f, k))
    return out


def change(fn, o):
    fn = copy.deepcopy(fn)
    i, k, x = o
    n = list(ast.walk(fn))[i]
    if k == 'cmp':
        n.ops[0] = x()
    elif k == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == 'drop':
        if len(n.values) > 1:
            del n.values[x]
    elif k == 'neg':
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif k == 'noelse':
        n.orelse = []
    elif k == 'const':
        n.value = x
    elif k == 'bin':
        n.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add()
    elif k == 'swap':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif k == 'swapt':
        n.elts.reverse()
    elif k == 'name':
        n.id = x
    elif k == 'pass':
        for m in ast.walk(fn):
            for f in ('body', 'orelse'):
                l = getattr(m, f, None)
                if isinstance(l, list):
                    for j, s in enumerate(l):
                        if s is n:
                            l[j] = ast.Pass()
    elif k.startswith('del'):
        l = getattr(n, k[3:])
        l[x] = ast.Pass()
    elif k.startswith('ord'):
        l = getattr(n, k[3:])
        l[x - 1], l[x] = l[x], l[x - 1]
    return fn


RULES = [importlib.import_module('sa.rules.' + f[:-3]) for f in sorted(os.listdir(V + '/sa/rules')) if f[0] == 'c' and f[1:3].isdigit()]
SKIP = ('set_layout', 'display', 'create', 'simplex_mark_leaving_arc', 'simplex_mark_entering_arc', 'simplex_mark_st_arcs', 'simplex_redraw', 'set_display_mode', 'random')


def jobs(prog):
    out = []
    for m in RULES:
        for j in m.jobs(prog, 'quick'):
            out.append((m.ID, j[0], j[1], j[2], 100))
    return out


def work(i):
    j = J[i]
    r = driver._worker(j[1:])
    r.pid = j[0]
    r.samples = []
    return r


def run(prog, todo, known):
    """the first unlisted alarm"""
    global J
    driver._P['prog'] = prog
    J = todo
    pool = mp.get_context('fork').Pool(int(os.environ.get('NP', '7')), maxtasksperchild=25)
    try:
        for r in pool.imap_unordered(work, range(len(todo)), chunksize=1):
            for f in r.findings:
                if (r.pid, f['rule'], f['func'], f['construct']) not in known:
                    return r.pid + ':' + f['rule']
    finally:
        pool.terminate()
        pool.join()
    return None


def main():
    count, seed = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    rnd = random.Random(seed)
    cover = pickle.load(open('/tmp/sweep-base.pickle', 'rb'))
    known = {(p, x['rule'], x['func'], x['construct']) for p in [m.ID for m in RULES] for x in driver.known_findings(p)}
    cand = []
    for path in ('graph.py', 'tree.py', 'global_constants.py'):
        t = ast.parse(open(SRC + path).read())
        fs = [(c.name + '.', f) for c in t.body if isinstance(c, ast.ClassDef) for f in c.body if isinstance(f, ast.FunctionDef)] + \
            [('', f) for f in t.body if isinstance(f, ast.FunctionDef)]
        for c, f in fs:
            if f.name in SKIP or sub not in c + f.name:
                continue
            os_ = options(f)
            byk = {}
            for o in os_:
                byk.setdefault(o[1], []).append(o)
            # not too many of one kind
            for k, l in byk.items():
                rnd.shuffle(l)
                cand += [(path, c + f.name, f, o) for o in l[:4 if k == 'name' else 8]]
    rnd.shuffle(cand)
    print(len(cand), 'candidates', flush=True)
    n = und = 0
    for path, name, f, o in cand:
        if n >= count:
            break
        g = change(f, o)
        ast.fix_missing_locations(g)
        a, b = ast.unparse(f).split('\n'), ast.unparse(g).split('\n')
        if a == b:
            continue
        n += 1
        d = tempfile.mkdtemp(prefix='am-')
        try:
            shutil.copytree('/repo/src', d + '/src')
            p = d + '/src/gimpy/' + path
            lines = open(p).read().split('\n')
            new = ast.unparse(g).split('\n')
            ind = '    ' if '.' in name else ''
            first = min([f.lineno] + [x.lineno for x in f.decorator_list])
            lines[first - 1:f.end_lineno] = [ind + x if x else x for x in new]
            open(p, 'w').write('\n'.join(lines))
            t = time.time()
            try:
                prog = Program(d + '/src/gimpy')
                short = f.name
                todo = [j for j in jobs(prog) if '.' not in name and j[0] in ('C11', 'C12', 'C20') or (j[0], j[1]) not in cover or not cover[(j[0], j[1])][0]
                        or any(short in q.replace('<', '.').split('.') for q in cover[(j[0], j[1])][0])]
                todo.sort(key=lambda j: cover.get((j[0], j[1]), (0, 0))[1])
                r = run(prog, todo, known)
            except Exception as e:
                r = 'ERR %r' % e
            dl = [x for x in difflib.unified_diff(a, b, lineterm='', n=0) if x[:2] not in ('--', '++', '@@')]
            print('%-9s %-40s %-6s %3.0fs %s' % ('' if r else 'SURVIVES', name, o[1], time.time() - t, r or ''), flush=True)
            if not r:
                und += 1
                for x in dl[:8]:
                    print('        ', x[:200], flush=True)
        finally:
            shutil.rmtree(d)
    print('%d of %d not reported' % (und, n))


main()
