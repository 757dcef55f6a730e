#!/usr/bin/env python3
"""sweep.py [substring]: every check against every edit of tools/mutants.py (and tools/refactors.py), running only the jobs that look at a changed function.
Reports alarms on keeping edits and breaking edits no expected check reports.  Not part of any registered check."""
import ast, importlib, multiprocessing as mp, os, pickle, shutil, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import mt
sys.modules['mt'] = mt
import mutants  # noqa
try:
    import refactors  # noqa
except ImportError:
    pass
from sa import driver
from sa.model import Program

RULES = [importlib.import_module('sa.rules.' + f[:-3]) for f in sorted(os.listdir(V + '/sa/rules')) if f[0] == 'c' and f[1:3].isdigit()]
BASE = '/tmp/sweep-base.pickle'


def jobs(prog):
    out = []
    for m in RULES:
        for j in m.jobs(prog, 'quick'):
            out.append((m.ID, j[0], j[1], j[2], j[3] if len(j) > 3 else 150))
    return out


def work(i):
    j = J[i]
    r = driver._worker(j[1:])
    r.pid = j[0]
    r.samples = []
    return r


def run(prog, todo):
    global J
    driver._P['prog'] = prog
    J = todo
    if not todo:
        return []
    with mp.get_context('fork').Pool(int(os.environ.get('NP', '7')), maxtasksperchild=25) as pool:
        return list(pool.imap_unordered(work, range(len(todo)), chunksize=1))


def dumps(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            t = ast.parse(open(os.path.join(d, f)).read())
            rest = []
            for n in t.body:
                if isinstance(n, ast.ClassDef):
                    for x in n.body:
                        if isinstance(x, ast.FunctionDef):
                            out[n.name + '.' + x.name] = ast.dump(x)
                        else:
                            rest.append(ast.dump(x))
                elif isinstance(n, ast.FunctionDef):
                    out[n.name] = ast.dump(n)
                else:
                    rest.append(ast.dump(n))
            out['<%s>' % f] = repr(rest)
    return out


def main():
    sub = sys.argv[1] if len(sys.argv) > 1 else ''
    base = Program('/repo/src/gimpy')
    bd = dumps('/repo/src/gimpy')
    known = {(p, x['rule'], x['func'], x['construct']) for p in [m.ID for m in RULES] for x in driver.known_findings(p)}
    if os.path.exists(BASE) and '-b' not in sys.argv:
        cover = pickle.load(open(BASE, 'rb'))
    else:
        t = time.time()
        rs = run(base, jobs(base))
        cover = {(r.pid, r.label): (r.funcs, r.wall, bool(r.n.get('jobs_decided'))) for r in rs}
        pickle.dump(cover, open(BASE, 'wb'))
        print('baseline', len(rs), 'jobs', round(time.time() - t), 's', [(r.pid, f['rule']) for r in rs for f in r.findings])
    bad = 0
    for name, props, pairs in mt.M:
        if sub.startswith('-') is False and sub not in name:
            continue
        d = tempfile.mkdtemp(prefix='sw-')
        try:
            shutil.copytree('/repo/src', d + '/src')
            e = mt.apply(d, pairs)
            if e:
                print('%-30s CANNOT APPLY %s' % (name, e), flush=True)
                bad += 1
                continue
            t = time.time()
            nd = dumps(d + '/src/gimpy')
            changed = {k for k in set(nd) | set(bd) if nd.get(k) != bd.get(k)}
            glob = any(c.startswith('<') for c in changed)
            shorts = {c.rsplit('.', 1)[-1] for c in changed}
            prog = Program(d + '/src/gimpy')
            todo = []
            for j in jobs(prog):
                c = cover.get((j[0], j[1]))
                if props and j[0] not in props:
                    continue
                if c is None or glob or not c[0] or any(f.rsplit('.', 1)[-1].split('<')[0] in shorts or f.split('.')[-2:][0] in shorts for f in c[0]):
                    todo.append(j)
            rs = run(prog, todo)
            al = {}
            und = [(r.pid, r.label, r.notes[:1]) for r in rs if not r.n.get('jobs_decided') and cover.get((r.pid, r.label), (0, 0, True))[2]]
            for r in rs:
                for f in r.findings:
                    if (r.pid, f['rule'], f['func'], f['construct']) not in known:
                        al.setdefault(r.pid, []).append(f)
            ok = (set(props) <= set(al)) if props else not al
            bad += not ok
            print('%-30s %-5s %d jobs %.0fs alarms=%s%s' % (name, 'ok' if ok else 'MISS' if props else 'ALARM', len(todo), time.time() - t,
                                                       ','.join(sorted(al)), ' undecided %d %s' % (len(und), str(und[0])[:150]) if und else ''), flush=True)
            if not ok and not props:
                for p, fs in al.items():
                    for f in fs[:3]:
                        print('      %s %s:%s %s [%s] %s' % (p, f['file'], f['line'], f['func'], f['rule'], f['msg'][:300]), flush=True)
        finally:
            shutil.rmtree(d)
    print('%d not as expected' % bad)


main()
