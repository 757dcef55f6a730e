#!/usr/bin/env python3
"""mt.py [-a] [-j N] [name-substring]: runs the checks against the edits of tools/mutants.py in scratch copies of /repo.

An edit is E(name, properties, (old, new)...) with '@file' switching the file; properties is the list of checks
expected to raise an alarm (empty: behaviour is kept, every check has to be quiet).  Without -a only the expected
checks run for a breaking edit; for a keeping edit every check runs.  Not part of any registered check."""
import os, shutil, subprocess, sys, tempfile, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
M = []


def E(name, props, *pairs):
    M.append((name, props.split(), pairs))


def apply(d, pairs):
    f = 'graph.py'
    for p in pairs:
        if isinstance(p, str):
            f = p
            continue
        path = os.path.join(d, 'src/gimpy', f)
        s = open(path).read()
        n = s.count(p[0])
        k = p[2] if len(p) > 2 else None
        if n == 0 or (n > 1 and k is None):
            return 'pattern found %d times: %r' % (n, p[0][:60])
        if k is None or k == 'all':
            s = s.replace(p[0], p[1])
        else:
            parts = s.split(p[0])
            s = p[0].join(parts[:k + 1]) + p[1] + p[0].join(parts[k + 1:])
        compile(s, path, 'exec')
        open(path, 'w').write(s)
    return None


def main():
    import mutants  # noqa
    allp = '-a' in sys.argv
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    sub = args[0] if args else ''
    only = args[1].split(',') if len(args) > 1 else None
    checks = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'sa/rules')) if f.startswith('c') and f[1:3].isdigit())
    bad = 0
    for name, props, pairs in M:
        if sub and sub not in name:
            continue
        d = tempfile.mkdtemp(prefix='mt-')
        try:
            shutil.copytree('/repo/src', d + '/src')
            e = apply(d, pairs)
            if e:
                print('%-40s CANNOT APPLY %s' % (name, e))
                bad += 1
                continue
            run = [p for p in (checks if allp or not props else props) if p in checks]
            if only:
                run = [p for p in run if p in only]
            env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d)
            out = {}
            for p in run:
                r = subprocess.run([sys.executable, V + '/check.py', p], env=env, capture_output=True, text=True)
                out[p] = (r.returncode, r.stdout)
            alarms = [p for p in run if out[p][0] == 1]
            other = [p for p in run if out[p][0] not in (0, 1)]
            miss = [p for p in props if p in run and p not in alarms]
            extra = [] if props else alarms
            st = 'ok' if not miss and not extra and not other else 'MISS' if miss else 'ALARM'
            print('%-40s %-6s alarms=%s missed=%s broken=%s' % (name, st, ','.join(alarms), ','.join(miss), ','.join(other)), flush=True)
            for p in (alarms if st == 'ALARM' or '-v' in sys.argv else []) + other:
                print('\n'.join('      ' + l for l in out[p][1].splitlines() if not l.startswith('VIOL')))
            bad += st != 'ok'
        finally:
            shutil.rmtree(d)
    print('%d not as expected' % bad)


if __name__ == '__main__':
    sys.modules['mt'] = sys.modules['__main__']
    main()
