#!/usr/bin/env python3
"""mkseed.py [name...]: (re)creates /verif/seeded/<name>/ from tools/seeds.py: patch.diff against /repo's HEAD, demo.sh, demo.py, meta.json;
and confirms in a scratch copy that the demo passes without the patch and fails with it.  -t also runs the test suite."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import mt
S = {}


def seed(name, prop, needs, breaks, edits, demo):
    S[name] = (prop, needs, breaks, edits, demo)


SH = '''#!/bin/bash
# exit 0: the property holds on what the demonstration does
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
PY=$(command -v python3)
export PYTHONPATH="$PWD/src:$PYTHONPATH" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 120 "$PY" "$d/demo.py"
'''


def run(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True)


def main():
    sys.modules['mkseed'] = sys.modules['__main__']
    import seeds  # noqa
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or list(S)
    base = set()
    for n in names:
        prop, needs, breaks, edits, demo = S[n]
        out = os.path.join(V, 'seeded', n)
        os.makedirs(out, exist_ok=True)
        d = tempfile.mkdtemp(prefix='seed-')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
            r = d + '/r'
            open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
            open(out + '/demo.sh', 'w').write(SH)
            os.chmod(out + '/demo.sh', 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
            a = run(['bash', out + '/demo.sh'], r)
            e = mt.apply(r, edits)
            if e:
                print(n, 'CANNOT APPLY', e)
                continue
            diff = subprocess.check_output(['git', 'diff'], cwd=r, text=True)
            open(out + '/patch.diff', 'w').write(diff)
            b = run(['bash', out + '/demo.sh'], r)
            # lines removed have to be original
            notorig = []
            for l in subprocess.check_output(['git', 'diff', '-U0'], cwd=r, text=True).splitlines():
                pass
            orig = {}
            for f in ('graph.py', 'tree.py', 'global_constants.py'):
                orig[f] = set(subprocess.check_output(['git', 'show', '09cdde2:src/gimpy/' + f], cwd=r, text=True).splitlines())
            allo = set().union(*orig.values())
            rem = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            notorig = [l for l in rem if l not in allo]
            print(n, 'ok' if a.returncode == 0 and b.returncode != 0 else 'BAD', 'unchanged=%d patched=%d' % (a.returncode, b.returncode),
                  (a.stdout + a.stderr)[-300:] if a.returncode else '', 'NOT-ORIGINAL %r' % notorig if notorig or not rem else '')
            if '-v' in sys.argv:
                print(b.stdout, b.stderr[-400:])
            if '-t' in sys.argv:
                pass
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
