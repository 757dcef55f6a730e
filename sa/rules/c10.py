"""C10: a failed Graphviz run is never passed off as a rendering."""
from .render import *

ID = 'C10'
TECHNIQUE = 'must-precede analysis over every path with the failures of external calls injected'
RULE = ('on a path on which Graphviz cannot be started a message is printed (or an exception leaves the operation), None is returned by create and '
        'nothing is written to the image file; on any other path that runs Graphviz, its success has been established (checked by the library, or by '
        'a test of its return code) before its output is returned or written and before the operation returns; only its standard output is passed on')
EXPLANATION = ('create, write and display are interpreted abstractly with the operations they call inlined and the failures of starting Graphviz and '
               'of its exit status injected; the conditions established on each path are compared with what it returns and writes.')
MINIMUM = {'paths': 4, 'graphviz_runs': 2}


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(a, x) for a in t)


def code_known(st, ret):
    """is the return code known to be zero: True, False, or None when it is mentioned in a way not understood"""
    rc = [('m', ret, 'returncode')]
    rc += [e[6] for e in st.events() if e[0] == 'ecall' and e[3] in ('wait', 'poll') and e[2] == ret]
    def is_rc(t):
        return t in rc or t[0] == 'm' and len(t) >= 3 and t[1] == ret and t[2] == 'returncode'
    odd = False
    for d, s in st.signs.items():
        if is_rc(d):
            if s == {0} or s == frozenset((0,)):
                return True
        elif any(has(d, x) for x in rc):
            c, m = lin_parts(d)
            if not (len(m) == 1 and is_rc(list(m)[0]) and set(s) == {-1, 1}):
                odd = True
    for k, v in st.facts.items():
        if k[0] == 'true' and is_rc(k[1]):
            if v is False:
                return True
        elif k[0] not in ('none', 'true', 'inst') and any(has(k, x) for x in rc):
            odd = True
    return None if odd else False


def told(ev, i):
    for e in ev[i:]:
        if e[0] == 'print':
            return True
        if e[0] == 'ecall':
            n = last(e[3])
            if n in ('warn', 'error', 'warning', 'critical', 'exception', 'print_exc', 'info'):
                return True
            if n == 'write' and (e[2] == ('ext', 'sys.stderr') or e[2] == ('ext', 'sys.stdout')):
                return True
    return False


def succeeded(st, ev, i):
    """is the run started by event i known to have succeeded"""
    e = ev[i]
    ret, kw = e[6], dict(e[5])
    if last(e[3]) in ('check_output', 'check_call') or kw.get('check') == C(True):
        return not any(f[0] == 'fault' and f[3] == 'CalledProcessError' for f in ev[i:])
    for j in range(i + 1, len(ev)):
        f = ev[j]
        if f[0] == 'ecall' and f[3] == 'check_returncode' and f[2] == ret:
            nxt = ev[j + 1] if j + 1 < len(ev) else None
            if not (nxt is not None and nxt[0] == 'fault' and nxt[2] == 'check_returncode'):
                return True
            return False
    if last(e[3]) == 'call':
        for d, s in st.signs.items():
            if d == ret and set(s) == {0}:
                return True
    return code_known(st, ret)


def run(prog, res, meth):
    it, outs = paths(prog, res, meth)
    for st, o, ev in outs:
        res.count('paths')
        runs = [i for i, e in enumerate(ev) if graphviz(e)]
        for i in runs:
            e = ev[i]
            res.count('graphviz_runs')
            ret = e[6]
            n = ev[i + 1] if i + 1 < len(ev) else None
            later = ev[i + 1:]
            writes = [f for f in later if f[0] == 'ecall' and last(f[3]) in ('write', 'writelines') and not (
                f[2][0] == 'ext' and f[2][1].startswith('sys.')) and not any(
                isinstance(t, tuple) and t[:3] == ('r', 'op', 'to_string') for a in f[4] for t in subterms(a))]
            if n is not None and n[0] == 'fault' and n[2].startswith('subprocess.') and n[3] != 'CalledProcessError':
                # could not be started
                again = any(graphviz(f) for f in later)
                if again:
                    continue
                if o[0] == 'return' and not told(ev, i + 1):
                    res.find('told', e[1], 'start', f'Graph.{meth}: when Graphviz cannot be started ({n[3]}) the operation returns without telling the user')
                if o[0] == 'return' and meth == 'create' and o[1] != NONE:
                    res.find('none', e[1], 'start', f'Graph.{meth}: when Graphviz cannot be started {norm(o[1])} is returned as image data')
                for f in writes:
                    res.find('written', f[1], 'write', f'Graph.{meth}: when Graphviz cannot be started something is still written to the image file '
                             f'(line {f[1][1]})')
                continue
            ok = succeeded(st, ev, i)
            if ok is None:
                res.note(f'{meth}: the test of the return code is not understood')
                continue
            if not ok:
                if o[0] == 'return':
                    res.find('unchecked', e[1], 'status', f'Graph.{meth}: a path returns normally although the Graphviz run at line {e[1][1]} is not '
                             f'known to have succeeded')
                for f in writes:
                    res.find('unchecked', f[1], 'write', f'Graph.{meth}: line {f[1][1]} writes to the image file although the Graphviz run is not '
                             f'known to have succeeded')
                continue
            # order: the check comes before the data is written
            chk = next((j for j in range(i + 1, len(ev)) if ev[j][0] == 'ecall' and ev[j][3] == 'check_returncode' and ev[j][2] == ret), None)
            if chk is not None:
                for f in ev[i + 1:chk]:
                    if f in writes:
                        res.find('order', f[1], 'write', f'Graph.{meth}: line {f[1][1]} writes the output of Graphviz before checking that it succeeded')
            kw = dict(e[5])
            if kw.get('stderr') == ('ext', 'subprocess.STDOUT'):
                res.find('stream', e[1], 'stderr', f'Graph.{meth}: the diagnostics of Graphviz are mixed into the image data')
            data = [f[4][0] for f in writes if f[4]] + ([o[1]] if o[0] == 'return' and meth == 'create' else [])
            for d in data:
                if d == ('m', ret, 'stderr'):
                    res.find('stream', e[1], 'stderr', f'Graph.{meth}: the diagnostics of Graphviz are passed on as image data')


def jobs(prog, tier):
    for m in ENTRIES:
        yield m, run, (m,)
