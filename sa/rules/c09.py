"""C09: temporary files are closed and removed on every exit."""
from .render import *

ID = 'C09'
TECHNIQUE = 'resource typestate (acquired, closed, removed) over every path with the failures of external calls injected'
RULE = ('on every path through a rendering operation, including those on which starting Graphviz, its exit status or opening the image fails, each '
        'temporary file or directory the path creates has been removed, and each descriptor or file object opened on it closed, when the path ends')
EXPLANATION = ('create, write and display are interpreted abstractly with the operations they call inlined and with the failures of the external calls '
               'injected; for each exit the calls that made temporary files are matched with the calls that close and remove them.')
MINIMUM = {'paths': 4}

# calls that do not take over a name or descriptor given to them
HARMLESS = ('run', 'Popen', 'call', 'check_output', 'check_call', 'open', 'exists', 'isfile', 'basename', 'join', 'write', 'fdopen', 'stat',
            'getsize', 'fsync', 'fspath', 'print', 'Path', 'split', 'splitext', 'abspath', 'close', 'remove', 'unlink', 'rmtree', 'imread',
            'communicate', 'chmod', 'register', 'seek', 'tell', 'read', 'flush', 'show', 'lseek', 'dirname')
REMOVE = ('os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir', 'os.removedirs')


def made(ev):
    """[(kind, what it is known by, descriptor, context manager value)]"""
    if ev[0] != 'ecall' or ev[2][0] != 'ext' or not ev[2][1].startswith('tempfile.'):
        return None
    n, ret, kw = last(ev[2][1]), ev[6], dict(ev[5])
    if n == 'mkstemp':
        return ('mkstemp', ('r', 'tmpname', ret), ('r', 'fd', ret), None)
    if n == 'mkdtemp':
        return ('mkdtemp', ret, None, None)
    if n == 'mktemp':
        return ('mktemp', ret, None, None)
    if n in ('NamedTemporaryFile', 'TemporaryFile', 'SpooledTemporaryFile'):
        d = kw.get('delete', C(True))
        if d == C(True):
            return ('object', None, None, ret)
        if d == C(False):
            return ('kept', ('m', ret, 'name'), None, ret)
        return ('?', None, None, None)
    if n == 'TemporaryDirectory':
        return ('object', None, None, ret)
    if n in ('gettempdir', 'gettempprefix', 'tempdir'):
        return None
    return ('?', None, None, None)


def has(t, x):
    return t == x or isinstance(t, tuple) and any(has(a, x) for a in t)


class Life:
    def __init__(self, st, ev):
        self.st, self.ev = st, ev

    def stands_for(self, v, x):
        """is v the value x, or an object built from it (a Path, a wrapper that closes it)"""
        if v == x:
            return True
        if v[0] == 'o':
            ob = self.st.objs.get(v[1])
            return ob is not None and str(ob.kind).startswith('ext:') and has(getattr(ob, 'extra', ()) or (), x)
        if v[0] == 'r' and v[1] == 'ext' and v[2] in ('contextlib.closing', 'os.fspath', 'io.BufferedWriter', 'io.TextIOWrapper'):
            return any(isinstance(a, tuple) and a and self.stands_for(a, x) for a in v[3:])
        if v[0] in ('pf',) and v[1] == 'str' and len(v) == 3:
            return self.stands_for(v[2], x)
        return False

    def closed(self, v):
        for e in self.ev:
            if e[0] == 'exit' and self.stands_for(e[2], v):
                return True
            if e[0] == 'ecall' and e[3] == 'close' and self.stands_for(e[2], v):
                return True
            if e[0] == 'ecall' and e[2] == ('ext', 'os.close') and e[4] and e[4][0] == v:
                return True
            if e[0] == 'ecall' and e[3] == 'cleanup' and self.stands_for(e[2], v):
                return True
        return False

    def removed(self, name):
        for e in self.ev:
            if e[0] != 'ecall':
                continue
            if e[2][0] == 'ext' and e[2][1] in REMOVE and e[4] and self.stands_for(e[4][0], name):
                return True
            if e[3] in ('unlink', 'rmdir') and self.stands_for(e[2], name):
                return True
        for t, b in ((k[1], v) for k, v in self.st.facts.items() if k[0] == 'true' and k[1:]):
            if b is False and t[0] == 'r' and t[1] == 'ext' and t[2] in ('os.path.exists', 'os.path.isfile') and name in t[3:]:
                return True
        return False

    def unknown(self, x, made_by):
        """x was handed to code that is not known, which may close or remove it"""
        for e in self.ev:
            if e[0] == 'ecall' and e[6] != made_by:
                if any(has(a, x) for a in e[4]) or any(has(a, x) for _, a in e[5]):
                    if last(e[3]) not in HARMLESS and not (e[2][0] == 'ext' and e[2][1].startswith(('subprocess.', 'PIL.', 'os.path.', 'matplotlib.'))):
                        return True
            if e[0] == 'call' and any(has(a, x) for a in e[4]):
                return True
        return False

    def opened(self, name, fd):
        """file objects opened on the temporary file: (value, descriptor it takes over)"""
        for e in self.ev:
            if e[0] != 'ecall':
                continue
            if e[2][0] == 'ext' and e[2][1] in ('os.fdopen', 'open', 'io.open') and e[4]:
                if fd is not None and e[4][0] == fd:
                    yield e[6], fd
                elif name is not None and self.stands_for(e[4][0], name):
                    yield e[6], None
            elif e[3] == 'open' and name is not None and self.stands_for(e[2], name):
                yield e[6], None
            elif e[2] == ('ext', 'os.open') and e[4] and name is not None and e[4][0] == name:
                yield e[6], None


def how(o, ev):
    f = [e for e in ev if e[0] == 'fault']
    if f:
        return f'after {f[-1][2]} fails with {f[-1][3]}'
    return 'on a normal return' if o[0] == 'return' else f'on a path that raises {o[1]}'


def run(prog, res, meth):
    it, outs = paths(prog, res, meth)
    for st, o, ev in outs:
        res.count('paths')
        for e in ev:
            m = made(e)
            if m is None:
                continue
            res.count('resources')
            kind, name, fd, cm = m
            L = Life(st, ev)
            if kind == '?':
                res.note(f'{meth}: temporary file made in an unknown way at line {e[1][1]}')
                continue
            w = how(o, ev)
            if kind == 'object':
                if not L.closed(cm) and not L.unknown(cm, e[6]):
                    res.find('open', e[1], last(e[2][1]), f'Graph.{meth}: the temporary file made at line {e[1][1]} is not closed {w}')
                continue
            if name is not None and not L.removed(name):
                if L.unknown(name, e[6]):
                    res.note(f'{meth}: temporary file handed to unknown code')
                elif kind != 'mktemp' or list(L.opened(name, None)):
                    res.find('left', e[1], last(e[2][1]), f'Graph.{meth}: the temporary file made at line {e[1][1]} is left behind {w}')
            handles = list(L.opened(name, fd))
            if kind == 'kept':
                handles.append((cm, None))
            if fd is not None and not any(d == fd for _, d in handles) and not L.closed(fd):
                if not L.unknown(fd, e[6]):
                    res.find('open', e[1], last(e[2][1]), f'Graph.{meth}: the descriptor of the temporary file made at line {e[1][1]} is not closed {w}')
            for h, d in handles:
                if L.closed(h) or d is not None and L.closed(d):
                    continue
                if not L.unknown(h, e[6]):
                    res.find('open', e[1], last(e[2][1]), f'Graph.{meth}: the file opened on the temporary file made at line {e[1][1]} is not closed {w}')


def jobs(prog, tier):
    for m in ENTRIES:
        yield m, run, (m,)
