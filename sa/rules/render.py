"""Exploration of the rendering operations with the ways their external calls can fail."""
from .base import *

ENTRIES = ('create', 'write', 'display')
OPQ = ('to_string', 'get_node', 'get_layout', 'set_layout', 'set_attr', 'get_node_list', 'get_edge_list')
LAUNCH = ('run', 'Popen', 'call', 'check_output', 'check_call', 'getoutput', 'getstatusoutput')
KEEP = ('call', 'ecall', 'mut', 'set', 'setf', 'fault', 'raise', 'caught', 'print', 'bcall', 'enter', 'exit')


def faults(name, base, it, st, args=(), kw=()):
    """the failures of Graphviz and of opening the image"""
    kw = dict(kw)
    if name.startswith('subprocess.') and name.split('.')[-1] in LAUNCH:
        r = ('FileNotFoundError', 'PermissionError')
        if name.split('.')[-1] in ('check_output', 'check_call') or kw.get('check') == C(True):
            r += ('CalledProcessError',)
        return r
    if name == 'check_returncode':
        return ('CalledProcessError',)
    if name.startswith('PIL.') and name.endswith('.open'):
        return ('UnidentifiedImageError',)
    return ()


def paths(prog, res, meth):
    """[(state, outcome, events)] of a rendering operation"""
    if prog.method('Graph', meth) is None:
        res.note(f'Graph.{meth} not found')
        return None, []
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, merge=False,
                keep=lambda ev: ev[0] in KEEP, opaque=composed(OPQ), ext_raises=True, ext_exc=faults)
    if r is None:
        return None, []
    it, outs = r
    return it, [(st, o, list(st.events())) for st, o in outs]


def last(name):
    return str(name).split('.')[-1]


def launched(ev):
    """(argument list terms) of a call starting a process"""
    return ev[0] == 'ecall' and ev[2][0] == 'ext' and ev[2][1].startswith('subprocess.') and last(ev[3]) in LAUNCH


def strings(t):
    return [x[2] for x in subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == 'c' and x[1] == 'str']


def graphviz(ev):
    """does this call start Graphviz (a layout program chosen at run time, or one named outright)?"""
    if not launched(ev):
        return False
    t = ev[6]
    for x in subterms(t):
        if x[0] == 'c' and x[1] == 'str' and (x[2].startswith('-T') or x[2] in ('dot', 'neato', 'fdp', 'sfdp', 'twopi', 'circo')):
            return True
        if x == ('s', 'layout') or x[0] == 'r' and len(x) > 2 and x[2] == 'get_layout':
            return True
    return False
