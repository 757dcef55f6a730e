"""Helpers shared by the rules."""
import re
from ..terms import *
from ..heap import CONTAINERS, DICTS, LIST_ELEM
from ..driver import explore, Result
from ..interp import Budget
from ..model import AnalysisBroken
from .. import entries as EN

SELF = ('s', 'self')
STRUCT_FIELDS = ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'out_neighbors')
MUTATORS = ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault',
            'popitem', 'add', 'discard', 'difference_update', 'intersection_update', 'appendleft', 'popleft')


def root(t, it=None, st=None):
    """the object a location belongs to: ('s',p) parameter, ('o',id) fresh, ('g',...) shared, or ('?',)"""
    n = 0
    while n < 50:
        n += 1
        h = t[0]
        if h in ('f', 'i'):
            t = t[1]
            continue
        if h in ('s', 'o', 'g'):
            return t
        if h == 'el':
            s = t[2]
            while s[0] in ('sorted', 'rev', 'slice'):
                s = s[1]
            if s[0] in ('values', 'items', 'elems') and s[1][0] in ('f', 'i'):
                t = s[1]
                continue
            return ('?',)
        if h == 'r' and len(t) > 2 and t[1] == 'ext' and t[2] in ('get', 'setdefault') and len(t) > 3:
            t = t[3]
            continue
        return ('?',)
    return ('?',)


_num = re.compile(r"(el|phi|mu)\d+")
_obj = re.compile(r"<[^<>]*>")


def norm(t):
    """rendering of a term without analysis-internal numbers"""
    s = show(t) if isinstance(t, tuple) else str(t)
    s = re.sub(r"(el|phi|mu)\([^()]*?\)|(?<=el)\d+|(?<=phi)\d+", lambda m: m.group(0) if m.group(1) else '', s)
    return _obj.sub('<new>', s)[:160]


def walk_path(events):
    """events of a path; of a loop body only what the completed iterations did (an iteration that leaves the loop
    is logged after the loop itself)"""
    for e in events:
        if e[0] in ('loop', 'loopx'):
            yield e
            for a in e[4]:
                if a[4] is None or a[4][0] == 'continue':
                    for x in walk_path(a[0]):
                        yield x
        else:
            yield e


def kd(k):
    """strips the option marker of a kind"""
    return (k[1], True) if isinstance(k, tuple) and k[0] == 'opt' else (k, False)


def walk(events):
    """every event of a path, loop bodies included"""
    for e in events:
        if e[0] in ('loop', 'loopx'):
            yield e
            for a in e[4]:
                for x in walk(a[0]):
                    yield x
        else:
            yield e


def stack_funcs(st):
    return [f.func.name for f in st.frames if f.func is not None]


def each_entry(res, prog, cls, meth, gtype, hook=None, keep=None, **kw):
    """explores one entry with a hook; findings stay valid even when the budget ends the run early"""
    res.keep = hook is not None
    if 'opaque' not in kw and meth in TOP:
        kw['opaque'] = top_opaque(meth)
    r = explore(prog, cls, meth, gtype, res=res, hook=hook, sink=False,
                keep=keep or (lambda ev: False), **kw)
    if r is None:
        res.note('%s.%s does not exist in this tree' % (cls, meth))
        raise AnalysisBroken('%s.%s' % (cls, meth))
    return r


def current(it, st, base, key):
    """the value stored under key now (no forking)"""
    v = st.store.get(('i', base, key))
    return v if v is not None else it.plain_item(st.fork(), base, key)


# the structure of the graph is always followed; attribute values only where a rule needs them
STRUCT_SIGS = frozenset(('it', x, '*') for x in ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nbrs', 'cluster'))


def tracking(*attrs):
    """tracked('eattr.cost', 'nattr.distance', ...)"""
    return STRUCT_SIGS | frozenset(('it',) + tuple(a.split('.')) for a in attrs)

RETKIND = {'get_simplex_solution_graph': 'Graph', 'create_residual_graph': 'Graph', 'simplex_find_cycle': ('opt', 'cycle'),
           'simplex_identify_cycle': 'cycle', 'get_negative_cycle': ('opt', 'cycle'), 'floyd_warshall_get_cycle': 'cycle',
           'label_correcting_get_cycle': 'cycle', 'find_feasible_flow': 'bool', 'network_simplex': 'any',
           'simplex_optimal': 'bool', 'get_node_list': 'namelist', 'get_edge_list': 'edgelist'}


def opaque_ret(it, st, recv, args, kw, ret):
    for a in list(args) + list(kw.values() if isinstance(kw, dict) else [v for _, v in kw]):
        if a[0] == 'o' and a[1] in st.objs and st.objs[a[1]].kind in ('list', 'dict', 'set'):
            st.setobj(a[1], st.objs[a[1]].with_items((('unk', it.token(st)),)))
    k = RETKIND.get(ret[2])
    if k is not None:
        it.rkind[ret] = k
    return [(st, ret)]


def composed(names):
    """calls to these operations are not followed (each is analysed as an entry of its own)"""
    from ..driver import DEF_OPAQUE
    d = dict(DEF_OPAQUE)
    for n in names:
        d[n] = opaque_ret
    return d


# operations too large to be analysed with everything inlined: their callees are entries of their own
TOP = {'network_simplex': ('find_feasible_flow', 'simplex_find_tree', 'get_simplex_solution_graph',
                           'simplex_compute_potentials', 'simplex_optimal', 'simplex_select_entering_arc',
                           'simplex_identify_cycle', 'simplex_augment_cycle', 'simplex_determine_leaving_arc',
                           'simplex_mark_leaving_arc', 'simplex_mark_entering_arc', 'simplex_remove_arc',
                           'simplex_redraw', 'simplex_mark_st_arcs', 'print_flow'),
       'min_cost_flow': ('network_simplex', 'cycle_canceling', 'simplex_redraw', 'print_flow')}


def top_opaque(meth):
    return composed(TOP[meth]) if meth in TOP else None
