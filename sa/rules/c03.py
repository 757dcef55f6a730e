"""C03: an undirected edge answers to both endpoint orders."""
from .base import *
from .struct import *
from . import c01

ID = 'C03'
TECHNIQUE = 'path-sensitive abstract interpretation under assumed membership facts (edge stored as (a,b), named as (b,a))'
RULE = ('with the edge assumed stored in one orientation and named in the other, every path of an operation of an undirected '
        'graph treats the edge as present and works on the stored key, and every path of the same operation of a directed '
        'graph treats it as absent; undirected-capable algorithms look edges up by a key known to be stored')
EXPLANATION = ('Every operation that names an edge is interpreted abstractly on an arbitrary graph in which the edge is '
               'assumed to be stored under the other endpoint order (and, as controls, under the same order, and on a '
               'directed graph). Each path is then judged by its result: the value returned, the entry of the edge table '
               'read or changed, or the exception. Neighbour and deletion operations are covered by the same assumption '
               'on the names of a deleted endpoint.')
MINIMUM = {'paths_checked': 20}

E = ('f', SELF, 'edge_attr')
N = ('f', SELF, 'nodes')


def P(x):
    return ('s', x)


def names(meth):
    """the two endpoint terms of the edge as it is named, and the terms for the key as named"""
    if meth in ('check_edge', 'add_edge'):
        return P('name1'), P('name2'), None, {}
    if meth in ('get_edge_attr', 'set_edge_attr'):
        return P('n'), P('m'), None, {}
    if meth == '__contains__':
        return P('x1'), P('x2'), 'item', {'item': ('t', P('x1'), P('x2'))}
    p = 'edge' if meth == 'get_edge_cost' else 'e'
    return P('x1'), P('x2'), p, {p: ('t', P('x1'), P('x2'))}


OPS = {'check_edge': 'exists', '__contains__': 'exists', 'get_edge_attr': 'get', 'get_edge_cost': 'get',
       'set_edge_attr': 'set', 'add_edge': 'dup', 'del_edge': 'delete', 'edge_to_string': 'render'}
# how the edge is stored relative to how it is named; is it the same edge
SCEN = {'graph': [('the edge is stored the other way round', 'rev', True), ('the edge is stored as named', 'fwd', True),
                  ('the edge is a self-loop', 'loop', True), ('there is no such edge', 'none', False)],
        'digraph': [('only the opposite edge exists', 'rev', False), ('the edge is stored as named', 'fwd', True),
                    ('both edges exist', 'both', True), ('the edge is a self-loop', 'loop', True)]}


def run(prog, res, meth, gtype, why, how, there):
    a, b, par, terms = names(meth)
    fwd, rev = ('t', a, b), ('t', b, a)
    stored = {'rev': rev, 'fwd': fwd, 'loop': fwd, 'none': fwd, 'both': fwd}[how]

    def setup(it, st):
        st.facts = dict(st.facts)
        st.signs = dict(st.signs)
        for x in (a, b):
            it.skind[x[1]] = 'name'
            st.facts[('in', x, N, 0)] = True
            if meth == '__contains__':
                pass
        if meth == '__contains__':
            st.facts[('in', fwd, N, 0)] = False
        st.facts[('in', fwd, E, 0)] = how in ('fwd', 'loop', 'both')
        st.facts[('in', rev, E, 0)] = how in ('rev', 'loop', 'both')
        for k in (fwd, rev):
            if st.facts[('in', k, E, 0)] and meth != 'set_edge_attr':
                # the attribute asked for is one the edge has
                at = P('attr') if meth == 'get_edge_attr' else C('cost')
                st.facts[('in', at, ('i', E, k), 0)] = True
        d, _ = lin_canon(lin_add(a, b, -1))
        st.signs[d] = frozenset((0,)) if how == 'loop' else frozenset((-1, 1))

    def keep(ev):
        return ev[0] in ('set', 'del', 'mut', 'raise', 'rd')
    r = explore(prog, 'Graph', meth, gtype, res=res, keep=keep, sink=False, tracked=None, untracked=frozenset(), terms=terms,
                implicit=True, extra_setup=setup, watch=frozenset((('it', 'edgeattrs', None),)))
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    it, outs = r
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    kind = OPS[meth]
    orient = {'rev': 'reversed', 'fwd': 'same', 'loop': 'loop', 'none': 'none', 'both': 'both'}[how]

    def bad(msg, site=None):
        res.find('orientation', site or site0, '%s %s' % (orient, gtype), 'when %s, %s %s' % (why, meth, msg))

    def key_of(base):
        """the edge key a location belongs to"""
        t = base
        while t[0] in ('f', 'i'):
            if t[0] == 'i' and t[1] == E:
                return t[2]
            t = t[1]
        if t[0] == 'r' and len(t) > 3 and isinstance(t[3], tuple):
            return key_of(t[3])
        return None

    def same(k):
        return k == stored or (how == 'loop' and k in (fwd, rev))
    for st, o in outs:
        res.count('paths_checked')
        ev = list(walk(st.events()))
        if o[0] == 'raise':
            if kind == 'dup' and there:
                continue
            if kind in ('get', 'set', 'delete', 'render') and not there:
                continue
            if o[1] == 'ValueError':
                continue        # list.remove: C01's invariant keeps the neighbour lists in step
            bad('fails with %s' % norm(o[1]))
            continue
        v = o[1]
        if kind == 'exists':
            if v == (FALSE if there else TRUE):
                bad('answers %s' % norm(v))
            elif v not in (TRUE, FALSE):
                res.count('paths_unknown')
        elif kind == 'get':
            k = key_of(v)
            if not there:
                if v != NONE:
                    bad('returns %s' % norm(v))
            elif v[0] == 'c':
                bad('returns %s instead of the attribute of the edge' % norm(v))
            elif k is None:
                res.count('paths_unknown')
            elif not same(k):
                bad('reads the entry %s' % norm(k))
        elif kind == 'set':
            w = [(e, key_of(e[2]) if e[0] == 'set' and e[2] != E else (e[3] if e[0] == 'set' else None)) for e in ev
                 if e[0] in ('set', 'mut')]
            ks = [k for _, k in w]
            if not there:
                bad('does not refuse')
            elif not ks:
                bad('sets nothing')
            elif any(k is None for k in ks):
                res.count('paths_unknown')
            elif not all(same(k) for k in ks):
                bad('changes the entry %s' % ', '.join(norm(k) for k in ks), w[0][0][1])
        elif kind == 'dup':
            if there:
                bad('accepts it as a new edge')
        elif kind == 'delete':
            dl = [e[3] for e in ev if e[0] == 'del' and e[2] == E]
            dl += [e[4][0] for e in ev if e[0] == 'mut' and e[2] == E and e[3] == 'pop' and e[4]]
            ot = [e for e in ev if e[0] == 'mut' and e[2] == E and e[3] != 'pop' or e[0] == 'setf' and e[3] == 'edge_attr']
            if not there:
                bad('does not refuse')
            elif ot:
                res.count('paths_unknown')
            elif not dl or not any(same(k) for k in dl):
                bad('does not delete the edge')
            elif how == 'both' and any(k == rev for k in dl):
                bad('deletes the opposite edge as well')
        elif kind == 'render':
            if not there:
                bad('renders it')
            ks = [k for k in (key_of(('i', strip(e[3]), NONE)) for e in ev if e[0] in ('loop', 'loopx')) if k is not None]
            if not ks and not all(k is False for k in [it.known_in(st, x, E) for x in (fwd, rev)]) and \
                    not any(e[0] in ('loop', 'loopx') for e in ev):
                continue
            if any(not same(k) for k in ks):
                bad('renders the attributes of the entry %s' % norm(ks[0]))


def strip(s):
    while s[0] in ('sorted', 'rev', 'keys', 'values', 'items', 'elems', 'slice') and isinstance(s[1], tuple):
        s = s[1]
    return s


ALGS = [m for m in EN.CLASSES['Graph'] if 'graph' in EN.gtypes('Graph', m) and m not in OPS and m not in ('del_node', 'add_node')]


def raw(prog, res, meth):
    """edge look-ups of undirected-capable operations"""
    def hook(it, st, ev):
        if ev[0] == 'rd' and ev[2] == E:
            res.count('raw_reads')
            known = it.known_in(st, ev[3], E)
            a, b = pair(ev[3])
            if known is not True and it.known_in(st, it.mk_tuple((b, a), st), E) is not False and not it.catching_key() and \
                    not set(OPS) & set(stack_funcs(st)):
                res.find('raw-key', ev[1], norm(ev[3]), 'the edge %s is looked up in the edge table by a key that an '
                         'undirected graph may hold the other way round' % norm(ev[3]))
    each_entry(res, prog, 'Graph', meth, 'graph', hook, tracked=tracking(), watch=frozenset((('it', 'edge_attr', None),)))


def jobs(prog, tier):
    for m in OPS:
        for g in ('graph', 'digraph'):
            for why, how, there in SCEN[g]:
                yield '%s/%s when %s' % (m, g, why), run, (m, g, why, how, there)
    for m in ALGS:
        yield 'lookups in %s' % m, raw, (m,)
    # deleting an endpoint: the edge goes, whichever way round it is stored
    yield 'del_node/graph', c01.run, ('Graph', 'del_node', 'graph')
