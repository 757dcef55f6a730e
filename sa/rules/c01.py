"""C01: the node list, the edge list and the neighbour lists always agree."""
import ast
from collections import Counter
from .base import *
from .struct import *

ID = 'C01'
TECHNIQUE = 'effect-balance analysis of the four graph tables over all paths and loop iterations (abstract interpretation)'
RULE = ('on every normal path of a structural operation, and in every iteration of its loops, edges, neighbour entries and '
        'in-neighbour entries are added and removed in matching sets; a new edge is known to be absent before; node keys '
        'are added to and removed from all tables together; a node is removed only after every edge at it; the list '
        'queries return the tables unfiltered')
EXPLANATION = ('Each operation that changes the structure is interpreted abstractly on an arbitrary directed and an '
               'arbitrary undirected graph satisfying the invariant. The additions and removals it makes in nodes, '
               'edge_attr, neighbors and in_neighbors are collected per path and per loop iteration and must balance, '
               'equal names (self-loops) included; so the invariant is preserved by each operation and, by induction, '
               'by every sequence of them.')
MINIMUM = {'paths_checked': 15, 'edge_changes': 8}
OPS = {'Graph': ['add_node', 'del_node', 'add_edge', 'del_edge', 'random', 'create_cluster', 'set_edge_attr',
                 'set_node_attr'],
       'DisjointSet': ['add', 'union', 'find'],
       'Tree': ['add_root', 'add_child'],
       'BinaryTree': ['add_root', 'add_child', 'add_right_child', 'add_left_child', 'del_node']}
BASIC = ('add_node', 'del_node', 'add_edge', 'del_edge')
LISTS = {'neighbors': 'N', 'in_neighbors': 'I'}


class Checker:
    def __init__(self, it, res, gtype, meth):
        self.it, self.res, self.directed, self.meth = it, res, gtype == 'digraph', meth

    def bad(self, site, rule, construct, msg):
        self.res.find(rule, site, construct, msg)

    def level(self, toks, eq, facts, gone):
        """one path, or one iteration"""
        T = [t for t in toks if t[0] != 'loop']
        for sign in '+-':
            L = [(t[0], eq(t[2]), eq(t[3]) if t[3] is not None else None, t[4]) for t in T if t[1][0] == sign]
            E = [(a, b, s) for k, a, b, s in L if k == 'E']
            if not self.directed and sign == '-':
                # one edge, whichever way round it is stored
                seen, E2 = [], []
                for a, b, s in E:
                    if (b, a) in seen and (a, b) not in seen:
                        continue
                    seen.append((a, b))
                    E2.append((a, b, s))
                E = E2
            N = [(a, b, s) for k, a, b, s in L if k == 'N']
            I = [(b, a, s) for k, a, b, s in L if k == 'I']
            self.res.count('edge_changes', len(E))
            for a, b, s in E:
                self.take(N, a, b, s, sign, 'neighbour list of the source', a in gone)
                if self.directed:
                    self.take(I, a, b, s, sign, 'in-neighbour list of the sink', b in gone)
                else:
                    self.take(N, b, a, s, sign, 'neighbour list of the other endpoint', b in gone)
            for l, what in ((N, 'neighbour'), (I, 'in-neighbour')):
                for a, b, s in l:
                    if (a if what == 'neighbour' else b) in gone:
                        continue
                    if sign == '-' and self.absent(facts, eq, a, b):
                        continue
                    self.bad(s, 'unmatched-entry', '%s%s %s %s' % (sign, what, norm(a), norm(b)),
                             'the %s entry for (%s, %s) is %s without its edge'
                             % (what, norm(a), norm(b), 'added' if sign == '+' else 'removed'))
            keys = {}
            for k, a, b, s in L:
                if k in TABLES:
                    keys.setdefault(a, []).append((k, s))
            want = ['nodes', 'neighbors'] + (['in_neighbors'] if self.directed else [])
            for a, ks in keys.items():
                have = [k for k, _ in ks]
                for w in want:
                    if w not in have:
                        self.bad(ks[0][1], 'unmatched-node', '%s%s %s' % (sign, w, norm(a)),
                                 'the node %s is %s %s but not %s %s' % (norm(a), 'added to' if sign == '+' else 'removed from',
                                 ', '.join(sorted(set(have))), 'to' if sign == '+' else 'from', w))

    def take(self, l, a, b, site, sign, what, dropped):
        for x in l:
            if x[0] == a and x[1] == b:
                l.remove(x)
                return
        if dropped:
            return
        self.bad(site, 'unmatched-edge', '%sE %s %s in %s' % (sign, norm(a), norm(b), what),
                 'the edge (%s, %s) is %s the edge list, but the %s is not changed to match'
                 % (norm(a), norm(b), 'added to' if sign == '+' else 'removed from', what))

    def absent(self, facts, eq, a, b):
        """the edge is known not to be stored in either direction"""
        out = []
        for k, v in facts:
            if k[0] == 'in' and v is False and k[2][0] == 'f' and k[2][2] == 'edge_attr' and k[1][0] == 't':
                out.append((eq(k[1][1]), eq(k[1][2])))
        return (a, b) in out and (self.directed or (b, a) in out)

    def path(self, events, st, facts, signs, extra_signs=(), gone=None, lists=None):
        lists = {} if lists is None else lists
        toks = tokens(events, st, lists=lists)
        eq = Eq(signs, extra_signs)
        dele = set(gone or ())
        dele |= {eq(t[2]) for t in toks if t[0] in ('nodes', 'neighbors', 'in_neighbors') and t[1] == '-'}
        self.level(toks, eq, facts, dele)
        if gone is None:
            for p in {eq(t[2]): t for t in toks if t[0] == 'neighbors' and t[1] == '-'}.items():
                self.covered(p[0], p[1][4], toks, st, signs, lists, dele)
        for t in toks:
            if t[0] == 'loop':
                self.loop(t[1], st, facts, signs, dele, lists)

    def loop(self, e, st, facts, signs, gone, lists):
        for a in e[4]:
            if not any(x[0] in ('set', 'del', 'mut', 'loop', 'loopx') for x in a[0]):
                continue
            sg = list(signs.items() if isinstance(signs, dict) else signs) + list(a[2])
            self.path(a[0], st, list(facts.items() if isinstance(facts, dict) else facts) + list(a[1]), sg, (), gone, lists)
        # a list must not be changed while it is iterated
        info = self.it.loops_seen.get(e[2])
        lv = self.it.live_iter.get(id(info['node'])) if info else None
        if lv is not None and lv[0] == 'i':
            t = table(lv[1])
            if t in LISTS:
                for a in e[4]:
                    eq = Eq(signs, a[2])
                    for x in tokens(a[0], st, lists=lists):
                        if x[0] == LISTS[t] and x[1][0] == '-':
                            if eq(x[2]) == eq(lv[2]) or (x[2][0] == 'el' and not self.differ(a[2], x[2], lv[2])):
                                self.bad(x[4], 'changed-while-iterated', norm(lv),
                                         '%s loses elements while it is iterated (for a self-loop): entries are skipped'
                                         % norm(lv))

    def differ(self, signs, a, b):
        d, _ = lin_canon(lin_add(a, b, -1))
        for k, v in signs:
            if k == d and v is not None and 0 not in v:
                return True
        return False

    def covered(self, p, site, toks, st, signs, lists, gone):
        """every edge at the deleted node p is removed first"""
        sides = [('neighbors', True)] + ([('in_neighbors', False)] if self.directed else [])
        loops = [t[1] for t in toks if t[0] == 'loop']
        struct_loops = [e for e in loops if any(x[0] in ('set', 'del', 'mut') and
                                                (table(x[2]) or x[2][0] == 'i') for x in walk(e[4][0][0] if e[4] else ()))
                        or any(any(y[0] in ('del', 'mut') for y in walk(a[0])) for a in e[4])]
        eq0 = Eq(signs)
        for tb, out in sides:
            ok = False
            for e in loops:
                s = e[3]
                while s[0] in ('sorted', 'rev'):
                    s = s[1]
                if s[0] in ('keys', 'elems') and table(s[1]) == 'edge_attr':
                    r = self.by_edges(p, e, st, signs)
                    ok = ok or r
                    continue
                if s[0] != 'elems' or s[1][0] != 'i' or table(s[1][1]) != tb or eq0(s[1][2]) != p:
                    continue
                ok = True
                absent_case = False
                for a in e[4]:
                    if a[4] is not None and a[4][0] != 'continue':
                        continue
                    eq = Eq(signs, a[2])
                    tk = tokens(a[0], st, lists=lists)
                    els = [x for x in terms_in(a[0]) if x[0] == 'el' and x[1] == e[2]]
                    if not els:
                        self.bad(e[1], 'edge-kept', '%s of %s' % (tb, norm(p)),
                                 'the edges in %s[%s] are not all removed before the node is' % (tb, norm(p)))
                        continue
                    el, q = eq(els[0]), eq(p)
                    edges = [(eq(x[2]), eq(x[3])) for x in tk if x[0] == 'E' and x[1] == '-']
                    ed = (q, el) if out else (el, q)
                    ab = self.absent(a[1], eq, *ed)
                    absent_case = absent_case or ab
                    if ed not in edges and not (not self.directed and (ed[1], ed[0]) in edges) and not ab:
                        self.bad(e[1], 'edge-kept', '%s of %s' % (tb, norm(p)),
                                 'an edge in %s[%s] is not removed before the node is' % (tb, norm(p)))
                        continue
                    if ab:
                        continue        # already gone (the second visit of a self-loop)
                    part = 'I' if (self.directed and out) else 'N'
                    if el != q and not any(x[0] == part and x[1][0] == '-' and eq(x[2]) == el and eq(x[3]) == q for x in tk):
                        self.bad(e[1], 'entry-kept', '%s of %s' % (tb, norm(p)),
                                 'the deleted node %s stays in the %s list of a node it was joined to'
                                 % (norm(p), 'in-neighbour' if part == 'I' else 'neighbour'))
                info = self.it.loops_seen.get(e[2])
                src = ast.unparse(info['node'].iter) if info and isinstance(info['node'], ast.For) else 'set('
                if not self.directed and not absent_case and 'set(' not in src and 'dict' not in src and \
                        not all(self.differ(a[2], x, p) for a in e[4] for x in terms_in(a[0]) if x[0] == 'el' and x[1] == e[2]):
                    self.bad(e[1], 'self-loop', '%s of %s' % (tb, norm(p)),
                             'a self-loop is listed twice in neighbors[%s]: deleting its edge the second time fails' % norm(p))
            if not ok:
                if struct_loops and not any(self.known_loop(e, p, eq0) for e in struct_loops):
                    raise Unknown('deletion of the edges of a node')
                self.bad(site, 'edges-kept', '%s of %s' % (tb, norm(p)),
                         'the edges in %s[%s] are not removed before the node is' % (tb, norm(p)))

    def known_loop(self, e, p, eq):
        s = e[3]
        while s[0] in ('sorted', 'rev'):
            s = s[1]
        return s[0] == 'elems' and s[1][0] == 'i' and table(s[1][1]) in LISTS and eq(s[1][2]) == p

    def by_edges(self, p, e, st, signs):
        for a in e[4]:
            if a[4] is not None and a[4][0] != 'continue':
                return False
            els = [x for x in terms_in(a[0], a[2]) if x[0] == 'el' and x[1] == e[2]]
            out = [k[2] for k, v in a[1] if k[0] == 'in' and v is False and k[1] == p and k[2][0] == 'el' and k[2][1] == e[2]]
            if out:
                continue
            if not els:
                return False
            tk = tokens(a[0], st)
            if any(x[0] == 'E' and x[1] == '-' for x in tk):
                continue
            x, y = pair(els[0])
            if not (self.differ(a[2], x, p) and self.differ(a[2], y, p)):
                return False
        return True


def terms_in(events, signs=()):
    out = []

    def go(t):
        if isinstance(t, tuple):
            if len(t) >= 3 and t[0] == 'el' and t not in out:
                out.append(t)
            for x in t:
                if isinstance(x, tuple):
                    go(x)
    for e in walk(events):
        if e[0] not in ('loop', 'loopx'):
            go(tuple(x for x in e[2:] if isinstance(x, tuple)))
    for d, v in signs:
        c, m = lin_parts(d)
        for x in m:
            go(x)
    return out


def run(prog, res, cls, meth, gtype):
    pres = []

    basic = meth in BASIC

    def hook(it, st, ev):
        # presence of an edge at the moment it is stored
        if ev[0] == 'set' and table(ev[2]) == 'edge_attr':
            a, b = pair(ev[3])
            known = [it.known_in(st, ev[3], ev[2])]
            if gtype == 'graph':
                known.append(it.known_in(st, it.mk_tuple((b, a), st), ev[2]))
            pres.append((ev[1], known, ev[3]))
        if basic and cls == 'Graph' and ev[0] == 'set' and table(ev[2]) in ('nodes', 'neighbors', 'in_neighbors') and ev[4][0] == 'o':
            ob = st.objs.get(ev[4][1])
            if ob is not None and (table(ev[2]) == 'nodes' or (ob.kind == 'list' and not ob.items)):
                t = table(ev[2])
                if it.known_in(st, ev[3], ev[2]) is not False and not _fresh(it, st, ev[3]):
                    res.find('node-overwritten', ev[1], '%s %s' % (t, norm(ev[3])),
                             'the entry of %s in %s is replaced although the node may exist' % (norm(ev[3]), t))

    def keep(ev):
        return ev[0] in ('set', 'del', 'mut', 'setf', 'test')
    r = explore(prog, cls, meth, gtype, res=res, keep=keep, hook=hook, sink=False, tracked=tracking(),
                opaque=composed(() if basic else BASIC))
    if r is None:
        raise AnalysisBroken('%s.%s' % (cls, meth))
    it, outs = r
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        n = len(res.findings)
        try:
            if basic:
                purpose(res, prog.method(cls, meth), st, gtype)
            Checker(it, res, gtype, meth).path(st.events(), st, list(st.facts.items()), st.signs)
        except Unknown as e:
            del res.findings[n:]
            res.note('%s: a structural change of unknown shape (%s) is not judged' % (meth, e))
            res.count('paths_unknown')
        if any(x[0] == 'mut' and x[3] in ('append', 'insert') for x in walk(st.events())):
            for site, known, key in pres:
                if any(k is not False for k in known):
                    res.find('edge-overwritten', site, norm(key),
                             'the edge %s is stored and listed although it may already be in the graph%s'
                             % (norm(key), ' in the other direction' if known[0] is False else ''))


def purpose(res, fm, st, gtype):
    """a basic operation that returns has done what it is for"""
    ps = [('s', a.arg) for a in fm.node.args.args[1:]]
    eq = Eq(st.signs)
    T = [(t[0], t[1], eq(t[2]), eq(t[3]) if t[3] is not None else None) for t in tokens(st.events(), st) if t[0] != 'loop']
    m = fm.name
    if m in ('add_node', 'del_node'):
        sign = '+' if m == 'add_node' else '-'
        ok = ('nodes', sign, eq(ps[0]), None) in T
        what = 'the node %s' % norm(ps[0])
    else:
        sign = '+' if m == 'add_edge' else '-'
        a, b = (ps[0], ps[1]) if m == 'add_edge' else pair(ps[0])
        a, b = eq(a), eq(b)
        ok = ('E', sign, a, b) in T or (gtype == 'graph' and ('E', sign, b, a) in T)
        what = 'the edge (%s, %s)' % (norm(a), norm(b))
    if not ok:
        res.find('not-done', (fm.module.path, fm.node.lineno, fm.qual), m,
                 '%s can return without having %s %s' % (m, 'added' if sign == '+' else 'deleted', what))


def _fresh(it, st, key):
    """the node is in none of the tables before: a test on any one of them decides"""
    for t in ('nodes', 'neighbors', 'in_neighbors'):
        if st.facts.get(('in', key, ('f', SELF, t), 0)) is False:
            return True
    return False


# ---- the views ---------------------------------------------------------------------------------------
VIEWS = {'get_node_list': ('keys', ('nodes', 'neighbors')), 'get_edge_list': ('keys', ('edge_attr',)),
         'get_node_num': ('len', ('nodes', 'neighbors')), 'get_edge_num': ('len', ('edge_attr',)),
         'get_neighbors': ('item', ('neighbors',)), 'get_in_neighbors': ('item', ('in_neighbors',)),
         'get_out_neighbors': ('item', ('neighbors',))}


def view(prog, res, meth, gtype):
    r = explore(prog, 'Graph', meth, gtype, res=res, keep=lambda ev: False, sink=False, tracked=tracking())
    if r is None:
        raise AnalysisBroken(meth)
    it, outs = r
    shape, tabs = VIEWS[meth]
    fm = prog.method('Graph', meth)
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('views')
        v = o[1]
        s = source(st, v)
        got = None
        if s is None:
            res.note('%s: the value returned is not understood' % meth)
            continue
        if shape == 'item':
            if s[0] == 'elems' and s[1][0] == 'i':
                got = table(s[1][1]) in tabs and s[1][2] == ('s', 'name')
            elif s[0] == 'filtered':
                got = False
        elif s[0] == 'filtered':
            got = False
        elif s[0] in ('keys', 'elems', 'len', 'values', 'items'):
            got = table(s[1]) in tabs
        if got is False:
            res.find('view', (fm.module.path, fm.node.lineno, fm.qual), norm(v),
                     '%s does not return exactly the content of %s: %s' % (meth, ' or '.join(tabs), norm(v)))


def source(st, v):
    """the iteration source a returned collection consists of; ('filtered',) when only a part of one"""
    if v[0] == 'o':
        ob = st.objs.get(v[1])
        if ob is None or ob.kind not in ('list', 'set', 'dict'):
            return None
        if len(ob.items) == 1 and ob.items[0][0] == 'star':
            return strip(ob.items[0][1])
        if len(ob.items) == 1 and ob.items[0][0] == 'rep':
            src, alts = strip(ob.items[0][2]), ob.items[0][3]
            if all(len(s) == 1 and s[0][0] == 'e' and s[0][1][0] == 'el' and s[0][1][2] == ob.items[0][2] for s in (a[0] for a in alts)):
                return src
            if any(not a[0] for a in alts) and all(not s or (len(s) == 1 and s[0][0] == 'e' and s[0][1][0] == 'el')
                                                   for s in (a[0] for a in alts)):
                return ('filtered', src)
        return None
    if v[0] == 'src':
        return strip(v[1])
    if v[0] == 'i':
        return ('elems', v)
    if v[0] == 'f':
        return ('elems', v)
    if v[0] == 'pf' and v[1] == 'len':
        x = source(st, v[2])
        return ('len', x[1]) if x is not None and x[0] in ('keys', 'elems', 'values', 'items') else x
    return None


def strip(s):
    while s[0] in ('sorted', 'rev'):
        s = s[1]
    return s


def alias(prog, res):
    """out_neighbors is another name of neighbors: both have to be the same table from the start"""
    r = explore(prog, 'Graph', '__init__', 'digraph', res=res, sink=False, keep=lambda ev: ev[0] == 'setf', tracked=tracking())
    if r is None:
        return
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        last = {}
        for e in st.events():
            if e[0] == 'setf' and e[2] == SELF and e[3] in ('neighbors', 'out_neighbors'):
                last[e[3]] = (e[4], e[1])
        if len(last) == 2:
            (a, _), (b, site) = last['neighbors'], last['out_neighbors']
            if a[0] == 'o' and b[0] == 'o' and a != b:
                res.find('alias', site, 'out_neighbors', 'out_neighbors is a table of its own: what is added to neighbors is missing in it')


def jobs(prog, tier):
    yield 'out_neighbors', alias, ()
    for c in OPS:
        for m in OPS[c]:
            for g in EN.gtypes(c, m):
                yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
    for m in VIEWS:
        for g in EN.gtypes('Graph', m):
            yield 'view %s/%s' % (m, g), view, (m, g)
