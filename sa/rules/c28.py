"""C28: returned paths and cycles are contiguous."""
from .flow import *
from .c15 import explore_it

ID = 'C28'
TECHNIQUE = 'symbolic sequence construction of the returned lists over predecessor walks (abstract interpretation)'
RULE = ('a list returned as a path or cycle is built by walks along predecessors: in every way through such a loop the list receives exactly '
        'one node for each step to a predecessor and none without, always the node before or always the one after the step; pieces put together '
        '(first element, walk, reversal, concatenation, removal of the common end) meet in consecutive nodes; the list starts and ends where asked')
EXPLANATION = ('The events of each finished path are replayed on symbolic sequences made of single nodes and walks; neighbouring pieces are '
               'compared by the terms of their end nodes and the conditions under which the loops were left.')
MINIMUM = {'walks': 2}

HOLE = ('hole',)
NEG = object()


def subst(t, x, y):
    if t == x:
        return y
    if not isinstance(t, tuple):
        return t
    return tuple(subst(a, x, y) for a in t)


def stepper(cur, back):
    """S with back == S(cur)"""
    if back == cur or cur not in set(subterms(back)):
        return None
    return subst(back, cur, HOLE)


def double(S):
    """the step skips a node"""
    for r in subterms(S):
        if r != S and r != HOLE and HOLE in set(subterms(r)) and subst(r, HOLE, r) == S:
            return True
    return False


class W:
    """nodes added by a walk, in the order of the walk"""

    def __init__(self, lid, cur, init, S, mode, poploops=(), rev=False):
        self.lid, self.cur, self.init, self.S, self.mode = lid, cur, init, S, mode
        self.poploops, self.rev, self.cut = tuple(poploops), rev, 0

    def copy(self, **kw):
        w = W(self.lid, self.cur, self.init, self.S, self.mode, self.poploops, self.rev)
        w.cut = self.cut
        for k, v in kw.items():
            setattr(w, k, v)
        return w


def deref(t, seqs):
    """list token behind an iteration source; (token, reversed)"""
    if t[0] == 'o':
        return t, False
    if t[0] in ('elems', 'list') and isinstance(t[1], tuple):
        return deref(t[1], seqs)
    if t[0] == 'rev' and isinstance(t[1], tuple):
        a, r = deref(t[1], seqs)
        return a, not r
    return None, False


def flip(items):
    return [x if x[0] == 'e' else ('w', x[1].copy(rev=not x[1].rev)) for x in reversed(items)]


class Replay:
    def __init__(self, res, meth, st, o, site0):
        self.res, self.meth, self.site0 = res, meth, site0
        self.raw = list(st.events())
        self.ini = inits(self.raw)
        self.seqs = {}
        self.bad = False
        self.run(self.raw)

    def alias(self, segs):
        out = []
        for s in segs:
            if s[0] == 'e':
                out.append(('e', restrip(s[1])))
            elif s[0] == 'star':
                t, r = deref(s[1], self.seqs)
                if t is None or self.seqs.get(t) is None:
                    return None
                out += flip(self.seqs[t]) if r else list(self.seqs[t])
            else:
                return None
        return out

    def run(self, events):
        for e in events:
            if e[0] == 'lit':
                self.seqs[e[2]] = self.alias(e[3])
            elif e[0] == 'mut':
                b = restrip(e[2])
                if b in self.seqs:
                    self.seqs[b] = self.mutate(self.seqs[b], e)
            elif e[0] in ('loop', 'loopx'):
                self.loop(e)

    def mutate(self, q, e):
        if q is None:
            return None
        name, args = e[3], [restrip(a) for a in e[4]]
        q = list(q)
        if name == 'append':
            return q + [('e', args[0])]
        if name == 'appendleft' or name == 'insert' and args[0] == ZERO:
            return [('e', args[-1])] + q
        if name == 'reverse':
            return flip(q)
        if name == 'extend':
            t, r = deref(e[4][0], self.seqs)
            if t is None or self.seqs.get(t) is None:
                return None
            return q + (flip(self.seqs[t]) if r else list(self.seqs[t]))
        if name == 'pop' and args == [ZERO] and q and q[0][0] == 'e':
            return q[1:]
        if name == 'pop' and not args and q:
            if q[-1][0] == 'e':
                return q[:-1]
            w = q[-1][1]
            if w.rev:
                return None
            return q[:-1] + [('w', w.copy(cut=w.cut + 1))]
        return None

    def loop(self, e):
        """one piece for each list that a walk fills"""
        lid, alts = e[2], e[4]
        touched = {}
        for a in alts:
            for x in a[0]:
                if x[0] in ('loop', 'loopx'):
                    for t in deep(x):
                        if t in self.seqs:
                            touched[t] = None
                if x[0] == 'mut' and restrip(x[2]) in self.seqs:
                    touched.setdefault(restrip(x[2]), True)
        for t in touched:
            self.seqs[t] = self.fill(t, e, alts) if touched[t] and self.seqs[t] is not None else None

    def fill(self, t, e, alts):
        q = self.seqs[t]
        lid = e[2]
        live = [a for a in alts if a[4] is None or a[4][0] == 'continue']
        if any(a[4] is not None and a[4][0] in ('break',) and any(x[0] == 'mut' and restrip(x[2]) == t for x in a[0]) for a in alts) and e[0] == 'loop':
            return None
        # common ends are removed
        if all(len([x for x in a[0] if x[0] == 'mut' and x[3] == 'pop' and not x[4] and restrip(x[2]) == t]) ==
               len([x for x in a[0] if x[0] == 'mut' and restrip(x[2]) == t]) == 1 for a in live):
            both = [x for x in self.seqs if all(len([y for y in a[0] if y[0] == 'mut' and y[3] == 'pop' and restrip(y[2]) == x]) == 1 for a in live)]
            ok = len(both) == 2 and all(self.same_second(a, both) for a in live)
            if not ok or not q or q[-1][0] != 'w' or q[-1][1].rev:
                return None
            return q[:-1] + [('w', q[-1][1].copy(poploops=q[-1][1].poploops + (lid,)))]
        adds = []
        for a in live:
            ops = [x for x in a[0] if x[0] == 'mut' and restrip(x[2]) == t]
            backs = {k: (restrip(v)) for k, v in (a[3] or [])}
            xs = []
            for x in ops:
                args = [restrip(z) for z in x[4]]
                if x[3] == 'append':
                    xs.append(('app', args[0], x[1]))
                elif x[3] == 'appendleft' or x[3] == 'insert' and args[0] == ZERO:
                    xs.append(('front', args[-1], x[1]))
                elif x[3] == 'insert' and args[0] == ONE:
                    xs.append(('second', args[-1], x[1]))
                else:
                    return None
            if missing(a):
                continue
            adds.append((a, xs, backs))
        if not adds or not any(xs for a, xs, b in adds):
            return None
        # the variable that walks
        cand = None
        for a, xs, backs in adds:
            for w, x, site in xs:
                for k, b in backs.items():
                    cur = ('phi', lid, k)
                    if x == cur or x == b and cur in set(subterms(b)):
                        S = stepper(cur, b)
                        if S is not None:
                            cand = (cur, S) if cand is None or x == cur else cand
                    elif cur in set(subterms(x)) and cand is None and b == x:
                        cand = (cur, stepper(cur, b))
        if cand is None:
            return None
        cur, S = cand
        meth, res = self.meth, self.res
        res.count('walks')
        if double(S):
            res.find('skipped', xs_site(adds), 'double', '%s goes two nodes back and adds one' % meth)
            return None
        where, modes = set(), set()
        for a, xs, backs in adds:
            b = backs.get(cur[2], cur)
            n = 0 if b == cur else 1 if b == subst(S, HOLE, cur) else None
            if n is None:
                if b == subst(S, HOLE, subst(S, HOLE, cur)):
                    n = 2
                else:
                    return None
            nodes = [x for w, x, s in xs]
            if any(x not in (cur, subst(S, HOLE, cur), subst(S, HOLE, subst(S, HOLE, cur))) for x in nodes):
                return None
            if len(xs) < n:
                res.find('skipped', xs_site(adds), 'step', '%s goes to the predecessor without adding a node to the list' % meth)
                return None
            if len(xs) > n:
                res.find('repeated', xs[-1][2], 'node', '%s adds a node to the list without going to the predecessor' % meth)
                return None
            if n == 1:
                where.add(xs[0][0])
                if xs[0][1] == cur:
                    modes.add('pre')
                elif xs[0][1] == b:
                    modes.add('post')
                else:
                    return None
            elif n > 1:
                return None
        if len(where) != 1 or len(modes) != 1:
            if len(modes) == 2:
                res.find('skipped', xs_site(adds), 'mixed', '%s adds sometimes the node before the step and sometimes the one after it' % meth)
            return None
        init = self.ini.get(cur, (None, ()))[0]
        w = W(lid, cur, init, S, modes.pop())
        how = where.pop()
        if how == 'app':
            return q + [('w', w)]
        w.rev = True
        if how == 'front':
            return [('w', w)] + q
        if q and q[0][0] == 'e':
            return [q[0], ('w', w)] + q[1:]
        return None

    def same_second(self, a, both):
        p, r = [('i', x, C(-2)) for x in both]
        for d, s in a[2]:
            if s is not None and set(s) == {0}:
                m = lin_parts(restrip(d))[1]
                if p in m and r in m:
                    return True
        return False


def xs_site(adds):
    for a, xs, b in adds:
        if xs:
            return xs[0][2]


def missing(a):
    """a predecessor that is not recorded"""
    return any(restrip(k)[0] == 'in' and restrip(k)[1][0] == 'c' and v is False for k, v in a[1])


def deep(e):
    for a in e[4]:
        for x in a[0]:
            if x[0] in ('loop', 'loopx'):
                for t in deep(x):
                    yield t
            elif x[0] == 'mut':
                yield restrip(x[2])


class Judge:
    def __init__(self, res, meth, rp, st, site0, want):
        self.res, self.meth, self.rp, self.site0, self.want = res, meth, rp, site0, want
        self.signs = merged(list(st.signs.items()))
        self.facts = [(restrip(k), v) for k, v in st.facts.items()]

    def eq(self, a, b):
        if a == b:
            return True
        s = diff_sign(self.signs, a, b)
        if s == {0}:
            return True
        return None if 0 in s else False

    def first(self, w):
        """(node, offset): offset -1: the node before it along the walk"""
        return (w.init, 0) if w.mode == 'pre' else (w.init, 1)

    def last(self, w):
        return (w.cur, -1) if w.mode == 'pre' else (w.cur, 0)

    def ends(self, x):
        """((node, k) of the left end, (node, k) of the right end); k-th successor along the walk; None: unknown"""
        if x[0] == 'e':
            return (x[1], 0), (x[1], 0)
        w = x[1]
        a, b = self.first(w), self.last(w)
        if w.cut or w.poploops:
            b = (w.cur, b[1] - w.cut) if not w.poploops else None
        return (b, a) if w.rev else (a, b)

    def run(self, items):
        bad = None
        for x, y in zip(items, items[1:]):
            j = self.join(x, y)
            if j is None:
                self.res.count('joins_unknown')
            elif j != 1:
                bad = j
            else:
                self.res.count('joins')
        return bad

    def step_of(self, *xs):
        for x in xs:
            if x[0] == 'w':
                return x[1].S
        return None

    def join(self, x, y):
        """1: consecutive; 0: the same node twice; 2..: nodes are missing; None: unknown"""
        if x[0] == 'w' and y[0] == 'w':
            a, b = x[1], y[1]
            if a.mode != b.mode and a.cur[2] == b.cur[2] and a.poploops and a.poploops == b.poploops and self.to_none(a) and self.to_none(b):
                return 2                # one of them has a None at its end
            if a.rev or not b.rev or a.mode != b.mode:
                return None
            if a.poploops or b.poploops:
                if a.poploops == b.poploops and a.mode == 'pre' and self.to_none(a) and self.to_none(b):
                    return {0: 0, 1: 1}.get(a.cut + b.cut, 2)
                return None
            if a.lid == b.lid and self.eq(a.cur, b.cur) is True and a.mode == 'post':
                return {0: 0, 1: 1}.get(a.cut + b.cut, 2)
            return None
        ex, ey = self.ends(x)[1], self.ends(y)[0]
        if ex is None or ey is None:
            return None
        w = x[1] if x[0] == 'w' else y[1] if y[0] == 'w' else None
        if w is None:
            return None                 # two single nodes
        # distance along the walk from left to right
        S = w.S
        (p, i), (q, k) = ex, ey
        d = self.dist(S, p, q)
        if d is None:
            return None
        d += k - i
        if w.rev:
            d = -d
        if d == 1:
            return 1
        if d == 0:
            return 0
        return 2 if d > 1 else None

    def dist(self, S, p, q):
        """n with q the n-th successor of p along the walk"""
        a, b = p, q
        for n in range(4):
            if self.eq(a, q) is True:
                return n
            if self.eq(b, p) is True:
                return -n
            a, b = subst(S, HOLE, a), subst(S, HOLE, b)
        return None

    def to_none(self, w):
        return any(k == ('none', w.cur) and v is True for k, v in self.facts)

    def edge(self, items, left):
        """node at the end of the list, or None"""
        x = items[0] if left else items[-1]
        e = self.ends(x)[0 if left else 1]
        if e is None:
            return None
        w = x[1] if x[0] == 'w' else None
        n, k = e
        if k == 0:
            return n
        if k == 1 and w is not None:
            return subst(w.S, HOLE, n)
        return None


def lists(prog, res, meth, terms, opq, kind):
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, merge=False, terms=terms, keyerr=False,
                keep=lambda ev: ev[0] in ('lit', 'mut', 'loop', 'loopx') or ev[0] == 'call' and kind == 'getpath', opaque=composed(opq), tracked=None, untracked=frozenset(),
                **({'max_states': 4000} if kind == 'search' else {}))
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    it, outs = r
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    for st, o in outs:
        if o[0] != 'return' or o[1] is None:
            continue
        v = restrip(o[1])
        if kind == 'getpath':
            getpath(res, st, o, v, it, site0, meth)
            continue
        rp = Replay(res, meth, st, o, site0)
        items = rp.seqs.get(v) if v[0] == 'o' else None
        if items is None or not items or not any(x[0] == 'w' for x in items):
            continue
        res.count('lists')
        J = Judge(res, meth, rp, st, site0, kind)
        bad = J.run(items)
        if bad is not None:
            res.find('repeated' if bad == 0 else 'skipped', site0, '%s joint' % meth,
                     '%s %s' % (meth, 'lists the same node twice where two pieces of the walk meet' if bad == 0 else 'leaves a node out where two pieces of the walk meet'))
            continue
        a, b = J.edge(items, True), J.edge(items, False)
        if kind == 'path':
            for got, want, word in ((a, ('s', 'source'), 'starts'), (b, ('s', 'destination'), 'ends')):
                if got is None:
                    res.count('ends_unknown')
                elif J.eq(got, want) is not True:
                    other = ('s', 'destination') if word == 'starts' else ('s', 'source')
                    if J.eq(got, other) is True:
                        res.find('reversed', site0, '%s %s' % (meth, word), '%s returns the path from the destination to the source' % meth)
                    elif not opaque_amount(got) or got[0] in ('phi', 'i'):
                        res.find('ends', site0, '%s %s' % (meth, word), '%s returns a path that %s at %s' % (meth, word, norm(got)))
        elif kind == 'cycle':
            # the predecessor of the first node is the last one
            ws = [x[1] for x in items if x[0] == 'w']
            if any(not w.rev for w in ws):
                res.find('reversed', site0, meth, '%s lists the cycle against the direction of its arcs' % meth)
            closed(res, J, items, meth, site0)
        elif kind in ('pivot', 'undirected') and len({w.rev for w in [x[1] for x in items if x[0] == 'w']}) == 1 and \
                len([1 for x in items if x[0] == 'w']) == 2 and len({x[1].init for x in items if x[0] == 'w'}) == 2:
            res.find('reversed', site0, meth, '%s puts two walks in the same direction one after the other' % meth)
        elif kind == 'pivot':
            for got, want, word in ((a, ('s', 'l'), 'starts'), (b, ('s', 'k'), 'ends')):
                if got is not None and got[0] == 's' and got != want:
                    res.find('ends', site0, '%s %s' % (meth, word), '%s returns a cycle that %s at %s, not at %s' % (meth, word, norm(got), norm(want)))


def closed(res, J, items, meth, site0):
    """S(first) == last, from the condition under which the walk ended"""
    x, y = items[0], items[-1]
    w = x[1] if x[0] == 'w' else y[1] if y[0] == 'w' else items[1][1] if len(items) > 1 and items[1][0] == 'w' else None
    if w is None or not w.rev:
        return
    res.count('cycles')
    # left end (node, k)
    if x[0] == 'w':
        l = J.ends(x)[0]
    elif len(items) > 1 and items[1][0] == 'w':
        # [first] + walk: the walk comes back to the first node
        r = J.ends(y)[1]
        if r is not None and y[0] == 'w' and r[1] == 0 and r[0][0] in ('i', 's') and r[0] != subst(w.S, HOLE, x[1]):
            res.find('closed', site0, meth, '%s returns a cycle whose last node does not lead to its first' % meth)
        return
    else:
        return
    r = J.ends(y)[1]
    if l is None or r is None:
        return
    (p, i), (q, k) = l, r
    d = J.dist(w.S, p, q)
    if d is not None and d + k - i != 1:
        res.find('closed', site0, meth, '%s returns a cycle whose last node does not lead to its first' % meth)


def getpath(res, st, o, v, it, site0, meth):
    """path(i, k) + [j] with k before j"""
    if v[0] != 'o':
        return
    ob = st.objs.get(v[1])
    if ob is None:
        return
    I, J = ('s', 'i'), ('s', 'j')
    signs = merged(list(st.signs.items()))
    K = ('i', ('s', 'nextn'), ('t', I, J))
    segs = [(s[0],) + tuple(restrip(x) if isinstance(x, tuple) else x for x in s[1:]) for s in ob.items]
    calls = {}
    for e in st.events():
        if e[0] == 'call' and e[3] == meth:
            calls[('r', 'rec', meth, e[6][1]) if e[6][0] == 'rec' else restrip(e[6])] = [restrip(x) for x in e[4]]
    nodes = []
    for s in segs:
        if s[0] == 'e':
            nodes.append((s[1], s[1]))
        elif s[0] == 'star':
            t = s[1]
            while t[0] in ('elems', 'list') and isinstance(t[1], tuple):
                t = t[1]
            if t not in calls or len(calls[t]) < 4:
                return
            nodes.append((calls[t][2], calls[t][3]))
        else:
            return
    if not nodes:
        return
    res.count('lists')
    res.count('walks')
    eq = lambda a, b: a == b or diff_sign(signs, a, b) == {0}
    if not eq(nodes[0][0], I) or not eq(nodes[-1][1], J):
        res.find('ends', site0, meth, '%s returns a path from %s to %s' % (meth, norm(nodes[0][0]), norm(nodes[-1][1])))
        return
    for (a, b), (c, d) in zip(nodes, nodes[1:]):
        # b precedes c
        if b == ('i', ('s', 'nextn'), ('t', I, c)):
            continue
        if eq(c, J) and eq(b, K):
            continue
        if eq(b, c):
            res.find('repeated', site0, meth, '%s lists %s twice' % (meth, norm(b)))
        else:
            res.find('skipped', site0, meth, '%s puts %s before %s' % (meth, norm(b), norm(c)))


def negative(prog, res):
    """a cycle is looked for only at a node whose distance to itself is below zero"""
    meth = 'floyd_warshall_get_cycle'
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, merge=False, keyerr=False, keep=lambda ev: ev[0] in ('loop', 'loopx', 'call'),
                opaque=composed((meth,)), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    E, DIST = ('s', 'element'), ('s', 'distance')
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        for k, sg in st.signs.items():
            c, m = lin_parts(restrip(k))
            for t, f in m.items():
                if c == 0 and len(m) == 1 and t[0] == 'i' and t[1] == DIST and t[2][0] == 't' and t[2][1] == t[2][2] and (t[2][1] == E or t[2][1][0] == 'el'):
                    res.count('picked')
                    if not {x * f for x in sg} <= {-1}:
                        res.find('not-negative', site0, 'given' if t[2][1] == E else 'picked', '%s looks for a cycle at a node whose '
                                 'distance to itself need not be below zero' % meth)


def jobs(prog, tier):
    yield 'floyd_warshall_get_cycle/negative', negative, ()
    off = {'display': C('off')}
    yield 'search', lists, ('search', dict(off, reverse=C(False), component=NONE_T), ('display', 'process_edge_search', 'process_node_search', 'set_display_mode'), 'path')
    yield 'acyclic_shortest_path', lists, ('acyclic_shortest_path', {}, ('display', 'dfs'), 'path')
    yield 'floyd_warshall_get_path', lists, ('floyd_warshall_get_path', {}, (), 'getpath')
    yield 'floyd_warshall_get_cycle', lists, ('floyd_warshall_get_cycle', {}, (), 'cycle')
    yield 'label_correcting_get_cycle', lists, ('label_correcting_get_cycle', {}, (), 'cycle')
    yield 'simplex_find_cycle', lists, ('simplex_find_cycle', {}, (), 'undirected')
    yield 'simplex_identify_cycle', lists, ('simplex_identify_cycle', {}, (), 'pivot')


NONE_T = C(None)
