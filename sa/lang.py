"""Regular languages over an alphabet of character classes: automata, regular expressions, string transducers."""
import re
import re._parser as sp
import re._constants as sc

MAXC = 0x10FFFF


class Unknown(Exception):
    pass


# ---- character sets: sorted tuples of disjoint (lo, hi) ---------------------------------------------------
def cs_norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


ANY = ((0, MAXC),)


def cs_not(a):
    out, p = [], 0
    for lo, hi in a:
        if lo > p:
            out.append((p, lo - 1))
        p = hi + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


def cs_or(*s):
    return cs_norm([iv for a in s for iv in a])


def cs_and(a, b):
    return cs_not(cs_or(cs_not(a), cs_not(b)))


def cs_chars(text):
    return cs_norm([(ord(c), ord(c)) for c in text])


_pred = {}


def cs_pred(name):
    """characters with a property of the language itself (str.isalnum, regular expression classes, ...)"""
    if name not in _pred:
        if name in ('d', 'w', 's'):
            r = re.compile('\\' + name)
            f = lambda c: r.match(c) is not None
        else:
            f = getattr(str, name)
            if name == 'isidentifier':
                f = lambda c: ('a' + c).isidentifier()
        iv, lo = [], None
        for i in range(MAXC + 1):
            if f(chr(i)):
                if lo is None:
                    lo = i
            elif lo is not None:
                iv.append((lo, i - 1))
                lo = None
        if lo is not None:
            iv.append((lo, MAXC))
        _pred[name] = tuple(iv)
    return _pred[name]


class Alphabet:
    """the coarsest partition of the characters that every given set is a union of"""

    def __init__(self, sets):
        sets = [s for s in dict.fromkeys(sets)]
        cuts = sorted({0, MAXC + 1} | {lo for s in sets for lo, _ in s} | {hi + 1 for s in sets for _, hi in s})
        seg = [(a, b - 1) for a, b in zip(cuts, cuts[1:])]
        import bisect
        sig = [[] for _ in seg]
        starts = [a for a, _ in seg]
        for n, s in enumerate(sets):
            for lo, hi in s:
                i = bisect.bisect_left(starts, lo)
                while i < len(seg) and seg[i][0] <= hi:
                    sig[i].append(n)
                    i += 1
        classes = {}
        for s, g in zip(seg, sig):
            classes.setdefault(tuple(g), []).append(s)
        self.sets = [tuple(v) for v in classes.values()]
        self.n = len(self.sets)
        self.cache = {}
        self.rep = []
        for s in self.sets:
            best = None
            for lo, hi in s:
                for c in list(range(max(lo, 33), min(hi, 126) + 1))[:1] + [lo]:
                    if best is None or (33 <= c <= 126 and not 33 <= best <= 126):
                        best = c
            self.rep.append(chr(best) if not 0xD800 <= best <= 0xDFFF else '?')

    def of(self, s):
        if s not in self.cache:
            out = set()
            for i, c in enumerate(self.sets):
                x = cs_and(s, c)
                if x == cs_norm(c):
                    out.add(i)
                elif x:
                    raise Unknown('character set outside the alphabet')
            self.cache[s] = frozenset(out)
        return self.cache[s]

    def sym(self, ch):
        s = self.of(cs_chars(ch))
        return next(iter(s))

    def syms(self, text):
        return [self.sym(c) for c in text]


class DFA:
    """complete deterministic automaton: trans[q][symbol]"""

    def __init__(self, ab, trans, start, acc):
        self.ab, self.trans, self.start, self.acc = ab, trans, start, frozenset(acc)

    def step(self, q, s):
        return self.trans[q][s]

    def run(self, q, syms):
        for s in syms:
            q = self.trans[q][s]
        return q

    def product(self, o, f):
        ids, trans, acc, todo = {(self.start, o.start): 0}, [], set(), [(self.start, o.start)]
        k = 0
        while k < len(todo):
            a, b = todo[k]
            if f(a in self.acc, b in o.acc):
                acc.add(k)
            row = []
            for s in range(self.ab.n):
                t = (self.trans[a][s], o.trans[b][s])
                if t not in ids:
                    ids[t] = len(todo)
                    todo.append(t)
                    if len(todo) > 200000:
                        raise Unknown('automaton too large')
                row.append(ids[t])
            trans.append(row)
            k += 1
        return DFA(self.ab, trans, 0, acc).minimal()

    def __and__(self, o):
        return self.product(o, lambda a, b: a and b)

    def __or__(self, o):
        return self.product(o, lambda a, b: a or b)

    def __sub__(self, o):
        return self.product(o, lambda a, b: a and not b)

    def __invert__(self):
        return DFA(self.ab, self.trans, self.start, set(range(len(self.trans))) - self.acc)

    def minimal(self):
        n = len(self.trans)
        part = [1 if q in self.acc else 0 for q in range(n)]
        cnt = len(set(part))
        while True:
            sig = {}
            new = []
            for q in range(n):
                k = (part[q],) + tuple(part[t] for t in self.trans[q])
                new.append(sig.setdefault(k, len(sig)))
            part = new
            if len(sig) == cnt:
                break
            cnt = len(sig)
        trans = [None] * cnt
        acc = set()
        for q in range(n):
            p = part[q]
            if trans[p] is None:
                trans[p] = [part[t] for t in self.trans[q]]
            if q in self.acc:
                acc.add(p)
        return DFA(self.ab, trans, part[self.start], acc)

    def empty(self):
        return self.example() is None

    def example(self):
        """a shortest word, as text"""
        seen, todo = {self.start: ''}, [self.start]
        for q in todo:
            if q in self.acc:
                return seen[q]
            for s, t in enumerate(self.trans[q]):
                if t not in seen:
                    seen[t] = seen[q] + self.ab.rep[s]
                    todo.append(t)
        return None


class NFA:
    def __init__(self, ab):
        self.ab, self.eps, self.arc = ab, [], []     # eps[q] = [(t, guard)], arc[q] = [(set, t)]

    def new(self):
        self.eps.append([])
        self.arc.append([])
        return len(self.eps) - 1

    def e(self, a, b, guard=None):
        self.eps[a].append((b, guard))

    def c(self, a, syms, b):
        self.arc[a].append((syms, b))

    def embed(self, d):
        """copy of a DFA between two new states"""
        s, t = self.new(), self.new()
        base = len(self.eps)
        for _ in d.trans:
            self.new()
        self.e(s, base + d.start)
        for q, row in enumerate(d.trans):
            by = {}
            for x, r in enumerate(row):
                by.setdefault(r, set()).add(x)
            for r, xs in by.items():
                self.c(base + q, frozenset(xs), base + r)
            if q in d.acc:
                self.e(base + q, t)
        return s, t


def determinize(ab, start, moves, accepting, closure):
    """moves(state) -> {symbol: [states]}; states are hashable; closure(set of states)"""
    s0 = closure(frozenset(start))
    ids, todo, trans, acc = {s0: 0}, [s0], [], set()
    k = 0
    while k < len(todo):
        S = todo[k]
        if any(accepting(q) for q in S):
            acc.add(k)
        tgt = {}
        for q in S:
            for x, ts in moves(q).items():
                tgt.setdefault(x, set()).update(ts)
        row = []
        for x in range(ab.n):
            T = closure(frozenset(tgt.get(x, ())))
            if T not in ids:
                ids[T] = len(todo)
                todo.append(T)
                if len(todo) > 50000:
                    raise Unknown('automaton too large')
            row.append(ids[T])
        trans.append(row)
        k += 1
    return DFA(ab, trans, 0, acc).minimal()


# ---- regular expressions -----------------------------------------------------------------------------------
CATEGORY = {'CATEGORY_DIGIT': 'd', 'CATEGORY_WORD': 'w', 'CATEGORY_SPACE': 's'}


def parse(pat, flags=0):
    try:
        return sp.parse(pat, flags)
    except re.error:
        raise Unknown('regular expression %r' % pat)


def in_set(items, flags):
    neg, s = False, []
    for op, av in items:
        op = str(op)
        if op == 'NEGATE':
            neg = True
        elif op == 'LITERAL':
            s.append(lit_set(av, flags))
        elif op == 'RANGE':
            s.append(fold(((av[0], av[1]),), flags))
        elif op == 'CATEGORY':
            s.append(cat_set(str(av), flags))
        else:
            raise Unknown('regular expression set ' + op)
    r = cs_or(*s) if s else ()
    return cs_not(r) if neg else r


def cat_set(name, flags):
    neg = '_NOT_' in name
    k = CATEGORY.get(name.replace('_NOT', ''))
    if k is None:
        raise Unknown(name)
    if flags & re.ASCII:
        s = {'d': cs_norm([(48, 57)]), 'w': cs_norm([(48, 57), (65, 90), (95, 95), (97, 122)]), 's': cs_chars(' \t\n\r\f\v')}[k]
    else:
        s = cs_pred(k)
    return cs_not(s) if neg else s


def lit_set(c, flags):
    return fold(((c, c),), flags)


def fold(s, flags):
    if not flags & re.IGNORECASE:
        return s
    out = list(s)
    for lo, hi in s:
        if hi > 127:
            raise Unknown('case folding outside ASCII')
        for c in range(lo, hi + 1):
            ch = chr(c)
            if ch.isalpha():
                out += [(ord(x), ord(x)) for x in (ch.lower(), ch.upper())]
                if ch.lower() == 'k' and not flags & re.ASCII:
                    out.append((0x212A, 0x212A))
                if ch.lower() == 's' and not flags & re.ASCII:
                    out.append((0x17F, 0x17F))
    return cs_norm(out)


def re_sets(pat, flags=0):
    """character sets a regular expression mentions"""
    out = []

    def go(seq, flags):
        for op, av in seq:
            op = str(op)
            if op in ('LITERAL', 'NOT_LITERAL'):
                out.append(lit_set(av, flags))
            elif op == 'ANY':
                out.append(cs_chars('\n'))
            elif op == 'IN':
                out.append(in_set(av, flags))
            elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                go(av[2], flags)
            elif op == 'SUBPATTERN':
                go(av[3], (flags | av[1]) & ~av[2])
            elif op == 'BRANCH':
                for b in av[1]:
                    go(b, flags)
            elif op in ('ASSERT', 'ASSERT_NOT'):
                go(av[1], flags)
            elif op == 'ATOMIC_GROUP':
                go(av, flags)
    p = parse(pat, flags)
    go(p, p.state.flags)
    return out + [cs_chars('\n')]


class Builder:
    def __init__(self, ab, groups=None):
        self.ab, self.n, self.groups, self.anchored = ab, NFA(ab), groups or {}, False

    def seq(self, seq, flags, rep=False):
        s = cur = self.n.new()
        for op, av in seq:
            a, b = self.item(str(op), av, flags, rep)
            self.n.e(cur, a)
            cur = b
        return s, cur

    def chars(self, s):
        a, b = self.n.new(), self.n.new()
        self.n.c(a, self.ab.of(s), b)
        return a, b

    def item(self, op, av, flags, rep):
        n = self.n
        if op == 'LITERAL':
            return self.chars(lit_set(av, flags))
        if op == 'NOT_LITERAL':
            return self.chars(cs_not(lit_set(av, flags)))
        if op == 'ANY':
            return self.chars(ANY if flags & re.DOTALL else cs_not(cs_chars('\n')))
        if op == 'IN':
            return self.chars(in_set(av, flags))
        if op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            s = cur = n.new()
            if lo > 50 or (hi is not sc.MAXREPEAT and hi > 50):
                raise Unknown('large repetition')
            for _ in range(lo):
                a, b = self.seq(sub, flags, True)
                n.e(cur, a)
                cur = b
            if hi is sc.MAXREPEAT:
                a, b = self.seq(sub, flags, True)
                t = n.new()
                n.e(cur, t)
                n.e(t, a)
                n.e(b, t)
                return s, t
            t = n.new()
            n.e(cur, t)
            for _ in range(hi - lo):
                a, b = self.seq(sub, flags, True)
                n.e(cur, a)
                n.e(b, t)
                cur = b
            return s, t
        if op == 'SUBPATTERN':
            g, add, rem, p = av
            f = (flags | add) & ~rem
            if g is not None and g in self.groups:
                if rep:
                    raise Unknown('group under repetition')
                d = self.groups[g]
                own = Builder(self.ab)
                a, b = own.seq(p, f)
                if own.anchored:
                    raise Unknown('anchor in a group')
                return n.embed(own.dfa(a, b, 'full') & d)
            return self.seq(p, f, rep)
        if op == 'BRANCH':
            s, t = n.new(), n.new()
            for p in av[1]:
                a, b = self.seq(p, flags, rep)
                n.e(s, a)
                n.e(b, t)
            return s, t
        if op == 'AT':
            self.anchored = True
            k = str(av)
            if flags & re.MULTILINE and k in ('AT_BEGINNING', 'AT_END'):
                raise Unknown('multi-line anchor')
            g = {'AT_BEGINNING': 'start', 'AT_BEGINNING_STRING': 'start', 'AT_END': 'endnl', 'AT_END_STRING': 'end'}.get(k)
            if g is None:
                raise Unknown(k)
            a, b = n.new(), n.new()
            n.e(a, b, g)
            return a, b
        raise Unknown('regular expression operator ' + op)

    def dfa(self, s, t, mode):
        """states (q, started, what may follow): mode 'match' / 'full' / 'search'"""
        n, ab = self.n, self.ab
        nl = ab.of(cs_chars('\n'))
        everything = frozenset(range(ab.n))
        TAIL, HEAD = -1, -2

        def closure(S):
            seen, todo = set(S), list(S)
            while todo:
                q, started, rest = todo.pop()
                nxt = []
                if q == HEAD:
                    nxt.append((s, started, rest))
                elif q == t and mode != 'full':
                    nxt.append((TAIL, started, rest))
                if q >= 0:
                    for r, g in n.eps[q]:
                        if g is None:
                            nxt.append((r, started, rest))
                        elif g == 'start':
                            if not started:
                                nxt.append((r, started, rest))
                        elif g == 'end':
                            nxt.append((r, started, 0))
                        elif g == 'endnl':
                            nxt.append((r, started, min(rest, 1)))
                for x in nxt:
                    if x not in seen:
                        seen.add(x)
                        todo.append(x)
            return frozenset(seen)

        def moves(x):
            q, started, rest = x
            if rest == 0:
                return {}
            ok = everything if rest == 2 else nl
            nr = 2 if rest == 2 else 0
            out = {}
            if q in (TAIL, HEAD):
                for c in ok:
                    out.setdefault(c, []).append((q, True, nr))
                return out
            for syms, r in n.arc[q]:
                for c in syms & ok:
                    out.setdefault(c, []).append((r, True, nr))
            return out

        def accepting(x):
            return x[0] == TAIL or mode == 'full' and x[0] == t
        return determinize(ab, [(HEAD if mode == 'search' else s, False, 2)], moves, accepting, closure)


def regex(ab, pat, flags=0, mode='full', groups=None):
    p = parse(pat, flags)
    b = Builder(ab, groups)
    s, t = b.seq(p, p.state.flags)
    return b.dfa(s, t, mode)


def group_language(ab, pat, flags, g):
    """words the group can match"""
    p = parse(pat, flags)
    found = []

    def go(seq, fl, rep):
        for op, av in seq:
            op = str(op)
            if op == 'SUBPATTERN':
                f = (fl | av[1]) & ~av[2]
                if av[0] == g:
                    found.append((av[3], f, rep))
                go(av[3], f, rep)
            elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
                go(av[2], fl, True)
            elif op == 'BRANCH':
                for x in av[1]:
                    go(x, fl, True)
    go(p, p.state.flags, False)
    if len(found) != 1 or found[0][2]:
        raise Unknown('group of a regular expression')
    b = Builder(ab)
    s, t = b.seq(found[0][0], found[0][1])
    if b.anchored:
        raise Unknown('anchor in a group')
    return b.dfa(s, t, 'full')


def words(ab, ws):
    """finite language"""
    n = NFA(ab)
    s, t = n.new(), n.new()
    for w in ws:
        cur = s
        for c in w:
            x = n.new()
            n.c(cur, frozenset((ab.sym(c),)), x)
            cur = x
        n.e(cur, t)
    b = Builder(ab)
    b.n = n
    return b.dfa(s, t, 'full')


def everything(ab):
    return DFA(ab, [[0] * ab.n], 0, {0})


def nothing(ab):
    return DFA(ab, [[0] * ab.n], 0, ())


def containing(ab, chars):
    """words with a character of the set"""
    s = ab.of(chars)
    return DFA(ab, [[1 if x in s else 0 for x in range(ab.n)], [1] * ab.n], 0, {1})


def substring(ab, w):
    if not w:
        return everything(ab)
    return regex(ab, re.escape(w), re.DOTALL, 'search')


def lengths(ab, f, upto=12):
    """words whose length satisfies f (constant from upto on)"""
    tr = [[min(i + 1, upto)] * ab.n for i in range(upto + 1)]
    return DFA(ab, tr, 0, {i for i in range(upto + 1) if f(i)})


# ---- transducers ---------------------------------------------------------------------------------------------
# step(state, symbol) -> [(state, output symbols)], final(state) -> [output symbols] ([] when not accepting)
class Hom:
    """every character replaced on its own"""

    def __init__(self, ab, m):
        self.ab, self.m, self.start = ab, m, 0

    def step(self, q, s):
        return [(0, self.m.get(s, (s,)))]

    def final(self, q):
        return [()]


class Wrap:
    def __init__(self, ab, pre, post):
        self.pre, self.post, self.start = tuple(ab.syms(pre)), tuple(ab.syms(post)), 0

    def step(self, q, s):
        return [(1, (self.pre if q == 0 else ()) + (s,))]

    def final(self, q):
        return [(self.pre if q == 0 else ()) + self.post]


class Replace:
    """str.replace(old, new) with a non-empty literal"""

    def __init__(self, ab, old, new):
        self.old, self.new, self.start = tuple(ab.syms(old)), tuple(ab.syms(new)), 0
        if not self.old:
            raise Unknown('replacement of the empty string')

    def step(self, q, s):
        # the longest suffix of (matched prefix + s) that is a prefix of old; what drops out is copied
        buf = self.old[:q] + (s,)
        if buf == self.old:
            return [(0, self.new)]
        for k in range(min(len(buf), len(self.old) - 1), -1, -1):
            if buf[len(buf) - k:] == self.old[:k]:
                return [(k, buf[:len(buf) - k])]
        raise Unknown('replace')

    def final(self, q):
        return [self.old[:q]]


class Sub:
    """re.sub of a one-character pattern with a lookahead: the rest of the word is in / not in a language (DFA)"""

    def __init__(self, ab, chars, rest, neg, new):
        self.chars, self.rest, self.neg, self.new = chars, rest, neg, tuple(new)
        self.start = (frozenset(), frozenset())

    def step(self, q, s):
        must, mustnot = q
        must = frozenset(self.rest.step(x, s) for x in must)
        mustnot = frozenset(self.rest.step(x, s) for x in mustnot)
        if s not in self.chars:
            return [((must, mustnot), (s,))]
        yes, no = ((must | {self.rest.start}, mustnot), (must, mustnot | {self.rest.start}))
        if self.neg:
            yes, no = no, yes
        return [(x, y) for x, y in ((yes, self.new), (no, (s,))) if not (x[0] & x[1])]

    def final(self, q):
        if all(x in self.rest.acc for x in q[0]) and not any(x in self.rest.acc for x in q[1]):
            return [()]
        return []


def image(L, T):
    """outputs of the transducer on the words of L"""
    ab = L.ab
    # states (q, t, pending output)
    def moves(x):
        q, t, pend = x
        return {pend[0]: [(q, t, pend[1:])]} if pend and pend[0] != 'end' else {}

    def closure(S):
        seen, todo = set(S), list(S)
        while todo:
            q, t, pend = todo.pop()
            if pend:
                continue
            nxt = []
            for s in range(ab.n):
                for t2, out in T.step(t, s):
                    nxt.append((L.trans[q][s], t2, tuple(out)))
            if q in L.acc:
                for out in T.final(t):
                    nxt.append(('F', None, tuple(out)))
            for x in nxt:
                if x not in seen:
                    seen.add(x)
                    if x[0] != 'F' and not x[2]:
                        todo.append(x)
                    if len(seen) > 200000:
                        raise Unknown('transducer too large')
        return frozenset(seen)
    live = alive(L)

    def prune(S):
        return frozenset(x for x in closure(S) if x[0] == 'F' or x[0] in live)
    return determinize(ab, [(L.start, T.start, ())], moves, lambda x: x[0] == 'F' and not x[2], prune)


def alive(L):
    rev = {}
    for q, row in enumerate(L.trans):
        for t in set(row):
            rev.setdefault(t, set()).add(q)
    seen, todo = set(L.acc), list(L.acc)
    while todo:
        for p in rev.get(todo.pop(), ()):
            if p not in seen:
                seen.add(p)
                todo.append(p)
    return seen


def preimage(T, R):
    """words whose output is in R"""
    ab = R.ab

    def moves(x):
        t, r = x
        out = {}
        for s in range(ab.n):
            for t2, o in T.step(t, s):
                out.setdefault(s, []).append((t2, R.run(r, o)))
        return out
    return determinize(ab, [(T.start, R.start)], moves, lambda x: any(R.run(x[1], o) in R.acc for o in T.final(x[0])), lambda S: S)


def search(M, Ts, R):
    """a word of M whose output under the chain of transducers is in R: (word, output) as text, or None"""
    ab = M.ab
    live = alive(M)
    rlive = alive(R)

    memo = {}

    def feed(ts, r, syms, k):
        """outputs of stage k.. on syms: [(transducer states, R state, output)]"""
        if k == len(Ts):
            return [(ts, R.run(r, syms), tuple(syms))]
        key = (k, ts[k], syms)
        cur = memo.get(key)
        if cur is None:
            cur = [(ts[k], ())]
            for s in syms:
                cur = [(t2, o + tuple(out)) for t, o in cur for t2, out in Ts[k].step(t, s)]
            memo[key] = cur
        res = []
        for t, o in cur:
            res += feed(ts[:k] + (t,) + ts[k + 1:], r, o, k + 1)
        return res

    def finish(ts, r, k):
        if k == len(Ts):
            return [()] if r in R.acc else []
        res = []
        for tail in Ts[k].final(ts[k]):
            # the tail goes through the later stages, which then finish themselves
            for ts2, r2, o in feed(ts, r, tail, k + 1):
                for rest in finish(ts2, r2, k + 1):
                    res.append(o + rest)
        return res
    start = (M.start, tuple(T.start for T in Ts), R.start)
    seen, todo = {start: None}, [start]
    for x in todo:
        q, ts, r = x
        if q in M.acc:
            for tail in finish(ts, r, 0):
                word, out = '', ''.join(ab.rep[s] for s in tail)
                while seen[x] is not None:
                    x, s, o = seen[x]
                    word = ab.rep[s] + word
                    out = ''.join(ab.rep[c] for c in o) + out
                return word, out
        for s in range(ab.n):
            q2 = M.trans[q][s]
            if q2 not in live:
                continue
            for ts2, r2, o in feed(ts, r, (s,), 0):
                y = (q2, ts2, r2)
                if r2 in rlive and y not in seen:
                    seen[y] = (x, s, o)
                    todo.append(y)
                    if len(seen) > 400000:
                        raise Unknown('search too large')
    return None
