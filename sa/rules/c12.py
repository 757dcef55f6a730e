"""C12: names and values cannot break the DOT text."""
import ast
from .base import *
from ..lang import Alphabet, cs_chars, cs_norm, regex, words, everything, re_sets, Unknown, DFA, search
from ..strfun import Strings, INPUT, mentioned, K

ID = 'C12'
TECHNIQUE = 'regular-language abstract interpretation of the quoting functions, plus taint analysis of the emitted text'
RULE = ('every name and value reaches the DOT text only through a quoting function; for every string, what that function returns is a legal DOT '
        'identifier (bare, with a port only for node names, double-quoted with its inner quotes escaped, or balanced HTML), and text that is already '
        'quoted, wrapped as HTML or a DOT keyword comes out unchanged')
EXPLANATION = ('Node.to_string, Graph.edge_to_string and Graph.to_string are interpreted abstractly and every piece of text they put together is '
               'classified; each quoting function found is then evaluated on regular languages (a finite automaton of the inputs for each path, '
               'transducers for replacements) and the automaton of its results is compared with the automaton of legal identifiers.')
MINIMUM = {'pieces': 6}

LETTER = '[a-zA-Z_\u0080-\U0010ffff]'
IDP = LETTER + '[a-zA-Z_0-9\u0080-\U0010ffff]*'
NUMP = r'-?(\.[0-9]+|[0-9]+(\.[0-9]*)?)'
QP = r'"([^"\\]|\\.)*"'
HTML2 = r'<([^<>]|<[^<>]*>)*>'
KEYWORDS = ('graph', 'subgraph', 'digraph', 'node', 'edge', 'strict')
NAMES = ('quote_if_necessary', 'needs_quotes')


def spec_sets():
    s = re_sets(IDP) + re_sets(NUMP) + re_sets(QP, 16) + re_sets(HTML2) + [cs_chars(c) for k in KEYWORDS for c in k]
    return s + [cs_chars(c) for c in '"\\<>:;{}[]=,\n\r\t \x00-.&\'']


def html(ab, depth=6, deep=True):
    """words that start with < and are balanced as a whole (deeper nesting is not judged)"""
    lt, gt = ab.sym('<'), ab.sym('>')
    # states: 0 start, 1..depth nesting, depth+1 beyond (accepted), depth+2 closed, depth+3 dead
    D, OK, DEAD = depth + 1, depth + 2, depth + 3
    tr = []
    for q in range(depth + 4):
        row = []
        for x in range(ab.n):
            if q == 0:
                row.append(1 if x == lt else DEAD)
            elif q <= depth:
                row.append(q + 1 if x == lt else (q - 1 if q > 1 else OK) if x == gt else q)
            elif q == D:
                row.append(D)
            else:
                row.append(DEAD)
        tr.append(row)
    return DFA(ab, tr, 0, {D, OK} if deep else {OK}).minimal()


def many(ab, c, n):
    x = ab.sym(c)
    return DFA(ab, [[min(i + (s == x), n) for s in range(ab.n)] for i in range(n + 1)], 0, {n})


class Spec:
    def __init__(self, ab):
        I = regex(ab, IDP) | regex(ab, NUMP) | regex(ab, QP, 16) | html(ab)
        kw = words(ab, KEYWORDS)
        self.bare = I | kw
        J = regex(ab, IDP) | regex(ab, NUMP) | regex(ab, QP, 16) | html(ab, deep=False)
        self.port = I | kw | self.ported(ab, J | kw) | many(ab, '<', 7)
        self.through = regex(ab, QP, 16) | regex(ab, HTML2) | kw

    def ported(self, ab, I):
        from ..lang import NFA, Builder
        b = Builder(ab)
        n = b.n
        s = n.new()
        a1, z1 = n.embed(I)
        a2, z2 = n.embed(I)
        a3, z3 = n.embed(I)
        t = n.new()
        col = frozenset((ab.sym(':'),))
        n.e(s, a1)
        n.c(z1, col, a2)
        n.c(z2, col, a3)
        n.e(z2, t)
        n.e(z3, t)
        return b.dfa(s, t, 'full')


def candidates(prog):
    """functions called (transitively) by the text-producing methods"""
    from collections import OrderedDict
    out, todo = OrderedDict(), []
    for c, mname in (('Node', 'to_string'), ('Graph', 'edge_to_string'), ('Graph', 'to_string')):
        f = prog.classes[c].lookup(mname) if c in prog.classes else None
        if f is not None:
            todo.append(f)
    seen = set()
    while todo:
        f = todo.pop()
        if id(f.node) in seen:
            continue
        seen.add(id(f.node))
        for n in ast.walk(f.node):
            g = None
            if isinstance(n, ast.Name):
                b = prog.lookup(f.module, n.id)
                if b is not None and b[0] == 'func':
                    g = b[1]
            elif isinstance(n, ast.Attribute):
                b = prog.resolve_expr_static(f.module, n)
                if b and b[0] == 'func':
                    g = b[1]
            if g is not None:
                out[g.name] = g
                todo.append(g)
    return out


_cache = {}


def quoting(prog):
    """{name: (Strings, function)} of the functions that map one string to another"""
    if id(prog) in _cache:
        return _cache[id(prog)]
    res = {}
    for name, f in candidates(prog).items():
        try:
            ab = Alphabet(spec_sets() + mentioned(prog, f))
            S = Strings(prog, ab)
            r = S.call(f, [INPUT], {}, everything(ab))
            if any(v[0] == 's' for _, v in r):
                res[name] = (S, f)
        except (Unknown, RecursionError, ValueError, IndexError, KeyError, TypeError, AttributeError):
            if name in NAMES:
                res[name] = (None, f)
    _cache.clear()
    _cache[id(prog)] = res
    return res


def destr(t):
    """(term without str(), was it made a string)"""
    s = False
    while t[0] == 'pf' and t[1] == 'str' and len(t) == 3:
        t, s = t[2], True
    return t, s


def pieces(t):
    """the pieces a text term is put together from"""
    if t[0] == 'cat':
        for x in t[1:]:
            yield from pieces(x)
    elif t[0] == 'pf' and t[1] in ('str',) and len(t) == 3 and t[2][0] in ('cat', 'pf'):
        yield from pieces(t[2])
    elif t[0] in ('sstar', 'srep'):
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] not in ('c',):
                yield from pieces(x)
    elif t[0] == 'pf' and t[1] in ('join', 'fmt'):
        for x in t[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from pieces(x)
    elif t[0] in ('L',):
        for x in t[2:]:
            if isinstance(x, tuple) and x and x[0] == 'e':
                yield from pieces(x[1])
    else:
        yield t


def user(t, cls, e=('s', 'e')):
    """('name'|'value', what) when the term is text supplied by the user"""
    t, _ = destr(t)
    if t[0] == 'f' and t[2] == 'name':
        return ('name', 'the name of a node') if cls == 'Node' or t[1] != SELF else ('value', 'the name of the graph')
    if t == e:
        return ('name', 'an edge')
    if t[0] == 'i' and t[1] == e and t[2] in (C(0), C(1)):
        return ('name', 'the name of a node')
    if t[0] == 'i' and t[1][0] == 'el' and t[2] in (C(0), C(1)):
        return ('name', 'the name of a node')
    if t[0] == 'i':
        b = t[1]
        if b[0] == 'f' and b[2] == 'attr':
            return ('value', 'an attribute value')
        if b[0] == 'i' and b[1][0] == 'f' and b[1][2] == 'edge_attr':
            return ('value', 'an edge attribute value')
        if b[0] == 'i' and b[2] in (C('attrs'), C('node_attrs')):
            return ('value', 'a cluster attribute value')
    if t[0] == 'el':
        s = t[2]
        while s[0] in ('sorted', 'rev', 'slice'):
            s = s[1]
        if s[0] in ('keys', 'elems'):
            b = s[1]
            if b[0] == 'f' and b[2] in ('nodes', 'neighbors', 'in_neighbors'):
                return ('name', 'the name of a node')
            if b[0] == 'f' and b[2] == 'cluster':
                return ('value', 'the name of a cluster')
            if b[0] == 'i' and b[2] == C('node_list'):
                return ('name', 'the name of a node')
    return None


def text_terms(st, o, txt):
    """terms of text put together on a path: (site, term)"""
    def go(events, site):
        for e in events:
            if e[0] == 'mut' and e[3] in ('append', 'insert', 'extend', 'appendleft') and e[2][0] == 'o':
                for a in e[4]:
                    yield e[1], a
            elif e[0] == 'ecall' and e[3] in ('write', 'writelines'):
                for a in e[4]:
                    yield e[1], a
            elif e[0] == 'lit':
                for s in e[3]:
                    if isinstance(s, tuple) and s and s[0] == 'e':
                        yield e[1], s[1]
            elif e[0] in ('loop', 'loopx'):
                for a in e[4]:
                    yield from go(a[0], site)
                    for n, v in dict(a[3] or ()).items() if a[3] else ():
                        if isinstance(v, tuple) and v and v[0] == 'cat':
                            yield e[1], v
    yield from go(st.events(), None)
    if o[0] == 'return' and isinstance(o[1], tuple):
        yield txt, o[1]


def calls(st, names):
    out = {}

    def go(events):
        for e in events:
            if e[0] == 'call' and e[3] in names:
                out[e[6]] = e
            elif e[0] in ('loop', 'loopx'):
                for a in e[4]:
                    go(a[0])
    go(list(st.events()))
    return out


def show_text(w):
    return repr(w)


def language(S, arg):
    """the strings an argument term can be, None when it may be something else than a string"""
    ab = S.ab
    t, s = destr(arg)
    if t[0] == 'cat':
        pat, n = '', 0
        for x in t[1:]:
            if x[0] == 'c' and x[1] == 'str':
                import re
                pat += re.escape(x[2])
            else:
                pat += '(.*)'
                n += 1
        try:
            return regex(ab, pat, 16)
        except Unknown:
            return everything(ab)
    return everything(ab)


def judge(prog, res, Q, name, ev, what, kind, site, it, st):
    S, f = Q[name]
    if S is None:
        res.note(f'{name}: not understood')
        return
    args, kw = list(ev[4]), dict(ev[5])
    datum = None
    pos = None
    for i, a in enumerate(args):
        if a[0] != 'c':
            if pos is not None:
                res.note(f'{name}: several arguments')
                return
            pos = i
    if pos is None or any(v[0] != 'c' for v in kw.values()):
        res.note(f'{name}: arguments not understood')
        return
    L = language(S, args[pos])
    k = (name, pos, tuple(a if i != pos else None for i, a in enumerate(args)), tuple(sorted(kw.items())), kind == 'name', destr(args[pos])[0][0] == 'cat')
    done = _cache.setdefault('judged', {})
    key = (id(prog), k)
    vals = [INPUT if i == pos else K(a[2]) for i, a in enumerate(args)]
    kws = {n: K(v[2]) for n, v in kw.items()}
    fsite = (f.module.path, f.node.lineno, f.qual)
    try:
        if key not in done:
            done[key] = evaluate(S, f, vals, kws, L, kind)
        bad = done[key]
    except (Unknown, RecursionError, ValueError, IndexError, KeyError, TypeError, AttributeError) as x:
        res.note(f'{name}: not understood ({x})')
        return
    res.count('obligations')
    for code, text in bad:
        res.find(code, fsite, name, f'{f.name}: {text} (emitted for {what})')
    t, made = destr(args[pos])
    if not made and t[0] != 'cat' and user(t, 'Graph') and it.kind(args[pos], st) != 'str':
        try:
            r = S.call(f, [('obj',) if i == pos else v for i, v in enumerate(vals)], kws, everything(S.ab))
        except (Unknown, ValueError, IndexError, KeyError, TypeError, AttributeError):
            return
        if any(v == ('obj',) for _, v in r):
            res.find('object', site, name, f'line {site[1]}: {what} is passed to {f.name} without being made a string: a value that is not a string is '
                     f'emitted unquoted')


def evaluate(S, f, vals, kws, L, kind):
    ab = S.ab
    spec = Spec(ab)
    legal = spec.port if kind == 'name' else spec.bare
    bad = []
    for M, v in S.call(f, vals, kws, L):
        if v[0] == 'k' and not isinstance(v[1], str) or v[0] in ('raise',):
            bad.append(('nothing', f'no text is returned for {show_text(M.example())}'))
            continue
        if v[0] == 'grp':
            raise Unknown('group result')
        if v[0] == 'k':
            hit = None if not (words(ab, [v[1]]) - legal).example() else (M.example(), v[1])
        else:
            hit = search(M, [S.transducer(t) for t in v[1]], ~legal)
        if hit is not None:
            w, x = hit
            if v == INPUT:
                bad.append(('bare', f'{show_text(w)} is emitted as it is, but is not one DOT identifier' +
                            (' (a port is allowed only in the name of a node)' if kind != 'name' and ':' in w else '')))
            else:
                bad.append(('quoted', f'{show_text(w)} is emitted as {show_text(x)}, which is not one DOT identifier'))
        if v != INPUT:
            w = (M & spec.through).example()
            if w is not None:
                bad.append(('through', f'{show_text(w)}, which is already quoted, HTML or a keyword, is not passed through unchanged'))
    return bad


def run(prog, res, cls, meth, gtype):
    Q = quoting(prog)
    c = prog.classes.get(cls)
    if c is None or c.lookup(meth) is None:
        res.note(f'{cls}.{meth} not found')
        return
    fm = c.lookup(meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    opq = tuple(Q) + (('edge_to_string', 'get_node') if (cls, meth) == ('Graph', 'to_string') else ())
    r = explore(prog, cls, meth, gtype, res=res, sink=False, merge=False, tracked=None, untracked=frozenset(),
                keep=lambda ev: ev[0] in ('mut', 'lit', 'call', 'ecall'), opaque=composed(opq))
    if r is None:
        return
    it, outs = r
    for st, o in outs:
        made = calls(st, Q)
        for site, term in text_terms(st, o, site0):
            for p in pieces(term):
                t, _ = destr(p)
                if t[0] == 'c':
                    continue
                res.count('pieces')
                if t[0] == 'r' and t[1] == 'op' and t[2] in Q:
                    ev = made.get(t)
                    if ev is None:
                        ev = next((e for r0, e in made.items() if r0[:5] == t[:5]), None)
                    if ev is None:
                        res.note('call not found')
                        continue
                    data = [a for a in ev[4] if a[0] != 'c']
                    us = {user(x, cls) for a in data for x in pieces(a)} - {None}
                    kind, what = ('value', 'a value')
                    if len(us) == 1:
                        kind, what = next(iter(us))
                    elif not us:
                        kind, what = ('name', 'a value')
                    judge(prog, res, Q, t[2], ev, what, kind, ev[1], it, st)
                    continue
                u = user(t, cls)
                if u is not None:
                    res.find('raw', site, u[1], f'{cls}.{meth}: {u[1]} reaches the DOT text without being quoted when necessary')


def jobs(prog, tier):
    for g in ('digraph', 'graph'):
        yield f'Graph.edge_to_string {g}', run, ('Graph', 'edge_to_string', g)
        yield f'Graph.to_string {g}', run, ('Graph', 'to_string', g)
    yield 'Node.to_string', run, ('Node', 'to_string', 'digraph')
