"""C11: DOT output lists every node and every edge exactly once."""
import re
from .base import *
from ..tree import *
from .c12 import quoting
from ..model import AnalysisBroken

ID = 'C11'
TECHNIQUE = 'abstract interpretation of the extracted effect tree over finite membership models, plus a grammar check of the abstract text'
RULE = ('the text the rendering methods put together declares every node and every edge once, inside its cluster block if it has one, and nothing '
        'else; every attribute appears in the declaration with its own value, and the text as a whole follows the grammar')
EXPLANATION = ('The updates, loops and conditions of Node.to_string, Graph.edge_to_string and Graph.to_string are extracted from the source as a tree '
               'of effects. The names and values in it are uninterpreted, so the text they put together depends only on which sets each node and '
               'edge belongs to; the tree is evaluated on one representative of each combination of memberships (in no cluster, in the first, in '
               'another one; edges within, across and outside clusters, in both orientations and as loops; no, one and several attributes) and the '
               'resulting abstract text is parsed.')
MINIMUM = {'models': 12}

KEEP = ('mut', 'lit', 'litd', 'cadd', 'set', 'setf', 'del', 'call', 'ecall', 'test', 'loop', 'loopx')


class Bad(Exception):
    pass


# ---- abstract text ------------------------------------------------------------------------------------------
def lex(parts):
    """tokens of abstract text: ('id', key), ('N', name), ('E', (a, b)), ('op', s), ('p', char)"""
    out = []
    glue = None                          # pieces of an identifier in the making

    def flush():
        nonlocal glue
        if glue is not None:
            out.append(('id', text_key(Text(glue))))
        glue = None
    for p in text_key(parts):
        if not isinstance(p, str):
            if p[0] in ('N', 'E'):
                flush()
                out.append(p)
            elif p[0] == 'Q':
                if glue is not None:
                    flush()
                    raise Bad('an identifier runs into another one')
                out.append(('id', p[1]))
                glue = None
                out.append(('tight',))
            else:
                glue = (glue or []) + [p]
            continue
        i = 0
        while i < len(p):
            c = p[i]
            if c.isspace():
                flush()
                out.append(('ws',))
            elif p.startswith('->', i) or p.startswith('--', i):
                flush()
                out.append(('op', p[i:i + 2]))
                i += 1
            elif c in '{}[]=;,':
                flush()
                out.append(('p', c))
            elif c == '"':
                flush()
                j = i + 1
                while j < len(p) and p[j] != '"':
                    j += 2 if p[j] == '\\' else 1
                if j >= len(p):
                    raise Undecided('quoted text')
                out.append(('id', (p[i + 1:j],)))
                i = j
            elif re.match(r'[\w.:]|[^\x00-\x7f]', c):
                if out and out[-1] == ('tight',):
                    raise Bad('an identifier runs into the text after it')
                glue = (glue or []) + [c]
            else:
                raise Undecided('character ' + c)
            i += 1
    flush()
    return [t for t in out if t not in (('ws',), ('tight',))]


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, *x):
        return self.i < len(self.t) and self.t[self.i] == x

    def take(self, *x):
        if not self.peek(*x):
            got = self.t[self.i] if self.i < len(self.t) else ('end',)
            raise Bad(f'{x[-1]!r} expected, {shown(got)} found')
        self.i += 1

    def opt(self, *x):
        if self.peek(*x):
            self.i += 1
            return True
        return False

    def id(self):
        if self.i < len(self.t) and self.t[self.i][0] == 'id':
            self.i += 1
            return self.t[self.i - 1][1]
        got = self.t[self.i] if self.i < len(self.t) else ('end',)
        raise Bad(f'an identifier expected, {shown(got)} found')

    def attrs(self):
        """[ a=v, ... ]*"""
        out = []
        while self.opt('p', '['):
            while not self.opt('p', ']'):
                k = self.id()
                self.take('p', '=')
                out.append((k, self.id()))
                self.opt('p', ',') or self.opt('p', ';')
        return out

    def stmts(self, block, out):
        """statements up to '}': appends (kind, data, block)"""
        while not self.opt('p', '}'):
            if self.i >= len(self.t):
                raise Bad("'}' is missing")
            k = self.t[self.i]
            if k[0] in ('N', 'E'):
                self.i += 1
                out.append((k[0], k[1], block))
            elif k == ('id', ('subgraph',)):
                self.i += 1
                name = self.id()
                self.take('p', '{')
                out.append(('block', name, block))
                self.stmts(block + (name,), out)
            elif k[0] == 'id':
                name = self.id()
                if self.opt('p', '='):
                    out.append(('set', (name, self.id()), block))
                elif name in (('node',), ('edge',), ('graph',)):
                    if not self.peek('p', '['):
                        raise Bad("'[' expected after " + name[0])
                    out.append(('defaults', (name, tuple(self.attrs())), block))
                elif self.i < len(self.t) and self.t[self.i][0] == 'op':
                    ends = [name]
                    while self.i < len(self.t) and self.t[self.i][0] == 'op':
                        self.i += 1
                        ends.append(self.id())
                    out.append(('edge', (tuple(ends), tuple(self.attrs())), block))
                else:
                    out.append(('node', (name, tuple(self.attrs())), block))
            elif k == ('p', ';'):
                self.i += 1
                continue
            else:
                raise Bad(f'{shown(k)} is not a statement')
            self.opt('p', ';')


def shown(t):
    if t[0] == 'id':
        return 'identifier ' + ''.join(p if isinstance(p, str) else repr(p[1]) for p in t[1])
    return repr(t[-1])


def who(x):
    if isinstance(x, tuple):
        return '(' + ','.join(who(y) for y in x) + ')'
    return x.n if isinstance(x, Sym) else repr(x)


# ---- models -----------------------------------------------------------------------------------------------------
def attrs(n, what):
    return {a: Sym(f'{what}.{a}') for a in ('color', 'label', 'cost')[:n]}


class Model:
    """one assignment of the fields of a graph"""

    def __init__(self, gtype, nodes, edges, clusters=(), text='', cattrs=1, nattrs=1, gattrs=('label', 'layout_time'), none=()):
        self.what = text
        self.gtype = gtype
        S = {n: Sym(n) for n in nodes}
        self.sym = S
        self.nodes = {S[n]: Rec('Node', name=S[n], attr=attrs(i % 3, n)) for i, n in enumerate(nodes)}
        self.edges = {(S[a], S[b]): attrs(i % 3, a + b) for i, (a, b) in enumerate(edges)}
        nb = {s: [] for s in S.values()}
        inn = {s: [] for s in S.values()}
        for a, b in self.edges:
            nb[a].append(b)
            if gtype == 'digraph':
                inn[b].append(a)
            elif a is not b:
                nb[b].append(a)
        self.cluster = {}
        for i, ms in enumerate(clusters):
            c = Sym('c%d' % i)
            self.cluster[c] = {'node_list': [S[m] for m in ms], 'attrs': dict(attrs(cattrs, 'cluster%d' % i), name=c),
                               'node_attrs': attrs(nattrs, 'nodes%d' % i)}
        at = {a: (None if a in none else Sym('graph.' + a)) for a in gattrs}
        at.update(type=gtype, cluster_count=len(clusters))
        self.me = Rec('Graph', name=Sym('G'), nodes=self.nodes, edge_attr=self.edges, neighbors=nb, cluster=self.cluster, attr=at,
                      graph_type=gtype, edge_connect_symbol='->' if gtype == 'digraph' else '--', layout='fdp')
        if gtype == 'digraph':
            self.me.f['in_neighbors'] = inn
        self.home = {m: c for c, d in self.cluster.items() for m in d['node_list']}


def models(gtype, deep):
    E1 = [('a', 'b'), ('c', 'a'), ('b', 'd'), ('c', 'd'), ('d', 'd'), ('d', 'e'), ('e', 'c')]
    if gtype == 'digraph':
        E1 += [('b', 'a'), ('d', 'b')]
    yield Model(gtype, '', [], text='the empty graph')
    yield Model(gtype, 'a', [], text='one node', gattrs=('label',))
    yield Model(gtype, 'abcde', E1, text='no clusters', gattrs=())
    yield Model(gtype, 'abcde', E1, ['cab'], 'one cluster of three nodes')
    yield Model(gtype, 'abcde', E1, ['da'], 'one cluster with a loop edge', cattrs=0, nattrs=0)
    yield Model(gtype, 'abcde', E1, ['ba', 'cd'], 'two clusters of two', cattrs=2, nattrs=2)
    yield Model(gtype, 'abcde', E1, ['e', '', 'dcba'], 'clusters of one, of none and of four nodes', nattrs=3)
    yield Model(gtype, 'abcde', E1, ['ab', 'c', 'de'], 'three clusters with all nodes', cattrs=0)
    yield Model(gtype, 'abcd', [('c', 'a')], ['ba', 'd'], 'clusters with nodes that have no edges')
    yield Model(gtype, 'ab', [('a', 'b')], text='graph attributes without a value', gattrs=('label', 'bgcolor', 'splines'), none=('bgcolor',))
    if deep:
        import itertools
        for k, asg in enumerate(itertools.product(range(3), repeat=4)):
            cl = [''.join(n for n, c in zip('abcd', asg) if c == j) for j in (1, 2)]
            yield Model(gtype, 'abcd', [('a', 'b'), ('c', 'b'), ('c', 'd'), ('d', 'a'), ('b', 'b')] + ([('b', 'c')] if gtype == 'digraph' else []),
                        cl, f'clusters {cl}', nattrs=k % 3, cattrs=k % 2)


def qkey(v):
    return text_key(as_str(v))


def ops_for(Q, M):
    def q(recv, args, kw):
        ts = [a for a in args if isinstance(a, (str, Text, Sym, tuple)) and not isinstance(a, bool)]
        if len(ts) != 1:
            raise Undecided('quoting')
        return Text((('Q', text_key(as_str(ts[0]))),))

    def get_node(recv, args, kw):
        for k, v in M.nodes.items():
            if same(k, args[0]):
                return v
        raise Undecided('missing node')

    def to_string(recv, args, kw):
        if isinstance(recv, Rec) and recv.what == 'Node':
            return Text((('N', recv.f['name']),))
        raise Undecided('to_string')

    def edge(recv, args, kw):
        e = args[0]
        if isinstance(e, tuple) and len(e) == 2:
            return Text((('E', e),))
        raise Undecided('edge')
    ops = {n: q for n in Q}
    ops.update(get_node=get_node, to_string=to_string, __repr__=to_string, edge_to_string=edge)
    return ops


# ---- running ------------------------------------------------------------------------------------------------------
def extract(prog, res, cls, meth, gtype, extra, params=None):
    c = prog.classes.get(cls)
    if c is None or c.lookup(meth) is None:
        res.note(f'{cls}.{meth} not found')
        return None
    Q = quoting(prog)
    return explore(prog, cls, meth, gtype, res=res, sink=False, merge=False, tracked=None, untracked=frozenset(), all_loops=True,
                   keep=lambda ev: ev[0] in KEEP, opaque=composed(tuple(Q) + extra)), Q


def results(it, outs, M, ops, params):
    """[(state, value)] of the paths that a model takes"""
    got = []
    for st, o in outs:
        m = Machine(it, M.me, params, ops, st)
        for S in m.run(st.events(), State()):
            if o[0] != 'return':
                got.append((st, o, None))
                continue
            got.append((st, o, m.ev(o[1], S)))
    return got


def only(got):
    ks = {text_key(v) if v is not None else None for _, _, v in got}
    if len(got) == 0 or len(ks) != 1:
        raise Undecided('%d different results' % len(ks))
    v = got[0][2]
    if v is None or not isinstance(v, (str, Text)):
        raise Undecided('no text')
    return v


def each(prog, res, cls, meth, gtype, extra, ms, judge):
    r = extract(prog, res, cls, meth, gtype, extra)
    if r is None or r[0] is None:
        return
    (it, outs), Q = r
    fm = prog.classes[cls].lookup(meth)
    site = (fm.module.path, fm.node.lineno, fm.qual)
    for M, params in ms:
        try:
            v = only(results(it, outs, M, ops_for(Q, M), params))
            res.count('models')
            for key, text in judge(M, v, params):
                res.find(key, site, key, f'{cls}.{meth} ({M.what}): {text}')
        except Undecided as x:
            res.count('undecided')
            res.note(f'{cls}.{meth}, {M.what}: undecided ({x})')
        except Bad as x:
            res.count('models')
            res.find('grammar', site, 'grammar', f'{cls}.{meth} ({M.what}): the text does not follow the grammar of DOT: {x}')


def judge_graph(M, v, params):
    p = Parser(lex(v))
    p.opt('id', ('strict',))
    t = p.id()
    if t != (M.gtype,):
        raise Bad(f'a {M.gtype} is introduced as {shown(("id", t))}')
    if not p.peek('p', '{'):
        p.id()
    p.take('p', '{')
    out = []
    p.stmts((), out)
    if p.i < len(p.t):
        raise Bad(f'{shown(p.t[p.i])} after the closing brace')
    blocks = {}
    for k, d, b in out:
        if k == 'block':
            blocks.setdefault(d, []).append(b)
    name = {}
    for c in M.cluster:
        for d in blocks:
            if qkey(c)[0] in d:
                name[c] = d
    for c in M.cluster:
        if c not in name and M.cluster[c]['node_list']:
            yield 'block', f'there is no block for cluster {who(c)}'
        elif c in name and len(blocks[name[c]]) > 1:
            yield 'block', f'cluster {who(c)} has more than one block'
        elif c in name and not isinstance(name[c][0], str) or c in name and not name[c][0].startswith('cluster'):
            yield 'block', f'the block of cluster {who(c)} is not called cluster...'
    home = {m: ((name[c],) if c in name else None) for m, c in M.home.items()}
    for n in M.nodes:
        at = [b for k, d, b in out if k == 'N' and same(d, n)]
        at += [b for k, d, b in out if k == 'node' and d[0] == qkey(n)]
        if len(at) != 1:
            yield 'node', f'node {who(n)} {member(M, n)} is declared {len(at)} times'
        elif home.get(n, ()) is not None and at[0] != home.get(n, ()):
            yield 'node place', f'node {who(n)} {member(M, n)} is declared {place(at[0])}'
    for k, d, b in out:
        if k == 'node' and not any(qkey(n) == d[0] for n in M.nodes):
            yield 'extra', f'{shown(("id", d[0]))} is declared as a node'
    for e in M.edges:
        at = []
        for k, d, b in out:
            if k == 'E' and (same(d, e) or M.gtype == 'graph' and same(d, (e[1], e[0]))):
                at.append(b)
            if k == 'edge' and (d[0] == (qkey(e[0]), qkey(e[1])) or M.gtype == 'graph' and d[0] == (qkey(e[1]), qkey(e[0]))):
                at.append(b)
        h1, h2 = M.home.get(e[0]), M.home.get(e[1])
        want = (name.get(h1),) if h1 is not None and h1 is h2 else ()
        if len(at) != 1:
            yield 'edge', f'edge {who(e)} ({member(M, e[0])}, {member(M, e[1])}) is declared {len(at)} times'
        elif at[0] != want and None not in want:
            yield 'edge place', f'edge {who(e)} ({member(M, e[0])}, {member(M, e[1])}) is declared {place(at[0])}'
    for k, d, b in out:
        if k == 'E' and not any(same(d, e) or M.gtype == 'graph' and same(d, (e[1], e[0])) for e in M.edges):
            yield 'extra', f'{who(d)}, which is not an edge, is declared as one'
        if k == 'edge':
            if not any((qkey(a), qkey(c)) in (d[0], tuple(reversed(d[0])) if M.gtype == 'graph' else d[0]) for a, c in M.edges):
                yield 'extra', 'something that is not an edge is declared as one'


def member(M, n):
    c = M.home.get(n)
    return f'in cluster {who(c)}' if c is not None else 'in no cluster'


def place(b):
    return 'inside the block ' + shown(('id', b[-1])) if b else 'outside the block of its cluster'


def judge_attrs(have, want, what):
    for a, s in want.items():
        vs = [v for k, v in have if k == (a,)]
        if not vs:
            yield 'attribute', f'attribute {a} of {what} (of {len(want)}) does not appear in its declaration'
        elif any(v != qkey(s) for v in vs):
            yield 'attribute value', f'attribute {a} of {what} appears with something else than its value'


def whole(p):
    p.opt('p', ';')
    if p.i < len(p.t):
        raise Bad(f'{shown(p.t[p.i])} after the end of the declaration')


def judge_node(M, v, params):
    p = Parser(lex(v))
    n = p.id()
    at = p.attrs()
    whole(p)
    if n != qkey(M.me.f['name']):
        yield 'name', f'the node is declared as {shown(("id", n))} instead of its name'
    yield from judge_attrs(at, M.me.f['attr'], 'a node')


def judge_edge(M, v, params):
    p = Parser(lex(v))
    a = p.id()
    if p.i >= len(p.t) or p.t[p.i][0] != 'op':
        raise Bad('an edge connector is missing')
    op = p.t[p.i][1]
    p.i += 1
    b = p.id()
    at = p.attrs()
    whole(p)
    e = params['e']
    if op != M.me.f['edge_connect_symbol']:
        yield 'connector', f'an edge of a {M.gtype} is written with {op}'
    ends = [(qkey(e[0]), qkey(e[1]))]
    if M.gtype == 'graph':
        ends.append((qkey(e[1]), qkey(e[0])))
    if (a, b) not in ends:
        yield 'ends', f'edge {who(e)} is written with other ends or the wrong way round'
    real = next((x for x in M.edges if same(x, e)), None) or next(x for x in M.edges if same(x, (e[1], e[0])))
    yield from judge_attrs(at, M.edges[real], f'edge {who(e)}')


def node_models():
    for k in range(4):
        M = Model('digraph', '', [], text=f'{k} attributes')
        M.me = Rec('Node', name=Sym('n'), attr=attrs(k, 'n'))
        yield M, {}


def edge_models(gtype):
    E = [('a', 'b'), ('b', 'c'), ('d', 'a'), ('c', 'c'), ('c', 'd'), ('d', 'd')]
    if gtype == 'digraph':
        E += [('b', 'a'), ('c', 'b')]
    M = Model(gtype, 'abcd', E, ['ab'], 'as stored')
    R = Model(gtype, 'abcd', E, text='in the other orientation')
    for e in M.edges:
        yield M, {'e': e}
    if gtype == 'graph':
        for e in R.edges:
            yield R, {'e': (e[1], e[0])}


def run_graph(prog, res, gtype, deep):
    each(prog, res, 'Graph', 'to_string', gtype, ('edge_to_string', 'get_node', 'to_string', '__repr__'),
         [(M, {}) for M in models(gtype, deep)], judge_graph)


def run_edge(prog, res, gtype):
    each(prog, res, 'Graph', 'edge_to_string', gtype, (), edge_models(gtype), judge_edge)


def run_node(prog, res):
    each(prog, res, 'Node', 'to_string', 'digraph', (), node_models(), judge_node)


def jobs(prog, tier):
    for g in ('digraph', 'graph'):
        yield f'Graph.edge_to_string {g}', run_edge, (g,)
        yield f'Graph.to_string {g}', run_graph, (g, tier == 'thorough')
    yield 'Node.to_string', run_node, ()
