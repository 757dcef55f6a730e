"""C07: results do not depend on what ran on the graph before."""
import ast
from .base import *
from ..entries import gtypes
from ..model import AnalysisBroken

ID = 'C07'
TECHNIQUE = 'must-initialise dataflow (definite assignment of working attributes over all nodes and edges before use)'
RULE = ('on every path of an algorithm, each read of a working attribute of a node or edge (one that some operation of the library writes as a result '
        'or by-product) is preceded by a write of it in the same call: on the same element, or by a pass over all nodes or edges')
EXPLANATION = ('Each algorithm is interpreted abstractly from an arbitrary graph, calls into the library followed. Along every path the analysis keeps '
               'the set of attributes written on particular elements and, where every alternative of a complete loop over the nodes, edges or '
               'neighbours writes one, on all of them. A read of a working attribute, graph setting or field outside that set sees what an earlier run '
               'or the user left there.')
MINIMUM = {'reads': 20, 'covered': 4}

ALGORITHMS = [('Graph', m) for m in (
    'label_components', 'tarjan', 'label_strong_component', 'dfs', 'hamiltonian', 'bfs', 'acyclic_shortest_path', 'search',
    'minimum_spanning_tree_prim', 'minimum_spanning_tree_kruskal', 'max_flow_preflowpush', 'cycle_canceling', 'find_feasible_flow',
    'max_flow', 'floyd_warshall', 'fifo_label_correcting', 'network_simplex', 'min_cost_flow', 'page_rank', 'get_degrees',
    'get_in_degrees', 'get_out_degrees', 'get_diameter')] + [
    ('Tree', m) for m in ('dfs', 'bfs', 'traverse')] + [
    ('BinaryTree', m) for m in ('print_nodes', 'dfs', 'bfs', 'traverse', 'printexp', 'postordereval')]

# continues from earlier calls on purpose
EXEMPT = {('Graph', 'dfs'): {'disc_time', 'component', 'finish_time'},
          # the labels of an expression tree are its operators and operands
          ('BinaryTree', 'printexp'): {'label'}, ('BinaryTree', 'postordereval'): {'label'}}
PROBLEM = {'cost', 'capacity', 'demand', 'weight', 'length', 'name', 'type', 'display', 'layout', 'cluster_count', 'd2tgraphstyle'}
STRUCTURE = {'nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'out_neighbors', 'cluster', 'attr', 'name', 'graph_type', 'edge_connect_symbol',
             'root', 'edge_weights', 'out_neighbors'}
MAKERS = {'__init__', 'add_node', 'add_edge', 'add_root', 'add_child', 'add_left_child', 'add_right_child', 'random', 'create_cluster', 'set_layout',
          'set_display_mode', 'del_node', 'del_edge'}


def working(prog):
    """(attribute names, fields of self) written by the operations of the library"""
    attrs, fields = set(), set()
    for c in prog.classes.values():
        for name, f in c.methods.items():
            if name in MAKERS:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr in ('set_attr', 'set_node_attr', 'set_edge_attr', 'setdefault', 'update'):
                        for a in n.args:
                            if isinstance(a, ast.Constant) and isinstance(a.value, str):
                                attrs.add(a.value)
                                break
                elif isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for s in ast.walk(t):
                            if isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Constant) and isinstance(s.slice.value, str):
                                attrs.add(s.slice.value)
                            elif isinstance(s, ast.Attribute) and isinstance(s.ctx, ast.Store) and isinstance(s.value, ast.Name) and s.value.id == 'self':
                                fields.add(s.attr)
    return attrs - PROBLEM, fields - STRUCTURE


# ---- locations ------------------------------------------------------------------------------------------------
def strip(t):
    """a term without the version marks of its loads"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'i':
        return ('i', strip(t[1]), strip(t[2]))
    if t[0] == 'f':
        return ('f', strip(t[1]), t[2])
    if t[0] == 'el':
        return ('el', t[1], src(t[2]))
    if t[0] in ('t', 'keys', 'elems', 'values', 'items', 'sorted', 'rev'):
        return (t[0],) + tuple(strip(x) if isinstance(x, tuple) else x for x in t[1:])
    return t


def src(s):
    while isinstance(s, tuple) and s[0] in ('sorted', 'rev'):
        s = s[1]
    return strip(s)


def all_nodes(s):
    """does an iteration source run over all nodes of self? ('keys'/'values'/...)"""
    if s[0] in ('keys', 'elems', 'values', 'items') and s[1][0] == 'f' and s[1][1] == SELF and s[1][2] in ('nodes', 'neighbors', 'in_neighbors'):
        return s[0]
    return None


def all_edges(s):
    if s[0] in ('keys', 'elems', 'items', 'values') and s[1] == ('f', SELF, 'edge_attr'):
        return s[0]
    return None


def place(base, gtype):
    """('node', element) | ('edge', element) | ('graph',) | None for the attribute dictionary base"""
    b = strip(base)
    if b == ('f', SELF, 'attr'):
        return ('graph',)
    if b[0] == 'f' and b[2] == 'attr':
        n = b[1]
        if n[0] == 'i' and n[1] == ('f', SELF, 'nodes'):
            return ('node', n[2])
        if n[0] == 'el' and n[2] == ('values', ('f', SELF, 'nodes')):
            return ('node', n)
        if n[0] == 'i' and n[2] == C(1) and n[1][0] == 'el' and n[1][2] == ('items', ('f', SELF, 'nodes')):
            return ('node', ('i', n[1], C(0)))
    if b[0] == 'i' and b[1] == ('f', SELF, 'edge_attr'):
        return ('edge', edge(b[2], gtype))
    if b[0] == 'el' and b[2] == ('values', ('f', SELF, 'edge_attr')):
        return ('edge', b)
    if b[0] == 'i' and b[2] == C(1) and b[1][0] == 'el' and b[1][2] == ('items', ('f', SELF, 'edge_attr')):
        return ('edge', ('i', b[1], C(0)))
    return None


def edge(e, gtype):
    if e[0] == 't' and len(e) == 3:
        if e[1][0] == 'i' and e[2][0] == 'i' and e[1][1] == e[2][1] and {e[1][2], e[2][2]} == {C(0), C(1)}:
            if e[1][2] == C(0):
                return e[1][1]
            if gtype == 'graph':
                return e[1][1]
        if gtype == 'graph':
            a, b = sorted(e[1:], key=repr)
            return ('t', a, b)
    return e


def counting(s):
    """range(0, len(all nodes or edges))"""
    return s[0] == 'range' and s[1] == C(0) and s[2][0] == 'pf' and s[2][1] == 'len' and \
        any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'f' and x[1] == SELF and x[2] in ('nodes', 'neighbors', 'in_neighbors', 'edge_attr')
            for x in subterms(s[2]))


class Done:
    """what has certainly been written on the path"""
    __slots__ = ('at', 'fields')

    def __init__(self, at=frozenset(), fields=frozenset()):
        self.at = at
        self.fields = fields

    def add(self, x):
        return Done(self.at | {x}, self.fields)


ALLN, ALLE = ('all nodes',), ('all edges',)


class Check:
    def __init__(self, prog, res, cls, meth, gtype, W, F, memo, prev):
        self.prog, self.res, self.cls, self.meth, self.gtype = prog, res, cls, meth, gtype
        self.W, self.F, self.memo, self.prev = W, F, memo, prev
        self.req = {}
        self.reads = 0

    # -- reads
    def written(self, p, a, D):
        if p[0] == 'graph':
            return (p, a) in D.at
        if (p, a) in D.at or ((ALLN if p[0] == 'node' else ALLE), a) in D.at:
            return True
        return any(b == a and q[0] == p[0] and self.match(q[1], p[1]) for q, b in D.at if len(q) == 2)

    def match(self, pat, t):
        """is t one of the elements of a completed pass? (pat: a location with universally quantified elements)"""
        if pat == t:
            return True
        if pat[0] == 'all' and t[0] == 'el':
            return pat[1] == t[2]
        if pat[0] == 't' and t[0] == 't' and len(pat) == len(t):
            return all(self.match(x, y) for x, y in zip(pat[1:], t[1:])) or \
                self.gtype == 'graph' and len(t) == 3 and self.match(pat[1], t[2]) and self.match(pat[2], t[1])
        return False

    def walk(self, events, D, site0=None):
        """the writes certain after the events; reports the reads that see older values"""
        evs = list(events)
        for i, e in enumerate(evs):
            h = e[0]
            if h == 'rd':
                self.read(e, D, evs[i + 1:])
            elif h == 'set':
                p = place(e[2], self.gtype)
                if p is not None:
                    if e[3][0] == 'c':
                        D = D.add((p, e[3][2]))
                else:
                    # an attribute dictionary as a whole
                    b = strip(e[2])
                    if b == ('f', SELF, 'edge_attr'):
                        D = D.add((('edge', edge(strip(e[3]), self.gtype)), '*'))
            elif h == 'del':
                p = place(e[2], self.gtype)
                if p is not None and e[3][0] == 'c':
                    D = D.add((p, e[3][2]))
            elif h == 'setf' and e[2] == SELF:
                D = Done(D.at, D.fields | {e[3]})
            elif h == 'setf' and e[3] == 'attr':
                p = place(('f', e[2], 'attr'), self.gtype)
                if p is not None:
                    D = D.add((p, '*'))
            elif h == 'call':
                D = self.call(e, D)
            elif h in ('loop', 'loopx'):
                D = self.loop(e, D)
        return D

    def loop(self, e, D):
        ends = []
        cleared = self.cleared(e)
        for alt in e[4]:
            X = self.walk(alt[0], Done(D.at | cleared, D.fields))
            if alt[4] is None or alt[4][0] == 'continue':
                ends.append((X, alt))
        if e[0] == 'loopx' or not ends:
            return D
        s = src(e[3])
        el = ('el', e[2], s)
        if s[0] in ('items', 'values') and not any(contains(x[2], el) for alt in e[4] for x in alt[0] if x[0] == 'set'):
            s = ('keys', s[1])
            el = ('el', e[2], s)
        cand = set()
        for X, _ in ends:
            cand |= X.at - D.at
        new = set(D.at)
        for x in cand:
            p, a = x
            if len(p) == 2 and not self.mentions(p[1], el) and not self.mentions_src(p[1], e[2]):
                continue                 # a fixed element: the loop may have no pass
            if all(x in X.at or self.equal_written(p, a, el, alt, X) for X, alt in ends):
                q = self.generalise(p, el)
                if q is not None:
                    new.add((q, a))
        return Done(frozenset(new), D.fields)

    def cleared(self, e):
        """locations that every pass leaves cleared, some because it finds them so"""
        if e[0] == 'loopx':
            return frozenset()
        out, wr = None, set()
        for alt in e[4]:
            if alt[4] is not None and alt[4][0] != 'continue':
                if alt[4][0] == 'raise':
                    continue
                return frozenset()
            here = set()
            for i, x in enumerate(alt[0]):
                if x[0] == 'set' and x[4] == NONE and x[3][0] == 'c':
                    p = place(x[2], self.gtype)
                    if p is not None and len(p) == 2 and self.mentions_src(p[1], e[2]):
                        here.add((p, x[3][2]))
                        wr.add((p, x[3][2]))
                elif x[0] == 'rd' and not isinstance(x[3], str) and x[3][0] == 'c' and not any(
                        y[0] == 'set' and y[3] == x[3] for y in alt[0]):
                    # what it finds decides that it need not clear it
                    p = place(x[2], self.gtype)
                    if p is not None and len(p) == 2 and self.mentions_src(p[1], e[2]):
                        here.add((p, x[3][2]))
            for f, v in alt[1]:
                if f[0] == 'in' and v is False and f[1][0] == 'c':
                    p = place(f[2], self.gtype)
                    if p is not None and len(p) == 2:
                        here.add((p, f[1][2]))
            out = here if out is None else out & here
        return frozenset(out or ()) & wr

    def mentions(self, t, el):
        return contains(t, el)

    def mentions_src(self, t, lid):
        return any(isinstance(x, tuple) and len(x) == 3 and x[0] in ('el', 'phi') and x[1] == lid for x in subterms(t))

    def equal_written(self, p, a, el, alt, X):
        """on this alternative the element is one that has been written under another name"""
        if len(p) != 2:
            return False
        for d, s in dict(alt[2]).items():
            if s == frozenset((0,)):
                _, m = lin_parts(d)
                if len(m) == 2:
                    ts = [strip(t) for t in m]
                    if el in ts:
                        o = ts[1] if ts[0] == el else ts[0]
                        q = (p[0], subst(p[1], {el: o}))
                        if self.written(q, a, X):
                            return True
        return False

    def generalise(self, p, el):
        """the writes of all passes of a complete loop"""
        if p[0] == 'graph':
            return None
        s = el[2]
        if len(p) < 2:
            return p if all_nodes(s) else None         # without a pass there is no node either
        if p[0] == 'node':
            if p[1] == el and all_nodes(s) in ('keys', 'elems', 'values'):
                return ALLN
            if p[1][0] == 'i' and p[1][1][0] in ('o', 'keys') and (p[1][2] == el and counting(s) or s[0] == 'while'):
                return ALLN
            if p[1][0] == 'i' and p[1][1] == el and all_nodes(s) == 'items' and p[1][2] == C(0):
                return ALLN
        if p[0] == 'edge':
            if p[1] == el and all_edges(s) in ('keys', 'elems', 'values'):
                return ALLE
            if p[1][0] == 'i' and p[1][1][0] in ('o', 'keys') and (p[1][2] == el and counting(s) or s[0] == 'while'):
                return ALLE
            if p[1][0] == 'i' and p[1][1] == el and all_edges(s) == 'items' and p[1][2] == C(0):
                return ALLE
            if p[1][0] == 't' and len(p[1]) == 3 and all_nodes(s) in ('keys', 'elems'):
                # all edges at every node
                for a, b, f in ((1, 2, ('neighbors',)), (2, 1, ('in_neighbors',) if self.gtype == 'digraph' else ('neighbors',))):
                    x, y = p[1][a], p[1][b]
                    if x == el and y[0] == 'all' and y[1][0] in ('elems', 'keys') and y[1][1][0] == 'i' and y[1][1][2] == el and \
                            y[1][1][1][0] == 'f' and y[1][1][1][2] in f:
                        return ALLE
                    if x == el and y[0] == 'all' and all_nodes(y[1]) in ('keys', 'elems'):
                        return ALLE
        return (p[0], subst(p[1], {el: ('all', s)}))

    def read(self, e, D, rest):
        if isinstance(e[3], str):
            if e[2] == SELF and e[3] in self.F:
                self.reads += 1
                if e[3] not in D.fields:
                    self.need((('field',), e[3]), e[1])
            return
        p = place(e[2], self.gtype)
        if p is None:
            return
        a = e[3]
        if a[0] != 'c' or a[2] not in self.W:
            return
        self.reads += 1
        if self.written(p, a[2], D) or self.written(p, '*', D):
            return
        for x in rest:
            if x[0] in ('del', 'set') and place(x[2], self.gtype) == p and x[3] == a and (x[0] == 'del' or x[4] == NONE):
                return                   # it is only looked at to clear it
        self.need((p, a[2]), e[1])

    def need(self, x, site):
        p, a = x
        if len(p) == 2 and not param_only(p[1]):
            x = ((p[0], ('any',)), a)
        self.req.setdefault(x, site)

    # -- calls into the library
    def call(self, e, D):
        name = e[3]
        if e[2] != SELF or not isinstance(name, str):
            return D
        rec = name == self.meth or e[6][0] == 'rec'
        f = self.prog.classes[self.cls].lookup(name)
        if f is None:
            return D
        m = bind(f, e[4], dict(e[5]))
        rec = name == self.meth
        S = self.prev.get(name) if rec else self.summary(name, tuple(sorted((k[1], v) for k, v in m.items() if v[0] == 'c')))
        if S is None:
            return D
        if not rec:
            for (p, a), site in S.req.items():
                if p == ('field',):
                    if a not in D.fields:
                        self.need((p, a), site)
                    continue
                q = inst(p, m, self.gtype)
                if not self.written(q, a, D) and not self.written(q, '*', D):
                    self.need((q, a), site)
        for p, a in S.at:
            q = inst(p, m, self.gtype)
            if len(q) < 2 or q[1] != ('any',):
                D = D.add((q, a))
        return Done(D.at, D.fields | S.fields)

    def summary(self, name, consts):
        k = (self.cls, name, self.gtype, consts)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = None              # recursion through several operations: nothing is assumed
        self.memo[k] = analyse(self.prog, self.res, self.cls, name, self.gtype, self.memo, consts)
        return self.memo[k]


class Summary:
    """what an operation needs to find written and what it has written when it returns"""

    def __init__(self, req, at, fields, reads):
        self.req, self.at, self.fields, self.reads = req, at, fields, reads


def param_only(t):
    """is a location named by parameters of the operation alone?"""
    if t[0] == 's':
        return True
    if t[0] == 'c':
        return True
    if t[0] == 't':
        return all(param_only(x) for x in t[1:])
    if t[0] == 'i':
        return param_only(t[1]) and param_only(t[2])
    return False


def bind(f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if f.cls:
        names = names[1:]
    m = {}
    for n, v in zip(names, args):
        m[('s', n)] = strip(v)
    for n, v in kw.items():
        m[('s', n)] = strip(v)
    for n in names:
        m.setdefault(('s', n), ('any',))
    return m


def inst(p, m, gtype):
    if len(p) < 2:
        return p
    t = subst(p[1], m)
    if t[0] == 'i' and t[1][0] == 't' and t[2] in (C(0), C(1)):
        t = t[1][1 + t[2][2]]
    if contains(t, ('any',)):
        t = ('any',)
    return (p[0], edge(t, gtype) if p[0] == 'edge' else t)


HELPERS = ('find_feasible_flow', 'max_flow', 'max_flow_preflowpush', 'search', 'bfs', 'tarjan', 'strong_connect',
           'acyclic_shortest_path', 'process_node_search', 'process_edge_dijkstra', 'process_edge_prim', 'process_edge_search',
           'process_edge_flow', 'relabel', 'create_residual_graph', 'get_negative_cycle', 'floyd_warshall', 'floyd_warshall_get_path',
           'floyd_warshall_get_cycle', 'find_cycle_capacity', 'fifo_label_correcting', 'label_correcting_check_cycle',
           'label_correcting_get_cycle', 'augment_cycle', 'network_simplex', 'cycle_canceling', 'simplex_determine_leaving_arc',
           'simplex_mark_leaving_arc', 'simplex_mark_entering_arc', 'simplex_mark_st_arcs', 'simplex_redraw', 'simplex_remove_arc',
           'simplex_select_entering_arc', 'simplex_optimal', 'simplex_find_tree', 'simplex_connect', 'simplex_search',
           'simplex_augment_cycle', 'simplex_find_cycle', 'get_simplex_solution_graph', 'simplex_compute_potentials',
           'simplex_identify_cycle', 'show_flow', 'print_flow', 'minimum_spanning_tree_prim', 'minimum_spanning_tree_kruskal',
           'label_components', 'label_strong_component', 'traverse', 'hamiltonian')
# parameters by which an operation carries on an earlier call of itself
SOFAR = ('distance', 'pred', 'disc_count', 'finish_count', 'components')


def analyse(prog, res, cls, meth, gtype, memo, consts=(), top=False):
    """the summary of one operation, None when it cannot be analysed"""
    attrs, fields = working(prog)
    watch = frozenset(('it', k, None) for k in ('nattr', 'eattr', 'gattr')) | frozenset(('fld', f) for f in fields)
    c = prog.classes.get(cls)
    if c is None or c.lookup(meth) is None:
        return None

    def keep(ev):
        return ev[0] in ('set', 'rd', 'del', 'loop', 'loopx', 'setf') or ev[0] == 'call' and ev[2] == SELF and (ev[3] in HELPERS or ev[6][0] == 'rec')
    r = explore(prog, cls, meth, gtype, res=res, sink=False, keep=keep,
                watch=watch, tracked=tracking(), opaque=composed(HELPERS), omit=SOFAR if top else (),
                terms=dict(consts))
    if r is None:
        return None
    it, outs = r
    prev = {}
    for _ in range(3):
        req, at, fl, reads = {}, None, None, 0
        for st, o in outs:
            K = Check(prog, res, cls, meth, gtype, attrs, fields, memo, prev)
            D = K.walk(st.events(), Done())
            reads += K.reads
            for x, site in K.req.items():
                req.setdefault(x, site)
            if o[0] == 'return':
                keep = frozenset(x for x in D.at if len(x[0]) < 2 or param_only(x[0][1]))
                at = keep if at is None else at & keep
                fl = D.fields if fl is None else fl & D.fields
        at = at or frozenset()
        top_node = dict(consts).get('root', ('s', 'root'))
        if (('node', top_node), 'potential') in at and meth == 'simplex_compute_potentials' and all(
                passes_potential(st.events()) for st, o in outs if o[0] == 'return'):
            # a walk over the tree in thread order from the root: each node follows its predecessor (that the orders are kept is C25's matter)
            at = at | {(ALLN, 'potential')}
            req = {x: v for x, v in req.items() if x[1] != 'potential'}
        S = Summary(req, at, fl or frozenset(), reads)
        old = prev.get(meth)
        prev = {meth: S}
        if old is not None and old.at == S.at and old.fields == S.fields:
            break
    return S


def passes_potential(evs):
    """is there a loop whose passes write the potential of the node they stand on?"""
    for e in evs:
        if e[0] in ('loop', 'loopx'):
            for alt in e[4]:
                if any(x[0] == 'set' and x[3] == C('potential') for x in alt[0]) or passes_potential(alt[0]):
                    return True
    return False


def run(prog, res, cls, meth, gtype):
    c = prog.classes.get(cls)
    if c is None or c.lookup(meth) is None:
        res.note(f'{cls}.{meth} not found')
        return
    S = analyse(prog, res, cls, meth, gtype, {}, top=True)
    if S is None:
        return
    res.count('reads', S.reads)
    res.count('covered', len(S.at))
    exempt = EXEMPT.get((cls, meth), ())
    for (p, a), site in S.req.items():
        if a in exempt:
            continue
        what = {'node': 'of a node', 'edge': 'of an edge', 'graph': 'of the graph', 'field': 'of the object'}[p[0]]
        res.find('stale', site, a, f'{cls}.{meth} reads {a!r} {what}, which it has not written on every node, edge or element concerned '
                 'before: what an earlier run or the user left there steers the outcome')


def jobs(prog, tier):
    for c, m in ALGORITHMS:
        for g in gtypes(c, m):
            yield f'{c}.{m} {g}', run, (c, m, g)
