"""C04: algorithms leave the graph's nodes and edges as they were."""
from .base import *
from ..driver import DEF_OPAQUE

ID = 'C04'
TECHNIQUE = 'effect-balance analysis of node and edge additions over all paths (abstract interpretation)'
BUILD = {'__init__', 'add_node', 'add_edge', 'del_node', 'del_edge', 'create_cluster', 'random', 'add', 'add_root',
         'add_child', 'add_left_child', 'add_right_child', 'union', 'set_attr', 'set_node_attr', 'set_edge_attr',
         # these build the caller's tree/solution graph, or work on it
         }
MUTS = ('add_node', 'add_edge', 'del_node', 'del_edge', 'add_root', 'add_child', 'add_left_child',
        'add_right_child')
RULE = ('on every path of an algorithm that ends in a normal return, each node or edge added to the analysed graph is '
        'removed again, nothing else is removed, and the structural tables are not written directly')
EXPLANATION = ('Each algorithm is interpreted abstractly path by path with the structural operations kept as events. '
               'For every path that returns normally the additions and removals on the analysed graph must cancel; '
               'raw stores to nodes, edge_attr, neighbors or in_neighbors of the graph are reported wherever they '
               'are reachable. Calls of one algorithm to another are decided at the callee.')
MINIMUM = {'paths': 100, 'structural_calls': 5}
RAW = ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nbrs')


def run(prog, res, cls, meth, gtype):
    def hook(it, st, ev):
        k = ev[0]
        if k == 'setf':
            if root(ev[2]) == SELF and ev[3] in STRUCT_FIELDS:
                res.find('raw-write', ev[1], 'setf ' + ev[3], '%s replaces the table %s of the graph' % (meth, ev[3]))
        elif k in ('set', 'del', 'mut'):
            b = ev[2]
            if root(b) == SELF and kd(it.kind(b, st))[0] in RAW:
                res.find('raw-write', ev[1], '%s %s' % (k, kd(it.kind(b, st))[0]),
                         '%s changes the structure of the graph directly: %s on %s' % (meth, k, norm(b)))
        elif k == 'ecall' and ev[3] in MUTATORS and root(ev[2]) == SELF and kd(it.kind(ev[2], st))[0] in RAW:
            res.find('raw-write', ev[1], 'mut', '%s changes the structure of the graph directly' % meth)
        elif k == 'call' and ev[3] in MUTS and ev[2] == SELF:
            res.count('structural_calls')
        elif k == 'ecall' and ev[2][0] == 'ext' and ev[2][1] in ('random.shuffle',) and ev[4] and \
                root(ev[4][0]) == SELF:
            res.find('raw-write', ev[1], 'shuffle', '%s reorders a table of the graph' % meth)

    def keep(ev):
        return ev[0] == 'call' and ev[3] in MUTS and ev[2] == SELF
    others = {m for c in ('Graph',) for m in EN.CLASSES[c]} & ALGOS
    op = composed([m for m in others if m != meth])
    for m in MUTS:
        op[m] = opaque_ret
    r = each_entry(res, prog, cls, meth, gtype, hook, keep=keep, opaque=op, tracked=tracking())
    it, outs = r
    for st, o in outs:
        if o[0] != 'return':
            continue
        balance(res, meth, st.events())


ALGOS = {'cycle_canceling', 'find_feasible_flow', 'max_flow', 'network_simplex', 'simplex_find_tree',
         'simplex_connect', 'simplex_search', 'simplex_redraw', 'simplex_augment_cycle', 'simplex_find_cycle',
         'simplex_remove_arc', 'simplex_mark_st_arcs', 'simplex_determine_leaving_arc', 'min_cost_flow', 'dfs', 'bfs',
         'search', 'simplex_compute_potentials', 'max_flow_preflowpush'}


def addedge_ends(ev):
    a = list(ev[4]) + [v for k, v in ev[5] if k in ('name1', 'name2', 'n', 'parent', 'root')]
    return a


def balance(res, meth, events):
    nodes, edges = [], []
    for e in walk_path(events):
        if e[0] != 'call':
            continue
        name, args = e[3], addedge_ends(e)
        if name == 'add_node':
            nodes.append((args[0], e[1]))
        elif name in ('add_root', 'add_child', 'add_left_child', 'add_right_child'):
            nodes.append((args[0], e[1]))
        elif name == 'add_edge':
            edges.append((tuple(args[:2]), e[1]))
        elif name == 'del_node':
            n = len(nodes)
            nodes = [x for x in nodes if x[0] != args[0]]
            if len(nodes) == n:
                res.find('node-removed', e[1], 'del_node %s' % norm(args[0]),
                         '%s deletes node %s, which it did not add' % (meth, norm(args[0])))
            edges = [x for x in edges if args[0] not in x[0]]
        elif name == 'del_edge':
            k = args[0] if args else None
            n = len(edges)
            if k is not None and k[0] == 't':
                edges = [x for x in edges if x[0] != k[1:] and x[0] != (k[2], k[1])]
            if len(edges) == n:
                res.find('edge-removed', e[1], 'del_edge %s' % norm(k),
                         '%s deletes edge %s, which it did not add' % (meth, norm(k)))
    for n, site in nodes:
        res.find('node-left', site, 'add_node %s' % norm(n),
                 'on a path of %s that returns normally the node %s added here is still in the graph' % (meth, norm(n)))
    for (p), site in edges:
        if any(n == x for n, _ in nodes for x in p):
            continue
        res.find('edge-left', site, 'add_edge %s' % ','.join(norm(x) for x in p),
                 'on a path of %s that returns normally the edge added here is still in the graph' % meth)


def jobs(prog, tier):
    for c, m, g in EN.entries(['Graph', 'Tree', 'BinaryTree'], BUILD | {('BinaryTree', 'del_node')}):
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
