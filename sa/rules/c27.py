"""C27: queries and exports never modify the graph."""
from .base import *

ID = 'C27'
TECHNIQUE = 'purity analysis: write effects on objects existing before the call (abstract interpretation)'
QUERIES = {
    'Node': ['get_attr', 'to_string', '__repr__'],
    'Graph': ['__repr__', '__contains__', 'get_node', 'get_edge_cost', 'check_edge', 'get_node_list', 'get_edge_list',
              'get_node_num', 'get_edge_num', 'get_node_attr', 'get_edge_attr', 'get_neighbors', 'get_in_neighbors',
              'get_out_neighbors', 'edge_to_string', 'to_string', 'create_residual_graph', 'get_layout', 'write',
              'create', 'get_negative_cycle', 'floyd_warshall', 'floyd_warshall_get_path',
              'floyd_warshall_get_cycle', 'find_cycle_capacity', 'label_correcting_get_cycle',
              'label_correcting_check_cycle', 'print_flow', 'simplex_optimal', 'simplex_select_entering_arc',
              'get_simplex_solution_graph', 'simplex_identify_cycle', 'page_rank',
              'get_degrees', 'get_in_degrees', 'get_out_degrees'],
    'Tree': ['get_children', 'get_parent'],
    'BinaryTree': ['get_right_child', 'get_left_child'],
}
RULE = ('no store, deletion or in-place update of an object that existed before the call (the graph, its nodes, '
        'attribute dictionaries, neighbour lists, an argument) is reachable from a query or export operation')
EXPLANATION = ('Each query is interpreted abstractly from an arbitrary graph with all package calls followed; every '
               'field store, item store, deletion and mutating container call is classified by the object it '
               'changes. Objects created during the call are exempt.')
MINIMUM = {'writes_seen': 40}


def run(prog, res, cls, meth, gtype):
    def hook(it, st, ev):
        k = ev[0]
        if k in ('setf', 'set', 'del', 'mut'):
            base = ev[2]
            what = {'setf': 'stores .%s' % norm(ev[3]), 'set': 'stores an item', 'del': 'deletes an item',
                    'mut': '%s()' % norm(ev[3])}[k]
            c = norm(ev[3])
        elif k == 'ecall' and ev[3] in MUTATORS and ev[2][0] in ('i', 'f', 's', 'g', 'el'):
            base, what, c = ev[2], '%s()' % ev[3], ev[3]
        elif k == 'ecall' and ev[2][0] == 'ext' and ev[2][1] in INPLACE and ev[4]:
            base, what, c = ev[4][0], ev[2][1], ev[2][1]
        else:
            if k == 'gset':
                res.find('writes', ev[1], 'global ' + ev[2], '%s rebinds the module variable %s' % (meth, ev[2]))
            return
        res.count('writes_seen')
        r = root(base)
        if r[0] in ('s', 'g'):
            res.find('writes', ev[1], '%s %s %s' % (k, norm(base), c),
                     '%s() is a query but it changes existing state: %s on %s' % (meth, what, norm(base)))
    each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking())


INPLACE = {'random.shuffle', 'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace',
           'heapq.heappushpop', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right'}


def jobs(prog, tier):
    for c in QUERIES:
        for m in QUERIES[c]:
            for g in EN.gtypes(c, m):
                yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
