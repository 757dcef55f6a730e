"""The public operations of the package (as of the analysed baseline) and what their parameters are."""

CLASSES = {
    'Node': ['__init__', 'get_attr', 'set_attr', 'to_string', '__repr__'],
    'Graph': ['__init__', '__repr__', '__contains__', 'add_node', 'del_node', 'add_edge', 'del_edge', 'get_node',
              'get_edge_cost', 'check_edge', 'get_node_list', 'get_edge_list', 'get_node_num', 'get_edge_num',
              'get_node_attr', 'get_edge_attr', 'set_node_attr', 'set_edge_attr', 'get_neighbors',
              'get_in_neighbors', 'get_out_neighbors', 'edge_to_string', 'to_string', 'label_components',
              'tarjan', 'strong_connect', 'label_strong_component', 'dfs', 'hamiltonian', 'bfs',
              'acyclic_shortest_path', 'search', 'process_node_search', 'process_edge_dijkstra',
              'process_edge_prim', 'process_edge_search', 'minimum_spanning_tree_prim',
              'minimum_spanning_tree_kruskal', 'max_flow_preflowpush', 'process_edge_flow', 'relabel',
              'show_flow', 'create_residual_graph', 'cycle_canceling', 'find_feasible_flow', 'get_layout',
              'set_layout', 'write', 'create', 'display', 'set_display_mode', 'max_flow',
              'get_negative_cycle', 'floyd_warshall', 'floyd_warshall_get_path', 'floyd_warshall_get_cycle',
              'find_cycle_capacity', 'fifo_label_correcting', 'label_correcting_check_cycle',
              'label_correcting_get_cycle', 'augment_cycle', 'network_simplex', 'simplex_mark_leaving_arc',
              'simplex_determine_leaving_arc', 'simplex_mark_entering_arc', 'simplex_mark_st_arcs',
              'print_flow', 'simplex_redraw', 'simplex_remove_arc', 'simplex_select_entering_arc',
              'simplex_optimal', 'simplex_find_tree', 'simplex_connect', 'simplex_search',
              'simplex_augment_cycle', 'simplex_find_cycle', 'get_simplex_solution_graph',
              'simplex_compute_potentials', 'simplex_identify_cycle', 'min_cost_flow', 'random', 'page_rank',
              'get_degrees', 'get_in_degrees', 'get_out_degrees', 'get_diameter', 'create_cluster'],
    'DisjointSet': ['__init__', 'add', 'union', 'find'],
    'Tree': ['__init__', 'get_children', 'get_parent', 'add_root', 'add_child', 'dfs', 'bfs', 'traverse'],
    'BinaryTree': ['__init__', 'add_root', 'add_right_child', 'add_left_child', 'get_right_child',
                   'get_left_child', 'del_node', 'print_nodes', 'dfs', 'bfs', 'traverse', 'printexp',
                   'postordereval'],
}

# only meaningful (or only documented) for one kind of graph
DIRECTED_ONLY = {'tarjan', 'strong_connect', 'label_strong_component', 'max_flow', 'max_flow_preflowpush',
                 'process_edge_flow', 'relabel', 'create_residual_graph', 'cycle_canceling',
                 'find_feasible_flow', 'get_negative_cycle', 'find_cycle_capacity', 'augment_cycle',
                 'network_simplex', 'simplex_determine_leaving_arc', 'simplex_mark_st_arcs', 'simplex_redraw',
                 'simplex_remove_arc', 'simplex_select_entering_arc', 'simplex_optimal', 'simplex_find_tree',
                 'simplex_connect', 'simplex_search', 'simplex_augment_cycle', 'simplex_find_cycle',
                 'get_simplex_solution_graph', 'simplex_compute_potentials', 'simplex_identify_cycle',
                 'simplex_mark_leaving_arc', 'simplex_mark_entering_arc', 'min_cost_flow', 'page_rank',
                 'get_in_neighbors', 'get_in_degrees', 'get_out_degrees', 'acyclic_shortest_path',
                 'show_flow', 'fifo_label_correcting', 'label_correcting_check_cycle',
                 'label_correcting_get_cycle'}
UNDIRECTED_ONLY = {'label_components', 'get_degrees'}

NAME = 'name'
OPTNAME = ('opt', 'name')
PK = {'name': NAME, 'name1': NAME, 'name2': NAME, 'n': NAME, 'm': NAME, 'source': NAME, 'sink': NAME,
      'root': OPTNAME, 'k': NAME, 'l': NAME, 'p': NAME, 'i': NAME, 'j': NAME, 'current': NAME,
      'neighbor': NAME, 'parent': NAME, 'node': NAME, 'destination': OPTNAME, 'e': 'edge', 'edge': 'edge',
      'attr': 'attrname', 'value': 'value', 't': 'Graph', 'solution_g': 'Graph', 'cycle': 'cycle',
      'pred': 'preddict', 'display': ('opt', 'str'), 'component': ('opt', 'value'), 'q': 'q', 'algo': 'str',
      'pivot': 'str', 'item': NAME, 'node_list': 'namelist', 'cluster_attrs': 'attrs', 'node_attrs': 'attrs',
      'highlight': ('opt', 'namelist'), 'amount': 'num', 'min_capacity': 'num', 'disc_count': 'num',
      'finish_count': 'num', 'distance': 'num', 'transpose': 'bool', 'reverse': 'bool', 'format': 'str',
      'basename': 'str', 'layout': ('opt', 'str'), 'nextn': 'nextdict', 'element': OPTNAME, 'index': 'num',
      'topological_order': ('opt', 'namelist'), 'components': ('opt', 'DisjointSet'), 'optimize': 'bool',
      'aList': 'namelist', 'numnodes': 'num', 'damping_factor': 'num', 'max_iterations': 'num',
      'min_delta': 'num', 'order': 'str', 'priority': 'str', 'component_nr': 'num', 'seedInput': 'value',
      'file_obj': 'any'}
PKM = {('simplex_mark_leaving_arc', 'q'): NAME, ('simplex_remove_arc', 'q'): NAME,
       ('floyd_warshall_get_path', 'distance'): 'distdict', ('floyd_warshall_get_cycle', 'distance'): 'distdict',
       ('dfs', 'root'): NAME, ('bfs', 'root'): NAME, ('add_root', 'root'): NAME,
       ('set_display_mode', 'value'): 'str', ('set_layout', 'value'): 'str',
       ('strong_connect', 'q'): 'namelist', ('strong_connect', 'component'): 'num',
       ('simplex_select_entering_arc', 't'): 'Graph',
       ('process_edge_dijkstra', 'component'): ('opt', 'value'), ('traverse', 'root'): OPTNAME,
       ('network_simplex', 'display'): 'str',
       ('write', 'layout'): ('opt', 'str'), ('create', 'layout'): 'str'}


def param_kind(meth, p):
    return PKM.get((meth, p), PK.get(p, 'any'))


def gtypes(cls, meth):
    if cls in ('Tree', 'BinaryTree', 'DisjointSet'):
        return ['digraph']
    if cls == 'Node':
        return ['digraph']
    if meth in DIRECTED_ONLY:
        return ['digraph']
    if meth in UNDIRECTED_ONLY:
        return ['graph']
    return ['digraph', 'graph']


def entries(classes=None, skip=()):
    for c in (classes or CLASSES):
        for m in CLASSES[c]:
            if m in skip or (c, m) in skip:
                continue
            for g in gtypes(c, m):
                yield c, m, g
