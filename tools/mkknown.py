"""Writes known-findings.json: the defects repaired in /repo (property, commit, what failed) and those left standing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [
 ('del_node works on undirected', 'C01', 'del_node raised KeyError on every undirected graph'),
 ('undirected edges inside a cluster', 'C11', 'an undirected edge stored as (b,a) was left out of its cluster or rendered twice'),
 ('create_cluster refuses', 'C02', 'create_cluster overwrote a cluster of the same name and kept the caller\'s containers'),
 ('expression trees accept zero', 'C14', 'an expression tree with a subexpression equal to 0 failed'),
 ('a refused left or right child', 'C02', 'a refused binary-tree child still occupied the parent\'s slot'),
 ('BinaryTree.del_node accepts the root', 'C21', 'BinaryTree.del_node failed on the root and cleared both slots'),
 ('traversals do not share', 'C08', 'Tree traversals shared one default Stack object'),
 ('Tree traversals start from', 'C13', 'Tree traversals looked the root up by object, not by name'),
 ('BinaryTree.del_node clears a slot only', 'C21', 'BinaryTree.del_node cleared a slot that named another node'),
 ('a display argument no longer', 'C06', 'the display argument of searches stayed as the global display mode'),
 ('hamiltonian calls itself', 'C20', 'hamiltonian called a method that does not exist'),
 ('hamiltonian and tarjan forget', 'C07', 'second runs of hamiltonian and tarjan did nothing'),
 ('minimum_spanning_tree_prim starts', 'C07', 'Prim read the colours of an earlier run and mixed up None and numbers'),
 ('a self-loop never becomes', 'C28', 'a self-loop made a node its own predecessor'),
 ('reverse Dijkstra and Prim', 'C20', 'reverse Dijkstra and Prim searches raised KeyError'),
 ('depth-first search with a priority', 'C14', 'DFS with a PriorityQueue compared a missing distance'),
 ('acyclic_shortest_path works', 'C07', 'acyclic_shortest_path depended on discovery times of earlier runs'),
 ('find_feasible_flow handles', 'C04', 'a problem without supply or demand left s and t in the graph'),
 ('the max flow methods reject', 'C19', 'max_flow with an unknown algorithm ended in UnboundLocalError'),
 ('random graphs without labels', 'C20', 'random() without labels or lengths failed'),
 ('random node selection', 'C20', 'Euclidean random graphs used a node name before choosing it'),
 ('degree queries and diameter', 'C20', 'get_degrees/get_diameter failed or returned nothing'),
 ('the graph type is compared', 'C13', 'the graph type was compared by object identity'),
 ('all-pairs shortest paths skip', 'C28', 'floyd_warshall took self-loops for cycles and one direction of undirected edges'),
 ('fifo_label_correcting marks', 'C20', 'fifo_label_correcting compared a string with numbers'),
 ('network simplex works with', 'C13', 'network simplex used 0/-1 as node names'),
 ('simplex_find_cycle returns', 'C28', 'simplex_find_cycle returned the path leading to the cycle too'),
 ('get_negative_cycle accepts', 'C14', 'the empty residual graph made cycle_canceling fail'),
 ('every name and value in the DOT', 'C12', 'names and values with quotes, spaces or punctuation broke the DOT text'),
 ('the temporary files', 'C09', 'create and display left temporary files behind when Graphviz failed'),
 ('display in dot2tex', 'C20', 'display with dot2tex layout used an unbound variable'),
 ('an unnamed cluster', 'C02', 'an unnamed cluster could replace a cluster of the same generated name'),
 ('acyclic_shortest_path works on trees', 'C20', 'acyclic_shortest_path on a Tree or BinaryTree called the overriding dfs with arguments it does not take'),
 ('node potentials of the network simplex', 'C25', 'simplex_compute_potentials used the cost of the opposite arc outside the tree when both directions exist'),
 ('a graph attribute without a value', 'C11', 'to_string declared a node named after a graph attribute whose value is None'),
 ('hamiltonian without a destination', 'C32', 'hamiltonian answered no on every graph when no destination was given'),
 ("a node named by a tuple", 'C13', "'in' mistook a node named by a tuple for an edge"),
]
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
fixed = []
for h, s in log:
    if not s.startswith('fix: '):
        continue
    m = [p for p in PROP if s[5:].startswith(p[0])]
    m = [p for p in m if len(p[0]) == max(len(x[0]) for x in m)]
    if len(m) != 1:
        print('NO ENTRY', h, s)
        continue
    fixed.append('fixed: property=%s %s %s' % (m[0][1], h, m[0][2]))
try:
    known = json.load(open(V + '/known-findings.json')).get('known', [])
except Exception:
    known = []
json.dump({'known': known, 'fixed': fixed}, open(V + '/known-findings.json', 'w'), indent=1)
print(len(fixed), len(known))
