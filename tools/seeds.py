from mkseed import seed
seed('c05-zero-capacity', 'C05', 'an arc whose capacity is 0 and a run of max_flow',
     'max_flow replaces the capacity 0 of an arc by the default capacity for arcs without one',
     [("""            self.edge_attr[e]['flow'] = 0
            if 'capacity' in self.edge_attr[e]:
                capacity = self.edge_attr[e]['capacity']
                self.edge_attr[e]['label'] = str(capacity)+'/0'
            else:
                self.edge_attr[e]['capacity'] = INF
                self.edge_attr[e]['label'] = 'INF/0'
        while True:""", """            self.edge_attr[e]['flow'] = 0
            capacity = self.edge_attr[e].get('capacity')
            if capacity:
                self.edge_attr[e]['label'] = str(capacity)+'/0'
            else:
                self.edge_attr[e]['capacity'] = INF
                self.edge_attr[e]['label'] = 'INF/0'
        while True:""")],
     '''
import sys
from gimpy import Graph, DIRECTED_GRAPH
g = Graph(type=DIRECTED_GRAPH, display='off')
for a, b, c in (('a', 'b', 5), ('b', 'c', 0), ('a', 'd', 3), ('d', 'c', 2)):
    g.add_edge(a, b, capacity=c)
before = {e: g.get_edge_attr(e[0], e[1], 'capacity') for e in g.get_edge_list()}
g.max_flow('a', 'c', display='off')
after = {e: g.get_edge_attr(e[0], e[1], 'capacity') for e in g.get_edge_list()}
print(before, after)
sys.exit(0 if before == after else 1)
''')
seed('c14-component-zero', 'C14', 'a component of more than one node numbered 0',
     'the nodes reached in component 0 are not labelled with it',
     [("""        pred[neighbor] = current
        neighbor_node.set_attr('color', 'red')
        if component != None:""", """        pred[neighbor] = current
        neighbor_node.set_attr('color', 'red')
        if component:""")],
     '''
import sys
from gimpy import Graph, UNDIRECTED_GRAPH
g = Graph(type=UNDIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('b', 'c'), ('x', 'y')):
    g.add_edge(*e)
g.label_components()
c = {n: g.get_node_attr(n, 'component') for n in g.get_node_list()}
print(c, g.num_components)
sys.exit(0 if g.num_components == 2 and c['a'] == c['b'] == c['c'] != c['x'] == c['y'] else 1)
''')
seed('c23-set-order', 'C23', 'node names whose hashes differ from process to process (strings) and a node with several neighbours',
     'the order in which a search examines neighbours is that of a set',
     [("            for n in neighbors[current]:", "            for n in set(neighbors[current]):")],
     '''
import os, subprocess, sys
PROG = """
from gimpy import Graph, DIRECTED_GRAPH
g = Graph(type=DIRECTED_GRAPH, display='off')
names = ['node-%d' % i for i in range(12)]
for n in names:
    g.add_edge('root', n)
    for m in names:
        if m > n:
            g.add_edge(n, m)
print(sorted(g.search('root', algo='BFS').items()), list(g.search('root', algo='DFS').items()))
"""
outs = set()
for h in range(1, 7):
    r = subprocess.run([sys.executable, '-c', PROG], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True)
    if r.returncode:
        print(r.stderr)
        sys.exit(2)
    outs.add(r.stdout)
print(len(outs), 'different results')
sys.exit(0 if len(outs) == 1 else 1)
''')
seed('c13-destination-identity', 'C13', 'a destination named by a value equal but not identical to the stored name (a string built at run time, a big integer)',
     'search recognises its destination by object identity, and answers that there is no path',
     [("            if current == destination:\n                found = True", "            if current is destination:\n                found = True")],
     '''
import sys
from gimpy import Graph, DIRECTED_GRAPH
g = Graph(type=DIRECTED_GRAPH, display='off')
for i in range(4):
    g.add_edge('v%d' % i, 'v%d' % (i + 1), cost=1)
p = g.search('v0', destination='v' + str(int('3')), algo='BFS')
print(p)
sys.exit(0 if p == ['v0', 'v1', 'v2', 'v3'] else 1)
''')

PRE = """
import sys, io, os, contextlib
from gimpy import Graph, Tree, BinaryTree, DIRECTED_GRAPH, UNDIRECTED_GRAPH
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()) as o:
        r = f(*a, **k)
    quiet.out = o.getvalue()
    return r
def net(*arcs, **demand):
    g = Graph(type=DIRECTED_GRAPH, display='off')
    for a, b, cap, cost in arcs:
        g.add_edge(a, b, capacity=cap, cost=cost)
    for n in g.get_node_list():
        g.set_node_attr(n, 'demand', demand.get(n, 0))
    return g
def check(ok, *what):
    print(*what)
    sys.exit(0 if ok else 1)
"""
seed('c01-del-selfloop', 'C01', 'a self-loop in an undirected graph that is deleted again',
     'del_edge leaves one of the two entries of the self-loop in the neighbour list',
     [("            self.neighbors[e[0]].remove(e[1])\n            self.neighbors[e[1]].remove(e[0])\n",
       "            self.neighbors[e[0]].remove(e[1])\n            if e[0] in self.neighbors[e[1]][:1] or e[0] != e[1]:\n                self.neighbors[e[1]].remove(e[0])\n")],
     PRE + """
g = Graph(type=UNDIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
g.add_edge('a', 'a')
g.del_edge(('a', 'a'))
check(g.get_neighbors('a') == ['b'], g.get_neighbors('a'))
""")
seed('c02-child-without-parent', 'C02', 'add_child with a parent that does not exist',
     'the node is in the tree when the parent turns out not to exist',
     ['tree.py', ("""        attrs['level'] = self.get_node(parent).get_attr('level') + 1
        attrs['parent'] = parent
        self.add_node(n, **attrs)
""", """        child = self.add_node(n, parent = parent, **attrs)
        child.set_attr('level', self.get_node(parent).get_attr('level') + 1)
""")],
     PRE + """
t = Tree(display='off')
t.add_root('r')
try:
    t.add_child('x', 'nobody')
except Exception:
    pass
check('x' not in t.get_node_list(), t.get_node_list())
""")
seed('c03-phantom-edge', 'C03', 'an attribute of an undirected edge set under the other endpoint order',
     'the attribute goes to a second edge entry',
     [("""            try:
                self.edge_attr[(n,m)][attr] = value
            except KeyError:
                self.edge_attr[(m,n)][attr] = value
""", """            self.edge_attr.setdefault((n,m), self.edge_attr.get((m,n), {}))[attr] = value
""")],
     PRE + """
g = Graph(type=UNDIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
g.set_edge_attr('b', 'a', 'color', 'red')
check(g.get_edge_list() == [('a', 'b')] and g.get_edge_attr('a', 'b', 'color') == 'red', g.get_edge_list())
""")
seed('c04-sink-stays', 'C04', 'a min-cost-flow instance with supply but no demand',
     'the artificial sink stays in the graph when the feasible-flow phase fails',
     [("""                self.del_node('s')
                self.del_node('t')
                return False
""", """                self.del_node('s')
                if self.in_neighbors['t']:
                    self.del_node('t')
                return False
""")],
     PRE + """
g = net(('a', 'b', 5, 1), a=3)
quiet(g.min_cost_flow, display='off', algo='simplex')
check(sorted(g.get_node_list()) == ['a', 'b'], g.get_node_list())
""")
seed('c06-maxflow-return', 'C06', 'a display argument to max_flow',
     'the loop of max_flow is left by a return, past the line that restores the display setting',
     [("""            if sink not in pred:
                break
""", """            if sink not in pred:
                return
""")],
     PRE + """
g = net(('a', 'b', 5, 1), ('b', 'c', 2, 1))
g.set_display_mode('file')
g.max_flow('a', 'c', display='off')
check(g.attr['display'] == 'file', g.attr['display'])
""")
seed('c07-stale-components', 'C07', 'a second component labelling after a node of another component was labelled before',
     'the counter of components goes on from the previous run',
     [("""                            "undirected graphs")
        self.num_components = 0
""", """                            "undirected graphs")
        self.num_components = getattr(self, 'num_components', 0)
""")],
     PRE + """
g = Graph(type=UNDIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
g.add_node('c')
g.label_components()
first = [g.get_node_attr(n, 'component') for n in 'abc']
g.label_components()
check(first == [g.get_node_attr(n, 'component') for n in 'abc'] and g.num_components == 2, g.num_components)
""")
seed('c08-dfs-pred', 'C08', 'depth-first searches of two graphs in one process',
     'the predecessors of all depth-first searches are kept in one default dictionary',
     [("            component = None, transpose = False, display = None, pred = None):\n", "            component = None, transpose = False, display = None, pred = {}):\n")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
g.dfs('a')
h = Graph(type=DIRECTED_GRAPH, display='off')
h.add_edge('b', 'c')
try:
    h.dfs('b')
    ok = True
except KeyError as e:
    ok = False
check(ok)
""")
seed('c10-silent-failure', 'C10', 'a layout program that fails without a message',
     'a failure without anything on standard error is passed off as a rendering',
     [("        p.check_returncode()\n\n        if p.stderr:\n", "        if p.stderr:\n            p.check_returncode()\n")],
     PRE + """
import tempfile, shutil, stat
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, 'layout')
    with open(f, 'w') as x:
        x.write('#!/bin/sh\\nexit 3\\n')
    os.chmod(f, 0o755)
    g = Graph(type=DIRECTED_GRAPH, display='off')
    g.add_edge('a', 'b')
    try:
        r = quiet(g.create, f, 'png')
    except Exception as e:
        r = None
finally:
    shutil.rmtree(d)
check(r is None, r)
""")
seed('c11-after-cluster-edge', 'C11', 'an edge added after one inside a cluster',
     'the list of edges ends at the first edge that was rendered in a cluster',
     [("            if e in processed_edges:\n                continue\n", "            if e in processed_edges:\n                break\n")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
g.add_edge('b', 'c')
g.create_cluster(['a', 'b'])
check(g.to_string().count('->') == 2, g.to_string())
""")
seed('c15-simplex-closing-arc', 'C15', 'arcs in both directions between the ends of the closing arc of a pivot cycle',
     'the closing arc of the cycle is looked up in the network, not in the tree: the opposite arc takes the flow',
     [("""        # augment arc cycle[n-1], cycle[0]
        if (cycle[n-1], cycle[0]) in tel:
""", """        # augment arc cycle[n-1], cycle[0]
        if (cycle[n-1], cycle[0]) in self.edge_attr:
""")],
     PRE + """
# the tree holds (b, a); the network also has (a, b)
g = net(('b', 'a', 5, 1), ('a', 'b', 5, 1), ('b', 'c', 5, 1), ('c', 'a', 5, 1))
for e, f in ((('b', 'a'), 2), (('a', 'b'), 0), (('b', 'c'), 0), (('c', 'a'), 0)):
    g.set_edge_attr(e[0], e[1], 'flow', f)
t = Graph(type=DIRECTED_GRAPH, display='off')
t.add_edge('b', 'a')
t.add_edge('b', 'c')
t.add_edge('c', 'a')
g.simplex_remove_arc(t, 'b', 'a', 2, ['b', 'c', 'a'])
check(g.get_edge_attr('b', 'a', 'flow') == 0 and g.get_edge_attr('a', 'b', 'flow') == 0,
      {e: g.get_edge_attr(e[0], e[1], 'flow') for e in g.get_edge_list()})
""")
seed('c16-fraction', 'C16', 'an arc with a fraction of a unit of its capacity left',
     'the residual graph leaves out an arc on which less than one unit is left',
     [("            if capacity_e - flow_e > 0:\n", "            if capacity_e - flow_e >= 1:\n")],
     PRE + """
g = net(('a', 'b', 2.5, 1))
g.set_edge_attr('a', 'b', 'flow', 2)
r = g.create_residual_graph()
check(sorted(r.get_edge_list()) == [('a', 'b'), ('b', 'a')], r.get_edge_list())
""")
seed('c20-error-branch', 'C20', 'deleting an edge that does not exist from an undirected graph',
     'the message of the refusal uses a name that does not exist',
     [("""                except KeyError:
                    raise Exception('Edge %s does not exists!' %str(e))
            self.neighbors[e[0]].remove(e[1])
            self.neighbors[e[1]]""", """                except KeyError:
                    raise Exception('Edge %s does not exists!' %str(edge))
            self.neighbors[e[0]].remove(e[1])
            self.neighbors[e[1]]""")],
     PRE + """
g = Graph(type=UNDIRECTED_GRAPH, display='off')
g.add_edge('a', 'b')
try:
    g.del_edge(('a', 'c'))
    ok = False
except NameError as e:
    ok = False
except Exception as e:
    ok = 'does not exist' in str(e)
check(ok)
""")
seed('c21-root-level', 'C21', 'a root given a level of its own',
     'the root keeps a level passed by the caller, and so do the levels below',
     ['tree.py', ("        attrs['level'] = 0\n", "        attrs.setdefault('level', 0)\n")],
     PRE + """
t = Tree(display='off')
t.add_root('r', level=4)
t.add_child('c', 'r')
check(t.get_node_attr('r', 'level') == 0 and t.get_node_attr('c', 'level') == 1)
""")
seed('c22-finished-node-ends', 'C22', 'a depth-first search that meets a finished node on its stack before everything is reached',
     'the search ends at the first element of the work list that is already finished',
     [("""            if self.get_node(current).get_attr('color') == 'green':
                q.remove(current)
                continue
""", """            if self.get_node(current).get_attr('color') == 'green':
                q.remove(current)
                break
""")],
     PRE + """
import itertools
bad = None
nodes = 'abcde'
pairs = [(a, b) for a in nodes for b in nodes if a < b]
for k in (4, 5, 6):
    for es in itertools.combinations(pairs, k):
        g = Graph(type=UNDIRECTED_GRAPH, display='off')
        for n in nodes:
            g.add_node(n)
        for a, b in es:
            g.add_edge(a, b)
        seen, todo = {'a'}, ['a']
        while todo:
            for m in g.get_neighbors(todo.pop()):
                if m not in seen:
                    seen.add(m)
                    todo.append(m)
        if seen - {'a'} != set(g.search('a')) - {'a'}:
            bad = es
            break
    if bad:
        break
check(bad is None, bad)
""")
seed('c24-cross-edge', 'C24', 'a graph in which a later component has an edge to an earlier one',
     'an edge into a component already numbered lowers the low link',
     [("            elif m in q:\n", "            else:\n")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for n in 'abc':
    g.add_node(n)
for a, b in ('ab', 'cb', 'ca'):
    g.add_edge(a, b)
g.label_strong_component()
check({g.get_node_attr(n, 'component') for n in 'abc'} == {0, 1, 2}, [g.get_node_attr(n, 'component') for n in 'abc'])
""")
seed('c26-demand-only', 'C26', 'a network whose supply exceeds its demand',
     'the feasible-flow phase looks at the demands instead of the supplies',
     [("""        for i in self.neighbors['s']:
            flow = self.get_edge_attr('s', i, 'flow')
            capacity = self.get_edge_attr('s', i, 'capacity')
""", """        for i in self.in_neighbors['t']:
            flow = self.get_edge_attr(i, 't', 'flow')
            capacity = self.get_edge_attr(i, 't', 'capacity')
""")],
     PRE + """
g = net(('a', 'b', 9, 1), a=5, b=-3)
check(g.find_feasible_flow() is False)
""")
seed('c27-get-attr-default', 'C27', 'reading an attribute a node does not have',
     'reading a missing attribute of a node adds it',
     [("""        if attr in self.attr:
            return self.attr[attr]
        else:
            return None

    def set_attr""", """        return self.attr.setdefault(attr)

    def set_attr""")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
g.add_node('a')
before = g.to_string()
g.get_node_attr('a', 'weight')
check(g.to_string() == before, g.to_string())
""")
seed('c28-cycle-start', 'C28', 'a negative cycle of three nodes found by label correcting',
     'the returned cycle runs against the arcs',
     [("""            current = pred[current]
        cycle.reverse()
        return cycle
""", """            current = pred[current]
        return cycle
""")],
     PRE + """
g = net(('a', 'b', 1, -1), ('b', 'c', 1, -1), ('c', 'a', 1, -1))
ok, c = g.fifo_label_correcting('a')
check(not ok and all((c[i - 1], c[i]) in g.edge_attr for i in range(len(c))), c)
""")
seed('c18-size-swap', 'C18', 'three sets of different sizes united in the wrong order',
     'the size of the set hung below another is added to itself, so later unions hang the larger set below the smaller',
     [("""            self.add_edge(roots[1], roots[0])
            self.sizes[roots[0]] += self.sizes[roots[1]]
""", """            self.add_edge(roots[1], roots[0])
            self.sizes[roots[1]] += self.sizes[roots[0]]
""")],
     PRE + """
from gimpy.graph import DisjointSet
d = DisjointSet(optimize=True, display='off')
d.add(['a', 'a1'])
d.add(['b'])
d.union('a', 'b')
check(d.sizes[d.find('a')] == 3, d.sizes)
""")
seed('c19-node-selection', 'C19', 'an unknown node selection rule for a Euclidean random graph',
     'an unknown rule silently means the closest nodes',
     [("""                    elif node_selection == 'closest':
""", """                    elif node_selection is not None:
""")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
try:
    quiet(g.random, numnodes=6, Euclidean=True, degree_range=(1, 2), node_selection='nearest')
    ok = 'nknown' in quiet.out and not g.get_edge_list()
except Exception as e:
    ok = 'nknown' in str(e)
check(ok)
""")
seed('c25-capacity-sign', 'C25', 'a non-tree arc at capacity with positive reduced cost',
     'the first-eligible rule overlooks arcs at capacity whose reduced cost is at most one',
     [("""                elif flow_ij==capacity_ij:
                    if cpi_ij > 0:
                        max_c = e
                        max_v = cpi_ij
""", """                elif flow_ij==capacity_ij:
                    if cpi_ij >= 1:
                        max_c = e
                        max_v = cpi_ij
""")],
     PRE + """
g = net(('a', 'b', 5, 2), ('a', 'c', 5, 1.5), ('c', 'b', 5, 0))
for e, f in ((('a', 'b'), 5), (('a', 'c'), 1), (('c', 'b'), 1)):
    g.set_edge_attr(e[0], e[1], 'flow', f)
t = Graph(type=DIRECTED_GRAPH, display='off')
t.add_edge('a', 'c')
t.add_edge('c', 'b')
t.simplex_search('a', 1)
g.simplex_compute_potentials(t, 'a')
try:
    r = g.simplex_select_entering_arc(t, 'first_eligible')
except Exception as e:
    r = repr(e)
check(not g.simplex_optimal(t) and r == ('a', 'b'), r)
""")
seed('c09-second-file', 'C09', 'a call of create when Graphviz is not installed',
     'the picture is collected in a second temporary file that stays behind when Graphviz cannot be started',
     [("""            p = subprocess.run([layout, '-T'+format, tmp_name],
                               capture_output = True)
""", """            out_fd, out_name = tempfile.mkstemp()
            p = subprocess.run([layout, '-T'+format, tmp_name],
                               stdout = out_fd, stderr = subprocess.PIPE)
            os.close(out_fd)
            with open(out_name, 'rb') as out_file:
                p.stdout = out_file.read()
            os.remove(out_name)
""")],
     PRE + """
import os, tempfile
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    os.environ['PATH'] = d + '/none'
    g = net(('a', 'b', 1, 1))
    quiet(g.create, 'dot', 'png')
    left = os.listdir(d)
    tempfile.tempdir = None
check(not left, left)
""")
seed('c32-degree-antiparallel', 'C32', 'two arcs between the same two nodes, one in each direction',
     'a neighbour to which and from which there is an arc counts once in the degree',
     [("""                degree[n] = (len(self.get_in_neighbors(n)) +
                             len(self.get_out_neighbors(n)))
""", """                degree[n] = len(set(self.get_in_neighbors(n) +
                                    self.get_out_neighbors(n)))
""")],
     PRE + """
g = net(('a', 'b', 1, 1), ('b', 'a', 1, 1), ('b', 'c', 1, 1))
check(g.get_degrees() == {'a': 2, 'b': 3, 'c': 1}, g.get_degrees())
""")
seed('c32-bfs-distance', 'C32', 'a breadth-first search of a graph with a cycle',
     'a node waiting in the queue of a breadth-first search takes the distance of a later neighbour',
     [("""            if ((algo == 'UnweightedSPT' or algo == 'BFS') and
""", """            if (algo == 'UnweightedSPT' and
""")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('s', 'a'), ('s', 'b'), ('a', 't'), ('b', 'c'), ('b', 't'), ('s', 'd'), ('a', 'd')):
    g.add_edge(*e)
g.search('s', algo='BFS')
d = {n: g.get_node_attr(n, 'distance') for n in g.get_node_list()}
check(d == {'s': 0, 'a': 1, 'b': 1, 'd': 1, 't': 2, 'c': 2}, d)
""")
seed('c33-relabel-bound', 'C33', 'excess that must be sent back over more than one node',
     'relabelling does not see neighbours labelled higher than the number of nodes',
     [("        min_distance = 2*len(self.get_node_list()) + 1\n", "        min_distance = len(self.get_node_list()) + 1\n")],
     PRE + """
g = net(('s', 'a', 5, 0), ('a', 'b', 5, 0), ('b', 't', 1, 0))
for n, d in (('s', 4), ('a', 6), ('b', 1), ('t', 0)):
    g.set_node_attr(n, 'distance', d)
for e, f in ((('s', 'a'), 5), (('a', 'b'), 5), (('b', 't'), 1)):
    g.set_edge_attr(e[0], e[1], 'flow', f)
g.relabel('b')
check(g.get_node_attr('b', 'distance') == 7, g.get_node_attr('b', 'distance'))
""")
seed('c33-steep-push', 'C33', 'a node more than one label above its neighbour',
     'flow is pushed down a steep arc',
     [("""        if (self.get_node_attr(i, 'distance') !=
            self.get_node_attr(j, 'distance') + 1):
""", """        if (self.get_node_attr(i, 'distance') <=
            self.get_node_attr(j, 'distance')):
""")],
     PRE + """
g = net(('s', 'a', 5, 0), ('a', 't', 5, 0))
for n, d, x in (('s', 3, -5), ('a', 4, 5), ('t', 0, 0)):
    g.set_node_attr(n, 'distance', d)
    g.set_node_attr(n, 'excess', x)
g.set_edge_attr('s', 'a', 'flow', 5)
g.set_edge_attr('a', 't', 'flow', 0)
r = g.process_edge_flow('s', 't', 'a', 't', 'FIFO', None)
check(not r and g.get_edge_attr('a', 't', 'flow') == 0, (r, g.get_edge_attr('a', 't', 'flow')))
""")

seed('c34-one-way', 'C34', 'components that only an arc leading out of the first one joins',
     'arcs leading out of the reached component are not considered when the solution is connected',
     [("                    elif (m,n) in self.edge_attr:", "                    elif (m,n) in solution_g.edge_attr:")],
     PRE + """
g = net(('a', 'b', 5, 0), ('b', 'c', 5, 0))
g.set_edge_attr('a', 'b', 'flow', 0)
g.set_edge_attr('b', 'c', 'flow', 0)
s = g.simplex_find_tree()
check(sorted(s.edge_attr) == [('a', 'b'), ('b', 'c')], sorted(s.edge_attr))
""")
seed('c34-root-depth', 'C34', 'the depth of a root',
     'the root of the spanning tree is given depth one',
     [("        depth = {source:0}\n", "        depth = {source:1}\n")],
     PRE + """
g = net(('a', 'b', 5, 0), ('b', 'c', 5, 0))
g.simplex_search('b', 1)
check([g.get_node_attr(n, 'depth') for n in 'abc'] == [1, 0, 1], [g.get_node_attr(n, 'depth') for n in 'abc'])
""")
seed('c35-empty-order', 'C35', 'an empty list handed in for the topological order',
     'an empty order counts as no order, so nothing is ever put in it',
     [("        if topological_order != None:\n            topological_order", "        if topological_order:\n            topological_order")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('a', 'c'), ('c', 'b')):
    g.add_edge(*e)
order = []
g.dfs('a', topological_order=order)
check(order == ['a', 'c', 'b'], order)
""")
seed('c35-finish-count', 'C35', 'a node with two neighbours reached from it',
     'the finishing count a visit returns is not carried on',
     [("        finish_count += 1\n        return disc_count, finish_count", "        return disc_count, finish_count")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('a', 'c'), ('c', 'd')):
    g.add_edge(*e)
g.dfs('a')
ft = [g.get_node(n).get_attr('finish_time') for n in 'bdca']
check(ft == [1, 2, 3, 4], ft)
""")
seed('c36-fractional-cost', 'C36', 'a negative cycle of fractional costs',
     'cycles whose cost is above minus one do not count as negative',
     [("            if distance[(i,i)] < 0:\n                # shortest", "            if distance[(i,i)] <= -1:\n                # shortest")],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for (i, j, c) in (('a', 'b', 0.25), ('b', 'a', -0.375)):
    g.add_edge(i, j, cost=c)
check(g.floyd_warshall()[0] is False, 'called valid')
check(g.get_negative_cycle() is not None, g.get_negative_cycle())
""")
seed('c37-in-degree', 'C37', 'a referring page with other numbers of arcs in and out',
     'the share of a page is divided by its in-degree',
     [('                             len(self.get_neighbors(referring_page)))', '                             max(1, len(self.get_in_neighbors(referring_page))))')],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('a', 'c'), ('b', 'c'), ('c', 'a'), ('d', 'c'), ('d', 'a')):
    g.add_edge(*e)
p = g.page_rank(max_iterations=1000, min_delta=1e-9)
q = dict.fromkeys(g.get_node_list(), 1.0 / len(g.get_node_list()))
for _ in range(500):
    q = {n: 0.15 / len(q) + sum(0.85 * q[m] / len(g.get_neighbors(m)) for m in g.get_in_neighbors(n)) for n in q}
check(all(abs(p[n] - q[n]) < 1e-6 for n in q), p, q)
""")
seed('c37-rising-only', 'C37', 'a node whose rank falls between passes',
     'a lower rank never replaces a higher one',
     [('                pagerank[node] = rank\n', '                if rank > pagerank[node]:\n                    pagerank[node] = rank\n')],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('a', 'c'), ('b', 'c'), ('c', 'a'), ('d', 'c'), ('d', 'a')):
    g.add_edge(*e)
p = g.page_rank(max_iterations=1000, min_delta=1e-9)
q = dict.fromkeys(g.get_node_list(), 1.0 / len(g.get_node_list()))
for _ in range(500):
    q = {n: 0.15 / len(q) + sum(0.85 * q[m] / len(g.get_neighbors(m)) for m in g.get_in_neighbors(n)) for n in q}
check(all(abs(p[n] - q[n]) < 1e-6 for n in q), p, q)
""")
seed('c37-cancelling-changes', 'C37', 'changes of rank in both directions in one pass',
     'rises and falls of rank cancel out in the change measured',
     [('                diff += abs(pagerank[node] - rank)', '                diff += pagerank[node] - rank')],
     PRE + """
g = Graph(type=DIRECTED_GRAPH, display='off')
for e in (('a', 'b'), ('a', 'c'), ('b', 'c'), ('c', 'a'), ('d', 'c'), ('d', 'a')):
    g.add_edge(*e)
p = g.page_rank(max_iterations=1000, min_delta=1e-9)
q = dict.fromkeys(g.get_node_list(), 1.0 / len(g.get_node_list()))
for _ in range(500):
    q = {n: 0.15 / len(q) + sum(0.85 * q[m] / len(g.get_neighbors(m)) for m in g.get_in_neighbors(n)) for n in q}
check(all(abs(p[n] - q[n]) < 1e-6 for n in q), p, q)
""")
