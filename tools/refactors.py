"""Edits of whole functions that keep the behaviour (helpers extracted, statements reordered, loops rewritten); see sweep.py and mt.py."""
import ast, textwrap
from mt import E

SRC = '/repo/src/gimpy/'


def R(name, target, new, path='graph.py'):
    s = open(SRC + path).read()
    lines = s.split('\n')
    cls, meth = target.split('.')
    for c in ast.parse(s).body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == meth:
                    a = min([f.lineno] + [d.lineno for d in f.decorator_list])
                    old = '\n'.join(lines[a - 1:f.end_lineno]) + '\n'
                    E(name, '', path, (old, textwrap.indent(textwrap.dedent(new).strip('\n') + '\n', '    ')))
                    return
    E(name, '', path, ('no such function ' + target, ''))


R('ref-add-node', 'Graph.add_node', '''
def _register(self, name):
    self.neighbors[name] = []
    if self.graph_type == DIRECTED_GRAPH:
        self.in_neighbors[name] = []

def add_node(self, name, **attr):
    """adds"""
    if name in self.nodes:
        raise MultipleNodeException
    node = Node(name, **attr)
    self._register(name)
    self.nodes[name] = node
    return node
''')

R('ref-add-edge', 'Graph.add_edge', '''
def _has_edge(self, a, b):
    if (a, b) in self.edge_attr:
        return True
    return self.graph_type == UNDIRECTED_GRAPH and (b, a) in self.edge_attr

def _link(self, tail, head):
    self.neighbors[tail].append(head)
    if self.graph_type == UNDIRECTED_GRAPH:
        self.neighbors[head].append(tail)
    else:
        self.in_neighbors[head].append(tail)

def add_edge(self, name1, name2, **attr):
    if self._has_edge(name1, name2):
        raise MultipleEdgeException
    for name in (name1, name2):
        if name not in self.nodes:
            self.add_node(name)
    attributes = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
    attributes.update(attr)
    self.edge_attr[(name1, name2)] = attributes
    self._link(name1, name2)
''')

R('ref-del-node', 'Graph.del_node', '''
def _unlink(self, tail, head):
    self.neighbors[tail].remove(head)
    if self.graph_type == UNDIRECTED_GRAPH:
        self.neighbors[head].remove(tail)
    else:
        self.in_neighbors[head].remove(tail)

def del_node(self, name):
    if name not in self.nodes:
        raise Exception('Node %s does not exist!' %str(name))
    incident = [e for e in self.edge_attr if e[0] == name or e[1] == name]
    for e in incident:
        del self.edge_attr[e]
        self._unlink(e[0], e[1])
    if self.graph_type == DIRECTED_GRAPH:
        del self.in_neighbors[name]
    del self.nodes[name]
    del self.neighbors[name]
''')

R('ref-del-edge', 'Graph.del_edge', '''
def del_edge(self, e):
    tail, head = e[0], e[1]
    if (tail, head) in self.edge_attr:
        key = (tail, head)
    elif self.graph_type == UNDIRECTED_GRAPH and (head, tail) in self.edge_attr:
        key = (head, tail)
    else:
        raise Exception('Edge %s does not exists!' %str(e))
    del self.edge_attr[key]
    self.neighbors[tail].remove(head)
    if self.graph_type == DIRECTED_GRAPH:
        self.in_neighbors[head].remove(tail)
    else:
        self.neighbors[head].remove(tail)
''')

R('ref-attr', 'Graph.get_edge_attr', '''
def _edge_key(self, n, m):
    if self.graph_type == UNDIRECTED_GRAPH and (n, m) not in self.edge_attr:
        return (m, n)
    return (n, m)

def get_edge_attr(self, n, m, attr):
    return self.edge_attr[self._edge_key(n, m)][attr]
''')

R('ref-set-attr', 'Graph.set_edge_attr', '''
def set_edge_attr(self, n, m, attr, value):
    key = (n, m)
    if self.graph_type != DIRECTED_GRAPH and key not in self.edge_attr:
        key = (m, n)
    attributes = self.edge_attr[key]
    attributes[attr] = value
''')

R('ref-init', 'Graph.__init__', '''
def __init__(self, **attr):
    self.attr = copy.deepcopy(DEFAULT_GRAPH_ATTRIBUTES)
    self.attr.update(attr)
    self.name = self.attr.get('name', 'G')
    self.graph_type = self.attr.get('type', UNDIRECTED_GRAPH)
    self.nodes = {}
    self.edge_attr = {}
    self.cluster = {}
    self.neighbors = {}
    self.out_neighbors = self.neighbors
    if self.graph_type == DIRECTED_GRAPH:
        self.in_neighbors = {}
    self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
    self.attr.setdefault('display', 'off')
    self.attr.setdefault('layout', 'fdp')
    self.attr['cluster_count'] = 0
''')

R('ref-contains', 'Graph.__contains__', '''
def __contains__(self, item):
    if item in self.nodes:
        return True
    if not isinstance(item, tuple) or len(item) != 2:
        return False
    return self.check_edge(item[0], item[1])
''')

R('ref-edge-string', 'Graph.edge_to_string', '''
def edge_to_string(self, e):
    if self.graph_type == UNDIRECTED_GRAPH and e not in self.edge_attr:
        e = (e[1], e[0])
    ends = self.edge_connect_symbol.join(quote_if_necessary(str(n), port=True) for n in (e[0], e[1]))
    attributes = self.edge_attr[e]
    if not attributes:
        return ends
    parts = [a + '=' + quote_if_necessary(str(v)) for a, v in attributes.items()]
    return ends + '  [' + ', '.join(parts) + ']'
''')

R('ref-node-string', 'Node.to_string', '''
def to_string(self):
    name = quote_if_necessary(str(self.name), port=True)
    items = ['%s=%s' % (a, quote_if_necessary(str(self.attr[a]))) for a in self.attr]
    return '%s [%s]' % (name, ', '.join(items))
''')

R('ref-to-string', 'Graph.to_string', '''
def _cluster_header(self, c):
    out = ['subgraph %s {\\n' % quote_if_necessary('cluster_' + str(c))]
    cluster = self.cluster[c]
    for a, v in cluster['attrs'].items():
        out.append('%s=%s;\\n' % (a, quote_if_necessary(str(v))))
    if cluster['node_attrs']:
        out.append('node [')
        out.append(','.join(a + '=' + quote_if_necessary(str(v)) for a, v in cluster['node_attrs'].items()))
        out.append('];\\n')
    return out

def to_string(self):
    graph = ['%s %s {\\n' % (self.graph_type, quote_if_necessary(str(self.name)))]
    for a in self.attr:
        val = self.attr[a]
        if a in GRAPH_ATTRIBUTES and val is not None:
            graph.append('%s=%s;\\n' % (a, quote_if_necessary(str(val))))
    done = set()
    placed = set()
    for c in self.cluster:
        graph.extend(self._cluster_header(c))
        members = self.cluster[c]['node_list']
        for n in members:
            placed.add(n)
            graph.append(self.get_node(n).to_string() + ';\\n')
        for n in members:
            for m in members:
                if (n, m) not in self.edge_attr:
                    continue
                graph.append(self.edge_to_string((n, m)) + ';\\n')
                done.add((n, m))
        graph.append('}\\n')
    for n in self.neighbors:
        if n not in placed:
            graph.append(self.get_node(n).to_string() + ';\\n')
    for e in self.edge_attr:
        if e not in done:
            graph.append(self.edge_to_string(e) + ';\\n')
    graph.append('}\\n')
    return ''.join(graph)
''')

R('ref-label-components', 'Graph.label_components', '''
def label_components(self, display=None):
    if self.graph_type == DIRECTED_GRAPH:
        raise Exception("label_components only works for ",
                        "undirected graphs")
    nodes = self.get_node_list()
    for n in nodes:
        node = self.get_node(n)
        node.set_attr('component', None)
        node.set_attr('label', '-')
    count = 0
    for n in nodes:
        if self.get_node(n).get_attr('component') is not None:
            continue
        self.search(n, display=display, component=count, algo='DFS')
        count += 1
    self.num_components = count
''')

R('ref-strong-connect', 'Graph.strong_connect', '''
def _close_component(self, q, node, component):
    while True:
        m = q.pop()
        self.set_node_attr(m, 'component', component)
        if m == node:
            break
    self.num_components = component + 1
    return component + 1

def strong_connect(self, q, node, index, component):
    low = index
    self.set_node_attr(node, 'index', index)
    self.set_node_attr(node, 'lowlink', low)
    index += 1
    q.append(node)
    for m in self.get_neighbors(node):
        if self.get_node_attr(m, 'index') is None:
            index, component = self.strong_connect(q, m, index, component)
            low = min(low, self.get_node_attr(m, 'lowlink'))
            self.set_node_attr(node, 'lowlink', low)
        elif m in q:
            low = min(low, self.get_node_attr(m, 'index'))
            self.set_node_attr(node, 'lowlink', low)
    if low == self.get_node_attr(node, 'index'):
        component = self._close_component(q, node, component)
    return (index, component)
''')

R('ref-tarjan', 'Graph.tarjan', '''
def tarjan(self):
    stack = []
    index = component = 0
    nodes = self.get_node_list()
    for n in nodes:
        self.set_node_attr(n, 'index', None)
    for n in nodes:
        if self.get_node_attr(n, 'index') is not None:
            continue
        index, component = self.strong_connect(stack, n, index, component)
''')

R('ref-dfs', 'Graph.dfs', '''
@restores_display
def dfs(self, root, disc_count=0, finish_count=1, topological_order=None,
        component=None, transpose=False, display=None, pred=None):
    if pred is None:
        pred = {}
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if self.graph_type == DIRECTED_GRAPH and transpose:
        neighbors = self.in_neighbors
    else:
        neighbors = self.neighbors
    node = self.get_node(root)
    disc_count += 1
    node.set_attr('component', component)
    node.set_attr('disc_time', disc_count)
    node.set_attr('label', str(disc_count) + ',-')
    node.set_attr('color', 'blue')
    if root in pred:
        self.set_edge_attr(pred[root], root, 'color', 'green')
    self.display()
    if transpose:
        neighbor_list = sorted(reversed(neighbors[root]), key=lambda n: self.get_node(n).get_attr('finish_time'))
        neighbor_list = neighbor_list[::-1]
    else:
        neighbor_list = neighbors[root]
    mark = 'component' if transpose else 'disc_time'
    for i in neighbor_list:
        if self.get_node(i).get_attr(mark) is not None:
            continue
        if not transpose:
            pred[i] = root
        disc_count, finish_count = Graph.dfs(self, i, disc_count, finish_count, topological_order, component, transpose, pred=pred)
    node.set_attr('finish_time', finish_count)
    if topological_order is not None:
        topological_order.insert(0, root)
    label = '"' + str(node.get_attr('disc_time')) + ',' + str(finish_count) + '"'
    node.set_attr('label', label)
    node.set_attr('color', 'green')
    self.display()
    return (disc_count, finish_count + 1)
''')

R('ref-hamiltonian', 'Graph.hamiltonian', '''
def _complete(self, source, destination, distance):
    if destination is None:
        return distance == self.get_node_num()
    return source == destination and distance == self.get_node_num() - 1

@restores_display
def hamiltonian(self, source, destination=None, distance=0, display=None, pred=None):
    if pred is None:
        pred = {}
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if distance == 0:
        for i in self.get_node_list():
            node = self.get_node(i)
            node.set_attr('label', '-')
            node.set_attr('visited', None)
        self.display()
    if self._complete(source, destination, distance):
        return True
    here = self.get_node(source)
    here.set_attr('visited', True)
    here.set_attr('label', str(distance))
    here.set_attr('color', 'blue')
    if source in pred:
        self.set_edge_attr(pred[source], source, 'color', 'green')
    self.display()
    for i in self.get_neighbors(source):
        if self.get_node(i).get_attr('visited') is not None:
            continue
        pred[i] = source
        if self.hamiltonian(i, destination, distance + 1, display=display, pred=pred):
            return True
    if source in pred:
        here.set_attr('color', 'black')
        self.set_edge_attr(pred[source], source, 'color', 'black')
        self.display()
        here.set_attr('visited', None)
        here.set_attr('label', '-')
    return False
''')

R('ref-acyclic', 'Graph.acyclic_shortest_path', '''
def _path_back(self, pred, source, destination):
    path = [destination]
    while path[0] != source:
        path.insert(0, pred[path[0]])
    return path

def acyclic_shortest_path(G, source, destination=None):
    for n in G.get_node_list():
        G.get_node(n).set_attr('disc_time', None)
    order = []
    Graph.dfs(G, source, topological_order=order)
    dist = {source: 0}
    pred = {}
    for m in order:
        if m == destination:
            return G._path_back(pred, source, destination)
        for n in G.get_out_neighbors(m):
            estimate = dist[m] + G.get_edge_attr(m, n, 'cost')
            if n in dist and dist[n] <= estimate:
                continue
            dist[n] = estimate
            pred[n] = m
    return pred
''')

R('ref-search', 'Graph.search', '''
def _default_queue(self, algo):
    if algo == 'DFS':
        return Stack()
    if algo in ('BFS', 'UnweightedSPT'):
        return Queue()
    return PriorityQueue()

def _color_arc(self, current, n, color, reverse):
    if reverse:
        self.set_edge_attr(n, current, 'color', color)
    else:
        self.set_edge_attr(current, n, 'color', color)

def _reset_search(self, neighbors, reverse):
    for i in self.get_node_list():
        node = self.get_node(i)
        node.set_attr('label', '-')
        node.attr.pop('priority', None)
        node.set_attr('distance', None)
        node.set_attr('color', 'black')
        for j in neighbors[i]:
            self._color_arc(i, j, 'black', reverse)

def _trace(self, pred, source, destination):
    path = []
    current = destination
    while current != source:
        path.append(current)
        current = pred[current]
    path.append(current)
    path.reverse()
    return path

@restores_display
def search(self, source, destination=None, display=None, component=None, q=None,
           algo='DFS', reverse=False, **kargs):
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if algo not in ('DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim'):
        print("Unknown search algorithm...exiting")
        return
    if q is None:
        q = self._default_queue(algo)
    if algo in ('DFS', 'BFS', 'UnweightedSPT'):
        self.get_node(source).set_attr('component', component)
    if self.graph_type == DIRECTED_GRAPH and reverse:
        neighbors = self.in_neighbors
    else:
        neighbors = self.neighbors
    self._reset_search(neighbors, reverse)
    self.display()
    pred = {}
    self.process_edge_search(None, source, pred, q, component, algo, **kargs)
    found = source == destination
    while not q.isEmpty() and not found:
        current = q.peek()
        node = self.get_node(current)
        if node.get_attr('color') == 'green':
            q.remove(current)
            continue
        self.process_node_search(current, q, **kargs)
        node.set_attr('color', 'blue')
        if current != source:
            self._color_arc(pred[current], current, 'green', reverse)
        if current == destination:
            found = True
            break
        self.display()
        for n in neighbors[current]:
            if n == current or self.get_node(n).get_attr('color') == 'green':
                continue
            self._color_arc(current, n, 'yellow', reverse)
            self.display()
            self.process_edge_search(current, n, pred, q, component, algo, reverse=reverse, **kargs)
            self._color_arc(current, n, 'black', reverse)
        q.remove(current)
        node.set_attr('color', 'green')
        self.display()
    if found:
        return self._trace(pred, source, destination)
    return pred if destination is None else None
''')

R('ref-dijkstra', 'Graph.process_edge_dijkstra', '''
def _label_and_queue(self, neighbor, estimate, q):
    self.get_node(neighbor).set_attr('color', 'red')
    self.get_node(neighbor).set_attr('label', estimate)
    q.push(neighbor, estimate)
    self.display()
    self.get_node(neighbor).set_attr('color', 'black')

def process_edge_dijkstra(self, current, neighbor, pred, q, component, reverse=False):
    if current is None:
        self._label_and_queue(neighbor, 0, q)
        return
    tail, head = (neighbor, current) if reverse else (current, neighbor)
    new_estimate = self.get_edge_attr(tail, head, 'cost') + q.get_priority(current)
    if neighbor in pred and new_estimate >= q.get_priority(neighbor):
        return
    pred[neighbor] = current
    self._label_and_queue(neighbor, new_estimate, q)
''')

R('ref-prim-edge', 'Graph.process_edge_prim', '''
def process_edge_prim(self, current, neighbor, pred, q, component, reverse=False):
    first = current is None
    if first:
        new_estimate = 0
    elif reverse:
        new_estimate = self.get_edge_attr(neighbor, current, 'cost')
    else:
        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
    if first or neighbor not in pred or new_estimate < q.get_priority(neighbor):
        if not first:
            pred[neighbor] = current
        node = self.get_node(neighbor)
        node.set_attr('color', 'red')
        node.set_attr('label', new_estimate)
        q.push(neighbor, new_estimate)
        self.display()
        node.set_attr('color', 'black')
''')

R('ref-edge-search', 'Graph.process_edge_search', '''
def _start_search(self, neighbor, q, component):
    node = self.get_node(neighbor)
    node.set_attr('distance', 0)
    if isinstance(q, PriorityQueue):
        q.push(neighbor, 0)
    else:
        q.push(neighbor)
    if component is not None:
        node.set_attr('component', component)
    node.set_attr('label', 0 if component is None else component)

def process_edge_search(self, current, neighbor, pred, q, component, algo, reverse=False, **kargs):
    if algo == 'Dijkstra':
        return self.process_edge_dijkstra(current, neighbor, pred, q, component, reverse)
    if algo == 'Prim':
        return self.process_edge_prim(current, neighbor, pred, q, component, reverse)
    if current is None:
        self._start_search(neighbor, q, component)
        return
    neighbor_node = self.get_node(neighbor)
    breadth = algo in ('UnweightedSPT', 'BFS')
    if not isinstance(q, PriorityQueue):
        if breadth and neighbor_node.get_attr('distance') is not None:
            return
        distance = self.get_node(current).get_attr('distance') + 1
        neighbor_node.set_attr('distance', distance)
        neighbor_node.set_attr('label', str(distance))
        q.push(neighbor)
    else:
        current_priority = q.get_priority(neighbor)
        if breadth:
            priority = self.get_node(current).get_attr('distance') + 1
        if algo == 'DFS':
            priority = -self.get_node(current).get_attr('distance') - 1
        if current_priority is not None and priority >= current_priority:
            return
        q.push(neighbor, priority)
        if breadth:
            neighbor_node.set_attr('distance', priority)
        if algo == 'DFS':
            neighbor_node.set_attr('depth', -priority)
            neighbor_node.set_attr('distance', -priority)
    pred[neighbor] = current
    neighbor_node.set_attr('color', 'red')
    if component is not None:
        neighbor_node.set_attr('component', component)
        neighbor_node.set_attr('label', component)
    self.display()
''')

R('ref-prim', 'Graph.minimum_spanning_tree_prim', '''
@restores_display
def minimum_spanning_tree_prim(self, source, display=None, q=None):
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    q = PriorityQueue() if q is None else q
    if not isinstance(q, PriorityQueue):
        raise TypeError('q should be a PriorityQueue()')
    for n in self.get_node_list():
        self.set_node_attr(n, 'color', 'black')
    pred = {}
    q.push(source)
    while not q.isEmpty():
        current = q.pop()
        self.set_node_attr(current, 'color', 'blue')
        if current != source:
            self.set_edge_attr(pred[current], current, 'color', 'green')
        self.display()
        for n in self.get_neighbors(current):
            if n == current or self.get_node_attr(n, 'color') == 'green':
                continue
            self.set_edge_attr(current, n, 'color', 'yellow')
            self.display()
            cost = self.get_edge_attr(current, n, 'cost')
            if n not in pred or cost < q.get_priority(n):
                pred[n] = current
                self.set_node_attr(n, 'color', 'red')
                self.set_node_attr(n, 'label', cost)
                q.push(n, cost)
                self.display()
                self.set_node_attr(n, 'color', 'black')
            self.set_edge_attr(current, n, 'color', 'black')
        self.set_node_attr(current, 'color', 'green')
        self.display()
    return pred
''')

R('ref-kruskal', 'Graph.minimum_spanning_tree_kruskal', '''
@restores_display
def minimum_spanning_tree_kruskal(self, display=None, components=None):
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if components is None:
        components = DisjointSet(display=display, layout='dot', optimize=False)
    nodes = self.get_node_list()
    for n in nodes:
        components.add([n])
    components.display()
    edges = []
    by_cost = sorted(self.edge_attr, key=lambda e: self.edge_attr[e]['cost'])
    for e in by_cost:
        if len(edges) >= len(nodes) - 1:
            break
        self.set_edge_attr(e[0], e[1], 'color', 'yellow')
        self.display()
        joined = components.union(e[0], e[1])
        if joined:
            edges.append(e)
        self.set_edge_attr(e[0], e[1], 'color', 'green' if joined else 'black')
        self.display()
        components.display()
    return edges
''')

R('ref-process-flow', 'Graph.process_edge_flow', '''
def process_edge_flow(self, source, sink, i, j, algo, q):
    if self.get_node_attr(j, 'distance') + 1 != self.get_node_attr(i, 'distance'):
        return False
    excess_i = self.get_node_attr(i, 'excess')
    if (i, j) in self.edge_attr:
        arc = self.edge_attr[(i, j)]
        amount = min(excess_i, arc['capacity'] - arc['flow'])
        if arc['capacity'] - arc['flow'] == 0:
            return False
        arc['flow'] = arc['flow'] + amount
    else:
        arc = self.edge_attr[(j, i)]
        if arc['flow'] == 0:
            return False
        amount = min(excess_i, arc['flow'])
        arc['flow'] = arc['flow'] - amount
    excess_j = self.get_node_attr(j, 'excess')
    self.set_node_attr(j, 'excess', excess_j + amount)
    self.set_node_attr(i, 'excess', excess_i - amount)
    return True
''')

R('ref-process-flow2', 'Graph.process_edge_flow', '''
def _move_excess(self, i, j, amount):
    self.set_node_attr(i, 'excess', self.get_node_attr(i, 'excess') - amount)
    self.set_node_attr(j, 'excess', self.get_node_attr(j, 'excess') + amount)

def _residual_arc(self, i, j):
    if (i, j) in self.edge_attr:
        return (i, j), self.get_edge_attr(i, j, 'capacity'), 1
    return (j, i), 0, -1

def process_edge_flow(self, source, sink, i, j, algo, q):
    if self.get_node_attr(i, 'distance') != self.get_node_attr(j, 'distance') + 1:
        return False
    edge, capacity, mult = self._residual_arc(i, j)
    flow = mult*self.edge_attr[edge]['flow']
    residual_capacity = capacity - flow
    if residual_capacity == 0:
        return False
    push_amount = min(self.get_node_attr(i, 'excess'), residual_capacity)
    self.edge_attr[edge]['flow'] = mult*(flow + push_amount)
    self._move_excess(i, j, push_amount)
    return True
''')

R('ref-relabel', 'Graph.relabel', '''
def relabel(self, i):
    limit = 2*self.get_node_num() + 1
    reachable = [self.get_node_attr(j, 'distance') for j in self.get_neighbors(i)
                 if self.get_edge_attr(i, j, 'flow') < self.get_edge_attr(i, j, 'capacity')]
    reachable += [self.get_node_attr(j, 'distance') for j in self.get_in_neighbors(i)
                  if self.get_edge_attr(j, i, 'flow') > 0]
    self.set_node_attr(i, 'distance', min(reachable + [limit]) + 1)
''')

R('ref-relabel2', 'Graph.relabel', '''
def relabel(self, i):
    best = 2*len(self.get_node_list()) + 1
    for j in self.get_neighbors(i):
        arc = self.edge_attr[(i, j)]
        if arc['flow'] >= arc['capacity']:
            continue
        d = self.get_node_attr(j, 'distance')
        if d < best:
            best = d
    for j in self.get_in_neighbors(i):
        if not self.edge_attr[(j, i)]['flow'] > 0:
            continue
        best = min(best, self.get_node_attr(j, 'distance'))
    self.set_node_attr(i, 'distance', best + 1)
''')

R('ref-preflow', 'Graph.max_flow_preflowpush', '''
def _zero_flow(self):
    for e in self.edge_attr:
        attributes = self.edge_attr[e]
        attributes['flow'] = 0
        if 'capacity' in attributes:
            attributes['label'] = str(attributes['capacity'])+'/0'
        else:
            attributes['capacity'] = INF
            attributes['label'] = 'INF/0'

def _initial_distances(self, sink, nl, display):
    self.set_display_mode('off')
    self.search(sink, algo='UnweightedSPT', reverse=True)
    self.set_display_mode(display)
    unreached = [n for n in nl if self.get_node_attr(n, 'distance') is None]
    for n in unreached:
        self.set_node_attr(n, 'distance', 2*len(nl) + 1)
    if unreached:
        print('Warning: graph contains nodes not connected to the sink...')

def _activate(self, q, n, algo):
    if algo == 'HighestLabel':
        q.push(n, -self.get_node_attr(n, 'distance'))
    else:
        q.push(n)

@restores_display
def max_flow_preflowpush(self, source, sink, algo='FIFO', display=None):
    queues = {'FIFO': Queue, 'SAP': Stack, 'HighestLabel': PriorityQueue}
    if algo not in queues:
        raise Exception('Unknown preflow push algorithm %s!' %str(algo))
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    nl = self.get_node_list()
    for n in nl:
        self.set_node_attr(n, 'excess', 0)
    self._zero_flow()
    self.display()
    self._initial_distances(sink, nl, display)
    q = queues[algo]()
    for n in self.get_neighbors(source):
        capacity = self.get_edge_attr(source, n, 'capacity')
        self.set_edge_attr(source, n, 'flow', capacity)
        self.set_node_attr(n, 'excess', capacity)
        self.set_node_attr(source, 'excess', self.get_node_attr(source, 'excess') - capacity)
        if algo == 'HighestLabel':
            q.push(n, -1)
        else:
            q.push(n)
    self.set_node_attr(source, 'distance', len(nl))
    self.show_flow()
    while not q.isEmpty():
        relabel = True
        current = q.peek()
        for n in self.get_neighbors(current) + self.get_in_neighbors(current):
            pushed = self.process_edge_flow(source, sink, current, n, algo, q)
            if not pushed:
                continue
            self.show_flow()
            if algo == 'FIFO':
                if q.peek(n) is None and n != source and n != sink:
                    q.push(n)
                if self.get_node_attr(current, 'excess') > 0:
                    continue
            relabel = False
            break
        q.remove(current)
        if current != sink:
            if relabel:
                self.relabel(current)
                self.show_flow()
            if self.get_node_attr(current, 'excess') > 0:
                self._activate(q, current, algo)
        if pushed and q.peek(n) is None and n != source and algo != 'FIFO':
            self._activate(q, n, algo)
''')

R('ref-show-flow', 'Graph.show_flow', '''
def _show_arc(self, tail, head):
    capacity = self.get_edge_attr(tail, head, 'capacity')
    flow = self.get_edge_attr(tail, head, 'flow')
    shown = 'INF' if capacity == INF else str(capacity)
    self.set_edge_attr(tail, head, 'label', shown + '/' + str(flow))
    color = 'black'
    if flow > 0:
        color = 'green'
    if capacity == flow:
        color = 'red'
    self.set_edge_attr(tail, head, 'color', color)

def show_flow(self):
    for n in self.get_node_list():
        node = self.get_node(n)
        node.set_attr('label', '%s/%s' % (node.get_attr('excess'), node.get_attr('distance')))
        for neighbor in self.get_neighbors(n):
            self._show_arc(n, neighbor)
    self.display()
''')

R('ref-residual', 'Graph.create_residual_graph', '''
def create_residual_graph(self):
    if self.graph_type == UNDIRECTED_GRAPH:
        raise Exception('residual graph is defined for directed graphs.')
    residual_g = Graph(type = DIRECTED_GRAPH)
    for (i, j), attributes in self.edge_attr.items():
        flow, cost = attributes['flow'], attributes['cost']
        left = attributes['capacity'] - flow
        if flow > 0:
            residual_g.add_edge(j, i, cost=-cost, capacity=flow)
        if left > 0:
            residual_g.add_edge(i, j, cost=cost, capacity=left)
    return residual_g
''')

R('ref-cancel', 'Graph.cycle_canceling', '''
def cycle_canceling(self, display):
    feasible = self.find_feasible_flow()
    if not feasible:
        return False
    while True:
        residual_g = self.create_residual_graph()
        ncycle = residual_g.get_negative_cycle()
        if ncycle is None:
            return True
        self.augment_cycle(residual_g.find_cycle_capacity(ncycle), ncycle)
''')

R('ref-feasible', 'Graph.find_feasible_flow', '''
def _add_terminals(self):
    nodes = self.get_node_list()
    self.add_node('s')
    self.add_node('t')
    for i in nodes:
        demand = self.get_node_attr(i, 'demand')
        if demand > 0:
            self.add_edge('s', i, capacity=demand)
        elif demand < 0:
            self.add_edge(i, 't', capacity=-demand)

def _saturated(self):
    for i in self.neighbors['s']:
        if self.get_edge_attr('s', i, 'flow') != self.get_edge_attr('s', i, 'capacity'):
            return False
    return True

def find_feasible_flow(self):
    self._add_terminals()
    self.max_flow('s', 't', 'off')
    feasible = self._saturated()
    for terminal in ('s', 't'):
        self.del_node(terminal)
    return feasible
''')

R('ref-feasible2', 'Graph.find_feasible_flow', '''
def find_feasible_flow(self):
    nl = self.get_node_list()
    self.add_node('s')
    self.add_node('t')
    for i in nl:
        b_i = self.get_node(i).get_attr('demand')
        if b_i == 0:
            continue
        if b_i > 0:
            self.add_edge('s', i, capacity=b_i)
        else:
            self.add_edge(i, 't', capacity=-b_i)
    self.max_flow('s', 't', 'off')
    feasible = all(self.get_edge_attr('s', i, 'flow') == self.get_edge_attr('s', i, 'capacity') for i in self.neighbors['s'])
    self.del_node('s')
    self.del_node('t')
    return feasible
''')

R('ref-create', 'Graph.create', '''
def _graphviz(self, layout, format, file_name):
    return subprocess.run([layout, '-T' + format, file_name], capture_output=True)

def create(self, layout, format, **args):
    text = self.to_string()
    tmp_fd, tmp_name = tempfile.mkstemp()
    try:
        with os.fdopen(tmp_fd, "w") as tmp_file:
            tmp_file.write(text)
        p = self._graphviz(layout, format, tmp_name)
    except OSError:
        print('Graphviz executable not found.\\nGraphviz must be installed and in your search path.\\nPlease visit http://www.graphviz.org/ for information on installation.\\nAfter installation, ensure that the PATH variable is properly set.')
        return None
    finally:
        os.remove(tmp_name)
    p.check_returncode()
    if p.stderr:
        print(p.stderr)
    return p.stdout
''')

R('ref-maxflow', 'Graph.max_flow', '''
def _reset_flow(self):
    for e in self.edge_attr:
        self.edge_attr[e]['flow'] = 0
        if 'capacity' not in self.edge_attr[e]:
            self.edge_attr[e]['capacity'] = INF
            self.edge_attr[e]['label'] = 'INF/0'
        else:
            self.edge_attr[e]['label'] = str(self.edge_attr[e]['capacity'])+'/0'

def _color_arcs(self):
    for e in self.edge_attr:
        flow = self.edge_attr[e]['flow']
        if flow == 0:
            color = 'black'
        elif flow == self.edge_attr[e]['capacity']:
            color = 'red'
        else:
            color = 'green'
        self.edge_attr[e]['color'] = color

def _path_capacity(self, pred, source, sink):
    bottleneck = None
    head = sink
    while head != source:
        tail = pred[head]
        if (tail, head) in self.edge_attr:
            arc = self.edge_attr[(tail, head)]
            available = arc['capacity'] - arc['flow']
        else:
            available = self.edge_attr[(head, tail)]['flow']
        if bottleneck is None or available < bottleneck:
            bottleneck = available
        head = tail
    return bottleneck

def _augment_path(self, pred, source, sink, amount):
    head = sink
    while head != source:
        tail = pred[head]
        forward = (tail, head) in self.edge_attr
        arc = self.edge_attr[(tail, head)] if forward else self.edge_attr[(head, tail)]
        if forward:
            arc['flow'] += amount
            limit = arc['capacity']
        else:
            arc['flow'] -= amount
            limit = 0
        shown = 'INF' if arc['capacity'] == INF else str(arc['capacity'])
        arc['label'] = shown + '/' + str(arc['flow'])
        arc['color'] = 'red' if arc['flow'] == limit else 'green'
        self.display()
        head = tail

def max_flow(self, source, sink, display=None, algo='DFS'):
    if algo not in ('DFS', 'BFS'):
        raise Exception('Unknown max flow algorithm %s!' %str(algo))
    if display is not None:
        old_display = self.attr['display']
        self.attr['display'] = display
    nl = self.get_node_list()
    self._reset_flow()
    while True:
        q = Stack() if algo == 'DFS' else Queue()
        q.push(source)
        pred = {source: None}
        for n in nl:
            self.get_node(n).set_attr('color', 'black')
        self._color_arcs()
        self.display()
        while not q.isEmpty():
            current = q.peek()
            q.remove(current)
            if current == sink:
                break
            out_neighbor = self.neighbors[current]
            for m in out_neighbor + self.in_neighbors[current]:
                if m in pred:
                    continue
                arc = (current, m) if m in out_neighbor else (m, current)
                node = self.get_node(m)
                node.set_attr('color', 'yellow')
                self.edge_attr[arc]['color'] = 'yellow'
                flow = self.edge_attr[arc]['flow']
                capacity = self.edge_attr[arc]['capacity']
                available = capacity - flow if m in out_neighbor else flow
                self.display()
                if available > 0:
                    node.set_attr('color', 'blue')
                    self.edge_attr[arc]['color'] = 'blue'
                    pred[m] = current
                    q.push(m)
                else:
                    node.set_attr('color', 'black')
                    if flow == capacity:
                        self.edge_attr[arc]['color'] = 'red'
                    elif flow == 0:
                        self.edge_attr[arc]['color'] = 'black'
                self.display()
        if sink not in pred:
            break
        amount = self._path_capacity(pred, source, sink)
        self._augment_path(pred, source, sink, amount)
    if display is not None:
        self.attr['display'] = old_display
''')

R('ref-floyd', 'Graph.floyd_warshall', '''
def _initial_distance(self, nodes):
    distance = {(i, j): 0 if i == j else 'infinity' for i in nodes for j in nodes}
    for e in self.get_edge_list():
        cost = self.get_edge_cost(e)
        if e[0] == e[1] and cost >= 0:
            continue
        distance[(e[0], e[1])] = cost
        if self.graph_type == UNDIRECTED_GRAPH:
            distance[(e[1], e[0])] = cost
    return distance

def floyd_warshall(self):
    nl = self.get_node_list()
    distance = self._initial_distance(nl)
    nextn = {}
    for i in nl:
        for j in nl:
            nextn[(i, j)] = i
            if distance[(i, j)] == 'infinity' or (i == j and distance[(i, j)] == 0):
                nextn[(i, j)] = None
    for k in nl:
        for i in nl:
            for j in nl:
                if distance[(i, k)] == 'infinity' or distance[(k, j)] == 'infinity':
                    continue
                through = distance[(i, k)] + distance[(k, j)]
                if distance[(i, j)] == 'infinity' or through < distance[(i, j)]:
                    distance[(i, j)] = through
                    nextn[(i, j)] = nextn[(k, j)]
    negative = [i for i in nl if distance[(i, i)] < 0]
    return (not negative, distance, nextn)
''')

R('ref-fw-path', 'Graph.floyd_warshall_get_path', '''
def floyd_warshall_get_path(self, distance, nextn, i, j):
    if distance[(i, j)] == 'infinity':
        return None
    path = [j]
    while path[0] != i:
        path.insert(0, nextn[(i, path[0])])
    return path
''')

R('ref-fw-cycle', 'Graph.floyd_warshall_get_cycle', '''
def _first_negative(self, distance):
    for i in self.get_node_list():
        if distance[(i, i)] < 0:
            return i
    raise Exception('Graph does not have a negative cycle!')

def floyd_warshall_get_cycle(self, distance, nextn, element=None):
    if element is None:
        element = self._first_negative(distance)
    elif distance[(element, element)] >= 0:
        raise Exception('Graph does not have a negative cycle that contains node '+str(element)+'!')
    cycle = [element]
    k = nextn[(element, element)]
    while k not in cycle:
        cycle.insert(1, k)
        k = nextn[(element, k)]
    if k != element:
        return self.floyd_warshall_get_cycle(distance, nextn, k)
    return cycle
''')

R('ref-cycle-capacity', 'Graph.find_cycle_capacity', '''
def find_cycle_capacity(self, cycle):
    tails = cycle
    heads = cycle[1:] + cycle[:1]
    return min(self.get_edge_attr(i, j, 'capacity') for i, j in zip(tails, heads))
''')

R('ref-cycle-capacity2', 'Graph.find_cycle_capacity', '''
def find_cycle_capacity(self, cycle):
    capacity = None
    for index in range(len(cycle)):
        c = self.get_edge_attr(cycle[index - 1], cycle[index], 'capacity')
        if capacity is None or c < capacity:
            capacity = c
    return capacity
''')

R('ref-fifo', 'Graph.fifo_label_correcting', '''
def fifo_label_correcting(self, source):
    for n in self.neighbors:
        self.get_node(n).set_attr('distance', None)
    self.get_node(source).set_attr('distance', 0)
    pred = {source: None}
    q = [source]
    while len(q) > 0:
        i = q.pop(0)
        for j in self.neighbors[i]:
            estimate = self.get_node(i).get_attr('distance') + self.get_edge_attr(i, j, 'cost')
            known = self.get_node(j).get_attr('distance')
            if known is not None and known <= estimate:
                continue
            self.get_node(j).set_attr('distance', estimate)
            labelled = j in pred
            pred[j] = i
            if labelled:
                cycle = self.label_correcting_check_cycle(j, pred)
                if cycle is not None:
                    return (False, cycle)
            if j not in q:
                q.append(j)
    return (True, pred)
''')

R('ref-check-cycle', 'Graph.label_correcting_check_cycle', '''
def label_correcting_check_cycle(self, j, pred):
    seen = set()
    current = j
    while current is not None:
        if current in seen:
            return self.label_correcting_get_cycle(j, pred)
        seen.add(current)
        current = pred[current]
    return None
''')

R('ref-get-cycle', 'Graph.label_correcting_get_cycle', '''
def label_correcting_get_cycle(self, j, pred):
    cycle = []
    current = pred[j]
    while current != j:
        cycle.insert(0, current)
        current = pred[current]
    return cycle + [j]
''')

R('ref-augment', 'Graph.augment_cycle', '''
def _push_arc(self, i, j, amount):
    if (i, j) in self.edge_attr:
        self.edge_attr[(i, j)]['flow'] += amount
    else:
        self.edge_attr[(j, i)]['flow'] -= amount

def augment_cycle(self, amount, cycle):
    for index in range(1, len(cycle)):
        self._push_arc(cycle[index - 1], cycle[index], amount)
    self._push_arc(cycle[-1], cycle[0], amount)
''')

R('ref-augment2', 'Graph.augment_cycle', '''
def augment_cycle(self, amount, cycle):
    for i, j in zip(cycle, cycle[1:] + [cycle[0]]):
        if (i, j) in self.edge_attr:
            arc, change = self.edge_attr[(i, j)], amount
        else:
            arc, change = self.edge_attr[(j, i)], -amount
        arc['flow'] = arc['flow'] + change
''')

R('ref-simplex', 'Graph.network_simplex', '''
def _refresh_tree(self, t, display, root):
    t.simplex_redraw(display, root)
    t.simplex_search(root, 1)
    self.simplex_compute_potentials(t, root)

def _pivot(self, t, pivot):
    k, l = self.simplex_select_entering_arc(t, pivot)
    self.simplex_mark_entering_arc(k, l)
    self.display()
    leaving, capacity, cycle = self.simplex_determine_leaving_arc(t, k, l)
    p, q = leaving
    self.simplex_mark_leaving_arc(p, q)
    self.display()
    self.simplex_remove_arc(t, p, q, capacity, cycle)
    self.display()

@restores_display
def network_simplex(self, display, pivot, root):
    if not self.find_feasible_flow():
        return False
    t = self.simplex_find_tree()
    self.set_display_mode(display)
    self.simplex_mark_st_arcs(t)
    t.set_display_mode(display)
    self.display()
    self._refresh_tree(t, display, root)
    while not self.simplex_optimal(t):
        self.display()
        self._pivot(t, pivot)
        self.simplex_mark_st_arcs(t)
        self.display()
        self._refresh_tree(t, display, root)
    return True
''')

R('ref-leaving', 'Graph.simplex_determine_leaving_arc', '''
def simplex_determine_leaving_arc(self, t, k, l):
    cycle = self.simplex_identify_cycle(t, k, l)
    if self.get_edge_attr(k, l, 'flow') == self.get_edge_attr(k, l, 'capacity'):
        cycle.reverse()
    min_capacity = self.get_edge_attr(k, l, 'capacity')
    t.add_edge(k, l)
    tel = t.get_edge_list()
    n = len(cycle)
    for index in range(n):
        i = cycle[index]
        j = cycle[(index + 1) % n]
        if (i, j) in tel:
            arc = (i, j)
            available = self.edge_attr[arc]['capacity'] - self.edge_attr[arc]['flow']
        else:
            arc = (j, i)
            available = self.edge_attr[arc]['flow']
        if available <= min_capacity:
            candidate = arc
            min_capacity = available
    return (candidate, min_capacity, cycle)
''')

R('ref-mark', 'Graph.simplex_mark_st_arcs', '''
def simplex_mark_st_arcs(self, t):
    for e in self.get_edge_list():
        if e in t.edge_attr:
            self.edge_attr[e]['color'] = 'blue'
            continue
        flow_e = self.edge_attr[e]['flow']
        if flow_e != 0 and flow_e != self.edge_attr[e]['capacity']:
            raise Exception("Arc is not in ST but has flow between bounds.")
        self.edge_attr[e]['color'] = 'black'
''')

R('ref-remove-arc', 'Graph.simplex_remove_arc', '''
def _arc_label(self, e):
    arc = self.edge_attr[e]
    return '%d/%d/%d' % (arc['flow'], arc['capacity'], arc['cost'])

def simplex_remove_arc(self, t, p, q, min_capacity, cycle):
    tel = list(t.edge_attr)
    n = len(cycle)
    for index in range(n):
        i, j = cycle[index], cycle[(index + 1) % n]
        if (i, j) in tel:
            self.edge_attr[(i, j)]['flow'] += min_capacity
        else:
            self.edge_attr[(j, i)]['flow'] -= min_capacity
    t.del_edge((p, q))
    self.set_edge_attr(p, q, 'label', self._arc_label((p, q)))
    for e in t.edge_attr:
        for a in ('flow', 'capacity', 'cost'):
            t.edge_attr[e][a] = self.edge_attr[e][a]
        label = self._arc_label(e)
        t.edge_attr[e]['label'] = label
        self.edge_attr[e]['label'] = label
''')

R('ref-entering', 'Graph.simplex_select_entering_arc', '''
def _reduced_cost(self, e):
    potential_i = self.get_node(e[0]).get_attr('potential')
    potential_j = self.get_node(e[1]).get_attr('potential')
    return self.edge_attr[e]['cost'] - potential_i + potential_j

def _eligible(self, t):
    for e in self.edge_attr:
        if e in t.edge_attr:
            continue
        reduced = self._reduced_cost(e)
        flow = self.edge_attr[e]['flow']
        if flow == 0:
            if reduced < 0:
                yield e, reduced
        elif flow == self.edge_attr[e]['capacity'] and reduced > 0:
            yield e, reduced

def simplex_select_entering_arc(self, t, pivot):
    if pivot not in ('dantzig', 'first_eligible'):
        raise Exception("Unknown pivot rule.")
    chosen = None
    best = None
    for e, reduced in self._eligible(t):
        if pivot == 'first_eligible' or best is None or abs(reduced) > best:
            chosen = e
            best = abs(reduced)
    return chosen
''')

R('ref-optimal', 'Graph.simplex_optimal', '''
def _improves(self, e):
    arc = self.edge_attr[e]
    reduced = arc['cost'] - self.get_node(e[0]).get_attr('potential') + self.get_node(e[1]).get_attr('potential')
    if arc['flow'] == 0:
        return reduced < 0
    if arc['flow'] == arc['capacity']:
        return reduced > 0
    return False

def simplex_optimal(self, t):
    for e in self.edge_attr:
        if e not in t.edge_attr and self._improves(e):
            return False
    return True
''')

R('ref-optimal2', 'Graph.simplex_optimal', '''
def simplex_optimal(self, t):
    outside = [e for e in self.edge_attr if e not in t.edge_attr]
    for i, j in outside:
        arc = self.edge_attr[(i, j)]
        pi, pj = self.get_node_attr(i, 'potential'), self.get_node_attr(j, 'potential')
        reduced = arc['cost'] + pj - pi
        if arc['flow'] == 0 and reduced < 0:
            return False
        if arc['flow'] != 0 and arc['flow'] == arc['capacity'] and reduced > 0:
            return False
    return True
''')

R('ref-find-tree', 'Graph.simplex_find_tree', '''
def simplex_find_tree(self):
    while True:
        solution_g = self.get_simplex_solution_graph()
        cycle = solution_g.simplex_find_cycle()
        if cycle is None:
            break
        self.augment_cycle(self.simplex_augment_cycle(cycle), cycle)
    connected = True
    while connected:
        connected = self.simplex_connect(solution_g)
    for e, arc in self.edge_attr.items():
        arc['label'] = "%d/%d/%d" %(arc['flow'], arc['capacity'], arc['cost'])
        if e not in solution_g.edge_attr:
            continue
        for a in ('flow', 'capacity', 'cost', 'label'):
            solution_g.edge_attr[e][a] = arc[a]
    return solution_g
''')

R('ref-connect', 'Graph.simplex_connect', '''
def simplex_connect(self, solution_g):
    nl = solution_g.get_node_list()
    first = nl[0]
    reached = list(solution_g.simplex_search(first, first))
    outside = [n for n in nl if solution_g.get_node(n).get_attr('component') != first]
    for n in outside:
        for m in reached:
            for arc in ((n, m), (m, n)):
                if arc in self.edge_attr:
                    solution_g.add_edge(*arc)
                    return True
    return False
''')

R('ref-simplex-search', 'Graph.simplex_search', '''
def simplex_search(self, source, component_nr):
    pred = {source: None}
    depth = {source: 0}
    sequence = []
    for n in self.neighbors:
        self.get_node(n).set_attr('component', None)
    stack = [source]
    while len(stack) > 0:
        current = stack.pop()
        sequence.append(current)
        self.get_node(current).set_attr('component', component_nr)
        for n in self.in_neighbors[current] + self.neighbors[current]:
            if n not in pred:
                self.get_node(n).set_attr('component', component_nr)
                pred[n] = current
                depth[n] = depth[current] + 1
                stack.append(n)
    for i, n in enumerate(sequence):
        self.get_node(n).set_attr('thread', sequence[(i + 1) % len(sequence)])
    for n in pred:
        node = self.get_node(n)
        node.set_attr('pred', pred[n])
        node.set_attr('depth', depth[n])
    return pred
''')

R('ref-augment-amount', 'Graph.simplex_augment_cycle', '''
def _available(self, i, j):
    if (i, j) in self.edge_attr:
        arc = self.edge_attr[(i, j)]
        return arc['capacity'] - arc['flow']
    return self.edge_attr[(j, i)]['flow']

def simplex_augment_cycle(self, cycle):
    amount = self._available(cycle[-1], cycle[0])
    for index in range(len(cycle) - 1):
        amount = min(amount, self._available(cycle[index], cycle[index + 1]))
    return amount
''')

R('ref-find-cycle', 'Graph.simplex_find_cycle', '''
def _tree_path(self, pred, node):
    path = []
    while node is not None:
        path.append(node)
        node = pred[node]
    return path

def _closed(self, pred, n, current):
    a = self._tree_path(pred, n)
    b = self._tree_path(pred, current)
    while len(a) > 1 and len(b) > 1 and a[-2] == b[-2]:
        a.pop()
        b.pop()
    a.pop()
    a.reverse()
    return b + a

def simplex_find_cycle(self):
    nl = self.get_node_list()
    for n in nl:
        self.get_node(n).set_attr('component', None)
    for start in nl:
        if self.get_node(start).get_attr('component') is not None:
            continue
        self.get_node(start).set_attr('component', start)
        q = [start]
        visited = []
        pred = {start: None}
        while q:
            current = q.pop()
            visited.append(current)
            for n in self.in_neighbors[current] + self.neighbors[current]:
                if n == pred[current]:
                    continue
                self.get_node(n).set_attr('component', start)
                if n in pred:
                    return self._closed(pred, n, current)
                pred[n] = current
                if n not in visited:
                    q.append(n)
    return None
''')

R('ref-solution-graph', 'Graph.get_simplex_solution_graph', '''
def get_simplex_solution_graph(self):
    simplex_g = Graph(type=DIRECTED_GRAPH)
    for i in self.get_node_list():
        simplex_g.add_node(i)
    between = [e for e, a in self.edge_attr.items() if 0 < a['flow'] < a['capacity']]
    for i, j in between:
        simplex_g.add_edge(i, j)
    return simplex_g
''')

R('ref-potentials', 'Graph.simplex_compute_potentials', '''
def simplex_compute_potentials(self, t, root):
    self.get_node(root).set_attr('potential', 0)
    j = t.get_node(root).get_attr('thread')
    while j != root:
        node = t.get_node(j)
        i = node.get_attr('pred')
        potential = self.get_node(i).get_attr('potential')
        if (j, i) in t.edge_attr:
            potential += self.edge_attr[(j, i)]['cost']
        else:
            potential -= self.edge_attr[(i, j)]['cost']
        self.get_node(j).set_attr('potential', potential)
        j = node.get_attr('thread')
''')

R('ref-identify', 'Graph.simplex_identify_cycle', '''
def simplex_identify_cycle(self, t, k, l):
    li, lj = [k], [l]
    while li[-1] != lj[-1]:
        a, b = t.get_node(li[-1]), t.get_node(lj[-1])
        difference = a.get_attr('depth') - b.get_attr('depth')
        if difference >= 0:
            li.append(a.get_attr('pred'))
        if difference <= 0:
            lj.append(b.get_attr('pred'))
    li.pop()
    return lj + li[::-1]
''')

R('ref-mcf', 'Graph.min_cost_flow', '''
def _default_root(self):
    for k in self.neighbors:
        return k

def min_cost_flow(self, display=None, **args):
    if display is None:
        display = self.attr['display']
    algorithm = args.get('algo', 'simplex')
    if algorithm == 'simplex':
        root = args['root'] if 'root' in args else self._default_root()
        solved = self.network_simplex(display, args.get('pivot', 'dantzig'), root)
    elif algorithm == 'cycle_canceling':
        solved = self.cycle_canceling(display)
    else:
        print(args['algo'], 'is not a defined algorithm. Exiting.')
        return
    if not solved:
        print('problem is infeasible')
''')

R('ref-pagerank', 'Graph.page_rank', '''
def _rank(self, node, pagerank, damping_factor, base):
    share = sum(pagerank[p] / len(self.get_neighbors(p)) for p in self.get_in_neighbors(node))
    return base + damping_factor * share

def page_rank(self, damping_factor=0.85, max_iterations=100, min_delta=0.00001):
    nodes = self.get_node_list()
    count = len(nodes)
    if not nodes:
        return {}
    base = old_div((1.0 - damping_factor), count)
    pagerank = {n: old_div(1.0, count) for n in nodes}
    iteration = 0
    while iteration < max_iterations:
        iteration += 1
        diff = 0
        for node in nodes:
            new = self._rank(node, pagerank, damping_factor, base)
            diff += abs(pagerank[node] - new)
            pagerank[node] = new
        if diff < min_delta:
            break
    return pagerank
''')

R('ref-degrees', 'Graph.get_degrees', '''
def get_degrees(self):
    degree = {}
    for n in self.get_node_list():
        degree[n] = len(self.get_neighbors(n))
        if self.graph_type == DIRECTED_GRAPH:
            degree[n] += len(self.get_in_neighbors(n))
    return degree
''')

R('ref-in-degrees', 'Graph.get_in_degrees', '''
def get_in_degrees(self):
    if self.graph_type == DIRECTED_GRAPH:
        return {n: len(self.in_neighbors[n]) for n in self.get_node_list()}
    print("This function only works for directed graphs")
''')

R('ref-diameter', 'Graph.get_diameter', '''
def get_diameter(self):
    if self.graph_type != UNDIRECTED_GRAPH:
        print("This function only works for undirected graphs")
        return
    nodes = self.get_node_list()
    if not nodes:
        return 'infinity'
    longest = 0
    for n in nodes:
        for m in nodes:
            path = self.search(n, destination = m, algo = 'BFS')
            if path is None:
                return 'infinity'
            longest = max(longest, len(path) - 1)
    return longest
''')

R('ref-cluster', 'Graph.create_cluster', '''
def _fresh_cluster_name(self):
    while True:
        name = 'c%d' % self.attr['cluster_count']
        self.attr['cluster_count'] += 1
        if name not in self.cluster:
            return name

def create_cluster(self, node_list, cluster_attrs={}, node_attrs={}):
    attrs = copy.deepcopy(cluster_attrs)
    if 'name' not in attrs:
        attrs['name'] = self._fresh_cluster_name()
    elif attrs['name'] in self.cluster:
        raise Exception('A cluster with name %s already exists!' %attrs['name'])
    self.cluster[attrs['name']] = {'node_list': list(node_list), 'attrs': attrs,
                                   'node_attrs': copy.deepcopy(node_attrs)}
''')

R('ref-find', 'DisjointSet.find', '''
def _compress(self, path, root):
    for node, parent in path:
        if parent != root:
            self.del_edge((node, parent))
            self.add_edge(node, root)

def find(self, i):
    current = i
    path = []
    while self.get_neighbors(current):
        parent = self.get_neighbors(current)[0]
        path.append((current, parent))
        current = parent
    if self.optimize:
        self._compress(path, current)
    return current
''')

R('ref-union', 'DisjointSet.union', '''
def _attach(self, child, root):
    self.add_edge(child, root)
    self.sizes[root] += self.sizes[child]

def union(self, i, j):
    a = self.find(i)
    b = self.find(j)
    if a == b:
        return False
    if self.optimize and self.sizes[a] > self.sizes[b]:
        a, b = b, a
    self._attach(a, b)
    return True
''')

R('ref-ds-add', 'DisjointSet.add', '''
def add(self, aList):
    root = aList[0]
    self.add_node(root)
    for member in aList[1:]:
        self.add_edge(member, root)
    self.sizes[root] = len(aList)
''')

T = 'tree.py'
R('ref-add-child', 'Tree.add_child', '''
def add_child(self, n, parent, **attrs):
    level = self.get_node_attr(parent, 'level')
    attrs.update(level=level + 1, parent=parent)
    node = self.add_node(n, **attrs)
    self.add_edge(parent, n)
    return node
''', T)
R('ref-traverse', 'Tree.traverse', '''
def _queue_methods(self, q):
    if isinstance(q, Queue):
        return q.enqueue, q.dequeue
    if isinstance(q, Stack):
        return q.push, q.pop
    raise TypeError('q should be either a Stack() or a Queue()')

def traverse(self, root=None, display=None, q=None):
    if root is None:
        root = self.root.name
    if display is None:
        display = self.attr['display']
    if q is None:
        q = Stack()
    put, take = self._queue_methods(q)
    put(root)
    while not q.isEmpty():
        current = take()
        if display:
            self.display(highlight=[current])
        for child in self.get_children(current):
            put(child)
''', T)
R('ref-bt-del', 'BinaryTree.del_node', '''
def del_node(self, n):
    parent = self.get_node_attr(n, 'parent')
    if parent in self.nodes:
        for side in ('Rchild', 'Lchild'):
            if self.get_node_attr(parent, side) == n:
                self.set_node_attr(parent, side, None)
                break
    Graph.del_node(self, n)
''', T)
R('ref-bt-right', 'BinaryTree.add_right_child', '''
def _set_child(self, side, n, parent, attrs):
    attrs['direction'] = side
    self.add_child(n, parent, **attrs)
    self.set_node_attr(parent, side + 'child', n)

def add_right_child(self, n, parent, **attrs):
    if self.get_node_attr(parent, 'Rchild') is not None:
        raise Exception('Right child already exists for node ' + str(parent))
    self._set_child('R', n, parent, attrs)
''', T)
R('ref-print-nodes', 'BinaryTree.print_nodes', '''
def print_nodes(self, order='in', priority='L', display=None, root=None):
    old_display = None
    if root is None:
        root = self.root.name
    if display is None:
        display = self.attr['display']
    else:
        old_display = self.attr['display']
        self.attr['display'] = display
    left, right = self.get_left_child(root), self.get_right_child(root)
    first, second = (left, right) if priority == 'L' else (right, left)
    if order == 'pre':
        print(root)
    for position, child in (('in', first), ('post', second)):
        if child is not None:
            if display:
                self.display(highlight=[root])
            self.print_nodes(order, priority, display, child)
        if order == position:
            print(root)
    if display:
        self.display(highlight=[root])
    if old_display:
        self.attr['display'] = old_display
''', T)
R('ref-bt-traverse', 'BinaryTree.traverse', '''
def traverse(self, root=None, display=None, q=None, priority='L'):
    old_display = None
    if root is None:
        root = self.root
    if display is None:
        display = self.attr['display']
    else:
        old_display = self.attr['display']
        self.attr['display'] = display
    if q is None:
        q = Stack()
    if isinstance(q, Queue):
        put, take = q.enqueue, q.dequeue
    elif isinstance(q, Stack):
        put, take = q.push, q.pop
    else:
        raise TypeError('q should be either a Stack() or a Queue()')
    children = [self.get_left_child, self.get_right_child]
    if priority != 'L':
        children.reverse()
    put(root)
    while not q.isEmpty():
        current = take()
        if display:
            self.display(highlight=[current])
        for child_of in children:
            n = child_of(current)
            if n is not None:
                put(n)
    if old_display:
        self.attr['display'] = old_display
''', T)
R('ref-printexp', 'BinaryTree.printexp', '''
def _say(self, text):
    print(text, end=' ')
    sys.stdout.flush()

def _label_of(self, root):
    if isinstance(root, Node):
        return root.attr['label'] if 'label' in root.attr else root.name
    label = self.get_node_attr(root, 'label')
    return root if label is None else label

def printexp(self, display=None, root=None):
    if root is None:
        root = self.root
    if display is None:
        display = self.attr['display']
    left = self.get_left_child(root)
    right = self.get_right_child(root)
    if left is not None:
        if display:
            self.display(highlight=[root])
        self._say('(')
        self.printexp(display, left)
    self._say(self._label_of(root))
    if display:
        self.display(highlight=[root])
    if right is not None:
        self.printexp(display, right)
        self._say(')')
        if display:
            self.display(highlight=[root])
''', T)
R('ref-eval', 'BinaryTree.postordereval', '''
def _label_of(self, root):
    if isinstance(root, Node):
        return root.attr['label'] if 'label' in root.attr else root.name
    label = self.get_node_attr(root, 'label')
    return root if label is None else label

def postordereval(self, display=None, root=None):
    if root is None:
        root = self.root
    if display is None:
        display = self.attr['display']
    opers = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
    left, right = self.get_left_child(root), self.get_right_child(root)
    res1 = res2 = None
    if left is not None:
        if display:
            self.display(highlight=[root])
        res1 = self.postordereval(display, left)
    label = self._label_of(root)
    print(label, end=' ')
    sys.stdout.flush()
    if display:
        self.display(highlight=[root])
    if right is not None:
        res2 = self.postordereval(display, right)
    if res1 is None or res2 is None:
        return int(label)
    result = opers[label](res1, res2)
    print('=', result)
    sys.stdout.flush()
    if display:
        self.display(highlight=[root])
    print(result, end=' ')
    sys.stdout.flush()
    return result
''', T)


# ---- a second style: module helpers avoided, comprehensions, early continues, local aliases, collections.deque, try/except -----------------
R('ref2-search-edge', 'Graph.process_edge_search', """
def process_edge_search(self, current, neighbor, pred, q, component, algo,
                        reverse = False, **kargs):
    special = {'Dijkstra': self.process_edge_dijkstra, 'Prim': self.process_edge_prim}
    if algo in special:
        return special[algo](current, neighbor, pred, q, component, reverse)
    node = self.nodes[neighbor]
    ordered = isinstance(q, PriorityQueue)
    if current is None:
        node.set_attr('distance', 0)
        if ordered:
            q.push(neighbor, 0)
        else:
            q.push(neighbor)
        if component is None:
            node.set_attr('label', 0)
        else:
            node.set_attr('component', component)
            node.set_attr('label', component)
        return
    hops = 1 + self.get_node_attr(current, 'distance')
    if ordered:
        new = -hops if algo == 'DFS' else hops
        old = q.get_priority(neighbor)
        if old is not None and not new < old:
            return
        q.push(neighbor, new)
        if algo == 'DFS':
            node.set_attr('depth', hops)
        node.set_attr('distance', hops)
    else:
        if algo != 'DFS' and node.get_attr('distance') is not None:
            return
        node.set_attr('distance', hops)
        node.set_attr('label', str(hops))
        q.push(neighbor)
    pred[neighbor] = current
    node.set_attr('color', 'red')
    if component is not None:
        node.set_attr('component', component)
        node.set_attr('label', component)
    self.display()
""")
R('ref2-diameter', 'Graph.get_diameter', """
def get_diameter(self):
    if self.graph_type != UNDIRECTED_GRAPH:
        print('This function only works for undirected graphs')
        return
    lengths = []
    for n in self.get_node_list():
        for m in self.get_node_list():
            path = self.search(n, destination = m, algo = 'BFS')
            if path is None:
                return 'infinity'
            lengths.append(len(path) - 1)
    if not lengths:
        return 'infinity'
    return max(lengths)
""")
R('ref2-diameter-b', 'Graph.get_diameter', """
def _hops(self, n, m):
    path = self.search(n, destination = m, algo = 'BFS')
    return None if path is None else len(path) - 1

def get_diameter(self):
    if self.graph_type != UNDIRECTED_GRAPH:
        print('This function only works for undirected graphs')
        return None
    best = None
    for n in self.neighbors:
        for m in self.neighbors:
            d = self._hops(n, m)
            if d is None:
                return 'infinity'
            best = d if best is None else max(best, d)
    return 'infinity' if best is None else best
""")
R('ref2-degrees', 'Graph.get_degrees', """
def get_degrees(self):
    if self.graph_type == DIRECTED_GRAPH:
        return {n: len(self.in_neighbors[n]) + len(self.neighbors[n]) for n in self.neighbors}
    return {n: len(self.neighbors[n]) for n in self.neighbors}
""")
R('ref2-out-degrees', 'Graph.get_out_degrees', """
def get_out_degrees(self):
    if self.graph_type == DIRECTED_GRAPH:
        degree = {}
        for n, out in self.neighbors.items():
            degree[n] = len(out)
        return degree
    print('This function only works for directed graphs')
""")
R('ref2-hamiltonian', 'Graph.hamiltonian', """
@restores_display
def hamiltonian(self, source, destination = None, distance = 0,
                display = None, pred = None):
    if pred is None:
        pred = {}
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if not distance:
        for node in self.nodes.values():
            node.set_attr('label', '-')
            node.set_attr('visited', None)
        self.display()
    last = distance + 1 == len(self.nodes)
    if last and (destination is None or destination == source):
        return True
    here = self.get_node(source)
    here.set_attr('visited', True)
    here.set_attr('label', str(distance))
    here.set_attr('color', 'blue')
    if source in pred:
        self.set_edge_attr(pred[source], source, 'color', 'green')
    self.display()
    for i in self.get_neighbors(source):
        if self.get_node_attr(i, 'visited') is not None:
            continue
        pred[i] = source
        found = self.hamiltonian(i, destination, distance + 1, display = display, pred = pred)
        if found:
            return True
    if source in pred:
        here.set_attr('color', 'black')
        self.set_edge_attr(pred[source], source, 'color', 'black')
        self.display()
        here.set_attr('visited', None)
        here.set_attr('label', '-')
    return False
""")
R('ref2-preflow', 'Graph.max_flow_preflowpush', """
@restores_display
def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
    if algo not in ('FIFO', 'SAP', 'HighestLabel'):
        raise Exception('Unknown preflow push algorithm %s!' % str(algo))
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    nl = self.get_node_list()
    size = len(nl)
    for n in nl:
        self.set_node_attr(n, 'excess', 0)
    for data in self.edge_attr.values():
        data['flow'] = 0
        if 'capacity' in data:
            data['label'] = str(data['capacity']) + '/0'
        else:
            data['capacity'] = INF
            data['label'] = 'INF/0'
    self.display()
    self.set_display_mode('off')
    self.search(sink, algo = 'UnweightedSPT', reverse = True)
    self.set_display_mode(display)
    cut = [n for n in nl if self.get_node_attr(n, 'distance') is None]
    for n in cut:
        self.set_node_attr(n, 'distance', 2 * size + 1)
    if cut:
        print('Warning: graph contains nodes not connected to the sink...')
    q = {'FIFO': Queue, 'SAP': Stack, 'HighestLabel': PriorityQueue}[algo]()
    highest = algo == 'HighestLabel'
    for n in self.get_neighbors(source):
        capacity = self.get_edge_attr(source, n, 'capacity')
        self.set_edge_attr(source, n, 'flow', capacity)
        self.set_node_attr(n, 'excess', capacity)
        self.set_node_attr(source, 'excess', self.get_node_attr(source, 'excess') - capacity)
        if highest:
            q.push(n, -1)
        else:
            q.push(n)
    self.set_node_attr(source, 'distance', size)
    self.show_flow()
    while not q.isEmpty():
        relabel = True
        current = q.peek()
        for n in self.get_neighbors(current) + self.get_in_neighbors(current):
            pushed = self.process_edge_flow(source, sink, current, n, algo, q)
            if not pushed:
                continue
            self.show_flow()
            if algo == 'FIFO':
                if q.peek(n) is None and n not in (source, sink):
                    q.push(n)
                if self.get_node_attr(current, 'excess') > 0:
                    continue
            relabel = False
            break
        q.remove(current)
        if current != sink:
            if relabel:
                self.relabel(current)
                self.show_flow()
            if self.get_node_attr(current, 'excess') > 0:
                if highest:
                    q.push(current, -self.get_node_attr(current, 'distance'))
                else:
                    q.push(current)
        if pushed and q.peek(n) is None and n != source:
            if highest:
                q.push(n, -self.get_node_attr(n, 'distance'))
            elif algo == 'SAP':
                q.push(n)
""")
R('ref2-preflow-b', 'Graph.max_flow_preflowpush', """
def _activate(self, q, n, algo, priority = None):
    if algo == 'HighestLabel':
        if priority is None:
            priority = -self.get_node_attr(n, 'distance')
        q.push(n, priority)
    else:
        q.push(n)

def _first_labels(self, sink, display):
    self.set_display_mode('off')
    self.search(sink, algo = 'UnweightedSPT', reverse = True)
    self.set_display_mode(display)
    disconnect = False
    for n in self.get_node_list():
        if self.get_node_attr(n, 'distance') is None:
            disconnect = True
            self.set_node_attr(n, 'distance', 2*len(self.get_node_list()) + 1)
    return disconnect

@restores_display
def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
    if algo not in ('FIFO', 'SAP', 'HighestLabel'):
        raise Exception('Unknown preflow push algorithm %s!' % str(algo))
    if display == None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    for n in self.get_node_list():
        self.set_node_attr(n, 'excess', 0)
    for e in self.edge_attr:
        self.edge_attr[e]['flow'] = 0
        if 'capacity' in self.edge_attr[e]:
            self.edge_attr[e]['label'] = str(self.edge_attr[e]['capacity'])+'/0'
        else:
            self.edge_attr[e]['capacity'] = INF
            self.edge_attr[e]['label'] = 'INF/0'
    self.display()
    if self._first_labels(sink, display):
        print('Warning: graph contains nodes not connected to the sink...')
    if algo == 'FIFO':
        q = Queue()
    elif algo == 'SAP':
        q = Stack()
    else:
        q = PriorityQueue()
    for n in self.get_neighbors(source):
        capacity = self.get_edge_attr(source, n, 'capacity')
        self.set_edge_attr(source, n, 'flow', capacity)
        self.set_node_attr(n, 'excess', capacity)
        self.set_node_attr(source, 'excess', self.get_node_attr(source, 'excess') - capacity)
        self._activate(q, n, algo, -1)
    self.set_node_attr(source, 'distance', len(self.get_node_list()))
    self.show_flow()
    while not q.isEmpty():
        current = q.peek()
        relabel = True
        neighbors = self.get_neighbors(current) + self.get_in_neighbors(current)
        for n in neighbors:
            pushed = self.process_edge_flow(source, sink, current, n, algo, q)
            if pushed:
                self.show_flow()
                if algo == 'FIFO' and q.peek(n) is None and n != source and n != sink:
                    q.push(n)
                if algo == 'FIFO' and self.get_node_attr(current, 'excess') > 0:
                    continue
                relabel = False
                break
        q.remove(current)
        if current != sink:
            if relabel:
                self.relabel(current)
                self.show_flow()
            if self.get_node_attr(current, 'excess') > 0:
                self._activate(q, current, algo)
        if pushed and algo != 'FIFO' and q.peek(n) is None and n != source:
            self._activate(q, n, algo)
""")
R('ref2-process-edge-flow', 'Graph.process_edge_flow', """
def process_edge_flow(self, source, sink, i, j, algo, q):
    height_i = self.get_node_attr(i, 'distance')
    height_j = self.get_node_attr(j, 'distance')
    if height_i - height_j != 1:
        return False
    forward = (i, j) in self.edge_attr
    if forward:
        data = self.edge_attr[(i, j)]
        residual = data['capacity'] - data['flow']
    else:
        data = self.edge_attr[(j, i)]
        residual = data['flow']
    if not residual:
        return False
    amount = min(self.get_node_attr(i, 'excess'), residual)
    data['flow'] = data['flow'] + amount if forward else data['flow'] - amount
    self.set_node_attr(i, 'excess', self.get_node_attr(i, 'excess') - amount)
    self.set_node_attr(j, 'excess', self.get_node_attr(j, 'excess') + amount)
    return True
""")
R('ref2-relabel', 'Graph.relabel', """
def relabel(self, i):
    labels = [self.get_node_attr(j, 'distance') for j in self.get_neighbors(i)
              if self.get_edge_attr(i, j, 'flow') < self.get_edge_attr(i, j, 'capacity')]
    labels += [self.get_node_attr(j, 'distance') for j in self.get_in_neighbors(i)
               if self.get_edge_attr(j, i, 'flow') > 0]
    labels.append(2*len(self.get_node_list()) + 1)
    self.set_node_attr(i, 'distance', min(labels) + 1)
""")
R('ref2-relabel-b', 'Graph.relabel', """
def relabel(self, i):
    lowest = 2*len(self.nodes) + 1
    for j in self.neighbors[i]:
        data = self.edge_attr[self._key(i, j)]
        if data['capacity'] - data['flow'] > 0:
            lowest = min(lowest, self.get_node_attr(j, 'distance'))
    for j in self.in_neighbors[i]:
        if self.edge_attr[self._key(j, i)]['flow'] <= 0:
            continue
        height = self.get_node_attr(j, 'distance')
        if lowest > height:
            lowest = height
    self.set_node_attr(i, 'distance', 1 + lowest)

def _key(self, a, b):
    return (a, b)
""")
R('ref2-fifo', 'Graph.fifo_label_correcting', """
def fifo_label_correcting(self, source):
    pred = {source: None}
    for n in self.neighbors:
        self.set_node_attr(n, 'distance', None if n != source else 0)
    q = [source]
    while len(q) > 0:
        i = q.pop(0)
        for j in self.neighbors[i]:
            new = self.get_node_attr(i, 'distance') + self.get_edge_attr(i, j, 'cost')
            old = self.get_node_attr(j, 'distance')
            if old is not None and old <= new:
                continue
            self.set_node_attr(j, 'distance', new)
            known = j in pred
            pred[j] = i
            if known:
                cycle = self.label_correcting_check_cycle(j, pred)
                if cycle is not None:
                    return (False, cycle)
            if j not in q:
                q.append(j)
    return (True, pred)
""")
R('ref2-dfs', 'Graph.dfs', """
@restores_display
def dfs(self, root, disc_count = 0, finish_count = 1, topological_order = None,
        component = None, transpose = False, display = None, pred = None):
    if pred is None:
        pred = {}
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    neighbors = self.in_neighbors if transpose and self.graph_type == DIRECTED_GRAPH else self.neighbors
    here = self.get_node(root)
    here.set_attr('component', component)
    disc_count += 1
    here.set_attr('disc_time', disc_count)
    here.set_attr('label', str(disc_count) + ',-')
    here.set_attr('color', 'blue')
    if root in pred:
        self.set_edge_attr(pred[root], root, 'color', 'green')
    self.display()
    order = neighbors[root]
    mark = 'disc_time'
    if transpose:
        mark = 'component'
        by_time = sorted(((n, self.get_node_attr(n, 'finish_time')) for n in neighbors[root]), key = operator.itemgetter(1))
        order = [n for n, time in by_time]
        order.reverse()
    for i in order:
        if self.get_node_attr(i, mark) is not None:
            continue
        if not transpose:
            pred[i] = root
        disc_count, finish_count = Graph.dfs(self, i, disc_count, finish_count, topological_order,
                                             component, transpose, pred = pred)
    here.set_attr('finish_time', finish_count)
    if topological_order is not None:
        topological_order.insert(0, root)
    here.set_attr('label', '"' + str(here.get_attr('disc_time')) + ',' + str(finish_count) + '"')
    here.set_attr('color', 'green')
    self.display()
    return disc_count, finish_count + 1
""")
R('ref2-strong-connect', 'Graph.strong_connect', """
def _lower(self, node, value):
    low = self.get_node_attr(node, 'lowlink')
    if value < low:
        self.set_node_attr(node, 'lowlink', value)

def strong_connect(self, q, node, index, component):
    self.set_node_attr(node, 'index', index)
    self.set_node_attr(node, 'lowlink', index)
    q.append(node)
    index = index + 1
    for m in self.get_neighbors(node):
        seen = self.get_node_attr(m, 'index')
        if seen is None:
            index, component = self.strong_connect(q, m, index, component)
            self._lower(node, self.get_node_attr(m, 'lowlink'))
        elif m in q:
            self._lower(node, seen)
    if self.get_node_attr(node, 'index') != self.get_node_attr(node, 'lowlink'):
        return (index, component)
    while True:
        m = q.pop()
        self.set_node_attr(m, 'component', component)
        if m == node:
            break
    component += 1
    self.num_components = component
    return (index, component)
""")
R('ref2-label-components', 'Graph.label_components', """
def label_components(self, display = None):
    if self.graph_type == DIRECTED_GRAPH:
        raise Exception("label_components only works for ", "undirected graphs")
    count = 0
    self.num_components = 0
    for node in self.nodes.values():
        node.set_attr('component', None)
        node.set_attr('label', '-')
    for n in self.get_node_list():
        if self.get_node_attr(n, 'component') is not None:
            continue
        self.search(n, display=display, component=count, algo='DFS')
        count += 1
        self.num_components = count
""")
R('ref2-asp', 'Graph.acyclic_shortest_path', """
def acyclic_shortest_path(G, source, destination=None):
    for n in G.get_node_list():
        G.set_node_attr(n, 'disc_time', None)
    order = []
    Graph.dfs(G, source, topological_order=order)
    pred = {}
    dist = {source: 0}
    for m in order:
        if m == destination:
            path = [m]
            while path[0] != source:
                path.insert(0, pred[path[0]])
            return path
        base = dist[m]
        for n in G.neighbors[m]:
            cost = base + G.get_edge_attr(m, n, 'cost')
            if n in dist and not cost < dist[n]:
                continue
            dist[n], pred[n] = cost, m
    return pred
""")
R('ref2-floyd', 'Graph.floyd_warshall', """
def floyd_warshall(self):
    nl = self.get_node_list()
    distance = {(i, j): 'infinity' for i in nl for j in nl}
    for i in nl:
        distance[(i, i)] = 0
    for e in self.get_edge_list():
        i, j = e
        cost = self.get_edge_cost(e)
        if i == j and not cost < 0:
            continue
        distance[(i, j)] = cost
        if self.graph_type == UNDIRECTED_GRAPH:
            distance[(j, i)] = cost
    nextn = {}
    for i in nl:
        for j in nl:
            known = distance[(i, j)] != 'infinity' and not (i == j and distance[(i, j)] == 0)
            nextn[(i, j)] = i if known else None
    for k in nl:
        for i in nl:
            if distance[(i, k)] == 'infinity':
                continue
            for j in nl:
                if distance[(i, k)] == 'infinity' or distance[(k, j)] == 'infinity':
                    continue
                via = distance[(i, k)] + distance[(k, j)]
                if distance[(i, j)] == 'infinity' or via < distance[(i, j)]:
                    distance[(i, j)] = via
                    nextn[(i, j)] = nextn[(k, j)]
    ok = not any(distance[(i, i)] < 0 for i in nl)
    return (ok, distance, nextn)
""")
R('ref2-floyd-path', 'Graph.floyd_warshall_get_path', """
def floyd_warshall_get_path(self, distance, nextn, i, j):
    if distance[(i, j)] == 'infinity':
        return None
    path = [j]
    while path[0] != i:
        path.insert(0, nextn[(i, path[0])])
    return path
""")
R('ref2-kruskal', 'Graph.minimum_spanning_tree_kruskal', """
@restores_display
def minimum_spanning_tree_kruskal(self, display = None, components = None):
    if display is None:
        display = self.attr['display']
    else:
        self.set_display_mode(display)
    if components is None:
        components = DisjointSet(display = display, layout = 'dot', optimize = False)
    for n in self.get_node_list():
        components.add([n])
    components.display()
    edges = []
    wanted = len(self.get_node_list()) - 1
    for (a, b) in sorted(self.get_edge_list(), key = self.get_edge_cost):
        if len(edges) == wanted:
            break
        self.set_edge_attr(a, b, 'color', 'yellow')
        self.display()
        joined = components.union(a, b)
        self.set_edge_attr(a, b, 'color', 'green' if joined else 'black')
        self.display()
        if joined:
            edges.append((a, b))
        components.display()
    return edges
""")
R('ref2-cycle-canceling', 'Graph.cycle_canceling', """
def cycle_canceling(self, display):
    feasible = self.find_feasible_flow()
    if not feasible:
        return False
    while True:
        residual_g = self.create_residual_graph()
        ncycle = residual_g.get_negative_cycle()
        if ncycle is None:
            return True
        self.augment_cycle(residual_g.find_cycle_capacity(ncycle), ncycle)
""")
R('ref2-feasible', 'Graph.find_feasible_flow', """
def find_feasible_flow(self):
    supplies = [(i, self.get_node_attr(i, 'demand')) for i in self.get_node_list()]
    self.add_node('s')
    self.add_node('t')
    for i, b in supplies:
        if b > 0:
            self.add_edge('s', i, capacity=b)
        elif b < 0:
            self.add_edge(i, 't', capacity=-b)
    self.max_flow('s', 't', 'off')
    feasible = all(self.get_edge_attr('s', i, 'flow') == self.get_edge_attr('s', i, 'capacity')
                   for i in self.neighbors['s'])
    for n in ('s', 't'):
        self.del_node(n)
    return feasible
""")
R('ref2-min-cost-flow', 'Graph.min_cost_flow', """
def min_cost_flow(self, display = None, **args):
    if display is None:
        display = self.attr['display']
    algorithm = args.get('algo', 'simplex')
    if algorithm not in ('simplex', 'cycle_canceling'):
        print(args['algo'], 'is not a defined algorithm. Exiting.')
        return
    if algorithm == 'simplex':
        pivot = args.get('pivot', 'dantzig')
        if 'root' in args:
            root = args['root']
        else:
            for k in self.neighbors:
                root = k
                break
        feasible = self.network_simplex(display, pivot, root)
    else:
        feasible = self.cycle_canceling(display)
    if not feasible:
        print('problem is infeasible')
""")
R('ref2-simplex-optimal', 'Graph.simplex_optimal', """
def _reduced_cost(self, e):
    return (self.edge_attr[e]['cost'] - self.get_node_attr(e[0], 'potential')
            + self.get_node_attr(e[1], 'potential'))

def simplex_optimal(self, t):
    for e, data in self.edge_attr.items():
        if e in t.edge_attr:
            continue
        rc = self._reduced_cost(e)
        if data['flow'] == 0 and rc < 0:
            return False
        if data['flow'] != 0 and data['flow'] == data['capacity'] and rc > 0:
            return False
    return True
""")
R('ref2-leaving', 'Graph.simplex_determine_leaving_arc', """
def simplex_determine_leaving_arc(self, t, k, l):
    cycle = self.simplex_identify_cycle(t, k, l)
    entering = self.edge_attr[(k, l)]
    min_capacity = entering['capacity']
    if entering['flow'] == min_capacity:
        cycle.reverse()
    t.add_edge(k, l)
    arcs = t.get_edge_list()
    for i, j in zip(cycle, cycle[1:] + cycle[:1]):
        if (i, j) in arcs:
            room = self.edge_attr[(i, j)]['capacity'] - self.edge_attr[(i, j)]['flow']
            arc = (i, j)
        else:
            room = self.edge_attr[(j, i)]['flow']
            arc = (j, i)
        if room <= min_capacity:
            candidate = arc
            min_capacity = room
    return (candidate, min_capacity, cycle)
""")
R('ref2-potentials', 'Graph.simplex_compute_potentials', """
def simplex_compute_potentials(self, t, root):
    self.set_node_attr(root, 'potential', 0)
    j = t.get_node_attr(root, 'thread')
    while j != root:
        i = t.get_node_attr(j, 'pred')
        above = self.get_node_attr(i, 'potential')
        if (i, j) in t.edge_attr:
            self.set_node_attr(j, 'potential', above - self.get_edge_attr(i, j, 'cost'))
        elif (j, i) in t.edge_attr:
            self.set_node_attr(j, 'potential', above + self.get_edge_attr(j, i, 'cost'))
        j = t.get_node_attr(j, 'thread')
""")
R('ref2-augment', 'Graph.augment_cycle', """
def augment_cycle(self, amount, cycle):
    following = cycle[1:] + [cycle[0]]
    for i, j in zip(cycle, following):
        try:
            data = self.edge_attr[(i, j)]
            step = amount
        except KeyError:
            data = self.edge_attr[(j, i)]
            step = -amount
        data['flow'] = data['flow'] + step
""")


R('ref2-solution-graph', 'Graph.get_simplex_solution_graph', """
def _is_basic(self, e):
    data = self.edge_attr[e]
    return 0 < data['flow'] < data['capacity']

def get_simplex_solution_graph(self):
    solution = Graph(type=DIRECTED_GRAPH)
    for name in self.get_node_list():
        solution.add_node(name)
    for (tail, head) in self.edge_attr:
        if not self._is_basic((tail, head)):
            continue
        solution.add_edge(tail, head)
    return solution
""")
R('ref2-solution-graph2', 'Graph.get_simplex_solution_graph', """
def get_simplex_solution_graph(self):
    simplex_g = Graph(type=DIRECTED_GRAPH)
    for i in self.neighbors:
        simplex_g.add_node(i)
    basic = [e for e, data in self.edge_attr.items() if data['flow'] > 0 and data['capacity'] - data['flow'] > 0]
    for e in basic:
        simplex_g.add_edge(*e)
    return simplex_g
""")
R('ref2-find-tree', 'Graph.simplex_find_tree', """
def simplex_find_tree(self):
    while True:
        solution_g = self.get_simplex_solution_graph()
        cycle = solution_g.simplex_find_cycle()
        if cycle is None:
            break
        self.augment_cycle(self.simplex_augment_cycle(cycle), cycle)
    added = True
    while added:
        added = self.simplex_connect(solution_g)
    for e, data in self.edge_attr.items():
        flow, capacity, cost = data['flow'], data['capacity'], data['cost']
        label = "%d/%d/%d" % (flow, capacity, cost)
        data['label'] = label
        if e not in solution_g.edge_attr:
            continue
        for key, value in (('flow', flow), ('capacity', capacity), ('cost', cost), ('label', label)):
            solution_g.edge_attr[e][key] = value
    return solution_g
""")
R('ref2-connect', 'Graph.simplex_connect', """
def simplex_connect(self, solution_g):
    names = solution_g.get_node_list()
    root = names[0]
    reached = solution_g.simplex_search(root, root)
    outside = [n for n in names if n not in reached]
    for n in outside:
        for m in reached:
            for arc in ((n, m), (m, n)):
                if arc in self.edge_attr:
                    solution_g.add_edge(arc[0], arc[1])
                    return True
    return False
""")
R('ref2-connect2', 'Graph.simplex_connect', """
def _joining_arc(self, solution_g, nl, separated, current):
    for n in nl:
        if solution_g.get_node_attr(n, 'component') == current:
            continue
        for m in separated:
            if (n, m) in self.edge_attr:
                return (n, m)
            if (m, n) in self.edge_attr:
                return (m, n)
    return None

def simplex_connect(self, solution_g):
    nl = solution_g.get_node_list()
    current = nl[0]
    pred = solution_g.simplex_search(current, current)
    arc = self._joining_arc(solution_g, nl, list(pred), current)
    if arc is None:
        return False
    solution_g.add_edge(arc[0], arc[1])
    return True
""")
R('ref2-simplex-search', 'Graph.simplex_search', """
def simplex_search(self, source, component_nr):
    for n in self.neighbors:
        self.set_node_attr(n, 'component', None)
    pred, depth, order = {source: None}, {source: 0}, []
    stack = [source]
    self.set_node_attr(source, 'component', component_nr)
    while stack:
        current = stack.pop()
        order.append(current)
        for n in self.in_neighbors[current] + self.neighbors[current]:
            if n not in pred:
                pred[n] = current
                depth[n] = 1 + depth[current]
                self.set_node_attr(n, 'component', component_nr)
                stack.append(n)
    for here, after in zip(order, order[1:] + order[:1]):
        self.set_node_attr(here, 'thread', after)
    for n, p in pred.items():
        self.set_node_attr(n, 'pred', p)
        self.set_node_attr(n, 'depth', depth[n])
    return pred
""")
R('ref2-simplex-search2', 'Graph.simplex_search', """
def simplex_search(self, source, component_nr):
    q = [source]
    pred = {source: None}
    depth = {source: 0}
    sequence = []
    for n in self.neighbors:
        self.nodes[n].set_attr('component', None)
    while len(q) > 0:
        current = q.pop()
        self.nodes[current].set_attr('component', component_nr)
        sequence.append(current)
        around = list(self.in_neighbors[current])
        around.extend(self.neighbors[current])
        for n in around:
            if n not in pred:
                self.nodes[n].set_attr('component', component_nr)
                depth[n] = depth[current] + 1
                pred[n] = current
                q.append(n)
    last = len(sequence) - 1
    for i in range(last + 1):
        node = self.nodes[sequence[i]]
        node.set_attr('thread', sequence[0] if i == last else sequence[i + 1])
    for n in pred:
        node = self.nodes[n]
        node.set_attr('depth', depth[n])
        node.set_attr('pred', pred[n])
    return pred
""")
