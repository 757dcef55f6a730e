from mt import E
E('seed-late', 'C23', ('random.seed(seedInput)', 'pass'))
E('set-neighbors', 'C23', ("            for n in neighbors[current]:", "            for n in set(neighbors[current]):"))
E('set-order-benign', '', ("for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)", "for n in set(self.get_node_list()):\n            self.get_node(n).set_attr('component', None)", 'all'))
# C02
E('c02-child-first', 'C02', 'tree.py', ("""        attrs['level'] = self.get_node(parent).get_attr('level') + 1
        attrs['parent'] = parent
        self.add_node(n, **attrs)
""", """        self.add_node(n, **attrs)
        self.set_node_attr(n, 'level', self.get_node(parent).get_attr('level') + 1)
        self.set_node_attr(n, 'parent', parent)
"""))
E('c02-edge-first', 'C02', ("""        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
            raise MultipleEdgeException
        self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
""", """        self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
            raise MultipleEdgeException
"""))
E('c02-deledge-neighbors-first', 'C02', ("""            try:
                del self.edge_attr[e]
            except KeyError:
                try:
                    del self.edge_attr[(e[1],e[0])]
""", """            if e[0] in self.neighbors and e[1] in self.neighbors:
                self.neighbors[e[0]] = [n for n in self.neighbors[e[0]] if n != e[1]]
            try:
                del self.edge_attr[e]
            except KeyError:
                try:
                    del self.edge_attr[(e[1],e[0])]
"""))
E('c02-slot-first', 'C02', 'tree.py', ("""        attrs['direction'] = 'R'
        self.add_child(n, parent, **attrs)
        self.set_node_attr(parent, 'Rchild', n)
""", """        attrs['direction'] = 'R'
        self.set_node_attr(parent, 'Rchild', n)
        self.add_child(n, parent, **attrs)
"""))
E('c02-addnode-dup', 'C02', ("""        if name in self.neighbors:
            raise MultipleNodeException
        self.neighbors[name] = list()
        if self.graph_type == DIRECTED_GRAPH:
            self.in_neighbors[name] = list()
""", """        if self.graph_type == DIRECTED_GRAPH:
            self.in_neighbors[name] = list()
        if name in self.neighbors:
            raise MultipleNodeException
        self.neighbors[name] = list()
"""))
E('c02-keep-helper', '', ("""        if (name1, name2) in self.edge_attr:
            raise MultipleEdgeException
        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
            raise MultipleEdgeException
""", """        if self.check_edge(name1, name2):
            raise MultipleEdgeException
"""))
# C06
E('c06-preflow-off', 'C06', ("""        self.search(sink, algo = 'UnweightedSPT', reverse = True)
        self.set_display_mode(display)
""", """        self.search(sink, algo = 'UnweightedSPT', reverse = True)
"""))
E('c06-maxflow-return', 'C06', ("""            # if no path with positive capacity from source sink exists, stop
            if sink not in pred:
                break
""", """            # if no path with positive capacity from source sink exists, stop
            if sink not in pred:
                return
"""))
E('c06-traverse', 'C06', 'tree.py', ("""            if n is not None:
                addToQ(n)
        if old_display:
            self.attr['display'] = old_display
""", """            if n is not None:
                addToQ(n)
        if old_display == 'off':
            self.attr['display'] = old_display
"""))
E('c06-keep-tryfinally', '', 'tree.py', ("""            self.print_nodes(order, priority, display, second_child(root))
        if order == 'post':
            print(root)
        if display:
            self.display(highlight = [root])
        if old_display:
            self.attr['display'] = old_display
""", """            self.print_nodes(order, priority, display, second_child(root))
        try:
            if order == 'post':
                print(root)
            if display:
                self.display(highlight = [root])
        finally:
            if old_display is not None:
                self.set_display_mode(old_display)
"""))
# C20
E('c20-tex', 'C20', ("                tex = None\n                try:", "                try:"))
E('c20-treedfs', 'C20', ("        Graph.dfs(G, source, topological_order = order)", "        G.dfs(source, topological_order = order)"))
E('c20-noret', 'C20', ("            self.get_node(source).set_attr('label', '-')\n        return False\n", "            self.get_node(source).set_attr('label', '-')\n"))
E('c20-setting', 'C20', ("        self.attr['cluster_count'] = 0\n", ""))
E('c20-kw', 'C20', ("            self.relabel(current)\n", "") if False else ("def relabel(self, i):", "def relabel(self, i, q):"))
E('c20-relabelvar', 'C20', ("            relabel = True\n            current = q.peek()", "            current = q.peek()"))
E('c20-queue', 'C20', ("q.push(current, -self.get_node_attr(current,\n", "q.insert(current, -self.get_node_attr(current,\n"))

# C01
E('c01-list', 'C01', ("for n in list(self.neighbors[name]):\n            if self.graph_type == UNDIRECTED_GRAPH:", "for n in self.neighbors[name]:\n            if self.graph_type == UNDIRECTED_GRAPH:"))
E('c01-self', 'C01', ("""                self.edge_attr.pop((name, n), None)
                self.edge_attr.pop((n, name), None)
""", """                if (name, n) in self.edge_attr:
                    del self.edge_attr[(name, n)]
                else:
                    del self.edge_attr[(n, name)]
"""))
E('c01-inremove', 'C01', ("""                del self.edge_attr[(name, n)]
                self.in_neighbors[n].remove(name)
""", """                del self.edge_attr[(name, n)]
                if n != name:
                    continue
                self.in_neighbors[n].remove(name)
"""))
E('c01-one', 'C01', ("""                self.edge_attr.pop((name, n), None)
                self.edge_attr.pop((n, name), None)
""", """                self.edge_attr.pop((name, n), None)
"""))
E('c01-selfloop-add', 'C01', ("""        if self.graph_type == UNDIRECTED_GRAPH:
            self.neighbors[name2].append(name1)
        else:""", """        if self.graph_type == UNDIRECTED_GRAPH:
            if name1 != name2:
                self.neighbors[name2].append(name1)
        else:"""))
E('c01-deledge-in', 'C01', ("""            self.neighbors[e[0]].remove(e[1])
            self.in_neighbors[e[1]].remove(e[0])
""", """            self.neighbors[e[0]].remove(e[1])
            if e[0] != e[1]:
                self.in_neighbors[e[1]].remove(e[0])
"""))
E('c01-rev', 'C01', ("        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:\n            raise MultipleEdgeException\n", ""))
E('c01-setattr', 'C01', ("            except KeyError:\n                # undirected edges", "            except KeyError:\n                # undirected edges") if False else ("            self.in_neighbors[name2].append(name1)\n", "            self.in_neighbors[name2].append(name1)\n            if name1 == name2:\n                self.neighbors[name2].append(name1)\n"))
E('c01-edgelist', 'C01', ("        return list(self.edge_attr.keys())", "        return [e for e in self.edge_attr if e[0] != e[1]]"))
E('c01-nodes', 'C01', ("            del self.in_neighbors[name]\n        del self.neighbors[name]", "            self.in_neighbors[name] = []\n        del self.neighbors[name]"))
E('c16-table-network', 'C16', ("        tel = t.get_edge_list()\n        while index < (n-1):", "        tel = self.get_edge_list()\n        while index < (n-1):"))
E('c16-table-network2', 'C16', ("        tel = t.get_edge_list()\n        while index < (n-1):", "        tel = list(self.edge_attr)\n        while index < (n-1):"))
E('c16-keep-table', '', ("        tel = t.get_edge_list()\n        while index < (n-1):", "        tel = set(t.edge_attr.keys())\n        while index < (n-1):"))
E('c15-table-network', 'C15', ("        tel = list(t.edge_attr.keys())\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e", "        tel = self.edge_attr\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e"))
E('c15-table-network2', 'C15', ("        tel = list(t.edge_attr.keys())\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e", "        tel = set(self.get_edge_list())\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e"))
E('c15-keep-table', '', ("        tel = list(t.edge_attr.keys())\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e", "        tel = set(t.edge_attr)\n        index = 0\n        while index < (n-1):\n            if (cycle[index], cycle[index+1]) in tel:\n                flow_e"))
E('c01-keep-deledge', '', ("""            if self.graph_type == UNDIRECTED_GRAPH:
                # the edge is stored in the direction it was added in, and a
                # self-loop is listed twice
                self.edge_attr.pop((name, n), None)
                self.edge_attr.pop((n, name), None)
                self.neighbors[n].remove(name)
            else:
                del self.edge_attr[(name, n)]
                self.in_neighbors[n].remove(name)
        if self.graph_type == DIRECTED_GRAPH:
            for n in self.in_neighbors[name]:
                del self.edge_attr[(n, name)]
                self.neighbors[n].remove(name)
            del""", """            if (name, n) in self.edge_attr or (self.graph_type == UNDIRECTED_GRAPH and (n, name) in self.edge_attr):
                self.del_edge((name, n))
        if self.graph_type == DIRECTED_GRAPH:
            for n in list(self.in_neighbors[name]):
                self.del_edge((n, name))
            del"""))
E('c01-keep-comp', '', ("""            self.neighbors[e[0]].remove(e[1])
            self.in_neighbors[e[1]].remove(e[0])
""", """            u, v = e
            self.neighbors[u] = [x for x in self.neighbors[u] if x != v]
            self.in_neighbors[v] = [x for x in self.in_neighbors[v] if x != u]
"""))
E('c01-keep-edges', '', ("""        for n in list(self.neighbors[name]):
            if self.graph_type == UNDIRECTED_GRAPH:
                # the edge is stored in the direction it was added in, and a
                # self-loop is listed twice
                self.edge_attr.pop((name, n), None)
                self.edge_attr.pop((n, name), None)
                self.neighbors[n].remove(name)
            else:
                del self.edge_attr[(name, n)]
                self.in_neighbors[n].remove(name)
        if self.graph_type == DIRECTED_GRAPH:
            for n in self.in_neighbors[name]:
                del self.edge_attr[(n, name)]
                self.neighbors[n].remove(name)
            del""", """        for e in list(self.edge_attr):
            if name in e:
                self.del_edge(e)
        if self.graph_type == DIRECTED_GRAPH:
            del"""))
E('c01-keep-setdefault', '', ("""        self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
        for a in attr:
            self.edge_attr[(name1,name2)][a] = attr[a]
        if name1 not in self.nodes:
            self.add_node(name1)
        if name2 not in self.nodes:
            self.add_node(name2)
""", """        for endpoint in (name1, name2):
            if endpoint not in self.nodes:
                self.add_node(endpoint)
        data = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
        data.update(attr)
        self.edge_attr[(name1,name2)] = data
"""))

E('c01-silent', 'C01', ("                del self.edge_attr[e]\n            except KeyError:\n                raise Exception('Edge %s does not exists!' %str(e))", "                del self.edge_attr[e]\n            except KeyError:\n                return", 0))
# C03
E('c03-contains', 'C03', ("""                return ((name1, name2) in self.edge_attr or
                        (name2, name1) in self.edge_attr)
        else:
            return False""", """                return (name1, name2) in self.edge_attr
        else:
            return False"""))
E('c03-check-edge', 'C03', ("""        else:
            return ((name1, name2) in self.edge_attr or
                    (name2, name1) in self.edge_attr)

    def get_node_list""", """        else:
            return (name1, name2) in self.edge_attr or name2 in self.neighbors.get(name2, ())

    def get_node_list"""))
E('c03-set-edge-new', 'C03', ("""            try:
                self.edge_attr[(n,m)][attr] = value
            except KeyError:
                self.edge_attr[(m,n)][attr] = value""", """            self.edge_attr.setdefault((n,m), {})[attr] = value"""))
E('c03-get-edge-dot-get', 'C03', ("""            except KeyError:
                return self.edge_attr[(m,n)][attr]""", """            except KeyError:
                return self.edge_attr.get((n,m), {}).get(attr)"""))
E('c03-dup', 'C03', ("if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:", "if self.graph_type == DIRECTED_GRAPH and (name2,name1) in self.edge_attr:"))
E('c03-del-directed-both', 'C03', ("""            try:
                del self.edge_attr[e]
            except KeyError:
                raise Exception""", """            try:
                del self.edge_attr[e]
                self.edge_attr.pop((e[1], e[0]), None)
            except KeyError:
                raise Exception"""))
E('c03-render', 'C03', ("""        for a in self.edge_attr[e]:
            edge.append(a)""", """        for a in self.edge_attr.get((e[1], e[0]), {}):
            edge.append(a)"""))
E('c03-del-node', 'C03', ("                self.edge_attr.pop((n, name), None)\n", ""))
E('c03-search-raw', 'C03', ("            new_estimate = self.get_edge_attr(current, neighbor, 'cost')\n", "            new_estimate = self.edge_attr[(current, neighbor)]['cost']\n"))
E('c03-keep-get', '', ("""            try:
                return self.edge_attr[(n,m)][attr]
            except KeyError:
                return self.edge_attr[(m,n)][attr]""", """            key = (n,m) if (n,m) in self.edge_attr else (m,n)
            return self.edge_attr[key][attr]"""))
E('c03-keep-del', '', ("""            try:
                del self.edge_attr[e]
            except KeyError:
                try:
                    del self.edge_attr[(e[1],e[0])]
                except KeyError:
                    raise Exception('Edge %s does not exists!' %str(e))""", """            if e in self.edge_attr:
                del self.edge_attr[e]
            elif (e[1],e[0]) in self.edge_attr:
                self.edge_attr.pop((e[1],e[0]))
            else:
                raise Exception('Edge %s does not exists!' %str(e))"""))
E('c03-keep-check', '', ("""        if self.graph_type == DIRECTED_GRAPH:
            return (name1, name2) in self.edge_attr
        else:
            return ((name1, name2) in self.edge_attr or
                    (name2, name1) in self.edge_attr)

    def get_node_list""", """        if (name1, name2) in self.edge_attr:
            return True
        return self.graph_type == UNDIRECTED_GRAPH and (name2, name1) in self.edge_attr

    def get_node_list"""))
# C19
E('c19-search-else-pq', 'C19', ("""        elif algo in ['Dijkstra', 'Prim']:
            if q is None:
                q = PriorityQueue()
        else:
            print("Unknown search algorithm...exiting")
            return
        neighbors""", """        else:
            if q is None:
                q = PriorityQueue()
        neighbors"""))
E('c19-search-substring', 'C19', ("        elif algo == 'BFS' or algo == 'UnweightedSPT':\n            if q is None", "        elif algo in 'BFS' or algo == 'UnweightedSPT':\n            if q is None"))
E('c19-search-silent', 'C19', ("""            print("Unknown search algorithm...exiting")
            return
""", """            return
"""))
E('c19-maxflow-late', 'C19', ("""        if algo not in ('DFS', 'BFS'):
            raise Exception('Unknown max flow algorithm %s!' %str(algo))
""", "")) 
E('c19-preflow-prefix', 'C19', ("        if algo not in ('FIFO', 'SAP', 'HighestLabel'):", "        if not any(a.startswith(str(algo)) for a in ('FIFO', 'SAP', 'HighestLabel')):"))
E('c19-preflow-dropped', 'C19', ("""        if algo not in ('FIFO', 'SAP', 'HighestLabel'):
            raise Exception('Unknown preflow push algorithm %s!' %str(algo))
""", ""))
E('c19-mcf-else', 'C19', ("        elif algorithm == 'cycle_canceling':", "        elif algorithm is not None:"))
E('c19-mcf-keyerror', 'C19', ("""        else:
            print(args['algo'], 'is not a defined algorithm. Exiting.')
            return
""", ""))
E('c19-pivot-else', 'C19', ("        elif pivot=='first_eligible':", "        elif pivot != 'scaled':"))
E('c19-pivot-unbound', 'C19', ("""        else:
            raise Exception("Unknown pivot rule.")
""", ""))
E('c19-random-closest', 'C19', ("                    elif node_selection == 'closest':", "                    elif node_selection != 'none':"))
E('c19-random-silent', 'C19', ("""                        print("Unknown node selection rule...exiting")
""", ""))
E('c19-doc-refused', 'C19', ("if algo not in ('FIFO', 'SAP', 'HighestLabel'):", "if algo not in ('FIFO', 'HighestLabel'):"))
E('c19-keep-dispatch', '', ("""        if algo not in ('DFS', 'BFS'):
            raise Exception('Unknown max flow algorithm %s!' %str(algo))
""", """        queues = {'DFS': Stack, 'BFS': Queue}
        if queues.get(algo) is None:
            raise ValueError('Unknown max flow algorithm %s!' %str(algo))
"""))
E('c19-keep-early', '', ("""        if pivot=='dantzig':
            # pick""", """        if pivot not in ('dantzig', 'first_eligible'):
            raise Exception("Unknown pivot rule.")
        if pivot=='dantzig':
            # pick"""))
E('c19-keep-raise', '', ("""            print("Unknown search algorithm...exiting")
            return
""", """            raise Exception('Unknown search algorithm %s' % algo)
"""))
E('c19-pivot-default', 'C19', ("            if 'pivot' in args:\n", "            if args.get('pivot') in ('dantzig', 'first_eligible'):\n"))
E('c19-pivot-or', 'C19', ("self.simplex_select_entering_arc(t, pivot)\n            self", "self.simplex_select_entering_arc(t, pivot or 'dantzig')\n            self"))
# C26
E('c26-zero-only', 'C26', ("            if flow != capacity:\n                self.del_node('s')", "            if flow == 0 and capacity > 0:\n                self.del_node('s')"))
E('c26-first-only', 'C26', ("        for i in self.neighbors['s']:\n            flow = self", "        for i in self.neighbors['s'][1:]:\n            flow = self"))
E('c26-greater', 'C26', ("            if flow != capacity:\n                self.del_node('s')", "            if flow > capacity:\n                self.del_node('s')"))
E('c26-return-first', 'C26', ("""                self.del_node('t')
                return False
        # remove""", """                self.del_node('t')
                return False
            break
        # remove"""))
E('c26-true', 'C26', ("""                self.del_node('t')
                return False
        # remove""", """                break
        # remove"""))
E('c26-cap', 'C26', ("                self.add_edge('s', i, capacity=b_i)", "                self.add_edge('s', i, capacity=b_i - 1)"))
E('c26-cap1', 'C26', ("            if b_i > 0:\n                # i is a supply node, add", "            if b_i > 1:\n                # i is a supply node, add"))
E('c26-cc', 'C26', ("        if not self.find_feasible_flow():\n            return False\n        # create", "        self.find_feasible_flow()\n        # create"))
E('c26-ns-none', 'C26', ("        if not self.find_feasible_flow():\n            return False\n        t = ", "        if not self.find_feasible_flow():\n            return True\n        t = "))
E('c26-ns-after', 'C26', ("        if not self.find_feasible_flow():\n            return False\n        t = self.simplex_find_tree()", "        feasible = self.find_feasible_flow()\n        t = self.simplex_find_tree()\n        if not feasible and not t.get_edge_list():\n            return False"))
E('c26-mcf-pivot', 'C26', ("""                if not self.network_simplex(display, args['pivot'], root):
                    print('problem is infeasible')
""", """                self.network_simplex(display, args['pivot'], root)
"""))
E('c26-mcf-cc', 'C26', ("""            if not self.cycle_canceling(display):
                print('problem is infeasible')
""", """            if self.cycle_canceling(display):
                print('problem is infeasible')
"""))
E('c26-keep-less', '', ("            if flow != capacity:\n                self.del_node('s')", "            if flow < capacity:\n                self.del_node('s')"))
E('c26-keep-flag', '', ("""            if flow != capacity:
                self.del_node('s')
                self.del_node('t')
                return False
        # remove node 's' and node 't'
        self.del_node('s')
        self.del_node('t')
        return True
""", """            if flow != capacity:
                feasible = False
                break
        else:
            feasible = True
        # remove node 's' and node 't'
        self.del_node('s')
        self.del_node('t')
        return feasible
"""))
E('c26-keep-flag2', '', ("        for i in self.neighbors['s']:\n            flow = self", "        feasible = True\n        for i in self.neighbors['s']:\n            flow = self"), ("""            if flow != capacity:
                self.del_node('s')
                self.del_node('t')
                return False
        # remove node 's' and node 't'
        self.del_node('s')
        self.del_node('t')
        return True
""", """            if flow != capacity:
                feasible = False
        # remove node 's' and node 't'
        self.del_node('s')
        self.del_node('t')
        return feasible
"""))
E('c26-keep-nl', '', ("        for i in self.neighbors['s']:\n            flow = self.get_edge_attr('s', i, 'flow')", "        for i in nl:\n            if self.get_node_attr(i, 'demand') <= 0:\n                continue\n            flow = self.get_edge_attr('s', i, 'flow')"))
E('c26-keep-mcf', '', ("""            if 'pivot' in args:
                if not self.network_simplex(display, args['pivot'], root):
                    print('problem is infeasible')
            else:
                if not self.network_simplex(display, 'dantzig', root):
                    print('problem is infeasible')
""", """            pivot = args.get('pivot', 'dantzig')
            feasible = self.network_simplex(display, pivot, root)
            if not feasible:
                print('problem is infeasible')
"""))
E('c26-keep-total', '', ("        for i in self.neighbors['s']:\n            flow = self", "        sent = sum(self.get_edge_attr('s', i, 'flow') for i in self.neighbors['s'])\n        need = sum(self.get_edge_attr('s', i, 'capacity') for i in self.neighbors['s'])\n        for i in self.neighbors['s'] if sent != need else []:\n            flow = self"))
# C18
E('c18-gt', 'C18', ("        if self.sizes[roots[0]] <= self.sizes[roots[1]] or not self.optimize:", "        if self.sizes[roots[0]] >= self.sizes[roots[1]] or not self.optimize:"))
E('c18-items', 'C18', ("            self.add_edge(roots[0], roots[1])\n", "            self.add_edge(i, roots[1])\n"))
E('c18-size', 'C18', ("            self.sizes[roots[0]] += self.sizes[roots[1]]\n", "            self.sizes[roots[0]] += 1\n"))
E('c18-size2', 'C18', ("            self.sizes[roots[0]] += self.sizes[roots[1]]\n", "            self.sizes[roots[1]] += self.sizes[roots[0]]\n"))
E('c18-same-item', 'C18', ("        if roots[0] == roots[1]:\n            return False", "        if i == j:\n            return False"))
E('c18-ret', 'C18', ("        if roots[0] == roots[1]:\n            return False", "        if roots[0] == roots[1]:\n            return True"))
E('c18-ret-none', 'C18', ("            self.sizes[roots[0]] += self.sizes[roots[1]]\n            return True", "            self.sizes[roots[0]] += self.sizes[roots[1]]"))
E('c18-compress-cut', 'C18', ("                    self.add_edge(e[0], current)\n", "                    self.add_edge(e[0], e[1])\n"))
E('c18-compress-first', 'C18', ("""            for e in edge_list:
                if e[1] != current:
                    self.del_edge((e[0], e[1]))
                    self.add_edge(e[0], current)
""", """            for e in edge_list:
                if e[1] != current:
                    self.del_edge((e[0], e[1]))
            if edge_list:
                self.add_edge(i, current)
"""))
E('c18-compress-noedge', 'C18', ("                    self.del_edge((e[0], e[1]))\n", ""))
E('c18-find-i', 'C18', ("""                    self.add_edge(e[0], current)
        return current""", """                    self.add_edge(e[0], current)
            return edge_list[0][1] if edge_list else current
        return current"""))
E('c18-find-one', 'C18', ("        while len(self.get_neighbors(current)) != 0:", "        if len(self.get_neighbors(current)) != 0:"))
E('c18-add-size', 'C18', ("        self.sizes[aList[0]] = len(aList)", "        self.sizes[aList[0]] = 1"))
E('c18-add-chain', 'C18', ("            self.add_edge(aList[i], aList[0])", "            self.add_edge(aList[i-1], aList[i])"))
E('c18-add-skip', 'C18', ("        for i in range(1, len(aList)):\n            self.add_edge", "        for i in range(2, len(aList)):\n            self.add_edge"))
E('c18-k-order', 'C18', ("sorted(self.get_edge_list(), key=self.get_edge_cost)", "sorted(self.get_edge_list(), key=self.get_edge_cost, reverse=True)"))
E('c18-k-nokey', 'C18', ("sorted(self.get_edge_list(), key=self.get_edge_cost)", "sorted(self.get_edge_list())"))
E('c18-k-early', 'C18', ("if len(edges) == len(self.get_node_list()) - 1:", "if len(edges) == len(self.get_node_list()) - 2:"))
E('c18-k-always', 'C18', ("""                self.set_edge_attr(e[0], e[1], 'color', 'black')
                self.display()
            components""", """                self.set_edge_attr(e[0], e[1], 'color', 'black')
                self.display()
                edges.append(e)
            components"""))
E('c18-k-ends', 'C18', ("            if components.union(e[0], e[1]):", "            if components.union(e[0], e[0]):"))
E('c18-k-stop', 'C18', ("""                self.set_edge_attr(e[0], e[1], 'color', 'black')
                self.display()
            components""", """                self.set_edge_attr(e[0], e[1], 'color', 'black')
                self.display()
                break
            components"""))
E('c18-cost', 'C18', ("return self.get_edge_attr(edge[0], edge[1], 'cost')", "return self.get_edge_attr(edge[0], edge[1], 'length')"))
E('c18-keep-lt', '', ("""        if self.sizes[roots[0]] <= self.sizes[roots[1]] or not self.optimize:
            self.add_edge(roots[0], roots[1])
            self.sizes[roots[1]] += self.sizes[roots[0]]
            return True
        else:
            self.add_edge(roots[1], roots[0])
            self.sizes[roots[0]] += self.sizes[roots[1]]
            return True
""", """        small, big = roots
        if self.optimize and self.sizes[small] > self.sizes[big]:
            small, big = big, small
        self.add_edge(small, big)
        self.sizes[big] = self.sizes[small] + self.sizes[big]
        return True
"""))
E('c18-keep-find', '', ("""        while len(self.get_neighbors(current)) != 0:
            successor = self.get_neighbors(current)[0]
            edge_list.append((current, successor))
            current = successor
""", """        while self.get_neighbors(current):
            successor = self.neighbors[current][0]
            edge_list.append((current, successor))
            current = successor
"""))
E('c18-keep-find2', '', ("""        current = i
        edge_list = []
        while len(self.get_neighbors(current)) != 0:
            successor = self.get_neighbors(current)[0]
            edge_list.append((current, successor))
            current = successor
        if self.optimize:
            for e in edge_list:
                if e[1] != current:
                    self.del_edge((e[0], e[1]))
                    self.add_edge(e[0], current)
        return current
""", """        root = i
        path = []
        while True:
            up = self.neighbors[root]
            if len(up) == 0:
                break
            path.append((root, up[0]))
            root = up[0]
        if not self.optimize:
            return root
        for child, parent in path:
            if parent == root:
                continue
            self.del_edge((child, parent))
            self.add_edge(child, root)
        return root
"""))
E('c18-keep-add', '', ("""        for i in range(1, len(aList)):
            self.add_edge(aList[i], aList[0])
""", """        for x in aList[1:]:
            self.add_edge(x, aList[0])
"""))
E('c18-keep-k', '', ("""        sorted_edge_list = sorted(self.get_edge_list(), key=self.get_edge_cost)
""", """        sorted_edge_list = self.get_edge_list()
        sorted_edge_list.sort(key=lambda e: self.get_edge_attr(e[0], e[1], 'cost'))
"""), ("            if components.union(e[0], e[1]):\n", "            joined = components.union(e[0], e[1])\n            if joined:\n"))
E('c18-keep-k2', '', ("""            if len(edges) == len(self.get_node_list()) - 1:
                break
            self.set_edge""", """            if len(edges) >= self.get_node_num() - 1:
                break
            if components.find(e[0]) == components.find(e[1]):
                continue
            self.set_edge"""))
# C21
T = 'tree.py'
E('c21-level', 'C21', T, ("self.get_node(parent).get_attr('level') + 1", "(self.get_node(parent).get_attr('level') or 1) + 1"))
E('c21-level2', 'C21', T, ("self.get_node(parent).get_attr('level') + 1", "self.root.get_attr('level') + 1"))
E('c21-level3', 'C21', T, ("        attrs['level'] = self.get_node(parent).get_attr('level') + 1\n", "        attrs.setdefault('level', self.get_node(parent).get_attr('level') + 1)\n"))
E('c21-parent', '', T, ("        attrs['parent'] = parent\n", "        attrs.setdefault('parent', parent)\n"))
E('c21-parent2', 'C21', T, ("        attrs['parent'] = parent\n", "        attrs['parent'] = str(parent)\n"))
E('c21-edge', 'C21', T, ("        self.add_edge(parent, n)\n", "        self.add_edge(n, parent)\n"))
E('c21-rootlevel', 'C21', T, ("        attrs['level'] = 0\n", "        if 'level' not in attrs:\n            attrs['level'] = 0\n"))
E('c21-rootlevel2', 'C21', T, ("        attrs['level'] = 0\n", "        attrs['level'] = 1\n"))
E('c21-side', 'C21', T, ("        self.set_node_attr(parent, 'Lchild', n)\n", "        self.set_node_attr(parent, 'Rchild', n)\n"))
E('c21-occupied', 'C21', T, ("        if self.get_left_child(parent) is not None:\n            msg", "        if self.get_right_child(parent) is not None:\n            msg"))
E('c21-occupied2', 'C21', T, ("        if self.get_left_child(parent) is not None:\n            msg", "        if self.get_left_child(parent):\n            msg"))
E('c21-read', 'C21', T, ("            return n.get_attr('Lchild')\n", "            return n.get_attr('Rchild')\n"))
E('c21-read2', 'C21', T, ("        return self.get_node_attr(n, 'Lchild')\n", "        return self.get_node_attr(n, 'Lchild') or self.get_node_attr(n, 'Rchild')\n"))
E('c21-del', 'C21', T, ("            elif self.get_left_child(parent) == n:\n", "            else:\n"))
E('c21-del2', 'C21', T, ("                self.set_node_attr(parent, 'Lchild', None)", "                self.set_node_attr(parent, 'Rchild', None)"))
E('c21-del3', 'C21', T, ("            if self.get_right_child(parent) == n:\n                self.set_node_attr(parent, 'Rchild', None)\n            elif", "            if"))
E('c21-del4', 'C21', T, ("        if parent in self.nodes:\n", "        if parent in self.nodes and parent != self.root.name:\n"))
E('c21-del5', 'C21', T, ("        if parent in self.nodes:\n", "        if parent in self.nodes and len(self.get_children(n)) == 0:\n"))
E('c21-order', 'C21', T, ("        if order == 'in':\n            print(root)\n        if second_child(root) is not None:\n            if display:\n                self.display(highlight = [root])\n            self.print_nodes(order, priority, display, second_child(root))\n        if order == 'post'", "        if second_child(root) is not None:\n            if display:\n                self.display(highlight = [root])\n            self.print_nodes(order, priority, display, second_child(root))\n        if order == 'in':\n            print(root)\n        if order == 'post'"))
E('c21-prio', 'C21', T, ("self.print_nodes(order, priority, display, first_child(root))", "self.print_nodes(order, 'L', display, self.get_left_child(root))"))
E('c21-ops', 'C21', T, ("(res1 , res2)", "(res2 , res1)"))
E('c21-keep1', '', T, ("""            if self.get_right_child(parent) == n:
                self.set_node_attr(parent, 'Rchild', None)
            elif self.get_left_child(parent) == n:
                self.set_node_attr(parent, 'Lchild', None)
""", """            for slot in ('Rchild', 'Lchild'):
                if self.get_node_attr(parent, slot) == n:
                    self.set_node_attr(parent, slot, None)
"""))
E('c21-keep2', '', T, ("""        attrs['direction'] = 'L'
        self.add_child(n, parent, **attrs)
        self.set_node_attr(parent, 'Lchild', n)
""", """        self._add_side(n, parent, 'L', attrs)

    def _add_side(self, n, parent, side, attrs):
        attrs['direction'] = side
        child = self.add_child(n, parent, **attrs)
        self.get_node(parent).set_attr(side + 'child', child.name)
"""))
E('c21-keep3', '', T, ("""        attrs['level'] = self.get_node(parent).get_attr('level') + 1
        attrs['parent'] = parent
        self.add_node(n, **attrs)
        self.add_edge(parent, n)
        return self.get_node(n)
""", """        depth = self.get_node_attr(parent, 'level')
        attrs.update(level=depth + 1, parent=parent)
        child = self.add_node(n, **attrs)
        self.add_edge(parent, n)
        return child
"""))
E('c21-keep4', '', T, ("""        attrs['level'] = 0
        self.root = self.add_node(root, **attrs)
        return self.root
""", """        attrs = dict(attrs, level=0)
        node = self.add_node(root, **attrs)
        self.root = node
        return node
"""))
E('c21-keep5', '', T, ("""        if isinstance(n, Node):
            return n.get_attr('Lchild')
        return self.get_node_attr(n, 'Lchild')
""", """        node = n if isinstance(n, Node) else self.get_node(n)
        return node.get_attr('Lchild')
"""))
# C17
E('c17-d1', 'C17', ("        if neighbor not in pred or new_estimate < q.get_priority(neighbor):\n            pred[neighbor] = current\n            self.get_node(neighbor).set_attr('color', 'red')\n            self.get_node(neighbor).set_attr('label', new_estimate)\n            q.push(neighbor, new_estimate)", "        if neighbor not in pred or new_estimate < q.get_priority(neighbor):\n            if neighbor not in pred:\n                pred[neighbor] = current\n            self.get_node(neighbor).set_attr('color', 'red')\n            self.get_node(neighbor).set_attr('label', new_estimate)\n            q.push(neighbor, new_estimate)"))
E('c17-d2', 'C17', ("        if neighbor not in pred or new_estimate < q.get_priority(neighbor):", "        if neighbor not in pred or new_estimate <= q.get_priority(neighbor):"))
E('c17-d3', 'C17', ("        if reverse:\n            cost = self.get_edge_attr(neighbor, current, 'cost')\n        else:\n            cost", "        if reverse and self.check_edge(neighbor, current):\n            cost = self.get_edge_attr(neighbor, current, 'cost')\n        else:\n            cost"))
E('c17-d4', 'C17', ("        new_estimate = q.get_priority(current) + cost\n", "        new_estimate = self.get_node(current).get_attr('distance') + cost\n"))
E('c17-d5', 'C17', ("        if neighbor not in pred or new_estimate < q.get_priority(neighbor):", "        pred.setdefault(neighbor, current)\n        if q.get_priority(neighbor) is None or new_estimate < q.get_priority(neighbor):"))
E('c17-d6', 'C17', ("            q.push(neighbor, new_estimate)\n            self.display()\n            self.get_node(neighbor).set_attr('color', 'black')\n\n    def process_edge_prim", "            if neighbor not in pred:\n                q.push(neighbor, new_estimate)\n            self.display()\n            self.get_node(neighbor).set_attr('color', 'black')\n\n    def process_edge_prim"))
E('c17-d7', 'C17', ("        if reverse:\n            cost = self.get_edge_attr(neighbor, current, 'cost')\n        else:\n            cost = self.get_edge_attr(current, neighbor, 'cost')\n", "        cost = self.get_edge_attr(current, neighbor, 'cost')\n"))
E('c17-p1', 'C17', ("            new_estimate = self.get_edge_attr(current, neighbor, 'cost')\n", "            new_estimate = q.get_priority(current) + self.get_edge_attr(current, neighbor, 'cost')\n"))
E('c17-p2', 'C17', ("        if not neighbor in pred or new_estimate < q.get_priority(neighbor):", "        if not neighbor in pred or new_estimate < q.get_priority(current):"))
E('c17-m1', 'C17', ("                    if not n in pred or new_estimate < get_priority(n):\n                        pred[n] = current\n", "                    if not n in pred or new_estimate < get_priority(n):\n                        pred.setdefault(n, current)\n"))
E('c17-m2', 'C17', ("                    if not n in pred or new_estimate < get_priority(n):\n", "                    if not n in pred or new_estimate > get_priority(n):\n"))
E('c17-a1', 'C17', ("                if n not in dist or dist[n] > estimate:\n", "                if n not in dist or dist[n] >= estimate:\n"))
E('c17-a2', 'C17', ("                estimate = dist[m] + G.get_edge_attr(m ,n, \"cost\")\n", "                estimate = dist[m] + G.get_edge_attr(order[0], n, \"cost\")\n"))
E('c17-a3', 'C17', ("                if n not in dist or dist[n] > estimate:\n                    dist[n] = estimate\n                    pred[n] = m\n", "                if n not in dist or dist[n] > estimate:\n                    dist[n] = estimate\n                pred[n] = m\n"))
E('c17-a4', 'C17', ("                estimate = dist[m] + G.get_edge_attr", "                if n == destination and n in dist:\n                    continue\n                estimate = dist[m] + G.get_edge_attr"))
E('c17-f1', 'C17', ("                if distance_j is None or distance_j > distance_i + c_ij:\n", "                if distance_j is None or distance_j > distance_i:\n"))
E('c17-f2', 'C17', ("                if distance_j is None or distance_j > distance_i + c_ij:\n", "                if j != source and (distance_j is None or distance_j > distance_i + c_ij):\n"))
E('c17-f3', 'C17', ("                    self.get_node(j).set_attr('distance', distance_i+c_ij)\n                    if j in pred:\n                        pred[j] = i\n", "                    self.get_node(j).set_attr('distance', distance_i+c_ij)\n                    if j in pred:\n                        if j not in q:\n                            pred[j] = i\n"))
E('c17-w1', 'C17', ("                    elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n                        nextn[(i,j)] = nextn[(k,j)]", "                    elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n                        nextn[(i,j)] = k"))
E('c17-w2', 'C17', ("        for k in nl:\n            for i in nl:\n                for j in nl:\n", "        for i in nl:\n            for k in nl:\n                for j in nl:\n"))
E('c17-w3', 'C17', ("                    elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:", "                    elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)] and i != j:"))
E('c17-w4', 'C17', ("            if self.graph_type == UNDIRECTED_GRAPH:\n                distance[(e[1],e[0])] = cost\n", "            if self.graph_type == UNDIRECTED_GRAPH and distance[(e[1],e[0])] != 'infinity':\n                distance[(e[1],e[0])] = cost\n"))
E('c17-w5', 'C17', ("            if e[0] == e[1] and cost >= 0:\n                # a self-loop only shortens anything if its cost is negative\n                continue\n", ""))
E('c17-w6', 'C17', ("            if e[0] == e[1] and cost >= 0:\n", "            if cost >= 0 and e[0] == e[1] or cost == 0:\n"))
E('c17-w7', 'C17', ("                    elif distance[(i,j)]=='infinity':\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n                        nextn[(i,j)] = nextn[(k,j)]", "                    elif distance[(i,j)]=='infinity':\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n                        nextn[(i,j)] = nextn[(i,k)]"))
E('c17-keep1', '', ("                    if distance[(i,k)]=='infinity' or distance[(k,j)]=='infinity':\n                        continue\n                    elif distance[(i,j)]=='infinity':\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n                        nextn[(i,j)] = nextn[(k,j)]\n                    elif distance[(i,j)] > distance[(i,k)] + distance[(k,j)]:\n                        distance[(i,j)] = distance[(i,k)] + distance[(k,j)]\n", "                    if 'infinity' in (distance[(i,k)], distance[(k,j)]):\n                        continue\n                    via = distance[(i,k)] + distance[(k,j)]\n                    if distance[(i,j)]=='infinity' or via < distance[(i,j)]:\n                        distance[(i,j)] = via\n"))
E('c17-keep2', '', ("                if distance_j is None or distance_j > distance_i + c_ij:\n                    self.get_node(j).set_attr('distance', distance_i+c_ij)\n                    if j in pred:\n                        pred[j] = i\n                        cycle = self.label_correcting_check_cycle(j, pred)\n                        if cycle is not None:\n                            return (False, cycle)\n                    else:\n                        pred[j] = i\n", "                candidate = distance_i + c_ij\n                if distance_j is None or candidate < distance_j:\n                    known = j in pred\n                    pred[j] = i\n                    self.set_node_attr(j, 'distance', candidate)\n                    if known:\n                        cycle = self.label_correcting_check_cycle(j, pred)\n                        if cycle is not None:\n                            return (False, cycle)\n"))
E('c17-keep3', '', ("        if neighbor not in pred or new_estimate < q.get_priority(neighbor):\n            pred[neighbor] = current\n            self.get_node(neighbor).set_attr('color', 'red')\n            self.get_node(neighbor).set_attr('label', new_estimate)\n            q.push(neighbor, new_estimate)\n            self.display()\n            self.get_node(neighbor).set_attr('color', 'black')\n", "        if neighbor in pred and not new_estimate < q.get_priority(neighbor):\n            return\n        self._relabel(current, neighbor, new_estimate, pred, q)\n\n    def _relabel(self, current, neighbor, estimate, pred, q):\n        node = self.get_node(neighbor)\n        q.push(neighbor, estimate)\n        node.set_attr('color', 'red')\n        node.set_attr('label', estimate)\n        pred[neighbor] = current\n        self.display()\n        node.set_attr('color', 'black')\n"))
E('c17-keep4', '', ("                if n not in dist or dist[n] > estimate:\n                    dist[n] = estimate\n                    pred[n] = m\n", "                if n in dist and dist[n] <= estimate:\n                    continue\n                pred[n], dist[n] = m, estimate\n"))
E('c17-keep5', '', ("                if n not in dist or dist[n] > estimate:\n", "                if estimate < dist.get(n, float('inf')):\n"))
E('c17-keep6', '', ("                    if not n in pred or new_estimate < get_priority(n):\n", "                    old = get_priority(n)\n                    if not n in pred or old > new_estimate:\n"))
SC_TREE = "            if self.get_node_attr(m, 'index') is None:\n                index, component = self.strong_connect(q, m, index, component)\n                self.set_node_attr(node, 'lowlink',\n                                   min([self.get_node_attr(node, 'lowlink'),\n                                        self.get_node_attr(m, 'lowlink')]))\n            elif m in q:\n                self.set_node_attr(node, 'lowlink',\n                                   min([self.get_node_attr(node, 'lowlink'),\n                                        self.get_node_attr(m, 'index')]))\n"
SC_POP = "            m = q.pop()\n            self.set_node_attr(m, 'component', component)\n            while (node!=m):\n                m = q.pop()\n                self.set_node_attr(m, 'component', component)\n"
SC_CLOSE = "        if self.get_node_attr(node, 'lowlink') == self.get_node_attr(node, 'index'):\n"
E('c24-s1', 'C24', ("            elif m in q:\n", "            else:\n"))
E('c24-s2', 'C24', (SC_TREE, SC_TREE.replace("self.get_node_attr(m, 'lowlink')", "self.get_node_attr(m, 'index')")))
E('c24-s3', 'C24', ("                index, component = self.strong_connect(q, m, index, component)\n", "                index = self.strong_connect(q, m, index, component)[0]\n"))
E('c24-s4', 'C24', ("                index, component = self.strong_connect(q, m, index, component)\n", "                component = self.strong_connect(q, m, index, component)[1]\n"))
E('c24-s5', 'C24', (SC_CLOSE, SC_CLOSE.replace('==', '<=')))
E('c24-s6', 'C24', (SC_POP, SC_POP.replace("            self.set_node_attr(m, 'component', component)\n            while", "            while")))
E('c24-s7', 'C24', (SC_POP, SC_POP.replace("while (node!=m)", "while q")))
E('c24-s8', 'C24', ("            component += 1\n            self.num_components = component\n", "            self.num_components = component\n            component += 1\n"))
E('c24-s9', 'C24', ("        index += 1\n        q.append(node)\n", "        q.append(node)\n"))
E('c24-s10', 'C24', (SC_POP, SC_POP.replace("m = q.pop()", "m = q.pop(0)")))
E('c24-s11', 'C24', ("        index += 1\n        q.append(node)\n        for m in self.get_neighbors(node):\n", "        index += 1\n        for m in self.get_neighbors(node):\n"), (SC_CLOSE, "        q.append(node)\n" + SC_CLOSE))
E('c24-s12', 'C24', ("            if self.get_node_attr(m, 'index') is None:\n                index, comp", "            if m == node:\n                continue\n            if not self.get_node_attr(m, 'index'):\n                index, comp"))
E('c24-s13', 'C24', (SC_TREE, SC_TREE.replace("min([self.get_node_attr(node, 'lowlink'),\n                                        self.get_node_attr(m, 'index')])", "self.get_node_attr(m, 'index')")))
E('c24-stale9', 'C07', ("            component += 1\n            self.num_components = component\n\n        return (index, component)", "            self.num_components = component + 1\n\n        return (index, self.num_components)"))
E('c24-s15', 'C24', (SC_CLOSE, SC_CLOSE.replace("== self", "== index - 1 and self.get_node_attr(node, 'lowlink') == self")))
E('c24-s16', 'C24', ("            if self.get_node_attr(m, 'index') is None:\n                index, comp", "            if m not in q:\n                index, comp"))
E('c24-t1', 'C24', ("            if self.get_node_attr(n, 'index') is None:\n                index, component = self.strong_connect(q, n, index, component)\n", "            if self.get_node_attr(n, 'index') is None:\n                index, component = self.strong_connect(q, n, index, component)\n                component += 1\n"))
E('c24-t2', 'C24', ("            if self.get_node_attr(n, 'index') is None:\n                index, component = self.strong_connect(q, n, index, component)\n", "            if not self.get_node_attr(n, 'index'):\n                index, component = self.strong_connect(q, n, index, component)\n"))
E('c24-t3', 'C24', ("            if self.get_node_attr(n, 'index') is None:\n                index, component = self.strong_connect(q, n, index, component)\n", "            if self.get_node_attr(n, 'index') is None:\n                component = self.strong_connect(q, n, index, component)[1]\n"))
E('c24-t4', 'C24', ("        for n in self.get_node_list():\n            self.set_node_attr(n, 'index', None)\n", ""))
E('c24-t5', 'C24', ("            if self.get_node_attr(n, 'index') is None:\n                index, component = self.strong_connect(q, n, index, component)\n", "            if self.get_node_attr(n, 'index') is None and self.get_neighbors(n):\n                index, component = self.strong_connect(q, n, index, component)\n"))
E('c24-l1', 'C24', ("                self.num_components += 1\n", "            self.num_components += 1\n"))
E('c24-l2', 'C24', ("            if self.get_node(n).get_attr('component') == None:\n                self.search(n", "            if not self.get_node(n).get_attr('component'):\n                self.search(n"))
E('c24-l3', 'C24', ("component=self.num_components, algo='DFS')\n                self.num_components += 1\n", "component=self.num_components, algo='DFS')\n                if self.get_neighbors(n):\n                    self.num_components += 1\n"))
E('c24-l4', 'C24', ("component=self.num_components, algo='DFS')\n", "component=self.num_components, algo='Dijkstra')\n"))
E('c24-l5', 'C24', ("        self.num_components = 0\n        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)\n", "        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)\n"))
E('c24-l6', 'C24', ("        self.num_components = 0\n        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)\n", "        self.num_components = 0\n        for n in self.get_node_list():\n            if n not in self.neighbors[n]:\n                self.get_node(n).set_attr('component', None)\n"))
E('c24-e2', 'C24', ("                    self.process_edge_search(current, n, pred, q, component,\n                                             algo, reverse = reverse, **kargs)\n", "                    self.process_edge_search(current, n, pred, q, None,\n                                             algo, reverse = reverse, **kargs)\n"))
E('c24-e3', 'C24', ("                if self.get_node(i).get_attr('component') is None:\n                    disc_count, finish_count = Graph.dfs(self, i, disc_count,\n                                                         finish_count,\n                                                         topological_order,\n                                                         component, transpose,\n", "                if self.get_node(i).get_attr('component') is None:\n                    disc_count, finish_count = Graph.dfs(self, i, disc_count,\n                                                         finish_count,\n                                                         topological_order,\n                                                         disc_count, transpose,\n"))
E('c24-keep1', '', (SC_TREE, "            if self.get_node_attr(m, 'index') is None:\n                index, component = self.strong_connect(q, m, index, component)\n                reach = self.get_node_attr(m, 'lowlink')\n            elif m in q:\n                reach = self.get_node_attr(m, 'index')\n            else:\n                continue\n            if reach < self.get_node_attr(node, 'lowlink'):\n                self.set_node_attr(node, 'lowlink', reach)\n"))
E('c24-keep2', '', (SC_POP, "            while True:\n                m = q.pop()\n                self.set_node_attr(m, 'component', component)\n                if m == node:\n                    break\n"))
E('c24-keep3', '', (SC_CLOSE + SC_POP + "            component += 1\n            self.num_components = component\n\n        return (index, component)", "        if self.get_node_attr(node, 'lowlink') != self.get_node_attr(node, 'index'):\n            return index, component\n        self._close(q, node, component)\n        self.num_components = component + 1\n        return index, component + 1\n\n    def _close(self, q, node, component):\n        m = None\n        while m is None or m != node:\n            m = q.pop()\n            self.get_node(m).set_attr('component', component)\n"))
E('c24-keep4', '', (SC_TREE, "            mm = self.get_node(m)\n            if mm.get_attr('index') is None:\n                (index, component) = self.strong_connect(q, m, index=index, component=component)\n                self.get_node(node).set_attr('lowlink', min(self.get_node(node).get_attr('lowlink'), mm.get_attr('lowlink')))\n            elif m in q:\n                self.get_node(node).set_attr('lowlink', min(mm.get_attr('index'), self.get_node(node).get_attr('lowlink')))\n"))
E('c24-keep5', '', ("            if self.get_node(n).get_attr('component') == None:\n                self.search(n, display=display,\n                            component=self.num_components, algo='DFS')\n                self.num_components += 1\n", "            if self.get_node(n).get_attr('component') is not None:\n                continue\n            number = self.num_components\n            self.num_components = number + 1\n            self.search(n, display=display, component=number, algo='DFS')\n"))
E('c24-keep6', '', ("        for n in self.get_node_list():\n            if self.get_node(n).get_attr('component') == None:\n                self.search(n, display=display,\n                            component=self.num_components, algo='DFS')\n                self.num_components += 1\n", "        found = 0\n        for n in self.get_node_list():\n            if self.get_node(n).get_attr('component') == None:\n                self.search(n, display=display,\n                            component=found, algo='DFS')\n                found += 1\n        self.num_components = found\n"))
E('c24-keep7', '', ("        self.set_node_attr(node, 'index', index)\n        self.set_node_attr(node, 'lowlink', index)\n        index += 1\n        q.append(node)\n", "        q.append(node)\n        for key in ('index', 'lowlink'):\n            self.set_node_attr(node, key, index)\n        index = index + 1\n"), (SC_POP, "            popped = q.pop()\n            while popped != node:\n                self.set_node_attr(popped, 'component', component)\n                popped = q.pop()\n            self.set_node_attr(node, 'component', component)\n"))
E('c24-keep8', '', (SC_CLOSE + SC_POP, SC_CLOSE + "            k = q.index(node)\n            for m in q[k:]:\n                self.set_node_attr(m, 'component', component)\n            del q[k:]\n"))
E('c24-e1', 'C24', ("        pred[neighbor] = current\n        neighbor_node.set_attr('color', 'red')\n        if component != None:\n            neighbor_node.set_attr('component', component)\n", "        pred[neighbor] = current\n        neighbor_node.set_attr('color', 'red')\n        if component != None:\n"))
E('c24-e4', 'C24', ("        pred[neighbor] = current\n        neighbor_node.set_attr('color', 'red')\n        if component != None:\n            neighbor_node.set_attr('component', component)\n", "        pred[neighbor] = current\n        neighbor_node.set_attr('color', 'red')\n        if component:\n            neighbor_node.set_attr('component', component)\n"))

# ---- C22
E('c22-s1', 'C22', ("            q.remove(current)\n            self.get_node(current).set_attr('color', 'green')\n            self.display()\n        if found:", "            self.get_node(current).set_attr('color', 'green')\n            self.display()\n        if found:"), ("            if self.get_node(current).get_attr('color') == 'green':\n                q.remove(current)\n                continue\n", ""))
E('c22-s2', 'C22', ("                if n != current and self.get_node(n).get_attr('color') != 'green':\n                    if reverse:", "                if n != current and self.get_node(n).get_attr('color') == 'black':\n                    if reverse:"))
E('c22-s3', 'C22', ("            q.remove(current)\n            self.get_node(current).set_attr('color', 'green')\n            self.display()\n        if found:", "            q.remove(current)\n            self.display()\n        if found:"))
E('c22-s4', 'C22', ("            if current == destination:\n                found = True\n                break\n            self.display()\n            for n", "            if current == destination or not neighbors[current]:\n                found = current == destination\n                break\n            self.display()\n            for n"))
E('c22-s5', 'C22', ("        if self.graph_type == DIRECTED_GRAPH and reverse:\n            neighbors = self.in_neighbors\n        for i in", "        if self.graph_type == DIRECTED_GRAPH and reverse and destination is None:\n            neighbors = self.in_neighbors\n        for i in"))
E('c22-s6', 'C22', ("                if n != current and self.get_node(n).get_attr('color') != 'green':\n                    if reverse:", "                if n != source and n != current and self.get_node(n).get_attr('color') != 'green':\n                    if destination is not None and n != destination and not neighbors[n]:\n                        continue\n                    if reverse:"))
E('c22-s7', 'C22', ("            if self.get_node(current).get_attr('color') == 'green':\n                q.remove(current)\n                continue\n", "            if self.get_node(current).get_attr('color') == 'green':\n                continue\n"))
E('c22-s8', 'C22', ("            if self.get_node(current).get_attr('color') == 'green':\n                q.remove(current)\n                continue\n", "            if self.get_node(current).get_attr('color') != 'red':\n                q.remove(current)\n                continue\n"))
E('c22-pe1', 'C22', ("        if neighbor not in pred or new_estimate < q.get_priority(neighbor):\n", "        if neighbor not in pred and new_estimate < q.get_priority(neighbor):\n"))
E('c22-p1', 'C22', ("                if n != current and self.get_node_attr(n, 'color') != 'green':\n                    self.set_edge_attr(current, n, 'color', 'yellow')", "                if n != current and self.get_node_attr(n, 'color') == 'black':\n                    self.set_edge_attr(current, n, 'color', 'yellow')"))
E('c22-p2', 'C22', ("            for n in neighbors(current):\n                # a self-loop", "            for n in neighbors(current)[1:]:\n                # a self-loop"))
E('c22-t1', 'C22', 'tree.py', ("            for n in self.get_children(current):\n                addToQ(n)\n\n\nclass BinaryTree", "            for n in self.get_children(current):\n                addToQ(n)\n                if n == self.root.name:\n                    break\n\n\nclass BinaryTree"))
E('c22-t2', 'C22', 'tree.py', ("            n = second_child(current)\n            if n is not None:\n                addToQ(n)\n", "            else:\n                continue\n            n = second_child(current)\n            if n is not None:\n                addToQ(n)\n"))
E('c22-t3', 'C22', 'tree.py', ("            n = second_child(current)\n            if n is not None:\n                addToQ(n)\n", "            n = second_child(current)\n            if n:\n                addToQ(n)\n"))
E('c22-ss1', 'C22', ("            neighbors = self.in_neighbors[current] + self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n", "            neighbors = self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n"))
E('c22-ss2', 'C22', ("                if n in pred:\n                    continue\n", "                if n in pred:\n                    break\n"))
E('c22-sr1', 'C22', ("            neighbors = self.neighbors[name] + self.in_neighbors[name]\n            for n in neighbors:\n                if n not in new", "            neighbors = self.neighbors[name]\n            for n in neighbors:\n                if n not in new"))
E('c22-f1', 'C22', ("                    if j not in q:\n                        q.append(j)\n", "                        q.append(j)\n"))
E('c22-f2', 'C22', ("            q = q[1:]\n            for j in self.neighbors[i]:", "            for j in self.neighbors[i]:"))
E('c22-m1', 'C22', ("                    if m in explored:\n                        continue\n                    self.get_node(m)", "                    if m in explored:\n                        break\n                    self.get_node(m)"))
E('c22-m2', 'C22', ("                neighbor = out_neighbor+in_neighbor\n", "                neighbor = out_neighbor\n"))
E('c22-m3', 'C22', ("                        explored.append(m)\n                        pred[m] = current\n", "                        pred[m] = current\n"))
E('c22-m4', 'C22', ("                    if available_capacity > 0:\n                        self.get_node(m)", "                    if available_capacity > 1:\n                        self.get_node(m)"))
E('c22-m5', 'C22', ("                q.remove(current)\n                if current == sink:\n                    break\n", "                q.remove(current)\n                if current == sink or sink in self.neighbors[current]:\n                    break\n"))
E('c22-d1', 'C22', ("                if self.get_node(i).get_attr('disc_time') is None:\n                    pred[i] = root\n", "                if not self.get_node(i).get_attr('disc_time') and i not in pred:\n                    pred[i] = root\n"))
E('c22-d2', 'C22', ("        if self.graph_type == DIRECTED_GRAPH and transpose:\n", "        if self.graph_type == DIRECTED_GRAPH and transpose and component:\n"))
E('c22-d3', 'C22', ("            neighbor_list.reverse()\n        else:", "            neighbor_list.reverse()\n            neighbor_list = neighbor_list[:-1]\n        else:"))
E('c22-pf1', 'C22', ("                if self.get_node_attr(current, 'excess') > 0:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)", "                if self.get_node_attr(current, 'excess') > 1:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)"))
E('c22-pf2', 'C22', ("                if self.get_node_attr(current, 'excess') > 0:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)", "                if self.get_node_attr(current, 'excess') > 0 and relabel:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)"))
E('c22-pf3', 'C22', ("            q.remove(current)\n            if current != sink:\n                if relabel:", "            if current != sink:\n                q.remove(current)\n                if relabel:"))
E('c22-fc1', 'C22', ("                    if n==pred[current]:\n                        continue\n", "                    if n==pred[current]:\n                        break\n"))
E('c22-keep1', '', ("        while not q.isEmpty() and not found:\n            current = q.peek()\n            if self.get_node(current).get_attr('color') == 'green':\n                q.remove(current)\n                continue\n", "        while True:\n            if found or q.isEmpty():\n                break\n            current = q.peek()\n            if self.get_node_attr(current, 'color') == 'green':\n                q.remove(current)\n                continue\n"))
E('c22-keep2', '', ("                if n != current and self.get_node(n).get_attr('color') != 'green':\n                    if reverse:\n                        self.set_edge_attr(n, current, 'color', 'yellow')", "                if n == current:\n                    continue\n                if self.get_node(n).get_attr('color') in ('green',):\n                    continue\n                if True:\n                    if reverse:\n                        self.set_edge_attr(n, current, 'color', 'yellow')"))
E('c22-keep3', '', ("            q.remove(current)\n            self.get_node(current).set_attr('color', 'green')\n            self.display()\n        if found:", "            self._finish(q, current)\n            self.display()\n        if found:"), ("    def process_node_search(self, node, q, **kwargs):\n", "    def _finish(self, q, node):\n        q.remove(node)\n        self.set_node_attr(node, 'color', 'green')\n\n    def process_node_search(self, node, q, **kwargs):\n"))
E('c22-keep4', '', ("            neighbors = self.in_neighbors[current] + self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n                self.get_node(n).set_attr('component', component_nr)\n                pred[n] = current\n                depth[n] = depth[current]+1\n                q.append(n)\n", "            for n in self.in_neighbors[current] + self.neighbors[current]:\n                if n not in pred:\n                    pred[n] = current\n                    depth[n] = 1 + depth[current]\n                    self.get_node(n).set_attr('component', component_nr)\n                    q.append(n)\n"))
E('c22-keep5', '', ("            neighbors = self.in_neighbors[current] + self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n                self.get_node(n).set_attr('component', component_nr)\n                pred[n] = current\n                depth[n] = depth[current]+1\n                q.append(n)\n", "            for near in (self.in_neighbors[current], self.neighbors[current]):\n                fresh = [n for n in near if n not in pred]\n                for n in fresh:\n                    self.get_node(n).set_attr('component', component_nr)\n                    pred[n] = current\n                    depth[n] = depth[current]+1\n                    q.append(n)\n"))
E('c22-keep6', '', 'tree.py', ("            for n in self.get_children(current):\n                addToQ(n)\n\n\nclass BinaryTree", "            children = self.get_children(current)\n            for k in range(len(children)):\n                addToQ(children[k])\n\n\nclass BinaryTree"))
E('c22-keep7', '', 'tree.py', ("            n = first_child(current)\n            if n is not None:\n                addToQ(n)\n            n = second_child(current)\n            if n is not None:\n                addToQ(n)\n", "            for child in (first_child, second_child):\n                n = child(current)\n                if n is not None:\n                    addToQ(n)\n"))
E('c22-keep8', '', ("            i = q[0]\n            q = q[1:]\n", "            i = q.pop(0)\n"))
E('c22-keep9', '', ("            while not q.isEmpty():\n                current = q.peek()\n                q.remove(current)\n                if current == sink:\n                    break\n", "            while not q.isEmpty():\n                current = q.pop() if algo == 'DFS' else q.dequeue()\n                if current == sink:\n                    break\n"))
E('c22-keep10', '', ("                    if available_capacity > 0:\n                        self.get_node(m)", "                    if not available_capacity <= 0:\n                        self.get_node(m)"), ("                        available_capacity = (\n                            self.get_edge_attr(current, m, 'capacity')-\n                            self.get_edge_attr(current, m, 'flow'))\n", "                        arc = self.edge_attr[(current, m)]\n                        available_capacity = arc['capacity'] - arc['flow']\n"))
E('c22-keep11', '', ("        for i in neighbor_list:\n            if not transpose:\n                if self.get_node(i).get_attr('disc_time') is None:\n", "        for i in neighbor_list:\n            if not transpose:\n                seen = self.get_node_attr(i, 'disc_time') is not None\n                if not seen:\n"))
E('c22-keep12', '', ("                if self.get_node_attr(current, 'excess') > 0:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)", "                left = self.get_node_attr(current, 'excess')\n                if not left <= 0:\n                    if algo == 'FIFO' or algo == 'SAP':\n                        q.push(current)"))
E('c22-keep13', '', ("        while not isEmpty() and not done:\n            current = removeFromQ()\n", "        while not done:\n            if isEmpty():\n                break\n            current = removeFromQ()\n"))
E('c22-keep14', '', ("            for n in neighbors(current):\n                # a self-loop leads to no new node\n                if n != current and self.get_node_attr(n, 'color') != 'green':\n                    self.set_edge_attr(current, n, 'color', 'yellow')", "            for n in neighbors(current):\n                if not (n == current or self.get_node_attr(n, 'color') == 'green'):\n                    self.set_edge_attr(current, n, 'color', 'yellow')"))

A1 = "            if (i,j) in self.edge_attr:\n                flow_ij = self.edge_attr[(i,j)]['flow']\n                self.edge_attr[(i,j)]['flow'] = flow_ij+amount\n            else:\n                flow_ji = self.edge_attr[(j,i)]['flow']\n                self.edge_attr[(j,i)]['flow'] = flow_ji-amount\n            index += 1\n"
A2 = "        i = cycle[k-1]\n        j = cycle[0]\n        if (i,j) in self.edge_attr:\n            flow_ij = self.edge_attr[(i,j)]['flow']\n            self.edge_attr[(i,j)]['flow'] = flow_ij+amount\n        else:\n            flow_ji = self.edge_attr[(j,i)]['flow']\n            self.edge_attr[(j,i)]['flow'] = flow_ji-amount\n"
A0 = "        index = 0\n        k = len(cycle)\n        while index<(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n" + A1
E('c15-a1', 'C15', (A1, A1.replace('flow_ji-amount', 'flow_ji+amount')))
E('c15-a2', 'C15', (A2, A2.replace('flow_ji-amount', 'flow_ji+amount')))
E('c15-a3', 'C15', (A2, A2.replace('i = cycle[k-1]\n        j = cycle[0]', 'i = cycle[0]\n        j = cycle[k-1]')))
E('c15-a4', 'C15', (A2, ''))
E('c15-a5', 'C15', ('while index<(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n            if (i,j) in self.edge_attr:\n                flow_ij', 'while index<(k-2):\n            i = cycle[index]\n            j = cycle[index+1]\n            if (i,j) in self.edge_attr:\n                flow_ij'))
E('c15-a6', 'C15', (A1, A1.replace('            else:\n', '            elif self.edge_attr[(j,i)][\'flow\'] > amount:\n')))
E('c15-a7', 'C15', (A1, A1.replace("(i,j) in self.edge_attr", "(i,j) in self.edge_attr and (j,i) not in self.edge_attr")))
E('c15-a10', 'C15', (A1, A1.replace("self.edge_attr[(j,i)]['flow'] = flow_ji-amount", "amount = min(amount, flow_ji)\n                self.edge_attr[(j,i)]['flow'] = flow_ji-amount")))
E('c15-s1', 'C15', ("            if (cycle[index], cycle[index+1]) in tel:\n                flow_e = self", "            if (cycle[index+1], cycle[index]) in tel:\n                flow_e = self"))
E('c15-s2', 'C15', ("                    flow_e-min_capacity\n            index += 1", "                    flow_e+min_capacity\n            index += 1"))
E('c15-s3', 'C15', ("                flow_e-min_capacity\n        # remove", "                flow_e\n        # remove"))
E('c15-s4', 'C15', ("        n = len(cycle)\n        tel = list(t.edge_attr.keys())\n        index = 0\n        while index < (n-1):", "        n = len(cycle)\n        tel = list(t.edge_attr.keys())\n        index = 1\n        while index < (n-1):"))
E('c15-m1', 'C15', ("                    new_flow = flow-min_capacity\n", "                    new_flow = flow+min_capacity\n"))
E('c15-m2', 'C15', ("            # update flows on the path\n            current = sink\n            while True:\n                m = pred[current]\n", "            # update flows on the path\n            current = sink\n            while True:\n                m = pred[current]\n                if m == source:\n                    break\n"))
E('c15-m3', 'C15', ("                    new_flow = flow-min_capacity\n                    self.edge_attr[(current, m)]['flow'] = new_flow\n", "                    new_flow = flow-min_capacity\n                    if new_flow > 0:\n                        self.edge_attr[(current, m)]['flow'] = new_flow\n"))
E('c15-m4', 'C15', ("                    new_flow = flow-min_capacity\n                    self.edge_attr[(current, m)]['flow'] = new_flow\n", "                    min_capacity = min(min_capacity, flow)\n                    new_flow = flow-min_capacity\n                    self.edge_attr[(current, m)]['flow'] = new_flow\n"))
E('c15-keep11', '', ("                    new_flow = flow+min_capacity\n                    self.edge_attr[(m, current)]['flow'] = new_flow\n", "                    new_flow = min(flow+min_capacity, capacity)\n                    self.edge_attr[(m, current)]['flow'] = new_flow\n"))
E('c15-p1', 'C15', ("        self.set_node_attr(j, 'excess', excess_j + push_amount)\n", "        self.set_node_attr(j, 'excess', excess_j + residual_capacity)\n"))
E('c15-p2', 'C15', ("        self.set_node_attr(i, 'excess', excess_i - push_amount)\n", "        self.set_node_attr(i, 'excess', 0)\n"))
E('c15-p3', 'C15', ("mult*(flow + push_amount)", "mult*flow + push_amount"))
E('c15-p4', 'C15', ("        self.set_node_attr(j, 'excess', excess_j + push_amount)\n", "        if j != sink:\n            self.set_node_attr(j, 'excess', excess_j + push_amount)\n"))
E('c15-p5', 'C15', ("        self.set_node_attr(j, 'excess', excess_j + push_amount)\n", "        self.set_node_attr(j, 'excess', excess_i + push_amount)\n"))
E('c15-f1', 'C15', ("            self.set_node_attr(source, 'excess', excess - capacity)\n            if algo", "            self.set_node_attr(source, 'excess', excess + capacity)\n            if algo"))
E('c15-f2', 'C15', ("            self.set_node_attr(source, 'excess', excess - capacity)\n            if algo", "            self.set_node_attr(source, 'excess', -capacity)\n            if algo"))
E('c15-f3', 'C15', ("            self.set_node_attr(n, 'excess', capacity)\n            excess = self", "            self.set_node_attr(n, 'excess', 1)\n            excess = self"))
E('c15-h2', 'C15', ("        ncycle = residual_g.get_negative_cycle()\n        # loop", "        ncycle = last = residual_g.get_negative_cycle()\n        # loop"), ("            self.augment_cycle(cap, ncycle)\n", "            self.augment_cycle(cap, last)\n            last = ncycle\n"))
E('c15-keep1', '', (A0 + '        # k' if False else A0, "        k = len(cycle)\n        for index in range(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n" + A1.replace("            index += 1\n", "")))
E('c15-keep2', '', (A0, "        k = len(cycle)\n        for index in range(k):\n            self._shift(cycle[index], cycle[(index+1) % k], amount)\n"), (A2 + "\n    @restores_display", "\n    def _shift(self, i, j, amount):\n        if (i,j) in self.edge_attr:\n            self.edge_attr[(i,j)]['flow'] += amount\n        else:\n            self.edge_attr[(j,i)]['flow'] -= amount\n\n    @restores_display"))
E('c15-keep3', '', (A0, "        for index in range(len(cycle)):\n            i = cycle[index-1]\n            j = cycle[index]\n" + A1.replace("            index += 1\n", "")), (A2, ""))
E('c15-keep4', '', (A0, "        for i, j in zip(cycle, cycle[1:] + cycle[:1]):\n" + A1.replace("            index += 1\n", "")), (A2, ""))
E('c15-keep5', '', (A1, A1.replace("            if (i,j) in self.edge_attr:\n", "            forward = (i,j) in self.edge_attr\n            if amount == 0:\n                pass\n            elif forward:\n")))
E('c15-keep6', '', ("                    new_flow = flow-min_capacity\n                    self.edge_attr[(current, m)]['flow'] = new_flow\n", "                    new_flow = -min_capacity + flow\n                    self.set_edge_attr(current, m, 'flow', new_flow)\n"))
E('c15-keep7', '', ("        self.edge_attr[edge]['flow'] = mult*(flow + push_amount)\n        self.set_node_attr(i, 'excess', excess_i - push_amount)\n        self.set_node_attr(j, 'excess', excess_j + push_amount)\n", "        self.set_node_attr(j, 'excess', push_amount + excess_j)\n        self.node_attr_add = None\n        self.get_node(i).set_attr('excess', excess_i - push_amount)\n        if mult > 0:\n            self.edge_attr[edge]['flow'] += push_amount\n        else:\n            self.edge_attr[edge]['flow'] -= push_amount\n"))
E('c15-keep8', '', ("            self.set_edge_attr(source, n, 'flow', capacity)\n            self.set_node_attr(n, 'excess', capacity)\n            excess = self.get_node_attr(source, 'excess')\n            self.set_node_attr(source, 'excess', excess - capacity)\n", "            self.set_node_attr(source, 'excess', self.get_node_attr(source, 'excess') - capacity)\n            self.set_node_attr(n, 'excess', self.get_node_attr(n, 'excess') + capacity)\n            self.edge_attr[(source, n)]['flow'] = capacity\n"))
E('c15-keep9', '', ("            if (cycle[index], cycle[index+1]) in tel:\n                flow_e = self", "            if t.check_edge(cycle[index], cycle[index+1]) if False else (cycle[index], cycle[index+1]) in t.edge_attr:\n                flow_e = self"))
E('c15-keep10', '', ("                if m == source:\n                    break\n                current = m\n            # update flows on the path\n            current = sink\n            while True:\n                m = pred[current]\n", "                if m == source:\n                    break\n                current = m\n            # update flows on the path\n            m = sink\n            while m != source:\n                current = m\n                m = pred[current]\n"), ("                        self.edge_attr[(current, m)]['color'] = 'green'\n                    self.display()\n                if m == source:\n                    break\n                current = m\n", "                        self.edge_attr[(current, m)]['color'] = 'green'\n                    self.display()\n"))

# C16
B1 = "                    if min_capacity == 'infinite':\n                        min_capacity = potential\n                    elif min_capacity > potential:\n                        min_capacity = potential\n"
BF = "                    potential = arc_capacity-flow\n" + B1
BB = "                    potential = self.edge_attr[(current, m)]['flow']\n" + B1
E('c16-b1', 'C16', (BF, BF.replace('arc_capacity-flow', 'arc_capacity')))
E('c16-b2', 'C16', (BB, BB.replace("elif min_capacity > potential", "elif min_capacity < potential")))
E('c16-b3', 'C16', (BB, BB.replace("['flow']", "['capacity']")))
E('c16-b4', 'C16', (BB, "                    pass\n"))
E('c16-b5', 'C16', ("                if m == source:\n                    break\n                current = m\n            # update", "                current = m\n                if pred.get(m) == source:\n                    break\n            # update"))
E('c16-b6', 'C16', ("            min_capacity = 'infinite'\n            while True:\n                m = pred[current]\n", "            min_capacity = 'infinite'\n            while True:\n                m = pred[current]\n                if m == source and min_capacity != 'infinite':\n                    break\n"))
E('c16-b7', 'C16', (BF, BF.replace("                    elif min_capacity > potential:\n                        min_capacity = potential\n", "                    elif min_capacity > arc_capacity:\n                        min_capacity = potential\n")))
E('c16-i1', 'C16', ("        for e in self.edge_attr:\n            self.edge_attr[e]['flow'] = 0\n", "        for e in self.edge_attr:\n            self.edge_attr[e]['flow'] = self.edge_attr[e].get('lower', 0)\n", 0))
E('c16-fc1', 'C16', ("            if capacity > capacity_ij:\n", "            if capacity > capacity_ij + 1:\n"))
E('c16-fc2', 'C16', ("        capacity = self.get_edge_attr(cycle[k-1], cycle[0], 'capacity')\n", "        capacity = self.get_edge_attr(cycle[0], cycle[1], 'capacity')\n"))
E('c16-fc3', 'C16', ("        while index<(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n            capacity_ij", "        while index<(k-2):\n            i = cycle[index]\n            j = cycle[index+1]\n            capacity_ij"))
E('c16-fc4', 'C16', ("            if capacity > capacity_ij:\n                capacity = capacity_ij\n            index += 1\n", "            if capacity > capacity_ij:\n                capacity = capacity_ij\n            index += 2\n"))
E('c16-l1', 'C16', ("                if min_capacity >= (capacity-flow):\n                    candidate = (cycle[index], cycle[index+1])\n                    min_capacity = capacity-flow\n", "                if min_capacity >= capacity:\n                    candidate = (cycle[index], cycle[index+1])\n                    min_capacity = capacity-flow\n"))
E('c16-l2', 'C16', ("                if min_capacity >= flow:\n                    candidate = (cycle[index+1], cycle[index])\n                    min_capacity = flow\n", "                if 0 < flow <= min_capacity:\n                    candidate = (cycle[index+1], cycle[index])\n                    min_capacity = flow\n"))
E('c16-l3', 'C16', ("            flow = self.edge_attr[(cycle[0], cycle[n-1])]['flow']\n            if min_capacity >= flow:\n                candidate = (cycle[0], cycle[n-1])\n                min_capacity = flow\n        return", "            candidate = candidate\n        return"))
E('c16-l4', 'C16', ("        # determine last blocking arc\n        t.add_edge(k, l)\n        tel = t.get_edge_list()\n        while index < (n-1):", "        # determine last blocking arc\n        t.add_edge(k, l)\n        tel = t.get_edge_list()\n        index = 1\n        while index < (n-1):"))
E('c16-l5', 'C16', ("            if min_capacity >= (capacity-flow):\n                candidate = (cycle[n-1], cycle[0])\n                min_capacity = capacity-flow\n", "            if min_capacity >= (capacity-flow):\n                candidate = (cycle[n-1], cycle[0])\n                min_capacity = capacity\n"))
E('c16-p1', 'C16', ("push_amount = min(excess_i, residual_capacity)", "push_amount = excess_i"))
E('c16-p2', 'C16', ("push_amount = min(excess_i, residual_capacity)", "push_amount = max(excess_i, residual_capacity)"))
E('c16-p3', 'C16', ("            edge = (j, i)\n            capacity = 0\n            mult = -1\n", "            edge = (j, i)\n            capacity = self.get_edge_attr(j, i, 'capacity')\n            mult = -1\n"))
E('c16-r1', 'C16', ("            if flow_e > 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,", "            if flow_e >= 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,"))
E('c16-r2', 'C16', ("residual_g.add_edge(e[1], e[0], cost=-1*cost_e,", "residual_g.add_edge(e[1], e[0], cost=cost_e,"))
E('c16-r3', 'C16', ("                                    capacity=flow_e)\n", "                                    capacity=capacity_e)\n"))
E('c16-r4', 'C16', ("                                    capacity=capacity_e-flow_e)\n", "                                    capacity=capacity_e)\n"))
E('c16-r5', 'C16', ("            if capacity_e - flow_e > 0:\n                residual_g", "            elif capacity_e - flow_e > 0:\n                residual_g"))
E('c16-r6', 'C16', ("            if capacity_e - flow_e > 0:\n                residual_g", "            if capacity_e - flow_e > 1:\n                residual_g"))
E('c16-r7', 'C16', ("            if flow_e > 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,", "            if flow_e > 0 and cost_e > 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,"))
E('c16-cc1', 'C16', ("            # create residual graph\n            residual_g = self.create_residual_graph()\n            # identify", "            # identify"))
E('c16-cc2', 'C16', ("            # augment capacity amount along the cycle\n            self.augment_cycle(cap, ncycle)\n            # create residual graph\n            residual_g = self.create_residual_graph()\n", "            # create residual graph\n            residual_g = self.create_residual_graph()\n            self.augment_cycle(cap, ncycle)\n"))
E('c16-s1', 'C16', ("            self.set_edge_attr(source, n, 'flow', capacity)\n", "            self.set_edge_attr(source, n, 'flow', capacity + 1)\n"))
E('c16-keep1', '', (BF, "                    potential = arc_capacity-flow\n                    if min_capacity == 'infinite' or not min_capacity <= potential:\n                        min_capacity = potential\n"), (BB, "                    potential = self.edge_attr[(current, m)]['flow']\n                    if min_capacity == 'infinite' or potential < min_capacity:\n                        min_capacity = potential\n"))
E('c16-keep2', '', ("            min_capacity = 'infinite'\n", "            min_capacity = None\n"), (BF, "                    potential = arc_capacity-flow\n                    min_capacity = potential if min_capacity is None else min(min_capacity, potential)\n"), (BB, "                    potential = self.edge_attr[(current, m)]['flow']\n                    min_capacity = potential if min_capacity is None else min(min_capacity, potential)\n"))
E('c16-keep3', '', (BF, "                    potential = arc_capacity-flow\n"), (BB, "                    potential = self.edge_attr[(current, m)]['flow']\n                if min_capacity == 'infinite' or min_capacity > potential:\n                    min_capacity = potential\n"))
E('c16-keep4', '', ("        index = 0\n        k = len(cycle)\n        capacity = self.get_edge_attr(cycle[k-1], cycle[0], 'capacity')\n        while index<(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n            capacity_ij = self.get_edge_attr(i, j, 'capacity')\n            if capacity > capacity_ij:\n                capacity = capacity_ij\n            index += 1\n        return capacity\n", "        return min(self.get_edge_attr(cycle[i-1], cycle[i], 'capacity') for i in range(len(cycle)))\n"))
E('c16-keep5', '', ("        index = 0\n        k = len(cycle)\n        capacity = self.get_edge_attr(cycle[k-1], cycle[0], 'capacity')\n        while index<(k-1):\n            i = cycle[index]\n            j = cycle[index+1]\n            capacity_ij = self.get_edge_attr(i, j, 'capacity')\n            if capacity > capacity_ij:\n                capacity = capacity_ij\n            index += 1\n        return capacity\n", "        capacity = None\n        for k in range(len(cycle)):\n            room = self.edge_attr[(cycle[k-1], cycle[k])]['capacity']\n            if capacity is None or room < capacity:\n                capacity = room\n        return capacity\n"))
E('c16-keep6', '', ("                if min_capacity >= (capacity-flow):\n                    candidate = (cycle[index], cycle[index+1])\n                    min_capacity = capacity-flow\n", "                left = capacity-flow\n                if left <= min_capacity:\n                    candidate = (cycle[index], cycle[index+1])\n                    min_capacity = left\n"), ("        index = 0\n        # determine last blocking arc\n        t.add_edge(k, l)\n        tel = t.get_edge_list()\n        while index < (n-1):", "        # determine last blocking arc\n        t.add_edge(k, l)\n        tel = t.get_edge_list()\n        for index in range(n-1):"), ("                    candidate = (cycle[index+1], cycle[index])\n                    min_capacity = flow\n            index += 1\n", "                    candidate = (cycle[index+1], cycle[index])\n                    min_capacity = flow\n"))
E('c16-keep7', '', ("push_amount = min(excess_i, residual_capacity)", "push_amount = excess_i if excess_i < residual_capacity else residual_capacity"))
E('c16-keep8', '', ("            edge = (j, i)\n            capacity = 0\n            mult = -1\n        flow = mult*self.edge_attr[edge]['flow']\n        residual_capacity = capacity - flow\n", "            edge = (j, i)\n            mult = -1\n        flow = mult*self.edge_attr[edge]['flow']\n        if mult > 0:\n            residual_capacity = capacity - flow\n        else:\n            residual_capacity = self.edge_attr[edge]['flow']\n"))
E('c16-keep9', '', ("        for e in self.get_edge_list():\n            capacity_e = self.get_edge_attr(e[0], e[1], 'capacity')\n            flow_e = self.get_edge_attr(e[0], e[1], 'flow')\n            cost_e = self.get_edge_attr(e[0], e[1], 'cost')\n", "        for i, j in self.edge_attr:\n            e = (i, j)\n            attr = self.edge_attr[e]\n            capacity_e = attr['capacity']\n            flow_e = attr['flow']\n            cost_e = attr['cost']\n"))
E('c16-keep10', '', ("            if flow_e > 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,\n                                    capacity=flow_e)\n            if capacity_e - flow_e > 0:\n                residual_g.add_edge(e[0], e[1], cost=cost_e,\n                                    capacity=capacity_e-flow_e)\n", "            left = capacity_e - flow_e\n            if left > 0:\n                residual_g.add_edge(e[0], e[1], capacity=left, cost=cost_e)\n            if not flow_e <= 0:\n                residual_g.add_edge(name1=e[1], name2=e[0], capacity=flow_e, cost=-cost_e)\n"))
E('c16-keep11', '', ("        ncycle = residual_g.get_negative_cycle()\n        # loop while residual graph has a negative cycle\n        while ncycle is not None:\n", "        while True:\n            ncycle = residual_g.get_negative_cycle()\n            if ncycle is None:\n                break\n"), ("            residual_g = self.create_residual_graph()\n            # identify next negative cycle\n            ncycle = residual_g.get_negative_cycle()\n", "            residual_g = self.create_residual_graph()\n"))
E('c16-keep12', '', ("            if flow_e > 0:\n                residual_g.add_edge(e[1], e[0], cost=-1*cost_e,\n                                    capacity=flow_e)\n            if capacity_e - flow_e > 0:\n                residual_g.add_edge(e[0], e[1], cost=cost_e,\n                                    capacity=capacity_e-flow_e)\n", "            for i, j, cost, cap in ((e[1], e[0], -cost_e, flow_e), (e[0], e[1], cost_e, capacity_e - flow_e)):\n                if cap > 0:\n                    residual_g.add_edge(i, j, cost=cost, capacity=cap)\n"))
E('c16-keep13', '', ("            min_capacity = 'infinite'\n            while True:\n                m = pred[current]\n", "            min_capacity = 'infinite'\n            while current != source:\n                m = pred[current]\n"), ("                if m == source:\n                    break\n                current = m\n            # update", "                current = m\n            # update"))

# C25
O1 = "            if flow_ij==0:\n                if cpi_ij < 0:\n                    return False\n            elif flow_ij==capacity_ij:\n                if cpi_ij > 0:\n                    return False\n"
D1 = "                if flow_ij==0:\n                    if cpi_ij < 0:\n                        candidate[e] = cpi_ij\n                elif flow_ij==capacity_ij:\n                    if cpi_ij > 0:\n                        candidate[e] = cpi_ij\n"
F1 = "                if flow_ij==0:\n                    if cpi_ij < 0:\n                        max_c = e\n                        max_v = abs(cpi_ij)\n                elif flow_ij==capacity_ij:\n                    if cpi_ij > 0:\n                        max_c = e\n                        max_v = cpi_ij\n"
RC = "                cpi_ij = c_ij - potential_i + potential_j\n"
RO = "            cpi_ij = c_ij - potential_i + potential_j\n            if flow_ij==0:\n                if cpi_ij < 0:\n                    return False\n"
E('c25-o1', 'C25', (O1, O1.replace('cpi_ij < 0', 'cpi_ij <= 0')))
E('c25-o2', 'C25', (O1, O1.replace('            elif flow_ij==capacity_ij:\n                if cpi_ij > 0:\n                    return False\n', '')))
E('c25-o3', 'C25', (O1, O1.replace('flow_ij==0', 'flow_ij<capacity_ij')))
E('c25-o4', 'C25', (RO, RO.replace('c_ij - potential_i + potential_j', 'c_ij + potential_i - potential_j')))
E('c25-o5', 'C25', ("        for e in self.edge_attr:\n            if e in t.edge_attr:\n                continue\n            flow_ij", "        for e in self.edge_attr:\n            if e in t.edge_attr:\n                break\n            flow_ij"))
E('c25-o6', 'C25', (O1, O1.replace('cpi_ij < 0', 'cpi_ij < -1')))
E('c25-o7', 'C25', (O1, "            if flow_ij==capacity_ij:\n                if cpi_ij > 0:\n                    return False\n            elif flow_ij==0:\n                if cpi_ij < 0:\n                    return False\n"))
E('c25-o8', 'C25', ("        for e in self.edge_attr:\n            if e in t.edge_attr:\n                continue\n            flow_ij = self.edge_attr[e]['flow']\n            pot", "        for e in self.edge_attr:\n            if e in t.edge_attr or (e[1], e[0]) in t.edge_attr:\n                continue\n            flow_ij = self.edge_attr[e]['flow']\n            pot"))
E('c25-d1', 'C25', (D1, D1.replace('cpi_ij > 0', 'cpi_ij >= 0')))
E('c25-d2', 'C25', (D1, D1.replace('elif flow_ij==capacity_ij', 'else')))
E('c25-d3', 'C25', (D1, D1.replace('cpi_ij > 0', 'cpi_ij < 0')))
E('c25-f1', 'C25', (F1, F1.replace('flow_ij==0', 'flow_ij>=0')))
E('c25-f2', 'C25', (F1, F1.replace('cpi_ij < 0', 'cpi_ij <= 0')))
E('c25-f3', 'C25', ("                if e in t.edge_attr:\n                    continue\n", "", 1))
E('c25-f4', 'C25', (RC, "                cpi_ij = c_ij - potential_j + potential_i\n", 1))
E('c25-p1', 'C25', ("potential', potential_i-c_ij)", "potential', potential_i+c_ij)"))
E('c25-p2', 'C25', ("potential', potential_i+c_ji)", "potential', potential_i-c_ji)"))
E('c25-keep11', '', ("            if (i,j) in t.edge_attr:\n                c_ij", "            if (i,j) in self.edge_attr:\n                c_ij"))
E('c25-p4', 'C25', ("            if (j,i) in t.edge_attr:\n                c_ji", "            elif (i,j) not in self.edge_attr and c_ij:\n                c_ji") if False else ("            if (j,i) in t.edge_attr:\n                c_ji", "            if (j,i) in self.edge_attr:\n                c_ji"))
E('c25-n1', 'C25', ("            t.simplex_search(root, 1)\n            # compute potentials\n            self.simplex_compute_potentials(t, root)\n", "            t.simplex_search(root, 1)\n"))
E('c25-n2', 'C25', ("            t.simplex_redraw(display, root)\n            #t.display()\n            t.simplex_search(root, 1)\n", "            t.simplex_redraw(display, root)\n"))
E('c25-n3', 'C25', ("            # set predecessor, depth and thread indexes\n            t.simplex_redraw(display, root)\n            #t.display()\n            t.simplex_search(root, 1)\n            # compute potentials\n            self.simplex_compute_potentials(t, root)\n", "            t.simplex_redraw(display, root)\n            if capacity:\n                t.simplex_search(root, 1)\n                self.simplex_compute_potentials(t, root)\n"))
E('c25-keep1', '', (O1, "            if flow_ij==0 and cpi_ij < 0:\n                return False\n            if 0 != flow_ij == capacity_ij and 0 < cpi_ij:\n                return False\n"))
E('c25-keep2', '', ("        for e in self.edge_attr:\n            if e in t.edge_attr:\n                continue\n            flow_ij = self.edge_attr[e]['flow']\n            potential_i = self.get_node(e[0]).get_attr('potential')\n            potential_j = self.get_node(e[1]).get_attr('potential')\n            capacity_ij = self.edge_attr[e]['capacity']\n            c_ij = self.edge_attr[e]['cost']\n            cpi_ij = c_ij - potential_i + potential_j\n" + O1 + "        return True\n", "        for e in self.edge_attr:\n            if e not in t.edge_attr and self._violation(e) is not None:\n                return False\n        return True\n\n    def _violation(self, e):\n        attr = self.edge_attr[e]\n        reduced = attr['cost'] - self.get_node_attr(e[0], 'potential') + self.get_node_attr(e[1], 'potential')\n        if attr['flow'] == 0:\n            return reduced if reduced < 0 else None\n        if attr['flow'] == attr['capacity'] and reduced > 0:\n            return reduced\n        return None\n"))
E('c25-keep3', '', (D1, D1.replace("                if flow_ij==0:\n                    if cpi_ij < 0:\n                        candidate[e] = cpi_ij\n", "                at_lower = flow_ij==0\n                if at_lower:\n                    if not cpi_ij >= 0:\n                        candidate[e] = cpi_ij\n")))
E('c25-keep4', '', (F1, "                if (flow_ij==0 and cpi_ij < 0) or (flow_ij!=0 and flow_ij==capacity_ij and cpi_ij > 0):\n                    max_c = e\n"))
E('c25-keep5', '', ("            for e in self.edge_attr:\n                if e in t.edge_attr:\n                    continue\n", "            for e in [a for a in self.edge_attr if a not in t.edge_attr]:\n", 0))
E('c25-keep6', '', ("            for e in candidate:\n                max_c = e\n                max_v = abs(candidate[e])\n                break\n            for e in candidate:\n                if max_v < abs(candidate[e]):\n                    max_c = e\n                    max_v = abs(candidate[e])\n", "            max_c = max(candidate, key=lambda e: abs(candidate[e]))\n"))
E('c25-keep7', '', ("            if (i,j) in t.edge_attr:\n                c_ij = self.edge_attr[(i,j)]['cost']\n                self.get_node(j).set_attr('potential', potential_i-c_ij)\n            if (j,i) in t.edge_attr:\n                c_ji = self.edge_attr[(j,i)]['cost']\n                self.get_node(j).set_attr('potential', potential_i+c_ji)\n", "            if (i,j) in t.edge_attr:\n                price = potential_i - self.get_edge_attr(i, j, 'cost')\n            else:\n                price = potential_i + self.get_edge_attr(j, i, 'cost')\n            self.set_node_attr(j, 'potential', price)\n"))
E('c25-keep8', '', ("        while not self.simplex_optimal(t):\n            self.display()\n", "        while True:\n            if self.simplex_optimal(t):\n                break\n            self.display()\n"))
E('c25-keep9', '', (O1, "            violated = False\n            if flow_ij==0:\n                violated = cpi_ij < 0\n            elif flow_ij==capacity_ij:\n                violated = cpi_ij > 0\n            if violated:\n                return False\n"))
E('c25-keep10', '', ("        for e in self.edge_attr:\n            if e in t.edge_attr:\n                continue\n            flow_ij = self.edge_attr[e]['flow']\n            potential_i = self.get_node(e[0]).get_attr('potential')\n            potential_j = self.get_node(e[1]).get_attr('potential')\n            capacity_ij = self.edge_attr[e]['capacity']\n            c_ij = self.edge_attr[e]['cost']\n            cpi_ij = c_ij - potential_i + potential_j\n" + O1 + "        return True\n", "        return not any(self._violates(e) for e in self.edge_attr if e not in t.edge_attr)\n\n    def _violates(self, e):\n        attr = self.edge_attr[e]\n        reduced = attr['cost'] - self.get_node_attr(e[0], 'potential') + self.get_node_attr(e[1], 'potential')\n        if attr['flow'] == 0:\n            return reduced < 0\n        return attr['flow'] == attr['capacity'] and reduced > 0\n"))

# C28
SP = "            path = [destination]\n            current = destination\n            while current != source:\n                path.insert(0, pred[current])\n                current = pred[current]\n            return path\n        if"
AP = "            path = [destination]\n            current = destination\n            while current != source:\n                path.insert(0, pred[current])\n                current = pred[current]\n            return path\n                \n"
E('c28-s1', 'C28', (SP, SP.replace('path = [destination]', 'path = []')))
E('c28-s2', 'C28', (SP, SP.replace('path.insert(0, pred[current])', 'path.append(pred[current])')))
E('c28-s3', 'C28', (SP, SP.replace('path.insert(0, pred[current])', 'path.insert(0, current)')))
E('c28-s4', 'C28', (SP, SP.replace('while current != source:', 'while pred[current] != source:')))
E('c28-s5', 'C28', (SP, SP.replace('                path.insert(0, pred[current])\n', '                if pred[current] != source or reverse:\n                    path.insert(0, pred[current])\n')))
E('c28-s6', 'C28', (AP, AP.replace('current = pred[current]\n', 'current = pred[current]\n                if current in path[1:]:\n                    current = pred[current]\n')))
E('c28-a1', 'C28', (AP, AP.replace('path.insert(0, pred[current])', 'path.insert(1, pred[current])')))
E('c28-a2', 'C28', (AP, AP.replace('            return path\n', '            path.reverse()\n            return path\n')))
E('c28-f1', 'C28', ("return path(distance, nextn, i,k) + [j]", "return path(distance, nextn, i,k) + [k, j]"))
E('c28-f2', 'C28', ("return path(distance, nextn, i,k) + [j]", "return path(distance, nextn, k,j) + [j]"))
E('c28-f3', 'C28', ("        if i==k:\n            return [i, j]\n", "        if i==k:\n            return [j]\n"))
E('c28-f4', 'C28', ("return path(distance, nextn, i,k) + [j]", "return [i] + path(distance, nextn, k, j)"))
E('c28-g1', 'C28', ("            cycle.insert(1,k)\n", "            cycle.append(k)\n"))
E('c28-g2', 'C28', ("        k = nextn[(element,element)]\n        while k not in cycle:\n            cycle.insert(1,k)\n            k = nextn[(element,k)]\n", "        k = nextn[(element,element)]\n        while k not in cycle:\n            k = nextn[(element,k)]\n            cycle.insert(1,k)\n"))
E('c28-l1', 'C28', ("            current = pred[current]\n        cycle.reverse()\n        return cycle", "            current = pred[current]\n        return cycle"))
E('c28-l2', 'C28', ("        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n", "        cycle.append(j)\n        current = pred[pred[j]]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n"))
E('c28-l3', 'C28', ("        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n", "        cycle.append(j)\n        current = pred[j]\n        while pred[current]!=j:\n            cycle.append(current)\n            current = pred[current]\n"))
E('c28-l4', 'C28', ("        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n", "        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[pred[current]]\n"))
E('c28-i1', 'C28', ("        li.pop()\n        li.reverse()\n", "        li.reverse()\n"))
E('c28-i2', 'C28', ("        li.pop()\n        li.reverse()\n", "        li.pop()\n"))
E('c28-i3', 'C28', ("                i = t.get_node(i).get_attr('pred')\n                li.append(i)\n            elif", "                li.append(i)\n                i = t.get_node(i).get_attr('pred')\n            elif"))
E('c28-i4', 'C28', ("                j = t.get_node(j).get_attr('pred')\n                lj.append(j)\n            else:", "                j = t.get_node(j).get_attr('pred')\n            else:"))
E('c28-i5', 'C28', ("        cycle.extend(lj)\n        li.pop()\n        li.reverse()\n        cycle.extend(li)\n", "        cycle.extend(li)\n        lj.pop()\n        lj.reverse()\n        cycle.extend(lj)\n"))
E('c28-y1', 'C28', ("                        cycle1.pop()\n                        cycle1.reverse()\n", "                        cycle1.reverse()\n"))
E('c28-y2', 'C28', ("                        cycle1.pop()\n                        cycle1.reverse()\n", "                        cycle1.pop()\n                        cycle2.pop()\n                        cycle1.reverse()\n"))
E('c28-y3', 'C28', ("                            cycle1.append(temp)\n                            temp = pred[temp]\n", "                            temp = pred[temp]\n                            cycle1.append(temp)\n"))
E('c28-keep1', '', (SP, "            path = []\n            current = destination\n            while current != source:\n                path.append(current)\n                current = pred[current]\n            path.append(source)\n            path.reverse()\n            return path\n        if"))
E('c28-keep2', '', (SP, "            path = [destination]\n            while path[0] != source:\n                path.insert(0, pred[path[0]])\n            return path\n        if"))
E('c28-keep3', '', (AP, "            path = []\n            current = destination\n            while True:\n                path.insert(0, current)\n                if current == source:\n                    return path\n                current = pred[current]\n"))
E('c28-keep4', '', (AP, "            path = [destination]\n            current = destination\n            while current != source:\n                current = pred[current]\n                path = [current] + path\n            return path\n"))
E('c28-keep5', '', ("        if i==k:\n            return [i, j]\n        else:\n            return path(distance, nextn, i,k) + [j]\n", "        result = self.floyd_warshall_get_path(distance, nextn, i, k)\n        result.append(j)\n        return result\n"))
E('c28-keep6', '', ("        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n        cycle.reverse()\n", "        cycle = [j]\n        current = pred[j]\n        while current!=j:\n            cycle.insert(0, current)\n            current = pred[current]\n"))
E('c28-keep7', '', ("        cycle.append(j)\n        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n        cycle.reverse()\n        return cycle", "        current = pred[j]\n        while current!=j:\n            cycle.append(current)\n            current = pred[current]\n        cycle.reverse()\n        return [j] + cycle"))
E('c28-keep8', '', ("        cycle.extend(lj)\n        li.pop()\n        li.reverse()\n        cycle.extend(li)\n", "        lj.pop()\n        cycle = lj + list(reversed(li))\n"))
E('c28-keep9', '', ("        cycle.extend(lj)\n        li.pop()\n        li.reverse()\n        cycle.extend(li)\n", "        cycle = lj + li[-2::-1]\n"))
E('c28-keep10', '', ("                        cycle1.pop()\n                        cycle1.reverse()\n                        cycle2.extend(cycle1)\n                        return cycle2\n", "                        cycle2.pop()\n                        return cycle2 + cycle1[::-1]\n"))
E('c28-keep11', '', (SP, SP.replace("            path = [destination]\n            current = destination\n            while current != source:\n                path.insert(0, pred[current])\n                current = pred[current]\n            return path\n", "            return self._trace(pred, source, destination)\n")), ("    def process_node_search(self, node, q, **kwargs):\n", "    def _trace(self, pred, a, b):\n        path = [b]\n        while b != a:\n            b = pred[b]\n            path.insert(0, b)\n        return path\n\n    def process_node_search(self, node, q, **kwargs):\n"))

# ---- C09, C10: rendering
CR0 = """        tmp_fd, tmp_name = tempfile.mkstemp()
        try:
            with os.fdopen(tmp_fd, 'w') as tmp_file:
                tmp_file.write(self.to_string())
            p = subprocess.run([layout, '-T'+format, tmp_name],
                               capture_output = True)
        except OSError:
            print('''Graphviz executable not found.
Graphviz must be installed and in your search path.
Please visit http://www.graphviz.org/ for information on installation.
After installation, ensure that the PATH variable is properly set.''')
            return None
        finally:
            os.remove(tmp_name)

        p.check_returncode()

        if p.stderr:
            print(p.stderr)
        return p.stdout
"""
FIN = "        finally:\n            os.remove(tmp_name)\n\n        p.check_returncode()\n"
PILD = """                tmp_fd, tmp_name = tempfile.mkstemp()
                try:
                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
                        self.write(tmp_file, self.get_layout(), format)
                    im = PIL_Image.open(tmp_name)
                    im.show()
                finally:
                    os.remove(tmp_name)
"""
E('c09-1', 'C09', (FIN, "\n        p.check_returncode()\n        os.remove(tmp_name)\n"))
E('c09-2', 'C09', (FIN, "\n        os.remove(tmp_name)\n        p.check_returncode()\n"))
E('c09-3', 'C09', ("            with os.fdopen(tmp_fd, 'w') as tmp_file:\n                tmp_file.write(self.to_string())\n", "            with open(tmp_name, 'w') as tmp_file:\n                tmp_file.write(self.to_string())\n"))
E('c09-4', 'C09', ("            with os.fdopen(tmp_fd, 'w') as tmp_file:\n                tmp_file.write(self.to_string())\n", "            tmp_file = os.fdopen(tmp_fd, 'w')\n            tmp_file.write(self.to_string())\n            tmp_file.flush()\n"))
E('c09-5', 'C09', (PILD, PILD.replace("                finally:\n                    os.remove(tmp_name)\n", "                except OSError:\n                    os.remove(tmp_name)\n                    raise\n                os.remove(tmp_name)\n")))
E('c09-6', 'C09', (PILD, PILD.replace("                finally:\n                    os.remove(tmp_name)\n", "                except Exception:\n                    print('Could not show the image')\n                else:\n                    os.remove(tmp_name)\n")))
E('c09-7', 'C09', ("                    im.close()\n                finally:\n                    os.remove(tmp_name)\n", "                    im.close()\n                    os.remove(tmp_name)\n                except OSError:\n                    os.remove(tmp_name)\n                    raise\n"))
E('c09-8', 'C09', ("        tmp_fd, tmp_name = tempfile.mkstemp()\n        try:\n            with os.fdopen(tmp_fd, 'w') as tmp_file:", "        tmp = tempfile.NamedTemporaryFile('w', delete=False)\n        tmp_name = tmp.name\n        try:\n            with tmp as tmp_file:"), (FIN, "        finally:\n            if format != 'pdf':\n                os.remove(tmp_name)\n\n        p.check_returncode()\n"))
E('c09-9', 'C09', ("        finally:\n            os.remove(tmp_name)\n\n        p.check", "        finally:\n            import atexit\n            atexit.register(os.remove, tmp_name)\n\n        p.check"))
E('c09-10', 'C09', (PILD, PILD.replace("                try:\n                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:\n                        self.write(tmp_file, self.get_layout(), format)\n", "                with os.fdopen(tmp_fd, 'w+b') as tmp_file:\n                    self.write(tmp_file, self.get_layout(), format)\n                try:\n")))
E('c09-keep1', '', (CR0, CR0.replace("            with os.fdopen(tmp_fd, 'w') as tmp_file:\n                tmp_file.write(self.to_string())\n", "            tmp_file = os.fdopen(tmp_fd, 'w')\n            try:\n                tmp_file.write(self.to_string())\n            finally:\n                tmp_file.close()\n").replace("os.remove(", "os.unlink(")))
E('c09-keep2', '', (CR0, CR0.replace("        tmp_fd, tmp_name = tempfile.mkstemp()\n        try:\n            with os.fdopen(tmp_fd, 'w') as tmp_file:\n                tmp_file.write(self.to_string())\n", "        text = self.to_string()\n        tmp = tempfile.mkstemp()\n        tmp_name = tmp[1]\n        try:\n            os.close(tmp[0])\n            with open(tmp_name, 'w') as tmp_file:\n                tmp_file.write(text)\n")))
E('c09-keep3', '', (CR0, """        with tempfile.NamedTemporaryFile('w') as tmp_file:
            tmp_file.write(self.to_string())
            tmp_file.flush()
            try:
                p = subprocess.run([layout, '-T'+format, tmp_file.name], capture_output = True)
            except OSError:
                print('Graphviz executable not found.')
                return None
        p.check_returncode()
        if p.stderr:
            print(p.stderr)
        return p.stdout
"""))
E('c09-keep4', '', (CR0, """        with tempfile.TemporaryDirectory() as tmp_dir:
            tmp_name = os.path.join(tmp_dir, 'graph.dot')
            with open(tmp_name, 'w') as tmp_file:
                tmp_file.write(self.to_string())
            try:
                p = subprocess.run([layout, '-T'+format, tmp_name], capture_output = True)
            except OSError:
                print('Graphviz executable not found.')
                return None
        if p.returncode != 0:
            raise subprocess.CalledProcessError(p.returncode, p.args, p.stdout, p.stderr)
        if p.stderr:
            print(p.stderr)
        return p.stdout
"""))
E('c09-keep5', '', (CR0, """        tmp_fd, tmp_name = tempfile.mkstemp()
        try:
            with os.fdopen(tmp_fd, 'w') as tmp_file:
                tmp_file.write(self.to_string())
            return self._run_graphviz(layout, format, tmp_name)
        finally:
            if os.path.exists(tmp_name):
                os.remove(tmp_name)

    def _run_graphviz(self, layout, format, name):
        try:
            p = subprocess.run([layout, '-T'+format, name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        except (OSError, ValueError):
            print('Graphviz executable not found.')
            return None
        if p.returncode:
            raise subprocess.CalledProcessError(p.returncode, p.args)
        if p.stderr:
            print(p.stderr)
        return p.stdout
"""))
E('c09-keep6', '', (PILD, """                with self._temp_image(format) as tmp_name:
                    im = PIL_Image.open(tmp_name)
                    im.show()
"""), ("    def create(self, layout, format, **args):\n", """    @contextlib.contextmanager
    def _temp_image(self, format):
        fd, name = tempfile.mkstemp()
        try:
            with os.fdopen(fd, 'w+b') as f:
                self.write(f, self.get_layout(), format)
            yield name
        finally:
            os.remove(name)

    def create(self, layout, format, **args):
"""), ("import tempfile ", "import contextlib\nimport tempfile "))
E('c09-keep7', '', (CR0, CR0.replace("            os.remove(tmp_name)\n", "            try:\n                os.remove(tmp_name)\n            except OSError:\n                pass\n")))
E('c09-keep8', '', (CR0, CR0.replace("            p = subprocess.run([layout, '-T'+format, tmp_name],\n                               capture_output = True)\n", "            cmd = [layout, '-T'+format, tmp_name]\n            p = subprocess.run(cmd, capture_output = True, check = True)\n").replace("        p.check_returncode()\n\n", "")))
E('c09-keep9', '', (CR0, CR0.replace("            p = subprocess.run([layout, '-T'+format, tmp_name],\n                               capture_output = True)\n", "            p = subprocess.Popen([layout, '-T'+format, tmp_name], stdout=subprocess.PIPE, stderr=subprocess.PIPE)\n            out, err = p.communicate()\n").replace("        p.check_returncode()\n\n        if p.stderr:\n            print(p.stderr)\n        return p.stdout\n", "        if p.returncode != 0:\n            raise subprocess.CalledProcessError(p.returncode, layout)\n        if err:\n            print(err)\n        return out\n")))
E('c10-1', 'C10', ("        p.check_returncode()\n\n        if p.stderr", "        if p.stderr"))
E('c10-2', 'C10', ("        p.check_returncode()\n\n        if p.stderr:\n            print(p.stderr)\n", "        if p.stderr:\n            print(p.stderr)\n            p.check_returncode()\n"))
E('c10-3', 'C10', ("        p.check_returncode()\n\n", "        if p.returncode > 0:\n            raise subprocess.CalledProcessError(p.returncode, layout)\n\n"))
E('c10-4', 'C10', ("        p.check_returncode()\n\n", "        try:\n            p.check_returncode()\n        except subprocess.CalledProcessError as e:\n            print(e)\n\n"))
E('c10-5', 'C10', ("        p.check_returncode()\n\n", "        if not p.stdout:\n            p.check_returncode()\n\n"))
E('c10-6', 'C10', ("properly set.''')\n            return None\n        finally:\n            os.remove(tmp_name)\n", "properly set.''')\n            return b''\n        finally:\n            os.remove(tmp_name)\n"))
E('c10-7', 'C10', ("            if (out != None):\n                file_obj.write(out)\n", "            file_obj.write(out or b'')\n"))
E('c10-8', 'C10', (CR0, CR0.replace("        except OSError:\n            print('''Graphviz executable not found.\nGraphviz must be installed and in your search path.\nPlease visit http://www.graphviz.org/ for information on installation.\nAfter installation, ensure that the PATH variable is properly set.''')\n", "        except OSError:\n")))
E('c10-9', 'C10', (CR0, CR0.replace("        return p.stdout\n", "        return p.stderr or p.stdout\n")))
E('c10-10', 'C10', (CR0, CR0.replace("capture_output = True)", "stdout = subprocess.PIPE, stderr = subprocess.STDOUT)")))
E('c10-11', 'C10', ("            out = self.create(layout, format)\n", "            try:\n                out = self.create(layout, format)\n            except subprocess.CalledProcessError:\n                out = None\n"))
E('c10-12', 'C10', ("        p.check_returncode()\n\n        if p.stderr", "        if p.returncode != 0 and not p.stdout:\n            p.check_returncode()\n\n        if p.stderr"))
E('c10-13', 'C10', ("        p.check_returncode()\n\n        if p.stderr", "        if p.returncode == 1:\n            p.check_returncode()\n\n        if p.stderr"))
E('c10-keep1', '', ("            if (out != None):\n                file_obj.write(out)\n", "            if out is None:\n                return\n            file_obj.write(out)\n"))
E('c10-keep2', '', ("        p.check_returncode()\n\n", "        if p.stderr:\n            print(p.stderr)\n        self._check(p)\n        return p.stdout\n\n    def _check(self, p):\n        if p.returncode != 0:\n            p.check_returncode()\n        return\n"))
E('c10-keep3', '', ("        p.check_returncode()\n\n", "        if not p.returncode == 0:\n            raise RuntimeError('Graphviz failed: %s' % p.stderr)\n\n"))

# ---- C12: quoting
GC = 'global_constants.py'
ANU = "ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\\Z', re.UNICODE)"
LOOPQ = "    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML]:\n        if test_re.match(s):\n            return False\n"
REPL = """        s = ESCAPING_BACKSLASH_RE.sub(r'\\\\\\\\', s)
        replace = {'"'  : r'\\"',
                   "\\n" : r'\\n',
                   "\\r" : r'\\r',
                   "\\\\ " : r'\\\\ '}
        for (a,b) in list(replace.items()):
            s = s.replace(a, b)
        return '"' + s + '"'
"""
E('c12-1', 'C12', GC, (ANU, ANU.replace('0-9_]*', '0-9_,]*')))
E('c12-2', 'C12', GC, (ANU, ANU.replace('\\Z', '$')))
E('c12-3', 'C12', GC, ("ID_RE_NUM = re.compile(r'^[0-9]+\\Z', re.UNICODE)", "ID_RE_NUM = re.compile(r'^[0-9,]+\\Z', re.UNICODE)"))
E('c12-4', 'C12', GC, ("ID_RE_NUM = re.compile(r'^[0-9]+\\Z', re.UNICODE)", "ID_RE_NUM = re.compile(r'^[0-9.]+\\Z', re.UNICODE)"))
E('c12-5', 'C12', GC, ("r'^\"([^\"\\\\]|\\\\.)*\"\\Z'", "r'^\".*\"\\Z'"))
E('c12-6', 'C12', GC, ("r'^<([^<>]|<[^<>]*>)*>\\Z'", "r'^<.*>\\Z'"))
E('c12-7', 'C12', GC, ("        s = ESCAPING_BACKSLASH_RE.sub(r'\\\\\\\\', s)\n", ""))
E('c12-8', 'C12', GC, ("        return '\"\"'\n", "        return s\n"))
E('c12-9', 'C12', GC, (LOOPQ, LOOPQ.replace("ID_RE_HTML]", "ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]")))
E('c12-10', 'C12', GC, (LOOPQ, LOOPQ.replace(", ID_RE_HTML]", "]")))
E('c12-11', 'C12', GC, ("    if s in DOT_KEYWORDS:\n        return False\n", "    if s in DOT_KEYWORDS:\n        return True\n"))
E('c12-12', 'C12', GC, ("        replace = {'\"'  : r'\\\"',\n", "        replace = {\n"))
E('c12-13', 'C12', GC, ("return needs_quotes(m.group(1)) or needs_quotes(m.group(2))", "return needs_quotes(m.group(1)) and needs_quotes(m.group(2))"))
E('c12-14', 'C12', GC, ("    chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]\n    if chars and", "    chars = [c for c in s if not c.isalnum() and c not in '_<>\"']\n    if not chars:\n        return False\n    if chars and"))
E('c12-15', 'C12', ("            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))\n", "            edge.append(str(self.edge_attr[e][a]) if a == 'weight' else quote_if_necessary(str(self.edge_attr[e][a])))\n"))
E('c12-16', 'C12', ("            graph.append('subgraph %s {\\n'\n                         %quote_if_necessary('cluster_' + str(c)))\n", "            graph.append('subgraph cluster_%s {\\n' %c)\n"))
E('c12-17', 'C12', ("                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\\n')\n", "                graph.append(a+'=\"'+str(self.cluster[c]['attrs'][a])+'\";\\n')\n"))
E('c12-18', 'C12', ("quote_if_necessary(str(val))) )", "quote_if_necessary(val)) )"))
E('c12-19', 'C12', ("        node.append(quote_if_necessary(str(self.name), port = True))\n", "        node.append(str(self.name))\n"))
E('c12-20', 'C12', ("            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))\n", "            edge.append(quote_if_necessary(str(self.edge_attr[e][a]), port = True))\n"))
E('c12-21', 'C12', GC, ("    if needs_quotes(s, port):\n", "    if needs_quotes(s, port) and not s.startswith('\"'):\n"))
E('c12-22', 'C12', GC, (REPL, "        return '\"' + s.replace('\\\\', '\\\\\\\\').replace('\\n', r'\\n') + '\"'\n"))
E('c12-23', 'C12', GC, (REPL, "        return '\"' + s.replace('\"', r'\\\"').replace('\\\\', '\\\\\\\\') + '\"'\n"))
E('c12-keep1', '', GC, (LOOPQ, "    if any(r.match(s) for r in (ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML)):\n        return False\n"))
E('c12-keep2', '', GC, (REPL, "        return _quoted(s)\n"), ("def needs_quotes(s", "def _quoted(s):\n    s = ESCAPING_BACKSLASH_RE.sub(r'\\\\\\\\', s)\n    s = s.replace('\"', r'\\\"').replace('\\n', r'\\n').replace('\\r', r'\\r')\n    return '\"%s\"' % s.replace('\\\\ ', r'\\\\ ')\n\ndef needs_quotes(s"))
E('c12-keep3', '', GC, ("    chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]\n    if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):\n        return True\n", "    if ID_RE_DBL_QUOTED.match(s) or ID_RE_HTML.match(s):\n        return False\n    for c in s:\n        if ord(c) > 0x7f or c == '\\0':\n            return True\n"))
E('c12-keep4', '', GC, ("    if m:\n        return needs_quotes(m.group(1)) or needs_quotes(m.group(2))\n    return True", "    if m is None:\n        return True\n    node, p = m.groups()\n    return needs_quotes(node) or needs_quotes(p)"))
E('c12-keep5', '', GC, ("        for (a,b) in list(replace.items()):\n            s = s.replace(a, b)\n", "        for a in replace:\n            s = s.replace(a, replace[a])\n"))
E('c12-keep6', '', ("            edge.append(a)\n            edge.append('=')\n            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))\n            edge.append(', ')\n        edge = edge[:-1]\n", "            edge.append('%s=%s' % (a, quote_if_necessary(str(self.edge_attr[e][a]))))\n            edge.append(', ')\n        edge.pop()\n"))
E('c12-keep7', '', ("        edge.append('  [')\n        for a in self.edge_attr[e]:\n            edge.append(a)\n            edge.append('=')\n            edge.append(quote_if_necessary(str(self.edge_attr[e][a])))\n            edge.append(', ')\n        edge = edge[:-1]\n        edge.append(']')\n        return ''.join(edge)\n", "        attrs = ', '.join(a + '=' + quote_if_necessary(str(v)) for a, v in self.edge_attr[e].items())\n        return ''.join(edge) + '  [' + attrs + ']'\n"))
E('c12-keep8', '', GC, (ANU, "ID_RE_ALPHA_NUMS = re.compile(r'[_A-Za-z]\\w*\\Z', re.ASCII)"))
E('c12-keep9', '', ("        edge.append(quote_if_necessary(str(e[0]), port = True))\n        edge.append(self.edge_connect_symbol)\n        edge.append(quote_if_necessary(str(e[1]), port = True))\n", "        edge.append(self._quoted_name(e[0]))\n        edge.append(self.edge_connect_symbol)\n        edge.append(self._quoted_name(e[1]))\n"), ("    def edge_to_string(self, e):\n", "    def _quoted_name(self, name):\n        return quote_if_necessary(str(name), port = True)\n\n    def edge_to_string(self, e):\n"))
E('c12-keep10', '', GC, ("    if needs_quotes(s, port):\n", "    if not needs_quotes(s, port):\n        return s\n    else:\n"), ("        return '\"' + s + '\"'\n    return s\n", "        return '\"' + s + '\"'\n"))

# ---- C11: DOT declares everything once
NREM = "                data = self.get_node(n).to_string()\n                graph.append(data + ';\\n')\n        # process edges\n"
CEDG = "                    if (n,m) in self.edge_attr:\n"
PROC = "                        processed_edges[(n,m)]=None\n"
SKIP = "            if e in processed_edges:\n                continue\n"
CN = "            for n in self.cluster[c]['node_list']:\n                data = self.get_node(n).to_string()\n                graph.append(data + ';\\n')\n"
CE = "            for n in self.cluster[c]['node_list']:\n                for m in self.cluster[c]['node_list']:\n                    if (n,m) in self.edge_attr:\n                        data = self.edge_to_string((n,m))\n                        graph.append(data + ';\\n')\n                        processed_edges[(n,m)]=None\n"
REST = "        for n in self.neighbors:\n            for c in self.cluster:\n                if n in self.cluster[c]['node_list']:\n                    break\n            else:\n                data = self.get_node(n).to_string()\n                graph.append(data + ';\\n')\n"
E('c11-1', 'C11', (CE, CE.replace('(n,m) in self.edge_attr', 'self.check_edge(n,m)')))
E('c11-2', 'C11', (PROC, "                        processed_edges[(m,n)]=None\n"))
E('c11-keepx3', '', (PROC, "                        processed_edges[(n,m)]=None\n                        processed_edges[(m,n)]=None\n"))
E('c11-4', 'C11', (CE, CE.replace('if (n,m)', 'if n != m and (n,m)').replace('processed_edges[(n,m)]=None', 'processed_edges[(n,m)]=None\n                    else:\n                        processed_edges[(n,m)]=None')))
E('c11-keepx5', '', (SKIP, "            if e in processed_edges or (e[1],e[0]) in processed_edges:\n                continue\n"))
E('c11-6', 'C11', (REST, REST.replace("                    break\n            else:", "                    break\n            if True:")))
E('c11-7', 'C11', (REST, "        for n in self.neighbors:\n            clustered = False\n            for c in self.cluster:\n                clustered = n in self.cluster[c]['node_list']\n            if not clustered:\n                data = self.get_node(n).to_string()\n                graph.append(data + ';\\n')\n"))
E('c11-8', 'C11', ("        if flag is True:\n            node = node[:-1]\n", "        node = node[:-1]\n"))
E('c11-9', 'C11', ("        edge = edge[:-1]\n        edge.append(']')\n", "        edge[-1] = ']'\n        edge = edge[:-1]\n"))
E('c11-10', 'C11', ("            e = (e[1], e[0])\n        edge.append(quote", "            pass\n        edge.append(quote"), ("        if len(self.edge_attr[e]) == 0:\n", "        if e not in self.edge_attr or len(self.edge_attr[e]) == 0:\n"))
E('c11-11', 'C11', (SKIP, "            if e in processed_edges:\n                break\n"))
E('c11-12', 'C11', ("                        processed_edges[(n,m)]=None\n            graph.append('}\\n')\n", "                        processed_edges[(n,m)]=None\n        if self.cluster:\n            graph.append('}\\n')\n"))
E('c11-13', 'C11', ("                if n in self.cluster[c]['node_list']:\n                    break\n", "                if n in self.cluster[c]['node_list'] and self.neighbors[n]:\n                    break\n"))
E('c11-14', 'C11', (CE, CE.replace("                for m in self.cluster[c]['node_list']:\n                    if (n,m) in self.edge_attr", "                for m in self.neighbors[n]:\n                    if (n,m) in self.edge_attr")))
E('c11-15', 'C11', ("            if len(self.cluster[c]['node_attrs'])!=0:\n                graph.pop()\n", "            if len(self.cluster[c]['node_attrs'])>1:\n                graph.pop()\n"))
E('c11-16', 'C11', (CE + "            graph.append('}\\n')\n", "            graph.append('}\\n')\n" + CE))
E('c11-17', 'C11', ("        if len(self.edge_attr[e]) == 0:\n", "        if len(self.edge_attr[e]) <= 1:\n"))
E('c11-18', 'C11', (CE, CE.replace("for m in self.cluster[c]['node_list']:\n", "for m in self.cluster[c]['node_list'][self.cluster[c]['node_list'].index(n):]:\n")))
E('c11-19', 'C11', (SKIP, "            if e[0] in clustered and e[1] in clustered:\n                continue\n"), ("        processed_edges = {}\n", "        processed_edges = {}\n        clustered = []\n"), ("            # process cluster nodes\n", "            clustered.extend(self.cluster[c]['node_list'])\n"))
E('c11-20', 'C11', ("        for e in self.edge_attr:\n            if e in processed_edges", "        for e in [(n, m) for n in self.neighbors for m in self.neighbors[n]]:\n            if e in processed_edges"))
E('c11-21', 'C11', ("            if val is None:\n                # a bare word would declare a node of that name\n                continue\n            graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )\n", "            if val is not None:\n                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )\n            else:\n                graph.append(a)\n"))
E('c11-keepx22', '', ("            node.append(quote_if_necessary(str(self.attr[a])))\n            node.append(', ')\n", "            node.append(quote_if_necessary(str(self.attr[a])))\n            node.append(' ')\n"))
E('c11-keep1', '', (REST, "        clustered = set()\n        for c in self.cluster:\n            clustered.update(self.cluster[c]['node_list'])\n        for n in self.neighbors:\n            if n not in clustered:\n                graph.append(self.get_node(n).to_string() + ';\\n')\n"))
E('c11-keep2', '', (REST, "        for n in self.neighbors:\n            if any(n in self.cluster[c]['node_list'] for c in self.cluster):\n                continue\n            data = self.get_node(n).to_string()\n            graph.append(data + ';\\n')\n"))
E('c11-keep3', '', (REST, "        for n in self.neighbors:\n            found = False\n            for c in self.cluster:\n                if n in self.cluster[c]['node_list']:\n                    found = True\n                    break\n            if not found:\n                data = self.nodes[n].to_string()\n                graph.append(data + ';\\n')\n"))
E('c11-keep4', '', ("        processed_edges = {}\n", "        processed_edges = set()\n"), (PROC, "                        processed_edges.add((n,m))\n"))
E('c11-keep5', '', (CE, "            graph.extend(self._cluster_edges(c, processed_edges))\n"), ("    def to_string(self):\n        '''\n        API: to_string(self)\n        Description:\n        This method", "    def _cluster_edges(self, c, processed):\n        out = []\n        members = self.cluster[c]['node_list']\n        for e in self.edge_attr:\n            if e[0] in members and e[1] in members:\n                out.append(self.edge_to_string(e) + ';\\n')\n                processed[e] = None\n        return out\n\n    def to_string(self):\n        '''\n        API: to_string(self)\n        Description:\n        This method"))
E('c11-keep6', '', ("        node = list()\n        node.append(quote_if_necessary(str(self.name), port = True))\n        node.append(' [')\n        flag = False\n        for a in self.attr:\n            flag = True\n            node.append(a)\n            node.append('=')\n            node.append(quote_if_necessary(str(self.attr[a])))\n            node.append(', ')\n        if flag is True:\n            node = node[:-1]\n        node.append(']')\n        return ''.join(node)\n", "        attrs = ['%s=%s' % (a, quote_if_necessary(str(v))) for a, v in self.attr.items()]\n        return '%s [%s]' % (quote_if_necessary(str(self.name), port = True), ', '.join(attrs))\n"))
E('c11-keep7', '', ("            graph.append('}\\n')\n", "            graph += ['}\\n']\n"))
E('c11-keep8', '', (SKIP + "            data = self.edge_to_string(e)\n            graph.append(data + ';\\n')\n", "            if e not in processed_edges:\n                graph.append(self.edge_to_string(e) + ';\\n')\n"))
E('c11-keep9', '', ("            for n in self.cluster[c]['node_list']:\n                data = self.get_node(n).to_string()\n                graph.append(data + ';\\n')\n", "            members = self.cluster[c]['node_list']\n            graph.append(''.join([self.get_node(n).to_string() + ';\\n' for n in members]))\n"))
E('c11-keep10', '', ("        graph = list()\n        processed_edges = {}\n        graph.append('%s %s {\\n' %(self.graph_type,\n                                  quote_if_necessary(str(self.name))))\n", "        processed_edges = {}\n        graph = ['{} {} {{\\n'.format(self.graph_type, quote_if_necessary(str(self.name)))]\n"))
E('c11-keep11', '', ("        if flag is True:\n            node = node[:-1]\n", "        if node[-1] == ', ':\n            node.pop()\n"), ("        flag = False\n        for a in self.attr:\n            flag = True\n", "        for a in self.attr:\n"))
E('c11-keep12', '', ("            if len(self.cluster[c]['node_attrs'])!=0:\n                graph.append('node [')\n            for a in self.cluster[c]['node_attrs']:\n                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))\n                graph.append(',')\n            if len(self.cluster[c]['node_attrs'])!=0:\n                graph.pop()\n                graph.append('];\\n')\n", "            defaults = self.cluster[c]['node_attrs']\n            if defaults:\n                graph.append('node [' + ','.join('%s=%s' % (a, quote_if_necessary(str(defaults[a]))) for a in defaults) + '];\\n')\n"))

# ---- C07 --------------------------------------------------------------------------------------------------------
LC = "        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)\n        for n in self.neighbors:\n            self.get_node(n).set_attr('label', '-')\n"
TJ = "        for n in self.get_node_list():\n            self.set_node_attr(n, 'index', None)\n"
HAM = "                self.get_node(i).set_attr('label', '-')\n                self.get_node(i).set_attr('visited', None)\n"
SI = "            self.get_node(i).set_attr('distance', None)\n            self.get_node(i).set_attr('color', 'black')\n            for j in neighbors[i]:\n"
FI = "        for n in self.neighbors:\n            if n!=source:\n                self.get_node(n).set_attr('distance', None)\n        q = [source]\n"
PF = "        for n in nl:\n            self.set_node_attr(n, 'excess', 0)\n"
AC = "        for n in G.get_node_list():\n            G.get_node(n).set_attr('disc_time', None)\n"
E('c07-1', 'C07', (LC, "        for n in self.neighbors:\n            self.get_node(n).set_attr('label', '-')\n"))
E('c07-2', 'C07', (TJ, ""))
E('c07-3', 'C07', (HAM, "                self.get_node(i).set_attr('label', '-')\n"))
E('c07-4', 'C07', (SI, SI.replace("            self.get_node(i).set_attr('color', 'black')\n", "")))
E('c07-5', 'C07', (SI, SI.replace("            self.get_node(i).set_attr('distance', None)\n", "")))
E('c07-6', 'C07', (FI, "        q = [source]\n"))
E('c07-7', 'C07', (PF, ""))
E('c07-8', 'C07', (AC, ""))
E('c07-9', 'C07', ("        for n in self.get_node_list():\n            self.set_node_attr(n, 'color', 'black')\n        pred = {}\n        addToQ(source)\n", "        pred = {}\n        addToQ(source)\n"))
E('c07-10', 'C07', (LC, LC.replace("            self.get_node(n).set_attr('component', None)\n", "            if not self.neighbors[n]:\n                continue\n            self.get_node(n).set_attr('component', None)\n")))
E('c07-11', 'C07', (TJ, TJ.replace("            self.set_node_attr(n, 'index', None)\n", "            if self.get_node_attr(n, 'component') is not None:\n                self.set_node_attr(n, 'index', None)\n")))
E('c07-12', 'C07', (FI, FI.replace("if n!=source:", "if n!=source and self.neighbors[n]:")))
E('c07-13', 'C07', ("        self.num_components = 0\n        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)", "        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)"))
E('c07-14', 'C07', ("        self.num_components = 0\n        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)", "        if not hasattr(self, 'num_components'):\n            self.num_components = 0\n        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)"))
E('c07-15', 'C07', (PF, "        for n in nl:\n            if self.get_node_attr(n, 'excess') is None:\n                self.set_node_attr(n, 'excess', 0)\n"))
E('c07-16', 'C07', (HAM, HAM.replace("visited', None)", "visited', None)\n                break")))
E('c07-18', 'C07', ("        self.search(sink, algo = 'UnweightedSPT', reverse = True)\n", "        if self.get_node_attr(sink, 'distance') != 0:\n            self.search(sink, algo = 'UnweightedSPT', reverse = True)\n"))
E('c07-19', 'C07', ("        nodes = self.get_node_list()\n        graph_size = len(nodes)\n        if graph_size == 0:\n            return {}\n", "        nodes = self.get_node_list()\n        graph_size = len(nodes)\n        if graph_size == 0:\n            return {}\n        if self.get_node_attr(nodes[0], 'rank') is not None:\n            return dict((n, self.get_node_attr(n, 'rank')) for n in nodes)\n        for n in nodes:\n            self.set_node_attr(n, 'rank', 0)\n"))
E('c07-20', 'C07', (TJ, TJ.replace("self.get_node_list()", "self.get_node_list()[1:]")))
E('c07-21', 'C07', ("            self.edge_attr[e]['flow'] = 0\n            if 'capacity' in self.edge_attr[e]:", "            self.edge_attr[e].setdefault('flow', 0)\n            if 'capacity' in self.edge_attr[e]:", 'all'))
E('c07-22', 'C07', ("        for n in self.get_node_list():\n            self.get_node(n).set_attr('component', None)\n        for n in self.neighbors:\n", "        for n in self.neighbors:\n            self.get_node(n).set_attr('component', None)\n            if self.get_node_attr(n, 'visited'):\n                continue\n"), ("            if self.get_node(n).get_attr('component') == None:\n                self.search", "            if self.get_node(n).get_attr('component') == None and not self.get_node_attr(n, 'visited'):\n                self.search"))
E('c07-keep1', '', (LC, "        for n, node in self.nodes.items():\n            node.set_attr('component', None)\n            node.set_attr('label', '-')\n"))
E('c07-keep2', '', (TJ, "        self._reset('index')\n"), ("    def tarjan(self):\n", "    def _reset(self, name, value = None):\n        for n in self.neighbors:\n            self.set_node_attr(n, name, value)\n\n    def tarjan(self):\n"))
E('c07-keep3', '', (FI, "        for n in self.get_node_list():\n            self.set_node_attr(n, 'distance', 0 if n == source else None)\n        q = [source]\n"), ("        pred = {}\n        self.get_node(source).set_attr('distance', 0)\n        pred[source] = None\n", "        pred = {source: None}\n"))
E('c07-keep4', '', (FI, "        for n in self.neighbors:\n            self.get_node(n).set_attr('distance', None)\n        self.get_node(source).set_attr('distance', 0)\n        q = [source]\n"))
E('c07-keep5', '', (PF, "        for n in nl:\n            self.get_node(n).attr['excess'] = 0\n"))
E('c07-keep6', '', (AC, "        for node in G.nodes.values():\n            node.attr['disc_time'] = None\n"))
E('c07-keep7', '', (HAM, "                node = self.nodes[i]\n                node.set_attr('visited', None)\n                node.set_attr('label', '-')\n"))
E('c07-keep8', '', (SI, "            self.nodes[i].attr['distance'] = None\n            self.set_node_attr(i, 'color', 'black')\n            for j in neighbors[i]:\n"))
E('c07-keep9', '', (TJ, "        for n in self.get_node_list():\n            if self.get_node_attr(n, 'index') is not None:\n                self.set_node_attr(n, 'index', None)\n"))
E('c07-keep10', '', (LC, "        nodes = self.get_node_list()\n        i = 0\n        while i < len(nodes):\n            self.get_node(nodes[i]).set_attr('component', None)\n            self.get_node(nodes[i]).set_attr('label', '-')\n            i += 1\n"))
E('c07-keep11', '', (LC, "        for i in range(len(self.get_node_list())):\n            n = self.get_node_list()[i]\n            self.get_node(n).set_attr('component', None)\n            self.get_node(n).set_attr('label', '-')\n"))

# ---- C32 / C33 --------------------------------------------------------------------------------------------------
for i, (o, n, *k) in enumerate([
        ("self.get_node_attr(j, 'distance') + 1):", "self.get_node_attr(j, 'distance')):"),
        ("self.get_node_attr(j, 'distance') + 1):", "self.get_node_attr(j, 'distance') - 1):"),
        ("if (self.get_node_attr(i, 'distance') !=\n", "if (self.get_node_attr(i, 'distance') <=\n"),
        ("self.set_node_attr(i, 'distance', min_distance + 1)", "self.set_node_attr(i, 'distance', min_distance)"),
        ("self.set_node_attr(i, 'distance', min_distance + 1)", "self.set_node_attr(j, 'distance', min_distance + 1)"),
        ("min_distance = 2*len(self.get_node_list()) + 1", "min_distance = len(self.get_node_list()) + 1"),
        ("            if (self.get_node_attr(j, 'distance') < min_distance and", "            if (self.get_node_attr(j, 'distance') > min_distance and", 0),
        ("self.get_edge_attr(j, i, 'flow') > 0", "self.get_edge_attr(j, i, 'flow') >= 0"),
        ("                min_distance = self.get_node_attr(j, 'distance')\n", "                min_distance = self.get_node_attr(i, 'distance')\n", 0),
        ("elif algo == 'HighestLabel':\n                q.push(n, -1)", "elif algo == 'Highest':\n                q.push(n, -1)"),
        ("self.set_node_attr(source, 'distance', len(nl))", "self.set_node_attr(source, 'distance', 0)"),
        ("self.set_node_attr(source, 'distance', len(nl))", "self.set_node_attr('distance', source, len(nl))"),
        ("                    q.push(n)\n", "                    q.push(current)\n", 0),
        ("self.search(sink, algo = 'UnweightedSPT', reverse = True)", "self.search(sink, algo = 'UnweightedSPT')"),
        ("self.search(sink, algo = 'UnweightedSPT', reverse = True)", "self.search(source, algo = 'UnweightedSPT', reverse = True)"),
        ]):
    E('c33-%d' % (i + 1), 'C33', (o, n) + tuple(k))
for i, (o, n, *k) in enumerate([
        ("distance_n_m > eccentricity_n", "distance_n_m < eccentricity_n"),
        ("distance_n_m = len(path_n_m)-1", "distance_n_m = len(path_n_m)"),
        ("self.search(n, destination = m, algo = 'BFS')", "self.search(n, destination = m)"),
        ("self.search(n, destination = m, algo = 'BFS')", "self.search(n, destination = n, algo = 'BFS')"),
        ("priority = self.get_node(current).get_attr('distance') + 1", "priority = self.get_node(current).get_attr('distance') - 1"),
        ("distance = self.get_node(current).get_attr('distance') + 1", "distance = self.get_node(current).get_attr('distance')"),
        ("return (True, pred)", "return (False, pred)"),
        ("return (True, pred)", "return (pred, True)"),
        ("diameter == 'infinity' or eccentricity_n > diameter", "diameter == 'infinity' or eccentricity_n < diameter"),
        ("degree[n] = len(self.get_in_neighbors(n))", "degree[n] = len(self.get_out_neighbors(n))"),
        ("distance == self.get_node_num() - 1", "distance == self.get_node_num()", 0),
        ("distance == self.get_node_num() - 1", "distance == self.get_node_num()", 1),
        ("            if ((algo == 'UnweightedSPT' or algo == 'BFS') and\n", "            if (algo == 'UnweightedSPT' and\n"),
        ("                degree[n] = (len(self.get_in_neighbors(n)) +\n                             len(self.get_out_neighbors(n)))\n", "                degree[n] = len(set(self.get_in_neighbors(n) + self.get_out_neighbors(n)))\n"),
        ]):
    E('c32-%d' % (i + 1), 'C32', (o, n) + tuple(k))
for i, (o, n) in enumerate([
        ('if flow_e>0 and flow_e<capacity_e:',
         'if flow_e>0 and flow_e<=capacity_e:'),
        ('if flow_e>0 and flow_e<capacity_e:',
         'if flow_e>=0 and flow_e<capacity_e:'),
        ('if flow_e>0 and flow_e<capacity_e:',
         'if flow_e>0:'),
        ('if flow_e>0 and flow_e<capacity_e:',
         'if flow_e>1 and flow_e<capacity_e:'),
        ('simplex_g.add_edge(e[0], e[1])',
         'simplex_g.add_edge(e[1], e[0])'),
        ('            simplex_g.add_node(i)\n',
         '            pass\n'),
        ('        for i in self.neighbors:\n            simplex_g.add_node(i)\n',
         ''),
        ('        while self.simplex_connect(solution_g):\n            pass\n',
         '        self.simplex_connect(solution_g)\n'),
        ('        while self.simplex_connect(solution_g):\n            pass\n',
         ''),
        ('                        solution_g.add_edge(n,m)',
         '                        solution_g.add_edge(m,n)'),
        ('                    elif (m,n) in self.edge_attr:',
         '                    else:'),
        ("if solution_g.get_node(n).get_attr('component') != current:",
         'if n != current:'),
        ("if solution_g.get_node(n).get_attr('component') != current:",
         "if solution_g.get_node(n).get_attr('component') == current:"),
        ("set_attr('thread', sequence[i+1])",
         "set_attr('thread', sequence[i])"),
        ("set_attr('thread', sequence[0])",
         "set_attr('thread', sequence[-1])"),
        ("self.get_node(n).set_attr('depth', depth[n])",
         "self.get_node(n).set_attr('depth', pred[n])"),
        ("self.get_node(n).set_attr('pred', pred[n])",
         "self.get_node(n).set_attr('pred', n)"),
        ('            neighbors = self.in_neighbors[current] + self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n                self',
         '            neighbors = self.neighbors[current]\n            for n in neighbors:\n                if n in pred:\n                    continue\n                self'),
        ('        separated = list(pred.keys())',
         '        separated = nl'),
        ('        while cycle is not None:\n            # find amount',
         '        if cycle is not None:\n            # find amount'),
        ('            solution_g = self.get_simplex_solution_graph()\n            cycle = solution_g.simplex_find_cycle()\n',
         '            cycle = solution_g.simplex_find_cycle()\n            solution_g = self.get_simplex_solution_graph()\n'),
        ('            solution_g = self.get_simplex_solution_graph()\n            cycle = solution_g.simplex_find_cycle()\n',
         '            solution_g = self.get_simplex_solution_graph()\n            cycle = None\n'),
        ('        while cycle is not None:\n            # find amount',
         '        while cycle is None:\n            # find amount'),
        ('depth[n] = depth[current]+1',
         'depth[n] = depth[source]+1'),
        ('depth[n] = depth[current]+1',
         'depth[n] = depth[current]'),
        ('        t.del_edge((p, q))',
         '        t.del_edge((q, p))'),
        ('        t.del_edge((p, q))',
         '        t.del_edge((p, p))'),
        ('        t.del_edge((p, q))',
         '        self.del_edge((p, q))'),
        ('        t.del_edge((p, q))',
         '        pass'),
        ("                if n in pred:\n                    continue\n                self.get_node(n).set_attr('component', component_nr)\n",
         "                self.get_node(n).set_attr('component', component_nr)\n"),
        ('                q.append(n)\n        for i in range(len(s',
         '                q.append(current)\n        for i in range(len(s'),
        ('                pred[n] = current\n                depth',
         '                pred[n] = n\n                depth'),
        ("            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])",
         "            self.get_node(sequence[i+1]).set_attr('thread', sequence[i])"),
        ]):
    E('c34-%d' % (i + 1), 'C34', (o, n))

for i, (o, n) in enumerate([
        ("            root = self.root.name\n        if display == None:\n            display = self.attr['display']\n        self.traverse(root, display, Stack())",
         "            pass\n        root = self.root.name\n        if display == None:\n            display = self.attr['display']\n        self.traverse(root, display, Stack())"),
        ("        self.traverse(root, display, Queue())", "        self.traverse(root, display, Stack())"),
        ("        self.traverse(root, display, Stack(), priority)", "        self.traverse(root, display, Queue(), priority)"),
        ("        self.traverse(root, display, Stack(), priority)", "        self.traverse(display, root, Stack(), priority)"),
        ("        self.traverse(root, display, Queue(), priority)", "        self.traverse(self.root, display, Queue(), priority)"),
        ]):
    E('c22-tree-%d' % (i + 1), 'C22', 'tree.py', (o, n))
E('c22-start-estimate', 'C22', ("            q.push(neighbor, 0)\n", "            q.push(neighbor, 1)\n", 0))
E('c22-start-self', 'C22', ("            q.push(neighbor, 0)\n", "            q.push(current, 0)\n", 1))

C35S = "disc_count,\n                                                         finish_count,\n                                                         topological_order,\n"
E('c35-component', 'C35', (C35S + "                                                         component, transpose,", C35S + "                                                         i, transpose,", 1))
E('c35-append', 'C35', ("            topological_order.insert(0, root)", "            topological_order.append(root)"))
E('c35-order-none', 'C35', ("        if topological_order != None:\n            topological_order", "        if topological_order:\n            topological_order"))
E('c35-no-count', 'C35', ("        disc_count += 1\n", ""))
E('c35-finish', 'C35', ("        finish_count += 1\n        return disc_count, finish_count", "        return disc_count, finish_count"))
E('c35-swap', 'C35', ("        return disc_count, finish_count", "        return finish_count, disc_count"))
E('c35-time', 'C35', ("'finish_time', finish_count)", "'finish_time', disc_count)"))
E('c35-keep-slice', '', ("            topological_order.insert(0, root)", "            topological_order[:0] = [root]"))
E('c35-keep-return', '', ("        finish_count += 1\n        return disc_count, finish_count", "        counts = (disc_count, 1 + finish_count)\n        return counts"))
E('c28-neg-picked', 'C28', ("                if distance[(i,i)] < 0:", "                if distance[(i,i)] <= 0:"))
E('c28-neg-pop', 'C28', ("        li.pop()\n", "        li.pop(0)\n"))
E('c16-augment-max', 'C16', ("            if min_capacity > capacity_ij:", "            if min_capacity < capacity_ij:"))
E('c36-minus-one', 'C36', ("            if distance[(i,i)] < 0:\n                # shortest", "            if distance[(i,i)] < -1:\n                # shortest"))
E('c36-zero', 'C36', ("            if distance[(i,i)] < 0:\n                # shortest", "            if distance[(i,i)] <= 0:\n                # shortest"))
E('c36-short', 'C36', ("        while ncycle is not None:\n", "        while ncycle is not None and len(ncycle) > 2:\n"))
E('c36-keep-flag', '', ("            if distance[(i,i)] < 0:\n                # shortest distances are not valid\n                # graph has negative cycle\n                return (False, distance, nextn)\n        return (True, distance, nextn)",
  "            if distance[(i,i)] < 0:\n                break\n        else:\n            return (True, distance, nextn)\n        return (False, distance, nextn)"))
E('c37-in-degree', 'C37', ("                             len(self.get_neighbors(referring_page)))", "                             len(self.get_in_neighbors(referring_page)))"))
E('c37-no-abs', 'C37', ("                diff += abs(pagerank[node] - rank)", "                diff += pagerank[node] - rank"))
E('c37-rising', 'C37', ("                pagerank[node] = rank\n", "                if rank > pagerank[node]:\n                    pagerank[node] = rank\n"))
E('c37-keep-changed', '', ("                pagerank[node] = rank\n", "                if rank != pagerank[node]:\n                    pagerank[node] = rank\n"))
E('c37-keep-damp-later', '', ("                rank = min_value\n                for referring_page in self.get_in_neighbors(node):\n                    rank += (damping_factor * pagerank[referring_page] /\n                             len(self.get_neighbors(referring_page)))\n",
  "                rank = 0\n                for p in self.get_in_neighbors(node):\n                    rank += pagerank[p] / len(self.get_neighbors(p))\n                rank = min_value + damping_factor * rank\n"))
