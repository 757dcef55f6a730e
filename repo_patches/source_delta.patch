From 39e67f9f2b86687a77445946db47c7e75364d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 01/37] fix: del_node works on undirected graphs

---
 src/gimpy/graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1d3638e..c64cd1d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -316,18 +316,22 @@ class Graph(object):
         '''
         if name not in self.neighbors:
             raise Exception('Node %s does not exist!' %str(name))
-        for n in self.neighbors[name]:
-            del self.edge_attr[(name, n)]
+        for n in list(self.neighbors[name]):
             if self.graph_type == UNDIRECTED_GRAPH:
+                # the edge is stored in the direction it was added in, and a
+                # self-loop is listed twice
+                self.edge_attr.pop((name, n), None)
+                self.edge_attr.pop((n, name), None)
                 self.neighbors[n].remove(name)
             else:
+                del self.edge_attr[(name, n)]
                 self.in_neighbors[n].remove(name)
         if self.graph_type is DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
+            del self.in_neighbors[name]
         del self.neighbors[name]
-        del self.in_neighbors[name]
         del self.nodes[name]
 
     def add_edge(self, name1, name2, **attr):
-- 
2.43.0


From 453a6ff8a8fcd5e8e2d87fe4b1bc094f434a8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:02 +0000
Subject: [PATCH 02/37] fix: undirected edges inside a cluster are rendered
 once, in either endpoint order

---
 src/gimpy/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c64cd1d..e7213a1 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -612,6 +612,9 @@ class Graph(object):
             String that represents given edge.
         '''
         edge = list()
+        if self.graph_type == UNDIRECTED_GRAPH and e not in self.edge_attr:
+            # the edge was added in the other direction
+            e = (e[1], e[0])
         edge.append(quote_if_necessary(str(e[0])))
         edge.append(self.edge_connect_symbol)
         edge.append(quote_if_necessary(str(e[1])))
@@ -673,7 +676,7 @@ class Graph(object):
             # process cluster edges
             for n in self.cluster[c]['node_list']:
                 for m in self.cluster[c]['node_list']:
-                    if self.check_edge(n,m):
+                    if (n,m) in self.edge_attr:
                         data = self.edge_to_string((n,m))
                         graph.append(data + ';\n')
                         processed_edges[(n,m)]=None
-- 
2.43.0


From 97cbbb1711e5f3c34e0f7c0a8bf06cbdd3e423ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 03/37] fix: create_cluster refuses a used name and keeps the
 caller's arguments intact

---
 src/gimpy/graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e7213a1..b251417 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3471,8 +3471,10 @@ After installation, ensure that the PATH variable is properly set.''')
             A cluster will be created. Attributes of the nodes in the cluster
             may change.
         '''
+        # the caller's dictionary (or the default one) is not ours to change
+        cluster_attrs = copy.deepcopy(cluster_attrs)
         if 'name' in cluster_attrs:
-            if 'name' in self.cluster:
+            if cluster_attrs['name'] in self.cluster:
                 raise Exception('A cluster with name %s already exists!' %cluster_attrs['name'])
             else:
                 name = cluster_attrs['name']
@@ -3481,8 +3483,8 @@ After installation, ensure that the PATH variable is properly set.''')
             self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
-        self.cluster[name] = {'node_list':node_list,
-                              'attrs':copy.deepcopy(cluster_attrs),
+        self.cluster[name] = {'node_list':list(node_list),
+                              'attrs':cluster_attrs,
                               'node_attrs':copy.deepcopy(node_attrs)}
 
 
-- 
2.43.0


From 92c0ad038d75eee6a27df7c11c4d50ce0a4f3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 04/37] fix: expression trees accept zero results and any child
 name

---
 src/gimpy/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 169f471..5cd5b7c 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -436,7 +436,7 @@ class BinaryTree(Tree):
             root = self.root
         if display == None:
             display = self.attr['display']
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             print('(', end=' ')
@@ -455,7 +455,7 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             self.printexp(display, self.get_right_child(root))
             print(')', end=' ')
             sys.stdout.flush()
@@ -471,7 +471,7 @@ class BinaryTree(Tree):
                  '/':operator.truediv}
         res1 = None
         res2 = None
-        if self.get_left_child(root):
+        if self.get_left_child(root) is not None:
             if display:
                 self.display(highlight = [root])
             res1 = self.postordereval(display, self.get_left_child(root))
@@ -488,9 +488,9 @@ class BinaryTree(Tree):
         sys.stdout.flush()
         if display:
                 self.display(highlight = [root])
-        if self.get_right_child(root):
+        if self.get_right_child(root) is not None:
             res2 = self.postordereval(display, self.get_right_child(root))
-        if res1 and res2:
+        if res1 is not None and res2 is not None:
             result = opers[root_label](res1 , res2)
             print('=', result)
             sys.stdout.flush()
-- 
2.43.0


From aae485a009551cf3d47160541437b53afcaca61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 05/37] fix: a refused left or right child does not occupy the
 slot

---
 src/gimpy/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 5cd5b7c..9094799 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -223,8 +223,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'R'
-        self.set_node_attr(parent, 'Rchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Rchild', n)
 
     def add_left_child(self, n, parent, **attrs):
         '''
@@ -242,8 +242,8 @@ class BinaryTree(Tree):
             msg = "Right child already exists for node " + str(parent)
             raise Exception(msg)
         attrs['direction'] = 'L'
-        self.set_node_attr(parent, 'Lchild', n)
         self.add_child(n, parent, **attrs)
+        self.set_node_attr(parent, 'Lchild', n)
 
     def get_right_child(self, n):
         '''
-- 
2.43.0


From e8bf6d7a6b139fba1c21b5d678afed7c140c0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 06/37] fix: BinaryTree.del_node accepts the root and clears
 only the node's own slot

---
 src/gimpy/tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 9094799..20ec51b 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -290,9 +290,10 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        if self.get_node_attr(n, 'direction') == 'R':
+        direction = self.get_node_attr(n, 'direction')
+        if direction == 'R':
             self.set_node_attr(parent, 'Rchild', None)
-        else:
+        elif direction == 'L':
             self.set_node_attr(parent, 'Lchild', None)
         Graph.del_node(self, n)
 
-- 
2.43.0


From 3d579cb63e05ea51d3f238febfb063bf97bdd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:01 +0000
Subject: [PATCH 07/37] fix: traversals do not share a default stack

---
 src/gimpy/tree.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 20ec51b..10abf20 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -142,7 +142,7 @@ class Tree(Graph):
             display = self.attr['display']
         self.traverse(root, display, Queue())
 
-    def traverse(self, root = None, display = None, q = Stack()):
+    def traverse(self, root = None, display = None, q = None):
         '''
         API: traverse(self, root = None, display = None, q = Stack())
         Description:
@@ -162,12 +162,16 @@ class Tree(Graph):
             root = self.root
         if display == None:
             display = self.attr['display']
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
         elif isinstance(q, Stack):
             addToQ = q.push
             removeFromQ = q.pop
+        else:
+            raise TypeError('q should be either a Stack() or a Queue()')
         addToQ(root)
         while not q.isEmpty():
             current = removeFromQ()
@@ -380,7 +384,7 @@ class BinaryTree(Tree):
             root = self.root
         self.traverse(root, display, Queue(), priority)
 
-    def traverse(self, root = None, display = None, q = Stack(),
+    def traverse(self, root = None, display = None, q = None,
                  priority = 'L'):
         '''
         API: traverse(self, root=None, display=None, q=Stack(), priority='L',
@@ -406,12 +410,16 @@ class BinaryTree(Tree):
         else:
             old_display = self.attr['display']
             self.attr['display'] = display
+        if q is None:
+            q = Stack()
         if isinstance(q, Queue):
             addToQ = q.enqueue
             removeFromQ = q.dequeue
         elif isinstance(q, Stack):
             addToQ = q.push
             removeFromQ = q.pop
+        else:
+            raise TypeError('q should be either a Stack() or a Queue()')
         if priority == 'L':
             first_child = self.get_left_child
             second_child = self.get_right_child
-- 
2.43.0


From 37b2adc893aa499127c0b9aa9fc8db9344f31ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 08/37] fix: Tree traversals start from the root's name,
 BinaryTree.add_root returns the node

---
 src/gimpy/tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 10abf20..7f82168 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -118,7 +118,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Stack())
@@ -137,7 +137,7 @@ class Tree(Graph):
             display: Display argument.
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         self.traverse(root, display, Queue())
@@ -159,7 +159,7 @@ class Tree(Graph):
             Queue().
         '''
         if root == None:
-            root = self.root
+            root = self.root.name
         if display == None:
             display = self.attr['display']
         if q is None:
@@ -209,7 +209,7 @@ class BinaryTree(Tree):
         Post:
             Changes self.root attribute.
         '''
-        Tree.add_root(self, root, **attrs)
+        return Tree.add_root(self, root, **attrs)
 
     def add_right_child(self, n, parent, **attrs):
         '''
-- 
2.43.0


From 95540129cef58ea394aa0ab4eba1798e792d6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:11 +0000
Subject: [PATCH 09/37] fix: BinaryTree.del_node clears a slot only if it names
 the node

---
 src/gimpy/tree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/gimpy/tree.py b/src/gimpy/tree.py
index 7f82168..cdcc18f 100755
--- a/src/gimpy/tree.py
+++ b/src/gimpy/tree.py
@@ -294,11 +294,12 @@ class BinaryTree(Tree):
             n: Node name.
         '''
         parent = self.get_node_attr(n, 'parent')
-        direction = self.get_node_attr(n, 'direction')
-        if direction == 'R':
-            self.set_node_attr(parent, 'Rchild', None)
-        elif direction == 'L':
-            self.set_node_attr(parent, 'Lchild', None)
+        # the root has no parent, and the parent may be gone already
+        if parent in self.nodes:
+            if self.get_right_child(parent) == n:
+                self.set_node_attr(parent, 'Rchild', None)
+            elif self.get_left_child(parent) == n:
+                self.set_node_attr(parent, 'Lchild', None)
         Graph.del_node(self, n)
 
     def print_nodes(self, order = 'in', priority = 'L', display = None,
-- 
2.43.0


From 28142cc10f8b2c8210635c23073b6c526de46ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 10/37] fix: a display argument no longer changes the graph's
 display mode for good

---
 src/gimpy/graph.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b251417..740e81a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -70,6 +70,7 @@ import random     # for seed, random, randint
 import tempfile   # for mkstemp()
 import os         # for close()
 import operator   # for itemgetter()
+import functools  # for wraps()
 
 try:
     import pygtk
@@ -108,6 +109,26 @@ def handle_close(evt):
     print('Figure closed. Exiting!')
     exit()
 
+def restores_display(method):
+    '''
+    Decorator for methods with a display argument: a display mode given to the
+    method is used during the call only.
+    '''
+    position = method.__code__.co_varnames.index('display') - 1
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        if len(args) > position:
+            display = args[position]
+        else:
+            display = kwargs.get('display')
+        old_display = self.attr['display']
+        try:
+            return method(self, *args, **kwargs)
+        finally:
+            if display is not None:
+                self.attr['display'] = old_display
+    return wrapper
+
 class Node(object):
     '''
     Node class. A node object keeps node attributes. Has a method to write
@@ -807,6 +828,7 @@ class Graph(object):
         self.num_components = 0
         self.tarjan()
 
+    @restores_display
     def dfs(self, root, disc_count = 0, finish_count = 1, topological_order = None,
             component = None, transpose = False, display = None, pred = None):
         '''
@@ -880,6 +902,7 @@ class Graph(object):
         finish_count += 1
         return disc_count, finish_count
 
+    @restores_display
     def hamiltonian(self, source, destination = None, distance = 0,
                     display = None, pred = None):
         '''
@@ -978,6 +1001,7 @@ class Graph(object):
                 
         return pred
 
+    @restores_display
     def search(self, source, destination = None, display = None,
                component = None, q = None,
                algo = 'DFS', reverse = False, **kargs):
@@ -1247,6 +1271,7 @@ class Graph(object):
             neighbor_node.set_attr('label', component)
         self.display()
 
+    @restores_display
     def minimum_spanning_tree_prim(self, source, display = None,
                                    q = PriorityQueue()):
         '''
@@ -1301,6 +1326,7 @@ class Graph(object):
             self.display()
         return pred
 
+    @restores_display
     def minimum_spanning_tree_kruskal(self, display = None, components = None):
         '''
         API: minimum_spanning_tree_kruskal(self, display = None,
@@ -1343,6 +1369,7 @@ class Graph(object):
             components.display()
         return edges
 
+    @restores_display
     def max_flow_preflowpush(self, source, sink, algo = 'FIFO', display = None):
         '''
         API: max_flow_preflowpush(self, source, sink, algo = 'FIFO',
@@ -2360,6 +2387,7 @@ After installation, ensure that the PATH variable is properly set.''')
             flow_ji = self.edge_attr[(j,i)]['flow']
             self.edge_attr[(j,i)]['flow'] = flow_ji-amount
 
+    @restores_display
     def network_simplex(self, display, pivot, root):
         '''
         API:
-- 
2.43.0


From 9012de4392d2a179fd58fad52027db664ca05a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 11/37] fix: hamiltonian calls itself, not a method that does
 not exist

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 740e81a..59bafad 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -947,8 +947,8 @@ class Graph(object):
         for i in self.get_neighbors(source):
             if self.get_node(i).get_attr('visited') is None:
                 pred[i] = source
-                if (self.tsp(i, destination, distance+1, display = display, 
-                            pred = pred)):
+                if (self.hamiltonian(i, destination, distance+1,
+                                     display = display, pred = pred)):
                     return True
         if source in pred: # this is the original source node
             self.get_node(source).set_attr('color', 'black')            
-- 
2.43.0


From 959607189b7076f65afdf18ee9d551175d5e126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 12/37] fix: hamiltonian and tarjan forget the marks of earlier
 runs

---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 59bafad..a453ae8 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -764,6 +764,8 @@ class Graph(object):
         index = 0
         component = 0
         q = []
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'index', None)
         for n in self.get_node_list():
             if self.get_node_attr(n, 'index') is None:
                 index, component = self.strong_connect(q, n, index, component)
@@ -929,6 +931,7 @@ class Graph(object):
         if (distance == 0):
             for i in self.get_node_list():
                 self.get_node(i).set_attr('label', '-')
+                self.get_node(i).set_attr('visited', None)
             self.display()
 
         if destination != None:
-- 
2.43.0


From 4fb01fa9bc0a87825c71e8d60bfe5f79772f8961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 13/37] fix: minimum_spanning_tree_prim starts from a clean
 state and compares priorities

---
 src/gimpy/graph.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a453ae8..9fed01f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1276,10 +1276,10 @@ class Graph(object):
 
     @restores_display
     def minimum_spanning_tree_prim(self, source, display = None,
-                                   q = PriorityQueue()):
+                                   q = None):
         '''
         API: minimum_spanning_tree_prim(self, source, display = None,
-                                        q = PriorityQueue())
+                                        q = None)
         Description:
         Determines a minimum spanning tree of all nodes reachable
         from source using Prim's Algorithm.
@@ -1297,12 +1297,18 @@ class Graph(object):
             display = self.attr['display']
         else:
             self.set_display_mode(display)
+        if q is None:
+            q = PriorityQueue()
         if isinstance(q, PriorityQueue):
             addToQ = q.push
             removeFromQ = q.pop
-            peek = q.peek
+            get_priority = q.get_priority
             isEmpty = q.isEmpty
+        else:
+            raise TypeError('q should be a PriorityQueue()')
         neighbors = self.get_neighbors
+        for n in self.get_node_list():
+            self.set_node_attr(n, 'color', 'black')
         pred = {}
         addToQ(source)
         done = False
@@ -1317,7 +1323,7 @@ class Graph(object):
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-                    if not n in pred or new_estimate < peek(n)[0]:
+                    if not n in pred or new_estimate < get_priority(n):
                         pred[n] = current
                         self.set_node_attr(n, 'color', 'red')
                         self.set_node_attr(n, 'label', new_estimate)
-- 
2.43.0


From 07967a223411c490ba961d02b9cfffed5a69740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 14/37] fix: a self-loop never becomes part of a search tree

---
 src/gimpy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9fed01f..222ab7d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1099,7 +1099,8 @@ class Graph(object):
                 break
             self.display()
             for n in neighbors[current]:
-                if self.get_node(n).get_attr('color') != 'green':
+                # a self-loop leads to no new node
+                if n != current and self.get_node(n).get_attr('color') != 'green':
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'yellow')
                     else:
@@ -1319,7 +1320,8 @@ class Graph(object):
                 self.set_edge_attr(pred[current], current, 'color', 'green')
             self.display()
             for n in neighbors(current):
-                if self.get_node_attr(n, 'color') != 'green':
+                # a self-loop leads to no new node
+                if n != current and self.get_node_attr(n, 'color') != 'green':
                     self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     new_estimate = self.get_edge_attr(current, n, 'cost')
-- 
2.43.0


From 516ee2fa24757c03e92f6fe7528867684d719905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 15/37] fix: reverse Dijkstra and Prim searches read the cost
 of the edge they use

---
 src/gimpy/graph.py | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 222ab7d..1e07e06 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1107,7 +1107,7 @@ class Graph(object):
                         self.set_edge_attr(current, n, 'color', 'yellow')
                     self.display()
                     self.process_edge_search(current, n, pred, q, component,
-                                             algo, **kargs)
+                                             algo, reverse = reverse, **kargs)
                     if reverse:
                         self.set_edge_attr(n, current, 'color', 'black')
                     else:
@@ -1143,9 +1143,11 @@ class Graph(object):
         if isinstance(q, PriorityQueue):
             self.get_node(node).set_attr('priority', q.get_priority(node))
 
-    def process_edge_dijkstra(self, current, neighbor, pred, q, component):
+    def process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                              reverse = False):
         '''
-        API: process_edge_dijkstra(self, current, neighbor, pred, q, component)
+        API: process_edge_dijkstra(self, current, neighbor, pred, q, component,
+                                   reverse = False)
         Description:
         Used by search() method if the algo argument is 'Dijkstra'. Processes
         edges along Dijkstra's algorithm. User does not need to call this
@@ -1156,6 +1158,7 @@ class Graph(object):
             pred: Predecessor tree.
             q: Data structure that holds nodes to be processed in a queue.
             component: component number.
+            reverse: The edge goes from neighbor to current if True.
         Post:
             'color' attribute of nodes and edges may change.
         '''
@@ -1166,8 +1169,11 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = (q.get_priority(current) +
-                        self.get_edge_attr(current, neighbor, 'cost'))
+        if reverse:
+            cost = self.get_edge_attr(neighbor, current, 'cost')
+        else:
+            cost = self.get_edge_attr(current, neighbor, 'cost')
+        new_estimate = q.get_priority(current) + cost
         if neighbor not in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1176,9 +1182,11 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
 
-    def process_edge_prim(self, current, neighbor, pred, q, component):
+    def process_edge_prim(self, current, neighbor, pred, q, component,
+                          reverse = False):
         '''
-        API: process_edge_prim(self, current, neighbor, pred, q, component)
+        API: process_edge_prim(self, current, neighbor, pred, q, component,
+                               reverse = False)
         Description:
         Used by search() method if the algo argument is 'Prim'. Processes
         edges along Prim's algorithm. User does not need to call this method
@@ -1189,6 +1197,7 @@ class Graph(object):
             pred: Predecessor tree.
             q: Data structure that holds nodes to be processed in a queue.
             component: component number.
+            reverse: The edge goes from neighbor to current if True.
         Post:
             'color' attribute of nodes and edges may change.
         '''
@@ -1199,7 +1208,10 @@ class Graph(object):
             self.display()
             self.get_node(neighbor).set_attr('color', 'black')
             return
-        new_estimate = self.get_edge_attr(current, neighbor, 'cost')
+        if reverse:
+            new_estimate = self.get_edge_attr(neighbor, current, 'cost')
+        else:
+            new_estimate = self.get_edge_attr(current, neighbor, 'cost')
         if not neighbor in pred or new_estimate < q.get_priority(neighbor):
             pred[neighbor] = current
             self.get_node(neighbor).set_attr('color', 'red')
@@ -1209,10 +1221,10 @@ class Graph(object):
             self.get_node(neighbor).set_attr('color', 'black')
 
     def process_edge_search(self, current, neighbor, pred, q, component, algo,
-                            **kargs):
+                            reverse = False, **kargs):
         '''
         API: process_edge_search(self, current, neighbor, pred, q, component,
-                                 algo, **kargs)
+                                 algo, reverse = False, **kargs)
         Description:
         Used by search() method. Processes edges according to the underlying
         algortihm. User does not need to call this method directly.
@@ -1223,6 +1235,7 @@ class Graph(object):
             q: Data structure that holds nodes to be processed in a queue.
             component: component number.
             algo: Search algorithm. See search() documentation.
+            reverse: See search() documentation.
             kwargs: Keyword arguments.
         Post:
             'color', 'distance', 'component' attribute of nodes and edges may
@@ -1230,10 +1243,10 @@ class Graph(object):
         '''
         if algo == 'Dijkstra':
             return self.process_edge_dijkstra(current, neighbor, pred, q,
-                                              component)
+                                              component, reverse)
         if algo == 'Prim':
             return self.process_edge_prim(current, neighbor, pred, q,
-                                          component)
+                                          component, reverse)
         neighbor_node = self.get_node(neighbor)
         if current == None:
             neighbor_node.set_attr('distance', 0)
-- 
2.43.0


From aa4d4d5a3a4565ce38045772fca2f4f31d0369ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 16/37] fix: depth-first search with a priority queue records
 the distance it goes by

---
 src/gimpy/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 1e07e06..65b4d9a 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1273,6 +1273,7 @@ class Graph(object):
                 neighbor_node.set_attr('distance', priority)
             if algo == 'DFS':
                 neighbor_node.set_attr('depth', -priority)
+                neighbor_node.set_attr('distance', -priority)
         else:
             distance = self.get_node(current).get_attr('distance') + 1
             if ((algo == 'UnweightedSPT' or algo == 'BFS') and
-- 
2.43.0


From 474a250e71639ca7d37feb0d56414fc682a26239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 17/37] fix: acyclic_shortest_path works from any source,
 whatever ran before

---
 src/gimpy/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 65b4d9a..625c6b2 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -981,14 +981,14 @@ class Graph(object):
         pred = {}
         order = []
         found = False
+        for n in G.get_node_list():
+            G.get_node(n).set_attr('disc_time', None)
         G.dfs(source, topological_order = order)
-        for j in range(len(G.get_node_list())):
-            m = order[j]
+        dist[source] = 0
+        for m in order:
             if m == destination:
                 found = True
                 break
-            if len(G.get_in_neighbors(m)) == 0: 
-                dist[m] = 0
             for n in G.get_out_neighbors(m):
                 estimate = dist[m] + G.get_edge_attr(m ,n, "cost")
                 if n not in dist or dist[n] > estimate:
-- 
2.43.0


From 9e586ddb68d7e90396bfc2ff0152c9075ff40858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:06 +0000
Subject: [PATCH 18/37] fix: find_feasible_flow handles problems without supply
 or without demand

---
 src/gimpy/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 625c6b2..e4ad6a9 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1686,6 +1686,8 @@ class Graph(object):
         # establish a feasible flow in the network, to do this add nodes s and
         # t and solve a max flow problem.
         nl = self.get_node_list()
+        self.add_node('s')
+        self.add_node('t')
         for i in nl:
             b_i = self.get_node(i).get_attr('demand')
             if b_i > 0:
-- 
2.43.0


From 7c3eff0e6d6deef86c34904b9fb54339339455c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:18 +0000
Subject: [PATCH 19/37] fix: the max flow methods reject an unknown algorithm

---
 src/gimpy/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e4ad6a9..dc2c082 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1414,6 +1414,8 @@ class Graph(object):
         Post:
             The 'flow' attribute of each arc gives a maximum flow.
         '''
+        if algo not in ('FIFO', 'SAP', 'HighestLabel'):
+            raise Exception('Unknown preflow push algorithm %s!' %str(algo))
         if display == None:
             display = self.attr['display']
         else:
@@ -1955,6 +1957,8 @@ After installation, ensure that the PATH variable is properly set.''')
         Post:
             The 'flow" attribute of each arc gives a maximum flow.
         '''
+        if algo not in ('DFS', 'BFS'):
+            raise Exception('Unknown max flow algorithm %s!' %str(algo))
         if display is not None:
             old_display =  self.attr['display']
             self.attr['display'] = display
-- 
2.43.0


From af3d390201d3a2da465ae681003b5d4bba74d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 20/37] fix: random graphs without labels or lengths can be
 generated

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index dc2c082..0af2785 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3287,8 +3287,8 @@ After installation, ensure that the PATH variable is properly set.''')
                                 self.add_edge(m, n, cost = length, **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(length))
-                                else:
-                                    self.add_edge(m, n, **edge_format)
+                            else:
+                                self.add_edge(m, n, **edge_format)
                         i += 1
             elif density != None:
                 for m in range(numnodes):
-- 
2.43.0


From e31b091ecdca54f2c4c66a5efd0a0bd83e8332df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 21/37] fix: random node selection in Euclidean random graphs
 picks a node before using it

---
 src/gimpy/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0af2785..70f857d 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3324,9 +3324,9 @@ After installation, ensure that the PATH variable is properly set.''')
                 for m in range(numnodes):
                     degree = random.randint(degree_range[0], degree_range[1])
                     i = 0
-                    neighbors = []
                     if node_selection == 'random':
                         while i < degree:
+                            n = random.randint(0, numnodes-1)
                             length = round((((self.get_node(n).get_attr('locationx') -
                                               self.get_node(m).get_attr('locationx')) ** 2 +
                                              (self.get_node(n).get_attr('locationy') -
@@ -3334,11 +3334,10 @@ After installation, ensure that the PATH variable is properly set.''')
                                            0)
                             if (((m,n) not in self.edge_attr and m != n) and
                                 (parallel_allowed or (n, m) not in self.edge_attr)):
-                                neighbors.append(random.randint(0, numnodes-1))
                                 self.add_edge(m, n, cost = int(length), **edge_format)
                                 if add_labels:
                                     self.set_edge_attr(m, n, 'label', str(int(length)))
-                                i += 1
+                            i += 1
                     elif node_selection == 'closest':
                         lengths = []
                         for n in range(numnodes):
-- 
2.43.0


From c1128457b53a3fb255028380884663e816608a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 22/37] fix: degree queries and diameter work on every graph
 and return their result

---
 src/gimpy/graph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 70f857d..e38fd45 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3435,7 +3435,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             for n in self.get_node_list():
                 degree[n] = len(self.get_neighbors(n))
             return degree
@@ -3443,6 +3443,7 @@ After installation, ensure that the PATH variable is properly set.''')
             for n in self.get_node_list():
                 degree[n] = (len(self.get_in_neighbors(n)) +
                              len(self.get_out_neighbors(n)))
+            return degree
 
     def get_in_degrees(self):
         '''
@@ -3455,7 +3456,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3473,7 +3474,7 @@ After installation, ensure that the PATH variable is properly set.''')
             are corresponding degrees.
         '''
         degree = {}
-        if self.attr['type'] is not DIRECTED_GRAPH:
+        if self.graph_type != DIRECTED_GRAPH:
             print('This function only works for directed graphs')
             return
         for n in self.get_node_list():
@@ -3493,7 +3494,7 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns diameter of the graph.
         '''
 
-        if self.attr['type'] is not UNDIRECTED_GRAPH:
+        if self.graph_type != UNDIRECTED_GRAPH:
             print('This function only works for undirected graphs')
             return
         diameter = 'infinity'
-- 
2.43.0


From fed17d3fb882172a984905cd66f5f1836c93535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 23/37] fix: the graph type is compared by value, not by string
 identity

---
 src/gimpy/graph.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e38fd45..0d0ae00 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -250,7 +250,7 @@ class Graph(object):
         # adjacency list of nodes, it is a dictionary of lists
         self.neighbors = {}
         # if the graph is undirected we do not need in_neighbor
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors = {}
         self.nodes = {}
         self.edge_connect_symbol = EDGE_CONNECT_SYMBOL[self.graph_type]
@@ -291,7 +291,7 @@ class Graph(object):
         if isinstance(item, tuple):
             name1 = item[0]
             name2 = item[1]
-            if self.graph_type is DIRECTED_GRAPH:
+            if self.graph_type == DIRECTED_GRAPH:
                 return (name1, name2) in self.edge_attr
             else:
                 return ((name1, name2) in self.edge_attr or
@@ -318,7 +318,7 @@ class Graph(object):
         if name in self.neighbors:
             raise MultipleNodeException
         self.neighbors[name] = list()
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.in_neighbors[name] = list()
         self.nodes[name] = Node(name, **attr)
         return self.nodes[name]
@@ -347,7 +347,7 @@ class Graph(object):
             else:
                 del self.edge_attr[(name, n)]
                 self.in_neighbors[n].remove(name)
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             for n in self.in_neighbors[name]:
                 del self.edge_attr[(n, name)]
                 self.neighbors[n].remove(name)
@@ -374,7 +374,7 @@ class Graph(object):
         '''
         if (name1, name2) in self.edge_attr:
             raise MultipleEdgeException
-        if self.graph_type is UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
+        if self.graph_type == UNDIRECTED_GRAPH and (name2,name1) in self.edge_attr:
             raise MultipleEdgeException
         self.edge_attr[(name1,name2)] = copy.deepcopy(DEFAULT_EDGE_ATTRIBUTES)
         for a in attr:
@@ -384,7 +384,7 @@ class Graph(object):
         if name2 not in self.nodes:
             self.add_node(name2)
         self.neighbors[name1].append(name2)
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             self.neighbors[name2].append(name1)
         else:
             self.in_neighbors[name2].append(name1)
@@ -401,7 +401,7 @@ class Graph(object):
         Post:
             self.edge_attr, self.neighbors and self.in_neighbors are updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             try:
                 del self.edge_attr[e]
             except KeyError:
@@ -457,7 +457,7 @@ class Graph(object):
         Return:
             Returns True if edge exists, False otherwise.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return (name1, name2) in self.edge_attr
         else:
             return ((name1, name2) in self.edge_attr or
@@ -532,7 +532,7 @@ class Graph(object):
         Return:
             Value of edge attribute attr.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             return self.edge_attr[(n,m)][attr]
         else:
             try:
@@ -570,7 +570,7 @@ class Graph(object):
         Post:
             Edge attribute will be updated.
         '''
-        if self.graph_type is DIRECTED_GRAPH:
+        if self.graph_type == DIRECTED_GRAPH:
             self.edge_attr[(n,m)][attr] = value
         else:
             try:
@@ -1607,7 +1607,7 @@ class Graph(object):
         Return:
             Returns residual graph, which is a Graph instance.
         '''
-        if self.graph_type is UNDIRECTED_GRAPH:
+        if self.graph_type == UNDIRECTED_GRAPH:
             raise Exception('residual graph is defined for directed graphs.')
         residual_g = Graph(type = DIRECTED_GRAPH)
         for e in self.get_edge_list():
-- 
2.43.0


From 6ff4d42f4c8cc657cdae224f680a0b07cb48faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 24/37] fix: all-pairs shortest paths skip harmless self-loops,
 use undirected edges both ways, list each node once

---
 src/gimpy/graph.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 0d0ae00..9a908f7 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2163,13 +2163,20 @@ After installation, ensure that the PATH variable is properly set.''')
         for i in nl:
             distance[(i,i)] = 0
         for e in el:
-            distance[(e[0],e[1])] = self.get_edge_cost(e)
+            cost = self.get_edge_cost(e)
+            if e[0] == e[1] and cost >= 0:
+                # a self-loop only shortens anything if its cost is negative
+                continue
+            distance[(e[0],e[1])] = cost
+            if self.graph_type == UNDIRECTED_GRAPH:
+                distance[(e[1],e[0])] = cost
         # == end of distance initialization
         # initialize next
         nextn = {}
         for i in nl:
             for j in nl:
-                if i==j or distance[(i,j)]=='infinity':
+                if distance[(i,j)]=='infinity' or (i==j and
+                                                   distance[(i,j)]==0):
                     nextn[(i,j)] = None
                 else:
                     nextn[(i,j)] = i
@@ -2211,12 +2218,15 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         if distance[(i,j)]=='infinity':
             return None
+        if i==j:
+            return [i]
+        # k precedes j on the path
         k = nextn[(i,j)]
         path = self.floyd_warshall_get_path
         if i==k:
             return [i, j]
         else:
-            return path(distance, nextn, i,k) + [k] + path(distance, nextn, k,j)
+            return path(distance, nextn, i,k) + [j]
 
     def floyd_warshall_get_cycle(self, distance, nextn, element = None):
         '''
-- 
2.43.0


From 9f9035d1ac9334a479e47bac7bd4069785a4d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 25/37] fix: fifo_label_correcting marks unreached nodes with
 None, not with a string it compares to numbers

---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 9a908f7..f24107f 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2315,7 +2315,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred[source] = None
         for n in self.neighbors:
             if n!=source:
-                self.get_node(n).set_attr('distance', 'inf')
+                self.get_node(n).set_attr('distance', None)
         q = [source]
         while q:
             i = q[0]
@@ -2324,7 +2324,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 distance_j = self.get_node(j).get_attr('distance')
                 distance_i = self.get_node(i).get_attr('distance')
                 c_ij = self.get_edge_attr(i, j, 'cost')
-                if distance_j > distance_i + c_ij:
+                if distance_j is None or distance_j > distance_i + c_ij:
                     self.get_node(j).set_attr('distance', distance_i+c_ij)
                     if j in pred:
                         pred[j] = i
-- 
2.43.0


From 0e93b2f03cbe4f43cdb9c997f3dd106c06829039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 26/37] fix: network simplex works with any node names

---
 src/gimpy/graph.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index f24107f..e70f9bc 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2950,8 +2950,8 @@ After installation, ensure that the PATH variable is properly set.''')
                 depth[n] = depth[current]+1
                 q.append(n)
         for i in range(len(sequence)-1):
-            self.get_node(sequence[i]).set_attr('thread', int(sequence[i+1]))
-        self.get_node(sequence[-1]).set_attr('thread', int(sequence[0]))
+            self.get_node(sequence[i]).set_attr('thread', sequence[i+1])
+        self.get_node(sequence[-1]).set_attr('thread', sequence[0])
         for n in pred:
             self.get_node(n).set_attr('pred', pred[n])
             self.get_node(n).set_attr('depth', depth[n])
@@ -3015,7 +3015,7 @@ After installation, ensure that the PATH variable is properly set.''')
         pred = {nl[0]:None}
         for n in nl:
             self.get_node(n).set_attr('component', None)
-        component_nr = int(nl[0])
+        component_nr = nl[0]
         self.get_node(nl[0]).set_attr('component', component_nr)
         while True:
             while q:
@@ -3055,7 +3055,7 @@ After installation, ensure that the PATH variable is properly set.''')
                     depth = {n:0}
                     pred = {n:None}
                     visited = []
-                    component_nr = int(n)
+                    component_nr = n
                     self.get_node(n).set_attr('component', component_nr)
                     flag = True
                     break
@@ -3108,7 +3108,7 @@ After installation, ensure that the PATH variable is properly set.''')
         '''
         self.get_node(root).set_attr('potential', 0)
         j = t.get_node(root).get_attr('thread')
-        while j is not root:
+        while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
             if (i,j) in self.edge_attr:
@@ -3140,7 +3140,7 @@ After installation, ensure that the PATH variable is properly set.''')
         cycle = []
         li = [k]
         lj = [j]
-        while i is not j:
+        while i != j:
             depth_i = t.get_node(i).get_attr('depth')
             depth_j = t.get_node(j).get_attr('depth')
             if depth_i > depth_j:
-- 
2.43.0


From c593237e3cddfd7e870bf4737ab23bf1515eb36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 27/37] fix: simplex_find_cycle returns the cycle without the
 path leading to it

---
 src/gimpy/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index e70f9bc..ce0e4ff 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3039,6 +3039,11 @@ After installation, ensure that the PATH variable is properly set.''')
                         while temp is not None:
                             cycle2.append(temp)
                             temp = pred[temp]
+                        # leave out the part the two paths have in common
+                        while (len(cycle1) > 1 and len(cycle2) > 1 and
+                               cycle1[-2] == cycle2[-2]):
+                            cycle1.pop()
+                            cycle2.pop()
                         cycle1.pop()
                         cycle1.reverse()
                         cycle2.extend(cycle1)
-- 
2.43.0


From a82b4b7f4b651b8cea04d156b8b40aa512d02572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 28/37] fix: get_negative_cycle accepts the empty residual
 graph of a zero capacity network

---
 src/gimpy/graph.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index ce0e4ff..6f7fad4 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -2121,8 +2121,6 @@ After installation, ensure that the PATH variable is properly set.''')
             Returns a list of nodes in the cycle if a negative cycle exists,
             returns None otherwise.
         '''
-        nl = self.get_node_list()
-        i = nl[0]
         (valid, distance, nextn) = self.floyd_warshall()
         if not valid:
             cycle = self.floyd_warshall_get_cycle(distance, nextn)
-- 
2.43.0


From 0d5ad0da084cad9ba4aeb095380ca409bdd8a07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 29/37] fix: every name and value in the DOT text is one legal
 identifier

---
 src/gimpy/global_constants.py | 32 +++++++++++++++++++++-----------
 src/gimpy/graph.py            | 21 ++++++++++-----------
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/gimpy/global_constants.py b/src/gimpy/global_constants.py
index 316819c..ac5514d 100644
--- a/src/gimpy/global_constants.py
+++ b/src/gimpy/global_constants.py
@@ -120,14 +120,19 @@ DOT2TEX_TEMPLATE = r'''
 
 # following globals and two methods are from pydot
 DOT_KEYWORDS = ['graph', 'subgraph', 'digraph', 'node', 'edge', 'strict']
-ID_RE_ALPHA_NUMS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,]*$', re.UNICODE)
-ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile('^[_a-zA-Z][a-zA-Z0-9_,:\"]*[a-zA-Z0-9_,\"]+$', re.UNICODE)
-ID_RE_NUM = re.compile('^[0-9,]+$', re.UNICODE)
-ID_RE_WITH_PORT = re.compile('^([^:]*):([^:]*)$', re.UNICODE)
-ID_RE_DBL_QUOTED = re.compile('^\".*\"$', re.S|re.UNICODE)
-ID_RE_HTML = re.compile('^<.*>$', re.S|re.UNICODE)
+ID_RE_ALPHA_NUMS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*\Z', re.UNICODE)
+ID_RE_ALPHA_NUMS_WITH_PORTS = re.compile(r'^[_a-zA-Z][a-zA-Z0-9_]*(:[_a-zA-Z][a-zA-Z0-9_]*){1,2}\Z', re.UNICODE)
+ID_RE_NUM = re.compile(r'^[0-9]+\Z', re.UNICODE)
+ID_RE_WITH_PORT = re.compile(r'^([^:]*):([^:]*)\Z', re.UNICODE)
+ID_RE_DBL_QUOTED = re.compile(r'^"([^"\\]|\\.)*"\Z', re.S|re.UNICODE)
+ID_RE_HTML = re.compile(r'^<([^<>]|<[^<>]*>)*>\Z', re.S|re.UNICODE)
+# a backslash that would escape a double quote, or the closing one
+ESCAPING_BACKSLASH_RE = re.compile(r'\\(?=\\*("|\Z))')
 
-def quote_if_necessary(s):
+def quote_if_necessary(s, port = False):
+    """Returns s as one ID of the dot language. port tells whether s is in a
+    place where an ID may be followed by a port, i.e. whether it names a node.
+    """
     if isinstance(s, bool):
         if s is True:
             return 'True'
@@ -135,8 +140,9 @@ def quote_if_necessary(s):
     if not isinstance(s, basestring):
         return s
     if not s:
-        return s
-    if needs_quotes(s):
+        return '""'
+    if needs_quotes(s, port):
+        s = ESCAPING_BACKSLASH_RE.sub(r'\\\\', s)
         replace = {'"'  : r'\"',
                    "\n" : r'\n',
                    "\r" : r'\r',
@@ -146,7 +152,7 @@ def quote_if_necessary(s):
         return '"' + s + '"'
     return s
 
-def needs_quotes(s):
+def needs_quotes(s, port = False):
     """Checks whether a string is a dot language ID.
     It will check whether the string is solely composed
     by the characters allowed in an ID or not.
@@ -165,9 +171,13 @@ def needs_quotes(s):
     chars = [ord(c) for c in s if ord(c)>0x7f or ord(c)==0]
     if chars and not ID_RE_DBL_QUOTED.match(s) and not ID_RE_HTML.match(s):
         return True
-    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML, ID_RE_ALPHA_NUMS_WITH_PORTS]:
+    for test_re in [ID_RE_ALPHA_NUMS, ID_RE_NUM, ID_RE_DBL_QUOTED, ID_RE_HTML]:
         if test_re.match(s):
             return False
+    if not port:
+        return True
+    if ID_RE_ALPHA_NUMS_WITH_PORTS.match(s):
+        return False
     m = ID_RE_WITH_PORT.match(s)
     if m:
         return needs_quotes(m.group(1)) or needs_quotes(m.group(2))
diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 6f7fad4..a45e789 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -187,7 +187,7 @@ class Node(object):
             String representation of node.
         '''
         node = list()
-        node.append(quote_if_necessary(str(self.name)))
+        node.append(quote_if_necessary(str(self.name), port = True))
         node.append(' [')
         flag = False
         for a in self.attr:
@@ -636,9 +636,9 @@ class Graph(object):
         if self.graph_type == UNDIRECTED_GRAPH and e not in self.edge_attr:
             # the edge was added in the other direction
             e = (e[1], e[0])
-        edge.append(quote_if_necessary(str(e[0])))
+        edge.append(quote_if_necessary(str(e[0]), port = True))
         edge.append(self.edge_connect_symbol)
-        edge.append(quote_if_necessary(str(e[1])))
+        edge.append(quote_if_necessary(str(e[1]), port = True))
         # return if there is nothing in self.edge_attr[e]
         if len(self.edge_attr[e]) == 0:
             return ''.join(edge)
@@ -664,28 +664,27 @@ class Graph(object):
         '''
         graph = list()
         processed_edges = {}
-        graph.append('%s %s {\n' %(self.graph_type, self.name))
+        graph.append('%s %s {\n' %(self.graph_type,
+                                  quote_if_necessary(str(self.name))))
         for a in self.attr:
             if a not in GRAPH_ATTRIBUTES:
                 continue
             val = self.attr[a]
             if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(val)) )
+                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
             else:
                 graph.append(a)
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-            graph.append('subgraph cluster_%s {\n' %c)
+            graph.append('subgraph %s {\n'
+                         %quote_if_necessary('cluster_' + str(c)))
             for a in self.cluster[c]['attrs']:
-                if a=='label':
-                    graph.append(a+'='+quote_if_necessary(self.cluster[c]['attrs'][a])+';\n')
-                    continue
-                graph.append(a+'='+self.cluster[c]['attrs'][a]+';\n')
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['attrs'][a]))+';\n')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.append('node [')
             for a in self.cluster[c]['node_attrs']:
-                graph.append(a+'='+self.cluster[c]['node_attrs'][a])
+                graph.append(a+'='+quote_if_necessary(str(self.cluster[c]['node_attrs'][a])))
                 graph.append(',')
             if len(self.cluster[c]['node_attrs'])!=0:
                 graph.pop()
-- 
2.43.0


From afbea144b30c7f0abe002df2814154610056c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 30/37] fix: the temporary files of create and display are
 removed on every exit

---
 src/gimpy/graph.py | 68 +++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index a45e789..fb78148 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1772,10 +1772,9 @@ class Graph(object):
             Returns postscript representation of graph.
         '''
         tmp_fd, tmp_name = tempfile.mkstemp()
-        tmp_file = os.fdopen(tmp_fd, 'w')
-        tmp_file.write(self.to_string())
-        tmp_file.close()
         try:
+            with os.fdopen(tmp_fd, 'w') as tmp_file:
+                tmp_file.write(self.to_string())
             p = subprocess.run([layout, '-T'+format, tmp_name],
                                capture_output = True)
         except OSError:
@@ -1784,12 +1783,11 @@ Graphviz must be installed and in your search path.
 Please visit http://www.graphviz.org/ for information on installation.
 After installation, ensure that the PATH variable is properly set.''')
             return None
+        finally:
+            os.remove(tmp_name)
 
-        
         p.check_returncode()
 
-        os.remove(tmp_name)
-            
         if p.stderr:
             print(p.stderr)
         return p.stdout
@@ -1870,41 +1868,43 @@ After installation, ensure that the PATH variable is properly set.''')
         elif self.attr['display'] == 'PIL':
             if PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                im.show()
-                os.remove(tmp_name)
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        self.write(tmp_file, self.get_layout(), format)
+                    im = PIL_Image.open(tmp_name)
+                    im.show()
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Error: PIL not installed. Display disabled.')
                 self.attr['display'] = 'off'
         elif self.attr['display'] == 'matplotlib':
             if MATPLOTLIB_INSTALLED and PIL_INSTALLED:
                 tmp_fd, tmp_name = tempfile.mkstemp()
-                tmp_file = os.fdopen(tmp_fd, 'w+b')
-                self.write(tmp_file, self.get_layout(), format)
-                tmp_file.close()
-                im = PIL_Image.open(tmp_name)
-                fig = plt.figure(1)
-                fig.canvas.mpl_connect('close_event', handle_close)
-                plt.clf()
-                plt.axis('off')
-                plt.imshow(im, interpolation='bilinear' #resample=True
-                           #extent = (0, 100, 0, 100)
-                )
-                if wait_for_click == True:
-                    plt.draw()
-                    try:
-                        if plt.waitforbuttonpress(timeout = 10000):
-                            plt.close()
+                try:
+                    with os.fdopen(tmp_fd, 'w+b') as tmp_file:
+                        self.write(tmp_file, self.get_layout(), format)
+                    im = PIL_Image.open(tmp_name)
+                    fig = plt.figure(1)
+                    fig.canvas.mpl_connect('close_event', handle_close)
+                    plt.clf()
+                    plt.axis('off')
+                    plt.imshow(im, interpolation='bilinear' #resample=True
+                               #extent = (0, 100, 0, 100)
+                    )
+                    if wait_for_click == True:
+                        plt.draw()
+                        try:
+                            if plt.waitforbuttonpress(timeout = 10000):
+                                plt.close()
+                                exit()
+                        except:
                             exit()
-                    except:
-                        exit()
-                else:
-                    plt.show(block=pause)
-                im.close()
-                os.remove(tmp_name)
+                    else:
+                        plt.show(block=pause)
+                    im.close()
+                finally:
+                    os.remove(tmp_name)
             else:
                 print('Warning: Either matplotlib or Pillow is not installed. Display disabled.')
                 self.attr['display'] = 'off'
-- 
2.43.0


From 6ddc9ed4c63eac66120476a58da0354a74acc9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 31/37] fix: display in dot2tex layout does not write a text it
 does not have

---
 src/gimpy/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index fb78148..c770586 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -1832,6 +1832,7 @@ After installation, ensure that the PATH variable is properly set.''')
                 print("         Automatically changing setting")
         if self.attr['display'] == 'file':
             if self.get_layout() == 'dot2tex':
+                tex = None
                 try:
                     if DOT2TEX_INSTALLED:
                         if format != 'pdf' or format != 'ps':
@@ -1850,8 +1851,9 @@ After installation, ensure that the PATH variable is properly set.''')
                                                  basename + '.dot'])
                     except:
                         print("There was an error running dot2tex.")
-                with open(basename+'.tex', 'w') as f:
-                    f.write(tex)
+                if tex is not None:
+                    with open(basename+'.tex', 'w') as f:
+                        f.write(tex)
                 try: 
                     subprocess.call(['latex', basename])
                     if format == 'ps':
-- 
2.43.0


From 7ed5790c92ba12c2b552845f5457e0af09fff51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:17 +0000
Subject: [PATCH 32/37] fix: an unnamed cluster does not replace a cluster of
 the same name

---
 src/gimpy/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index c770586..d754b51 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3554,6 +3554,9 @@ After installation, ensure that the PATH variable is properly set.''')
         else:
             name = 'c%d' %self.attr['cluster_count']
             self.attr['cluster_count'] += 1
+            while name in self.cluster:
+                name = 'c%d' %self.attr['cluster_count']
+                self.attr['cluster_count'] += 1
             cluster_attrs['name'] = name
         #cluster_attrs['name'] =
         self.cluster[name] = {'node_list':list(node_list),
-- 
2.43.0


From af6f934c92d7d8dd8a0f22f60cb8643d7d142741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 33/37] fix: a node named by a tuple is found by 'in'

---
 src/gimpy/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index d754b51..b00aa82 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -288,7 +288,10 @@ class Graph(object):
         Return:
             True if item is in graph.
         '''
-        if isinstance(item, tuple):
+        if item in self.nodes:
+            # a node, which may itself be named by a tuple
+            return True
+        if isinstance(item, tuple) and len(item) == 2:
             name1 = item[0]
             name2 = item[1]
             if self.graph_type == DIRECTED_GRAPH:
@@ -297,7 +300,7 @@ class Graph(object):
                 return ((name1, name2) in self.edge_attr or
                         (name2, name1) in self.edge_attr)
         else:
-            return item in self.nodes
+            return False
 
     def add_node(self, name, **attr):
         '''
-- 
2.43.0


From ddd3ee8c752c40bafc8e71282617888cc7f2913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 34/37] fix: acyclic_shortest_path works on trees, whose dfs
 takes other arguments

---
 src/gimpy/graph.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index b00aa82..88a027b 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -885,16 +885,18 @@ class Graph(object):
             if not transpose:
                 if self.get_node(i).get_attr('disc_time') is None:
                     pred[i] = root
-                    disc_count, finish_count = self.dfs(i, disc_count,
-                                                        finish_count, topological_order,
-                                                        component, transpose,
-                                                        pred = pred)
+                    disc_count, finish_count = Graph.dfs(self, i, disc_count,
+                                                         finish_count,
+                                                         topological_order,
+                                                         component, transpose,
+                                                         pred = pred)
             else:
                 if self.get_node(i).get_attr('component') is None:
-                    disc_count, finish_count = self.dfs(i, disc_count,
-                                                        finish_count, topological_order,
-                                                        component, transpose,
-                                                        pred = pred)
+                    disc_count, finish_count = Graph.dfs(self, i, disc_count,
+                                                         finish_count,
+                                                         topological_order,
+                                                         component, transpose,
+                                                         pred = pred)
         self.get_node(root).set_attr('finish_time', finish_count)
         if topological_order != None:
             topological_order.insert(0, root)
@@ -985,7 +987,8 @@ class Graph(object):
         found = False
         for n in G.get_node_list():
             G.get_node(n).set_attr('disc_time', None)
-        G.dfs(source, topological_order = order)
+        # subclasses give dfs() another meaning and other arguments
+        Graph.dfs(G, source, topological_order = order)
         dist[source] = 0
         for m in order:
             if m == destination:
-- 
2.43.0


From 3d081a133948b0e72bf3e33ce39560f64373a660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 35/37] fix: node potentials of the network simplex follow the
 tree arcs only

With arcs in both directions between two nodes, the potential of a node
was taken from the arc outside the spanning tree.
---
 src/gimpy/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 88a027b..777ed9e 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -3121,10 +3121,10 @@ After installation, ensure that the PATH variable is properly set.''')
         while j != root:
             i = t.get_node(j).get_attr('pred')
             potential_i = self.get_node(i).get_attr('potential')
-            if (i,j) in self.edge_attr:
+            if (i,j) in t.edge_attr:
                 c_ij = self.edge_attr[(i,j)]['cost']
                 self.get_node(j).set_attr('potential', potential_i-c_ij)
-            if (j,i) in self.edge_attr:
+            if (j,i) in t.edge_attr:
                 c_ji = self.edge_attr[(j,i)]['cost']
                 self.get_node(j).set_attr('potential', potential_i+c_ji)
             j = t.get_node(j).get_attr('thread')
-- 
2.43.0


From 0801b05dbb580d99bcf982f9eb4d634d93bfb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:05 +0000
Subject: [PATCH 36/37] fix: a graph attribute without a value no longer
 declares a node of that name

---
 src/gimpy/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 777ed9e..35f8eaf 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -673,10 +673,10 @@ class Graph(object):
             if a not in GRAPH_ATTRIBUTES:
                 continue
             val = self.attr[a]
-            if val is not None:
-                graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
-            else:
-                graph.append(a)
+            if val is None:
+                # a bare word would declare a node of that name
+                continue
+            graph.append( '%s=%s' % (a, quote_if_necessary(str(val))) )
             graph.append( ';\n' )
         # clusters
         for c in self.cluster:
-- 
2.43.0


From 461760f8970115991d0a2ceecef8161e7689f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:39 +0000
Subject: [PATCH 37/37] fix: hamiltonian without a destination finds a path
 over all nodes

---
 src/gimpy/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gimpy/graph.py b/src/gimpy/graph.py
index 35f8eaf..bff1f90 100755
--- a/src/gimpy/graph.py
+++ b/src/gimpy/graph.py
@@ -942,7 +942,7 @@ class Graph(object):
             if source == destination and distance == self.get_node_num() - 1:
                 return True
         else:
-            if distance == self.get_node_num():
+            if distance == self.get_node_num() - 1:
                 return True
 
         self.get_node(source).set_attr('visited', True)
-- 
2.43.0

