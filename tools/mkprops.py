"""Writes /verif/properties.jsonl from the table below (kept as code so ids stay stable and lines valid)."""
import json, os
G="src/gimpy/graph.py"; T="src/gimpy/tree.py"; K="src/gimpy/global_constants.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
          state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
          mechanism=[dict(name=a,where=b) for a,b in mech],
          observe_at=list(observe),hook_needed=None)))

p("C01","Node list, edge list and neighbour lists always agree",
 "After any sequence of adding and deleting nodes and edges, on directed and on undirected graphs (self-loops included), the node list, the edge list and the neighbour and in-neighbour lists describe one and the same graph. Every edge is present in the neighbour list of its source (of both endpoints when undirected) and in the in-neighbour list of its sink, once for each such endpoint, and a deleted node or edge is gone from every one of these views.",
 ["histories","inputs"],"every history of add/delete calls, both graph types, every pair of names incl. equal ones",
 "The suite only builds directed graphs with add_edge and deletes only s/t; it never compares the views.",
 [G],[("add_node/add_edge/del_node/del_edge update all tables together",G),("no other code writes the adjacency tables",G+", "+T)],
 [("edge_attr","edge -> attributes","Graph"),("neighbors / in_neighbors","adjacency lists","Graph"),("nodes","name -> Node","Graph")],
 ["get_edge_list","get_neighbors","get_in_neighbors","get_node_list","check_edge"])
p("C02","A rejected change leaves the graph untouched",
 "When adding or deleting a node, an edge, a tree or binary-tree child, or a cluster is refused with an exception (duplicate node or edge, occupied child slot, missing node, edge or parent, cluster name already used), the graph is exactly as it was before the call: no node, edge, neighbour entry, attribute or child link has been added, changed or removed.",
 ["inputs","histories"],"every refused call in every graph state",
 "No test makes a call that is refused.",
 [G,T],[("checks precede the first write in every mutator","Graph.add_*/del_*, create_cluster, Tree.add_*, BinaryTree.add_*_child")])
p("C03","An undirected edge answers to both endpoint orders",
 "In an undirected graph an edge added as (a,b) is the same edge as (b,a) for every operation that names it: existence tests, reading and setting its attributes, rejecting a duplicate, deleting it, deleting an endpoint, and rendering it inside a cluster. No operation fails or treats the edge as absent because its endpoints were named in the other order; in a directed graph (a,b) and (b,a) stay different edges.",
 ["inputs","histories"],"every edge, both storage orders, both query orders",
 "Tests use undirected graphs only for component labelling.",
 [G],[("fallback to the reversed key when the graph is undirected","Graph.get_edge_attr/set_edge_attr/check_edge/__contains__/del_edge/add_edge/del_node/edge_to_string")])
p("C04","Algorithms leave the graph's nodes and edges as they were",
 "Running any search, spanning-tree, shortest-path, component, flow, simplex, ranking or display operation leaves exactly the same nodes and edges in the graph it is called on. Auxiliary nodes and arcs that an algorithm adds for its own use (the artificial source and sink of the feasible-flow phase) are gone again on every return, feasible or infeasible.",
 ["inputs","histories"],"every graph and every normal exit of every algorithm",
 "Tests do not compare the graph before and after, and hardly ever take the infeasible exit.",
 [G,T],[("find_feasible_flow deletes s and t on every return",G),("algorithms never call mutators on self",G)])
p("C05","Algorithms never alter costs, capacities or demands",
 "No algorithm changes the problem data stored in the graph: edge costs, edge capacities and node demands read the same after any algorithm as before it. The one exception is that the maximum-flow methods give an edge that has no capacity the default capacity.",
 ["inputs","histories"],"every graph, every algorithm, every option",
 "Tests compare only total costs of two runs on small instances; most algorithms have no value check at all.",
 [G,T],[("algorithms write only working attributes",G)],
 [("cost, capacity, demand","problem data attributes","edge_attr[...] and node.attr")])
p("C06","A display argument does not outlive the call",
 "Passing a display mode to an algorithm or traversal affects that call only: when it returns, the graph's global display mode is the one it had before the call, whichever return is taken. Only set_display_mode and the documented fallback of display() itself (a mode whose library is missing, or dot2tex forcing file mode) change it.",
 ["inputs","configurations"],"every method with a display parameter, every return path, every mode",
 "Tests run with display off and never read the mode back.",
 [G,T],[("save and restore of the display attribute around the call","max_flow, BinaryTree.traverse, BinaryTree.print_nodes, and the algorithms in Graph")],
 [("attr['display']","global display mode","Graph.attr")])
p("C07","Results do not depend on what ran on the graph before",
 "An algorithm's outcome depends only on the graph, its problem data and its arguments: working attributes (colours, distances, component numbers, discovery indices, visited marks, excesses, flows) left behind by an earlier run, or carried in by the user as styling, never steer it. Running any algorithm after any other gives the same result as running it on a fresh copy of the graph (dfs alone continues on purpose from the discovery times and components of earlier calls).",
 ["histories"],"every pair of algorithm runs on one graph",
 "Tests run each algorithm in one fixed order and check no values; a run that silently does nothing passes.",
 [G],[("each algorithm re-initialises, on every node or edge, each working attribute before reading it",G)])
p("C08","Graphs, elements and calls share no hidden state",
 "Each graph, node, edge and cluster owns its attribute storage: it is not shared with another element, with a module-wide default, or with a dictionary or list the caller passed in. No call leaves anything behind in a default argument, in the caller's arguments or in module state that a later call, on this or another graph, could observe.",
 ["histories","inputs"],"every history of calls on any number of graphs",
 "Tests build one graph per process and do not repeat calls that rely on default arguments.",
 [G,T,K],[("deep copies of the default attributes","Node.__init__, Graph.__init__, add_edge, create_cluster"),("None defaults for work queues",G+", "+T)])
p("C09","Rendering leaves no temporary file or descriptor behind",
 "Every temporary file that rendering or displaying a graph creates is closed and removed by the time the call ends, whether it returns normally, Graphviz is missing, Graphviz fails, or the image cannot be opened.",
 ["fault_sequences","inputs"],"every exit, normal or exceptional, of rendering and display",
 "No test makes Graphviz fail, and none looks at the temporary directory.",
 [G],[("os.remove on every exit","Graph.create, Graph.display")])
p("C10","A failed Graphviz run is never passed off as a rendering",
 "If Graphviz cannot be started the user is told and no image data is produced or written; if it exits with an error the call raises. Image data is returned or written only after Graphviz has been checked to have succeeded.",
 ["fault_sequences"],"every outcome of starting and running Graphviz",
 "Tests never run with Graphviz missing or failing.",
 [G],[("check_returncode before stdout is returned; None when it could not start","Graph.create, Graph.write")])
p("C11","DOT output lists every node and every edge exactly once",
 "The DOT text of a graph whose node names differ as text declares every node and every edge of the graph exactly once, with and without clusters (for disjoint clusters), for directed and undirected graphs, and nothing else; every attribute of a node or edge appears in its declaration. Cluster members and the edges between them appear inside their cluster.",
 ["inputs"],"every graph, clustering and attribute set",
 "One test prints one directed clustered graph without looking at the text.",
 [G],[("processed_edges bookkeeping and cluster membership test","Graph.to_string"),("attribute loops","Node.to_string, Graph.edge_to_string")])
p("C12","Names and values cannot break the DOT text",
 "Whatever node names, attribute values and labels (of the graph, nodes, edges and clusters) contain, each is emitted as one DOT identifier: bare only if it is a legal bare DOT identifier (optionally with a port), and otherwise inside double quotes with embedded double quotes escaped. Text the user already quoted or wrapped as HTML, and DOT keywords, are passed through as documented.",
 ["inputs"],"every string",
 "Tests render a handful of plain names and never parse the output.",
 [K,G],[("quote_if_necessary on every user value","Node.to_string, Graph.edge_to_string, Graph.to_string"),("bare-identifier patterns",K)])
p("C13","Node names are opaque: any hashable name works the same",
 "Node names may be any hashable values other than None (0, the empty string, large integers, tuples, arbitrary strings): they are compared by equality only, and never by object identity, by order, by truth value, or by conversion to a number. A graph or tree whose nodes are renamed consistently behaves the same (the names 's' and 't', reserved by the feasible-flow phase, excepted).",
 ["inputs"],"every set of node names, every algorithm",
 "Tests name nodes with small integers, for which identity, order, truth and int() happen to work.",
 [G,T],[("equality comparison of names, None tests for absence",G+", "+T)])
p("C14","Zero and empty values are never mistaken for missing ones",
 "A value of zero (component number 0, distance or priority 0, cost, capacity or flow 0, a subexpression that evaluates to 0, a clustered or component attribute that is empty) is treated as the value it is. Only an absent or None value counts as missing.",
 ["inputs"],"every numeric or empty value in every role where absence is also possible",
 "Tests never evaluate expressions containing zero and do not check component numbers.",
 [G,T],[("is None / in tests instead of truth tests",G+", "+T)])
p("C15","Flow updates conserve flow",
 "Every change of flow made by the maximum-flow, cycle-cancelling and simplex methods conserves flow: along the augmenting path or cycle every arc used forwards gains, and every arc used backwards loses, one and the same amount, and no other arc changes. A preflow push changes the excess of the two endpoints by opposite amounts equal to the change of flow.",
 ["inputs","histories"],"every augmentation and push on every network",
 "Only total costs on a few small instances are compared, for two of the methods; max-flow values are never checked.",
 [G],[("forward +amount / backward -amount updates","max_flow, augment_cycle, simplex_remove_arc, process_edge_flow")])
p("C16","Flow never exceeds capacity or drops below zero",
 "The amount by which flow is changed is at most the residual capacity (capacity minus flow on an arc used forwards, flow on an arc used backwards) of every arc on the path or cycle, the closing arc of a cycle included. Flows start at zero, or saturated out of the source for preflow, and residual graphs offer exactly the arcs with positive residual capacity, backward ones at negated cost.",
 ["inputs","histories"],"every augmentation and push on every network",
 "As for conservation: flows are never compared with capacities.",
 [G],[("bottleneck minimum over all arcs","max_flow, find_cycle_capacity, simplex_augment_cycle, simplex_determine_leaving_arc, process_edge_flow, create_residual_graph")])
p("C17","Path labels only ever improve, together with their predecessor",
 "Dijkstra, Prim, the label-correcting, acyclic and all-pairs shortest-path methods replace a node's recorded label exactly when the new candidate is strictly smaller or there was none. Label and predecessor are replaced together, and the candidate is the tail's label plus the cost of the arc used (for Prim, the cost alone).",
 ["inputs"],"every arc relaxation on every graph",
 "Tests only check that the methods finish.",
 [G],[("compare-and-update of label and predecessor","process_edge_dijkstra, process_edge_prim, minimum_spanning_tree_prim, acyclic_shortest_path, fifo_label_correcting, floyd_warshall")])
p("C18","Kruskal and disjoint sets only ever join different sets",
 "Uniting two items links the roots of their sets exactly when the roots differ, reports whether it did, keeps the root's size equal to the number of members, and with optimisation on hangs the smaller set under the larger; path compression keeps every item in its set. Kruskal considers edges in order of increasing cost and selects an edge exactly when it joins two different sets.",
 ["inputs","histories"],"every sequence of unions and finds, every graph",
 "Kruskal is run without checking its result.",
 [G],[("union/find/add on root nodes","DisjointSet"),("edges.append guarded by union","minimum_spanning_tree_kruskal")])
p("C19","Unknown options are rejected explicitly",
 "A value that is not one of the documented choices of an option (search algorithm, max-flow and preflow rule, min-cost-flow algorithm, pivot rule, random-graph node selection) is answered with an explicit message or exception naming the problem. It never silently runs some other choice and never ends in an internal error.",
 ["inputs","configurations"],"every value of every option",
 "Tests only pass documented values.",
 [G],[("final else branch of each option dispatch","search, max_flow, max_flow_preflowpush, min_cost_flow, simplex_select_entering_arc, random")])
p("C20","Every internal reference resolves",
 "No public operation can fail because the library itself refers to something that does not exist: every name, module attribute and method it uses exists, every call to one of its own functions passes an acceptable argument list (for the subclass overrides too), every local variable is assigned before it is used, and every graph-level setting it reads is present on every graph. Operations that return a value on one normal path return one on all of them.",
 ["inputs","configurations","programs"],"every path of every operation in every class",
 "A broken reference shows only on the path that executes it; many paths and whole methods are never run by the tests.",
 [G,T,K,"src/gimpy/__init__.py"],[("definitions and constructor defaults",G+", "+T)])
p("C21","Tree links, levels and child slots agree",
 "In a tree, every node added as a child has its parent recorded, a level one more than its parent's, and an edge from the parent, and the root has level zero. In a binary tree the parent's left or right slot names exactly the child added on that side, an occupied slot is never overwritten, each side is read back as that side, traversals and expression evaluation take the sides in the order asked for, and deleting a node clears exactly the slot that referred to it.",
 ["histories"],"every sequence of tree operations",
 "Tests build two trees and print them without checking.",
 [T],[("add_child/add_left_child/add_right_child/del_node",T)])
p("C22","Searches examine every reachable node and then stop",
 "A search or traversal takes every node it expands off its work list, examines every neighbour of it in the requested direction (in a flow network, over arcs with capacity left and back over arcs that carry flow), and skips only nodes that are already finished. Every pass of a search loop removes a node from the work list, so no search spins on one node or abandons nodes still waiting unless its destination has been found. A tree traversal asked for by name starts from the root it is given, the tree's own when it is given none, and takes nodes in the order its name says.",
 ["inputs"],"every graph or tree and search option",
 "Tests check only that searches finish on dense graphs.",
 [G,T],[("work-list loops","search, minimum_spanning_tree_prim, max_flow, max_flow_preflowpush, fifo_label_correcting, simplex_search, simplex_redraw, simplex_find_cycle, Tree.traverse, BinaryTree.traverse")])
p("C23","Generated graphs and results are reproducible",
 "A random graph is a function of the arguments alone: every random draw comes after seeding with the given seed, and the same seed gives the same graph whatever was drawn before. No other operation draws random numbers or lets clock, object identity or hash order decide its result.",
 ["histories","configurations"],"every call history, process and hash seed",
 "The tests fix PYTHONHASHSEED and never generate a graph twice.",
 [G],[("random.seed before the first draw","Graph.random"),("dictionaries and lists, not sets, drive iteration",G)])
p("C24","Component labels number the components exactly",
 "Component labelling starts a new number for each node not reached yet, gives that number to everything reached from it, and ends with the number of components equal to the number of labels used. In strong component labelling a node closes a component exactly when its low link equals its index, the component is exactly what was stacked since that node, and low links take the minimum over tree arcs and arcs into the stack only.",
 ["inputs"],"every graph",
 "Tests print labels without checking them.",
 [G],[("label_components, tarjan, strong_connect, search",G)])
p("C25","Simplex pricing rules and optimality test agree",
 "The optimality test, and each pivot rule, regard the same non-tree arcs as violating: those at zero flow with negative reduced cost and those at capacity with positive reduced cost, where the reduced cost is the arc cost minus the potential of its tail plus the potential of its head. Node potentials are such that tree arcs have zero reduced cost.",
 ["inputs"],"every spanning tree solution",
 "A few seeds compare final costs; a rule that misses some violating arcs stops at a worse solution only on particular instances.",
 [G],[("three copies of the violation test","simplex_optimal, simplex_select_entering_arc"),("simplex_compute_potentials",G)])
p("C26","Infeasibility is always detected and reported",
 "Whenever the feasible-flow phase leaves any supply unsent it reports failure, every solver stops at once and reports failure to its caller, and the top-level min-cost-flow call tells the user that the problem is infeasible. No solver goes on to improve, or presents as a solution, the flow of an infeasible problem.",
 ["inputs"],"every infeasible instance and every solver",
 "Infeasible seeds are skipped by the test harness.",
 [G],[("boolean result checked at each level","find_feasible_flow, cycle_canceling, network_simplex, min_cost_flow")])
p("C27","Queries and exports never modify the graph",
 "Reading from a graph does not change it: lookups, attribute and degree queries, existence tests, string and DOT export, writing and rendering to an image, residual and solution graph construction, reading a path or cycle out of computed labels, optimality tests and page rank leave every node, edge, attribute and setting as they were.",
 ["inputs","histories"],"every query on every graph",
 "Tests never compare a graph before and after a query.",
 [G,T],[("queries contain no writes to graph state",G+", "+T)])
p("C28","Returned paths and cycles are contiguous",
 "A path returned by a search or shortest-path query runs from the requested source to the requested destination, each node following its recorded predecessor with none skipped or repeated. A cycle returned by cycle detection is likewise closed and contiguous in the direction reported, and one that is to be negative is sought only at a node whose distance to itself is below zero.",
 ["inputs"],"every graph and every query",
 "Returned paths are never examined by the tests.",
 [G],[("predecessor walks","search, acyclic_shortest_path, floyd_warshall_get_path, floyd_warshall_get_cycle, label_correcting_get_cycle, simplex_find_cycle, simplex_identify_cycle")])
p("C32","Distances, degrees, counts and verdicts are what they claim",
 "A search by hops (breadth-first, unweighted shortest paths, depth-first) gives its start distance 0 and a node it reaches exactly one more than the node it is reached from, and a breadth-first or unweighted search keeps the distance of a node it has reached unless the new one is smaller. Degrees are the lengths of the neighbour lists (incoming, outgoing, or both), node and edge counts the lengths of the lists, and the diameter is the largest distance along shortest (fewest-edge) paths over all pairs of nodes, 'infinity' if some pair is not connected. A Hamiltonian search says yes exactly when it stands on the last unvisited node (the destination, if one is given) or a step further says yes. Label correcting returns (True, predecessors) or (False, a negative cycle it found).",
 ["inputs","histories"],"every graph, both types, every start, destination and search algorithm",
 "No test looks at distances of unweighted searches, at degrees, at the diameter or at Hamiltonian paths.",
 [G],[("process_edge_search records hop distances",G),("get_degrees, get_in_degrees, get_out_degrees, get_diameter, get_node_num, get_edge_num",G),("hamiltonian",G),("fifo_label_correcting's result",G)],
 [("distance, depth","working attributes of a search","node.attr"),("visited","mark of the Hamiltonian search","node.attr")],
 ["get_degrees","get_diameter","hamiltonian","get_node_attr(n,'distance')"])
p("C33","Preflow push keeps its labels valid and its active nodes active",
 "Preflow push pushes flow from a node only to a node labelled exactly one lower, over an arc with residual capacity, and no more than the node's excess; a push reports whether it moved flow. Relabelling gives a node one more than its lowest-labelled neighbour over an arc with residual capacity, forward or backward. The labels start as the distances in arcs to the sink, with the number of nodes for the source. Every node whose arc from the source is saturated at the start, and every node flow is pushed to (source and sink apart), is put on the list of active nodes unless it is there, under each of the three selection rules.",
 ["inputs","histories"],"every network, each of FIFO, SAP and HighestLabel, every sequence of pushes and relabels",
 "The tests compare the flow of a few networks with that of augmenting paths; a wrong label or a forgotten active node shows only on networks where flow must be sent back.",
 [G],[("process_edge_flow, relabel, max_flow_preflowpush",G)],
 [("label","a node's distance attribute during preflow push","node.attr['distance']"),("active node","a node with excess waiting to push","the queue of max_flow_preflowpush")],
 ["max_flow_preflowpush"])
p("C34","Network simplex works on a spanning tree of the network",
 "The graph network simplex starts from has every node and exactly the arcs whose flow is strictly between zero and capacity, each in its direction. Flow is augmented along cycles of it until the graph built anew has none; then it is connected, each arc added being one of the network that joins a node outside the component of a node to one inside it, until no arc needs to be added. The indices recorded (predecessor, depth, thread, component) are those of one traversal of the tree along its arcs in either direction, and the arc that leaves is the one removed from the tree.",
 ["inputs","histories"],"every network, every feasible flow, every sequence of pivots",
 "The tests pivot on some forty random networks; an arc taken for basic at its bound, or a second arc joining the same component, shows only on degenerate flows.",
 [G],[("get_simplex_solution_graph, simplex_find_tree, simplex_connect, simplex_search, simplex_remove_arc",G)],
 [("basic arc","an arc with flow strictly between zero and capacity","edge_attr[e]['flow'], edge_attr[e]['capacity']"),("component","the nodes the traversal reaches","node.attr['component']")],
 ["simplex_find_tree","simplex_search"])
p("C35","Depth-first search numbers, labels and orders the nodes it reaches",
 "Graph.dfs gives every node it reaches a discovery time (one more than the last given) before any of its neighbours is visited and a finishing time (the next in turn) after the last of them, whatever counts it is started with, and returns the counts to go on with. Every node reached gets the component of the call. When an order is handed in, even an empty one, every node reached is put first in it after all nodes reached from it, so that on an acyclic graph it becomes a topological order; tree arcs are recorded in the table of predecessors of the call at every depth.",
 ["inputs","histories"],"every graph, root, start counts, component and order handed in, every depth of recursion",
 "Topological orders and times of a few small graphs are seen at most through shortest paths; an error that shows only below the first level, or with a second root, passes.",
 [G],[("dfs",G)],
 [("discovery time","when a node was first reached","node.attr['disc_time']"),("finishing time","when its last neighbour was done","node.attr['finish_time']")],
 ["dfs"])
p("C36","Negative cycles are reported and cancelled",
 "Graph.floyd_warshall says its distances are invalid exactly when some node has a distance below zero to itself, a negative self-loop included; get_negative_cycle then returns a cycle, and None otherwise. Graph.fifo_label_correcting answers False only with the negative cycle its test found, and as soon as it finds one. Graph.cycle_canceling augments each negative cycle by the capacity measured for that cycle, looks for the next one in the residual network built after the augmentation, and reports success only when none is left.",
 ["inputs","histories"],"every network with costs of either sign, every sequence of augmentations",
 "Tests use costs of zero or more for nearly all networks; a cycle of cost -1, through a self-loop, or found only after a second augmentation is not reached.",
 [G],[("floyd_warshall, get_negative_cycle, fifo_label_correcting, cycle_canceling",G)],
 [("negative cycle","a closed walk of arcs whose costs sum to less than zero","cycle, ncycle"),("residual network","the network of remaining capacities of the current flow","create_residual_graph()")],
 ["floyd_warshall","get_negative_cycle","fifo_label_correcting","cycle_canceling"])
p("C37","A step of page rank is the damped random-walk equation",
 "In every pass Graph.page_rank gives each node (1 - damping_factor) / number of nodes plus damping_factor * rank / out-degree of every page referring to it, and of no other page: direction of the links, out-degree (not in-degree) and damping are those of the definition, links of a page to itself count, and a lower rank replaces a higher one just as a higher a lower one. The iteration is left early only when the sum of absolute changes of a whole pass is within min_delta.",
 ["inputs"],"every directed graph, damping factor and tolerance, every pass of the iteration",
 "page_rank is not called by the tests at all; on symmetric graphs most errors cancel out.",
 [G],[("page_rank",G)],
 [("referring page","a node with an arc to the node ranked","get_in_neighbors(node)"),("out-degree","number of arcs out of the referring page","len(get_neighbors(referring_page))"),("change of a pass","sum over the nodes of the absolute difference of old and new rank","diff")],
 ["page_rank"])
p("C29","Min-cost-flow solutions are optimal and max flows maximal",
 "When the solvers report success the flow is of minimum cost (maximum value) among all feasible flows, and the simplex, cycle-cancelling, augmenting-path and preflow methods agree on that value.",
 ["inputs"],"every feasible network",
 "Equality of costs is tested for some 40 seeds.",
 [G],[("network_simplex, cycle_canceling, max_flow, max_flow_preflowpush",G)])
p("C30","Iterative methods terminate",
 "Network simplex, cycle cancelling, preflow push and page rank terminate on every valid input.",
 ["inputs"],"every valid network",
 "Termination on samples only.",
 [G],[("pivot and relabel loops",G)])
p("C31","Page rank converges to the damped random-walk distribution",
 "Page rank values are non-negative, agree within the tolerance with the fixed point of the damped random-walk equations, and sum to one on graphs without dangling nodes.",
 ["inputs"],"every directed graph",
 "Never called by the tests.",
 [G],[("page_rank iteration",G)])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
if __name__=="__main__":
    import sys
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(len(P))
