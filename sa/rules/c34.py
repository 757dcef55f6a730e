"""C34: network simplex works on a spanning tree of the network."""
from .base import *
from .leaf import *
from .c15 import explore_it
from .c21 import args_of
from .c22 import mentions, same_el
from .c24 import attr, attr_set, NODES, all_nodes
from .c32 import known_sign, last_fact, linear, has_none, where

ID = 'C34'
TECHNIQUE = 'comparison of the tree construction with its definition by abstract interpretation (guard and value tables, set and dictionary contents)'
RULE = ('the graph of the arcs with flow strictly between the bounds has every node, exactly those arcs, each in its direction; cycles of '
        'it are augmented until a freshly built one has none; it is then connected, one arc of the network at a time, each joining a node '
        'outside the reached component to one inside, until it reports that there is nothing to add; the indices pred, depth, thread '
        'and component are those of the traversal; the arc that leaves is the one removed')
EXPLANATION = ('Each of the operations is interpreted abstractly for every network; guards, the arcs added and removed, and the values '
               'stored are compared with the definition of a spanning tree solution. Terms the analysis does not understand are left alone.')
MINIMUM = {'arc_cases': 3, 'joins': 2, 'indices': 3}
EA = ('f', SELF, 'edge_attr')


def parts_of(x):
    """the two ends of an arc of the network given as a loop element"""
    return ('i', x, C(0)), ('i', x, C(1))


def solution(prog, res):
    r = explore(prog, 'Graph', 'get_simplex_solution_graph', 'digraph', res=res, sink=False, merge=False, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'set', 'test', 'loop', 'loopx', 'mut', 'del'),
                opaque=composed(('add_node', 'add_edge')), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.get_simplex_solution_graph')
    it, outs = r
    site0 = where(prog, 'get_simplex_solution_graph')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o))
        calls = [e for lf in lvs for e in lf.events if e[0] == 'call']
        if any(e[3] not in ('add_node', 'add_edge') for e in calls):
            continue
        new = o[1]
        here = not any(e[3] == 'add_edge' for e in calls) or \
            any(e[0] == 'call' and e[3] == 'add_edge' for lf in lvs if lf.loops and lf.loops[-1][3][1:] == (EA,) for e in lf.events)
        if not any(e[3] == 'add_node' for e in calls) and not any(e[0] in ('set', 'mut', 'setf') and e[2] != NODES for lf in lvs for e in lf.events):
            res.find('nodes', site0, 'add_node', 'the nodes of the network are not put in the solution graph: those without a basic arc are missing')
        for lf in lvs:
            if lf.nested or not lf.loops:
                continue
            src = lf.loops[-1][3]
            if all_nodes(src) and len(lf.loops) == 1:
                n = [a for a in lf.phis.values() if a[0] == 'el']
                if not any(e[0] == 'call' and e[3] == 'add_node' for e in lf.events) and any(e[3] == 'add_node' for e in calls) and \
                        not any(f[0] in ('in', 'true', 'none') and n and mentions(f, n[0]) for f, v in lf.facts) and \
                        not any(all_nodes(l2.loops[-1][3]) and any(e[0] == 'call' and e[3] == 'add_node' for e in l2.events)
                                for l2 in lvs if l2.loops and l2.loops[-1][3] != src) and \
                        any(mentions(k, n[0]) for k in lf.signs) if n else False:
                    res.find('nodes', site0, 'add_node', 'a node of the network need not be put in the solution graph')
            if src[0] not in ('keys', 'items') or src[1] != EA or len(lf.loops) != 1:
                continue
            E = ('el', lf.loops[-1][2] if isinstance(lf.loops[-1][2], int) else None, src)
            els = {x for k in list(lf.signs) + [f for f, v in lf.facts] for x in subterms(k) if x[0] == 'el' and x[2] == ('keys', EA)} | \
                {x for v in lf.phis.values() for x in subterms(v) if x[0] == 'el' and x[2] == ('keys', EA)} | \
                {x for e in lf.events if e[0] == 'call' for a in e[4] for x in subterms(restrip(a)) if x[0] == 'el' and x[2] == ('keys', EA)}
            if len(els) != 1:
                continue
            E = els.pop()
            flow, cap = ('i', ('i', EA, E), C('flow')), ('i', ('i', EA, E), C('capacity'))
            sf, sc = known_sign(lf, flow), known_sign(lf, lin_add(cap, lin_scale(flow, -1)))
            adds = [e for e in lf.events if e[0] == 'call' and e[3] == 'add_edge' and e[2] == new]
            if any(k[0] in ('in', 'true', 'none') and v is not None and mentions(k, E) for k, v in lf.facts) or \
                    any(mentions(k, E) and not all(x in (flow, cap) for x in lin_parts(k)[1]) for k in lf.signs):
                continue
            res.count('arc_cases')
            if adds:
                a, b = (restrip(x) if x is not None else None for x in args_of(adds[0], ('name1', 'name2')))
                i, j = parts_of(E)
                if (a, b) == (j, i):
                    res.find('basic', adds[0][1], 'reversed', 'an arc of the network is put in the solution graph in the opposite direction')
                elif (a, b) in ((i, i), (j, j)):
                    res.find('basic', adds[0][1], 'ends', 'an arc of the network is put in the solution graph with one end twice')
                if sf is None or 0 in sf:
                    res.find('basic', adds[0][1], 'no flow', 'an arc without flow is taken for one with flow strictly between the bounds')
                elif sc is None or 0 in sc:
                    res.find('basic', adds[0][1], 'saturated', 'an arc with as much flow as capacity is taken for one with flow strictly between the bounds')
            elif here and (sf is None or 1 in sf) and (sc is None or 1 in sc):
                res.find('basic', site0, 'left out', 'an arc with flow strictly between the bounds need not be put in the solution graph')


CYC = ('simplex_find_cycle', 'get_simplex_solution_graph', 'simplex_augment_cycle', 'augment_cycle', 'simplex_connect')


def tree(prog, res):
    it, outs, site0 = explore_it(prog, res, 'simplex_find_tree', {}, CYC, everything=False)
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o))
        top = next(l for l in lvs if not l.loops)
        calls = [e for lf in lvs for e in lf.events if e[0] == 'call']
        if any(e[3] not in CYC for e in calls):
            continue
        res.count('trees')
        names = {e[3] for e in calls}
        if 'simplex_connect' not in names:
            res.find('connect', site0, 'simplex_connect', 'the solution graph is returned without having been connected')
        else:
            rets = {e[6] for e in calls if e[3] == 'simplex_connect'}
            ends = [(k, v) for lf in lvs if not lf.loops for k, v in lf.facts if k[0] == 'true' and k[1] in rets]
            if ends and ends[-1][1] is True:
                res.find('connect', site0, 'stops', 'the solution graph is taken as connected right after an arc had to be added')
            if not ends and not any(e[0] == 'call' and e[3] == 'simplex_connect' for lf in lvs if lf.loops for e in lf.events) and \
                    not any(rets & set(subterms(k)) for lf in lvs for k in [k for k, v in lf.facts] + list(lf.signs)):
                res.find('connect', site0, 'once', 'the solution graph is returned without having been reported as connected')
        if 'simplex_find_cycle' not in names:
            res.find('cycle', site0, 'simplex_find_cycle', 'cycles of the solution graph are not looked for')
        else:
            rets = {e[6] for e in calls if e[3] == 'simplex_find_cycle'}
            ends = [(k, v) for k, v in top.facts if k[0] == 'none' and
                    (k[1] in rets or k[1][0] == 'phi' and any(lf.phis.get(k[1][2]) in rets for lf in lvs if lf.loops))]
            if ends and all(v is False for k, v in ends):
                res.find('cycle', site0, 'stops', 'a cycle of the solution graph is left as it is')
            loops = [lf for lf in lvs if lf.loops and any(e[0] == 'call' and e[3] == 'augment_cycle' for e in lf.events)]
            for lf in loops:
                evs = [e for e in lf.events if e[0] == 'call']
                ix = [i for i, e in enumerate(evs) if e[3] == 'augment_cycle'][-1]
                again = [i for i, e in enumerate(evs) if i > ix and e[3] == 'simplex_find_cycle']
                if again and not any(e[3] == 'get_simplex_solution_graph' for e in evs[ix:again[-1]]):
                    res.find('cycle', evs[again[-1]][1], 'stale', 'the next cycle is looked for in the solution graph as it was before the augmentation')
                elif not any(e[3] == 'simplex_find_cycle' for e in evs):
                    res.find('cycle', evs[ix][1], 'once', 'cycles of the solution graph are not looked for again after an augmentation')



def connect(prog, res):
    r = explore(prog, 'Graph', 'simplex_connect', 'digraph', res=res, sink=False, merge=False, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'set', 'test', 'loop', 'loopx', 'mut', 'del', 'lit', 'cadd'),
                opaque=composed(('simplex_search', 'add_edge')), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.simplex_connect')
    it, outs = r
    site0 = where(prog, 'simplex_connect')
    SG = ('s', 'solution_g')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o))
        if any(e[0] == 'call' and e[3] not in ('simplex_search', 'add_edge') for lf in lvs for e in lf.events):
            continue
        srch = [e for lf in lvs for e in lf.events if e[0] == 'call' and e[3] == 'simplex_search' and e[2] == SG]
        if not srch:
            res.find('join', site0, 'search', 'the component of a node is not determined before arcs are added')
            continue
        reached = srch[0][6]
        nr = args_of(srch[0], ('source', 'component_nr'))[1]
        top = next(l for l in lvs if not l.loops)
        adds = [e for e in top.events if e[0] == 'call' and e[3] == 'add_edge' and e[2] == SG]
        if o[1] == C(True) and not adds:
            if not any(e[0] == 'call' and e[3] == 'add_edge' for lf in lvs for e in lf.events if not lf.out):
                res.find('verdict', site0, 'idle', 'an arc is reported as added although none was')
        if o[1] in (C(False), NONE) and adds:
            res.find('verdict', adds[0][1], 'added', 'an arc is added but the solution graph is reported as connected')
        if o[1] == C(True):
            # every exit of the loops
            pass
        for lf in lvs:
            if lf.nested:
                continue
            adds = [e for e in lf.events if e[0] == 'call' and e[3] == 'add_edge' and e[2] == SG]
            if not adds and lf.out is None and len(lf.loops) == 2 and not any(e[0] == 'call' for e in lf.events):
                src = {l[3] for l in lf.loops}
                keys = {k[1]: v for k, v in lf.facts if k[0] == 'in' and k[2] == EA and k[1][0] == 't' and len(k[1]) == 3 and
                        all(x[0] == 'el' and x[2] in src for x in k[1][1:])}
                for (t, a, b), v in keys.items():
                    if v is False and a[2] != b[2] and ('t', b, a) not in keys and len(keys) == 1 and \
                            (reached in set(subterms(a[2]))) != (reached in set(subterms(b[2]))) and \
                            not any(k[0] == 'true' and mentions(k, a) and mentions(k, b) or k[0] == 'in' and k[2] != EA and k[2] != ('f', SG, 'edge_attr') and
                                    mentions(k, a) and mentions(k, b) for k, v in lf.facts) and \
                            not any(l2.loops and [l[3] for l in l2.loops] == [l[3] for l in lf.loops] and
                                    any(k[0] == 'in' and k[1] == ('t', b, a) and k[2] != ('f', SG, 'edge_attr') for k, v in l2.facts) for l2 in lvs):
                        res.find('join', site0, 'one-way', 'an arc that would join a node to the reached component is looked for in one direction only')
            if len(adds) > 1:
                res.find('join', adds[1][1], 'two', 'two arcs are added at once: the second may close a cycle')
            for e in adds[:1]:
                a, b = (restrip(x) if x is not None else None for x in args_of(e, ('name1', 'name2')))
                if a is None or b is None or a[0] != 'el' or b[0] != 'el':
                    continue
                res.count('joins')
                if not {a[2], b[2]} <= {l[3] for l in lf.loops}:
                    continue            # what was known before the loop is not at hand
                there = last_fact(lf, lambda k: k[0] == 'in' and k[1] == ('t', a, b) and k[2] == EA)
                other = last_fact(lf, lambda k: k[0] == 'in' and k[1] == ('t', b, a) and k[2] == EA)
                if there is False or there is None and other is True:
                    res.find('join', e[1], 'direction', 'an arc is added to the solution graph in a direction the network need not have')
                    continue
                if there is None and not any(k[0] == 'in' and mentions(k, a) and mentions(k, b) and k[1] != ('t', b, a) and k[2] != ('f', SG, 'edge_attr') or
                                             k[0] == 'true' and (mentions(k, a) or mentions(k, b)) for k, v in lf.facts):
                    res.find('join', e[1], 'exists', 'an arc is added to the solution graph that need not be one of the network')
                    continue
                # one end outside, the other inside
                if any({attr2(SG, a), attr2(SG, b)} <= set(lin_parts(k)[1]) and 0 not in v for k, v in lf.signs.items()):
                    continue
                side = {}
                for n in (a, b):
                    if reached in set(subterms(n[2])):
                        side[n] = 'in'
                        continue
                    f = [k for k in lf.signs if any(x == attr2(SG, n) for x in lin_parts(k)[1])]
                    if f and all(0 not in lf.signs[k] for k in f):
                        side[n] = 'out'
                    elif f and all(lf.signs[k] == {0} for k in f):
                        side[n] = 'in'
                    elif not f and not any(x[0] == 'o' for x in subterms(n[2])) and not any(k[0] in ('in', 'none', 'true') and mentions(k, n) and not (k[0] == 'in' and k[2] == EA)
                                           for k, v in lf.facts):
                        side[n] = 'any'
                s = sorted(side.get(n, '?') for n in (a, b))
                if s in (['in', 'in'], ['any', 'any'], ['any', 'in'], ['any', 'out'], ['out', 'out']):
                    res.find('join', e[1], 'component', 'an arc is added whose ends need not lie one inside and one outside the reached component')


def attr2(g, n):
    return ('i', ('f', ('i', ('f', g, 'nodes'), n), 'attr'), C('component'))


def index(prog, res):
    r = explore(prog, 'Graph', 'simplex_search', 'digraph', res=res, sink=False, merge=False, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'set', 'test', 'loop', 'loopx', 'mut', 'del', 'lit', 'cadd', 'litd'),
                tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.simplex_search')
    it, outs = r
    site0 = where(prog, 'simplex_search')
    for st, o in outs:
        if o[0] != 'return' or o[1] is None:
            continue
        lvs = [lf for lf in leaves(st, o) if lf.out is None or lf.out[0] != 'raise']
        pred = o[1]
        if pred[0] != 'o':
            continue
        depth = None
        seqs = {e[2] for lf in lvs for e in lf.events if e[0] == 'mut' and e[3] == 'append'}
        stored = {}
        for lf in lvs:
            for e in lf.events:
                a = attr_set(e)
                if a:
                    stored.setdefault(a[1], []).append((a[0], a[2], e, lf))
        for key in ('pred', 'depth', 'thread', 'component'):
            if C(key) not in stored:
                res.find('index', site0, key, 'the index %s of the nodes is not recorded' % key)
        for n, v, e, lf in stored.get(C('pred'), ()):
            if same_el(v, n):
                res.find('index', e[1], 'pred', 'a node is recorded as its own predecessor')
            if v[0] == 'i' and v[1][0] == 'o':
                res.count('indices')
                if v[1] != pred:
                    res.find('index', e[1], 'pred', 'what is recorded as predecessor comes from another table than that of the predecessors')
                elif not same_el(v[2], n):
                    res.find('index', e[1], 'pred', "a node is given another node's predecessor")
        for n, v, e, lf in stored.get(C('depth'), ()):
            if v[0] == 'i' and v[1][0] == 'o':
                res.count('indices')
                if v[1] == pred:
                    res.find('index', e[1], 'depth', 'what is recorded as depth comes from the table of the predecessors')
                elif not same_el(v[2], n):
                    res.find('index', e[1], 'depth', "a node is given another node's depth")
                else:
                    depth = v[1]
        for n, v, e, lf in stored.get(C('thread'), ()):
            ix = pos(n), pos(v)
            if None in ix or ix[0][0] != ix[1][0]:
                continue
            res.count('indices')
            (s, p), (_, q) = ix
            if p == q:
                res.find('index', e[1], 'thread', 'the thread leads from a node back to itself')
            elif q == C(0):
                if p != C(-1):
                    n0 = lin_add(p, C(1))
                    if not (n0[0] == 'pf' and n0[1] == 'len') and p[0] in ('c', 'el') and not any(mentions(k, p) for k in lf.signs):
                        res.find('index', e[1], 'thread', 'the node followed by the first one is not the last of the traversal')
            elif p[0] in ('el', 'lin', 'phi') and lin_add(q, p, -1) != C(1) and p != C(-1):
                c, m = lin_parts(lin_add(q, p, -1))
                if not m:
                    res.find('index', e[1], 'thread', 'the thread does not lead from a node to the next one of the traversal')
        # the search itself
        for what, tab, start in (('pred', pred, NONE), ('depth', depth, C(0))):
            if tab is not None:
                first = [e for lf in lvs if not lf.loops for e in lf.events if e[0] in ('set', 'litd') and e[2] == tab][:1]
                for e in first:
                    items = [(e[3], e[4])] if e[0] == 'set' else [x[1:] for x in e[3] if x[0] == 'kv']
                    for k, v in items:
                        if restrip(k) == ('s', 'source') and restrip(v)[0] == 'c' and restrip(v) != start:
                            res.find('index', site0, what + ' of the root', 'the %s of the root is %s' % (what, norm(v)))
        for lf in lvs:
            if len(lf.loops) < 2 or lf.nested:
                continue
            new = [e for e in lf.events if e[0] == 'set' and restrip(e[2]) == pred]
            if not new:
                continue
            n = restrip(new[0][3])
            cur = lf.phis.get('current') or restrip(new[0][4])
            p = restrip(new[0][4])
            pop = [x for x in subterms(lf.loops[-1][3]) if x[0] == 'r' and x[1] in ('pop', 'popitem')]
            seen = last_fact(lf, lambda k: k[0] == 'in' and k[1] == n and k[2] == pred)
            if n[0] == 'el' and n[2] == lf.loops[-1][3] or n[0] == 'el':
                res.count('indices')
                if seen is not False and not any(k[0] in ('in', 'true', 'none') and mentions(k, n) for k, v in lf.facts):
                    res.find('index', new[0][1], 'revisit', 'a node already reached is given another predecessor')
                if pop and p == n:
                    res.find('index', new[0][1], 'pred', 'a node is recorded as its own predecessor')
            if depth is not None and pop:
                d = [e for e in lf.events if e[0] == 'set' and restrip(e[2]) == depth]
                for e in d:
                    v = restrip(e[4])
                    if linear(v, lambda x: x[0] == 'i' and x[1] == depth):
                        c, m = lin_parts(v)
                        if c != 1 or len(m) != 1 or list(m.values()) != [1] or not same_el(list(m)[0][2], p):
                            res.find('index', e[1], 'depth', 'the depth of a node is not one more than that of its predecessor')
                if not d and not any(e[0] in ('call', 'cadd') for e in lf.events):
                    res.find('index', new[0][1], 'depth', 'a node is reached without its depth being determined')
            if pop:
                q = [x for x in pop][0][2]
                if not any(e[0] == 'mut' and restrip(e[2]) == q and e[4] and restrip(e[4][-1]) == n for e in lf.events) and \
                        not any(e[0] == 'call' for e in lf.events) and not any(e[0] == 'cadd' for e in lf.events):
                    res.find('index', new[0][1], 'queue', 'a node that is reached is not searched from')
        # everything that is taken off gets its place
        nb = {x[1][2] for lf in lvs for x in [l[3] for l in lf.loops] + [restrip(y) for e in lf.events if e[0] in ('lit', 'cadd')
              for z in e[3:] if isinstance(z, tuple) for y in z if isinstance(y, tuple)] for x in subterms(x)
              if x[0] == 'i' and x[1][0] == 'f' and x[1][1] == SELF and x[1][2] in ('neighbors', 'in_neighbors')}
        if len(nb) == 1:
            res.find('index', site0, nb.copy().pop(), 'the tree is searched along its arcs in one direction only')


def pos(t):
    """(sequence, position) of sequence[position]"""
    if t[0] == 'i' and t[1][0] in ('o',):
        return t[1], t[2]
    return None


def remove(prog, res):
    r = explore(prog, 'Graph', 'simplex_remove_arc', 'digraph', res=res, sink=False, merge=False, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'test', 'del', 'mut'), opaque=composed(('del_edge', 'add_edge')), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.simplex_remove_arc')
    it, outs = r
    site0 = where(prog, 'simplex_remove_arc')
    P, Q, T = ('s', 'p'), ('s', 'q'), ('s', 't')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o))
        calls = [e for lf in lvs for e in lf.events if e[0] == 'call']
        res.count('removals')
        dels = [e for e in calls if e[3] == 'del_edge']
        if not dels and not calls and not any(e[0] == 'del' for lf in lvs for e in lf.events):
            res.find('leave', site0, 'del_edge', 'the arc that leaves is not removed from the tree')
        for e in dels:
            if e[2] == SELF:
                res.find('leave', e[1], 'network', 'an arc is removed from the network instead of the tree')
            a = restrip(args_of(e, ('e',))[0] or NONE)
            if e[2] == T and a[0] == 't' and a[1:] == (Q, P):
                res.find('leave', e[1], 'reversed', 'the arc removed from the tree is the opposite of the one that leaves')
            elif e[2] == T and a[0] == 't' and set(a[1:]) < {P, Q}:
                res.find('leave', e[1], 'ends', 'the arc removed from the tree is not the one that leaves')


def jobs(prog, tier):
    yield 'solution', solution, ()
    yield 'tree', tree, ()
    yield 'connect', connect, ()
    yield 'index', index, ()
    yield 'remove', remove, ()
