"""C32: distances, degrees, the diameter and verdicts are what they claim to be."""
import ast
from .base import *
from .leaf import *
from .c18 import plain
from .c21 import args_of
from .c24 import attr, attr_set

ID = 'C32'
TECHNIQUE = 'symbolic comparison of every value stored, compared or returned by abstract interpretation (value and guard tables)'
RULE = ('a search by hops gives its start the distance 0 and a node reached one more than the node it is reached from, keeps the '
        'distance of a node reached before unless the new one is smaller, and queues it under that distance; the Hamiltonian search '
        'answers yes exactly on its last node or when a step further does, one step per unvisited neighbour, and takes its mark back '
        'when it answers no; degrees are the lengths of the neighbour lists of each node; counts are the lengths of the node and '
        'edge tables; the diameter is the largest hop distance of a breadth-first path over all pairs; label correcting reports '
        'success with the predecessors and failure with a cycle that was found')
EXPLANATION = ('Every path of the operations is interpreted abstractly; what is stored, pushed, compared and returned is compared '
               'term by term with the definition.')
MINIMUM = {'values': 20, 'paths': 30}
N, CUR, Q = ('s', 'neighbor'), ('s', 'current'), ('s', 'q')
NB = {'neighbors': ('f', SELF, 'neighbors'), 'in_neighbors': ('f', SELF, 'in_neighbors')}
TABLES = {'nodes': [('f', SELF, 'neighbors'), ('f', SELF, 'nodes')], 'edges': [('f', SELF, 'edge_attr')]}


def where(prog, meth, cls='Graph'):
    fm = prog.method(cls, meth)
    return (fm.module.path, fm.node.lineno, fm.qual)


def last_fact(lf, pred):
    """the innermost of the facts"""
    for k, v in reversed(lf.facts):
        if pred(k):
            return v
    return None


def known_sign(lf, d):
    """the signs a - b may have, None when nothing is known of it"""
    k, s = lin_canon(restrip(d))
    if k is None:
        return None
    v = lf.signs.get(k)
    return None if v is None else {x * s for x in v}


def linear(t, atoms):
    """is the term a constant plus multiples of understood atoms?"""
    c, m = lin_parts(t)
    return all(atoms(x) for x in m)


def has_none(t):
    return any(x == NONE for x in subterms(t))


def asked(prog, meth):
    """does the method itself read distances?"""
    return any(isinstance(n, ast.Call) and getattr(n.func, 'attr', '') not in ('set_attr', 'set_node_attr') and
               any(isinstance(a, ast.Constant) and a.value == 'distance' for a in n.args) or
               isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and n.slice.value == 'distance' and isinstance(n.ctx, ast.Load)
               for n in ast.walk(prog.method('Graph', meth).node))


# -- hop distances
def hops(prog, res, algo, gtype):
    r = explore(prog, 'Graph', 'process_edge_search', gtype, res=res, sink=False, merge=False, terms={'algo': C(algo)},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set'), opaque=composed(('display', 'process_edge_dijkstra', 'process_edge_prim')),
                tracked=tracking('nattr.distance'))
    if r is None:
        raise AnalysisBroken('Graph.process_edge_search')
    it, outs = r
    site0 = where(prog, 'process_edge_search')
    D = attr(CUR, 'distance')
    OLD = attr(N, 'distance')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        res.count('paths')
        start = lf.fact(lambda k: k == ('none', CUR)) is True
        sets = [(e, attr_set(e)) for e in lf.events if attr_set(e)]
        ds = [(e, a) for e, a in sets if a[1] == C('distance') and a[0] == N]
        hidden = any(a[1][0] != 'c' for e, a in sets)
        pushed = [e for e in lf.events if e[0] == 'ecall' and e[3] in ('push', 'enqueue') and restrip(e[2]) == Q]
        want = C(0) if start else lin_add(D, C(1))
        for e, a in ds:
            if has_none(a[2]):
                continue                 # the node expanded has no distance: not a search in progress
            res.count('values')
            prio = not pushed and lf.fact(lambda k: k[0] == 'inst' and k[1] == Q) is True
            if linear(a[2], lambda x: x in (D, OLD) or prio and x[0] == 'r' and x[1:3] == ('ext', 'get_priority') and x[4:5] == (N,)) and a[2] != want:
                res.find('hops', e[1], algo, 'a node reached by %s gets the distance %s instead of %s' % (algo, norm(a[2]), norm(want)))
        for e in pushed:
            if len(e[4]) > 1 and not has_none(e[4][1]):
                p = restrip(e[4][1])
                exp = want if algo != 'DFS' or start else lin_scale(want, -1)
                res.count('values')
                if linear(p, lambda x: x in (D, OLD)) and p != exp:
                    res.find('hops', e[1], algo + ' priority', 'a node reached by %s is queued under %s instead of %s' % (algo, norm(p), norm(exp)))
        if pushed and not ds and not hidden:
            res.find('unlabelled', site0, algo, 'a node is put on the work list of %s without its distance being recorded' % algo)
        if algo in ('BFS', 'UnweightedSPT') and not start and ds:
            pq = lf.fact(lambda k: k[0] == 'inst' and k[1] == Q)
            if pq is False and lf.fact(lambda k: k == ('none', OLD)) is False:
                res.find('relabelled', ds[0][0][1], algo, 'the distance of a node that %s has reached before is replaced' % algo)
            if pq is False and not hidden and lf.fact(lambda k: k == ('none', OLD)) is None and not any(
                    N in set(subterms(k)) and not (k[0] == 'in' and k[1] == N and k[2] in TABLES['nodes'])
                    for k in list(lf.signs) + [k for k, v in lf.facts]) and not asked(prog, 'search'):
                res.find('relabelled', ds[0][0][1], algo + ' untested', 'the distance of a node is recorded by %s without a look at whether it has one' % algo)
            if pq is True:
                for k, s in lf.signs.items():
                    c, m = lin_parts(k)
                    g = [t for t in m if t[0] == 'r' and t[1] == 'ext' and t[2] == 'get_priority']
                    if len(g) == 1 and D in m and len(m) == 2 and m[D] == -m[g[0]]:
                        res.count('values')
                        sg = {x * m[D] for x in s}         # new minus old
                        if not sg <= {-1} and c * m[D] == 1:
                            res.find('relabelled', ds[0][0][1], algo + ' not-smaller', 'the distance of a waiting node is replaced by one that is not smaller')


# -- Hamiltonian search
def hamilton(prog, res, gtype, dest):
    DIST, DST, SRC = ('s', 'distance'), ('s', 'destination'), ('s', 'source')
    r = explore(prog, 'Graph', 'hamiltonian', gtype, res=res, sink=False, merge=False,
                terms={'display': NONE, 'destination': NONE} if not dest else {'display': NONE},
                keep=lambda ev: ev[0] in ('call', 'test', 'set', 'loop', 'loopx'), opaque=composed(('display', 'hamiltonian')),
                tracked=tracking('nattr.visited'), kinds={'destination': 'name'} if dest else None)
    if r is None:
        raise AnalysisBroken('Graph.hamiltonian')
    it, outs = r
    site0 = where(prog, 'hamiltonian')
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths')
        lvs = list(leaves(st, o, True))
        lf = lvs[0]
        v = o[1]
        further = [x for x in (k for k, val in lf.facts if val is True and k[0] == 'true') if x[1][0] == 'r' and x[1][2:3] == ('hamiltonian',)]
        if v[0] == 'r' and v[2:3] == ('hamiltonian',):
            further = [v]
        last, target = None, None
        for t in TABLES['nodes']:
            s = known_sign(lf, lin_add(lin_add(DIST, lin_scale(('pf', 'len', t), -1)), C(1)))
            if s is not None:
                last = s
        others = [k for k in lf.signs if any(x == DIST for x in lin_parts(k)[1]) and any(
            x[0] == 'pf' and x[1] == 'len' for x in lin_parts(k)[1])]
        if dest:
            target = known_sign(lf, lin_add(SRC, lin_scale(DST, -1)))
        if v == C(True) and not further:
            res.count('values')
            if last is None and others:
                res.find('verdict', site0, 'yes ' + norm(others[0]), 'the Hamiltonian search answers yes at another distance than the number of '
                         'nodes less one')
            elif last is not None and last != {0}:
                res.find('verdict', site0, 'yes early', 'the Hamiltonian search can answer yes before it has visited every node')
            if dest and target is not None and target != {0}:
                res.find('verdict', site0, 'yes elsewhere', 'the Hamiltonian search can answer yes at another node than its destination')
            if dest and target is None and last == {0}:
                res.find('verdict', site0, 'yes anywhere', 'the Hamiltonian search answers yes without a look at the destination')
        if v == C(False):
            res.count('values')
            if further:
                res.find('verdict', site0, 'no found', 'the Hamiltonian search answers no although a step further answered yes')
            if last is not None and 0 in last and (not dest or target is not None and 0 in target and last == {0}):
                res.find('verdict', site0, 'no last', 'the Hamiltonian search answers no at its last node')
        # the steps
        for x in lvs:
            if not x.loops or x.nested:
                continue
            calls = [e for e in x.events if e[0] == 'call' and e[3] == 'hamiltonian']
            src = restrip(x.loops[-1][3])
            el = ('el', x.loops[-1][2], src)
            nb = src[0] in ('elems', 'keys') and src[1][0] == 'i' and src[1][1] in NB.values()
            vis = last_fact(x, lambda k: k == ('none', attr(el, 'visited')))
            for e in calls:
                a = args_of(e, ('source', 'destination', 'distance', 'display', 'pred'))
                a = [None if y is None else restrip(y) for y in a]
                res.count('values')
                if nb and src[1][2] != SRC and src[1][2][0] in ('s', 'el'):
                    res.find('step', e[1], 'from', 'the Hamiltonian search steps on from another node than the one it stands on')
                if nb and src[1][1] != NB['neighbors']:
                    res.find('step', e[1], 'direction', 'the Hamiltonian search follows arcs backwards')
                if a[0] is not None and nb and a[0] != el and a[0][0] in ('s', 'el'):
                    res.find('step', e[1], 'node', 'the Hamiltonian search steps on to %s' % norm(a[0]))
                if a[2] is not None and linear(a[2], lambda y: y == DIST) and a[2] != lin_add(DIST, C(1)) or a[2] is None:
                    res.find('step', e[1], 'distance', 'the Hamiltonian search does not count a step as one')
                if dest and (a[1] is None or a[1][0] in ('s', 'c') and a[1] != DST):
                    res.find('step', e[1], 'destination', 'the Hamiltonian search drops its destination')
                if vis is False:
                    res.find('step', e[1], 'visited', 'the Hamiltonian search steps on to a node it has visited')
                yes = last_fact(x, lambda k: k[0] == 'true' and k[1][0] == 'r' and k[1][2:3] == ('hamiltonian',))
                if yes is True and x.out is None:
                    res.find('verdict', e[1], 'yes dropped', 'the Hamiltonian search goes on although a step further answered yes')
                if yes is False and x.out and x.out[0] == 'return' and x.out[1] == C(True):
                    res.find('verdict', e[1], 'yes made up', 'the Hamiltonian search answers yes although the step further answered no')
            if nb and not calls and vis is True and x.out is None:
                res.find('step', x.loops[-1][1], 'passed', 'the Hamiltonian search passes over a neighbour that it has not visited')
        # marks
        top = [(e, attr_set(e)) for e in lf.events if attr_set(e)]
        mine = [a[2] for e, a in top if a[1] == C('visited') and a[0] == SRC]
        odd = any(a[1][0] != 'c' for e, a in top)
        went = any(e[0] in ('loop', 'loopx') and any(y[0] == 'call' and y[3] == 'hamiltonian' for al in e[4] for y in walk(al[0])) for e in st.events())
        if went and not odd:
            if not mine or mine[0] in (NONE,):
                res.find('mark', site0, 'on', 'the Hamiltonian search does not mark the node it stands on')
            pr = lf.fact(lambda k: k[0] == 'in' and k[1] == SRC and k[2] == ('s', 'pred'))
            if v == C(False) and pr is True and mine and mine[-1] != NONE:
                res.find('mark', site0, 'off', 'the Hamiltonian search keeps a node marked that it gives up')


# -- degrees
def degrees(prog, res, meth, gtype, parts):
    r = explore(prog, 'Graph', meth, gtype, res=res, sink=False, merge=False, keep=lambda ev: ev[0] in ('set', 'loop', 'loopx', 'call'))
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    it, outs = r
    site0 = where(prog, meth)
    for st, o in outs:
        if o[0] != 'return' or o[1][0] != 'o':
            continue
        res.count('paths')
        for e in st.events():
            if e[0] != 'loop':
                continue
            src = restrip(e[3])
            if not (src[0] in ('keys', 'elems') and src[1] in TABLES['nodes']):
                continue
            el = ('el', e[2], src)
            want = C(0)
            for p in parts:
                want = lin_add(want, ('pf', 'len', ('i', NB[p], el)))
            ok = False
            for alt in e[4]:
                sets = [x for x in alt[0] if x[0] == 'set' and restrip(x[2]) == restrip(o[1])]
                for x in sets:
                    k, v = restrip(x[3]), restrip(x[4])
                    res.count('values')
                    ok = True
                    if k != el and k[0] in ('el', 's', 'c'):
                        res.find('degree', x[1], meth + ' key', '%s records the degree of %s under %s' % (meth, norm(el), norm(k)))
                    if linear(v, length) and v != want:
                        res.find('degree', x[1], meth, '%s gives %s as the degree of a node instead of %s' % (meth, norm(v), norm(want)))
                    if v[0] == 'pf' and v[1] == 'len' and v[2][0] == 'L' and v[2][1] == 'set' and all(
                            y[0] == 'star' and y[1][0] == 'elems' and y[1][1][0] == 'i' and y[1][1][1] in NB.values() for y in v[2][2:]) and (
                            len(v[2]) > 3 or gtype == 'graph'):
                        res.find('degree', x[1], meth + ' once', '%s counts a node that is a neighbour twice over once' % meth)
                if not sets and (alt[4] is None or alt[4][0] == 'continue') and not [x for x in alt[0] if x[0] != 'set'] and \
                        not alt[1] and not alt[2] and ok:
                    res.find('degree', e[1], meth + ' none', '%s leaves out a node' % meth)
        if not any(e[0] == 'loop' for e in st.events()) and o[1][0] == 'o':
            res.count('unknown')


def length(x):
    return x[0] == 'pf' and x[1] == 'len' and x[2][0] == 'i' and x[2][1] in NB.values()


# -- counts
def counts(prog, res, meth, table, gtype):
    r = explore(prog, 'Graph', meth, gtype, res=res, sink=False)
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        res.count('paths')
        v = restrip(o[1])
        res.count('values')
        if linear(v, lambda x: x[0] == 'pf' and x[1] == 'len' and x[2][0] == 'f' and x[2][1] == SELF) and \
                v not in [('pf', 'len', t) for t in TABLES[table]]:
            res.find('count', where(prog, meth), meth, '%s returns %s' % (meth, norm(v)))


# -- diameter
def diameter(prog, res):
    r = explore(prog, 'Graph', 'get_diameter', 'graph', res=res, sink=False, merge=False,
                keep=lambda ev: ev[0] in ('call', 'loop', 'loopx', 'set', 'mut'), opaque=composed(('search', 'display')))
    if r is None:
        raise AnalysisBroken('Graph.get_diameter')
    it, outs = r
    site0 = where(prog, 'get_diameter')
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths')
        lvs = list(leaves(st, o, True))
        S = None
        for lf in lvs:
            for e in lf.events:
                if e[0] != 'call' or e[3] != 'search':
                    continue
                S = restrip(e[6]) if len(e) > 6 and isinstance(e[6], tuple) and e[6] and e[6][0] == 'r' else S
                kw = dict(e[5])
                a = restrip(e[4][0]) if e[4] else kw.get('source', kw.get('root'))
                b = restrip(e[4][1]) if len(e[4]) > 1 else kw.get('destination')
                res.count('values')
                al = kw.get('algo')
                if al is None and len(e[4]) < 5 or al is not None and al[0] == 'c' and al[2] not in ('BFS', 'UnweightedSPT'):
                    res.find('diameter', e[1], 'algo', 'the diameter is measured on paths that need not be shortest')
                if a is not None and b is not None and a[0] == 'el' and restrip(b)[0] == 'el' and a[1] == restrip(b)[1]:
                    res.find('diameter', e[1], 'pair', 'the diameter is measured from each node to itself')
            if not lf.loops or lf.out and lf.out[0] not in ('continue', 'return'):
                continue
            ret = [k[1] for k, v in lf.facts if k[0] == 'none' and k[1][0] == 'r' and k[1][2:3] == ('search',)]
            if lf.out and lf.out[0] == 'return':
                continue
            lens = {t for k in list(lf.signs) + list(lf.phis.values()) for t in subterms(restrip(k))
                    if t[0] == 'pf' and t[1] == 'len' and t[2][0] == 'r' and t[2][2:3] == ('search',)}
            lid = lf.loops[-1][2]
            for var, back in lf.phis.items():
                back = restrip(back)
                old = ('phi', lid, var)
                c, m = lin_parts(back)
                if len(lens) == 1 and lf.loops[-1][3] != ('while',):
                    L = list(lens)[0]
                    new = lin_add(L, C(-1))
                    if L in m and len(m) == 1 and m[L] == 1:
                        res.count('values')
                        if c != -1 and any(old in lin_parts(k)[1] for k in lf.signs):
                            res.find('diameter', lf.loops[-1][1], 'length', 'the distance of two nodes is taken as the number of nodes on the path %+d' % c)
                        s = known_sign(lf, lin_add(back, lin_scale(old, -1)))
                        if s is not None and not s <= {0, 1}:
                            res.find('diameter', lf.loops[-1][1], 'inner smaller', 'a smaller distance replaces a larger one')
                    elif back == old and any(restrip(x.phis.get(var, NONE)) == new for x in lvs if x.loops and x.loops[-1][2] == lid):
                        s = known_sign(lf, lin_add(new, lin_scale(old, -1)))
                        if s is not None and not s <= {0, -1}:
                            res.find('diameter', lf.loops[-1][1], 'inner kept', 'a larger distance does not replace a smaller one')
                # the outer maximum
                if back[0] == 'phi' and back[1] != lid and any(back == restrip(b) for b in [back]) and var != back[2]:
                    s = known_sign(lf, lin_add(back, lin_scale(old, -1)))
                    if s is not None and not s <= {0, 1} and not infinite(lf, old):
                        res.find('diameter', lf.loops[-1][1], 'outer smaller', 'a smaller eccentricity replaces a larger one')
                if back == old:
                    for k, s in lf.signs.items():
                        c, m = lin_parts(k)
                        o_ = [t for t in m if t != old]
                        if c == 0 and old in m and len(o_) == 1 and o_[0][0] == 'phi' and m[old] == -m[o_[0]]:
                            if any(restrip(x.phis.get(var, NONE)) == o_[0] for x in lvs if x.loops and x.loops[-1][2] == lid):
                                sg = {x * m[o_[0]] for x in s}
                                if not sg <= {0, -1}:
                                    res.find('diameter', lf.loops[-1][1], 'outer kept', 'a larger eccentricity does not replace a smaller one')
        v = o[1]
        if v[0] == 'c' and v[1] in ('int', 'float') and any(e[0] in ('loop', 'loopx') for e in st.events()):
            res.find('diameter', site0, 'constant', 'the diameter is given as %s' % norm(v))
        unreach = lvs[0].fact(lambda k: k[0] == 'none' and k[1][0] == 'r' and k[1][2:3] == ('search',))
        if unreach is True and v != C('infinity') and (v[0] == 'c' or v[0] == 'phi'):
            res.find('diameter', site0, 'unconnected', 'the diameter of an unconnected graph is given as %s' % norm(v))


def infinite(lf, old):
    s = known_sign(lf, lin_add(C('infinity'), lin_scale(old, -1)))
    return s == {0} or lf.fact(lambda k: k == ('none', old)) is True


# -- verdict of label correcting
def verdict(prog, res):
    r = explore(prog, 'Graph', 'fifo_label_correcting', 'digraph', res=res, sink=False, merge=False,
                keep=lambda ev: ev[0] in ('call', 'set', 'loop', 'loopx', 'litd'), opaque=composed(('label_correcting_check_cycle', 'display')))
    if r is None:
        raise AnalysisBroken('Graph.fifo_label_correcting')
    it, outs = r
    site0 = where(prog, 'fifo_label_correcting')
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths')
        v = restrip(o[1])
        if v[0] != 't' or len(v) != 3:
            continue
        lf = next(leaves(st, o))
        res.count('values')
        cyc = [k[1] for k, val in lf.facts if k[0] == 'none' and k[1][0] == 'r' and k[1][2:3] == ('label_correcting_check_cycle',) and val is False]
        preds = {restrip(e[2]) for e in walk(st.events()) if e[0] == 'set' and restrip(e[2])[0] == 'o' and restrip(e[4]) == NONE and restrip(e[3]) == ('s', 'source')}
        flag = v[1]
        if flag == C(True):
            if v[2][0] == 'r' or v[2] in (C(True), C(False)) or preds and v[2][0] == 'o' and v[2] not in preds:
                res.find('verdict', site0, 'labels', 'label correcting reports success with something else than the predecessors')
            if any(c == v[2] for c in cyc):
                res.find('verdict', site0, 'cycle', 'label correcting reports success although it has found a negative cycle')
        elif flag == C(False):
            if v[2] in preds:
                res.find('verdict', site0, 'failure', 'label correcting reports a negative cycle when none was found')
        elif flag[0] in ('o', 'r') and v[2][0] == 'c':
            res.find('verdict', site0, 'order', 'label correcting returns its verdict in second place')


def jobs(prog, tier):
    for a in ('BFS', 'UnweightedSPT', 'DFS'):
        yield 'hops/' + a, hops, (a, 'digraph')
    for g in ('digraph', 'graph'):
        for d in (False, True):
            yield 'hamiltonian/%s/%s' % (g, d), hamilton, (g, d)
        yield 'count/nodes/' + g, counts, ('get_node_num', 'nodes', g)
        yield 'count/edges/' + g, counts, ('get_edge_num', 'edges', g)
    yield 'degrees/graph', degrees, ('get_degrees', 'graph', ('neighbors',))
    yield 'degrees/digraph', degrees, ('get_degrees', 'digraph', ('neighbors', 'in_neighbors'))
    yield 'in_degrees', degrees, ('get_in_degrees', 'digraph', ('in_neighbors',))
    yield 'out_degrees', degrees, ('get_out_degrees', 'digraph', ('neighbors',))
    yield 'diameter', diameter, ()
    yield 'verdict', verdict, ()
