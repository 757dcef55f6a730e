"""C33: preflow push keeps its labels valid and its active nodes active."""
from .base import *
from .leaf import *
from .c15 import explore_it
from .c21 import args_of
from .c22 import pushes, mentions, unclear, same_el, clear3
from .c24 import attr, attr_set, NODES
from .c16 import at_most
from .flow import opaque_amount
from .c32 import known_sign, last_fact, linear, has_none, where

ID = 'C33'
TECHNIQUE = 'admissibility and label obligations of preflow push by abstract interpretation (sign domain over labels, flows and capacities)'
RULE = ('flow is pushed only to a node labelled exactly one lower, and a push reports whether it moved flow; relabelling gives a node one '
        'more than its lowest neighbour over an arc with residual capacity, forward or backward, starting from a value no label exceeds; '
        'the labels start as the hop distances to the sink with the number of nodes at the source; every node whose arc from the '
        'source is saturated, and every node flow is pushed to, is put on the work list')
EXPLANATION = 'The three operations of preflow push are interpreted abstractly; guards and values are compared with the definition.'
MINIMUM = {'pushes': 1, 'relabels': 1, 'starts': 3}
I, J = ('s', 'i'), ('s', 'j')
EA = ('f', SELF, 'edge_attr')
LEN = [('pf', 'len', ('f', SELF, 'neighbors')), ('pf', 'len', ('f', SELF, 'nodes'))]


def arcattr(a, b, k):
    return ('i', ('i', EA, ('t', a, b)), C(k))


def push(prog, res):
    it, outs, site0 = explore_it(prog, res, 'process_edge_flow', {}, ('display',))
    D = lin_add(lin_add(attr(I, 'distance'), lin_scale(attr(J, 'distance'), -1)), C(-1))
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        if any(k[0] == 'in' and k[1] in (C('excess'), C('distance')) and v is False for k, v in lf.facts):
            continue                    # not in the middle of a run
        sets = [e for e in lf.events if e[0] == 'set' and restrip(e[3]) == C('flow')]
        s = known_sign(lf, D)
        seen = any(attr(I, 'distance') in lin_parts(k)[1] or attr(J, 'distance') in lin_parts(k)[1] for k in lf.signs)
        if sets:
            res.count('pushes')
            if s is None and (seen or not any(attr(n, 'distance') in set(subterms(k)) for k, v in lf.facts for n in (I, J))) or \
                    s is not None and s != {0}:
                res.find('admissible', sets[0][1], 'push', 'flow is pushed to a node that need not be labelled exactly one lower')
            for x in [attr_set(e) for e in lf.events]:
                if x is None or x[1] != C('excess') or x[0] not in (I, J):
                    continue
                own = attr(x[0], 'excess')
                am = lin_add(x[2], lin_scale(own, -1)) if x[0] == J else lin_add(own, lin_scale(x[2], -1))
                if not any(t == own for t in subterms(x[2])) or opaque_amount(am):
                    continue
                if at_most(lf, am, attr(I, 'excess')) is False:
                    res.find('excess', sets[0][1], 'excess', 'a push moves %s, which can be more than the excess of the node' % norm(am))
            if o[1] in (C(False), NONE):
                res.find('report', sets[0][1], 'moved', 'a push that has moved flow reports that it has not')
        else:
            if o[1] == C(True):
                res.find('report', site0, 'idle', 'a push that has not moved flow reports that it has')
            elif o[1] == C(False) and s == {0}:
                left = [k for k in lf.signs if any(x[0] == 'i' and x[2] == C('flow') for x in lin_parts(k)[1])]
                if left and all(0 not in lf.signs[k] for k in left) and not unclear(lf):
                    res.find('admissible', site0, 'refused', 'a push is refused although the arc has residual capacity and the labels allow it')


def relabel(prog, res):
    r = explore(prog, 'Graph', 'relabel', 'digraph', res=res, sink=False, merge=False, keyerr=False, keep=lambda ev: ev[0] in ('test', 'set', 'loop', 'loopx', 'call'),
                opaque=composed(('display',)), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.relabel')
    it, outs = r
    site0 = where(prog, 'relabel')
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = st.events()
        srcs, other = {}, False
        for e in raw:
            if e[0] in ('loop', 'loopx'):
                s = restrip(e[3])
                if s[0] == 'elems' and s[1][0] == 'i' and s[1][1] in (('f', SELF, 'neighbors'), ('f', SELF, 'in_neighbors')) and s[1][2] == I:
                    srcs.setdefault(s[1][1][2], []).append(e)
                else:
                    other = True
        if srcs and not other:
            res.count('relabels')
            for f in ('neighbors', 'in_neighbors'):
                if f not in srcs:
                    res.find('lowest', site0, f, 'relabelling does not look at the %s' % ('nodes flow can be pushed on to' if f == 'neighbors' else
                             'nodes flow can be sent back to'))
        upd = set()
        for lf in leaves(st, o, True):
            if not lf.loops or lf.nested:
                continue
            s = restrip(lf.loops[-1][3])
            if s[0] != 'elems' or s[1][0] != 'i' or s[1][2] != I or s[1][1] not in (('f', SELF, 'neighbors'), ('f', SELF, 'in_neighbors')):
                continue
            if any(k[0] == 'in' and k[1] in (C('distance'), C('flow'), C('capacity')) and v is False for k, v in lf.facts):
                continue
            el = ('el', lf.loops[-1][2], s)
            d = attr(el, 'distance')
            if s[1][1][2] == 'neighbors':
                R = lin_add(arcattr(I, el, 'capacity'), lin_scale(arcattr(I, el, 'flow'), -1))
            else:
                R = arcattr(el, I, 'flow')
            rs = known_sign(lf, R)
            arcs = [k for k in lf.signs if any(x[0] == 'i' and x[2] in (C('flow'), C('capacity')) for x in lin_parts(k)[1])]
            if lf.out and lf.out[0] in ('break', 'return'):
                res.find('lowest', lf.loops[-1][1], 'break', 'relabelling stops before the last neighbour')
                continue
            for var, back in lf.phis.items():
                back = restrip(back)
                old = ('phi', lf.loops[-1][2], var)
                c, m = lin_parts(back)
                if d in m and m == {d: 1}:
                    upd.add((lf.loops[-1][2], var))
                    cs = known_sign(lf, lin_add(d, lin_scale(old, -1)))
                    if cs is not None and not cs <= {0, -1}:
                        res.find('lowest', lf.loops[-1][1], 'higher', 'relabelling takes a higher neighbour for the lowest')
                    if rs is None and (arcs or not unclear(lf)) or rs is not None and 0 in rs:
                        res.find('lowest', lf.loops[-1][1], 'residual ' + s[1][1][2], 'relabelling counts a neighbour over an arc without residual capacity')
            for var, back in lf.phis.items():
                old = ('phi', lf.loops[-1][2], var)
                if restrip(back) == old:
                    cs = known_sign(lf, lin_add(d, lin_scale(old, -1)))
                    if cs == {-1} and rs == {1}:
                        res.find('lowest', lf.loops[-1][1], 'kept', 'relabelling passes over a lower neighbour with residual capacity')
                    if cs is None and any(old in lin_parts(k)[1] and d in lin_parts(k)[1] for k in lf.signs):
                        res.find('lowest', lf.loops[-1][1], 'compare', 'relabelling compares labels that differ by a constant')
        lf = next(leaves(st, o, True))
        for e in lf.events:
            a = attr_set(e)
            if a and a[1] == C('distance'):
                if a[0] != I and (a[0][0] in ('s', 'el') or a[0][0] == 'phi' and any(
                        x[0] in ('loop', 'loopx') and x[2] == a[0][1] and v == a[0][2] and backs and all(restrip(b)[0] == 'el' for b in backs)
                        for x in raw for v, (i0, backs) in (x[5] if x[0] in ('loop', 'loopx') else ()))):
                    res.find('lowest', e[1], 'node', 'relabelling labels %s' % norm(a[0]))
                c, m = lin_parts(a[2])
                if len(m) == 1 and list(m)[0][0] == 'phi' and (c != 1 or list(m.values())[0] != 1):
                    res.find('lowest', e[1], 'offset', 'relabelling gives a node %s' % norm(a[2]))
        if not any(attr_set(e) for e in lf.events) and srcs and not any(e[0] == 'call' for e in lf.events):
            res.find('lowest', site0, 'unset', 'relabelling does not change the label')
        for e in raw:
            if e[0] in ('loop', 'loopx'):
                for var, (init, backs) in e[5]:
                    init = restrip(init)
                    c, m = lin_parts(init)
                    if (e[2], var) in upd and len(m) <= 1 and all(x in LEN for x in m) and all(v < 2 for v in m.values()) and \
                            not (not m and c >= 10 ** 6):
                        res.find('lowest', e[1], 'bound', 'relabelling looks for labels below %s only' % norm(init))


def start(prog, res, algo):
    SRC, SINK = ('s', 'source'), ('s', 'sink')
    r = explore(prog, 'Graph', 'max_flow_preflowpush', 'digraph', res=res, sink=False, merge=False,
                terms={'algo': C(algo), 'display': C('off')},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set', 'mut', 'loop', 'loopx'),
                opaque=composed(('display', 'process_edge_flow', 'relabel', 'show_flow', 'search', 'set_display_mode')),
                tracked=tracking('nattr.excess'), keyerr=False)
    if r is None:
        raise AnalysisBroken('Graph.max_flow_preflowpush')
    it, outs = r
    site0 = where(prog, 'max_flow_preflowpush')
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        wl = [i for i, e in enumerate(raw) if e[0] in ('loop', 'loopx') and e[3] == ('while',)]
        if not wl:
            continue
        res.count('starts')
        pre = raw[:wl[0]]
        calls = [e for e in walk(pre) if e[0] == 'call' and e[3] == 'search']
        for e in calls:
            a = args_of(e, ('source', 'destination', 'display', 'component', 'q', 'algo', 'reverse'))
            a = [None if x is None else restrip(x) for x in a]
            kw = dict(e[5])
            root, al, rev = a[0] or kw.get('root'), a[5] or kw.get('algo'), a[6] or kw.get('reverse')
            if root is not None and root == SRC:
                res.find('heights', e[1], 'root', 'the first labels are distances from the source, not to the sink')
            elif root == SINK:
                if rev is None or rev == C(False):
                    res.find('heights', e[1], 'direction', 'the first labels are distances from the sink, not to it')
                if al is None or al[0] == 'c' and al[2] not in ('UnweightedSPT', 'BFS'):
                    res.find('heights', e[1], 'algo', 'the first labels are not shortest distances in arcs')
        dist, hidden = [], False
        for e in pre:
            a = attr_set(e)
            if a:
                hidden = hidden or a[1][0] != 'c'
                if a[1] in (SRC, SINK) and a[0][0] == 'c':
                    res.find('heights', e[1], 'swapped', 'the attribute %s of a node called %s is set' % (norm(a[1]), norm(a[0])))
                if a[1] == C('distance') and a[0] == SRC:
                    dist.append((e, a[2]))
        if dist:
            e, v = dist[-1]
            if linear(v, lambda x: x in LEN) and v not in LEN:
                res.find('heights', e[1], 'source', 'the source is labelled %s instead of the number of nodes' % norm(v))
        elif not hidden and calls:
            res.find('heights', site0, 'source none', 'the source is not labelled with the number of nodes')
        lvs = list(leaves(st, o, True))
        for lf in lvs:
            if not lf.loops or lf.nested:
                continue
            s = restrip(lf.loops[-1][3])
            if s == ('elems', ('i', ('f', SELF, 'neighbors'), SRC)) and len(lf.loops) == 1 and not (lf.out and lf.out[0] == 'raise'):
                el = ('el', lf.loops[-1][2], s)
                sat = [e for e in lf.events if e[0] == 'set' and restrip(e[3]) == C('flow')]
                ps = [x for x, e in pushes(lf.events)]
                if sat and not ps and not unclear(lf):
                    if lf.sign(el, SINK) == {0} or lf.sign(el, SRC) == {0} or any(
                            s == frozenset((0,)) and len(lin_parts(k)[1]) == 1 and list(lin_parts(k)[1])[0][0] == 'i' for k, s in lf.signs.items()) \
                            or any(k[0] == 'in' and k[1] == el and v is True for k, v in lf.facts):
                        continue
                    res.find('inactive', sat[0][1], algo + ' start', 'a node that gets flow from the source is not put on the work list')
                for x in ps:
                    if x != el and clear3(x):
                        res.find('inactive', lf.loops[-1][1], algo + ' other', '%s is put on the work list in the place of a node that gets flow' % norm(x))
            if len(lf.loops) > 1 and lf.loops[0][3] == ('while',) and s[0] == 'elems' and (lf.out is None or lf.out[0] == 'continue'):
                el = ('el', lf.loops[-1][2], s)
                moved = last_fact(lf, lambda k: k[0] == 'true' and k[1][0] == 'r' and k[1][2] == 'process_edge_flow' and mentions(k, el))
                if moved is not True or any(e[0] in ('mut', 'setf', 'cadd', 'lit') for e in lf.events):
                    continue
                ps = pushes(lf.events)
                if any(mentions(x, el) for x, e in ps):
                    continue
                asked = [v for k, v in lf.facts if k[0] == 'none' and k[1][0] == 'r' and k[1][2] == 'peek' and mentions(k, el)]
                if True in asked and lf.sign(el, SRC) == frozenset((-1, 1)) and lf.sign(el, SINK) == frozenset((-1, 1)):
                    res.find('inactive', lf.loops[-1][1], algo + ' passed', 'pushing goes on to the next neighbour without putting the last one on the work list')
        for lf in lvs:
            if not lf.loops or lf.loops[-1][3] != ('while',) or (lf.out and lf.out[0] != 'continue'):
                continue
            evs = list(walk(lf.raw))
            peek = [restrip(e[6]) for e in lf.events if e[0] == 'ecall' and e[3] in ('peek', 'pop', 'dequeue') and len(e) > 6 and not e[4]]
            if not peek:
                continue
            cur = peek[0]
            moved = last_fact(lf, lambda k: k[0] == 'true' and k[1][0] == 'r' and k[1][2] == 'process_edge_flow')
            if moved is not True:
                continue
            res.count('moves')
            if any(not same_el(x, cur) for x, e in pushes(evs)):
                continue
            waiting = [v for k, v in lf.facts if k[0] == 'none' and k[1][0] == 'r' and k[1][2] == 'peek' and len(k[1]) > 4 and not same_el(k[1][4], cur)]
            waiting = True if True in waiting else False if waiting else None
            end = any(s == frozenset((0,)) and (SRC in lin_parts(k)[1] or SINK in lin_parts(k)[1]) for k, s in lf.signs.items())
            if waiting is False or end or any(k[0] == 'in' for k, v in lf.facts if v is True and mentions(k, SELF) is False):
                continue
            if waiting is True:
                res.find('inactive', lf.loops[-1][1], algo + ' target', 'a node that flow has been pushed to is not put on the work list')


def jobs(prog, tier):
    yield 'push', push, ()
    yield 'relabel', relabel, ()
    for a in ('FIFO', 'SAP', 'HighestLabel'):
        yield 'start/' + a, start, (a,)
