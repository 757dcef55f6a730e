"""C26: infeasibility is always detected and reported."""
from .base import *
from .struct import pair

ID = 'C26'
TECHNIQUE = 'boolean-result discipline: assumed callee results propagated over all paths, path conditions of the test itself'
RULE = ('the feasible-flow phase returns True only on paths on which every arc out of the artificial source is known to carry '
        'its capacity, each supply having an arc of exactly that capacity; with the phase assumed to fail every solver '
        'returns False at once, without further steps; with a solver assumed to fail min_cost_flow prints a message and '
        'starts nothing else')
EXPLANATION = ('find_feasible_flow is interpreted abstractly with the maximum-flow call and the four graph changes kept as '
               'calls; the facts known on each path that returns True must include flow = capacity for each arc of the '
               'source. The solvers and min_cost_flow are then interpreted once with the result of the call below them '
               'assumed False and once assumed True.')
MINIMUM = {'paths_checked': 6}
E = ('f', SELF, 'edge_attr')
S, T = C('s'), C('t')


def flow_minus_cap(d):
    """(edge key, sign of flow in d) when d is +-(flow - capacity) of one edge"""
    c, m = lin_parts(d)
    if c != 0 or len(m) != 2:
        return None
    fl = cp = None
    for t, k in m.items():
        if t[0] == 'i' and t[1][0] == 'i' and t[1][1] == E and t[2] in (C('flow'), C('capacity')):
            if t[2] == C('flow'):
                fl = (t[1][2], k)
            else:
                cp = (t[1][2], k)
    if fl and cp and fl[0] == cp[0] and fl[1] == -cp[1] and abs(fl[1]) == 1:
        return fl
    return None


def demand_of(d, el=None):
    """the element whose demand d is"""
    if d[0] == 'i' and d[2] == C('demand') and d[1][0] == 'f' and d[1][2] == 'attr' and d[1][1][0] == 'i':
        return d[1][1][2]
    return None


def phase(prog, res):
    r = explore(prog, 'Graph', 'find_feasible_flow', 'digraph', res=res, sink=False,
                keep=lambda ev: ev[0] in ('call', 'test'), tracked=tracking('eattr.flow', 'eattr.capacity', 'nattr.demand'),
                opaque=composed(('max_flow', 'max_flow_preflowpush', 'add_node', 'del_node', 'add_edge', 'del_edge')))
    if r is None:
        raise AnalysisBroken('find_feasible_flow')
    it, outs = r
    fm = prog.method('Graph', 'find_feasible_flow')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    for st, o in outs:
        if o[0] != 'return':
            continue
        ev = list(st.events())
        res.count('paths_checked')
        at = [i for i, e in enumerate(ev) if e[0] == 'call' and e[3] in ('max_flow', 'max_flow_preflowpush')]
        if not at:
            res.note('find_feasible_flow: no maximum-flow call on a path')
            continue
        setup(res, ev[:at[0]])
        if o[1] == FALSE:
            continue
        if o[1] != TRUE:
            if o[1][0] == 'c':
                res.find('result', site0, show(o[1]), 'find_feasible_flow returns %s, which is neither success nor failure'
                         % show(o[1]))
            else:
                res.count('paths_unknown')
            continue
        rest = ev[at[-1] + 1:]
        verdict = verified(rest)
        if verdict is None:
            res.count('paths_unknown')
            res.note('find_feasible_flow: how success is decided is not understood')
        elif verdict is not True:
            site, why = verdict
            res.find('unsent-supply', site or site0, why, 'find_feasible_flow reports success although %s' % why)


def verified(ev):
    worst = None
    for e in ev:
        if e[0] == 'loop':
            src = e[3]
            while src[0] in ('sorted', 'rev'):
                src = src[1]
            if src[0] == 'slice':
                base = src[1]
                if base[0] == 'elems' and base[1][0] == 'i' and base[1][2] == S:
                    worst = (e[1], 'only some of the arcs of the source are compared')
                continue
            if src[0] not in ('elems', 'keys', 'items', 'values'):
                continue
            who = src[1]
            over = 'arcs' if who[0] == 'i' and who[2] == S else 'edges' if who == E else \
                'nodes' if who[0] == 'f' and who[2] in ('nodes', 'neighbors', 'in_neighbors') else None
            if over is None:
                if who[0] == 'i' and who[2] == T and who[1] == ('f', SELF, 'in_neighbors') and any(
                        flow_minus_cap(d) is not None for a in e[4] for d, v in a[2]):
                    worst = (e[1], 'only the arcs into the sink are compared, so that supply in excess of the demand stays unsent')
                continue
            bad, saw = None, False
            for a in e[4]:
                ok = False
                for d, v in a[2]:
                    fc = flow_minus_cap(d)
                    if fc is not None:
                        saw = True
                        if v is not None and (-1 if fc[1] > 0 else 1) not in v:
                            ok = True
                    elif 'flow' in repr(d):
                        saw = True
                    el = demand_of(d)
                    if over == 'nodes' and el is not None and v is not None and 1 not in v:
                        ok = True
                    if over == 'edges' and v is not None and 0 not in v and d[0] == 'lin' and "'s'" in repr(d):
                        ok = True
                for k, v in a[1]:
                    if k[0] == 'in' and v is False and k[1] == C('demand'):
                        ok = True
                    if k[0] == 'in' and v is False and k[2] == E and pair(k[1])[0] == S:
                        ok = True
                    if over == 'edges' and v is False and k[0] in ('eq', 'equal') and "'s'" in repr(k):
                        ok = True
                if a[4] is not None and a[4][0] in ('return', 'raise', 'break'):
                    continue
                if not ok:
                    bad = (e[1], 'an arc of the source is passed over whose flow is not known to equal its capacity')
            if not saw:
                continue
            if bad is None:
                return True
            worst = bad
        elif e[0] == 'loopx':
            if 'flow' in repr(e[4]):
                worst = worst or (e[1], 'the comparison stops before all arcs of the source have been compared')
    if worst is not None:
        return worst
    if 'flow' in repr([x for x in walk(ev) if x[0] == 'test']):
        return None
    return (None, 'the flow out of the source is never compared with the supplies')


def setup(res, ev):
    """a node with a demand value allowed by the facts of an iteration gets the arc that value calls for"""
    for e in ev:
        if e[0] != 'loop':
            continue
        for a in e[4]:
            con = {}
            for d, v in a[2]:
                c, m = lin_parts(d)
                if len(m) == 1:
                    D, k = next(iter(m.items()))
                    if demand_of(D) is not None and v is not None:
                        con.setdefault(D, []).append((c, k, v))
            for D, cs in con.items():
                adds = [x for x in walk(a[0]) if x[0] == 'call' and x[3] == 'add_edge']
                if any(len(x[4]) < 2 for x in adds):
                    continue
                res.count('supplies')
                i = demand_of(D)
                ok = [x for x in (-10 ** 9, -7, -1, -0.5, 0.5, 1, 7, 10 ** 9)
                      if all(((c + k * x) > 0) - ((c + k * x) < 0) in v for c, k, v in cs)]
                if any(x > 0 for x in ok):
                    check(res, adds, (S, i), D, 1, 'supply', e[1])
                if any(x < 0 for x in ok):
                    check(res, adds, (i, T), D, -1, 'demand', e[1])


def check(res, adds, ends, d, sign, what, site):
    for x in adds:
        if tuple(x[4][:2]) == ends:
            cap = dict(x[5]).get('capacity') if x[5] else None
            if cap is None or any(k is None for k in dict(x[5])):
                return
            if cap != lin_scale(d, sign):
                if not set(lin_parts(cap)[1]) <= {d}:
                    return
                res.find('supply-arc', x[1], what, 'the arc for the %s of a node gets the capacity %s' % (what, norm(cap)))
            return
    res.find('supply-arc', site, what + ' missing', 'a node with %s gets no arc %s the artificial %s'
             % (what, 'from' if sign > 0 else 'to', 'source' if sign > 0 else 'sink'))


def assumed(values):
    def f(name):
        def g(it, st, recv, args, kw, ret):
            return [(st, values[name])]
        return g
    return {n: f(n) for n in values}


SOLVERS = {'cycle_canceling': ('create_residual_graph', 'get_negative_cycle', 'find_cycle_capacity', 'augment_cycle'),
           'network_simplex': TOP['network_simplex']}


def solver(prog, res, meth, value):
    opq = composed([n for n in SOLVERS[meth] if n != 'find_feasible_flow'])
    opq.update(assumed({'find_feasible_flow': value}))
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, keep=lambda ev: ev[0] in ('call', 'set', 'print'),
                tracked=tracking(), opaque=opq)
    if r is None:
        raise AnalysisBroken(meth)
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = [e for e in walk(st.events()) if e[0] == 'call']
        names = [e[3] for e in ev]
        if 'find_feasible_flow' not in names:
            # with the call somewhere else, the result it gives is not visible here
            res.find('not-called', site0, meth, '%s does not establish a feasible flow' % meth)
            continue
        i = names.index('find_feasible_flow')
        if value == FALSE:
            if o[1] != FALSE:
                res.find('failure-lost', site0, meth, '%s returns %s when no feasible flow exists' % (meth, norm(o[1])))
            later = [e for e in ev[i + 1:] if e[3] in SOLVERS[meth] and e[3] not in ('print_flow', 'simplex_redraw')]
            if later:
                res.find('goes-on', later[0][1], meth, '%s goes on with %s when no feasible flow exists' % (meth, later[0][3]))
        else:
            if o[1] != TRUE:
                res.find('success-lost', site0, meth, '%s returns %s after a feasible flow was found and improved'
                         % (meth, norm(o[1])))
        early = [e for e in ev[:i] if e[3] in SOLVERS[meth] and e[3] not in ('print_flow', 'simplex_redraw')]
        if early and value == FALSE:
            res.find('before-phase', early[0][1], early[0][3], '%s calls %s before a feasible flow is established'
                     % (meth, early[0][3]))


def top(prog, res, opts, value):
    opq = composed(('simplex_redraw', 'print_flow'))
    opq.update(assumed({'network_simplex': value, 'cycle_canceling': value}))
    r = explore(prog, 'Graph', 'min_cost_flow', 'digraph', res=res, sink=False, opaque=opq, tracked=tracking(),
                keep=lambda ev: ev[0] in ('call', 'print', 'raise'), kwterms=dict(opts), omit=('args',))
    if r is None:
        raise AnalysisBroken('min_cost_flow')
    fm = prog.method('Graph', 'min_cost_flow')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    what = ', '.join('%s=%s' % (k, show(v)) for k, v in opts)
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = [e for e in walk(st.events()) if e[0] in ('call', 'print')]
        at = [i for i, e in enumerate(ev) if e[0] == 'call' and e[3] in SOLVERS]
        if not at:
            res.find('not-solved', site0, what, 'min_cost_flow(%s) calls no solver' % what)
            continue
        rest = ev[at[0] + 1:]
        said = [e for e in rest if e[0] == 'print']
        if value == FALSE:
            words = ' '.join(repr(e[2]) for e in said)
            if not said or (all(x[0] == 'c' for e in said for x in e[2]) and 'easib' not in words):
                res.find('not-reported', ev[at[0]][1], ev[at[0]][3], 'min_cost_flow(%s) does not tell the user that %s found '
                         'the problem infeasible' % (what, ev[at[0]][3]))
            more = [e for e in rest if e[0] == 'call' and e[3] in SOLVERS]
            if more:
                res.find('goes-on', more[0][1], more[0][3], 'min_cost_flow(%s) starts %s after the problem was found infeasible'
                         % (what, more[0][3]))
            if o[1] == TRUE:
                res.find('failure-lost', site0, what, 'min_cost_flow(%s) returns True for an infeasible problem' % what)
        else:
            if any('infeasib' in repr(e[2]) for e in said):
                res.find('wrong-report', said[0][1], what, 'min_cost_flow(%s) reports a solved problem as infeasible' % what)


def jobs(prog, tier):
    yield 'find_feasible_flow', phase, ()
    for m in SOLVERS:
        for v in (FALSE, TRUE):
            yield '%s when the phase returns %s' % (m, show(v)), solver, (m, v)
    alg = [(), (('algo', C('simplex')),), (('algo', C('cycle_canceling')),)]
    more = [(), (('pivot', C('dantzig')),), (('pivot', C('first_eligible')),), (('root', ('s', 'root')),),
            (('pivot', C('first_eligible')), ('root', ('s', 'root')))]
    for a in alg:
        for b in more:
            for v in (FALSE, TRUE):
                yield 'min_cost_flow(%s) when the solver returns %s' % (','.join('%s=%s' % (k, show(x)) for k, x in a + b), show(v)), \
                    top, (a + b, v)
