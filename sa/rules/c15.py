"""C15: flow updates conserve flow."""
from .flow import *
from .c21 import args_of

ID = 'C15'
TECHNIQUE = 'oriented-step analysis of every store into an arc flow (abstract interpretation)'
RULE = ('in the augmenting loops every store into an arc flow adds, on an arc used forwards, and takes away, on one used backwards, '
        'one and the same amount, which does not change during the walk; every step of the cycle or path makes such a store exactly '
        'once, the closing arc included; the backward arc is used only when there is no forward one; a push changes the two excesses '
        'by opposite amounts equal to the change of flow; the amount and the cycle handed over belong together')
EXPLANATION = ('The updating methods are interpreted abstractly; each store is compared with the flow read from the same arc, its '
               'direction is read off the terms of the arc and of the walk, and the index ranges of the loops are compared with '
               'the length of the cycle.')
MINIMUM = {'updates': 6, 'pushes': 2}


# the cycle is one of a tree
BY_TREE = ('simplex_remove_arc',)


def explore_it(prog, res, meth, terms, opq, gtype='digraph', everything=True):
    r = explore(prog, 'Graph', meth, gtype, res=res, sink=False, merge=False, terms=terms, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'ecall', 'mut', 'test', 'loop', 'loopx', 'del', 'set'), opaque=composed(opq),
                tracked=None if everything else tracking('eattr.flow', 'eattr.capacity'),
                **({'untracked': frozenset()} if everything else {}))
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    it, outs = r
    fm = prog.method('Graph', meth)
    return it, outs, (fm.module.path, fm.node.lineno, fm.qual)


def change(key, val):
    """what is added to the flow of this arc; None: not an update of it; False: another arc's flow is used"""
    own = arc(key, 'flow')
    c, m = lin_parts(val)
    if m.get(own) == 1:
        return lin_add(val, own, -1)
    fl = [t for t in edge_atoms(val) if t[2] == FLOW]
    if fl and own not in m:
        return False
    return None


class Up:
    __slots__ = ('lf', 'ev', 'site', 'key', 'o', 'walk', 'start', 'D')


def updates(prog, res, meth, terms, opq, amount, kind, everything=True, cyc='cycle'):
    it, outs, site0 = explore_it(prog, res, meth, terms, opq, everything=everything)
    amounts = {}
    any_up = False
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        ini = inits(raw)
        lvs = list(leaves(st, o, True))
        byloop, ups = {}, []
        for lf in lvs:
            for e in lf.events:
                s = edge_set(e)
                if s is None or s[1] != FLOW:
                    continue
                d = change(s[0], s[2])
                if d is None:
                    continue
                if d is False:
                    res.find('foreign', e[1], meth, '%s gives an arc the flow of another arc' % meth)
                    continue
                if d == ZERO:
                    continue
                en = ends(s[0])
                op = orient(*en) if en else None
                if op is None:
                    res.count('updates_unknown')
                    continue
                u = Up()
                u.lf, u.ev, u.site, u.key, (u.o, u.walk, u.start), u.D = lf, e, e[1], s[0], op, d
                ups.append(u)
                any_up = True
                res.count('updates')
                amounts.setdefault(lin_scale(d, u.o), []).append(u)
                if lf.loops:
                    byloop.setdefault(lf.loops[-1][2], []).append(u)
                fwd = u.key if u.o > 0 else rev(u.key)
                mem = member(lf, fwd)
                if u.o < 0 and mem is True:
                    res.find('wrong-arc', e[1], meth, '%s changes the opposite arc although the arc of the step exists' % meth)
                if u.o > 0 and (mem is False or mem is None and member(lf, rev(fwd)) is True) or u.o < 0 and member(lf, rev(fwd)) is False:
                    res.find('wrong-arc', e[1], meth, '%s changes an arc that is known not to exist' % meth)
                at = [whole_network(st, c) for c in places(lf, u.key)]
                if meth in BY_TREE and at and all(at):
                    res.find('wrong-table', e[1], meth, '%s looks for an arc of the cycle in the network and not in the tree: an arc '
                             'between the same nodes that is no part of the cycle may be changed' % meth)
        # the amount stays the same during the walk
        for u in ups:
            for a in lin_parts(u.D)[1]:
                if a[0] == 'phi' and u.lf.loops and a[1] == u.lf.loops[-1][2]:
                    b = u.lf.phis.get(a[2])
                    if b is not None and restrip(b) != a and restrip(b)[0] != 'mu':
                        res.find('changing', u.site, meth, '%s changes the amount while it updates the flows' % meth)
        # every alternative of an updating loop updates
        for lid, us in byloop.items():
            for lf in lvs:
                if not lf.loops or lf.loops[-1][2] != lid or (lf.out and lf.out[0] == 'raise'):
                    continue
                mine = [u for u in us if u.lf is lf]
                if len(mine) > 1:
                    if len({u.key for u in mine}) < len(mine):
                        res.find('twice', mine[-1].site, meth, '%s changes the flow of an arc twice in one step' % meth)
                    continue
                if mine or lf.nested or (lf.out and lf.out[0] in ('break', 'return')):
                    continue
                if any(edge_set(e) and edge_set(e)[1] in (FLOW,) or e[0] == 'set' and restrip(e[3])[0] != 'c' for e in lf.events):
                    continue
                zero = [a for a in amounts if lf.sign(a, ZERO) == {0}]
                if zero:
                    continue
                res.find('left-out', lf.loops[-1][1], meth, '%s leaves the flow of an arc of the walk unchanged on some way through its loop' % meth)
        if kind == 'cycle':
            cover(res, meth, raw, lvs, ups, ini, site0)
        else:
            walked(res, meth, lvs, ups, ini, site0)
            # the amount of one walk, the last arc of it included
            for lf in lvs:
                for i, L in enumerate(lf.raw):
                    if L[0] not in ('loop', 'loopx'):
                        continue
                    us = [u for u in ups if u.lf.loops and u.lf.loops[-1] is L]
                    if not us:
                        continue
                    for e in lf.raw[i + 1:]:
                        if e[0] in ('loop', 'loopx') and e[2] == L[2]:
                            break
                        us += [u for u in ups if u.lf is lf and u.ev is e and u.start[0] == 'phi' and u.start[1] == L[2]]
                    # what held when the loop was entered tells walks apart
                    for same in alike(us, L[2]):
                        groups = {}
                        for u in same:
                            groups.setdefault(lin_scale(u.D, u.o), []).append(u)
                        judge(res, meth, groups, None, site0)
    if kind == 'cycle':
        judge(res, meth, amounts, amount, site0)
    if not any_up:
        res.note('no flow update recognised in %s' % meth)


def alike(us, lid):
    """updates that may belong to one and the same walk"""
    keys = {}
    for u in us:
        k = frozenset((d, x) for d, x in list(u.lf.signs.items()) + [(f, frozenset((v,))) for f, v in u.lf.facts]
                      if not any(t[0] in ('phi', 'el') and t[1] == lid for t in subterms(d)) and any(t[0] == 'phi' for t in subterms(d)))
        keys.setdefault(k, []).append(u)
    out = []
    for k in keys:
        d = dict(k)
        out.append([u for kk, vs in keys.items() if not any(q in d and not (d[q] & x) for q, x in kk) for u in vs])
    return out


def judge(res, meth, amounts, amount, site0):
    if not amounts or any(opaque_amount(a) for a in amounts):
        res.count('amounts_unknown', len(amounts))
        return
    # the loop that measured the amount may be another one on another path
    groups = {}
    for a, us in amounts.items():
        groups.setdefault(nolid(a), []).extend(us)
    want = amount if amount in groups else None
    if want is None and amount is not None:
        for g in groups:
            if named(g, amount):
                want = g
    if want is None and len(groups) == 1:
        g = list(groups)[0]
        m = lin_parts(g)[1]
        if len(m) == 1 and list(m.values())[0] < 0 or any(edge_term(x) and x[2] == CAP and k < 0 for x, k in m.items()):
            u = groups[g][0]
            res.find('sign', u.site, meth, '%s takes flow away from arcs used forwards' % meth)
        elif m and amount is not None and amount[0] == 's' and amount in m:
            u = groups[g][0]
            res.find('amount', u.site, meth, '%s changes flows by %s instead of %s' % (meth, norm(g), norm(amount)))
        return
    if want is None:
        want = max(groups, key=lambda g: len(groups[g]))
    for g, us in groups.items():
        if g != want:
            for u in us:
                if g == lin_scale(want, -1):
                    t = '%s changes an arc used %s the wrong way' % (meth, 'forwards' if u.o > 0 else 'backwards')
                else:
                    t = '%s changes one arc by %s and others by %s' % (meth, norm(g), norm(want))
                res.find('unequal', u.site, '%s %s' % (meth, u.o), t)


def nolid(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'phi' and len(t) == 3:
        return ('phi', 0, t[2])
    return tuple(nolid(x) if isinstance(x, tuple) else x for x in t)


def named(t, amount):
    return amount[0] == 'var' and t[0] == 'phi' and t[2] == amount[1]


def cover(res, meth, raw, lvs, ups, ini, site0):
    """all steps of the cycle, once each"""
    if not ups:
        return
    rng = {}
    closing = 0
    for u in ups:
        if not u.lf.loops:
            if u.start == C(-1):
                closing += 1
            else:
                return
            continue
        r = index_range(u.lf, ini, u.start)
        if r is None or len(u.lf.loops) > 1:
            res.count('ranges_unknown')
            return
        rng.setdefault(u.lf.loops[-1][2], set()).add(r)
    if len(rng) != 1 or any(len(x) != 1 for x in rng.values()):
        if not rng and closing:
            pass
        res.count('ranges_unknown')
        return
    w = whole(list(rng.values())[0].pop(), closing)
    if w is not True:
        res.find('coverage', site0, '%s %s' % (meth, w), '%s does not update every arc of the cycle exactly once (%s)' % (meth, w))
    res.count('ranges')


def walked(res, meth, lvs, ups, ini, site0):
    """a walk along predecessors goes from the sink to the source, the last arc included"""
    loops = {}
    for u in ups:
        if u.start[0] == 'phi':
            loops.setdefault(u.start, []).append(u)
    for cur, us in loops.items():
        init, backs = ini.get(cur, (None, ()))
        if init is not None and init[0] == 's' and init != ('s', 'sink'):
            res.find('coverage', site0, '%s start' % meth, '%s starts its walk at %s' % (meth, norm(init)))
        for b in backs:
            if b[0] == 'i' and b[1] == us[0].walk and b[2] != cur and b[2][0] == 'i':
                res.find('coverage', site0, '%s skip' % meth, '%s skips nodes on its walk' % meth)
            if b == cur:
                res.find('coverage', site0, '%s stuck' % meth, '%s does not move on its walk' % meth)
        prev = ('i', us[0].walk, cur)
        for lf in lvs:
            ls = [e for e in lf.raw if e[0] == 'loopx' and e[2] == cur[1]]
            if not ls or (lf.out and lf.out[0] == 'raise'):
                continue
            own = [u for u in ups if u.lf is lf and u.start == cur]
            if own:
                res.count('ranges')
                far = [k for k, s in lf.signs.items() if s == frozenset((0,)) and ('i', us[0].walk, prev) in lin_parts(k)[1]
                       and ('s', 'source') in lin_parts(k)[1]]
                if far and lf.sign(prev, ('s', 'source')) != {0}:
                    res.find('coverage', own[0].site, '%s early' % meth, '%s ends its walk before the source' % meth)
                continue
            if any(edge_set(e) and edge_set(e)[1] == FLOW for e in lf.events):
                continue
            if lf.sign(prev, ('s', 'source')) == {0} and lf.sign(cur, ('s', 'source')) != {0}:
                res.find('coverage', ls[0][1], '%s last' % meth, '%s does not update the last arc of the walk' % meth)


def push(prog, res):
    """a push moves flow and excess alike"""
    it, outs, site0 = explore_it(prog, res, 'process_edge_flow', {}, ('display',))
    I, J = ('s', 'i'), ('s', 'j')
    ex = lambda n: attr(n, 'excess')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        sets = [(edge_set(e), e) for e in lf.events if edge_set(e) and edge_set(e)[1] == FLOW]
        exs = [(attr_set(e), e) for e in lf.events if attr_set(e) and attr_set(e)[1] == C('excess')]
        if any(k[0] == 'in' and k[1] in (C('excess'), C('distance')) and v is False for k, v in lf.facts):
            continue                    # no excess recorded
        if not sets and not exs:
            continue
        res.count('pushes')
        if bool(sets) != bool(exs):
            res.find('unequal', (sets or exs)[0][1][1], 'half', 'process_edge_flow changes %s alone' % ('the flow' if sets else 'the excesses'))
            continue
        if len(sets) != 1:
            continue
        (key, _, val), e = sets[0]
        d = change(key, val)
        if d is False:
            res.find('foreign', e[1], 'push', 'process_edge_flow gives an arc the flow of another arc')
            continue
        if d is None or key not in (('t', I, J), ('t', J, I)):
            continue
        D = d if key == ('t', I, J) else lin_scale(d, -1)
        if opaque_amount(D):
            continue
        for n, sign in ((I, -1), (J, 1)):
            want = lin_add(ex(n), D, sign)
            mine = [(v, ee) for (m, _, v), ee in exs if m == n]
            if not mine:
                if lf.sign(want, ex(n)) != {0}:
                    res.find('unequal', e[1], 'missing %s' % n[1], 'process_edge_flow leaves the excess of one endpoint unchanged')
                continue
            v, ee = mine[-1]
            if v != want and not opaque_amount(v) and lf.sign(v, want) != {0}:
                res.find('unequal', ee[1], n[1], 'process_edge_flow changes the flow by %s but the excess of %s to %s' % (norm(D), n[1], norm(v)))


def saturate(prog, res, algo):
    """the first pushes out of the source"""
    r = explore(prog, 'Graph', 'max_flow_preflowpush', 'digraph', res=res, sink=False, merge=False,
                terms={'algo': C(algo), 'display': C('off')}, keep=lambda ev: ev[0] in ('set', 'loop', 'loopx', 'call', 'test'), keyerr=False,
                opaque=composed(('display', 'process_edge_flow', 'relabel', 'show_flow', 'search', 'set_display_mode')),
                tracked=tracking('eattr.flow', 'eattr.capacity', 'nattr.excess'))
    if r is None:
        raise AnalysisBroken('Graph.max_flow_preflowpush')
    it, outs = r
    S = ('s', 'source')
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o, True):
            if len(lf.loops) != 1 or lf.nested or lf.out:
                continue
            sets = [(edge_set(e), e) for e in lf.events if edge_set(e) and edge_set(e)[1] == FLOW]
            out = [(s, e) for s, e in sets if ends(s[0]) and ends(s[0])[0] == S]
            if len(out) != 1:
                continue
            (key, _, val), e = out[0]
            n = ends(key)[1]
            res.count('saturations')
            D = change(key, val)
            if D is None:
                D = val                 # from zero
            if D is False or opaque_amount(D):
                continue
            exs = [(attr_set(x), x) for x in lf.events if attr_set(x) and attr_set(x)[1] == C('excess')]
            if any(k[0] == 'in' and k[1] == C('excess') and v is False for k, v in lf.facts):
                continue
            for (m, _, v), x in exs:
                own = attr(m, 'excess')
                c, mm = lin_parts(v)
                d = lin_add(v, own, -1) if mm.get(own) == 1 else v
                want = lin_scale(D, -1) if m == S else D
                if m not in (S, n) or opaque_amount(d):
                    continue
                if d != want or (m == S and mm.get(own) != 1):
                    res.find('unequal', x[1], 'first %s' % ('source' if m == S else 'head'),
                             'the first pushes change the flow by %s but the excess of %s by %s' %
                             (norm(D), 'the source' if m == S else 'the head', norm(d)))
            for who in (S, n):
                if not any(m == who for (m, _, v), x in exs) and not any(x[0] == 'call' for x in lf.events):
                    res.find('unequal', e[1], 'first missing', 'the first pushes leave the excess of %s unchanged' % norm(who))


def handed(prog, res, meth, updater, measure, opq):
    """amount and cycle given to the updating method belong together"""
    it, outs, site0 = explore_it(prog, res, meth, {'display': C('off')} if meth in ('cycle_canceling', 'network_simplex') else {}, opq, everything=False)
    fm = prog.method('Graph', updater)
    names = tuple(a.arg for a in fm.node.args.args[1:])
    mm = prog.method('Graph', measure)
    mnames = tuple(a.arg for a in mm.node.args.args[1:])
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o, True):
            calls = [e for e in lf.events if e[0] == 'call' and e[3] == updater]
            for e in calls:
                a = dict(zip(names, args_of(e, names)))
                am, cy = a.get('amount', a.get('min_capacity')), a.get('cycle')
                if am is None or cy is None:
                    continue
                am, cy = restrip(am), restrip(cy)
                res.count('handed')
                before = lf.events[:lf.events.index(e)]
                ms = [x for x in before if x[0] == 'call' and x[3] == measure]
                if not ms:
                    continue
                x = ms[-1]
                ret = restrip(x[6])
                if measure == 'simplex_determine_leaving_arc':
                    if am not in ((('i', ret, ONE)),) and same_root(am, ret):
                        res.find('amount', e[1], meth, '%s passes on %s as the amount' % (meth, norm(am)))
                    if cy != ('i', ret, C(2)) and same_root(cy, ret):
                        res.find('amount', e[1], meth + ' cycle', '%s passes on %s as the cycle' % (meth, norm(cy)))
                    continue
                b = dict(zip(mnames, args_of(x, mnames)))
                cm = restrip(b['cycle']) if b.get('cycle') is not None else None
                if cm is not None and cm != cy and cm[0] in ('phi', 's', 'r') and cy[0] in ('phi', 's', 'r'):
                    res.find('amount', e[1], meth + ' cycle', '%s measures one cycle and changes another' % meth)


def same_root(a, b):
    return b in set(subterms(a))


def jobs(prog, tier):
    for a in ('DFS', 'BFS'):
        yield 'max_flow/' + a, updates, ('max_flow', {'algo': C(a), 'display': C('off')}, ('display',), ('var', 'min_capacity'), 'walk', False)
    yield 'augment_cycle', updates, ('augment_cycle', {}, ('display',), ('s', 'amount'), 'cycle')
    yield 'simplex_remove_arc', updates, ('simplex_remove_arc', {}, ('display', 'del_edge'), ('s', 'min_capacity'), 'cycle')
    yield 'process_edge_flow', push, ()
    for a in ('FIFO', 'SAP', 'HighestLabel'):
        yield 'preflow/' + a, saturate, (a,)
    yield 'cycle_canceling', handed, ('cycle_canceling', 'augment_cycle', 'find_cycle_capacity',
                                      ('display', 'find_feasible_flow', 'create_residual_graph', 'get_negative_cycle', 'find_cycle_capacity', 'augment_cycle'))
    yield 'simplex_find_tree', handed, ('simplex_find_tree', 'augment_cycle', 'simplex_augment_cycle',
                                        ('display', 'get_simplex_solution_graph', 'simplex_find_cycle', 'simplex_augment_cycle', 'augment_cycle', 'simplex_connect'))
    yield 'network_simplex', handed, ('network_simplex', 'simplex_remove_arc', 'simplex_determine_leaving_arc',
                                      ('display', 'find_feasible_flow', 'simplex_find_tree', 'set_display_mode', 'simplex_mark_st_arcs', 'simplex_redraw',
                                       'simplex_search', 'simplex_compute_potentials', 'simplex_optimal', 'simplex_select_entering_arc',
                                       'simplex_mark_entering_arc', 'simplex_determine_leaving_arc', 'simplex_mark_leaving_arc', 'simplex_remove_arc'))
