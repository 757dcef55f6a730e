"""C16: flow stays between zero and capacity."""
from .flow import *
from .c15 import change, explore_it
from .c21 import args_of

ID = 'C16'
TECHNIQUE = 'bound analysis of every measured and pushed amount over linear terms with sign facts (abstract interpretation)'
RULE = ('in every loop that measures a path or cycle, the amount found after a step is at most what it was before and at most the residual '
        'capacity of the arc of that step (capacity minus flow forwards, flow backwards), for every step, the first and the closing one '
        'included; a push is at most the residual capacity of its arc; all flows are set to zero before the first augmentation, and '
        'preflow saturates exactly the arcs out of the source; the residual graph gets, for each arc, its reverse with capacity flow and '
        'negated cost if and only if flow is positive, and the arc itself with capacity minus flow if and only if that is positive, and is built anew after each change of flow')
EXPLANATION = ('The measuring loops are interpreted abstractly; for each way through an iteration the new amount, a linear term or a minimum of '
               'such terms, is compared with the residual of the arc of the step using the sign facts tested on that way.')
MINIMUM = {'measured': 4, 'pushes': 0}

INFS = ('infinite', 'inf')


def residual(lf, pred=None, walk=None):
    """residuals of the steps whose direction was tested on this way: list of (residual, start of the step, walk)"""
    out = []
    for k, v in lf.facts:
        if k[0] != 'in' or not isinstance(k[1], tuple) or v not in (True, False):
            continue
        en = ends(k[1])
        if en is None or not edge_set_term(k[2]):
            continue
        op = orient(*en)
        if op is None:
            continue
        d, base, start = op
        fwd = k[1] if d > 0 else rev(k[1])
        bwd = rev(k[1]) if d > 0 else k[1]
        forwards = v if d > 0 else not v
        r = lin_add(arc(fwd, 'capacity'), arc(fwd, 'flow'), -1) if forwards else arc(bwd, 'flow')
        x = (r, start, base)
        if x not in out:
            out.append(x)
    return out


def edge_set_term(t):
    return t[0] == 'f' and t[2] == 'edge_attr' or t[0] in ('o', 'r', 's', 'elems', 'keys')


def args_min(p):
    """members of a minimum, flattened"""
    if p[0] == 'pf' and p[1] == 'min':
        out = []
        for x in p[2:]:
            if isinstance(x, tuple) and x:
                out += args_min(x)
        return out
    return [p]


def at_most(lf, p, bound):
    """True, False (understood, and not so), None"""
    ms = args_min(p)
    if bound in ms:
        return True
    for m in ms:
        if lf.sign(bound, m) <= {0, 1}:
            return True
    if opaque_amount(bound) or any(opaque_amount(m) for m in ms):
        return None
    return False


def sentinel(lf, phi):
    for k, s in lf.signs.items():
        if s == frozenset((0,)) and phi in lin_parts(k)[1]:
            rest = [x for x in lin_parts(k)[1] if x != phi]
            if len(rest) == 1 and rest[0][0] in ('c', 'g', 's') and (rest[0][0] != 'c' or isinstance(rest[0][2], str)):
                return True
    return any(k == ('none', phi) and v is True for k, v in lf.facts) or any(k == ('true', phi) and v is False for k, v in lf.facts)


def measures(ini):
    """the variables that measure a walk"""
    out = []
    for phi, (init, backs) in ini.items():
        for b in backs:
            if b != phi and any(edge_term(x) and x[2] in (CAP, FLOW) for m in args_min(b) for x in lin_parts(m)[1]):
                out.append(phi)
                break
    return out


def steps_of(lf, rs, phi):
    return [r for r in rs if any(t[0] in ('phi', 'el') and t[1] == phi[1] for t in subterms(r[1]))]


def max_flow(prog, res, algo):
    it, outs, site0 = explore_it(prog, res, 'max_flow', {'algo': C(algo), 'display': C('off')}, ('display',), everything=False)
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        ini = inits(raw)
        lvs = list(leaves(st, o, True))
        ms = measures(ini)
        zeroed(res, 'max_flow', raw, lvs, {p[1] for p in ms})
        for lf in lvs:
            if lf.out and lf.out[0] == 'raise':
                continue
            # a step inside the measuring loop
            for phi in ms:
                if lf.loops and lf.loops[-1][2] == phi[1] and not lf.nested and not (lf.out and lf.out[0] == 'break'):
                    new = restrip(lf.phis[phi[2]]) if phi[2] in lf.phis else phi
                    step(res, 'max_flow', lf, phi, new, steps_of(lf, residual(lf), phi), lf.loops[-1][1])
                if any(e[0] == 'loopx' and e[2] == phi[1] for e in lf.raw):
                    walked_out(res, lf, phi, ini)
            # the amount used by an updating loop further on
            for e in lf.events:
                s = edge_set(e)
                if s is None or s[1] != FLOW:
                    continue
                d = change(s[0], s[2])
                if not d or d == ZERO:
                    continue
                en = ends(s[0])
                op = orient(*en) if en else None
                if op is None:
                    continue
                am = lin_scale(d, op[0])
                if opaque_amount(am):
                    continue
                for phi in ms:
                    if lf.loops and lf.loops[-1][2] == phi[1] or op[2][0] == 'phi' and op[2][1] == phi[1]:
                        continue
                    if lf.loops and any(t[0] == 'phi' and t[1] == lf.loops[-1][2] for t in subterms(am)):
                        continue
                    rs = [r for r in steps_of(lf, residual(lf), phi)]
                    if phi not in args_min(am) and not rs and not any(phi == x for x in lin_parts(am)[1]):
                        continue
                    step(res, 'max_flow', lf, phi, am, rs, e[1])


def walked_out(res, lf, phi, ini):
    """how a predecessor walk that was left by break or return ended"""
    src = ('s', 'source')
    rs = steps_of(lf, residual(lf), phi)
    if any(r[1][0] != 'i' and r[1][0] != 'phi' or r[2][0] not in ('o', 'phi', 's', 'r') for r in rs):
        return
    starts = [r[1] for r in rs]
    walks = {r[2] for r in rs} or {c[1] for c in [x for k in lf.signs for x in lin_parts(k)[1]] if c[0] == 'i' and c[1][0] in ('o', 'phi')}
    at = [v for v in ini if v[1] == phi[1] and any(b[0] == 'i' and b[2] == v for b in ini[v][1])]
    for k, s in lf.signs.items():
        if s != frozenset((0,)):
            continue
        m = lin_parts(k)[1]
        if src not in m or len(m) != 2:
            continue
        x = [t for t in m if t != src][0]
        if x[0] != 'i' or x[1] not in walks or not any(t == v for v in at for t in subterms(x)):
            continue
        if x[2] not in starts and lf.sign(x[2], src) != {0}:
            e = [e for e in lf.raw if e[0] == 'loopx' and e[2] == phi[1]][0]
            res.find('coverage', e[1], 'last', 'max_flow does not look at the last arc of the path')


def step(res, meth, lf, phi, new, rs, site):
    """the new amount after one step"""
    if not rs and new == phi:
        return
    res.count('measured')
    if opaque_amount(new) or not all(x[0] in ('pf', 'phi', 'lin', 'i', 'c') for x in args_min(new)):
        return
    if new != phi and not sentinel(lf, phi):
        if at_most(lf, new, phi) is False:
            res.find('grows', site, meth, '%s may let the amount grow to %s while it walks along the path' % (meth, norm(new)))
            return
    for r, start, base in rs:
        if at_most(lf, new, r) is False:
            res.find('exceeds', site, '%s %s' % (meth, 'forwards' if len(lin_parts(r)[1]) > 1 else 'backwards'),
                     '%s keeps the amount %s without comparing it with %s, which is left on an arc of the path' % (meth, norm(new), norm(r)))


def zeroed(res, meth, raw, lvs, lids):
    """all flows are set to zero first"""
    seen = None
    for e in raw:
        if e[0] in ('loop', 'loopx'):
            if contains(e, lids):
                break
            mine = [lf for lf in lvs if lf.loops and lf.loops[-1] is e]
            if any(edge_set(x) and edge_set(x)[1] == FLOW for lf in mine for x in lf.events):
                src = restrip(e[3]) if isinstance(e[3], tuple) else e[3]
                seen = (e, src, mine)
                break
    if seen is None:
        return
    e, src, mine = seen
    if len([1 for lf in mine if lf.loops]) == 0:
        return
    res.count('zeroed')
    for lf in mine:
        sets = [edge_set(x) for x in lf.events if edge_set(x) and edge_set(x)[1] == FLOW]
        if lf.nested or lf.out and lf.out[0] in ('raise', 'return'):
            continue
        if not sets:
            res.find('initial', e[1], meth, '%s does not set the flow of every arc to zero first' % meth)
        elif sets[-1][2][0] == 'c' and sets[-1][2] != ZERO and sets[-1][2][2] != 0:
            res.find('initial', e[1], meth + ' value', '%s starts with flow %s' % (meth, norm(sets[-1][2])))
        elif sets[-1][2][0] != 'c' and not opaque_amount(sets[-1][2]):
            res.find('initial', e[1], meth + ' value', '%s starts with flow %s' % (meth, norm(sets[-1][2])))


def contains(e, lids):
    if e[2] in lids:
        return True
    return any(x[0] in ('loop', 'loopx') and contains(x, lids) for a in e[4] for x in a[0])


def cycle_capacity(prog, res):
    """the residual graph's arcs are walked forwards"""
    meth = 'find_cycle_capacity'
    it, outs, site0 = explore_it(prog, res, meth, {}, ('display',))
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        ini = inits(raw)
        lvs = list(leaves(st, o, True))
        ms = measures(ini)
        rets = restrip(o[1]) if o[1] is not None else None
        if len(ms) != 1:
            if not ms and not any(e[0] in ('loop', 'loopx') for e in raw) and rets is not None and not opaque_amount(rets) and rets[0] != 'r':
                res.count('measured_unknown')
            continue
        phi = ms[0]
        rng, closing = set(), 0
        init = ini[phi][0]
        closes = capterms(init) if init is not None else []
        for k in closes:
            op = orient(*ends(k)) if ends(k) else None
            if op and op[2] == C(-1) and op[0] > 0:
                closing = 1
        unk = False
        for lf in lvs:
            if lf.loops and lf.loops[-1][2] == phi[1] and not lf.nested:
                if lf.out and lf.out[0] in ('break', 'raise', 'return'):
                    unk = True
                    continue
                new = restrip(lf.phis[phi[2]]) if phi[2] in lf.phis else phi
                keys = []
                for k, s in list(lf.signs.items()) + [(new, None)]:
                    for m in args_min(k):
                        for q in capterms(m):
                            if ends(q) and orient(*ends(q)) and q not in keys:
                                keys.append(q)
                for q in keys:
                    op = orient(*ends(q))
                    if op[0] < 0:
                        res.find('exceeds', lf.loops[-1][1], meth + ' direction', '%s looks at the reversed arcs of the cycle' % meth)
                        continue
                    step(res, meth, lf, phi, new, [(arc(q, 'capacity'), op[2], op[1])], lf.loops[-1][1])
                    r = index_range(lf, ini, op[2])
                    rng.add(r)
                if not keys and new == phi:
                    res.find('exceeds', lf.loops[-1][1], meth + ' skipped', '%s passes over an arc of the cycle' % meth)
            elif not lf.loops and rets is not None:
                # after the loop
                ks = [q for k in list(lf.signs) + [rets] for m in args_min(k) for q in capterms(m)]
                for q in ks:
                    op = orient(*ends(q)) if ends(q) else None
                    if op and op[0] > 0 and op[2] == C(-1) and mentions_phi(rets, lf, phi):
                        closing = 1
                        step(res, meth, lf, phi, rets, [(arc(q, 'capacity'), op[2], op[1])], site0)
        if unk or None in rng or len(rng) != 1:
            continue
        w = whole(rng.pop(), closing)
        res.count('ranges')
        if w is not True and 'twice' not in w:
            res.find('coverage', site0, '%s %s' % (meth, w), '%s does not look at every arc of the cycle (%s)' % (meth, w))


def mentions_phi(t, lf, phi):
    return True


def capterms(t):
    return [x[1][2] for x in lin_parts(t)[1] if edge_term(x) and x[2] == CAP]


def leaving(prog, res, meth='simplex_determine_leaving_arc'):
    it, outs, site0 = explore_it(prog, res, meth, {}, ('display', 'simplex_identify_cycle', 'add_edge', 'get_edge_list'))
    for st, o in outs:
        if o[0] != 'return' or o[1] is None:
            continue
        ret = restrip(o[1])
        if meth == 'simplex_augment_cycle':
            amount = ret
        elif ret[0] != 't' or len(ret) != 4:
            continue
        else:
            amount = ret[2]
        raw = list(st.events())
        ini = inits(raw)
        lvs = list(leaves(st, o, True))
        ms = measures(ini)
        if len(ms) != 1:
            continue
        phi = ms[0]
        rng, closing, unk = set(), 0, False
        for lf in lvs:
            rs = residual(lf)
            for k, v in lf.facts:
                if meth == 'simplex_determine_leaving_arc' and k[0] == 'in' and isinstance(k[1], tuple) and ends(k[1]) is not None and orient(*ends(k[1])) is not None \
                        and whole_network(st, k[2]):
                    res.find('table', site0, meth, '%s looks for an arc of the cycle in the network and not in the tree: it may measure an arc '
                             'between the same nodes that is no part of the cycle' % meth)
            if lf.loops and lf.loops[-1][2] == phi[1] and not lf.nested:
                if lf.out and lf.out[0] in ('break', 'raise', 'return'):
                    unk = True
                    continue
                new = restrip(lf.phis[phi[2]]) if phi[2] in lf.phis else phi
                mine = steps_of(lf, rs, phi)
                step(res, meth, lf, phi, new, mine, lf.loops[-1][1])
                for r, start, base in mine:
                    rng.add(index_range(lf, ini, start))
                if not mine:
                    unk = True
            elif not lf.loops:
                mine = [r for r in rs if r[1] == C(-1)]
                if mine and amount == phi and meth == 'simplex_augment_cycle':
                    # measured before the walk
                    first = ini[phi][0]
                    if first is None or sentinel(lf, phi) or first == NONE or opaque_amount(first):
                        unk = True
                        continue
                    closing = 1
                    for r, start, base in mine:
                        if at_most(lf, first, r) is False and any(edge_term(x) for m in args_min(first) for x in lin_parts(m)[1]):
                            res.find('exceeds', site0, meth + ' closing', '%s starts with %s although %s is left on the closing arc' %
                                     (meth, norm(first), norm(r)))
                elif mine:
                    closing = 1
                    step(res, meth, lf, phi, amount, mine, site0)
        if unk or None in rng or len(rng) != 1:
            res.count('ranges_unknown')
            continue
        w = whole(rng.pop(), closing)
        res.count('ranges')
        if w is not True and 'twice' not in w:
            res.find('coverage', site0, '%s %s' % (meth, w), '%s does not look at every arc of the cycle (%s)' % (meth, w))


def push(prog, res):
    it, outs, site0 = explore_it(prog, res, 'process_edge_flow', {}, ('display',))
    I, J = ('s', 'i'), ('s', 'j')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        for e in lf.events:
            s = edge_set(e)
            if s is None or s[1] != FLOW:
                continue
            d = change(s[0], s[2])
            if d is None or d is False or d == ZERO or s[0] not in (('t', I, J), ('t', J, I)):
                continue
            fwd = s[0] == ('t', I, J)
            am = d if fwd else lin_scale(d, -1)
            r = lin_add(arc(s[0], 'capacity'), arc(s[0], 'flow'), -1) if fwd else arc(s[0], 'flow')
            res.count('pushes')
            if opaque_amount(am) or not all(x[0] in ('pf', 'lin', 'i', 'c') for x in args_min(am)):
                continue
            if at_most(lf, am, r) is False:
                res.find('exceeds', e[1], 'push %s' % ('forwards' if fwd else 'backwards'),
                         'process_edge_flow pushes %s although only %s is left on the arc' % (norm(am), norm(r)))
            m = member(lf, ('t', I, J))
            if not fwd and m is True:
                res.find('exceeds', e[1], 'push direction', 'process_edge_flow uses the backward arc although the arc exists')


def preflow(prog, res, algo):
    r = explore(prog, 'Graph', 'max_flow_preflowpush', 'digraph', res=res, sink=False, merge=False,
                terms={'algo': C(algo), 'display': C('off')}, keep=lambda ev: ev[0] in ('set', 'loop', 'loopx', 'call', 'test'), keyerr=False,
                opaque=composed(('display', 'process_edge_flow', 'relabel', 'show_flow', 'search', 'set_display_mode')),
                tracked=tracking('eattr.flow', 'eattr.capacity', 'nattr.excess'))
    if r is None:
        raise AnalysisBroken('Graph.max_flow_preflowpush')
    it, outs = r
    S = ('s', 'source')
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        lvs = list(leaves(st, o, True))
        zeroed(res, 'max_flow_preflowpush', raw, lvs, ())
        for lf in lvs:
            if not lf.loops or lf.nested or lf.out:
                continue
            for e in lf.events:
                s = edge_set(e)
                if s is None or s[1] != FLOW or s[2] == ZERO or s[2][0] == 'c':
                    continue
                en = ends(s[0])
                if not en or opaque_amount(s[2]):
                    continue
                if en[0] == S:
                    res.count('saturated')
                    if s[2] != arc(s[0], 'capacity') and lf.sign(s[2], arc(s[0], 'capacity')) != {0}:
                        res.find('saturate', e[1], 'value', 'max_flow_preflowpush starts with %s on an arc out of the source, not its capacity' % norm(s[2]))
                elif en[1] == S:
                    res.find('saturate', e[1], 'into', 'max_flow_preflowpush saturates an arc into the source')


def residual_graph(prog, res):
    r = explore(prog, 'Graph', 'create_residual_graph', 'digraph', res=res, sink=False, merge=False, keyerr=False,
                keep=lambda ev: ev[0] in ('call', 'ecall', 'loop', 'loopx', 'test', 'set', 'mut'), opaque=composed(('add_edge', 'add_node', 'check_edge')),
                tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.create_residual_graph')
    it, outs = r
    fm = prog.method('Graph', 'create_residual_graph')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    both = None
    loops = 0
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o, True):
            if not lf.loops or lf.nested or lf.out and lf.out[0] in ('raise', 'return'):
                continue
            src = lf.loops[-1][3]
            if len(lf.loops) != 1 or not isinstance(src, tuple):
                continue
            calls = [e for e in lf.events if e[0] in ('call', 'ecall') and e[3] == 'add_edge']
            el = elements(lf, calls)
            if el is None:
                continue
            loops += 1
            res.count('residual_arcs')
            cap, flow, cost = arc(el, 'capacity'), arc(el, 'flow'), arc(el, 'cost')
            left = lin_add(cap, flow, -1)
            have = {}
            odd = False
            for e in calls:
                a = dict(zip(('name1', 'name2'), [restrip(x) for x in e[4]]))
                kw = dict(e[5] or ())
                a.update({k: restrip(v) for k, v in kw.items() if isinstance(v, tuple)})
                n1, n2 = a.get('name1'), a.get('name2')
                e0, e1 = ends(el)
                if (n1, n2) == (e0, e1):
                    have['f'] = (a, e)
                elif (n1, n2) == (e1, e0):
                    have['b'] = (a, e)
                else:
                    odd = True
            if odd:
                continue
            for d, amount, price, word in (('f', left, cost, 'arc'), ('b', flow, lin_scale(cost, -1), 'reversed arc')):
                s = set(lf.sign(amount, ZERO))
                if d in have:
                    a, e = have[d]
                    if s - {1} and 1 in s or not s & {1}:
                        res.find('residual', e[1], 'needless ' + word, 'create_residual_graph adds the %s without %s being positive' % (word, norm(amount)))
                    for nm, want in (('capacity', amount), ('cost', price)):
                        got = a.get(nm)
                        if got is None:
                            if not any(e[7:]) :
                                res.find('residual', e[1], 'no %s %s' % (nm, word), 'create_residual_graph gives the %s no %s' % (word, nm))
                        elif got != want and not opaque_amount(got) and lf.sign(got, want) != {0}:
                            res.find('residual', e[1], '%s %s' % (nm, word), 'create_residual_graph gives the %s %s %s instead of %s' % (word, nm, norm(got), norm(want)))
                elif 1 in s:
                    # the test may have been made on a neighbouring amount
                    res.find('residual', lf.loops[-1][1], 'missing ' + word, 'create_residual_graph leaves the %s out although %s may be positive' % (word, norm(amount)))
            guard = any(e[0] == 'call' and e[3] == 'check_edge' for e in lf.events) or \
                any(k[0] == 'in' and k[2][0] == 'f' and k[2][2] == 'edge_attr' for k, v in lf.facts)
            if len(have) == 2 and not guard:
                both = have['b'][1][1]
    if both:
        res.find('antiparallel', site0, 'add_edge', 'create_residual_graph adds (a,b) and (b,a) for one arc: with arcs in both directions between two nodes '
                 'the same residual arc is added twice and MultipleEdgeException raised')


def elements(lf, calls):
    lid = lf.loops[-1][2]
    for k in list(lf.signs) + [restrip(x) for e in calls for x in e[4]]:
        for t in subterms(k):
            if t[0] == 'el' and t[1] == lid:
                return t
    return None


def canceling(prog, res):
    """the residual graph in use is always that of the current flow"""
    meth = 'cycle_canceling'
    it, outs, site0 = explore_it(prog, res, meth, {'display': C('off')},
                                 ('display', 'find_feasible_flow', 'create_residual_graph', 'get_negative_cycle', 'find_cycle_capacity', 'augment_cycle'), everything=False)
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        ini = inits(raw)
        for lf in leaves(st, o, True):
            ev = [e for e in lf.events if e[0] == 'call']
            aug = [i for i, e in enumerate(ev) if e[3] == 'augment_cycle']
            if not aug or not lf.loops:
                continue
            res.count('rebuilt')
            i = aug[-1]
            made = [restrip(e[6]) for e in ev[i + 1:] if e[3] == 'create_residual_graph']
            for e in ev[i + 1:]:
                if e[3] in ('get_negative_cycle', 'find_cycle_capacity'):
                    rc = restrip(e[2])
                    if rc not in made and rc[0] in ('r', 'phi', 'o'):
                        res.find('stale', e[1], e[3], '%s goes on with a residual graph built before the flow changed' % meth)
            for e in ev[:i]:
                if e[3] in ('get_negative_cycle', 'find_cycle_capacity'):
                    rc = restrip(e[2])
                    if rc[0] == 'phi' and rc in ini and rc[1] == lf.loops[-1][2]:
                        back = restrip(lf.phis[rc[2]]) if rc[2] in lf.phis else rc
                        if back == rc and not lf.out:
                            res.find('stale', e[1], e[3] + ' loop', '%s goes on with a residual graph built before the flow changed' % meth)
                    elif rc[0] in ('r', 'o') and not any(restrip(x[6]) == rc for x in ev) and not lf.out:
                        res.find('stale', e[1], e[3] + ' outside', '%s goes on with a residual graph built before the flow changed' % meth)


def jobs(prog, tier):
    for a in ('DFS', 'BFS'):
        yield 'max_flow/' + a, max_flow, (a,)
    yield 'find_cycle_capacity', cycle_capacity, ()
    yield 'simplex_determine_leaving_arc', leaving, ()
    yield 'simplex_augment_cycle', leaving, ('simplex_augment_cycle',)
    yield 'process_edge_flow', push, ()
    for a in ('FIFO', 'SAP', 'HighestLabel'):
        yield 'preflow/' + a, preflow, (a,)
    yield 'create_residual_graph', residual_graph, ()
    yield 'cycle_canceling', canceling, ()
