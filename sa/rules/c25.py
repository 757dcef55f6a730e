"""C25: pricing rules, optimality test and potentials agree."""
from .flow import *
from .c15 import explore_it
from .c21 import args_of
from itertools import product

ID = 'C25'
TECHNIQUE = 'guard-table comparison of the pricing methods over a finite sign abstraction (abstract interpretation)'
RULE = ('for every combination of: arc in the tree or not, flow zero or positive, flow below or at capacity, reduced cost negative, zero or '
        'positive (cost minus potential of the tail plus potential of the head), the optimality test and both pivot rules treat the arc as '
        'violating exactly when it is a non-tree arc at zero flow with negative, or at capacity with positive reduced cost; '
        'the potential given to a node makes the reduced cost of the tree arc to its predecessor zero whichever way that arc points; '
        'potentials are computed, after the tree indices, before they are used, and again after each change of the tree')
EXPLANATION = ('Each way through the loop over the arcs is reduced to the sign facts it has tested; the facts admit a set of combinations, '
               'each of which must be one for which the arc is rightly (not) reported.')
MINIMUM = {'alternatives': 2}

T = ('s', 't')


def cells(lf, el):
    """combinations the facts of this way admit"""
    cap, flow, cost = arc(el, 'capacity'), arc(el, 'flow'), arc(el, 'cost')
    e0, e1 = ends(el)
    rc = lin_add(lin_add(cost, attr(e0, 'potential'), -1), attr(e1, 'potential'))
    tree = None
    for k, v in reversed(lf.facts):
        if k[0] == 'in' and k[1] == el and of_tree(k[2]):
            tree = v
            break
    fs = set(lf.sign(flow, ZERO)) & {0, 1}
    cs = set(lf.sign(flow, cap)) & {-1, 0}
    zc = set(lf.sign(cap, ZERO)) & {0, 1}
    rs = set(lf.sign(rc, ZERO))
    for a in ([tree] if tree is not None else [True, False]):
        for f, c, r in product(sorted(fs), sorted(cs), sorted(rs)):
            if f == 0 and c == 0 and 0 not in zc or f == 1 and 1 not in zc or c == -1 and 1 not in zc:
                continue
            yield a, f, c, r


def of_tree(t):
    return t[0] == 'f' and t[2] == 'edge_attr' and t[1] == T or t[0] in ('keys', 'elems', 'o', 'r')


def want(cell):
    tree, f, c, r = cell
    if tree:
        return False
    if f == 0 and c == 0:
        # no capacity at all: the arc can carry no flow; all methods only have to agree
        return True if r < 0 else False if r == 0 else None
    return f == 0 and r < 0 or c == 0 and r > 0


def name(cell):
    tree, f, c, r = cell
    return '%s arc %s with %s reduced cost' % ('a tree' if tree else 'a non-tree',
                                              'of capacity zero' if f == 0 and c == 0 else 'at zero flow' if f == 0 else 'at capacity' if c == 0 else 'strictly between its bounds',
                                              {-1: 'negative', 0: 'zero', 1: 'positive'}[r])


def known_terms(lf, el):
    """the way depends on nothing but the arc, its data and potentials"""
    lid = el[1]
    for k, v in lf.signs.items():
        for x in lin_parts(k)[1]:
            if of(x, lid) and not plain_data(x, el):
                return False
    for k, v in lf.facts:
        if of(k, lid) and not (k[0] == 'in'):
            return False
    return True


def plain_data(x, el):
    if edge_term(x):
        return x[1][2] == el
    return x[0] == 'i' and x[2] == C('potential')


def of(t, lid):
    if not isinstance(t, tuple):
        return False
    if len(t) > 1 and t[0] in ('el', 'phi', 'mu') and t[1] == lid:
        return True
    return any(of(x, lid) for x in t)


def loop_el(lf):
    """the arc this iteration is about"""
    L = lf.loops[-1]
    src = L[3]
    if not isinstance(src, tuple):
        return None
    for t in list(lf.signs) + [k for k, v in lf.facts]:
        for x in subterms(t):
            if x[0] == 'el' and x[1] == L[2]:
                return x
    return None


def arcs_source(src):
    s = restrip(src)
    while s[0] in ('keys', 'elems', 'sorted', 'pf', 'copy') and len(s) > 1 and isinstance(s[-1], tuple):
        s = s[1] if isinstance(s[1], tuple) else s[-1]
    return s == EA


def pricing(prog, res, meth, terms):
    it, outs, site0 = explore_it(prog, res, meth, terms, ('display',))
    label = meth + ('/' + terms['pivot'][2] if 'pivot' in terms else '')
    zero = set()
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o, True):
            if len(lf.loops) != 1 or lf.nested or not arcs_source(lf.loops[-1][3]):
                continue
            if lf.out and lf.out[0] == 'raise':
                continue
            el = loop_el(lf)
            if el is None or lf.loops[-1][2] != el[1]:
                continue
            if any(k[0] == 'in' and k[2] != ('f', T, 'edge_attr') and k[1][0] == 'c' and v is False for k, v in lf.facts):
                continue                # the data of the arc or node is missing
            if comprehension(it, lf):
                res.count('unclear')
                continue
            if lf.out and (lf.out[0] == 'break' or lf.out[0] == 'return' and restrip(lf.out[1]) == C(True)) and meth == 'simplex_optimal' and \
                    known_terms(lf, el) and restrip(o[1]) == C(True):
                res.find('missed', lf.loops[-1][1], label + ' stops', '%s does not look at the arcs after one it has no objection to' % label)
                continue
            if meth == 'simplex_optimal':
                hit = lf.out is not None and lf.out[0] == 'return' and restrip(lf.out[1]) == C(False)
                if lf.out and lf.out[0] == 'return' and not hit:
                    continue
                if not hit:
                    # a flag that is returned later
                    fl = [restrip(v) for v in lf.phis.values()]
                    flags = [v for k, v in lf.phis.items() if restrip(v)[0] == 'c' and isinstance(restrip(v)[2], bool)]
                    if flags:
                        hit = None
            else:
                if lf.out and lf.out[0] == 'return':
                    hit = True if restrip(lf.out[1]) == el else None
                else:
                    hit = any(e[0] == 'set' and restrip(e[3]) == el and not edge_set(e) and not attr_set(e) for e in lf.events) or \
                        any(e[0] == 'mut' and any(el in set(subterms(restrip(x))) for x in e[4] if isinstance(x, tuple)) for e in lf.events) or \
                        any(restrip(v) == el for k, v in lf.phis.items() if not loop_target(it, lf, k)) or \
                        picks(it, lf, el)
            if hit and not (lf.out and lf.out[0] == 'return') and not any(x[0] == 'i' and x[2] == C('potential') for k in lf.signs for x in lin_parts(k)[1]):
                hit = None              # perhaps kept for a later look
            if hit is None or not known_terms(lf, el):
                res.count('unclear')
                if hit is not True:
                    continue
            res.count('alternatives')
            for c in cells(lf, el):
                w = want(c)
                if w is None:
                    zero.add(hit)
                    continue
                if hit and not w and known_terms(lf, el):
                    res.find('wrong', lf.loops[-1][1], '%s %s' % (label, name(c)), '%s reports %s as violating' % (label, name(c)))
                elif not hit and w:
                    res.find('missed', lf.loops[-1][1], '%s %s' % (label, name(c)), '%s does not report %s' % (label, name(c)))
    return zero, site0


def agreement(prog, res):
    """arcs without capacity are treated alike"""
    from .base import Result
    got = {}
    for meth, terms in PRICING:
        z, site = pricing(prog, Result('x'), meth, terms)
        if len(z) == 1:
            got.setdefault(z.pop(), []).append((meth, terms, site))
    if len(got) == 2:
        few = min(got.values(), key=len)[0]
        res.find('wrong', few[2], 'zero capacity', '%s and the others disagree about arcs of capacity zero with positive reduced cost' % few[0])
    res.count('agreement', sum(len(v) for v in got.values()))


PRICING = [('simplex_optimal', {})] + [('simplex_select_entering_arc', {'pivot': C(p)}) for p in ('dantzig', 'first_eligible')]


def comprehension(it, lf):
    import ast
    node = it.loops_seen.get(lf.loops[-1][2], {}).get('node')
    return node is not None and not isinstance(node, (ast.For, ast.While))


def loop_target(it, lf, var):
    import ast
    node = it.loops_seen.get(lf.loops[-1][2], {}).get('node')
    if node is None or not hasattr(node, 'target'):
        return False
    return any(isinstance(n, ast.Name) and n.id == var for n in ast.walk(node.target))


def picks(it, lf, el):
    # an iteration that leaves the loop hands its variables on directly
    if not (lf.out and lf.out[0] == 'break'):
        return False
    return any(restrip(v) == el for k, v in lf.phis.items() if not loop_target(it, lf, k))


def potentials(prog, res):
    meth = 'simplex_compute_potentials'
    it, outs, site0 = explore_it(prog, res, meth, {}, ('display',))
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o, True):
            if not lf.loops or lf.nested or lf.out and lf.out[0] == 'raise':
                continue
            sets = [(attr_set(e), e) for e in lf.events if attr_set(e) and attr_set(e)[1] == C('potential')]
            if any(k[0] == 'in' and k[1][0] == 'c' and v is False for k, v in lf.facts):
                continue                # an index or a potential is missing
            pred = None
            for t in [x for k, v in lf.facts for x in subterms(k)] + [x for s, e in sets for x in subterms(s[2])]:
                if t[0] == 'i' and t[2] == C('pred') and any(x == T for x in subterms(t[1])):
                    pred = t
                    break
            if pred is None:
                continue
            j = node_of(pred)
            if j is None:
                continue
            i = pred
            res.count('potentials')
            for key, word in ((('t', i, j), 'to'), (('t', j, i), 'from')):
                if not admits(lf, key, rev(key)):
                    continue
                sign = -1 if word == 'to' else 1
                w = lin_add(attr(i, 'potential'), arc(key, 'cost'), sign)
                mine = [(s, e) for s, e in sets if s[0] == j]
                if any(s[0] != j for s, e in sets):
                    res.count('unclear')
                    continue
                if not mine:
                    res.find('potential', lf.loops[-1][1], 'none ' + word, '%s leaves a node whose tree arc points %s it without potential' % (meth, word))
                elif mine[-1][0][2] != w and not opaque_amount(mine[-1][0][2]):
                    res.find('potential', mine[-1][1][1], 'value ' + word, '%s gives the node %s where the tree arc pointing %s it calls for %s' %
                             (meth, norm(mine[-1][0][2]), word, norm(w)))


def admits(lf, key, other):
    """the facts allow key to be the tree arc (and other not in the tree)"""
    for k, v in lf.facts:
        if k[0] != 'in' or k[1] not in (key, other):
            continue
        if k[2] == EA:
            if k[1] == key and v is False:
                return False
        elif of_tree(k[2]):
            if (k[1] == key) != v:
                return False
    return True


def node_of(t):
    """n of n.attr['pred']"""
    b = t[1]
    if b[0] == 'f' and b[2] == 'attr':
        b = b[1]
        if b[0] == 'i' and b[1][0] == 'f' and b[1][2] == 'nodes':
            return b[2]
    return None


def order(prog, res):
    """indices, potentials, then prices"""
    meth = 'network_simplex'
    names = ('display', 'find_feasible_flow', 'simplex_find_tree', 'set_display_mode', 'simplex_mark_st_arcs', 'simplex_redraw',
             'simplex_search', 'simplex_compute_potentials', 'simplex_optimal', 'simplex_select_entering_arc',
             'simplex_mark_entering_arc', 'simplex_determine_leaving_arc', 'simplex_mark_leaving_arc', 'simplex_remove_arc')
    it, outs, site0 = explore_it(prog, res, meth, {'display': C('off')}, names, everything=False)

    def run(events, state, bad):
        for e in events:
            if e[0] in ('loop', 'loopx'):
                ends_ = set()
                for a in e[4]:
                    if a[4] is None or a[4][0] in ('continue', 'break'):
                        ends_.add(run(a[0], state, bad))
                for s in set(ends_):
                    for a in e[4]:
                        run(a[0], s, bad)
                if len(ends_) == 1:
                    state = ends_.pop() if e[0] == 'loop' else state
                continue
            if e[0] not in ('call', 'ecall'):
                continue
            n = e[3]
            if n in ('simplex_remove_arc', 'simplex_find_tree'):
                state = ('none', e[1])
            elif n == 'simplex_search':
                state = ('indexed', e[1])
            elif n == 'simplex_compute_potentials':
                res.count('computed')
                if state[0] == 'none':
                    bad.append(('order', e[1], 'the tree indices are not set anew'))
                state = ('priced', e[1])
            elif n in ('simplex_optimal', 'simplex_select_entering_arc') and state[0] != 'priced':
                bad.append(('order', e[1], '%s works with potentials of another tree' % n))
        return state

    for st, o in outs:
        if o[0] != 'return':
            continue
        bad = []
        run(list(st.events()), ('none', site0), bad)
        for r, site, text in bad:
            res.find(r, site, text, 'network_simplex: ' + text)


def jobs(prog, tier):
    yield 'simplex_optimal', pricing, ('simplex_optimal', {})
    for p in ('dantzig', 'first_eligible'):
        yield 'simplex_select_entering_arc/' + p, pricing, ('simplex_select_entering_arc', {'pivot': C(p)})
    yield 'agreement', agreement, ()
    yield 'simplex_compute_potentials', potentials, ()
    yield 'network_simplex', order, ()
