"""C17: path labels only ever improve, together with their predecessor."""
from .leaf import *
from .c18 import start
from .base import *

ID = 'C17'
TECHNIQUE = 'per-alternative comparison of guards and stores of every relaxation step (abstract interpretation)'
RULE = ('in every alternative of a relaxation step: label and predecessor of a node are stored together; the stored label is the '
        'label of the tail plus the cost of the arc used (the cost alone for Prim), the stored predecessor is that tail; a store '
        'happens exactly when the candidate is known to be strictly smaller than the recorded label or there is none; the '
        'all-pairs method tries every intermediate node in its outermost loop')
EXPLANATION = ('The relaxation code of the label-setting, label-correcting, acyclic and all-pairs methods is interpreted '
               'abstractly; every innermost alternative is compared, as linear terms over labels and arc costs and signs of '
               'their differences, with the rule.')
MINIMUM = {'alternatives': 12, 'updates': 5}
NODES = ('f', SELF, 'nodes')
EDGES = ('f', SELF, 'edge_attr')
INFTY = C('infinity')


def label_of(t):
    """(family, node) when the term is the recorded label of a node"""
    if t[0] == 'r' and t[1] == 'ext' and t[2] == 'get_priority' and len(t) > 4:
        return 'queue', t[4]
    if t[0] == 'i' and t[2][0] == 'c' and t[1][0] == 'f' and t[1][2] == 'attr' and t[1][1][0] == 'i' and t[1][1][1] == NODES \
            and t[2][2] in ('distance', 'label', 'priority'):
        return t[2][2], t[1][1][2]
    if t[0] == 'i' and t[1][0] in ('o', 's') and t[2][0] != 'c':
        return t[1], t[2]
    return None


def cost_of(t):
    """(tail, head) when the term is the cost of an arc"""
    if t[0] == 'i' and t[2] == C('cost') and t[1][0] == 'i' and t[1][1] == EDGES and t[1][2][0] == 't' and len(t[1][2]) == 3:
        return t[1][2][1], t[1][2][2]
    if t[0] == 'i' and t[2] == C('cost') and t[1][0] == 'i' and t[1][1] == EDGES:
        return ('i', t[1][2], ZERO), ('i', t[1][2], ONE)
    if t[0] == 'r' and t[1] == 'op' and t[2] == 'get_edge_cost':
        for x in t[4:]:
            if isinstance(x, tuple) and x[0] == 't' and len(x) == 3:
                return x[1], x[2]
        if len(t) > 4 and isinstance(t[4], tuple):
            return ('i', t[4], ZERO), ('i', t[4], ONE)
    return None


def parts(c):
    """(labels, costs, rest) of a candidate"""
    k, m = lin_parts(c)
    L, K, rest = [], [], ([] if not k else [k])
    for t, v in m.items():
        if v == 1 and label_of(t):
            L.append(t)
        elif v == 1 and cost_of(t):
            K.append(t)
        else:
            rest.append((t, v))
    return L, K, rest


def is_candidate(v):
    if v[0] not in ('lin', 'i', 'r'):
        return False
    k, m = lin_parts(v)
    return any(cost_of(t) for t in m)


def stores(lf, watch):
    """label stores (family, node, value, event) and predecessor stores (dict, node, value, event)"""
    lab, pre = [], []
    for e in lf.events:
        if e[0] == 'set':
            b, k, v = restrip(e[2]), restrip(e[3]), restrip(e[4])
            if b[0] == 'f' and b[2] == 'attr' and b[1][0] == 'i' and b[1][1] == NODES:
                if k[0] == 'c' and k[2] in ('distance', 'label', 'priority'):
                    lab.append((k[2], b[1][2], v, e))
            elif b[0] in ('o', 's'):
                if is_candidate(v) or v[0] == 'c' and v not in (NONE,) and isinstance(v[2], (int, float)):
                    lab.append((b, k, v, e))
                else:
                    pre.append((b, k, v, e))
        elif e[0] == 'ecall' and e[3] == 'push' and len(e[4]) == 2:
            lab.append(('queue', restrip(e[4][0]), restrip(e[4][1]), e))
        elif e[0] == 'ecall' and e[3] == 'push' and len(e[4]) == 1 and e[5]:
            lab.append(('queue', restrip(e[4][0]), restrip(dict(e[5]).get('priority', NONE)), e))
    return lab, pre


def no_label(lf, node, fam):
    """the node is known to have no label yet: True, known to have one: False, else None"""
    r = None
    for k, v in lf.facts:
        if k[0] == 'in' and k[1] == node and k[2][0] in ('o', 's'):
            if v is False:
                return True
            r = False
        if k[0] == 'in' and k[1][0] == 'c' and k[1][2] in ('distance', 'label', 'priority') and k[1][2] == fam and \
                k[2] == ('f', ('i', NODES, node), 'attr'):
            if v is False:
                return True
        if k[0] == 'none' and len(k) > 1:
            l = label_of(k[1])
            if l and l[1] == node:
                if v is True:
                    return True
                r = False
    return r


SKIPS = ('green',)


def skip_allowed(lf, tail, head):
    """the alternative is one in which the arc is not examined on purpose: a finished node or a self-loop"""
    for k, v in lf.signs.items():
        c, m = lin_parts(k)
        if v == frozenset((0,)):
            if C('green') in m and any(t[0] == 'i' and t[2] == C('color') for t in m):
                return True
            ts = [t for t in m]
            if len(ts) == 2 and c == 0 and set(m.values()) == {1, -1} and any(t == head for t in ts):
                return True
    return False


def ends_ok(res, lf, arc, tail, head, reverse, gtype):
    a, b = arc
    if gtype == 'graph':
        return {a, b} == {tail, head}
    if reverse is True:
        return (a, b) == (head, tail)
    if reverse is False:
        return (a, b) == (tail, head)
    return {a, b} == {tail, head}


REV = ('process_edge_dijkstra', 'process_edge_prim')


def relaxation(prog, res, meth, gtype, family, opq, skips, extra):
    """family: how the recorded label is kept; skips: alternatives may leave an arc unexamined"""
    it, outs, site0 = start(prog, res, 'Graph', meth, composed(opq), ('call', 'ecall', 'set', 'del', 'mut', 'test'), g=gtype, **extra)
    seen = False
    cls = res
    for st, o in outs:
        if o[0] != 'return':
            continue
        for lf in leaves(st, o):
            if lf.out and lf.out[0] == 'raise':
                continue
            if one(prog, res, lf, meth, gtype, family, skips, site0):
                seen = True
    if not seen:
        res.note('no relaxation step recognised in %s' % meth)


def one(prog, res, lf, meth, gtype, family, skips, site0):
    lab, pre = stores(lf, family)
    cands = [x for x in lab if is_candidate(x[2])]
    rev = lf.fact(lambda k: k == ('true', ('s', 'reverse')))
    pre = [x for x in pre if x[2] != NONE]
    if any(NONE in lin_parts(t)[1] for t in [x[2] for x in lab] + list(lf.signs)) or NONE in [x[2] for x in lab if x[0] == family]:
        return False            # a node without a label is never expanded
    # candidates that were compared
    comp = []
    for k, v in lf.signs.items():
        c, m = lin_parts(k)
        costs = [t for t in m if cost_of(t)]
        if len(costs) == 1:
            s = m[costs[0]]
            if s not in (1, -1):
                continue
            neg = [t for t in m if m[t] == -s and label_of(t)]
            if len(neg) == 1:
                comp.append((costs[0], neg[0], frozenset(x * s for x in v), c * s,
                             {t: m[t] * s for t in m if t != neg[0]}))
    if not cands and not pre:
        if not comp:
            return idle(res, lf, meth, skips)
        res.count('alternatives')
        for cost, lb, v, c, m in comp:
            if -1 in v and no_label(lf, label_of(lb)[1], family) is not True:
                res.find('improvement-ignored', site_of(lf, site0), '%s %s' % (meth, sorted(v)),
                         '%s can keep the old label although the candidate is smaller' % meth)
            if v == {-1}:
                return True
        return True
    res.count('alternatives')
    if cands and not pre:
        e = cands[0][3]
        res.find('predecessor-kept', e[1], meth, '%s replaces the label of a node without its predecessor' % meth)
        return True
    if pre and not cands:
        for d, k, v, e in pre:
            # an initial entry has no arc behind it
            if lf.loops:
                if any(clear2(x[2]) and x[1] == k for x in lab) or not lab:
                    res.find('label-kept', e[1], meth, '%s replaces the predecessor of a node without its label' % meth)
                else:
                    res.count('alternatives_unknown')
            elif not lab:
                res.find('label-kept', e[1], meth, '%s replaces the predecessor of a node without its label' % meth)
        return True
    res.count('updates')
    real = [x for x in cands if x[0] == family or family == 'dict' and isinstance(x[0], tuple)]
    if not real:
        e = cands[0][3]
        res.find('label-kept', e[1], meth + ' ' + str(family), '%s does not record the new label of the node' % meth) \
            if family == 'queue' and not any(x[0] == 'ecall' and x[3] not in ('get_priority', 'isEmpty', 'pop', 'peek') for x in lf.events) \
            else res.count('alternatives_unknown')
        return True
    for fam, node, v, e in cands:
        mine = [x for x in pre if x[1] == node]
        if not mine:
            if all(clear2(x[1]) for x in pre):
                res.find('other-node', e[1], norm(node), '%s replaces the label of %s and the predecessor of %s' %
                         (meth, norm(node), norm(pre[0][1])))
            continue
        tail = mine[-1][2]
        L, K, rest = parts(v)
        if rest or len(K) != 1:
            if all(isinstance(r, (int, float)) for r in rest):
                res.find('candidate', e[1], norm(v), '%s records %s as the label' % (meth, norm(v)))
            else:
                res.count('alternatives_unknown')
            continue
        arc = cost_of(K[0])
        if not ends_ok(res, lf, arc, tail, node, False if rev is None else rev, gtype) or (rev is None and meth in REV and gtype == 'digraph'):
            if all(clear2(x) for x in arc + (tail,)):
                res.find('arc', e[1], '%s %s' % tuple(norm(x) for x in arc),
                         '%s records %s as the predecessor of %s but uses the cost of the arc %s, %s' %
                         (meth, norm(tail), norm(node), norm(arc[0]), norm(arc[1])))
            continue
        want = 0 if 'prim' in meth else 1
        if len(L) != want or (want and label_of(L[0])[1] != tail):
            res.find('candidate', e[1], norm(v), '%s records %s as the label of %s with predecessor %s' %
                     (meth, norm(v), norm(node), norm(tail)))
            continue
        if want and label_of(L[0])[0] != (family if isinstance(family, str) and family != 'dict' else fam) and \
                not (family == 'queue' and label_of(L[0])[0] in ('label', 'priority')):
            res.find('candidate', e[1], 'family', '%s adds the cost to %s, which is not the recorded label' % (meth, norm(L[0])))
    # the guard
    fam, node, v, e = real[0]
    free = no_label(lf, node, family)
    if free is True:
        return True
    ok = False
    for d, s in lf.signs.items():
        c, m = lin_parts(d)
        for t in m:
            l = label_of(t)
            if not l or l[1] != node or m[t] not in (1, -1):
                continue
            k = -m[t]
            diff = lin_scale(d, k)          # something - label(node)
            if lin_add(diff, t, 1) == v:
                if frozenset(x * k for x in s) == {-1}:
                    ok = True
                else:
                    res.find('not-smaller', e[1], str(sorted(x * k for x in s)),
                             '%s replaces the label of a node although the candidate is not known to be smaller' % meth)
                    return True
    if not ok:
        if any(x[2] and contains(restrip(x[0]), node) for x in lf.facts if x[0][0] in ('r',)) or unknown_guard(lf, node, v):
            res.count('alternatives_unknown')
        else:
            res.find('not-smaller', e[1], 'unguarded', '%s replaces the label of a node without comparing it with the '
                     'recorded one' % meth)
    return True


def unknown_guard(lf, node, v):
    """the alternative rests on a condition the rule cannot read"""
    for k, x in lf.facts:
        if k[0] == 'true' and isinstance(k[1], tuple) and k[1][0] == 'r':
            if k[1][1] == 'op' or k[1][1] == 'ext' and k[1][2] not in ('isEmpty',):
                return True
    return False


def clear2(t):
    """no unknown call results (elements of containers and loop variables are fine)"""
    if not isinstance(t, tuple):
        return True
    if t and t[0] == 'el':
        return True
    if t and t[0] == 'r' and t[1] not in ('ext',):
        return False
    return all(clear2(x) for x in t)


def site_of(lf, site0):
    for e in reversed(lf.events):
        if isinstance(e[1], tuple):
            return e[1]
    return site0


def neighbor_loop(src):
    while src[0] in ('sorted', 'rev'):
        src = src[1]
    if src[0] != 'elems':
        return False
    b = src[1]
    return b[0] == 'i' and b[1][0] == 'f' and b[1][2] in ('neighbors', 'in_neighbors') or \
        b[0] == 'r' and b[1] == 'op' and b[2] in ('get_neighbors', 'get_out_neighbors', 'get_in_neighbors')


def idle(res, lf, meth, skips):
    """an alternative without comparison or update"""
    if lf.nested or not lf.loops:
        return False
    src = lf.loops[-1][3]
    if not neighbor_loop(src):
        return False
    res.count('alternatives')
    head = ('el', lf.loops[-1][2], restrip(src))
    el = [t for t in subterms(tuple(k for k, v in lf.facts) + tuple(lf.signs)) if t[0] == 'el' and t[1] == lf.loops[-1][2]]
    if skips and skip_allowed(lf, None, el[0] if el else None):
        return True
    if lf.out and lf.out[0] in ('return', 'break'):
        return True
    if not lf.facts and not lf.signs and not el:
        res.find('arc-ignored', site_of(lf, lf.loops[-1][1]), meth, '%s passes over an arc without comparing labels' % meth)
    elif not skips and not any(k[0] == 'true' and k[1][0] == 'r' for k, v in lf.facts if isinstance(k[1], tuple)):
        res.find('arc-ignored', site_of(lf, lf.loops[-1][1]), meth, '%s passes over an arc without comparing labels' % meth)
    else:
        res.count('alternatives_unknown')
    return True


# ---- all pairs -----------------------------------------------------------------------------------------
def dist_of(t):
    if t[0] == 'i' and t[1][0] == 'o' and t[2][0] == 't' and len(t[2]) == 3:
        return t[1], t[2][1], t[2][2]
    return None


def is_inf(lf, D, i, j):
    return lf.sign(('i', D, ('t', i, j)), INFTY)


def floyd(prog, res, gtype):
    it, outs, site0 = start(prog, res, 'Graph', 'floyd_warshall', composed(('get_edge_cost',)), ('call', 'ecall', 'set', 'del', 'mut', 'test'), g=gtype)
    for st, o in outs:
        if o[0] != 'return':
            continue
        tables = o[1][1:] if o[1][0] == 't' else ()
        if len(tables) != 3 or tables[1][0] != 'o' or tables[2][0] != 'o':
            res.note('the tables of the all-pairs method are not recognised')
            continue
        D, N = tables[1], tables[2]
        done = False
        for lf in leaves(st, o):
            if lf.nested or not lf.loops or (lf.out and lf.out[0] == 'raise'):
                continue
            ds = [(restrip(e[3]), restrip(e[4]), e) for e in lf.events if e[0] == 'set' and e[2] == D]
            ns = [(restrip(e[3]), restrip(e[4]), e) for e in lf.events if e[0] == 'set' and e[2] == N]
            if len(lf.loops) == 3:
                done = True
                triple(res, lf, D, N, ds, ns, site0)
            elif len(lf.loops) == 2 and ns and not ds:
                nextinit(res, lf, D, ns)
            elif len(lf.loops) == 1 and 'edge_attr' in repr(lf.loops[0][3]):
                arcinit(res, lf, D, ds, gtype, site0)
        if not done:
            res.note('the triple loop of the all-pairs method is not recognised')


def els(lf):
    return [l[2] for l in lf.loops]


def lid(t):
    return t[1] if t[0] == 'el' else None


def triple(res, lf, D, N, ds, ns, site0):
    res.count('alternatives')
    outer = els(lf)[0]
    if not ds and not ns:
        # kept: no detour, or the detour is not shorter
        for k, v in lf.signs.items():
            c, m = lin_parts(k)
            d = [t for t in m if dist_of(t)]
            if len(m) == 2 and len(d) == 1 and INFTY in m and v == {0}:
                D_, i, j = dist_of(d[0])
                if outer in (lid(i), lid(j)):
                    return          # one half of the detour is missing
        known = False
        for k, v in lf.signs.items():
            c, m = lin_parts(k)
            d = [t for t in m if dist_of(t)]
            if len(d) == 3:
                known = True
                one_ = [t for t in d if m[t] == -1] if sum(m[t] for t in d) == 1 else [t for t in d if m[t] == 1]
                s = 1 if sum(m[t] for t in d) == 1 else -1
                if -1 in {x * s for x in v}:
                    res.find('improvement-ignored', site_of(lf, site0), 'floyd_warshall',
                             'the all-pairs method can keep a distance although the detour is shorter')
        if not known:
            unread = any(v is not None for k, v in lf.facts) and not lf.signs
            if any(x == {0} for x in lf.signs.values()) or unread:
                idx = [k for k, v in lf.signs.items() if v == frozenset((0,)) and all(lid(t) for t in lin_parts(k)[1])]
                if idx:
                    return          # i == k, k == j: the detour changes nothing (negative cycles are found at (k,k))
                res.find('improvement-ignored', site_of(lf, site0), 'unknown', 'the all-pairs method leaves a pair unexamined')
            else:
                res.count('alternatives_unknown')
        return
    res.count('updates')
    if not ds or not ns:
        e = (ds or ns)[0][2]
        res.find('predecessor-kept' if ds else 'label-kept', e[1], 'floyd_warshall',
                 'the all-pairs method replaces the %s of a pair without its %s' %
                 (('distance', 'predecessor') if ds else ('predecessor', 'distance')))
        return
    (key, v, e), (nk, nv, ne) = ds[-1], ns[-1]
    if key != nk:
        res.find('other-node', ne[1], norm(nk), 'the all-pairs method replaces the distance of one pair and the predecessor of another')
        return
    if key[0] != 't':
        res.count('alternatives_unknown')
        return
    i, j = key[1], key[2]
    c, m = lin_parts(v)
    d = [dist_of(t) for t in m]
    if c or None in d or any(x != 1 for x in m.values()):
        res.find('candidate', e[1], norm(v), 'the all-pairs method records %s' % norm(v)) if None not in d else \
            res.count('alternatives_unknown')
        return
    mids = None
    if len(d) == 2:
        for a, b in (d, d[::-1]):
            if a[1] == i and b[2] == j and a[2] == b[1]:
                mids = a[2]
    if mids is None:
        res.find('candidate', e[1], norm(v), 'the all-pairs method records %s as the distance of %s' % (norm(v), norm(key)))
        return
    if lid(mids) is not None and lid(mids) != outer:
        res.find('loop-order', e[1], 'outer', 'the intermediate node of the all-pairs method is not the outermost loop')
    if nv != ('i', N, ('t', mids, j)):
        if nv[0] == 'i' and nv[1] == N or nv[0] == 'el':
            res.find('predecessor', ne[1], norm(nv), 'the all-pairs method records %s as the predecessor of %s on the path from %s'
                     % (norm(nv), norm(j), norm(i)))
        else:
            res.count('alternatives_unknown')
    if is_inf(lf, D, i, j) == {0}:
        return
    ok = False
    cur = ('i', D, key)
    s = lf.sign(v, cur)
    if s != {-1}:
        res.find('not-smaller', e[1], str(sorted(s)), 'the all-pairs method replaces a distance although the detour is not known to be shorter')
    for a, b in ((i, mids), (mids, j)):
        if 0 in is_inf(lf, D, a, b):
            res.find('candidate', e[1], 'infinite', 'the all-pairs method adds a distance that may be infinite')
            break


def nextinit(res, lf, D, ns):
    key, v, e = ns[-1]
    if key[0] != 't' or len(key) != 3:
        return
    i, j = key[1], key[2]
    res.count('alternatives')
    inf = is_inf(lf, D, i, j)
    if v == NONE:
        same = lf.sign(i, j)
        if inf == {0}:
            return
        if same == {0} and 0 in lf.sign(('i', D, key), ZERO):
            return
        if inf == {-1, 0, 1} and same == {-1, 0, 1}:
            res.count('alternatives_unknown')
            return
        res.find('predecessor', e[1], 'none', 'the all-pairs method records no predecessor for a pair joined by an arc')
    elif v == j or (v != i and v[0] == 'el'):
        res.find('predecessor', e[1], norm(v), 'the all-pairs method starts with %s as the predecessor instead of the tail of the arc' % norm(v))
    elif v == i:
        if inf == {0}:
            res.find('predecessor', e[1], 'infinite', 'the all-pairs method records a predecessor for a pair without an arc')


def arcinit(res, lf, D, ds, gtype, site0):
    res.count('alternatives')
    el = None
    for e in lf.events:
        for t in subterms(tuple(x for x in e[2:] if isinstance(x, tuple))):
            if t[0] == 'el' and t[1] == lf.loops[-1][2]:
                el = restrip(t)
    if el is None:
        return
    a, b = ('i', el, ZERO), ('i', el, ONE)
    loopy = lf.sign(a, b)
    got = {}
    for k, v, e in ds:
        if k[0] == 't' and len(k) == 3:
            got[k] = (v, e)
        elif k == el:
            got[('t', a, b)] = (v, e)
    if 0 in loopy and got and loopy != {0}:
        v, e = got.get(('t', a, b), (NONE, None))
        if cost_of(v) and lf.sign(v, ZERO) & {0, 1}:
            res.find('label-worse', e[1], 'self-loop', 'a self-loop of non-negative cost can replace the distance zero')
    need = [('t', a, b)]
    if gtype == 'graph':
        need.append(('t', b, a))
    if loopy == {0}:
        cost = [t for k in lf.signs for t in lin_parts(k)[1] if cost_of(t)]
        for t in cost:
            if lf.sign(t, ZERO) == {0, 1} or lf.sign(t, ZERO) == {1}:
                if got:
                    res.find('label-worse', list(got.values())[0][1][1], 'self-loop', 'a self-loop of non-negative cost replaces the distance zero')
                return
    for k in need:
        if k not in got:
            if lf.out and lf.out[0] in ('break', 'return'):
                continue
            if 1 in {len(got)} or not got:
                if loopy == {0} and ('t', b, a) in need and got:
                    continue
                res.find('arc-ignored', site_of(lf, site0), norm(k), 'the all-pairs method does not record the cost of the arc %s' % norm(k))
        else:
            v, e = got[k]
            c = cost_of(v)
            if c is None:
                if v[0] == 'c' or v[0] == 'lin':
                    res.find('candidate', e[1], norm(v), 'the all-pairs method starts with %s as the distance along an arc' % norm(v))
            elif set(c) != {a, b}:
                res.find('candidate', e[1], norm(v), 'the all-pairs method uses the cost of another arc')


def jobs(prog, tier):
    for g in ('digraph', 'graph'):
        yield 'process_edge_dijkstra/' + g, relaxation, ('process_edge_dijkstra', g, 'queue', ('display',), True, {})
        yield 'process_edge_prim/' + g, relaxation, ('process_edge_prim', g, 'queue', ('display',), True, {})
        yield 'minimum_spanning_tree_prim/' + g, relaxation, ('minimum_spanning_tree_prim', g, 'queue', ('display',), True,
                                                             {'terms': {'display': C('off')}})
        yield 'floyd_warshall/' + g, floyd, (g,)
    yield 'acyclic_shortest_path', relaxation, ('acyclic_shortest_path', 'digraph', 'dict', ('display', 'dfs', 'get_out_neighbors'), False, {})
    yield 'fifo_label_correcting', relaxation, ('fifo_label_correcting', 'digraph', 'distance', ('label_correcting_check_cycle',), False, {})
