"""C22: searches examine every reachable node and then stop."""
import ast

from .leaf import *
from .base import *
from .c17 import clear2
from .c21 import args_of
from .c24 import attr, attr_set, inits, NODES, reached

ID = 'C22'
TECHNIQUE = 'work-list discipline of every search loop by abstract interpretation (must-remove, coverage and exit obligations)'
RULE = ('every completed pass of a work-list loop removes an element from the work list; the node expanded is the node removed, '
        'all its neighbours in the requested direction are looked at, and a neighbour is passed over only because it is '
        'finished, already marked, the node itself, or not reachable over the arc; nodes put on the list or expanded get the '
        'mark that is tested; the loop is left only with an empty work list or at the destination; the recursive searches '
        'visit exactly the neighbours not visited yet')
EXPLANATION = ('The search loops are interpreted abstractly; every alternative of a pass and of the neighbour loop is compared '
               'with the facts known on it.')
MINIMUM = {'passes': 12, 'neighbours': 15}
REMOVE_X = ('pop', 'remove', 'dequeue', 'popleft', 'get', 'get_nowait')
REMOVE_M = ('pop', 'remove', 'popleft', 'clear', 'popitem')
PUSH_X = ('push', 'enqueue', 'append', 'put', 'add')
PUSH_M = ('append', 'insert', 'add', 'appendleft', 'extend')
FIELDS = {'neighbors': 'neighbors', 'in_neighbors': 'in_neighbors', 'out_neighbors': 'neighbors'}
CALLS = {'get_neighbors': 'neighbors', 'get_out_neighbors': 'neighbors', 'get_in_neighbors': 'in_neighbors'}


class Spec:
    def __init__(self, cls, meth, gtype, bases, opq=('display',), terms=None, track=(), dest=(), colour=None,
                 proc='push', arcs=False, need=(), name='worklist'):
        self.cls, self.meth, self.gtype, self.bases, self.opq = cls, meth, gtype, bases, opq
        self.terms, self.track, self.dest, self.colour, self.proc, self.arcs = terms or {}, track, dest, colour, proc, arcs
        self.need = need


def is_list(x):
    return x[0] in ('o', 'phi') or x[0] == 's' and x[1] != 'self'


def qfact(k, v):
    """(work list, known to be empty) when the fact speaks of emptiness"""
    if k[0] == 'true' and isinstance(k[1], tuple) and k[1][0] == 'r' and k[1][1] == 'ext' and k[1][2] in ('isEmpty', 'empty'):
        return k[1][3], v
    if k[0] == 'nonempty' and is_list(k[1]):
        return k[1], None if v is None else not v
    if k[0] == 'true' and is_list(k[1]):
        return k[1], None if v is None else not v
    return None


def inner(lf, pred):
    for k, v in reversed(lf.facts):
        if pred(k):
            return v
    return None


def removals(evs, Q=None):
    out = []
    for e in evs:
        q = restrip(e[2]) if len(e) > 2 and isinstance(e[2], tuple) else None
        if Q is not None and q != Q:
            continue
        if e[0] == 'ecall' and e[3] in REMOVE_X:
            out.append(e)
        elif e[0] == 'mut' and e[3] in REMOVE_M:
            out.append(e)
        elif e[0] == 'del' and q is not None and is_list(q):
            out.append(e)
    return out


def taken(e, evs):
    """the element a removal takes off"""
    if e[4] and e[3] == 'remove':
        return restrip(e[4][0])
    if e[0] == 'ecall' and len(e) > 6 and isinstance(e[6], tuple):
        return restrip(e[6])
    return None


def pushes(evs, Q=None):
    out = []
    for e in evs:
        q = restrip(e[2]) if len(e) > 2 and isinstance(e[2], tuple) else None
        if Q is not None and q != Q:
            continue
        if e[0] == 'ecall' and e[3] in PUSH_X and e[4]:
            out.append((restrip(e[4][0]), e))
        elif e[0] == 'mut' and e[3] in PUSH_M and e[4]:
            out.append((restrip(e[4][-1]), e))
    return out


def nsource(src):
    """(field, node) of a loop over neighbours; None otherwise"""
    src = restrip(src)
    while src[0] in ('sorted', 'rev'):
        src = src[1]
    if src[0] != 'elems':
        return None
    b = src[1]
    if b[0] == 'i' and b[1][0] == 'f' and b[1][1] == SELF and b[1][2] in FIELDS:
        return FIELDS[b[1][2]], b[2]
    if b[0] == 'r' and b[1] == 'op' and b[2] in CALLS and len(b) > 4:
        return CALLS[b[2]], b[4]
    if b[0] == 'r' and b[1] == 'op' and b[2] == 'get_children' and len(b) > 4:
        return 'children', b[4]
    return None


def same_el(t, cur):
    return t == cur or noc(t) == noc(cur)


def noc(t):
    """call tokens apart"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'r' and len(t) > 4 and t[1] == 'ext':
        return t[:4]
    if t and t[0] == 'r' and t[1] in ('pop', 'popitem'):
        return t[:3]
    return tuple(noc(x) if isinstance(x, tuple) else x for x in t)


def worklist(prog, res, sp):
    r = explore(prog, sp.cls, sp.meth, sp.gtype, res=res, sink=False, merge=False, terms=sp.terms,
                keep=lambda ev: ev[0] in ('call', 'ecall', 'mut', 'test', 'loop', 'loopx', 'del', 'set', 'lit'), opaque=composed(sp.opq),
                tracked=None if sp.track is None else tracking(*sp.track), untracked=frozenset() if sp.track is None else None)
    if r is None:
        raise AnalysisBroken('%s.%s' % (sp.cls, sp.meth))
    it, outs = r
    sp.it = it
    fm = prog.cls(sp.cls).lookup(sp.meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    hit = False
    for st, o in outs:
        if o[0] == 'raise':
            refused(res, sp, st, o, site0)
            continue
        raw = list(st.events())
        ph = inits(raw)
        lvs = list(leaves(st, o, True))
        loops = {}
        for lf in lvs:
            if not lf.loops or lf.loops[-1][3] != ('while',) or (lf.out and lf.out[0] == 'raise'):
                continue
            qs = [qfact(k, v) for k, v in lf.facts if qfact(k, v)]
            Q = [q for q, e in qs if e is False and guard(lf, q)]
            if not Q:
                continue
            # the work list of this loop is the one tested last before its body; an outer loop has no body of its own here
            q = [x for x in Q if removals(walk(lf.raw), x)] or [x for x in Q if pushes(walk(lf.raw), x)]
            if not q:
                own = own_test(lf)
                if own is None:
                    continue
                q = [own]
            hit = True
            one_pass(res, sp, lf, q[-1], lvs, ph, site0, loops)
        marks(res, sp, lvs, loops, site0)
        exits(res, sp, st, raw, lvs, loops, ph, site0)
        started(res, sp, raw, loops)
    if not hit:
        if any(o[0] == 'return' for st, o in outs) and any(isinstance(n, ast.While) for n in ast.walk(fm.node)) and not any(
                e[0] in ('loop', 'loopx') and e[3] == ('while',) for st, o in outs for e in walk(st.events())):
            res.find('unexamined', site0, sp.meth + ' start', 'the work list of %s is empty when its loop is reached' % sp.meth)
        res.note('the work-list loop of %s is not recognised' % sp.meth)


def refused(res, sp, st, o, site0):
    """a work list of a kind the operation knows how to use, or the one it makes itself, is not refused"""
    if len(o) < 3 or o[2] != ('exc', o[1]):
        return
    Q = ('s', 'q')
    for k, v in st.facts.items():
        k = restrip(k)
        if v is True and (k == ('none', Q) or k[0] == 'inst' and k[1] == Q and k[2][0] == 'ext') and not any(
                e[0] in ('loop', 'loopx') for e in st.events()):
            what = 'its own work list' if k[0] == 'none' else 'a %s' % k[2][1].split('.')[-1]
            if any(f[0] in ('none', 'true', 'in') and f[1] != Q and f[1] not in (('s', 'root'), ('s', 'display')) for f in st.facts if isinstance(f[1], tuple)):
                continue
            res.find('refused', site0, what, '%s refuses %s' % (sp.meth, what))


def started(res, sp, raw, loops):
    """something is put on the work list before the loop"""
    def uses(evs, Q):
        for e in evs:
            if e[0] in ('ecall', 'mut', 'call', 'set') and any(isinstance(x, tuple) and Q in set(subterms(restrip(x))) for x in e[2:]) \
                    and not (e[0] == 'ecall' and restrip(e[2]) == Q and e[3] in ('isEmpty',) + REMOVE_X):
                return True
        return False

    def rec(events, before):
        for i, e in enumerate(events):
            if e[0] in ('loop', 'loopx') and e[2] in loops and e[3] == ('while',):
                Q = loops[e[2]]['Q']
                pre = list(before) + [x for y in events[:i] for x in walk([y])]
                if Q == ('s', 'q') or Q[0] == 'o' and (str(Q[1]).startswith('ext:') or any(
                        x[0] == 'lit' and restrip(x[2]) == Q and not x[3] for x in pre)):
                    res.count('starts')
                    if not uses(pre, Q):
                        res.find('unexamined', e[1], sp.meth + ' start', '%s enters its loop without a start on its work list' % sp.meth)
            elif e[0] in ('loop', 'loopx'):
                for a in e[4]:
                    rec(list(a[0]), list(before) + [x for y in events[:i] for x in walk([y])])
    rec(raw, [])


def guard(lf, Q):
    """the work list is tested by the loop itself, not by a loop within it"""
    inside = False
    for e in lf.raw:
        if e[0] in ('loop', 'loopx'):
            inside = True
        elif e[0] == 'test' and qfact(restrip(e[2]), e[3]) and qfact(restrip(e[2]), e[3])[0] == Q:
            return not inside
        elif e[0] == 'ecall' and e[3] == 'isEmpty' and restrip(e[2]) == Q:
            return not inside
    return True


def own_test(lf):
    """the work list tested by this alternative itself"""
    for e in lf.events:
        if e[0] == 'test':
            f = qfact(restrip(e[2]), e[3])
            if f and f[1] is False:
                return f[0]
        if e[0] == 'ecall' and e[3] == 'isEmpty':
            return restrip(e[2])
    return None


def leaves_ok(lf, sp, lvs):
    """the loop may be left here: at the destination, or with a result"""
    for k, s in lf.signs.items():
        if s == frozenset((0,)):
            c, m = lin_parts(k)
            if c == 0 and len(m) == 2 and any(('s', d) in m for d in sp.dest):
                return True
    for d in sp.dest:
        for e in lf.events:
            if e[0] == 'test' and e[3] is True:
                k = restrip(e[2])
                if k[0] == 'in' and k[1] == ('s', d) and is_list(k[2]):
                    return True
    return False


def neighbour_leaves(lvs, loop):
    return [x for x in lvs if x.loops and x.loops[-1] is loop]


def one_pass(res, sp, lf, Q, lvs, ph, site0, loops):
    wl = lf.loops[-1]
    info = loops.setdefault(wl[2], {'Q': Q, 'pass': [], 'neigh': [], 'expanded': []})
    evs = list(walk(lf.raw))
    rem = removals(evs, Q)
    if not rem and Q[0] == 'phi':
        back = lf.phis.get(Q[2])
        if back is not None and restrip(back) != Q:
            rem = [None]            # the work list is replaced
    # what kind of pass
    if lf.out and lf.out[0] in ('break', 'return'):
        if sp.dest is not None and not leaves_ok(lf, sp, lvs) and not via_neighbours(lf, sp, lvs, res):
            if sp.dest or lf.out[0] == 'break':
                if not unclear(lf):
                    res.find('abandoned', site_of(lf, site0), '%s %s' % (sp.meth, lf.out[0]),
                             '%s leaves its loop although nodes may be waiting and the destination is not reached' % sp.meth)
        return
    res.count('passes')
    info['pass'].append(lf)
    if not rem:
        hidden = [e for e in evs if e[0] == 'call' and Q in [restrip(x) for x in e[4]] and e[3] not in sp.opq]
        if hidden or Q[0] == 'phi' and not any(e[0] in ('mut', 'ecall') and restrip(e[2]) == Q for e in evs) and \
                any(b != Q and b[0] == 'o' for b in ph.get(Q, (None, ()))[1]):
            res.count('passes_unknown')
        else:
            res.find('spin', site_of(lf, site0), sp.meth, '%s can complete a pass without taking a node off its work list' % sp.meth)
            return
    cur = None
    for e in rem:
        if e is not None and taken(e, evs) is not None and cur is None:
            cur = taken(e, evs)
        if e is not None and e[3] == 'remove' and e[4]:
            cur = restrip(e[4][0])
    # expansion
    direct = [e for e in lf.raw if e[0] in ('loop', 'loopx')]
    covered = {}
    unknown = False
    for e in direct:
        s = nsource(e[3])
        if s is None:
            if e[3][0] in ('range', 'while'):
                unknown = True
            elif e[3][0] in ('elems', 'sorted', 'rev', 'slice') or e[3][0] == 'enumerate':
                unknown = unknown or not simple_slice(res, sp, e, site0)
            continue
        covered.setdefault(s[0], []).append((s[1], e))
    if cur is None:
        c = {n for l in covered.values() for n, e in l}
        for n in c:
            if n[0] in ('r', 'i', 'phi') and (n[0] != 'i' or is_list(n[1])):
                cur = n
    if sp.need:
        return tree_pass(res, sp, lf, Q, cur, site0)
    fin = finished(lf, sp, cur)
    if fin:
        return
    missing = [b for b in sp.bases if b not in covered]
    extra = [b for b in covered if b not in sp.bases]
    if missing and not unknown:
        if skipped_node(lf, sp, cur):
            return
        if unclear(lf) and not extra:
            res.count('passes_unknown')
            return
        res.find('unexamined', site_of(lf, site0), '%s %s' % (sp.meth, ','.join(missing)),
                 '%s does not look at the %s of a node it takes off its work list' % (sp.meth, ', '.join(missing).replace('neighbors', 'neighbours')))
        return
    info['expanded'].append((lf, cur))
    for b in sp.bases:
        for n, e in covered.get(b, ()):
            if cur is not None and not same_el(n, cur) and (n[0] in ('s', 'c') or n[0] == 'r' and cur[0] == 'r'):
                res.find('other-node', e[1], norm(n), '%s expands %s although it takes %s off its work list' % (sp.meth, norm(n), norm(cur)))
            if comprehension(sp, e):
                res.count('neighbours_unknown')
                continue
            for x in neighbour_leaves(lvs, e):
                neighbour(res, sp, x, n, Q, info, site0, lvs)


def comprehension(sp, e):
    """a selection of the neighbours is made first"""
    info = sp.it.loops_seen.get(e[2])
    return info is not None and info.get('node') is not None and not isinstance(info['node'], (ast.For, ast.While))


def part(t):
    """a slice of the neighbours, or of a list made of them"""
    while t[0] in ('sorted', 'rev', 'elems') and len(t) > 1 and isinstance(t[1], tuple):
        t = t[1]
    return t[0] == 'slice' and not (len(t) == 5 and all(x in (NONE, ZERO) for x in t[2:4]))


def simple_slice(res, sp, e, site0):
    s = restrip(e[3])
    while s[0] in ('sorted', 'rev'):
        s = s[1]
    if s[0] == 'slice' or s[0] == 'elems' and s[1][0] == 'slice':
        inn = s[1] if s[0] == 'slice' else s[1][1]
        if inn[0] == 'elems':
            inn = inn[1]
        if inn[0] == 'i' and inn[1][0] == 'f' and inn[1][2] in FIELDS:
            res.find('unexamined', e[1], 'slice', '%s looks at a part of the neighbours only' % sp.meth)
            return True
    return False


def via_neighbours(lf, sp, lvs, res):
    """the pass is left from within the neighbour loop"""
    for e in lf.raw:
        if e[0] == 'loopx':
            return True
    return False


def finished(lf, sp, cur):
    """the pass only drops a node that is finished already"""
    if sp.colour is None or cur is None:
        return False
    for n in (cur,):
        if lf.sign(attr(n, 'color'), C(sp.colour)) == {0}:
            return True
    for k, s in lf.signs.items():
        c, m = lin_parts(k)
        if s == frozenset((0,)) and C(sp.colour) in m and any(t[0] == 'i' and t[2] == C('color') and t[1][0] == 'f' and
                                                             same_el(t[1][1], ('i', NODES, cur)) for t in m):
            return True
    return False


def skipped_node(lf, sp, cur):
    """a node already handled (known by membership) need not be expanded again"""
    if cur is None:
        return False
    for k, v in lf.facts:
        if k[0] == 'in' and same_el(k[1], cur) and is_list(k[2]) and v is True:
            return True
    return False


def unclear(lf):
    for k, v in lf.facts:
        if k[0] == 'true' and isinstance(k[1], tuple) and k[1][0] == 'r' and not (k[1][1] == 'ext' and k[1][2] in ('isEmpty', 'empty')) \
                and k[1][1] not in ('rec',):
            return True
        if k[0] in ('none', 'true') and isinstance(k[1], tuple) and k[1][0] == 'pf':
            return True
    return False


def site_of(lf, site0):
    for e in reversed(lf.events):
        if isinstance(e[1], tuple):
            return e[1]
    return lf.loops[-1][1] if lf.loops else site0


def el_of(lf, cur):
    lid = lf.loops[-1][2]
    for src in ([k for k, v in lf.facts], list(lf.signs), [x for e in lf.events for x in e[2:] if isinstance(x, tuple)]):
        for x in src:
            for t in subterms(restrip(x)):
                if t[0] == 'el' and t[1] == lid:
                    return t
    return None


def mentions(t, n):
    return n in set(subterms(t))


def neighbour(res, sp, lf, cur, Q, info, site0, lvs):
    if lf.out and lf.out[0] == 'raise':
        return
    res.count('neighbours')
    n = el_of(lf, cur)
    wl = lf.loops[-2] if len(lf.loops) > 1 else None
    if lf.out and lf.out[0] in ('break', 'return'):
        if not leaves_ok(lf, sp, lvs) and sp.dest is not None:
            if lf.out[0] == 'return' and (lf.out[1] != NONE and not sp.dest):
                return              # a result was found
            if any(e[0] == 'loopx' or e[0] == 'call' for e in lf.raw) or unclear(lf):
                return
            res.find('unexamined', site_of(lf, site0), '%s break' % sp.meth, '%s stops looking at the neighbours of a node before the last' % sp.meth)
        return
    evs = list(walk(lf.raw))
    if sp.proc == 'process':
        calls = [e for e in evs if e[0] == 'call' and e[3] == 'process_edge_search']
        done = bool(calls)
        for e in calls:
            a = [restrip(x) for x in e[4][:2]]
            if len(a) == 2 and n is not None and (a[1] != n or not same_el(a[0], cur)):
                if all(clear3(x) for x in a):
                    res.find('other-node', e[1], 'process', '%s processes the arc %s, %s instead of %s, %s' %
                             (sp.meth, norm(a[0]), norm(a[1]), norm(cur), norm(n)))
    elif sp.proc == 'compare':
        ps = [x for x, e in pushes(evs)]
        lab = [attr_set(e) for e in evs if attr_set(e) and attr_set(e)[1] in (C('distance'), C('priority')) and attr_set(e)[0] == n]
        maps = {restrip(e[2]) for e in evs if e[0] == 'set'}
        if n is not None and lab and n not in ps and all(clear3(x) for x in ps) and \
                not any(k[0] == 'in' and k[1] == n and is_list(k[2]) and k[2] not in maps and v is True for k, v in lf.facts):
            res.find('unexamined', site_of(lf, site0), sp.meth + ' requeue', '%s improves the label of a neighbour without putting it '
                     'on the work list' % sp.meth)
        done = any(e[0] == 'ecall' and e[3] in ('get_priority', 'push') for e in evs) or n in ps or \
            any(n is not None and label_known(k, n) for k in [f for f, v in lf.facts] + list(lf.signs))
    else:
        ps = [(x, e) for x, e in pushes(evs, Q)]
        done = bool(ps)
        for x, e in ps:
            if n is not None and x != n and clear3(x):
                res.find('other-node', e[1], norm(x), '%s puts %s on the work list instead of the neighbour' % (sp.meth, norm(x)))
    if done:
        info['neigh'].append((lf, n, evs, True))
        return
    if n is None:
        if not lf.events and not lf.facts_own if hasattr(lf, 'facts_own') else not lf.events:
            res.find('unexamined', site_of(lf, site0), sp.meth + ' nothing', '%s passes over a neighbour without looking at it' % sp.meth)
        return
    why = reason(sp, lf, n, cur, still_open(sp, lvs))
    if why is True:
        info['neigh'].append((lf, n, evs, False))
    elif why is None:
        res.count('neighbours_unknown')
    else:
        res.find('unexamined', site_of(lf, site0), '%s %s' % (sp.meth, why), '%s passes over a neighbour that is not finished (%s)' % (sp.meth, why))


def clear3(t):
    """understood: a parameter, a loop element, a node taken off, a constant"""
    if t[0] in ('s', 'c', 'el', 'phi'):
        return True
    return t[0] == 'r' and (t[1] in ('pop',) or t[1] == 'ext' and t[2] in ('peek', 'pop', 'dequeue'))


def label_known(k, n):
    for t in subterms(k):
        if t[0] == 'i' and t[2] in (C('distance'), C('priority')) and mentions(t, n):
            return True
        if t[0] == 'r' and t[1] == 'ext' and t[2] == 'get_priority' and mentions(t, n):
            return True
    return False


def still_open(sp, lvs):
    """tables that hold nodes still open: a search that improves estimates has to look at them again"""
    if sp.meth != 'search' or sp.terms.get('algo') not in (C('Dijkstra'), C('Prim')):
        return ()
    out = set()
    for lf in lvs:
        for e in walk(lf.raw):
            if e[0] == 'call' and e[3] == 'process_edge_search':
                a = args_of(e, ('current', 'neighbor', 'pred', 'q', 'component', 'algo'))
                out |= {restrip(x) for x in a[2:4] if x is not None}
    return out


def reason(sp, lf, n, cur, still=()):
    """why the neighbour is passed over: True justified, None unknown, else a text"""
    text = 'unconditionally'
    unknown = False
    for k, v in lf.facts:
        if not mentions(k, n):
            continue
        if k[0] == 'in' and k[1] == n and is_list(k[2]):
            if v is True and k[2] in still:
                text = 'reached before'
                continue
            if v is True:
                return True
            text = 'not in %s' % norm(k[2])
        elif k[0] == 'in' and k[2] == NODES or k[0] == 'in' and k[1][0] == 'c':
            continue
        elif k[0] == 'in' and k[1][0] == 't':
            continue
        elif k[0] in ('true', 'none') and k[1][0] == 'i' and k[1][1] != NODES:
            unknown = True
        else:
            unknown = True
    for k, s in lf.signs.items():
        if not mentions(k, n):
            continue
        c, m = lin_parts(k)
        if s == frozenset((0,)) and c == 0 and len(m) == 2 and n in m:
            o_ = [t for t in m if t != n][0]
            if same_el(o_, cur):
                return True
            if o_[0] == 'i' and is_list(o_[1]):
                return True             # the neighbour the node was reached from
            text = 'it is %s' % norm(o_)
            continue
        if n in m and len(m) == 2 and c == 0:
            continue                    # known to be another node
        cols = [t for t in m if t[0] == 'i' and t[2] == C('color')]
        if cols:
            if s == frozenset((0,)) and sp.colour and C(sp.colour) in m:
                return True
            other = [t[2] for t in m if t[0] == 'c']
            text = 'its colour is%s %s' % ('' if s == frozenset((0,)) else ' not', other[0] if other else '?')
            continue
        if sp.arcs:
            ks = {t[2][2] for t in m if t[0] == 'i' and t[2][0] == 'c'}
            if ks and ks <= {'flow', 'capacity'}:
                fl = [t for t in m if t[2] == C('flow')]
                cp = [t for t in m if t[2] == C('capacity')]
                at = {t[1][2] for t in fl + cp if t[1][0] == 'i'}
                if c == 0 and len(fl) == 1 and len(m) == len(fl) + len(cp) and len(at) == 1 and all(x[0] == 't' and len(x) == 3 for x in at):
                    k2 = list(at)[0]
                    if same_el(k2[1], n) and same_el(k2[2], cur) and len(cp) == 1 and set(fl + cp) == set(m) and s == frozenset((0,)):
                        text = 'the arc flow could be sent back on is full'
                        continue
                    if same_el(k2[1], cur) and same_el(k2[2], n) and not cp and s == frozenset((0,)):
                        text = 'the arc carries no flow'
                        continue
                if c == 0 and len(fl) == 1 and len(cp) <= 1 and len(m) == len(fl) + len(cp):
                    # capacity - flow, or flow alone, not positive
                    d = cp[0] if cp else fl[0]
                    sg = {x * m[d] for x in s}
                    if sg <= {-1, 0}:
                        return True
                    text = 'the arc has residual capacity'
                    continue
                if c != 0 and len(fl) == 1 and len(cp) <= 1 and len(m) == len(fl) + len(cp):
                    d = cp[0] if cp else fl[0]
                    if {x * m[d] for x in s} <= {-1, 0} and c * m[d] < 0:
                        text = 'the arc may have residual capacity'
                        continue
        unknown = True
    if unknown or unclear(lf):
        return None
    return text


def marks(res, sp, lvs, loops, site0):
    """what the skips test is recorded for the nodes put on the list or expanded"""
    for lid, info in loops.items():
        tests = set()
        for lf, n, evs, done in info['neigh']:
            if done:
                continue
            for k, v in lf.facts:
                if k[0] == 'in' and k[1] == n and is_list(k[2]) and v is True:
                    tests.add(k[2])
        coltest = any(C('color') in set(subterms(k)) for lf, n, evs, done in info['neigh'] for k in lf.signs if mentions(k, n))
        if coltest and sp.colour:
            for lf, cur in info['expanded']:
                if cur is None:
                    continue
                sets = [attr_set(e) for e in lf.events if attr_set(e) and attr_set(e)[1] == C('color') and same_el(attr_set(e)[0], cur)]
                if not sets or sets[-1][2] != C(sp.colour) and sets[-1][2][0] == 'c':
                    if any(e[0] == 'set' and attr_set(e) and attr_set(e)[1][0] != 'c' for e in lf.events):
                        continue
                    res.find('unmarked', site_of(lf, site0), sp.meth, '%s does not mark a node as finished after expanding it' % sp.meth)
                    break
        elif tests:
            ok = False
            adders = [(evs, n) for lf, n, evs, done in info['neigh'] if done] + [(list(walk(lf.raw)), cur) for lf, cur in info['expanded'] if cur]
            for evs, n in adders:
                for e in evs:
                    if e[0] == 'set' and restrip(e[2]) in tests and same_el(restrip(e[3]), n):
                        ok = True
                    if e[0] == 'mut' and restrip(e[2]) in tests and e[4] and same_el(restrip(e[4][-1]), n):
                        ok = True
                    if e[0] == 'call':
                        ok = ok or any(restrip(x) in tests for x in e[4])
            if adders and not ok and not all(t == info['Q'] for t in tests):
                res.find('unmarked', site0, sp.meth + ' list', '%s does not record the nodes it has seen' % sp.meth)


def exits(res, sp, st, raw, lvs, loops, ph, site0):
    """a loop is left with an empty work list, at the destination, or with a flag set there"""
    def rec(events, facts, signs):
        for i, e in enumerate(events):
            if e[0] in ('loop', 'loopx'):
                if e[0] == 'loop' and e[2] in loops:
                    one_exit(e, facts, signs)
                for a in e[4]:
                    if a[4] is None or a[4][0] == 'continue':
                        rec(list(a[0]), list(a[1]), list(a[2]))

    def one_exit(e, facts, signs):
        Q = loops[e[2]]['Q']
        fs = [(restrip(k), v) for k, v in facts]
        for k, v in fs:
            f = qfact(k, v)
            if f and f[1] is True and (f[0] == Q or f[0][0] == Q[0]):
                return
        sg = merged(signs)
        for k, s in sg.items():
            c, m = lin_parts(k)
            if s == frozenset((0,)) and c == 0 and any(('s', d) in m for d in sp.dest):
                return
        flags = [k[1] for k, v in fs if k[0] == 'true' and k[1][0] == 'phi' and k[1][1] == e[2]]
        for k in flags:
            for lf in loops[e[2]]['pass']:
                b = lf.phis.get(k[2])
                if b is not None and b[0] == 'c' and b != ph.get(k, (None,))[0] and not leaves_ok(lf, sp, lvs):
                    if not any(x[0] == 'loopx' for x in lf.raw) and not unclear(lf):
                        res.find('abandoned', site_of(lf, site0), '%s flag' % sp.meth, '%s ends its loop although nodes may be waiting '
                                 'and the destination is not reached' % sp.meth)
            return
        if any(k[0] == 'true' and k[1][0] == 'r' and not (k[1][1] == 'ext' and k[1][2] == 'isEmpty') for k, v in fs):
            return
        if any(k[0] == 'true' and k[1][0] in ('s', 'c') for k, v in fs) and not fs:
            return
        tied = [k for k in sg if any(t[0] == 'phi' and t[1] == e[2] for t in subterms(k))]
        lens = [k for k in sg if any(t[0] == 'pf' and t[1] == 'len' for t in subterms(k))]
        if lens:
            return
        if tied or not any(qfact(k, v) for k, v in fs):
            if not tied and not fs:
                return
            if not tied:
                return
            res.find('abandoned', e[1], '%s exit' % sp.meth, '%s ends its loop although nodes may be waiting' % sp.meth)
    rec(raw, list(st.facts.items()), list(st.signs.items()))


def tree_pass(res, sp, lf, Q, cur, site0):
    """both children of the node taken off are put on the list"""
    evs = list(walk(lf.raw))
    ps = [x for x, e in pushes(evs, Q)]
    for name in sp.need:
        calls = [e for e in evs if e[0] == 'call' and e[3] == name]
        mine = [e for e in calls if cur is None or (e[4] and same_el(restrip(e[4][0]), cur))]
        if not mine:
            if any(e[0] == 'call' and e[3] in ('get_children', 'get_neighbors') for e in evs):
                continue
            res.find('unexamined', site_of(lf, site0), '%s %s' % (sp.meth, name), '%s does not look at the child given by %s' % (sp.meth, name))
            continue
        ret = restrip(mine[-1][6])
        if inner(lf, lambda k: k == ('none', ret)) is True:
            continue
        if not any(p == ret for p in ps):
            if inner(lf, lambda k: k == ('none', ret)) is False or inner(lf, lambda k: k == ('true', ret)) is not False or True:
                res.find('unexamined', site_of(lf, site0), '%s %s push' % (sp.meth, name), '%s does not put the child given by %s on its work list' %
                         (sp.meth, name))


def edge(prog, res, algo, gtype):
    """every arc processed leads to a push unless the neighbour is known already"""
    r = explore(prog, 'Graph', 'process_edge_search', gtype, res=res, sink=False, merge=False, terms={'algo': C(algo)},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set'), opaque=composed(('display', 'process_edge_dijkstra', 'process_edge_prim')),
                tracked=tracking('nattr.distance'))
    if r is None:
        raise AnalysisBroken('Graph.process_edge_search')
    it, outs = r
    fm = prog.method('Graph', 'process_edge_search')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    N, CUR = ('s', 'neighbor'), ('s', 'current')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        res.count('neighbours')
        calls = [e for e in lf.events if e[0] == 'call' and e[3].startswith('process_edge_')]
        if algo in ('Dijkstra', 'Prim'):
            want = 'process_edge_' + algo.lower()
            if not [e for e in calls if e[3] == want]:
                res.find('unexamined', site0, algo, 'process_edge_search does not hand a %s step to %s' % (algo, want))
            for e in calls:
                if e[3] == want:
                    a = args_of(e, ('current', 'neighbor', 'pred', 'q', 'component', 'reverse'))
                    if a[5] is None and not any(k == ('true', ('s', 'reverse')) and v is False for k, v in lf.facts):
                        res.find('direction', e[1], algo, 'process_edge_search drops the direction of the search')
                    for x, p in zip(a, ('current', 'neighbor', 'pred', 'q', 'component', 'reverse')):
                        if x is not None and restrip(x) != ('s', p) and restrip(x)[0] == 's':
                            res.find('direction', e[1], p, 'process_edge_search hands on %s for %s' % (norm(x), p))
            continue
        ps = pushes(lf.events, ('s', 'q'))
        if ps:
            for x, e in ps:
                if x != N and clear3(x):
                    res.find('other-node', e[1], norm(x), 'process_edge_search puts %s on the work list' % norm(x))
            continue
        if inner(lf, lambda k: k == ('none', CUR)) is True:
            res.find('unexamined', site0, 'start', 'process_edge_search does not put the start on the work list')
            continue
        known = inner(lf, lambda k: k == ('none', attr(N, 'distance'))) is False or \
            inner(lf, lambda k: k[0] == 'in' and k[1] == N and k[2] == ('s', 'pred')) is True or \
            any(any(t[0] == 'r' and t[1] == 'ext' and t[2] in ('get_priority', 'peek') for t in subterms(k)) for k in list(lf.signs)) or \
            any(k[0] == 'none' and k[1][0] == 'r' and k[1][2] in ('peek', 'get_priority') and v is False for k, v in lf.facts)
        if known:
            continue
        if unclear(lf) or any(mentions(k, N) and k[0] in ('true', 'none') for k, v in lf.facts):
            if any(k == ('true', attr(N, 'distance')) and v is True for k, v in lf.facts):
                continue
            res.count('neighbours_unknown')
            continue
        res.find('unexamined', site0, 'push', 'process_edge_search does not put an unknown neighbour on the work list')


def relax(prog, res, meth, begin=False):
    """a neighbour not reached before is put on the work list"""
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, merge=False, terms={'current': NONE} if begin else {},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set'), opaque=composed(('display',)),
                tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    it, outs = r
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    N, PRED, CUR = ('s', 'neighbor'), ('s', 'pred'), ('s', 'current')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lf = next(leaves(st, o))
        res.count('neighbours')
        put = pushes(lf.events, ('s', 'q'))
        start = begin or inner(lf, lambda k: k == ('none', CUR)) is True
        for x, e in put:
            if x == N and start and len(e[4]) > 1 and restrip(e[4][1])[0] == 'c' and restrip(e[4][1]) not in (C(0), C(0.0)):
                res.find('estimate', e[1], meth, '%s puts the node a search starts from on the work list with the estimate %s' % (meth, norm(e[4][1])))
        if any(e[0] == 'ecall' and e[3] in PUSH_X for e in lf.events) and not (put and all(x in (CUR, NONE, PRED) for x, e in put)):
            continue
        # set by this very call: the facts of the entry are what counts
        new = inner(lf, lambda k: k[0] == 'in' and k[1] == N and k[2] == PRED) is False
        known = inner(lf, lambda k: k[0] == 'none' and isinstance(k[1], tuple) and k[1][0] == 'r' and k[1][2] in ('get_priority', 'peek')) is False
        if start or new and not known and not unclear(lf):
            res.find('unexamined', site0, meth, '%s does not put a node on the work list that was not reached before' % meth)


def defaults(prog, res, cls, meth, lifo):
    """a traversal asked for by name: from the root given, the tree's own when none is, in the order of its name"""
    fm = prog.classes[cls].lookup(meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    names = [a.arg for a in prog.classes[cls].lookup('traverse').node.args.args[1:]]
    ROOT = ('s', 'root')
    for given in (True, False):
        r = explore(prog, cls, meth, 'digraph', res=res, sink=False, merge=False, keyerr=False, terms={} if given else {'root': NONE},
                    kinds={'root': 'name'} if given else None, keep=lambda ev: ev[0] in ('call', 'test'), opaque=composed(('traverse', 'display')))
        if r is None:
            raise AnalysisBroken('%s.%s' % (cls, meth))
        it, outs = r
        for st, o in outs:
            if o[0] != 'return':
                continue
            calls = [e for lf in leaves(st, o) for e in lf.events if e[0] == 'call' and e[3] == 'traverse' and e[2] == SELF]
            for e in calls:
                a = dict(zip(names, e[4]))
                a.update(dict(e[5]))
                if len(e) > 7 and e[7]:
                    continue
                res.count('starts')
                x = restrip(a['root']) if a.get('root') is not None else NONE
                own = ('f', SELF, 'root')
                if given and (x == NONE or x[0] == 'f' and x in (own, ('f', own, 'name'))):
                    res.find('start', e[1], 'root', '%s.%s does not start from the root it is given' % (cls, meth))
                elif not given and x != NONE and x[0] in ('c', 's'):
                    res.find('start', e[1], 'default', "%s.%s without a root does not start from the tree's root" % (cls, meth))
                q = a.get('q')
                if q is None or q == NONE:
                    if not lifo:
                        res.find('start', e[1], 'order', '%s.%s visits nodes depth first' % (cls, meth))
                elif q[0] == 'o' and q[1] in st.objs and st.objs[q[1]].kind in ('ext:Stack', 'ext:Queue'):
                    if (st.objs[q[1]].kind == 'ext:Stack') != lifo:
                        res.find('start', e[1], 'order', '%s.%s visits nodes %s first' % (cls, meth, 'breadth' if lifo else 'depth'))
            if not calls:
                res.note('%s.%s: no call of traverse' % (cls, meth))


def dfs(prog, res, gtype, transpose):
    """the recursive search visits exactly the neighbours not visited yet"""
    r = explore(prog, 'Graph', 'dfs', gtype, res=res, sink=False, merge=False, terms={'transpose': C(transpose), 'display': NONE},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set', 'mut', 'loop', 'loopx'), opaque=composed(('display', 'dfs')),
                tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.dfs')
    it, outs = r
    fm = prog.method('Graph', 'dfs')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    base = 'in_neighbors' if transpose and gtype == 'digraph' else 'neighbors'
    key = 'component' if transpose else 'disc_time'
    ROOT = ('s', 'root')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o, True))
        srcs = [nsource(e[3]) for e in st.events() if e[0] in ('loop', 'loopx')]
        bad = [s for s in srcs if s and s[0] != base and gtype == 'digraph']
        for e in walk(st.events()):
            if e[0] in ('loop', 'loopx') and part(restrip(e[3])):
                res.find('unexamined', e[1], 'slice', 'dfs looks at a part of the neighbours only')
        if bad and not any(s and s[0] == base for s in srcs):
            res.find('direction', site0, '%s %s' % (transpose, bad[0][0]), 'dfs follows the arcs in the wrong direction')
        if not any(srcs) and not any(e[0] in ('loop', 'loopx') for e in st.events()):
            res.find('unexamined', site0, 'none', 'dfs does not look at the neighbours of a node')
        rec = False
        for lf in lvs:
            if lf.nested or not lf.loops or (lf.out and lf.out[0] == 'raise'):
                continue
            n = el_of(lf, ROOT)
            calls = [e for e in lf.events if e[0] == 'call' and e[3] == 'dfs']
            if n is None and calls:
                n = restrip(calls[0][4][0]) if calls[0][4] else None
            if n is None:
                continue
            sorting = any(e[0] == 'mut' for e in lf.events) and not calls
            vis = reached(lf, n, key)
            if calls:
                rec = True
                res.count('neighbours')
                a = args_of(calls[0], ('root', 'disc_count', 'finish_count', 'topological_order', 'component', 'transpose', 'display', 'pred'))
                if a[5] is None and transpose:
                    res.find('direction', calls[0][1], 'dropped', 'dfs drops the direction in its recursion')
                elif a[5] is not None and restrip(a[5])[0] == 'c' and bool(restrip(a[5])[2]) != transpose:
                    res.find('direction', calls[0][1], 'changed', 'dfs changes the direction in its recursion')
                if restrip(a[0]) != n and clear3(restrip(a[0])):
                    res.find('other-node', calls[0][1], norm(a[0]), 'dfs visits %s instead of the neighbour' % norm(a[0]))
                if vis is True:
                    res.find('revisit', calls[0][1], str(transpose), 'dfs visits a neighbour that is visited already')
                elif vis is None and not [k for k, v in lf.facts if mentions(k, n) and k[0] != 'in'] and \
                        not [k for k in lf.signs if mentions(k, n)]:
                    res.find('revisit', calls[0][1], 'unguarded', 'dfs visits a neighbour without knowing that it is not visited')
            elif vis in (False,) and not sorting and len(lf.loops) == 1:
                res.count('neighbours')
                res.find('unexamined', site_of(lf, site0), '%s' % transpose, 'dfs passes over a neighbour that is not visited')
            elif vis is True:
                res.count('neighbours')
        if not rec:
            res.note('no recursion recognised in dfs')


def preflow(prog, res, algo):
    """active nodes stay on the work list"""
    r = explore(prog, 'Graph', 'max_flow_preflowpush', 'digraph', res=res, sink=False, merge=False,
                terms={'algo': C(algo), 'display': C('off')},
                keep=lambda ev: ev[0] in ('call', 'ecall', 'test', 'set', 'mut', 'loop', 'loopx'),
                opaque=composed(('display', 'process_edge_flow', 'relabel', 'show_flow', 'search', 'set_display_mode')),
                tracked=tracking('nattr.excess'), keyerr=False)
    if r is None:
        raise AnalysisBroken('Graph.max_flow_preflowpush')
    it, outs = r
    fm = prog.method('Graph', 'max_flow_preflowpush')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    EX = lambda n: attr(n, 'excess')
    for st, o in outs:
        if o[0] != 'return':
            continue
        lvs = list(leaves(st, o, True))
        for lf in lvs:
            if not lf.loops or lf.loops[-1][3] != ('while',) or (lf.out and lf.out[0] == 'raise'):
                continue
            evs = list(walk(lf.raw))
            peek = [restrip(e[6]) for e in lf.events if e[0] == 'ecall' and e[3] in ('peek', 'pop', 'dequeue') and len(e) > 6 and not e[4]]
            if not peek:
                continue
            cur = peek[0]
            if lf.out and lf.out[0] in ('break', 'return'):
                if not unclear(lf):
                    res.find('abandoned', site_of(lf, site0), algo, 'preflow push leaves its loop with active nodes waiting')
                continue
            res.count('passes')
            rem = removals(evs)
            if not rem:
                res.find('spin', site_of(lf, site0), algo, 'preflow push can complete a pass without taking a node off its work list')
                continue
            back = [e for x, e in pushes(evs) if same_el(x, cur)]
            if back:
                continue
            sinkn = any(s == frozenset((0,)) and ('s', 'sink') in lin_parts(k)[1] for k, s in lf.signs.items())
            ex = [s for k, s in lf.signs.items() if any(t[0] == 'i' and t[2] == C('excess') and mentions(t, cur) for t in lin_parts(k)[1])
                  and len(lin_parts(k)[1]) == 1]
            if sinkn:
                continue
            none_left = False
            for k, s in lf.signs.items():
                c, m = lin_parts(k)
                if c == 0 and len(m) == 1:
                    t = list(m)[0]
                    if t[0] == 'i' and t[2] == C('excess') and same_el(t[1], ('f', ('i', NODES, cur), 'attr')):
                        if {x * m[t] for x in s} <= {-1, 0}:
                            none_left = True
            if not none_left and not unclear2(lf, cur):
                res.find('abandoned', site_of(lf, site0), algo + ' excess', 'preflow push can drop a node that still has excess')
        # a node pushed to becomes active
        for lf in lvs:
            if len(lf.loops) < 2 or lf.loops[-2][3] != ('while',):
                continue
            if lf.out and lf.out[0] == 'break':
                pushed = [k for k, v in lf.facts if k[0] == 'true' and k[1][0] == 'r' and k[1][2] == 'process_edge_flow']
                if not pushed:
                    calls = [e for e in lf.events if e[0] == 'call' and e[3] == 'process_edge_flow']
                    if not calls and not unclear(lf):
                        res.find('unexamined', site_of(lf, site0), algo, 'preflow push stops looking at the neighbours before a push')
                else:
                    v = [v for k, v in lf.facts if k == pushed[-1]][0]
                    if v is False:
                        res.find('unexamined', site_of(lf, site0), algo + ' failed', 'preflow push stops looking at the neighbours after a failed push')


def unclear2(lf, cur):
    for k, v in lf.facts:
        if k[0] == 'true' and isinstance(k[1], tuple) and mentions(k, attr(cur, 'excess')):
            return True
        if k[0] == 'in' and k[1] == C('excess') and v is False:
            return True             # no excess recorded
    return False


def jobs(prog, tier):
    for g in ('digraph', 'graph'):
        for rev in (False, True):
            base = 'in_neighbors' if rev and g == 'digraph' else 'neighbors'
            for a in ('DFS', 'BFS', 'Dijkstra'):
                if a == 'Dijkstra' and g == 'graph' and tier == 'quick':
                    continue
                yield 'search/%s/%s/%s' % (g, a, rev), worklist, (Spec(
                    'Graph', 'search', g, (base,), ('display', 'process_edge_search', 'process_node_search'),
                    {'algo': C(a), 'reverse': C(rev)}, ('nattr.color',), ('destination',), 'green', 'process'),)
        yield 'prim/' + g, worklist, (Spec('Graph', 'minimum_spanning_tree_prim', g, ('neighbors',), terms={'display': C('off')},
                                           track=('nattr.color',), colour='green', proc='compare'),)
        for t in (False, True):
            yield 'dfs/%s/%s' % (g, t), dfs, (g, t)
    for a in ('DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim'):
        yield 'process_edge_search/' + a, edge, (a, 'digraph')
    for m in ('process_edge_dijkstra', 'process_edge_prim'):
        yield m, relax, (m,)
        yield m + '/start', relax, (m, True)
    for c in ('Tree', 'BinaryTree'):
        for m, lifo in (('dfs', True), ('bfs', False)):
            yield '%s.%s' % (c, m), defaults, (c, m, lifo)
    yield 'Tree.traverse', worklist, (Spec('Tree', 'traverse', 'digraph', ('children',), ('display', 'get_children')),)
    for p in ('L', 'R'):
        yield 'BinaryTree.traverse/' + p, worklist, (Spec('BinaryTree', 'traverse', 'digraph', (), (
            'display', 'get_children', 'get_left_child', 'get_right_child'), {'priority': C(p)}, need=('get_left_child', 'get_right_child')),)
    yield 'fifo_label_correcting', worklist, (Spec('Graph', 'fifo_label_correcting', 'digraph', ('neighbors',), ('label_correcting_check_cycle',),
                                                   track=None, proc='compare'),)
    yield 'simplex_search', worklist, (Spec('Graph', 'simplex_search', 'digraph', ('neighbors', 'in_neighbors')),)
    yield 'simplex_find_cycle', worklist, (Spec('Graph', 'simplex_find_cycle', 'digraph', ('neighbors', 'in_neighbors'), track=None),)
    yield 'simplex_redraw', worklist, (Spec('Graph', 'simplex_redraw', 'digraph', ('neighbors', 'in_neighbors'), ('display', 'add_node', 'add_edge')),)
    for a in ('DFS', 'BFS'):
        yield 'max_flow/' + a, worklist, (Spec('Graph', 'max_flow', 'digraph', ('neighbors', 'in_neighbors'), terms={'algo': C(a), 'display': C('off')},
                                               track=('eattr.flow', 'eattr.capacity'), dest=('sink',), arcs=True),)
    for a in ('FIFO', 'SAP', 'HighestLabel'):
        yield 'preflow/' + a, preflow, (a,)
