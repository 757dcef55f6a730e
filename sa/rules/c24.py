"""C24: component labels number the components exactly."""
from .leaf import *
from .base import *
from .c17 import neighbor_loop, clear2
from .c18 import start
from .c21 import args_of

ID = 'C24'
TECHNIQUE = 'path-condition and effect analysis of the component labelling routines (abstract interpretation)'
RULE = ('strong_connect numbers the node and stacks it before looking at its neighbours; in every alternative of the neighbour '
        'loop an unvisited neighbour is visited once, with the running index and component, and its low link joined into that '
        'of the node, a visited neighbour on the stack is joined, any other is not; the stack is popped exactly on paths on '
        'which low link and index are known to be equal, down to the node itself, every popped node gets the component number, '
        'which is then increased by one; tarjan and label_components visit exactly the nodes known not to be reached, with the '
        'running number; the searches give the number to the start and to everything they reach')
EXPLANATION = ('The labelling routines are interpreted abstractly with the recursive call, the search and the traversal kept as '
               'calls. The calls, stores, pops and carried counters of every path and loop alternative are compared with the '
               'facts known on it.')
MINIMUM = {'alternatives': 10}
NODES = ('f', SELF, 'nodes')
NC = ('f', SELF, 'num_components')
Q, NODE = ('s', 'q'), ('s', 'node')
ANY = {-1, 0, 1}


def attr(n, k):
    return ('i', ('f', ('i', NODES, n), 'attr'), C(k))


def attr_set(e):
    """(node, key, value) of a store into a node attribute"""
    if e[0] != 'set':
        return None
    b = restrip(e[2])
    if b[0] == 'f' and b[2] == 'attr' and b[1][0] == 'i' and b[1][1] == NODES:
        return b[1][2], restrip(e[3]), restrip(e[4])
    return None


def opaque_sets(events):
    """stores into node attributes under a key the analysis does not know, or calls that may do so"""
    for e in events:
        if e[0] == 'set':
            a = attr_set(e)
            if a and a[1][0] != 'c':
                return True
        if e[0] == 'call':
            return True
    return False


def reached(lf, n, key):
    """True: the attribute is known to be set; False: known to be unset"""
    for k, v in lf.facts:
        if k == ('none', attr(n, key)):
            return not v
        if k == ('true', attr(n, key)):
            return True if v else 'zero'
        if k[0] == 'in' and k[1] == C(key) and k[2] == ('f', ('i', NODES, n), 'attr') and v is False:
            return False
    return None


def reads_attr(lf, n):
    a = ('f', ('i', NODES, n), 'attr')
    return any(a in set(subterms(k)) for k, v in lf.facts if k[0] != 'in' or k[2] != NODES) or \
        any(a in set(subterms(k)) for k in lf.signs)


def reads_none(lf, n, key):
    return any(k == ('none', attr(n, key)) and v is True for k, v in lf.facts)


def lin_off(t, base):
    """k when t is base + k"""
    d = lin_add(t, base, -1)
    k, m = lin_parts(d)
    return None if m else k


def loop_of(raw):
    for i, e in enumerate(raw):
        if e[0] in ('loop', 'loopx') and neighbor_loop(e[3]):
            return i
    return None


def inits(raw):
    out = {}
    for e in walk(raw):
        if e[0] in ('loop', 'loopx'):
            for var, (init, backs) in e[5]:
                out[('phi', e[2], var)] = (restrip(init), tuple(restrip(b) for b in backs))
    return out


def site(lf, site0):
    for e in lf.events:
        if isinstance(e[1], tuple):
            return e[1]
    if lf.loops:
        return lf.loops[-1][1]
    return site0


def strong(prog, res):
    it, outs, site0 = start(prog, res, 'Graph', 'strong_connect', composed(('strong_connect',)),
                            ('call', 'ecall', 'set', 'del', 'mut', 'test', 'setf'), g='digraph')
    zero = zero_index(prog)
    for st, o in outs:
        if o[0] != 'return':
            continue
        st, o = unmirror(st, o)
        raw = list(st.events())
        lvs = list(leaves(st, o))
        ni = loop_of(raw)
        if ni is None:
            res.count('alternatives_unknown')
            continue
        ph = inits(raw)
        val = entry(res, raw[:ni], site0)
        for lf in lvs:
            if len(lf.loops) == 1 and lf.loops[0] is raw[ni] and not lf.nested and not (lf.out and lf.out[0] == 'raise'):
                neighbour(res, lf, ph, val, zero, site0)
        if o[1] is not None:
            close(res, raw, ni, lvs, o, val, ph, site0)


def entry(res, pre, site0):
    flat = list(walk(pre))
    idx = [e for e in flat if attr_set(e) and attr_set(e)[0] == NODE and attr_set(e)[1] == C('index')]
    low = [e for e in flat if attr_set(e) and attr_set(e)[0] == NODE and attr_set(e)[1] == C('lowlink')]
    push = [e for e in flat if e[0] == 'mut' and e[2] == Q]
    hid = opaque_sets(flat)
    res.count('alternatives')
    for what, l in (('index', idx), ('low link', low)):
        if not l and not hid:
            res.find('not-numbered', site0, what, 'strong_connect does not set the %s of the node before its neighbours' % what)
    if not [e for e in push if e[3] in ('append', 'insert', 'extend', 'appendleft')] and not hid and not any(e[0] == 'ecall' for e in flat):
        res.find('not-stacked', site0, 'push', 'strong_connect does not stack the node before its neighbours')
    for e in push:
        if e[3] == 'append' and e[4] and e[4][0] != NODE and clear2(restrip(e[4][0])):
            res.find('not-stacked', e[1], norm(e[4][0]), 'strong_connect stacks %s instead of the node' % norm(e[4][0]))
    vi = attr_set(idx[-1])[2] if idx else None
    vl = attr_set(low[-1])[2] if low else None
    if vi is not None and vl is not None and vi != vl and vl != attr(NODE, 'index'):
        if lin_off(vi, vl) is not None or vl[0] == 'c' or vi[0] == 'c':
            res.find('not-numbered', low[-1][1], norm(vl), 'strong_connect starts with low link %s for index %s' % (norm(vl), norm(vi)))
    if vi is not None and vi[0] == 'c':
        res.find('not-numbered', idx[-1][1], norm(vi), 'strong_connect gives every node the index %s' % norm(vi))
    return vi


def minimum(v):
    """the set of terms of which v is the minimum"""
    if v[0] == 'pf' and v[1] == 'min':
        out = set()
        for x in v[2:]:
            out |= minimum(x)
        return out
    return {v}


def join(res, lf, m, others, site0, what):
    """the low link of the node becomes the minimum of itself and one of others"""
    L = attr(NODE, 'lowlink')
    sets = [attr_set(e) + (e,) for e in lf.events if attr_set(e) and attr_set(e)[1] == C('lowlink')]
    if any(k[0] == 'in' and k[1][0] == 'c' and k[1][2] == 'lowlink' and v is False for k, v in lf.facts):
        return
    if any(s[2] == NONE for s in sets):
        return
    for n, k, v, e in sets:
        if n == m and v == attr(m, 'lowlink'):
            continue
        if n != NODE:
            if clear2(n):
                res.find('low-link', e[1], norm(n), 'strong_connect changes the low link of %s on %s' % (norm(n), what))
            return
        got = minimum(v)
        if L in got and got - {L} and got - {L} <= others:
            return
        if len(got) == 1 and v in others and lf.sign(v, L) <= {-1, 0}:
            return
        if len(got) == 1 and v == L and any(lf.sign(x, L) <= {0, 1} for x in others):
            return
        if clear2(v):
            res.find('low-link', e[1], '%s %s' % (what, norm(v)), 'strong_connect sets the low link to %s on %s' % (norm(v), what))
        else:
            res.count('alternatives_unknown')
        return
    if any(lf.sign(x, L) <= {0, 1} for x in others):
        return
    if any(k[0] == 'true' and k[1][0] not in ('s', 'i', 'f') for k, v in lf.facts) or opaque_sets([e for e in lf.events if e[0] == 'set']):
        res.count('alternatives_unknown')
        return
    res.find('low-link', site(lf, site0), what + ' kept', 'strong_connect can keep a low link that is too large on %s' % what)


def zero_index(prog):
    """the first index tarjan hands out is zero"""
    it, outs, site0 = start(prog, Result('x'), 'Graph', 'tarjan', composed(('strong_connect',)), ('call', 'test'), g='digraph')
    for st, o in outs:
        ph = inits(st.events())
        for e in walk(st.events()):
            if e[0] == 'call' and e[3] == 'strong_connect':
                t = args_of(e, ('q', 'node', 'index', 'component'))[2]
                k, m = lin_parts(restrip(t)) if t is not None else (1, {})
                return len(m) == 1 and all(ph.get(x, (None,))[0] == C(-k) for x in m)
    return False


def neighbour(res, lf, ph, val, zero, site0):
    res.count('alternatives')
    lid, src = lf.loops[0][2], lf.loops[0][3]
    els = {t for x in [k for k, v in lf.facts] + list(lf.signs) for t in subterms(x) if t[0] == 'el' and t[1] == lid}
    rec = [e for e in lf.events if e[0] == 'call' and e[3] == 'strong_connect']
    for e in rec:
        els |= {t for a in e[4] for t in subterms(restrip(a)) if t[0] == 'el' and t[1] == lid}
    if not els:
        if not lf.events and not lf.facts and not lf.signs and not (lf.out and lf.out[0] in ('break', 'return')):
            res.find('unvisited', site(lf, site0), 'unexamined', 'strong_connect passes over a neighbour without looking at it')
        else:
            res.count('alternatives_unknown')
        return
    m = sorted(els, key=repr)[0]
    seen = reached(lf, m, 'index')
    stacked = lf.fact(lambda k: k[0] == 'in' and k[1] == m and k[2] == Q)
    if seen == 'zero':
        if zero and rec:
            res.find('revisit', rec[0][1], 'zero', 'strong_connect takes a neighbour with index 0 for one without an index')
            return
        seen = None if zero else False
    self_loop = lf.sign(m, NODE) == {0}
    if self_loop and not rec and not [e for e in lf.events if attr_set(e)]:
        return
    if seen is None and not rec and stacked is True:
        seen = True
    if seen is None and stacked is True and rec:
        res.find('revisit', rec[0][1], 'stacked', 'strong_connect visits a neighbour that is on the stack')
        return
    if seen is None:
        if rec and not reads_attr(lf, m) and stacked is not False:
            res.find('revisit', rec[0][1], 'unguarded', 'strong_connect visits a neighbour without knowing that it has no index')
        elif rec and stacked is False and not reads_attr(lf, m):
            res.find('revisit', rec[0][1], 'off-stack', 'strong_connect visits again a neighbour whose component is finished')
        else:
            res.count('alternatives_unknown')
        return
    if not seen:
        if not rec:
            if lf.nested or opaque_sets(lf.events):
                res.count('alternatives_unknown')
            else:
                res.find('unvisited', site(lf, site0), 'skipped', 'strong_connect skips a neighbour that has no index')
            return
        if len(rec) > 1:
            res.find('revisit', rec[1][1], 'twice', 'strong_connect visits a neighbour twice')
            return
        visit(res, lf, rec[0], m, ph, val, ('q', 'node', 'index', 'component'), Q)
        join(res, lf, m, {attr(m, 'lowlink')}, site0, 'a tree arc')
        return
    if rec:
        res.find('revisit', rec[0][1], 'seen', 'strong_connect visits a neighbour that has an index')
        return
    low = [e for e in lf.events if attr_set(e) and attr_set(e)[1] == C('lowlink')]
    if stacked is True:
        join(res, lf, m, {attr(m, 'index'), attr(m, 'lowlink')}, site0, 'an arc into the stack')
    elif stacked is False:
        bad = [e for e in low if attr_set(e)[2] != attr(NODE, 'lowlink')]
        if bad:
            res.find('low-link', bad[0][1], 'finished', 'strong_connect joins the low link over an arc to a finished component')
    else:
        L = attr(NODE, 'lowlink')
        sg = [lf.sign(attr(m, x), L) for x in ('index', 'lowlink')]
        if not low and any(s <= {0, 1} for s in sg):
            return
        extra = [k for k, v in lf.facts if m in set(subterms(k)) and k[0] in ('none', 'true', 'in', 'inst') and
                 k != ('none', attr(m, 'index')) and not (k[0] == 'in' and (k[1] in (C('index'), C('lowlink')) or k[2] == NODES))]
        if extra:
            res.count('alternatives_unknown')
        elif low and not any(minimum(attr_set(e)[2]) == {L} for e in low):
            res.find('low-link', low[0][1], 'unguarded', 'strong_connect joins the low link over an arc not known to lead into the stack')
        elif not low and any(s & {-1} and s != ANY for s in sg) or not low and not any(s != ANY for s in sg):
            res.find('low-link', site(lf, site0), 'ignored', 'strong_connect ignores an arc that may lead into the stack')


def visit(res, lf, e, m, ph, val, names, stack):
    """arguments of the visit and the counters carried on"""
    a = [restrip(x) if x is not None else None for x in args_of(e, names)]
    if a[1] != m and a[1] is not None and clear2(a[1]):
        res.find('arguments', e[1], 'node', '%s visits %s instead of the unreached node' % (e[3], norm(a[1])))
    if stack is not None and a[0] != stack and a[0] is not None and a[0][0] in ('s', 'o', 'c'):
        res.find('arguments', e[1], 'stack', '%s is given another stack' % e[3])
    ret = restrip(e[6])
    for pos, what, base in ((2, 'index', val), (3, 'component', None)):
        t = a[pos]
        if t is None:
            continue
        k, mm = lin_parts(t)
        phi = [x for x in mm if x[0] == 'phi']
        if len(phi) != 1 or len(mm) != 1 or mm[phi[0]] != 1 or phi[0] not in ph:
            if t[0] == 's' or t[0] == 'c' or all(x[0] == 's' for x in mm) and mm:
                res.find('arguments', e[1], what + ' ' + norm(t), '%s is given %s for the running %s' % (e[3], norm(t), what))
            else:
                res.count('alternatives_unknown')
            continue
        back = lf.phis.get(phi[0][2])
        if back is not None:
            back = restrip(back)
            if back == phi[0]:
                res.find('arguments', e[1], what + ' kept', 'the %s returned by the visit is dropped' % what)
            elif lin_off(back, ('i', ret, C(pos - 2))) is None and (lin_off(back, phi[0]) is not None or
                                                                   lin_off(back, ('i', ret, C(3 - pos))) is not None):
                res.find('arguments', e[1], what + ' ' + norm(back), 'the %s carried on is not the one returned by the visit' % what)
            elif what == 'component' and lin_off(back, ('i', ret, C(1))) not in (0, None):
                res.find('arguments', e[1], what + ' skipped', 'a component number is skipped')
        init = ph[phi[0]][0]
        if what == 'index' and base is not None:
            d = lin_off(lin_add(init, C(k), 1), base)
            if d is not None and d <= 0:
                res.find('arguments', e[1], 'index reused', 'an index is given to two nodes')
        if what == 'component' and k:
            res.find('arguments', e[1], 'component skipped', 'a component number is skipped')


def close(res, raw, ni, lvs, o, val, ph, site0):
    res.count('paths_checked')
    top = lvs[0]
    L = attr(NODE, 'lowlink')
    v = set(ANY)
    for I in [attr(NODE, 'index')] + ([val] if val is not None else []):
        v &= top.sign(L, I)
    flat = list(walk(raw))
    pops = [e for e in flat if e[0] == 'mut' and e[2] == Q and e[3] == 'pop']
    other = [e for e in flat if e[2] == Q and (e[0] in ('del', 'set') or e[0] == 'mut' and e[3] not in ('pop', 'append'))]
    unread = any(k[0] == 'true' and k[1][0] not in ('s', 'i', 'f', 'c') for k, x in top.facts)
    ret = restrip(o[1])
    comps = [(lf, e) + attr_set(e) for lf in lvs for e in lf.events if attr_set(e) and attr_set(e)[1] == C('component')
             and not (lf.loops and lf.loops[0] is raw[ni])]
    pcomp = [p for p in ph if p[1] == raw[ni][2] and ph[p][0] == ('s', 'component')]
    pidx = [p for p in ph if p[1] == raw[ni][2] and val is not None and lin_off(ph[p][0], val) is not None]
    if any(k[0] == 'in' and k[1][0] == 'c' and k[1][2] in ('lowlink', 'index') and x is False for k, x in top.facts):
        return
    if other and not pops or unread:
        res.count('alternatives_unknown')
        return
    if not pops:
        if 0 in v:
            if v == ANY and any(attr(NODE, 'lowlink') in set(subterms(k)) for k in top.signs):
                res.find('close', site0, 'other-test', 'strong_connect decides on something else than low link and index')
            else:
                res.find('close', site0, 'left-open', 'strong_connect can leave the stack alone although low link and index are equal')
        if len(ret) == 3 and ret[0] == 't' and pcomp and lin_off(ret[2], pcomp[0]) not in (None, 0):
            res.find('count', site0, 'open', 'strong_connect counts a component that it does not close')
        elif len(ret) == 3 and ret[0] == 't' and pcomp and ret[2] == ('s', 'component'):
            res.find('count', site0, 'dropped', 'strong_connect drops the components closed below')
        return
    if -1 in v:
        res.find('close', pops[0][1], str(sorted(v)), 'strong_connect closes a component although the low link may be below the index')
        return
    for e in pops:
        if e[4] and e[4] not in ((C(-1),),):
            if e[4] == (ZERO,):
                res.find('stack', e[1], 'bottom', 'strong_connect takes nodes from the wrong end of the stack')
            else:
                res.count('alternatives_unknown')
    # every popped node is labelled
    simple = all(n[0] == 'r' and n[2] == 'pop' or n[0] == 'r' and n[1] == 'pop' or n[0] == 'phi' or n == NODE for _, _, n, _, _ in comps)
    for lf in lvs:
        mine = [e for e in lf.events if e in pops]
        if lf.out and lf.out[0] == 'raise':
            continue
        if mine and simple and len([x for x in comps if x[0] is lf]) < len(mine):
            last = lf.out and lf.out[0] in ('break', 'return') and any(x[0] is lvs[0] for x in comps)
            if not last:
                res.find('unlabelled', mine[0][1], 'pop', 'strong_connect takes a node off the stack without a component number')
                break
    if not comps and not any(e[0] == 'call' and e[3] != 'strong_connect' for e in flat):
        res.find('unlabelled', pops[0][1], 'none', 'strong_connect closes a component without numbering it')
        return
    vals = {x[4] for x in comps}
    if len(vals) > 1:
        known = [x for x in vals if all(t[0] in ('phi', 's') for t in lin_parts(x)[1])]
        if len(known) == len(vals):
            res.find('number', comps[-1][1][1], 'several', 'strong_connect gives the nodes of one component different numbers')
        return
    comp = list(vals)[0] if vals else None
    if comp is not None and pcomp:
        d = lin_off(comp, pcomp[0])
        if d is None and all(t[0] in ('phi', 's') for t in lin_parts(comp)[1]):
            res.find('number', comps[0][1][1], norm(comp), 'strong_connect numbers a component %s' % norm(comp))
            return
        if ret[0] == 't' and len(ret) == 3:
            r = lin_off(ret[2], comp)
            if r != 1 and (r is not None or all(t[0] in ('phi', 's') for t in lin_parts(ret[2])[1])):
                res.find('count', site0, norm(ret[2]), 'strong_connect returns %s after numbering component %s' % (norm(ret[2]), norm(comp)))
            i = ret[1]
            if i == ('s', 'index') or i[0] == 'c' or pidx and i in pcomp:
                res.find('count', site0, 'index ' + norm(i), 'strong_connect returns %s as the next index' % norm(i))
        for e in flat:
            if e[0] == 'setf' and e[3] == 'num_components' and e[2] == SELF:
                r = lin_off(restrip(e[4]), comp)
                if r is not None and r != 1:
                    res.find('count', e[1], 'num_components', 'the number of components is recorded as %s after component %s' % (norm(e[4]), norm(comp)))
    # the last node taken is the node itself
    ok = False
    if not any(k[0] == 'in' and k[1] == NODE and k[2] == Q for k, x in top.facts if x is False):
        for k, s in top.signs.items():
            c, mm = lin_parts(k)
            if s == frozenset((0,)) and c == 0 and NODE in mm and len(mm) == 2:
                ok = True
        if not ok:
            about_q = any(Q in set(subterms(k)) and not any(t[0] == 'r' and t[1] == 'pop' for t in subterms(k)) for k in top.signs) or other
            if about_q:
                res.count('alternatives_unknown')
            else:
                res.find('stack', pops[-1][1], 'until', 'strong_connect does not stop taking nodes off the stack at the node itself')


def all_nodes(src):
    while src[0] in ('sorted', 'rev'):
        src = src[1]
    return src[0] in ('keys', 'elems', 'items', 'values') and src[1][0] == 'f' and src[1][1] == SELF and \
        src[1][2] in ('nodes', 'neighbors', 'in_neighbors')


def resets(res, lvs, key, site0, who):
    """some loop over all nodes sets the attribute to None in every alternative"""
    if any(e[0] == 'call' and e[3] not in ('strong_connect', 'search', 'display', 'dfs') for lf in lvs for e in lf.events):
        return
    loops = {}
    for lf in lvs:
        if len(lf.loops) == 1 and all_nodes(lf.loops[0][3]):
            sets = [attr_set(e) for e in lf.events if attr_set(e)]
            dels = [e for e in lf.events if e[0] == 'del' and restrip(e[3]) == C(key)]
            absent = any(k[0] == 'in' and k[1] == C(key) and v is False for k, v in lf.facts)
            good = any(s[1] == C(key) and s[2] == NONE and s[0][0] == 'el' for s in sets) or bool(dels) or \
                (absent and not any(e[0] == 'call' for e in lf.events))
            loops[lf.loops[0][2]] = loops.get(lf.loops[0][2], True) and good
    if not any(loops.values()):
        if any(len(lf.loops) == 1 and any(attr_set(e) and attr_set(e)[1][0] != 'c' for e in lf.events) for lf in lvs):
            return
        res.find('not-reset', site0, key, '%s does not clear %s on every node before it looks at it' % (who, key))


def driver(prog, res, meth, gtype, callee, key):
    it, outs, site0 = start(prog, res, 'Graph', meth, composed((callee,)), ('call', 'ecall', 'set', 'del', 'mut', 'test', 'setf'), g=gtype)
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        lvs = list(leaves(st, o))
        ph = inits(raw)
        resets(res, lvs, key, site0, meth)
        hit = False
        for lf in lvs:
            if lf.nested or (lf.out and lf.out[0] == 'raise'):
                continue
            calls = [e for e in lf.events if e[0] == 'call' and e[3] == callee]
            els = {t for x in [k for k, v in lf.facts] for t in subterms(x) if t[0] == 'el' and lf.loops and t[1] == lf.loops[-1][2]}
            for e in calls:
                els |= {t for a in e[4] for t in subterms(restrip(a)) if t[0] == 'el' and lf.loops and t[1] == lf.loops[-1][2]}
            if not calls and not any(key in (t[2][2] if t[0] == 'i' and t[2][0] == 'c' else None,) for k, v in lf.facts for t in subterms(k) if len(t) > 2 and isinstance(t[2], tuple)):
                continue
            if not els:
                res.count('alternatives_unknown')
                continue
            hit = True
            res.count('alternatives')
            n = sorted(els, key=repr)[0]
            r = reached(lf, n, key)
            if r == 'zero':
                first = [v[0] for p, v in ph.items() if p[1] == lf.loops[-1][2] and v[0][0] == 'c'] if meth == 'tarjan' else [ZERO]
                r = True if calls and ZERO in first and not reads_none(lf, n, key) else False
            if calls and r is not False:
                if r is True or not reads_attr(lf, n):
                    res.find('revisit', calls[0][1], meth, '%s starts at a node that is not known to be unreached' % meth)
                continue
            if not calls and r is False:
                res.find('unvisited', site(lf, site0), meth, '%s passes over a node that is not reached yet' % meth)
                continue
            if not calls:
                bump = [e for e in lf.events if e[0] == 'setf' and e[3] == 'num_components']
                if bump and r is True and lin_off(restrip(bump[0][4]), NC) not in (0, None):
                    res.find('count', bump[0][1], 'reached', '%s counts a component for a node already reached' % meth)
                continue
            if meth == 'tarjan':
                visit(res, lf, calls[0], n, ph, None, ('q', 'node', 'index', 'component'), None)
                a = args_of(calls[0], ('q', 'node', 'index', 'component'))
                if a[3] is not None and a[3][0] == 'phi' and ph.get(a[3], (None,))[0] not in (ZERO, None) and ph[a[3]][0][0] == 'c':
                    res.find('number', calls[0][1], 'start', 'component numbers start at %s' % norm(ph[a[3]][0]))
            else:
                numbered(res, lf, calls[0], n, ph, raw, site0)
        if not hit:
            res.note('the main loop of %s is not recognised' % meth)


def numbered(res, lf, e, n, ph, raw, site0):
    a = [restrip(x) if x is not None else None for x in args_of(e, ('source', 'destination', 'display', 'component', 'q', 'algo'))]
    if a[0] is not None and a[0] != n and clear2(a[0]):
        res.find('arguments', e[1], 'source', 'label_components searches from %s instead of the unreached node' % norm(a[0]))
    if a[1] is not None and a[1] != NONE:
        res.find('arguments', e[1], 'destination', 'label_components stops its search early')
    if a[5] is not None and a[5][0] == 'c' and a[5][2] not in ('DFS', 'BFS', 'UnweightedSPT'):
        res.find('arguments', e[1], 'algo', 'label_components uses a search that does not label components')
    t = a[3]
    if t is None:
        res.find('number', e[1], 'none', 'label_components searches without a component number')
        return
    k, m = lin_parts(t)
    if len(m) != 1:
        if not m or all(x[0] in ('s', 'el') for x in m):
            res.find('number', e[1], norm(t), 'label_components numbers components %s' % norm(t))
        return
    x = list(m)[0]
    if x == NC and m[x] == 1:
        bump = [z for z in lf.events if z[0] == 'setf' and z[2] == SELF and z[3] == 'num_components']
        if not bump:
            res.find('count', e[1], 'kept', 'label_components does not count the component')
            return
        d = lin_off(restrip(bump[-1][4]), NC)
        if d is not None and d != 1:
            res.find('count', bump[-1][1], str(d), 'label_components counts %s components for one search' % d)
        first = None
        for z in raw:
            if z[0] == 'setf' and z[3] == 'num_components':
                first = restrip(z[4])
            if z is lf.loops[-1]:
                break
        if first is None and any(z[0] == 'setf' and z[3] == 'num_components' for z in raw):
            first = None
        if first is not None and first[0] == 'c' and first != ZERO:
            res.find('count', site0, 'start', 'label_components starts counting at %s' % norm(first))
        if first is None and not any(z[0] == 'call' for z in raw):
            res.find('count', site0, 'start', 'label_components goes on counting from an earlier call')
    elif x[0] == 'phi' and m[x] == 1 and x in ph:
        back = lf.phis.get(x[2])
        if back is not None and lin_off(restrip(back), x) not in (1, None):
            res.find('count', e[1], 'step', 'label_components does not count one component for each search')
        if ph[x][0][0] == 'c' and k + (ph[x][0][2] or 0) == 0:
            fin = [z for z in walk(raw) if z[0] == 'setf' and z[3] == 'num_components']
            if not fin:
                res.find('count', site0, 'kept', 'label_components does not record the number of components')
            else:
                d = lin_off(restrip(fin[-1][4]), x)
                if d is not None and fin[-1] in raw and d != k + 0:
                    res.find('count', fin[-1][1], 'final', 'label_components records a wrong number of components')


def labels(prog, res):
    """label_strong_component starts the count and runs tarjan"""
    it, outs, site0 = start(prog, res, 'Graph', 'label_strong_component', composed(('tarjan', 'strong_connect')),
                            ('call', 'setf', 'test'), g='digraph')
    for st, o in outs:
        if o[0] != 'return':
            continue
        res.count('paths_checked')
        ev = list(walk(st.events()))
        calls = [i for i, e in enumerate(ev) if e[0] == 'call' and e[3] in ('tarjan', 'strong_connect')]
        if not calls:
            res.find('unvisited', site0, 'tarjan', 'label_strong_component does not label anything')
            continue
        for e in ev[calls[-1]:]:
            if e[0] == 'setf' and e[3] == 'num_components' and e[4][0] == 'c':
                res.find('count', e[1], 'overwritten', 'label_strong_component overwrites the number of components')


def reach(prog, res, meth, gtype, terms, callee, pos, name):
    """the number is given to the start and handed on"""
    it, outs = each_entry(res, prog, 'Graph', meth, gtype, None, lambda ev: ev[0] in ('call', 'set', 'ecall', 'loop', 'loopx', 'mut', 'test'),
                          opaque=composed((callee, 'display', 'process_node_search', 'process_edge_dijkstra', 'process_edge_prim')),
                          terms=terms, tracked=tracking('nattr.component'))
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    COMP = ('s', 'component')
    src = ('s', name)
    for st, o in outs:
        if o[0] != 'return':
            continue
        ev = list(walk(st.events()))
        ph = inits(st.events())
        if meth == 'process_edge_search':
            edge(res, st, ev, site0)
            continue
        res.count('paths_checked')
        for e in ev:
            if e[0] == 'call' and e[3] == callee:
                v = dict(e[5]).get('component', e[4][pos] if len(e[4]) > pos else None)
                if v is None and len(e) > 7 and e[7]:
                    continue
                v = restrip(v) if v is not None else NONE
                if v != COMP and (v[0] == 'c' or v[0] == 's' or v[0] == 'phi' and ph.get(v, (COMP,))[0] != COMP):
                    res.find('not-passed', e[1], norm(v), '%s hands on %s instead of the component number' % (meth, norm(v)))
            a = attr_set(e)
            if a and a[1] == C('component') and a[2] != COMP and a[2][0] == 'c' and a[2] != NONE:
                res.find('number', e[1], norm(a[2]), '%s labels a node %s' % (meth, norm(a[2])))
        if meth in ('search', 'dfs'):
            mine = [attr_set(e) for e in ev if attr_set(e) and attr_set(e)[1] == C('component')]
            calls = [e for e in ev if e[0] == 'call' and e[3] == callee]
            own = [a for a in mine if a[0] == src]
            if meth == 'search' and not calls:
                continue
            first = meth == 'search' and any(len(e[4]) > 1 and restrip(e[4][1]) == src for e in calls)
            if not own and not first and not any(k == ('none', COMP) and v is True for k, v in st.facts.items()) and \
                    not any(a[0][0] in ('r', 'phi') for a in mine) and not opaque_sets([e for e in ev if e[0] == 'set']):
                res.find('unlabelled', site0, meth, '%s does not label its start' % meth)
            if own and own[-1][2] != COMP and own[-1][2][0] == 'c':
                res.find('unlabelled', site0, meth + ' value', '%s labels its start %s' % (meth, norm(own[-1][2])))


def edge(res, st, ev, site0):
    res.count('alternatives')
    COMP, N = ('s', 'component'), ('s', 'neighbor')
    known = None
    for k, v in st.facts.items():
        if k == ('none', COMP):
            known = not v
    pushed = [e for e in ev if e[0] == 'set' and restrip(e[2]) == ('s', 'pred') and restrip(e[3]) == N or
              e[0] == 'ecall' and e[3] == 'push' and e[4] and restrip(e[4][0]) == N]
    sets = [attr_set(e) + (e,) for e in ev if attr_set(e) and attr_set(e)[1] == C('component')]
    for n, k, v, e in sets:
        if n != N and clear2(n):
            res.find('number', e[1], norm(n), 'process_edge_search labels %s' % norm(n))
        elif v != COMP and v[0] == 'c' and v != NONE or v != COMP and v == NONE and known is not False:
            res.find('number', e[1], norm(v), 'process_edge_search labels the neighbour %s' % norm(v))
    if pushed and known is not False and not sets:
        res.find('unlabelled', pushed[0][1], 'reached', 'process_edge_search reaches a node without labelling it')


def jobs(prog, tier):
    yield 'strong_connect', strong, ()
    yield 'tarjan', driver, ('tarjan', 'digraph', 'strong_connect', 'index')
    yield 'label_components', driver, ('label_components', 'graph', 'search', 'component')
    yield 'label_strong_component', labels, ()
    for a in ('DFS', 'BFS'):
        yield 'search/' + a, reach, ('search', 'graph', {'algo': C(a)}, 'process_edge_search', 4, 'source')
        for g in ('graph', 'digraph'):
            yield 'process_edge_search/%s/%s' % (a, g), reach, ('process_edge_search', g, {'algo': C(a)}, 'x', 0, 'neighbor')
    for g in ('graph', 'digraph'):
        yield 'dfs/' + g, reach, ('dfs', g, {}, 'dfs', 4, 'root')
    yield 'bfs', reach, ('bfs', 'graph', {}, 'search', 3, 'root')
