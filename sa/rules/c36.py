"""C36: negative cycles are reported exactly when there are some, and cancelled until there are none."""
from .base import *
from .leaf import *
from .c21 import args_of
from ..model import AnalysisBroken

ID = 'C36'
TECHNIQUE = 'verdict and loop-exit obligations of cycle detection and cancelling (abstract interpretation with signs and call results)'
RULE = ('the all-pairs method answers False on exactly the paths on which some node has a distance below zero to itself, looked at for every node after '
        'the last update; its caller returns a cycle on False and None on True; label correcting answers False only with the cycle its test found and '
        'never goes on after one; cycle cancelling augments the cycle found by the capacity measured for it, rebuilds the residual network after each '
        'augmentation, looks for the next cycle in that one and ends only when there is none')
EXPLANATION = 'The four operations are interpreted abstractly; the facts under which each answer is given are compared with the definition.'
MINIMUM = {'verdicts': 2}


def go(prog, res, meth, opq, keep=('call', 'loop', 'loopx')):
    r = explore(prog, 'Graph', meth, 'digraph', res=res, sink=False, merge=False, keyerr=False, keep=lambda ev: ev[0] in keep,
                opaque=composed(opq), tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    fm = prog.method('Graph', meth)
    return r[1], (fm.module.path, fm.node.lineno, fm.qual)


def itself(k):
    """(offset, coefficient, node) of a condition on the distance of a node to itself"""
    c, m = lin_parts(restrip(k))
    if len(m) == 1:
        t, f = list(m.items())[0]
        if t[0] == 'i' and t[1][0] == 'o' and t[2][0] == 't' and len(t[2]) == 3 and t[2][1] == t[2][2] and t[2][1][0] == 'el':
            return c, f, t[2][1]
    return None


def floyd(prog, res):
    outs, site0 = go(prog, res, 'floyd_warshall', ('get_edge_cost',), ('call', 'loop', 'loopx', 'test', 'set'))
    for st, o in outs:
        if o[0] != 'return':
            continue
        v = restrip(o[1])
        if v[0] != 't' or len(v) < 2 or v[1] not in (C(True), C(False)):
            continue
        ok = v[1] == C(True)
        res.count('verdicts')
        raw = st.events()
        tops = [e[2] for e in raw if e[0] in ('loop', 'loopx')]
        seen = False
        carried = any(restrip(init) != restrip(b) for e in raw if e[0] in ('loop', 'loopx') and e[2] in tops[-1:] for var, (init, backs) in e[5] for b in backs
                      if restrip(b)[0] != 'el')
        if carried:         # the loop hands something on: what it says is not known
            res.count('verdicts_unknown')
            continue
        told = any(lf.loops and lf.loops[-1][2] in tops[-1:] and lf.out is not None and lf.out[0] == 'return' for lf in leaves(st, o, True))
        for lf in leaves(st, o, True):
            if not lf.loops or lf.nested or len(lf.loops) > 1 or lf.loops[-1][2] not in tops[-1:]:
                continue
            for k, sg in lf.signs.items():
                x = itself(k)
                if x is None or x[2][1] != lf.loops[-1][2]:
                    continue
                seen = True
                c, f, n = x
                s = {y * f for y in sg}
                if c:
                    res.find('verdict', lf.loops[-1][1], 'bound', 'floyd_warshall compares the distance of a node to itself with %s, not with zero' % (-c * f))
                elif lf.out is None or lf.out[0] == 'continue':
                    if any(e[0] in ('set', 'call') for e in lf.events):
                        res.count('verdicts_unknown')       # noted somewhere
                    elif ok and told and -1 in s:
                        res.find('verdict', lf.loops[-1][1], 'passed over', 'floyd_warshall passes over a node whose distance to itself may be below zero')
                elif lf.out[0] == 'return':
                    w = restrip(lf.out[1]) if len(lf.out) > 1 and lf.out[1] is not None else NONE
                    said = w[1] if w[0] == 't' and len(w) > 1 else None
                    if said == C(True) and -1 in s:
                        res.find('verdict', lf.loops[-1][1], 'unreported', 'floyd_warshall answers True although a node may have a distance below zero to itself')
                    elif said == C(False) and not s <= {-1}:
                        res.find('verdict', lf.loops[-1][1], 'false alarm', 'floyd_warshall answers False although no distance need be below zero')
        if not seen:
            res.count('verdicts_unknown')


def negative(prog, res):
    outs, site0 = go(prog, res, 'get_negative_cycle', ('floyd_warshall', 'floyd_warshall_get_cycle'))
    for st, o in outs:
        if o[0] != 'return':
            continue
        v = restrip(o[1]) if o[1] is not None else NONE
        valid = None
        for k, w in st.facts.items():
            if k[0] == 'true' and k[1][0] == 'i' and k[1][2] == C(0) and k[1][1][0] == 'r' and 'floyd_warshall' in k[1][1]:
                valid = w
        if valid is None:
            continue
        res.count('verdicts')
        found = v[0] == 'r' and 'floyd_warshall_get_cycle' in v
        if valid is True and found:
            res.find('answer', site0, 'cycle', 'get_negative_cycle returns a cycle when there is none')
        elif valid is False and v == NONE:
            res.find('answer', site0, 'none', 'get_negative_cycle returns None although there is a negative cycle')


def checks(events):
    return [e for e in events if e[0] == 'call' and e[3] == 'label_correcting_check_cycle']


def correcting(prog, res):
    outs, site0 = go(prog, res, 'fifo_label_correcting', ('label_correcting_check_cycle',))
    for st, o in outs:
        if o[0] != 'return':
            continue
        v = restrip(o[1])
        if v[0] != 't' or len(v) != 3 or v[1] not in (C(True), C(False)):
            continue
        res.count('verdicts')
        if v[1] == C(False):
            r = v[2]
            given = {restrip(t) for e in walk(list(st.events())) for x in checks([e]) for t in args_of(x, ('j', 'pred')) if t is not None}
            if r == NONE or r[0] == 'o' and r in given:
                res.find('answer', site0, 'no cycle', 'fifo_label_correcting answers False without the cycle found')
            elif r[0] == 'r' and st.facts.get(('none', o[1][2])) is True:
                res.find('answer', site0, 'none', 'fifo_label_correcting answers False although no cycle was found')
        elif v[2][0] == 'r' and 'label_correcting_check_cycle' in v[2]:
            res.find('answer', site0, 'true', 'fifo_label_correcting answers True with the cycle it found')
        for lf in leaves(st, o, True):
            if not lf.loops or lf.out is not None and lf.out[0] in ('return', 'raise', 'break'):
                continue        # what happens after a break is not on this leaf
            for e in checks(lf.events):
                if any(k == ('none', e[6]) and w is False or k == ('true', e[6]) and w is True for k, w in lf.facts):
                    res.find('answer', e[1], 'ignored', 'fifo_label_correcting goes on after it has found a cycle')


CANCEL = ('find_feasible_flow', 'create_residual_graph', 'get_negative_cycle', 'find_cycle_capacity', 'augment_cycle')


def cyclic(t, ini):
    """is t the result of a search for a negative cycle, and never anything else?"""
    if t[0] == 'phi':
        return bool(ini.get(t)) and all(cyclic(x, {k: v for k, v in ini.items() if k != t}) for x in ini[t])
    return t[0] == 'r' and 'get_negative_cycle' in t


def cancel(prog, res):
    outs, site0 = go(prog, res, 'cycle_canceling', CANCEL)
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        ini = {}
        for e in walk(raw):
            if e[0] in ('loop', 'loopx'):
                for var, (init, backs) in e[5]:
                    ini[('phi', e[2], var)] = {restrip(init)} | {restrip(b) for b in backs}
        if o[1] == C(True):
            res.count('verdicts')
            for k, w in st.facts.items():
                if k[0] == 'none' and w is False and cyclic(k[1], ini):
                    if any(e[0] == 'loop' for e in raw):
                        res.find('left', site0, 'cycle', 'cycle_canceling ends although a negative cycle is left')
        for lf in leaves(st, o, True):
            if not lf.loops or lf.nested:
                continue
            if o[1] == C(True) and lf.out is not None and lf.out[0] == 'break' and any(e[0] == 'call' and e[3] == 'augment_cycle' for e in lf.events) and \
                    not any(k[0] == 'none' and w is True or k[0] in ('true', 'nonempty') and w is False for k, w in lf.facts):
                res.find('left', lf.loops[-1][1], 'broken off', 'cycle_canceling can end without knowing that no negative cycle is left')
            evs = [e for e in lf.events if e[0] == 'call']
            aug = [i for i, e in enumerate(evs) if e[3] == 'augment_cycle']
            if len(aug) != 1:
                continue
            res.count('augmentations')
            a = args_of(evs[aug[0]], ('amount', 'cycle'))
            caps = {restrip(e[6]): e for e in evs[:aug[0]] if e[3] == 'find_cycle_capacity'}
            if a[0] is not None and restrip(a[0]) in caps and a[1] is not None:
                e = caps[restrip(a[0])]
                c = args_of(e, ('cycle',))[0]
                if c is not None and restrip(c) != restrip(a[1]) and {restrip(c)[0], restrip(a[1])[0]} <= {'r', 'phi'}:
                    res.find('amount', e[1], 'other cycle', 'cycle_canceling measures another cycle than it augments')
            # where the next cycle is looked for
            late = {restrip(e[6]) for e in evs[aug[0]:] if e[3] == 'create_residual_graph'}
            early = {restrip(e[6]) for e in evs[:aug[0]] if e[3] == 'create_residual_graph'}
            for e in evs[aug[0]:]:
                if e[3] == 'get_negative_cycle':
                    b = restrip(e[2])
                    if b in early or b[0] == 'phi' and b in ini and b not in late or b[0] == 'r' and 'create_residual_graph' in b and b not in late:
                        res.find('stale', e[1], 'residual', 'cycle_canceling looks for the next cycle in a residual network of before the augmentation')
                    elif b == SELF:
                        res.find('stale', e[1], 'network', 'cycle_canceling looks for a cycle in the network, not in its residual network')
            for e in evs[:aug[0]]:
                if e[3] == 'get_negative_cycle' and restrip(e[2])[0] == 'phi' and restrip(e[2]) in ini and \
                        not any(x[0] == 'phi' or x[0] == 'r' and 'create_residual_graph' in x for x in ini[restrip(e[2])]):
                    res.count('unknown')


def jobs(prog, tier):
    yield 'floyd_warshall', floyd, ()
    yield 'get_negative_cycle', negative, ()
    yield 'fifo_label_correcting', correcting, ()
    yield 'cycle_canceling', cancel, ()
