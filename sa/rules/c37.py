"""C37: every step of page rank distributes the rank of a page over the pages it refers to, and the iteration stops on the change measured."""
import random
from fractions import Fraction
from .base import *
from .leaf import *
from ..model import AnalysisBroken

ID = 'C37'
TECHNIQUE = 'symbolic recurrence of the page rank step (abstract interpretation, identity of rational terms) against the damped random-walk equation'
RULE = ('the rank stored for a node is (1-d)/n before the pages referring to it are looked at and grows by d*rank/out-degree for each of them, whatever the '
        'graph; the change of a pass adds up absolute differences between the old and the new rank, and the iteration is left early only when it is small')
EXPLANATION = 'The two nested loops are interpreted abstractly; the recurrence of the accumulator is compared with the definition as a rational term.'
MINIMUM = {'jobs_decided': 1}
NB = ('f', SELF, 'neighbors')
INN = ('f', SELF, 'in_neighbors')


class Unknown(Exception):
    pass


def bare(t):
    """a collection of nodes without the copies made of it"""
    while isinstance(t, tuple) and t and (t[0] in ('keys', 'elems', 'star') and len(t) == 2 or t[0] == 'L' and len(t) == 3 and t[2][0] == 'star'):
        t = t[-1]
    return restrip(t)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            for y in subterms(x):
                yield y


def atoms(t):
    """('d',) damping, ('n',) number of nodes, ('deg', e)/('indeg', e), ('rank', X, e), phi and abs terms of a rational term"""
    return sorted({a for a in walk_atoms(t)}, key=repr)


def atom(t):
    if t[0] == 's' and t[1] == 'damping_factor':
        return ('d',)
    if t[0] == 'phi':
        return t
    if t[0] == 'pf' and t[1] == 'len' and len(t) == 3:
        x = bare(t[2])
        if x == NB or x == INN:
            return ('n',)
        if x[0] == 'i' and restrip(x[1]) == NB:
            return ('deg', restrip(x[2]))
        if x[0] == 'i' and restrip(x[1]) == INN:
            return ('indeg', restrip(x[2]))
    if t[0] == 'i' and t[2][0] == 'el' and restrip(t[1]) not in (NB, INN):
        return ('rank', restrip(t[1]), restrip(t[2]))
    return None


def walk_atoms(t):
    if t[0] == 'c':
        return
    if t[0] == 'lin':
        for k, v in t[2]:
            for a in walk_atoms(k):
                yield a
        return
    if t[0] == 'bin' and t[1] in '+-*/':
        for x in t[2:4]:
            for a in walk_atoms(x):
                yield a
        return
    if t[0] == 'pf' and t[1] in ('float', 'abs') and len(t) == 3:
        for a in walk_atoms(t[2]):
            yield a
        return
    if t[0] == 'pf' and t[1] in ('max', 'min') and len(t) == 4:
        for x in t[2:]:
            for y in walk_atoms(x):
                yield y
        return
    a = atom(t)
    if a is None:
        raise Unknown(str(t)[:80])
    yield a


def value(t, env):
    if t[0] == 'c':
        if isinstance(t[2], bool) or not isinstance(t[2], (int, float)):
            raise Unknown(str(t))
        return Fraction(t[2])
    if t[0] == 'lin':
        return Fraction(t[1]) + sum((Fraction(v) * value(k, env) for k, v in t[2]), Fraction(0))
    if t[0] == 'bin':
        a, b = value(t[2], env), value(t[3], env)
        if t[1] == '/' and b == 0:
            raise Unknown('division')
        return a + b if t[1] == '+' else a - b if t[1] == '-' else a * b if t[1] == '*' else a / b
    if t[0] == 'pf' and t[1] in ('float', 'abs'):
        v = value(t[2], env)
        return abs(v) if t[1] == 'abs' else v
    if t[0] == 'pf' and t[1] in ('max', 'min'):
        return (max if t[1] == 'max' else min)(value(x, env) for x in t[2:])
    return env[atom(t)]


def same(f, g, ats):
    """are two functions of the atoms the same rational function?"""
    rnd = random.Random(37)
    for _ in range(6):
        env = {a: Fraction(rnd.randint(2, 9999), 1 if a[0] in ('n', 'deg', 'indeg') else rnd.randint(2, 97)) for a in ats}
        if f(env) != g(env):
            return False
    return True


def loops_of(events, out):
    for e in walk(events):
        if e[0] in ('loop', 'loopx'):
            out.setdefault(e[2], []).append(e)
    return out


def step(prog, res):
    r = explore(prog, 'Graph', 'page_rank', 'digraph', res=res, sink=False, merge=False, keyerr=False, keep=lambda ev: True, opaque=composed(()),
                tracked=None, untracked=frozenset(), all_loops=True)
    if r is None:
        raise AnalysisBroken('Graph.page_rank')
    seen = set()
    for st, o in r[1]:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        loops = loops_of(raw, {})
        for lf in leaves(st, o, True):
            if len(lf.loops) < 2:
                continue
            for e in lf.events:
                if e[0] != 'set' or len(e) < 5 or restrip(e[3]) != restrip(('el', lf.loops[-1][2], lf.loops[-1][3])) or bare(lf.loops[-1][3]) != NB:
                    continue
                key = (e[1], e[2], e[3], e[4])
                if key in seen:
                    continue
                seen.add(key)
                try:
                    recur(res, loops, e)
                except Unknown:
                    res.count('unknown')
        kept(res, leaves(st, o, True), seen)
        stop(res, st, o, loops, seen)


def kept(res, lfs, stored):
    """a way through the loop over the nodes that keeps the old rank of a node although the new one differs"""
    for lf in lfs:
        if len(lf.loops) < 2 or lf.out is not None and lf.out[0] != 'continue':
            continue
        el = restrip(('el', lf.loops[-1][2], lf.loops[-1][3]))
        here = {restrip(k[1]) for k in stored if restrip(k[2]) == el}
        if not here or any(e[0] == 'set' and len(e) > 3 and restrip(e[3]) == el for e in lf.events):
            continue
        for k, s in lf.signs.items():
            if set(s) <= {0}:
                continue
            m = lin_parts(restrip(k))[1]
            if len(m) == 2 and any(atom(t) is not None and atom(t)[0] == 'rank' and atom(t)[2] == el and atom(t)[1] in here for t in m) and \
                    any(t[0] == 'phi' for t in m):
                res.find('step', lf.loops[-1][1], 'kept', 'page_rank may keep the old rank of a node although the new one differs')


def recur(res, loops, e):
    node, v = restrip(e[3]), e[4]
    ph = {t for t in subterms(v) if t and t[0] == 'phi' and len(t) == 3 and t[1] in loops}
    if len(ph) != 1:
        raise Unknown('accumulator')
    acc = ph.pop()
    ev = loops[acc[1]][0]
    src, var = ev[3], dict(ev[5]).get(acc[2])
    x = bare(src)
    if var is None or x[0] != 'i' or restrip(x[2]) != node or restrip(x[1]) not in (NB, INN):
        raise Unknown('source')
    if restrip(x[1]) != INN:
        res.find('step', ev[1], 'direction', 'page_rank lets a page be ranked by the pages it refers to, not by those referring to it')
        return
    ref = restrip(('el', acc[1], src))
    n, d, deg = ('n',), ('d',), ('deg', ref)
    ini = var[0]
    ats = set(walk_atoms(v)) | set(walk_atoms(ini)) | {n, d, deg, acc}
    if any(a[0] == 'phi' and a != acc for a in ats):
        raise Unknown('phi')
    res.count('recurrences')
    at = lambda env, y: value(v, dict(env, **{}) | {acc: y})
    if not same(lambda env: at(env, value(ini, env)), lambda env: (1 - env[d]) / env[n], ats):
        res.find('step', e[1], 'base', 'page_rank does not start the rank of a node from (1 - damping_factor) / number of nodes')
    for a in ev[4]:
        if a[4] is not None and a[4][0] != 'continue':
            if a[4][0] == 'break':
                res.find('step', ev[1], 'broken off', 'page_rank may pass over pages referring to a node')
            continue
        back = dict(a[3]).get(acc[2])
        if back is None:
            continue
        if back == acc:
            if not any(k[0] == 'pf' and atom(k) is not None and 0 in s for k, s in dict(a[2]).items() if isinstance(s, frozenset)) and not dict(a[1]):
                res.find('step', ev[1], 'skipped', 'page_rank passes over a page referring to a node')
            continue
        bats = set(walk_atoms(back)) | ats
        ranks = {y for y in bats if y[0] == 'rank' and y[2] == ref}
        if any(y[0] == 'phi' and y != acc for y in bats):
            raise Unknown('phi')
        others = {y for y in bats if y[0] == 'rank' and y[2] != ref}
        if not ranks and not others and (dict(a[1]) or any(isinstance(t[0], str) and t[0] in ('r', 's') and t[:2] != ('s', 'damping_factor') and t != SELF for t in subterms(back) if t)):
            raise Unknown('case')
        if not ranks and not others:
            res.find('step', ev[1], 'no rank', 'page_rank adds something else than the rank of a page referring to a node')
            continue
        if not ranks:
            res.find('step', ev[1], 'own rank', 'page_rank adds the rank of another page than the one referring to a node')
            continue
        if len(ranks) != 1:
            raise Unknown('ranks')
        rank = ranks.pop()
        if not same(lambda env: at(env, value(back, env)) - at(env, env[acc]), lambda env: env[d] * env[rank] / env[deg], bats):
            res.find('step', ev[1], 'share', 'page_rank does not add damping_factor * rank / out-degree of the page referring to a node')


def subphi(k):
    return any(t and t[0] in ('phi', 'r') for t in subterms(k))


def stop(res, st, o, loops, stored):
    """the change a pass is left on"""
    for lf in leaves(st, o, True):
        if len(lf.loops) != 1 or lf.out is None or lf.out[0] not in ('break', 'return'):
            continue
        parts = [lin_parts(restrip(k)) for k in lf.signs]
        if stored and any(c == 0 and list(m) == [('s', 'min_delta')] for c, m in parts) and \
                not any(t[0] in ('phi', 'r') for c, m in parts for t in m) and not any(subphi(k) for k, w in lf.facts):
            res.count('stops')
            res.find('stop', lf.loops[-1][1], 'nothing', 'page_rank stops on a change that is always measured as zero')
        for k, s in lf.signs.items():
            c, m = lin_parts(restrip(k))
            lim = [(t, f) for t, f in m.items() if t == ('s', 'min_delta')]
            dif = [(t, f) for t, f in m.items() if t[0] == 'phi' and t[1] in loops]
            if c or len(m) != 2 or len(lim) != 1 or len(dif) != 1 or lim[0][1] != -dif[0][1]:
                continue
            res.count('stops')
            if {x * (1 if dif[0][1] > 0 else -1) for x in s} & {1}:
                res.find('stop', lf.loops[-1][1], 'early', 'page_rank stops although the change of the pass may be above min_delta')
            ph = dif[0][0]
            ev = loops[ph[1]][0]
            init, backs = dict(ev[5])[ph[2]]
            for b in backs:
                try:
                    ats = set(walk_atoms(b))
                except Unknown:
                    res.count('unknown')
                    continue
                ab = [t for t in subterms(b) if t and t[0] == 'pf' and t[1] in ('abs', 'max', 'min')]
                for key in stored:
                    olds = [a for a in ats if a[0] == 'rank' and a[2] == restrip(key[2])]
                    if ph not in ats or bare(loops[ph[1]][0][3]) != NB:
                        continue
                    if not ab:
                        if olds and len(backs) == 1 and not any(t[0] == 'bin' and t[1] == '*' for t in subterms(b) if t):
                            res.find('stop', ev[1], 'sign', 'page_rank adds up changes of rank that may cancel out')
                    elif len(ab) == 1 and not (olds or {a for a in ats if a != ph}):
                        res.find('stop', ev[1], 'nothing', 'page_rank measures no change at all')


def jobs(prog, tier):
    yield 'page_rank', step, ()
