"""C23: generated graphs and results are reproducible."""
from .base import *

ID = 'C23'
TECHNIQUE = 'nondeterminism-source analysis: must-precede of seeding, unordered iteration (abstract interpretation)'
RULE = ('in the random-graph generator every draw from the random module is preceded, on every path, by seeding with the '
        'seed argument; no other operation draws random numbers; nowhere does the clock, the process environment, '
        'id(), hash() or the iteration order of a set of nodes decide what is done')
EXPLANATION = ('Every public operation is interpreted abstractly; the calls to external modules reached from it are '
               'classified, draws and seedings are kept in path order and checked path by path, and loops over set '
               'objects are reported when their elements are node names, edges or unknown values.')
MINIMUM = {'external_calls': 50, 'draws': 5}
DRAWS = {'random', 'randint', 'choice', 'choices', 'sample', 'shuffle', 'uniform', 'randrange', 'gauss', 'betavariate',
         'expovariate', 'normalvariate', 'triangular', 'getrandbits', 'vonmisesvariate', 'gammavariate',
         'lognormvariate', 'paretovariate', 'weibullvariate', 'randbytes', 'rand', 'randn', 'permutation'}
CLOCK = ('time.', 'datetime.', 'uuid.', 'secrets.', 'os.urandom', 'os.getpid', 'random.SystemRandom', 'os.times',
         'threading.get_ident')
TEMPNAMES = {'write', 'create', 'display'}


def is_rng(ev):
    """('draw'|'seed'|'state', ...) for a call on the random module or on a random.Random object"""
    if ev[0] != 'ecall':
        return None
    obj = ev[2]
    name = ev[3]
    if obj[0] == 'ext':
        d = obj[1]
        parts = d.split('.')
        if 'random' in parts[:-1] or parts[0] == 'random':
            if parts[-1] == 'seed':
                return 'seed'
            if parts[-1] in DRAWS:
                return 'draw'
            if parts[-1] in ('setstate', 'getstate', 'Random', 'default_rng', 'RandomState'):
                return 'state'
        return None
    if obj[0] == 'o' and name in DRAWS:
        return 'odraw'
    if obj[0] == 'o' and name == 'seed':
        return 'oseed'
    return None


def run(prog, res, cls, meth, gtype):
    gen = meth == 'random'
    rng_ok = set()

    def report(it, site, kind, why):
        if kind not in ('num', 'bool'):
            res.find('set-order', site, why, '%s iterates over a set of %s, whose order depends on their hashes, and %s'
                     % (meth, kind if kind != 'any' else 'nodes', why))

    def hook(it, st, ev):
        k = ev[0]
        if it.set_loops:
            why = order_matters(ev)
            if why:
                kind, site = it.set_loops[-1]
                report(it, site, kind, why)
        if k == 'ecall':
            res.count('external_calls')
            r = is_rng(ev)
            if ev[2] == ('ext', 'random.Random') and good_seed(ev[4]):
                rng_ok.add(ev[6])
            if r in ('draw', 'odraw') and not gen:
                if r == 'draw':
                    res.find('draw', ev[1], ev[2][1], '%s draws random numbers (%s)' % (meth, ev[2][1]))
            elif r == 'seed' and not gen:
                res.find('draw', ev[1], ev[2][1], '%s reseeds the random number generator' % meth)
            if r in ('draw', 'odraw'):
                res.count('draws')
            if ev[2][0] == 'ext' and ev[2][1].startswith(CLOCK):
                res.find('clock', ev[1], ev[2][1], '%s lets %s decide what it does' % (meth, ev[2][1]))
        elif k == 'bcall' and ev[2] in ('id', 'hash'):
            res.find('identity', ev[1], '%s %s' % (ev[2], norm(ev[3][0]) if ev[3] else ''),
                     '%s uses %s(), which differs from run to run' % (meth, ev[2]))
        elif k == 'setiter':
            res.count('set_iterations')
            if any(o is not None and o[0] in ('break', 'return') for o in ev[4]):
                report(it, ev[1], ev[3], 'stops at the first one that fits')
        elif k == 'mut' and ev[3] == 'pop' and ev[2][0] == 'o' and not ev[4]:
            ob = st.objs.get(ev[2][1])
            if ob is not None and ob.kind == 'set' and it.elem_kind_of_obj(ev[2][1]) in HASHED:
                res.find('set-order', ev[1], 'pop', '%s takes whichever element of a set comes first' % meth)

    def keep(ev):
        return gen and is_rng(ev) is not None
    it, outs = each_entry(res, prog, cls, meth, gtype, hook, keep=keep, tracked=tracking())
    if gen:
        for st, o in outs:
            check(res, st.events(), rng_ok)


HASHED = ('name', 'edge', 'Node', ('opt', 'name'), 'str')
SEQUENCED = {'append', 'insert', 'extend', 'push', 'appendleft', 'write', 'add_node', 'add_edge', 'del_node', 'del_edge',
             'put', 'enqueue'}


def order_matters(e):
    """what one pass of the loop does that shows in which order the passes came"""
    if e[0] == 'mut' and e[3] in SEQUENCED:
        return 'lists them in that order'
    if e[0] == 'ecall' and e[3] in SEQUENCED:
        return 'queues them in that order'
    if e[0] == 'print':
        return 'prints them in that order'
    if e[0] == 'set' and it_structure(e):
        return 'adds to the graph in that order'
    return None


def it_structure(e):
    b = e[2]
    return b[0] == 'f' and b[2] in STRUCT_FIELDS


def check(res, events, rng_ok):
    # seeded: set of generator objects seeded so far ('global' for the module)
    def go(evs, seeded):
        for e in evs:
            if e[0] in ('loop', 'loopx'):
                for a in e[4]:
                    go(a[0], set(seeded))
                continue
            r = is_rng(e)
            if r == 'seed':
                if good_seed(e[4]):
                    seeded.add('global')
                else:
                    res.find('seed', e[1], ','.join(norm(x) for x in e[4]) or 'nothing',
                             'the generator is seeded with %s instead of the seed argument' %
                             (', '.join(norm(x) for x in e[4]) or 'nothing'))
                    seeded.add('global')
            elif r == 'draw':
                if 'global' not in seeded:
                    res.find('unseeded', e[1], e[2][1], 'on some path %s is drawn before the generator is seeded with the '
                             'seed argument' % e[2][1])
            elif r == 'oseed':
                if good_seed(e[4]):
                    seeded.add(e[2])
            elif r == 'odraw':
                if e[2] not in seeded and e[2] not in rng_ok:
                    res.find('unseeded', e[1], e[3], 'on some path a number is drawn from a generator that is not seeded '
                             'with the seed argument')
    go(events, set())


def good_seed(args):
    if len(args) < 1:
        return False
    a = args[0]
    if a == NONE:
        return False
    if a[0] == 'c':
        return False
    syms = {x for x in subterms(a) if x[0] in ('s', 'r', 'u', 'g', 'f')}
    return bool(syms) and all(x == ('s', 'seedInput') for x in syms)


def jobs(prog, tier):
    for c, m, g in EN.entries():
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
