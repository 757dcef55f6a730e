"""C35: depth-first search numbers, labels and orders the nodes it reaches."""
from .base import *
from .leaf import *
from .c15 import inits
from .c21 import args_of
from .c24 import attr_set

ID = 'C35'
TECHNIQUE = 'numbering obligations of the recursive depth-first search (abstract interpretation with linear terms over the running counts)'
RULE = ('the discovery time of a node is one more than the count handed in and is set before its neighbours are visited; each visit of a neighbour '
        'gets the running counts, the component, the order and the table of predecessors of the call and its results become the running counts; '
        'the finishing time is the running count after the last neighbour, the node is put first in the order after them, and the counts are returned')
EXPLANATION = ('Graph.dfs is interpreted abstractly with its recursion left opaque; the counts carried round the loop over the neighbours are compared as '
               'linear terms with the numbering of the definition.')
MINIMUM = {'visits': 1}
PARAMS = ('root', 'disc_count', 'finish_count', 'topological_order', 'component', 'transpose', 'display', 'pred')
ROOT, D, F, ORDER, COMP = (('s', x) for x in ('root', 'disc_count', 'finish_count', 'topological_order', 'component'))


def known(t, atoms):
    """a linear term over the given atoms and nothing else"""
    return t[0] != 'c' and set(lin_parts(t)[1]) <= set(atoms) or t[0] == 'c' and t[1] == 'int'


def visits(alt):
    return [e for e in alt[0] if e[0] == 'call' and e[3] == 'dfs']


def has_visit(e):
    return e[0] in ('loop', 'loopx') and any(visits(a) or any(has_visit(x) for x in a[0]) for a in e[4])


def same(a, b):
    return lin_add(a, lin_scale(b, -1)) == ZERO


def dfs(prog, res, gtype, transpose):
    r = explore(prog, 'Graph', 'dfs', gtype, res=res, sink=False, merge=False, keyerr=False, terms={'transpose': C(transpose), 'display': NONE},
                keep=lambda ev: ev[0] in ('call', 'set', 'del', 'mut', 'loop', 'loopx'), opaque=composed(('display', 'dfs')),
                tracked=None, untracked=frozenset())
    if r is None:
        raise AnalysisBroken('Graph.dfs')
    it, outs = r
    fm = prog.method('Graph', 'dfs')
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    D1 = lin_add(D, C(1))
    for st, o in outs:
        if o[0] != 'return':
            continue
        raw = list(st.events())
        at = [i for i, e in enumerate(raw) if has_visit(e)]
        if len(at) != 1 or any(e[0] == 'call' and e[3] == 'dfs' for e in raw):
            res.count('forms_unknown')
            continue
        loop = raw[at[0]]
        if any(has_visit(x) for a in loop[4] for x in a[0]):
            res.count('forms_unknown')
            continue
        ini = {k: v for k, v in inits(raw).items() if k[1] == loop[2]}
        run = [None, None]
        # the visits
        for alt in loop[4]:
            cs = visits(alt)
            if len(cs) != 1:
                continue
            res.count('visits')
            e = cs[0]
            a = [restrip(x) if x is not None else None for x in args_of(e, PARAMS)]
            for k, (own, first, name) in enumerate(((D, D1, 'discovery'), (F, F, 'finishing'))):
                x = a[1 + k]
                if x is None:
                    res.find('count', e[1], name + ' dropped', 'dfs visits a neighbour without the %s count' % name)
                    continue
                if x in ini:
                    run[k] = x
                    continue
                atoms = [D, F] + [p for p in ini]
                if known(x, atoms):
                    res.find('count', e[1], name, 'dfs visits a neighbour with the %s count %s, not the count reached so far' % (name, norm(x)))
            for k, name, want in ((3, 'order', ORDER), (4, 'component', COMP)):
                x = a[k]
                if x is None or x == NONE or x != want and (x[0] in ('s', 'c', 'el', 'lin') or x == a[0]):
                    res.find('passed-on', e[1], name, 'dfs visits a neighbour with %s instead of its own %s' % (norm(x) if x else 'no', name))
            if not transpose and (a[7] is None or a[7] == NONE):
                res.find('passed-on', e[1], 'pred', 'dfs visits a neighbour without its table of predecessors')
        for k, (first, name) in enumerate(((D1, 'discovery'), (F, 'finishing'))):
            if run[k] is None:
                continue
            init, backs = ini[run[k]]
            init = restrip(init)
            if known(init, [D, F]) and not same(init, first):
                res.find('count', site0, name + ' start', 'dfs visits its first neighbour with the %s count %s instead of %s' %
                         (name, norm(init), norm(first)))
        for alt in loop[4]:
            cs = visits(alt)
            back = dict((v, restrip(t)) for v, t in alt[3])
            for k, name in enumerate(('discovery', 'finishing')):
                if run[k] is None or run[k][2] not in back:
                    continue
                b = back[run[k][2]]
                if cs:
                    if b == run[k] or b[0] == 'i' and b[1][:3] == ('r', 'rec', 'dfs') and b[2] == C(1 - k) or known(b, [D, F] + list(ini)):
                        res.find('count', cs[-1][1], name + ' result', 'dfs does not go on with the %s count its visit returned' % name)
                elif b != run[k] and known(b, [D, F] + list(ini)) and not alt[4]:
                    res.find('count', loop[1], name + ' passed over', 'dfs changes the %s count at a neighbour it does not visit' % name)
        # the node itself
        for key, want, late, name in (('disc_time', D1, False, 'discovery'), ('finish_time', run[1], True, 'finishing'), ('component', COMP, False, 'component')):
            ss = [(i, e, attr_set(e)[2]) for i, e in enumerate(raw) if attr_set(e) and attr_set(e)[0] == ROOT and attr_set(e)[1] == C(key)]
            if not ss:
                if not any(e[0] == 'call' and e[3] not in ('display', 'set_display_mode', 'dfs') or e[0] == 'set' and attr_set(e) is None and
                           e[2][0] != 'i' and e[2] != ('s', 'pred') for e in raw[:-1]):
                    res.count('nodes_without')
                continue
            i, e, v = ss[-1]
            if (i > at[0]) != late and not (key == 'finish_time' and any(j > at[0] for j, _, _ in ss)):
                res.find('when', e[1], key, 'dfs sets the %s of a node %s its neighbours are visited' % (key, 'before' if late else 'after'))
            elif want is not None:
                if key == 'component':
                    if v != want and v[0] in ('s', 'c', 'lin', 'el'):
                        res.find('value', e[1], key, 'dfs labels a node with the component %s' % norm(v))
                elif known(v, [D, F] + list(ini)) and not same(v, want):
                    res.find('value', e[1], key, 'dfs gives a node the %s time %s instead of %s' % (name, norm(v), norm(want)))
        if st.facts.get(('none', ORDER)) is not True:
            ms = [(i, e) for i, e in enumerate(raw) if e[0] == 'mut' and restrip(e[2]) == ORDER]
            others = [e for e in raw if e[0] in ('set', 'del') and restrip(e[2]) == ORDER or
                      e[0] == 'call' and any(restrip(x) == ORDER for x in e[4] if isinstance(x, tuple))]
            inner = [e for alt in loop[4] for e in alt[0] if e[0] in ('mut', 'set', 'del') and restrip(e[2]) == ORDER]
            for alt in loop[4]:
                for j, e in enumerate(alt[0]):
                    if e[0] == 'mut' and restrip(e[2]) == ORDER and e[3] in ('insert', 'append') and any(restrip(x) == ROOT for x in e[4]) and \
                            any(x in visits(alt) for x in alt[0][j:]):
                        res.find('order', e[1], 'early', 'dfs puts a node in the order before its neighbours')
            if not ms and not others and not inner:
                res.find('order', site0, 'missing', 'dfs can finish a node without putting it in the order')
            elif len(ms) == 1 and not others and not inner:
                i, e = ms[0]
                args = [restrip(x) for x in e[4]] if len(e) > 4 else []
                if e[3] == 'append':
                    res.find('order', e[1], 'append', 'dfs puts a finished node last in the order')
                elif e[3] == 'insert' and len(args) == 2:
                    if args[0][0] == 'c' and args[0] != C(0):
                        res.find('order', e[1], 'place', 'dfs puts a finished node at place %s of the order' % norm(args[0]))
                    if args[1] != ROOT and args[1][0] in ('s', 'c', 'el', 'phi'):
                        res.find('order', e[1], 'node', 'dfs puts %s in the order' % norm(args[1]))
                    if i < at[0]:
                        res.find('order', e[1], 'early', 'dfs puts a node in the order before its neighbours')
            elif len(ms) > 1 and all(e[3] in ('insert', 'append') for i, e in ms):
                res.find('order', ms[1][1][1], 'twice', 'dfs puts a node in the order twice')
        v = restrip(o[1])
        if v[0] == 't' and len(v) == 3:
            for k, name in enumerate(('discovery', 'finishing')):
                if run[k] is None:
                    continue
                want = run[k] if k == 0 else lin_add(run[k], C(1))
                if known(v[1 + k], [D, F] + list(ini)) and not same(v[1 + k], want):
                    res.find('returned', site0, name, 'dfs returns the %s count %s instead of %s' % (name, norm(v[1 + k]), norm(want)))
        elif v == NONE:
            res.find('returned', site0, 'none', 'dfs returns no counts')


def jobs(prog, tier):
    for g in ('graph', 'digraph'):
        for t in (False, True):
            yield 'dfs/%s/%s' % (g, t), dfs, (g, t)
