"""C19: unknown options are rejected explicitly."""
from .base import *

ID = 'C19'
TECHNIQUE = 'constant propagation of undocumented option values through every path (abstract interpretation)'
RULE = ('with an option bound to a value that is not documented, every path on which the option is consulted ends in an '
        'explicit raise, or prints a message and returns nothing without having done any of the work; with each documented '
        'value some path is not a rejection')
EXPLANATION = ('Each operation with an option is interpreted abstractly from an arbitrary graph with the option bound to '
               'undocumented constants: an unrelated text, a documented choice in other capitals, a part of one, the empty '
               'text, None and a number, so that membership, substring and prefix tests, dictionary look-ups and missing '
               'final branches all show. Each path must end in a rejection; missing keys, unassigned names and attributes '
               'of None on the way are internal errors.')
MINIMUM = {'paths_checked': 20, 'rejections': 15}
NOTE = ('an option counts as consulted where it decides something: network simplex looks at the pivot rule when it chooses an '
        'entering arc, random at the node selection rule when it chooses neighbours')

# method, option, documented choices, classification of the work a rejected call must not have done
CASES = [('search', 'algo', ('DFS', 'BFS', 'UnweightedSPT', 'Dijkstra', 'Prim'), 'attrs'),
         ('max_flow', 'algo', ('DFS', 'BFS'), 'attrs'),
         ('max_flow_preflowpush', 'algo', ('FIFO', 'SAP', 'HighestLabel'), 'attrs'),
         ('min_cost_flow', 'algo', ('simplex', 'cycle_canceling'), 'calls'),
         ('simplex_select_entering_arc', 'pivot', ('dantzig', 'first_eligible'), 'attrs'),
         ('random', 'node_selection', ('random', 'closest'), 'edges')]
SOLVERS = ('network_simplex', 'cycle_canceling')


def bad_values(choices):
    out = [C('no such choice'), C(''), NONE, C(7)]
    for c in choices:
        for v in (c.lower(), c.upper(), c[:-1], c + c[-1]):
            if v not in choices and C(v) not in out:
                out.append(C(v))
    return out


def start(prog, res, meth, opt, value, hook=None):
    g = 'digraph'
    kw = {}
    terms = {}
    if meth == 'min_cost_flow':
        # the options come in through **args
        kw['kwterms'] = {opt: value}
        kw['omit'] = ('args',)
    else:
        terms[opt] = value
    if meth == 'random':
        terms.update({'numnodes': C(2), 'Euclidean': TRUE, 'density': NONE, 'edge_format': NONE, 'node_format': NONE})

        def setup(it, st):
            st.facts = dict(st.facts)
            st.facts[('none', ('s', 'degree_range'))] = False
        kw['extra_setup'] = setup
    if hook is not None:
        kw['hook'] = hook
    keep = ('set', 'mut', 'ecall', 'call', 'print', 'raise', 'caught')
    opq = {n: opaque_ret for n in SOLVERS if n != meth}
    r = explore(prog, 'Graph', meth, g, res=res, keep=lambda ev: ev[0] in keep, sink=False, terms=terms,
                tracked=tracking(), opaque=dict(composed(()), **opq), **kw)
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    return r


def did_work(ev, how):
    for e in ev:
        if how == 'calls' or e[0] == 'call':
            if e[0] == 'call' and e[3] in SOLVERS:
                return e
            if how == 'calls':
                continue
        if e[0] in ('set', 'mut'):
            if root(e[2])[0] not in ('s', 'g'):
                continue
            t = norm(e[2])
            if how == 'edges':
                if e[0] == 'set' and e[2] == ('f', SELF, 'edge_attr'):
                    return e
            elif how == 'attrs' and (e[0] == 'set' and e[2] != ('f', SELF, 'attr')):
                return e
    return None


def unknown(prog, res, meth, opt, value, how):
    it, outs = start(prog, res, meth, opt, value)
    fm = prog.method('Graph', meth)
    site0 = (fm.module.path, fm.node.lineno, fm.qual)
    for st, o in outs:
        ev = list(walk(st.events()))
        res.count('paths_checked')
        if o[0] == 'raise':
            exp = [e for e in ev if e[0] == 'raise']
            if exp:
                res.count('rejections')
            else:
                res.find('internal-error', site0, '%s of %s: %s' % (opt, meth, norm(o[1])), '%s with %s=%s, which is not a '
                         'documented choice, fails with %s' % (meth, opt, show(value), norm(o[1])))
            continue
        w = did_work(ev, how)
        pr = [e for e in ev if e[0] == 'print']
        if meth == 'simplex_select_entering_arc' or w is not None or not pr or o[1] != NONE:
            why = 'does the work of another choice (%s)' % norm(w[2]) if w is not None else \
                'returns without a message' if not pr else 'returns %s' % norm(o[1])
            res.find('unknown-accepted', w[1] if w is not None else site0, '%s of %s: %s' % (opt, meth, 'work' if w else 'silent'),
                     '%s with %s=%s, which is not a documented choice, %s' % (meth, opt, show(value), why))
        else:
            res.count('rejections')


def handed_on(prog, res, meth, value, callee):
    """the option reaches the operation that judges it as it is"""
    kw = {}
    if meth == 'min_cost_flow':
        kw['kwterms'] = {'pivot': value}
        kw['omit'] = ('args',)
    else:
        kw['terms'] = {'pivot': value}
    r = explore(prog, 'Graph', meth, 'digraph', res=res, keep=lambda ev: ev[0] in ('call', 'raise', 'print'), sink=False,
                tracked=tracking(), opaque=composed(TOP[meth]), **kw)
    if r is None:
        raise AnalysisBroken('Graph.' + meth)
    for st, o in r[1]:
        for e in walk(st.events()):
            if e[0] == 'call' and e[3] == callee:
                res.count('handed_on')
                if value not in e[4] and value not in [v for _, v in e[5]]:
                    res.find('option-replaced', e[1], callee, '%s with pivot=%s, which is not a documented choice, calls %s '
                             'with another value' % (meth, show(value), callee))


class Accepted(Exception):
    pass


def documented(prog, res, meth, opt, value, how):
    def hook(it, st, ev):
        if did_work((ev,), how) is not None:
            raise Accepted
    fm = prog.method('Graph', meth)
    res.count('choices')
    try:
        it, outs = start(prog, res, meth, opt, value, hook)
    except Accepted:
        return
    for st, o in outs:
        ev = list(walk(st.events()))
        if o[0] == 'return' and (o[1] != NONE or not any(e[0] == 'print' for e in ev)):
            return
    if outs:
        res.find('documented-refused', (fm.module.path, fm.node.lineno, fm.qual), '%s=%s' % (opt, show(value)),
                 '%s never accepts the documented choice %s=%s' % (meth, opt, show(value)))


def jobs(prog, tier):
    for m, opt, ch, how in CASES:
        for v in bad_values(ch):
            yield '%s(%s=%s)' % (m, opt, show(v)), unknown, (m, opt, v, how)
        for c in ch:
            yield '%s(%s=%s) documented' % (m, opt, c), documented, (m, opt, C(c), how)
    for m, callee in (('min_cost_flow', 'network_simplex'), ('network_simplex', 'simplex_select_entering_arc')):
        for v in bad_values(('dantzig', 'first_eligible')):
            yield '%s(pivot=%s)' % (m, show(v)), handed_on, (m, v, callee)
