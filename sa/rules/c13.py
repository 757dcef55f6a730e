"""C13: node names are opaque: compared by equality only."""
import ast
from .base import *

ID = 'C13'
TECHNIQUE = 'kind inference for every term, operations on name kinds classified (abstract interpretation)'
RULE = ('no value that is a node name (or an edge) is compared by identity or by order, sorted or minimised over, tested '
        'for truth, converted to a number, used in arithmetic, classified by type, compared with a fixed constant, '
        'or compared through its text')
EXPLANATION = ('Kinds (node name, edge, number, ...) are inferred for every term from the tables it comes from; each '
               'comparison, truth test, sort, minimum, conversion and type test reached from a public operation is '
               'checked for operands of kind name or edge.')
MINIMUM = {'comparisons': 200}
NAMES = ('name', 'edge')
EXEMPT_INT = {'postordereval', 'printexp'}      # expression trees: a leaf's name is its value, by documentation


def own_class(c):
    """a node object may be given instead of a name where that is documented"""
    return all(x[0] == 'cls' for x in (c[1:] if c[0] == 't' else (c,)))


def isname(k):
    k, _ = kd(k)
    return k in NAMES


def text_of_name(it, t, st):
    return t[0] == 'pf' and t[1] in ('str', 'repr') and len(t) > 2 and isname(it.kind(t[2], st))


def tuple_names(it, st, t):
    """a tuple that contains a name, other than as a hash key"""
    return t[0] == 't' and it.kind(t, st) != 'edge' and any(isname(it.kind(x, st)) for x in t[1:])


def run(prog, res, cls, meth, gtype, selfcls=None):
    def say(rule, ev, c, msg):
        res.find(rule, ev[1], c, msg)

    def hook(it, st, ev):
        k = ev[0]
        if k in ('ident', 'equal', 'order'):
            res.count('comparisons')
            a, b, ka, kb = ev[2:6]
            if k == 'ident' and (isname(ka) or isname(kb)):
                say('identity', ev, '%s is %s' % (norm(a), norm(b)),
                    'node names are compared by object identity: %s is %s' % (norm(a), norm(b)))
            elif k == 'order':
                if isname(ka) or isname(kb) or tuple_names(it, st, a) or tuple_names(it, st, b):
                    say('order', ev, '%s < %s' % (norm(a), norm(b)),
                        'node names are compared by order: %s with %s' % (norm(a), norm(b)))
            elif k == 'equal':
                if text_of_name(it, a, st) or text_of_name(it, b, st):
                    say('text', ev, '%s == %s' % (norm(a), norm(b)),
                        'node names are compared through their text: %s with %s' % (norm(a), norm(b)))
                for x, y, kx in ((a, b, ka), (b, a, kb)):
                    if isname(kx) and y[0] == 'c' and y != NONE:
                        if not literal_operand(it):
                            continue
                        say('constant', ev, '%s == %s' % (norm(x), norm(y)),
                            'a node name is compared with the constant %s' % norm(y))
        elif k == 'truth':
            res.count('truth_tests')
            if isname(ev[3]):
                say('truth', ev, norm(ev[2]), 'a node name is tested for truth: %s' % norm(ev[2]))
        elif k == 'sort':
            res.count('sorts')
            if ev[3] == NONE:
                bad = isname(ev[4])
                if not bad:
                    try:
                        for s in it.keysegs(st, ev[2]):
                            if s[0] == 'e' and tuple_names(it, st, s[1]):
                                bad = True
                            elif s[0] == 'rep':
                                bad = bad or any(g[0] == 'e' and tuple_names(it, st, g[1])
                                                 for sg, _, _ in s[3] for g in sg)
                    except Exception:
                        pass
                if bad:
                    say('order', ev, 'sort %s' % norm(ev[2]), 'node names are put in order (sorted or minimised over)')
        elif k == 'bcall' and ev[2] in ('int', 'float', 'ord', 'hash', 'id', 'round', 'abs'):
            if any(isname(x) for x in ev[4]) and not (set(stack_funcs(st)) & EXEMPT_INT):
                say('number', ev, '%s(%s)' % (ev[2], norm(ev[3][0])), 'a node name is converted by %s()' % ev[2])
        elif k == 'inst':
            if isname(it.kind(ev[2], st)) and st.facts.get(('in', ev[2], ('f', SELF, 'nodes'), 0)) is None and \
                    not (set(stack_funcs(st)) & EXEMPT_INT) and not own_class(ev[3]):
                say('type', ev, 'isinstance %s' % norm(ev[2]),
                    'the type of a node name decides what is done: isinstance(%s, ...)' % norm(ev[2]))
        elif k == 'arith':
            say('number', ev, 'arith %s' % norm(ev[2]), 'a node name is used in arithmetic: %s' % norm(ev[2]))
        elif k in ('set', 'member'):
            t = ev[3] if k == 'set' else ev[2]
            b = ev[2] if k == 'set' else ev[3]
            if text_of_name(it, t, st) and root(b)[0] in ('s', 'o') and kd(it.kind(b, st))[0] in \
                    ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nbrs', 'namelist', 'nodelist', 'edgelist'):
                say('text', ev, 'key %s' % norm(t), 'a node is looked up by the text of its name')
    each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking())


def literal_operand(it):
    """is an operand of the comparison being evaluated a literal in the source?"""
    n = it.curnode
    return isinstance(n, ast.Compare) and any(
        isinstance(x, ast.Constant) and x.value is not None for x in [n.left] + n.comparators)


def jobs(prog, tier):
    for c, m, g in EN.entries():
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
