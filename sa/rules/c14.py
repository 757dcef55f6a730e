"""C14: zero and empty values are never mistaken for missing ones."""
import ast
from .base import *

ID = 'C14'
TECHNIQUE = 'nullable-value analysis of every truth test (abstract interpretation with value kinds)'
RULE = ('no value that may be missing (None) and may also legitimately be zero, empty or false - an attribute read with '
        'a default, a component number, a distance, a priority, a label, an expression result - is tested for truth; '
        'it has to be compared with None or looked up with "in"')
EXPLANATION = ('Every truth test (if, while, and, or, not, conditional expression, bool()) reached from a public '
               'operation is classified by the kind of the tested value. Kinds come from the attribute tables of the '
               'package and from what functions return; values that are always numbers are not reported, because for '
               'them a truth test and a comparison with zero are the same thing.')
MINIMUM = {'truth_tests': 60}
OPTS = ('value', 'num')


def neutral_or(it, t):
    """x or 0 (or '' ...): replacing a falsy value by the falsy value of its own type changes nothing"""
    return False


def run(prog, res, cls, meth, gtype):
    def hook(it, st, ev):
        k = ev[0]
        if k == 'truth':
            res.count('truth_tests')
            t, kind = ev[2], ev[3]
            k1, opt = kd(kind)
            bad = (opt and k1 in OPTS) or k1 == 'value' or (k1 == 'num' and maybe_missing(it, st, t))
            if not bad and t[0] == 'r' and t[1] == 'rec':
                bad = EVAL_FUNCS & {t[2]} != set()
            if not bad and t[0] == 'r' and t[1] == 'ext' and t[2] == 'get_priority':
                bad = True
            if t[0] == 'i' and t[2] == C('display'):
                bad = False     # the display mode: a non-empty text
            if bad:
                res.find('truth', ev[1], norm(t), 'the value %s may be zero or empty, yet it is tested for truth, '
                         'which treats it as missing' % norm(t))
        elif k == 'equal':
            res.count('equality_tests')
            a, b, ka, kb = ev[2:6]
            for x, y, kx in ((a, b, ka), (b, a, kb)):
                k1, opt = kd(kx)
                if opt and k1 in ('num', 'value') and y[0] == 'c' and not y[2] and y[1] in ('int', 'bool', 'float') \
                        and st.facts.get(('none', x)) is not False and _first_component(x):
                    res.find('zero-as-missing', ev[1], norm(x),
                             'the value %s, which is None when missing, is compared with %s' % (norm(x), norm(y)))
    each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking())


def _first_component(x):
    """values for which None, never zero, is the documented mark of 'not there yet'"""
    return x[0] == 'i' and x[2][0] == 'c' and x[2][2] in ('component', 'index', 'disc_time', 'finish_time', 'distance',
                                                          'priority')


EVAL_FUNCS = {'postordereval'}


def maybe_missing(it, st, t):
    """a number read with a lookup that answers None (or a default) when there is none"""
    if t[0] == 'i' and t[2][0] == 'c':
        b = kd(it.kind(t[1], st))[0]
        if b in ('nattr', 'eattr') and t[2][2] in ('capacity', 'demand', 'excess', 'flow', 'cost', 'depth', 'level',
                                                   'lowlink', 'potential'):
            return it.none_state(st, t) is None
    return False


KEYS = {'capacity', 'demand', 'cost', 'component', 'distance', 'priority', 'index', 'disc_time', 'finish_time', 'weight', 'length'}
READS = {'get_edge_cost', 'get_edge_attr', 'get_node_attr', 'get_attr'}


def lint(prog, res):
    """lookups that answer None when there is nothing, written directly in a truth test; in a lambda attribute reads as well"""
    for m in prog.modules.values():
        inside = {id(x) for l in ast.walk(m.tree) if isinstance(l, ast.Lambda) for x in ast.walk(l)}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                ts = [n.test]
            elif isinstance(n, ast.BoolOp):
                ts = n.values[:-1]
                if isinstance(n.op, ast.Or) and len(n.values) == 2 and isinstance(n.values[1], ast.Constant) and not n.values[1].value:
                    continue            # x or 0
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                ts = [n.operand]
            elif isinstance(n, ast.comprehension):
                ts = n.ifs
            else:
                continue
            for t in ts:
                if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute)):
                    continue
                a = t.func.attr
                key = [x.value for x in t.args[-1:] if isinstance(x, ast.Constant)]
                if a == 'get' and len(t.args) == 1 and key and key[0] in KEYS or \
                        id(t) in inside and a in READS and (a == 'get_edge_cost' or key and key[0] in KEYS):
                    res.count('truth_tests')
                    res.find('truth', (m.path, t.lineno, ''), ast.unparse(t), 'the value %s may be zero or empty, yet it is tested for truth, '
                             'which treats it as missing' % ast.unparse(t))


def jobs(prog, tier):
    yield 'direct lookups', lint, ()
    for c, m, g in EN.entries():
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
