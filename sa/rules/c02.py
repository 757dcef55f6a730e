"""C02: a rejected change leaves the graph untouched."""
from .base import *

ID = 'C02'
TECHNIQUE = 'write-before-raise effect analysis over all paths (abstract interpretation)'
RULE = ('on every path of an adding or deleting operation that ends in an exception, no field, item or container of an '
        'object that existed before the call has been stored, deleted or changed in place')
EXPLANATION = ('Each mutator is interpreted abstractly from an arbitrary graph, package calls followed, once without and '
               'once with each documented reason for refusal assumed (node exists, node or parent missing, edge exists '
               'in either orientation, edge missing, slot occupied). For every outcome that is an exception (raised '
               'explicitly, or under an assumed reason also a missing key or an attribute of None) the writes on the path '
               'leading to it are listed and classified by the object they change.')
MINIMUM = {'refusing_paths': 5}
OPS = {'Graph': ['add_node', 'del_node', 'add_edge', 'del_edge', 'create_cluster'],
       'DisjointSet': ['add_node', 'del_node', 'add_edge', 'del_edge'],
       'Tree': ['add_root', 'add_child', 'add_node', 'del_node'],
       'BinaryTree': ['add_root', 'add_child', 'add_right_child', 'add_left_child', 'del_node']}
N = ('f', SELF, 'nodes')
E = ('f', SELF, 'edge_attr')


def isin(p, cont, val=True):
    return ('in', p, cont, 0), val


def P(x):
    return ('s', x)


def slot(parent, name):
    at = ('f', ('i', N, P(parent)), 'attr')
    return [(('in', C(name), at, 0), True), (('none', ('i', at, C(name))), False)]


E0, E1 = ('i', P('e'), C(0)), ('i', P('e'), C(1))
REV = ('t', E1, E0)
MISSING = [isin(P('e'), E, False), isin(REV, E, False)]
# why the call is refused: what is known of the graph before it
SCEN = {
    'add_node': [('the node exists', [isin(P('name'), N)])],
    'del_node': [('the node is missing', [isin(P('name'), N, False), isin(P('n'), N, False)])],
    'add_root': [('the node exists', [isin(P('root'), N)])],
    'add_edge': [('the edge exists', [isin(('t', P('name1'), P('name2')), E), isin(P('name1'), N), isin(P('name2'), N)])],
    'add_edge/graph': [('the reversed edge exists', [isin(('t', P('name2'), P('name1')), E), isin(P('name1'), N),
                                                    isin(P('name2'), N)])],
    'del_edge': [('the edge is missing', MISSING + [isin(E0, N), isin(E1, N)]),
                 ('the source is missing', MISSING + [isin(E0, N, False), isin(E1, N)]),
                 ('the sink is missing', MISSING + [isin(E0, N), isin(E1, N, False)])],
    'add_child': [('the parent is missing', [isin(P('parent'), N, False), isin(P('n'), N, False)]),
                  ('the node exists', [isin(P('parent'), N), isin(P('n'), N)])],
    'add_right_child': [('the slot is occupied', [isin(P('parent'), N), isin(P('n'), N, False)] + slot('parent', 'Rchild'))],
    'add_left_child': [('the slot is occupied', [isin(P('parent'), N), isin(P('n'), N, False)] + slot('parent', 'Lchild'))],
}
for _m in ('add_right_child', 'add_left_child'):
    SCEN[_m] += SCEN['add_child']


def writes(events):
    for e in walk(events):
        if e[0] in ('setf', 'set', 'del', 'mut'):
            base, key = e[2], e[3]
        elif e[0] == 'ecall' and e[3] in MUTATORS:
            base, key = e[2], e[3]
        else:
            continue
        if root(base)[0] not in ('s', 'g'):
            continue
        # a keyword dictionary belongs to the call
        if root(base) in (('s', 'attr'), ('s', 'attrs')):
            continue
        yield e, base, key


def listed(k):
    """an arc made of a node and of an element of its neighbour list: (key, True) when its direction is that of the list"""
    if not (isinstance(k, tuple) and k[0] == 't' and len(k) == 3):
        return None
    for a, b, table in ((k[1], k[2], 'neighbors'), (k[2], k[1], 'in_neighbors')):
        if b[0] == 'el' and b[2][0] == 'elems':
            src = b[2][1]
            if src[0] == 'i' and src[1] == ('f', SELF, table) and src[2] == a:
                return True
    return None


def impossible(st, gtype):
    """the lists of neighbours and the arc table agree (C01): a listed arc is not missing"""
    gone = [k[1] for k, v in st.facts.items() if k[0] == 'in' and v is False and k[2] == ('f', SELF, 'edge_attr')]
    for k in gone:
        if isinstance(k, tuple) and k[0] == 't' and len(k) == 3:
            r = ('t', k[2], k[1])
            if gtype == 'digraph' and listed(k) or gtype != 'digraph' and r in gone and (listed(k) or listed(r)):
                return True
    return False


def run(prog, res, cls, meth, gtype, why, facts):
    def keep(ev):
        return ev[0] in ('setf', 'set', 'del', 'mut', 'raise', 'ecall', 'fault', 'nonederef')

    def setup(it, st):
        st.facts = dict(st.facts)
        for k, v in facts:
            st.facts[k] = v
    r = explore(prog, cls, meth, gtype, res=res, keep=keep, sink=False,
                tracked=tracking('nattr.Rchild', 'nattr.Lchild', 'nattr.parent', 'nattr.level'),
                implicit=why is not None, extra_setup=setup)
    if r is None:
        raise AnalysisBroken('%s.%s' % (cls, meth))
    it, outs = r
    for st, o in outs:
        if o[0] != 'raise':
            if why is not None:
                res.count('accepting_paths')
                res.note('%s is not refused although %s' % (meth, why))
            continue
        if impossible(st, gtype):
            res.count('impossible_paths')
            continue
        res.count('refusing_paths')
        for e, base, key in writes(st.events()):
            res.find('write-before-raise', e[1], '%s %s %s' % (e[0], norm(base), norm(key)),
                     '%s changes %s and is then refused%s with %s'
                     % (meth, norm(base), ' (%s)' % why if why else '', norm(o[1])))


def jobs(prog, tier):
    for c in OPS:
        for m in OPS[c]:
            for g in EN.gtypes(c, m):
                yield '%s.%s/%s' % (c, m, g), run, (c, m, g, None, ())
                for why, facts in SCEN.get(m, []) + SCEN.get('%s/%s' % (m, g), []):
                    yield '%s.%s/%s when %s' % (c, m, g, why), run, (c, m, g, why, facts)
