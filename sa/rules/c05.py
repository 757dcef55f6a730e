"""C05: algorithms never alter costs, capacities or demands."""
from .base import *

ID = 'C05'
TECHNIQUE = 'write-effect analysis of problem-data attributes over the call graph (abstract interpretation)'
DATA = {'eattr': ('cost', 'capacity'), 'nattr': ('demand',)}
# the operations whose very purpose is to set attributes, or to build the graph
SETTERS = {'__init__', 'set_node_attr', 'set_edge_attr', 'set_attr', 'add_node', 'add_edge', 'del_node', 'del_edge',
           'create_cluster', 'random', 'add', 'add_root', 'add_child', 'add_left_child', 'add_right_child', 'union'}
RULE = ('no store, deletion or bulk update of cost, capacity (edges) or demand (nodes) of the analysed graph is '
        'reachable from any algorithm; a capacity may be stored where it is known to be absent, inside a '
        'maximum-flow method')
EXPLANATION = ('Every algorithm entry point is interpreted abstractly from an arbitrary graph, calls into the package '
               'are followed, and every write to an attribute dictionary of the graph is checked against the rule. '
               'Writes to graphs built by the algorithm itself are exempt.')
MINIMUM = {'attribute_writes': 30}


def run(prog, res, cls, meth, gtype):
    def hook(it, st, ev):
        k = ev[0]
        if k not in ('set', 'del', 'mut'):
            return
        base, key = ev[2], ev[3]
        bk, _ = kd(it.kind(base, st))
        if bk not in DATA or root(base) != SELF:
            return
        res.count('attribute_writes')
        if k == 'mut':
            if key in ('update', 'clear', 'popitem', 'pop', 'setdefault'):
                names = _keys(it, st, key, ev[4])
                for n in DATA[bk]:
                    if names is None and key == 'update' and bk == 'eattr':
                        continue    # contents unknown
                    if key in ('clear',) or (names is not None and n in names):
                        if key == 'setdefault' and n == 'capacity' and _maxflow(st):
                            continue
                        res.find('data-write', ev[1], '%s %s' % (key, n),
                                 '%s() changes %r of %s of the graph' % (key, n, 'an edge' if bk == 'eattr' else 'a node'))
            return
        if key[0] != 'c' or key[2] not in DATA[bk]:
            return
        if k == 'set':
            cur = current(it, st, base, key)
            if ev[4] == cur:
                return
            if key[2] == 'capacity' and _maxflow(st):
                if it.known_in(st, key, base) is False or st.facts.get(('none', cur)) is True:
                    res.sample('capacity given where absent at %s:%s' % ev[1][:2])
                    return
        res.find('data-write', ev[1], '%s %s' % (k, key[2]),
                 '%r of %s of the graph is %s by %s' % (key[2], 'an edge' if bk == 'eattr' else 'a node',
                                                       'overwritten' if k == 'set' else 'deleted', meth))
    each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking('eattr.capacity'))


def _maxflow(st):
    return any(f.startswith('max_flow') for f in stack_funcs(st))


def _keys(it, st, name, args):
    if name in ('pop', 'setdefault'):
        return {args[0][2]} if args and args[0][0] == 'c' else set()
    out = set()
    for a in args:
        ob = st.objs.get(a[1]) if a[0] == 'o' else None
        if ob is None:
            return None
        for s in ob.items:
            if s[0] == 'kv' and s[1][0] == 'c':
                out.add(s[1][2])
    return out


def jobs(prog, tier):
    for c, m, g in EN.entries(['Graph', 'Tree', 'BinaryTree'], SETTERS):
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g)
