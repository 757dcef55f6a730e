"""C08: graphs, elements and calls share no hidden state."""
import ast
from .base import *

ID = 'C08'
TECHNIQUE = 'ownership and aliasing analysis of every stored container (abstract interpretation with object origins)'
RULE = ('(a) no default argument, module-level or class-level container is changed, stored in an element or returned; '
        '(b) no container passed by the caller is changed (except documented in/out arguments) or stored uncopied; '
        '(c) the container stored as the attributes, neighbours or node record of an element is fresh: not the one of '
        'another element, and not stored for a second element')
EXPLANATION = ('Every public operation is interpreted abstractly, with its optional mutable arguments both given and '
               'omitted. Each write, mutating call and container store is classified by the origin of the object '
               'changed or stored: fresh in this call, default/module/class object, caller argument, or part of a '
               'graph.')
MINIMUM = {'stores_seen': 200}
# documented in/out arguments: containers and work lists the caller hands over to be filled
INOUT = {'q', 'pred', 'topological_order', 'component', 'components', 't', 'solution_g', 'self', 'G', 'cycle', 'file_obj',
         'attr', 'attrs'}
CALLER = {'namelist', 'attrs', 'edgelist', 'list', 'dict', 'preddict', 'cycle'}
ELEMENT = {'nattr', 'eattr', 'cattr', 'cnattr', 'gattr', 'nbrs', 'clus', 'Node', 'nodelist'}
LISTK = {'list', 'dict', 'set'}


def inner(it, st, v, depth=0):
    """the value, and what a fresh container around it holds"""
    yield v
    if v[0] == 'o' and depth < 3:
        ob = st.objs.get(v[1])
        if ob is not None and ob.kind in LISTK:
            for s in ob.items:
                if s[0] == 'e':
                    yield from inner(it, st, s[1], depth + 1)
                elif s[0] == 'kv':
                    yield from inner(it, st, s[2], depth + 1)


def gname(g):
    return {'default': 'the default value of parameter %s of %s' % (g[-1], g[2] if len(g) > 3 else ''),
            'module': 'the module-level object %s' % g[-1],
            'class': 'the class attribute %s.%s' % (g[2] if len(g) > 3 else '', g[-1])}.get(g[1], 'a shared object')


def mutable_g(it, g):
    k = it.gkind.get(g, 'any')
    return k in ('dict', 'list', 'set') or (isinstance(k, str) and k.startswith('ext:')) or k == 'any'


def run(prog, res, cls, meth, gtype, omit):
    owner = {}

    def changed(it, st, ev, base, what):
        r = root(base)
        if r[0] == 'g':
            res.find('shared-changed', ev[1], '%s %s' % ('.'.join(str(x) for x in r[1:]), what),
                     '%s changes %s' % (meth, gname(r)))
        elif r[0] == 's' and r[1] not in INOUT and kd(it.kind(r, st))[0] in CALLER:
            res.find('argument-changed', ev[1], '%s %s' % (r[1], what),
                     '%s changes the %s passed by the caller as %s' % (meth, 'container', r[1]))

    def stored(it, st, ev, base, slot, v):
        if root(base)[0] == 'o' and root(base) == base:
            # a local container: what it holds matters only when it is stored itself
            k = kd(it.kind(base, st))[0]
            if k not in ('Graph', 'Node'):
                return
        res.count('stores_seen')
        for x in inner(it, st, v):
            k = kd(it.kind(x, st))[0]
            if x[0] == 'g' and it.gkind.get(x) in LISTK:
                res.find('shared-stored', ev[1], '%s into %s' % ('.'.join(str(y) for y in x[1:]), slot),
                         '%s stores %s itself (not a copy) in %s' % (meth, gname(x), norm(base)))
            elif x[0] == 's' and x[1] != 'self' and k in CALLER and x[1] not in ('pred',):
                res.find('argument-stored', ev[1], '%s into %s' % (x[1], slot),
                         '%s stores the container passed as %s itself (not a copy) in %s' % (meth, x[1], norm(base)))
            elif x[0] in ('f', 'i', 'el') and root(x)[0] == 's' and k in ELEMENT and \
                    not (ev[0] == 'setf' and ev[3] == 'out_neighbors'):
                loc = ('i', base, ev[3]) if ev[0] == 'set' else ('f', base, ev[3])
                if x != loc and x[:3] != loc:
                    res.find('element-shared', ev[1], '%s into %s' % (k, slot),
                             '%s stores the container of one element (%s) as that of another (%s)'
                             % (meth, norm(x), norm(loc)))
        if v[0] == 'o':
            k = it.kind(v, st)
            ob = st.objs.get(v[1])
            if ob is not None and (ob.kind in LISTK or k == 'Node'):
                loc = ('i', base, ev[3]) if ev[0] == 'set' else ('f', base, ev[3])
                if ev[0] == 'setf' and (ev[3] == 'out_neighbors' or k == 'Node'):
                    return      # the adjacency table under its second name; a reference to a node
                # the same object reachable from two places at once?
                for l, w in st.store.items():
                    if w == v and l != loc and root(l[1])[0] == 's' and not (l[0] == 'f' and l[2] == 'out_neighbors'):
                        res.find('element-shared', ev[1], 'twice into %s' % slot,
                                 '%s stores one object in two places: %s and %s' % (meth, norm(l), norm(loc)))
                # stored for each element of a loop, but created once before it
                for lid, info in it.loops_seen.items():
                    pass
                if root(base)[0] in ('s', 'o') and v[1] in _preloop(it, st) and _varies(it, st, loc):
                    res.find('element-shared', ev[1], 'loop into %s' % slot,
                             '%s stores one and the same object for every element of a loop in %s' % (meth, norm(loc)))

    def hook(it, st, ev):
        k = ev[0]
        if k in ('set', 'del', 'mut', 'setf'):
            changed(it, st, ev, ev[2], k)
            if k == 'set':
                stored(it, st, ev, ev[2], kd(it.kind(ev[2], st))[0], ev[4])
            elif k == 'setf':
                if ev[4] != ('deleted',):
                    stored(it, st, ev, ev[2], ev[3], ev[4])
            elif k == 'mut' and ev[3] in ('append', 'add', 'insert', 'update', 'extend', 'setdefault') and ev[4]:
                if root(ev[2])[0] == 's':
                    stored(it, st, ('mut', ev[1], ev[2], ev[3]), ev[2], kd(it.kind(ev[2], st))[0], ev[4][-1]) \
                        if ev[3] in ('append', 'add', 'insert', 'setdefault') else None
        elif k == 'ecall':
            if ev[2][0] == 'g' and ev[2][1] in ('default', 'class') and ev[3] not in PURE:
                changed(it, st, ev, ev[2], ev[3])
            elif ev[2][0] == 'g' and ev[2][1] == 'module' and ev[3] in MUTATORS:
                changed(it, st, ev, ev[2], ev[3])
            elif ev[3] in MUTATORS and ev[2][0] == 's':
                changed(it, st, ev, ev[2], ev[3])
        elif k == 'gset':
            res.find('shared-changed', ev[1], 'global ' + ev[2], '%s rebinds the module variable %s' % (meth, ev[2]))

    it, outs = each_entry(res, prog, cls, meth, gtype, hook, tracked=tracking(), omit=omit)
    for st, o in outs:
        if o[0] == 'return':
            for x in inner(it, st, o[1]):
                if x[0] == 'g' and (it.gkind.get(x) in LISTK or x[1] in ('default', 'class')) and mutable_g(it, x):
                    fm = prog.cls(cls).lookup(meth)
                    res.find('shared-returned', (fm.module.path.rsplit('/', 1)[-1], fm.node.lineno, fm.qual),
                             '.'.join(str(y) for y in x[1:]), '%s hands out %s itself' % (meth, gname(x)))


PURE = {'isEmpty', 'peek', 'get_priority', 'size', 'get', 'keys', 'values', 'items', 'copy', 'index', 'count', 'match',
        'search', 'sub', 'fullmatch'}


def _preloop(it, st):
    """ids of objects that existed at the head of the innermost running loop"""
    return it.loop_heads[-1] if it.loop_heads else ()


def _varies(it, st, loc):
    return it.loop_lids and any(x[0] in ('el', 'phi') and x[1] == it.loop_lids[-1] for x in subterms(loc))


def mutable_defaults(fm):
    a = fm.node.args
    pos = a.posonlyargs + a.args
    out = []
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
            [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        try:
            ast.literal_eval(d)
            const = not isinstance(d, (ast.Dict, ast.List, ast.Set))
        except Exception:
            const = False
        if not const:
            out.append(p.arg)
    return tuple(out)


def jobs(prog, tier):
    for c, m, g in EN.entries():
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g, ())
        fm = prog.cls(c).lookup(m) if c in prog.classes else None
        if fm is not None:
            d = mutable_defaults(fm)
            if d:
                yield '%s.%s/%s defaults' % (c, m, g), run, (c, m, g, d)
