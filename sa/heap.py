"""Heap part of the abstract interpreter: kinds of terms, loads and stores with versions,
membership and comparison facts."""
from .terms import *
from .state import *

# ---- the vocabulary of the code base ---------------------------------------------------
FIELD_KIND = {
    'nodes': 'nodes', 'edge_attr': 'edge_attr', 'neighbors': 'neighbors',
    'in_neighbors': 'in_neighbors', 'out_neighbors': 'neighbors', 'attr': 'gattr',
    'cluster': 'cluster', 'graph_type': 'str', 'name': 'str', 'sizes': 'sizes',
    'edge_connect_symbol': 'str', 'root': ('opt', 'Node'), 'num_components': 'num',
    'optimize': 'bool',
}
NODE_FIELD_KIND = {'name': 'name', 'attr': 'nattr'}
ITEM_KIND = {'nodes': 'Node', 'edge_attr': 'eattr', 'neighbors': 'nbrs', 'in_neighbors': 'nbrs',
             'nbrs': 'name', 'edge': 'name', 'cluster': 'clus', 'sizes': 'num'}
KEY_KIND = {'nodes': 'name', 'edge_attr': 'edge', 'neighbors': 'name', 'in_neighbors': 'name',
            'nattr': 'attrname', 'eattr': 'attrname', 'gattr': 'attrname', 'cluster': 'cname',
            'cattr': 'attrname', 'sizes': 'name', 'cnattr': 'attrname'}
NATTR = {'distance': ('opt', 'num'), 'excess': 'num', 'demand': 'num', 'potential': 'num', 'depth': 'num',
         'pred': ('opt', 'name'), 'thread': 'name', 'parent': ('opt', 'name'), 'Lchild': ('opt', 'name'),
         'Rchild': ('opt', 'name'), 'component': ('opt', 'value'), 'index': ('opt', 'num'),
         'lowlink': 'num', 'level': 'num', 'color': 'str', 'disc_time': ('opt', 'num'),
         'finish_time': ('opt', 'num'), 'priority': ('opt', 'num'), 'direction': 'str', 'locationx': 'num',
         'locationy': 'num', 'label': ('opt', 'value'), 'visited': ('opt', 'value')}
EATTR = {'cost': 'num', 'capacity': 'num', 'flow': 'num', 'color': 'str'}
CLUS = {'node_list': 'nodelist', 'attrs': 'cattr', 'node_attrs': 'cnattr'}
LIST_ELEM = {'nodelist': 'name', 'nbrs': 'name', 'namelist': 'name', 'cycle': 'name', 'edgelist': 'edge',
             'pathlist': 'name'}
CONTAINERS = {'nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nbrs', 'nattr', 'eattr', 'gattr', 'cluster',
              'clus', 'cattr', 'cnattr', 'nodelist', 'namelist', 'cycle', 'edgelist', 'sizes', 'list', 'dict',
              'set', 'preddict', 'pathlist', 'attrs', 'distdict', 'nextdict'}
DICTS = {'nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nattr', 'eattr', 'gattr', 'cluster', 'clus',
         'cattr', 'cnattr', 'sizes', 'dict', 'preddict', 'attrs', 'distdict', 'nextdict'}
STRUCT = {'nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'cluster'}
ATTRDICTS = {'nattr', 'eattr', 'gattr', 'cattr', 'cnattr', 'clus'}

ALL = frozenset((-1, 0, 1))
ZS = frozenset((0,))


INFINITE = ('pf', 'float', C('inf'))


class Heap:
    """mixed into Interp"""

    # ---- kinds -------------------------------------------------------------------------
    def kind(self, t, st=None):
        k = self._kind_cache.get(t)
        if k is None:
            k = self._kind(t, st)
            if t[0] not in ('phi', 'o', 'u', 'r'):
                self._kind_cache[t] = k
        return k

    def _kind(self, t, st):
        h = t[0]
        if h == 's':
            return self.skind.get(t[1], 'any')
        if h == 'c':
            return {'int': 'num', 'float': 'num', 'bool': 'bool', 'str': 'str', 'NoneType': 'none'}.get(t[1], 'any')
        if h == 'f':
            bk = self.kind(t[1], st)
            if bk == 'Graph':
                return FIELD_KIND.get(t[2], 'any')
            if bk == 'Node' or bk == ('opt', 'Node'):
                return NODE_FIELD_KIND.get(t[2], 'any')
            return 'any'
        if h == 'i':
            bk = self.kind(t[1], st)
            return self.item_kind(bk, t[2], t[1], st)
        if h == 'el':
            return self.src_elem_kind(t[2], st)
        if h == 'elk':
            return KEY_KIND.get(self.kind(t[2], st), 'any')
        if h == 'phi' or h == 'mu':
            return self.phi_kind.get((t[1], t[2]), 'any')
        if h == 'lin' or h == 'bin':
            return 'num'
        if h == 'cat' or h == 'srep':
            return 'str'
        if h == 'b':
            return 'bool'
        if h == 't':
            if len(t) == 3 and self.kind(t[1], st) == 'name' and self.kind(t[2], st) == 'name':
                return 'edge'
            return 'tuple'
        if h == 'o':
            ob = st.objs.get(t[1]) if st is not None else None
            k = ob.kind if ob is not None else self.okind.get(t[1], 'any')
            if k.startswith('inst:'):
                c = self.prog.classes.get(k[5:])
                if c is not None and c.is_subclass('Graph'):
                    return 'Graph'
                if c is not None and c.is_subclass('Node'):
                    return 'Node'
                return k
            return k
        if h == 'pf':
            return {'len': 'num', 'str': 'str', 'min': 'num', 'max': 'num', 'abs': 'num', 'int': 'num',
                    'round': 'num', 'repr': 'str', 'float': 'num', 'sum': 'num', 'join': 'str', 'quote': 'str',
                    'fmt': 'str', 'type': 'any'}.get(t[1], 'any')
        if h == 'r':
            return self.rkind.get(t, 'any')
        if h in ('m', 'fn', 'cls', 'ext', 'super', 'bi', 'partial'):
            return 'any' if maybe_data(t) else 'callable'
        if h == 'g':
            return self.gkind.get(t, 'any')
        return 'any'

    def item_kind(self, bk, key, base, st):
        if isinstance(bk, tuple) and bk[0] == 'opt':
            bk = bk[1]
        if isinstance(bk, tuple) and bk[0] == 'list':
            return bk[1]
        if isinstance(bk, tuple) and bk[0] == 'dict':
            return bk[2]
        if bk in ITEM_KIND:
            return ITEM_KIND[bk]
        if bk in LIST_ELEM:
            return LIST_ELEM[bk]
        ck = key[2] if key[0] == 'c' else None
        if bk == 'nattr':
            return NATTR.get(ck, 'value')
        if bk == 'eattr':
            return EATTR.get(ck, 'value')
        if bk == 'clus':
            return CLUS.get(ck, 'any')
        if bk in ('gattr', 'cattr', 'cnattr', 'attrs'):
            return 'value'
        if bk == 'preddict':
            return ('opt', 'name')
        if bk == 'distdict':
            return 'value'
        if bk == 'nextdict':
            return ('opt', 'name')
        if base[0] == 'o':
            return self.elem_kind_of_obj(base[1])
        if base[0] == 'i' and base[1][0] == 'o':
            return 'any'
        return 'any'

    def elem_kind_of_obj(self, oid):
        ks = self.oelem.get(oid)
        if not ks:
            return 'any'
        ks = set(ks)
        opt = False
        if 'none' in ks:
            ks.discard('none')
            opt = True
        for k in list(ks):
            if isinstance(k, tuple) and k[0] == 'opt':
                ks.discard(k)
                ks.add(k[1])
                opt = True
        if len(ks) == 1:
            k = ks.pop()
            return ('opt', k) if opt and k != 'any' else k
        return 'any'

    def note_elem(self, oid, v, st):
        k = self.kind(v, st)
        if k == 'any' and v[0] in ('phi', 'u'):
            return
        self.oelem.setdefault(oid, set()).add(k)

    def src_elem_kind(self, src, st):
        h = src[0]
        if h in ('keys',):
            k = self.kind(src[1], st)
            if isinstance(k, tuple) and k[0] == 'dict':
                return k[1]
            if k in KEY_KIND:
                return KEY_KIND[k]
            if src[1][0] == 'o':
                ks = self.okey.get(src[1][1])
                if ks and len(ks) == 1:
                    return next(iter(ks))
            return 'name' if k in ('preddict',) else 'any'
        if h == 'elems':
            k = self.kind(src[1], st)
            if k in LIST_ELEM:
                return LIST_ELEM[k]
            if k in KEY_KIND:
                return KEY_KIND[k]
            if isinstance(k, tuple) and k[0] == 'list':
                return k[1]
            if src[1][0] == 'o':
                return self.elem_kind_of_obj(src[1][1])
            return 'any'
        if h == 'range':
            return 'num'
        if h in ('sorted', 'rev', 'slice'):
            return self.src_elem_kind(src[1], st)
        if h == 'values':
            return self.item_kind(self.kind(src[1], st), ('u',), src[1], st)
        return 'any'

    # ---- signatures of locations ---------------------------------------------------------
    def shape(self, base):
        h = base[0]
        if h == 'f':
            a = base[2]
            return 'neighbors' if a == 'out_neighbors' else a
        if h == 'i':
            return ('sub', self.shape(base[1]))
        if h == 'o':
            return base
        if h == 'g':
            return base
        k = self.kind(base)
        if k in CONTAINERS:
            return k
        if h == 's':
            return base
        if h == 'phi':
            return self.shape_of_phi(base)
        return 'any'

    def shape_of_phi(self, base):
        return ('phi', base[1], base[2])

    def sig(self, base, keyt, st):
        k = self.kind(base, st)
        if isinstance(k, tuple) and k[0] == 'opt':
            k = k[1]
        if k in ATTRDICTS:
            return ('it', k, keyt[2] if keyt[0] == 'c' else '*')
        if k in ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'nbrs', 'cluster', 'sizes'):
            return ('it', k, '*')
        return ('it', self.shape(base), '*')

    def ver_of(self, st, sig):
        v = st.ver.get(sig, 0)
        if sig[0] == 'it':
            w = st.ver.get(('it', sig[1], None), 0)
            if w:
                return (v, w) if v else w
        return v

    def untracked(self, sig):
        """locations the current analysis does not follow (for instance colours)"""
        if self.cfg.tracked is not None:
            return sig not in self.cfg.tracked and not (sig[0] == 'it' and isinstance(sig[1], tuple))
        return sig in self.cfg.untracked

    # ---- distinctness --------------------------------------------------------------------
    def distinct(self, a, b, st):
        """definitely different values"""
        if a == b:
            return False
        if a[0] == 'c' and b[0] == 'c':
            return a[2] != b[2] or (a[1] != b[1] and (a[1] in ('str', 'NoneType') or b[1] in ('str', 'NoneType')))
        if a[0] == 't' and b[0] == 't':
            if len(a) != len(b):
                return True
            return any(self.distinct(x, y, st) for x, y in zip(a[1:], b[1:]))
        if a[0] == 'o' and b[0] == 'o':
            return a[1] != b[1]
        if a[0] == 'o' or b[0] == 'o':
            x = b if a[0] == 'o' else a
            return x[0] in ('f', 'i', 's', 'c', 'g') and not self.may_hold_fresh(x)
        if maybe_data(a) or maybe_data(b):
            return False
        if a[0] in ('t', 'fn', 'cls', 'm') and b[0] in ('c', 'fn', 'cls', 'o'):
            return True
        if b[0] in ('t', 'fn', 'cls', 'm') and a[0] in ('c', 'fn', 'cls', 'o'):
            return True
        s = st.signs.get(self.diff_key(a, b)[0])
        if s is not None and 0 not in s:
            return True
        ka, kb = self.kind(a, st), self.kind(b, st)
        if ka == 'edge' and b[0] == 't' and len(b) != 3:
            return True
        if {ka, kb} == {'num', 'str'}:
            return True
        d = lin_add(a, b, -1)
        if is_num_c(d) and d[2] != 0 and a[0] != 'c' and b[0] != 'c':
            return True
        return False

    def may_hold_fresh(self, x):
        return len(x) > 3 and x[0] in ('f', 'i')

    def diff_key(self, a, b):
        d = lin_add(a, b, -1)
        return lin_canon(d)

    # ---- fields --------------------------------------------------------------------------
    def load_field(self, st, base, attr):
        k = self.kind(base, st)
        if k == 'Graph' and attr == 'out_neighbors' and ('f', base, attr) not in st.store:
            attr = 'neighbors'
        loc = ('f', base, attr)
        v = st.store.get(loc)
        if v is not None:
            return v
        ver = st.ver.get(('fld', attr), 0)
        t = ('f', base, attr, ver) if ver else ('f', base, attr)
        if ('fld', attr) in self.cfg.watch:
            self.emit(st, ('rd', self.site(st), base, attr, t))
        return t

    def store_field(self, st, base, attr, v):
        self.emit(st, ('setf', self.site(st), base, attr, v))
        s = ('fld', attr)
        if self.untracked(s):
            return
        loc = ('f', base, attr)
        kill = [l for l in st.store if l[0] == 'f' and l[2] == attr and l != loc and not self.distinct(l[1], base, st)]
        if kill:
            st.drop(set(kill))
        if not (base[0] == 'o'):
            st.setver(s, ('w',) + self.token(st))
        st.put(loc, v)

    # ---- items ---------------------------------------------------------------------------
    def load_item(self, st, base, k):
        """list of (state, value); a state where the key is certainly absent raises instead"""
        if base[0] == 't':
            if k[0] == 'c' and isinstance(k[2], int):
                n = len(base) - 1
                j = k[2] if k[2] >= 0 else n + k[2]
                if 0 <= j < n:
                    return [(st, base[1 + j])]
            return [(st, ('u', 'tupitem', base, k))]
        if base[0] == 'c' and isinstance(base[2], str) and k[0] == 'c' and isinstance(k[2], int):
            try:
                return [(st, C(base[2][k[2]]))]
            except IndexError:
                pass
        if base[0] == 'g':
            lit = self.module_literal(base)
            if lit is not None and lit[0] == 'dict':
                for kk, vv in lit[1]:
                    if kk == k:
                        return [(st, vv)]
        if base[0] == 'o':
            ob = st.objs.get(base[1])
            if ob is not None:
                r = self.obj_item(st, base, ob, k)
                if r is not None:
                    return r
        loc = ('i', base, k)
        v = st.store.get(loc)
        if v is DELETED or v == DELETED:
            self.raise_exc(st, 'KeyError', k)
            return []
        if v is not None:
            return [(st, v)]
        if self.cfg.keyerr and self.catching_key() and self.is_dict(base, st):
            out = []
            for s2, present in self.decide_in(st, k, base):
                if present:
                    out.append((s2, self.plain_item(s2, base, k)))
                else:
                    self.raise_exc(s2, 'KeyError', k)
            return out
        return [(st, self.plain_item(st, base, k))]

    def is_dict(self, base, st):
        k = self.kind(base, st)
        return k in DICTS or (isinstance(k, tuple) and k[0] == 'dict')

    def plain_item(self, st, base, k):
        if self.kind(base, st) == 'edge':
            return ('i', base, k)       # a tuple never changes
        sg = self.sig(base, k, st)
        ver = self.ver_of(st, sg)
        if self.untracked(sg):
            ver = ('untr',)
        t = ('i', base, k, ver) if ver else ('i', base, k)
        if sg in self.cfg.watch or (sg[0] == 'it' and ('it', sg[1], None) in self.cfg.watch):
            self.emit(st, ('rd', self.site_user(st), base, k, t))
        return t

    def obj_item(self, st, base, ob, k):
        if ob.kind in ('list',):
            items = ob.items
            if k[0] == 'c' and isinstance(k[2], int) and not isinstance(k[2], bool):
                j = k[2]
                if j >= 0:
                    if j < len(items) and all(s[0] == 'e' for s in items[:j + 1]):
                        return [(st, items[j][1])]
                    if j == 0 and len(items) == 1 and items[0][0] == 'star':
                        return [(st, ('first', items[0][1]))]
                else:
                    if -j <= len(items) and all(s[0] == 'e' for s in items[j:]):
                        return [(st, items[j][1])]
            # copy of a source: item of the original
            if len(items) == 1 and items[0][0] == 'star' and items[0][1][0] == 'elems':
                return self.load_item(st, items[0][1][1], k)
            return [(st, ('i', base, k, ('c', hash(items) & 0xffffffff)))]
        if ob.kind == 'dict':
            known = None
            for s in reversed(ob.items):
                if s[0] == 'kv':
                    if s[1] == k:
                        return [(st, s[2])]
                    if not self.distinct(s[1], k, st):
                        known = False
                        break
                elif s[0] == 'star':
                    known = False
                    if s[1][0] == 'keys':
                        if all(x[0] != 'kv' or self.distinct(x[1], k, st) for x in ob.items):
                            return [(st, ('i', s[1][1], k))]
                    break
                else:
                    known = False
                    break
            if known is None:
                # certainly absent
                self.raise_exc(st, 'KeyError', k)
                return []
            v = st.store.get(('i', base, k))
            if v is not None and v != DELETED:
                return [(st, v)]
            if self.cfg.keyerr and self.catching_key():
                out = []
                for s2, present in self.decide_in(st, k, base):
                    if present:
                        out.append((s2, self.dict_val(s2, base, k)))
                    else:
                        self.raise_exc(s2, 'KeyError', k)
                return out
            return [(st, self.dict_val(st, base, k))]
        return None

    def dict_val(self, st, base, k):
        ver = st.ver.get(('it', base, '*'), 0)
        t = ('i', base, k, ver) if ver else ('i', base, k)
        return t

    def store_item(self, st, base, k, v):
        self.emit(st, ('set', self.site(st), base, k, v))
        if base[0] == 'o':
            ob = st.objs.get(base[1])
            self.note_elem(base[1], v, st)
            kk = self.kind(k, st)
            if not (kk == 'any' and k[0] in ('phi', 'u')):
                self.okey.setdefault(base[1], set()).add(kk)
            if ob is not None and ob.kind == 'dict':
                # order of insertion is kept; an overwritten key keeps its place
                items = list(ob.items)
                done = False
                for n, s in enumerate(items):
                    if s[0] == 'kv' and s[1] == k:
                        items[n] = ('kv', k, v)
                        done = True
                    elif s[0] == 'kv' and not self.distinct(s[1], k, st):
                        items[n] = ('unk', self.token(st))
                if not done:
                    items.append(('kv', k, v))
                st.setobj(base[1], ob.with_items(items))
                self.kill_aliases(st, base, k)
                st.setver(('it', base, '*'), ('w',) + self.token(st))
                st.put(('i', base, k), v)
                st.facts.pop(('in', k, base), None) if False else None
                return
            if ob is not None and ob.kind == 'list':
                items = list(ob.items)
                if k[0] == 'c' and isinstance(k[2], int) and 0 <= k[2] < len(items) and \
                        all(s[0] == 'e' for s in items[:k[2] + 1]):
                    items[k[2]] = ('e', v)
                else:
                    items = [('unk', self.token(st))]
                st.setobj(base[1], ob.with_items(items))
                return
        sg = self.sig(base, k, st)
        if self.untracked(sg):
            return
        self.kill_aliases(st, base, k)
        if sg[2] == '*' and sg[1] in ATTRDICTS:
            st.setver(('it', sg[1], None), ('w',) + self.token(st))
        else:
            prev = self.ver_of(st, sg)
            st.setver(sg, ('w',) + self.token(st))
            if sg[1] in STRUCT:
                st.setwl((base, self.ver_of(st, sg)), (prev, k, True))
        st.put(('i', base, k), v)

    def kill_aliases(self, st, base, k):
        sh = self.sig(base, k, st)
        kill = set()
        for l in st.store:
            if l[0] == 'i' and not (l[1] == base and l[2] == k):
                s2 = self.sig(l[1], l[2], st)
                if s2[1] == sh[1] and not self.distinct(l[2], k, st) and not self.distinct(l[1], base, st) \
                        and not self.bases_distinct(l[1], base, st):
                    kill.add(l)
        if kill:
            st.drop(kill)

    def bases_distinct(self, a, b, st):
        """attribute dictionaries of certainly different nodes or edges"""
        if a[0] == 'i' and b[0] == 'i' and a[1] == b[1]:
            return self.distinct(a[2], b[2], st)
        if a[0] == 'f' and b[0] == 'f' and a[2] == b[2] and a[1] != b[1]:
            return self.distinct(a[1], b[1], st) or self.bases_distinct(a[1], b[1], st)
        return False

    def del_item(self, st, base, k):
        """list of states"""
        out = []
        if self.cfg.keyerr and (self.catching_key() or self.cfg.implicit) and self.is_dict(base, st):
            alts = self.decide_in(st, k, base)
        else:
            alts = [(st, True)]
        for s2, present in alts:
            if not present:
                self.raise_exc(s2, 'KeyError', k)
                continue
            self.emit(s2, ('del', self.site(s2), base, k))
            if base[0] == 'o':
                ob = s2.objs.get(base[1])
                if ob is not None:
                    items = [x for x in ob.items if not (x[0] == 'kv' and x[1] == k)]
                    if len(items) == len(ob.items):
                        items = [('unk', self.token(s2))]
                    s2.setobj(base[1], ob.with_items(items))
                    s2.put(('i', base, k), DELETED)
                    out.append(s2)
                    continue
            sg = self.sig(base, k, s2)
            if not self.untracked(sg):
                self.kill_aliases(s2, base, k)
                if sg[2] == '*' and sg[1] in ATTRDICTS:
                    s2.setver(('it', sg[1], None), ('w',) + self.token(s2))
                else:
                    prev = self.ver_of(s2, sg)
                    s2.setver(sg, ('w',) + self.token(s2))
                    if sg[1] in STRUCT:
                        s2.setwl((base, self.ver_of(s2, sg)), (prev, k, False))
                s2.put(('i', base, k), DELETED)
            out.append(s2)
        return out

    # ---- membership ----------------------------------------------------------------------
    def canon_in(self, st, k, base, at=None):
        """canonical atom for 'k in base' under the class invariant (entry versions only)"""
        if at is None:
            at = self.ver_of(st, self.sig(base, k, st)) if base[0] != 'o' else st.ver.get(('it', base, '*'), 0)
        if base[0] == 'f' and len(base) == 3 and self.kind(base, st) in ('nodes', 'neighbors', 'in_neighbors') \
                and not at:
            return ('in', k, ('f', base[1], 'nodes'), 0)
        if base[0] == 'i' and len(base) == 3 and self.graph_mode == 'digraph' \
                and not self.ver_of(st, ('it', 'nbrs', '*')):
            b2 = base[1]
            if b2[0] == 'f' and len(b2) == 3 and self.kind(b2[1], st) == 'Graph':
                e = ('f', b2[1], 'edge_attr')
                if not self.ver_of(st, ('it', 'edge_attr', '*')):
                    if b2[2] == 'neighbors':
                        return ('in', self.mk_tuple((base[2], k), st), e, 0)
                    if b2[2] == 'in_neighbors':
                        return ('in', self.mk_tuple((k, base[2]), st), e, 0)
        return ('in', k, base, at)

    def mk_tuple(self, elems, st):
        if len(elems) == 2 and elems[0][0] == 'i' and elems[1][0] == 'i' and elems[0][1] == elems[1][1] \
                and elems[0][2] == C(0) and elems[1][2] == C(1) and len(elems[0]) == 3 \
                and self.kind(elems[0][1], st) == 'edge':
            return elems[0][1]
        return ('t',) + tuple(elems)

    def src_of_elem(self, t):
        """(container, how) an element symbol was drawn from"""
        if t[0] != 'el':
            return None
        s = t[2]
        while s[0] in ('sorted', 'rev', 'slice'):
            s = s[1]
        return s

    def known_in(self, st, k, base):
        """True/False/None"""
        loc = ('i', base, k)
        v = st.store.get(loc)
        if v is not None:
            return v != DELETED
        if base[0] == 'o':
            ob = st.objs.get(base[1])
            if ob is not None and ob.kind in ('list', 'dict', 'set'):
                all_known = True
                for s in ob.items:
                    if s[0] in ('e', 'kv'):
                        if s[1] == k:
                            return True
                        if not self.distinct(s[1], k, st):
                            all_known = False
                    elif s[0] == 'star':
                        r = self.in_src(st, k, s[1])
                        if r is True:
                            return True
                        if r is None:
                            all_known = False
                    else:
                        all_known = False
                if all_known:
                    return False
        if base[0] == 'g':
            lit = self.module_literal(base)
            if lit is not None and k[0] == 'c':
                if lit[0] in ('list', 'set'):
                    return any(x == k for x in lit[1])
                if lit[0] == 'dict':
                    return any(kk == k for kk, _ in lit[1])
        if base[0] == 't':
            allk = True
            for x in base[1:]:
                if x == k:
                    return True
                if not self.distinct(x, k, st):
                    allk = False
            return False if allk else None
        a = self.canon_in(st, k, base)
        if a in st.facts:
            return st.facts[a]
        s = self.src_of_elem(k)
        if s is not None and s[0] in ('keys', 'elems'):
            b = s[1]
            if b == base and (len(s) < 3 or s[2] == a[3] or not a[3]):
                return True
            a2 = self.canon_in(st, k, b) if b[0] in ('f', 'i') else None
            if a2 == a:
                return True
            # neighbours are nodes
            if a[2][0] == 'f' and a[2][2] == 'nodes' and a[3] == 0 and self.kind(k, st) == 'name' and \
                    self.kind(b, st) in ('nbrs', 'nodes', 'neighbors', 'in_neighbors'):
                if self.root_graph(b) == a[2][1]:
                    return True
        # endpoints of an existing edge are nodes
        if a[2][0] == 'f' and a[2][2] == 'nodes' and a[3] == 0:
            e = ('f', a[2][1], 'edge_attr')
            if k[0] == 'i' and k[2] in (C(0), C(1)):
                if self.known_in(st, k[1], e) is True and not self.ver_of(st, ('it', 'edge_attr', '*')):
                    return True
            for at, val in st.facts.items():
                if val and at[0] == 'in' and at[2] == e and at[3] == 0 and at[1][0] == 't' and k in at[1][1:]:
                    return True
        # an edge that exists has both endpoints; a missing node has no edges
        if a[2][0] == 'f' and a[2][2] == 'edge_attr' and a[3] == 0:
            n = ('f', a[2][1], 'nodes')
            ends = k[1:] if k[0] == 't' else (('i', k, C(0)), ('i', k, C(1)))
            for x in ends:
                if st.facts.get(('in', x, n, 0)) is False:
                    return False
            src = self.edge_from_nbr(st, k, a[2][1])
            if src is not None:
                return src
        return None

    def root_graph(self, b):
        while b[0] in ('i', 'f'):
            if b[0] == 'f' and b[2] in ('nodes', 'neighbors', 'in_neighbors', 'edge_attr'):
                return b[1]
            b = b[1]
        return None

    def edge_from_nbr(self, st, k, g):
        """(a,b) with b drawn from neighbors[a], or a from in_neighbors[b] (directed graphs)"""
        if k[0] != 't' or len(k) != 3 or self.graph_mode != 'digraph':
            return None
        for x, y, fld in ((k[1], k[2], 'neighbors'), (k[2], k[1], 'in_neighbors')):
            s = self.src_of_elem(y)
            if s is not None and s[0] in ('keys', 'elems') and s[1] == ('i', ('f', g, fld), x):
                return True
        return None

    def known_at0(self, st, k, base):
        return st.facts.get(self.canon_in(st, k, base, 0))

    def in_src(self, st, k, src):
        while src[0] in ('sorted', 'rev'):
            src = src[1]
        if src[0] in ('keys', 'elems'):
            return self.known_in(st, k, src[1])
        return None

    def decide_in(self, st, k, base):
        r = self.known_in(st, k, base)
        if r is not None:
            return [(st, r)]
        if base[0] == 'o':
            ob = st.objs.get(base[1])
            if ob is not None and ob.kind in ('list', 'set', 'dict'):
                if all(s[0] in ('e', 'kv') for s in ob.items) and len(ob.items) <= 4:
                    return self.in_known(st, k, [s[1] for s in ob.items])
                if len(ob.items) == 1 and ob.items[0][0] == 'star':
                    s = ob.items[0][1]
                    while s[0] in ('sorted', 'rev'):
                        s = s[1]
                    if s[0] in ('keys', 'elems'):
                        return self.decide_in(st, k, s[1])
        if base[0] == 't' and len(base) <= 8:
            return self.in_known(st, k, base[1:])
        return self.decide_at(st, k, base, None)

    def decide_at(self, st, k, base, at):
        a = self.canon_in(st, k, base, at)
        if a in st.facts:
            return [(st, st.facts[a])]
        w = st.wl.get((base, a[3])) if a[3] else None
        if w is not None:
            prev, key, present = w
            out = []
            for s, eq in self.decide(st, self.eq_atom(k, key), True):
                if eq:
                    out.append((s, present))
                elif prev:
                    out.extend(self.decide_at(s, k, base, prev))
                else:
                    r = self.known_at0(s, k, base)
                    if r is None:
                        out.extend(self.decide_at(s, k, base, 0))
                    else:
                        out.append((s, r))
            return out
        # antiparallel arcs are excluded by the documented preconditions of the flow methods: not assumed here
        s1 = st
        s2 = st.fork()
        if has_untr(a):
            return [(s1, True), (s2, False)]
        s1.setfact(a, True)
        s2.setfact(a, False)
        self.emit(s1, ('test', self.site(s1), a, True))
        self.emit(s2, ('test', self.site(s2), a, False))
        return [(s1, True), (s2, False)]

    def in_known(self, st, k, elems):
        out = []
        cur = [st]
        for x in elems:
            nxt = []
            for s in cur:
                for s2, r in self.decide(s, self.eq_atom(k, x), True):
                    if r:
                        out.append((s2, True))
                    else:
                        nxt.append(s2)
            cur = nxt
        out.extend((s, False) for s in cur)
        return out

    # ---- atoms ---------------------------------------------------------------------------
    def eq_atom(self, a, b):
        """boolean term for a == b"""
        return self.cmp_atom(a, b, ZS)

    def cmp_atom(self, a, b, signs):
        """('const',bool) or ('sg', d, signs)"""
        if a == b:
            return ('const', 0 in signs)
        d, s = self.diff_key(a, b)
        if d is None:
            return ('const', s in signs)
        if d[0] == 'lin' or d == INFINITE:
            inf = lin_parts(lin_add(a, b, -1))[1].get(INFINITE)
            if inf:
                # every number the analysis sees is finite
                return ('const', (1 if inf > 0 else -1) in signs)
        if s < 0:
            signs = frozenset(-x for x in signs)
        return ('sg', d, signs, a, b)

    def decide(self, st, atom, pol):
        """list of (state, truth value)"""
        k = atom[0]
        if k == 'const':
            return [(st, atom[1] == pol)]
        if k == 'sg':
            d, S = atom[1], atom[2]
            if not pol:
                S = ALL - S
            known = st.signs.get(d, ALL)
            if known == ALL and len(atom) > 4:
                if self.distinct(atom[3], atom[4], st):
                    known = known - ZS
                elif 'c' in (atom[3][0], atom[4][0]) and self.other_const(st, atom[3], atom[4]):
                    known = known - ZS
            inter = known & S
            if not inter:
                return [(st, False)]
            if inter == known:
                return [(st, True)]
            s2 = st.fork()
            if has_untr(d):
                return [(st, True), (s2, False)]
            st.setsign(d, inter)
            s2.setsign(d, known - S)
            self.emit(st, ('test', self.site(st), ('sg', d, inter), True))
            self.emit(s2, ('test', self.site(s2), ('sg', d, known - S), True))
            return [(st, True), (s2, False)]
        if k == 'in':
            r = self.decide_in(st, atom[1], atom[2])
            return [(s, v == pol) for s, v in r]
        if atom in st.facts:
            return [(st, st.facts[atom] == pol)]
        s2 = st.fork()
        if has_untr(atom):
            return [(st, True), (s2, False)]
        st.setfact(atom, pol)
        s2.setfact(atom, not pol)
        self.emit(st, ('test', self.site(st), atom, pol))
        self.emit(s2, ('test', self.site(s2), atom, not pol))
        return [(st, True), (s2, False)]

    def other_const(self, st, a, b):
        """one of a, b is a constant string, and the other is known to equal another one"""
        x, c = (a, b) if b[0] == 'c' else (b, a)
        if c[1] != 'str':
            return False
        for d, v in st.signs.items():
            if len(v) == 1 and 0 in v:
                _, m = lin_parts(d)
                if len(m) == 2 and x in m:
                    for k in m:
                        if k[0] == 'c' and k[1] == 'str' and k != c:
                            return True
        return False

    def none_state(self, st, t):
        """True / False / None: is the value None?"""
        if t == NONE:
            return True
        if t[0] in ('c', 't', 'o', 'lin', 'bin', 'cat', 'b', 'fn', 'cls', 'm', 'pf', 'ext', 'super', 'g', 'srep'):
            return None if maybe_data(t) else False
        if t[0] == 'f' and t[2] in ('nodes', 'edge_attr', 'neighbors', 'in_neighbors', 'attr', 'graph_type', 'cluster'):
            return False
        k = self.kind(t, st)
        if k in ('name', 'edge', 'num', 'str', 'bool', 'Node', 'Graph', 'tuple', 'list', 'dict') or k in CONTAINERS:
            return False
        a = ('none', t)
        return st.facts.get(a)
