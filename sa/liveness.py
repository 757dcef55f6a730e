"""Structured backward liveness: for every statement, the local names that may be read after it."""
import ast


def _uses(node, out):
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)
    return out


def _defs(target):
    s = set()
    for n in ast.walk(target):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            s.add(n.id)
    return s


class Liveness:
    def __init__(self, fn):
        self.after = {}
        self.always = set()
        self.keep = set()       # what an enclosing handler may read
        body = fn.body if isinstance(fn.body, list) else []
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp,
                                              ast.DictComp, ast.GeneratorExp)):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    _uses(n, self.always)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always.update(n.names)
        self.block(body, set(), set(), set())

    def block(self, stmts, live, brk, cont):
        for st in reversed(stmts):
            self.after.setdefault(id(st), set()).update(live, self.keep)
            live = self.stmt(st, live, brk, cont)
        return live

    def stmt(self, st, live, brk, cont):
        if isinstance(st, ast.If):
            a = self.block(st.body, live, brk, cont)
            b = self.block(st.orelse, live, brk, cont)
            return _uses(st.test, a | b)
        if isinstance(st, (ast.For, ast.AsyncFor)):
            out = self.block(st.orelse, live, brk, cont)
            head = set(live) | out
            for _ in range(3):
                h = self.block(st.body, head, live, head)
                n = head | (h - _defs(st.target)) | h
                if n == head:
                    break
                head = n
            return _uses(st.iter, set(head))
        if isinstance(st, ast.While):
            out = self.block(st.orelse, live, brk, cont)
            head = _uses(st.test, set(live) | out)
            for _ in range(3):
                h = self.block(st.body, head, live, head)
                n = head | h
                if n == head:
                    break
                head = n
            return head
        if isinstance(st, ast.Try):
            fin = self.block(st.finalbody, live, brk, cont) if st.finalbody else live
            fin = fin | live
            h = set()
            for hd in st.handlers:
                x = self.block(hd.body, fin, brk | fin, cont | fin)
                if hd.type is not None:
                    _uses(hd.type, x)
                h |= x
            e = self.block(st.orelse, fin, brk | fin, cont | fin)
            keep = h | fin | e
            # everything a handler may read stays live inside the body
            self.block_keep(st.body, keep, brk | keep, cont | keep)
            r = set(keep)
            for s in st.body:
                _uses(s, r)
            return r
        if isinstance(st, (ast.With, ast.AsyncWith)):
            x = self.block(st.body, live, brk, cont)
            for it in st.items:
                x = _uses(it.context_expr, set(x))
            return x
        if isinstance(st, ast.Break):
            return set(brk)
        if isinstance(st, ast.Continue):
            return set(cont)
        if isinstance(st, ast.Return):
            return _uses(st, set())
        if isinstance(st, ast.Raise):
            return _uses(st, set(live))
        if isinstance(st, ast.Assign):
            x = set(live)
            for t in st.targets:
                if isinstance(t, ast.Name):
                    x.discard(t.id)
            _uses(st.value, x)
            for t in st.targets:
                _uses(t, x)
            return x
        if isinstance(st, ast.AugAssign):
            x = _uses(st, set(live))
            if isinstance(st.target, ast.Name):
                x.add(st.target.id)
            return x
        if isinstance(st, ast.Match):
            r = set(live)
            for c in st.cases:
                r |= self.block(c.body, live, brk, cont)
                if c.guard is not None:
                    _uses(c.guard, r)
            return _uses(st.subject, r)
        return _uses(st, set(live))

    def block_keep(self, stmts, keep, brk, cont):
        live = set(keep)
        old = self.keep
        self.keep = old | keep
        for st in reversed(stmts):
            self.after.setdefault(id(st), set()).update(live)
            live = self.stmt(st, live, brk, cont) | keep
        self.keep = old
        return live

    def live_after(self, st):
        s = self.after.get(id(st))
        if s is None:
            return None
        return s | self.always
