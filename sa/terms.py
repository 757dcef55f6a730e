"""Value-numbering terms of the abstract interpreter (plain hashable tuples).

('c', typename, v)            constant
('s', name)                   symbol fixed at entry (a parameter)
('f', base, attr[, ver])      field of an object as it was at version ver (no ver: at entry)
('i', base, key[, ver])       item of a container
('t', e...)                   tuple
('o', id)                     object allocated during the analysed call
('lin', k, ((term,coef)..))   linear form
('cat', pieces...)            string concatenation
('b', atom, polarity)         truth value of an atom
('bin', op, a, b)             other arithmetic
('pf', name, args...)         pure function of its arguments
('el', lid, src)              element of an iterated collection in a generic iteration
('phi', lid, var)             value of a variable at the head of a generic iteration
('r', ...)                    result of an opaque call
('u', ...)                    unknown
"""
from fractions import Fraction
from functools import lru_cache


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
ZERO = C(0)
ONE = C(1)


def is_c(t):
    return t[0] == 'c'


def is_num_c(t):
    return t[0] == 'c' and t[1] in ('int', 'float', 'bool')


def is_str_c(t):
    return t[0] == 'c' and t[1] in ('str',)


@lru_cache(maxsize=200000)
def key(t):
    return repr(t)


def lin_parts(t):
    """(const, dict) of a term seen as a linear form"""
    if t[0] == 'lin':
        return t[1], dict(t[2])
    if is_num_c(t):
        return (int(t[2]) if isinstance(t[2], bool) else t[2]), {}
    return 0, {t: 1}


def mk_lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=lambda kv: key(kv[0]))))


def lin_add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(ca + sign * cb, d)


def lin_scale(a, s):
    c, d = lin_parts(a)
    return mk_lin(c * s, {k: v * s for k, v in d.items()})


def lin_canon(d):
    """canonical representative of a difference up to positive scale, and sign: (canon, s) with d ~ s*canon"""
    c, m = lin_parts(d)
    if not m:
        return None, (c > 0) - (c < 0)
    items = sorted(m.items(), key=lambda kv: key(kv[0]))
    f = items[0][1]
    s = 1 if f > 0 else -1
    g = abs(f)
    if g != 1:
        try:
            m = {k: _norm(v, g) for k, v in m.items()}
            c = _norm(c, g)
        except Exception:
            pass
    m = {k: v * s for k, v in m.items()}
    return mk_lin(c * s, m), s


def _norm(v, g):
    r = Fraction(v) / Fraction(g)
    return int(r) if r.denominator == 1 else float(r)


def mk_cat(*parts):
    out = []
    for p in parts:
        if p[0] == 'cat':
            for q in p[1:]:
                _catadd(out, q)
        else:
            _catadd(out, p)
    if not out:
        return C('')
    if len(out) == 1:
        return out[0]
    return ('cat',) + tuple(out)


def _catadd(out, p):
    if is_str_c(p):
        if p[2] == '':
            return
        if out and is_str_c(out[-1]):
            out[-1] = C(out[-1][2] + p[2])
            return
    out.append(p)


def subterms(t):
    """every sub-tuple that looks like a term, t included"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, tuple))


def contains(t, sub):
    return any(x == sub for x in subterms(t))


@lru_cache(maxsize=400000)
def has_untr(t):
    for x in t:
        if isinstance(x, tuple) and (x == ('untr',) or has_untr(x)):
            return True
    return False


def subst(t, m):
    """structural substitution of terms"""
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        if t and t[0] == 'lin':
            r = C(t[1])
            for k, v in t[2]:
                r = lin_add(r, lin_scale(subst(k, m), v))
            return r
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def show(t, depth=0):
    """short human-readable rendering"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return repr(t[2])
    if k == 's':
        return t[1]
    if k == 'f':
        return '%s.%s%s' % (show(t[1]), t[2], "'" if len(t) > 3 else '')
    if k == 'i':
        return '%s[%s]%s' % (show(t[1]), show(t[2]), "'" if len(t) > 3 else '')
    if k == 't':
        return '(' + ','.join(show(x) for x in t[1:]) + ')'
    if k == 'o':
        return '<%s>' % (t[1],)
    if k == 'lin':
        s = ' + '.join(('%s*%s' % (v, show(x)) if v != 1 else show(x)) for x, v in t[2])
        return '(%s%s)' % (s, (' + %s' % t[1]) if t[1] else '')
    if k == 'cat':
        return '.'.join(show(x) for x in t[1:])
    if k == 'b':
        return ('' if t[2] else 'not ') + show(t[1])
    if k == 'el':
        return 'el%s{%s}' % (t[1], show(t[2]))
    if k == 'phi':
        return 'phi%s.%s' % (t[1], t[2])
    if k in ('keys', 'elems', 'items', 'values'):
        return '%s(%s)' % (k, show(t[1]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in t[1:]))


def maybe_data(t):
    """an attribute of a value returned by external code: a method or data, nobody knows"""
    return t[0] == 'm' and (t[1][0] == 'r' and t[1][1] == 'ext' or maybe_data(t[1]))
