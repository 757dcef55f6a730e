"""C06: a display argument does not outlive the call."""
from .base import *

ID = 'C06'
TECHNIQUE = 'value tracking of the display setting over all paths (abstract interpretation)'
RULE = ('on every normal return of every operation other than set_display_mode and display the display setting of the '
        'graph it was called on, and of every graph passed to it, holds the value it held at entry')
EXPLANATION = ('Every public operation is interpreted abstractly with the display setting tracked as a symbolic value; '
               'at each normal return the value found is compared with the value at entry. The fallback inside display() '
               'is documented and not followed.')
MINIMUM = {'returns': 100}
EXEMPT = {'set_display_mode', 'display', '__init__'}
PASSED = ('t', 'solution_g')


def run(prog, res, cls, meth, gtype, omit):
    if cls == 'Node':
        return

    def setup(it, st):
        # a display mode is a non-empty text
        d = ('i', ('f', SELF, 'attr'), C('display'))
        st.facts = dict(st.facts)
        st.facts[('true', d)] = True
        st.facts[('none', d)] = False
    sg = ('it', 'gattr', 'display')
    it, outs = each_entry(res, prog, cls, meth, gtype, tracked=tracking('gattr.display'), omit=omit, extra_setup=setup,
                          invariant=frozenset([sg]))
    fm = prog.cls(cls).lookup(meth)
    site = (fm.module.path.rsplit('/', 1)[-1], fm.node.lineno, fm.qual)
    for st, o in outs:
        if o[0] != 'return':
            continue
        for g in (SELF,) + tuple(('s', p) for p in PASSED if it.skind.get(p) == 'Graph'):
            res.count('returns')
            base = ('f', g, 'attr')
            v = current(it, st, base, C('display'))
            ok = initial(v, base)
            if ok:
                res.count('restored')
            elif understood(v):
                res.find('display-left', site, norm(v), 'on some return of %s the display setting of %s is %s, not the '
                         'one it had before the call' % (meth, norm(g), norm(v)))
            else:
                res.note('the display setting at the end of %s is not understood: %s' % (meth, norm(v)))
                res.count('not_understood')


def initial(v, base):
    return v == ('i', base, C('display'))


def understood(v):
    if v[0] == 'c' or v == NONE:
        return True
    if v[0] == 's':
        return True
    return False


def jobs(prog, tier):
    for c, m, g in EN.entries(skip=EXEMPT):
        yield '%s.%s/%s' % (c, m, g), run, (c, m, g, ())
