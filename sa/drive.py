"""Interpret small client programs against the current source, symbolically.

A client program is ordinary Python that uses only the public API; its free
names are symbolic inputs.  It is walked by the same abstract interpreter as the
library, never run."""
import textwrap
from .interp import *


class Run:
    pass


def program(src, syms=(), repo=None, mod='<client>', **kw):
    from .report import REPO
    I = kw.pop('I', None) or Interp(repo=repo or os.path.join(REPO, 'src'), **kw)
    names = {}
    for s in syms:
        if isinstance(s, tuple):
            names[s[0]] = s[1] if isinstance(s[1], V) else T('arg', C(s[0]), s[1])
        else:
            names[s] = T('arg', C(s), '?')
    I.modules.setdefault(mod, None)
    tree = ast.parse(textwrap.dedent(src))
    # imports first, so that module objects are part of the initial heap
    st = I.base.fork()
    env = I.new(st, HEnv(names, None, mod))
    I.frames = [Frame(env, mod, None, None, 0, mod)]
    I.sinks = [[]]
    r = Run()
    r.I, r.env = I, env
    try:
        outs = I.block(st, tree.body, I.frames[0])
    except Dead:
        outs = {}
    r.st = outs['fall'][0] if 'fall' in outs else None
    r.raises = I.sinks[-1]
    return r


def var(r, name):
    return r.st.get(r.env).d.get(name) if r.st is not None else None


# ------------------------------------------------------------------ written output
def equalities(st):
    """substitution implied by the linear equalities on the path"""
    m = {}
    for c, v in st.pc:
        if isinstance(c, T) and c.op == 'not':
            c, v = c.args[0], not v
        if v and isinstance(c, T) and c.op == 'eq0':
            k, mons = to_poly(subst(c.args[0], m))
            for mm, kk in mons.items():
                if len(mm) == 1 and kk in (1, -1) and isinstance(mm[0], T) and mm[0].op in ('len', 'size'):
                    rest = subst(c.args[0], m)
                    val = mul(C(-kk), sub(rest, mul(C(kk), mm[0])))
                    m[mm[0]] = val
                    break
    return m


def parts_of(v):
    if isinstance(v, T) and v.op == 'concat':
        out = []
        for a in v.args:
            out += parts_of(a)
        return out
    return [v]


def written(r, name=None):
    """[(value, pc)] in the order written"""
    return [(e[2], pc) for e, pc in r.st.event_list() if e[0] == 'fwrite']


class Layout:
    """packed value as fields at offsets"""

    def __init__(self, I, vals, eqs=None):
        self.f = []
        self.I = I
        pos = C(0)
        for v in vals:
            for p in parts_of(v):
                p = subst(p, eqs) if eqs else p
                n = I.ext.sizeof(p)
                n = subst(n, eqs) if eqs else n
                self.f.append((pos, n, p))
                pos = add(pos, n)
        self.size = pos

    def at(self, off):
        for pos, n, p in self.f:
            if pos == off:
                return n, p
        return None
