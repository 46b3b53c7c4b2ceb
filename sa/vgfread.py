"""Abstract reading of VGF files: one record kind at a time."""
from .interp import *
from . import terms as _t

MOD = 'gempakio.decode.vgf'


def base_const(off):
    """constant part of an offset relative to a record start, or None"""
    c, mons = to_poly(off)
    if not mons:
        return c
    for m in mons:
        if not (len(m) == 1 and isinstance(m[0], T) and m[0].op in ('phi', 'idx')):
            return None
    return c


class Kind:
    """result of interpreting the reader on records restricted to one kind"""


def drive(I, cls, args, mod=MOD):
    env = I.load(mod)
    st = I.base.fork()
    fr = Frame(env, mod, None, None, 0, '<driver>')
    I.frames = [fr]
    C_ = I.get(cls, mod)
    try:
        ref = I.instantiate(st, C_, args, {}, None)
    except Dead:
        ref = None
    return st, ref


def read_kind(vclass, vtype, version=None, filled=None, repo=None, byteorder='little', extra=None):
    fixed = {1: vtype, 2: vclass, 6: version}
    if extra:
        fixed.update(extra)

    def assume_rd(data, off, code):
        c = base_const(off)
        if c is None:
            return None
        if code in ('B', 'b') and fixed.get(c) is not None:
            return C(fixed[c])
        return None
    I = Interp(repo=repo, byteorder=byteorder, assume_rd=assume_rd)
    st, ref = drive(I, 'VectorGraphicFile', [T('arg', C('path'), '?')])
    k = Kind()
    k.I, k.st, k.ref = I, st, ref
    return k


def outer_loop(k):
    """the record loop: the loop whose body appends elements"""
    return k.I.loops[-1] if k.I.loops else None


def element_segs(k):
    st = k.st
    els = k.I.getattr(st, k.ref, 'elements')
    return st.get(els).segs if isinstance(els, Ref) else None


def flat_elems(segs, path=()):
    """[(context, element value)]"""
    out = []
    for s in segs:
        if s[0] == 'v':
            out.append((path, s[1]))
        elif s[0] == 'rep':
            out += flat_elems(s[3], path + (('rep', s[1], s[2], s[4]),))
        elif s[0] == 'alt':
            out += flat_elems(s[2], path + (('if', s[1]),))
            out += flat_elems(s[3], path + (('if', neg_c(s[1])),))
        elif s[0] == 'sym':
            out.append((path, s[1]))
    return out


def record_base(k):
    """phi term standing for the start offset of the current record"""
    segs = element_segs(k)
    cand = {}
    for path, e in flat_elems(segs or ()):
        if isinstance(e, Ref):
            for v in k.st.get(e).d.values():
                for x in subterms(v):
                    if isinstance(x, T) and x.op in ('rd', 'bytes', 'arr'):
                        c, mons = to_poly(x.args[1])
                        for m, kk in mons.items():
                            if kk == 1 and len(m) == 1 and isinstance(m[0], T) and m[0].op == 'phi':
                                cand[m[0]] = cand.get(m[0], 0) + 1
    return max(cand, key=lambda t: cand[t]) if cand else None


def attrs(k, ref, base):
    """attribute -> term relative to the record start"""
    out = {}
    o = k.st.get(ref)
    for n, v in o.d.items():
        if n.startswith('__'):
            continue
        f = k.I.ext.freeze(k.st, v)
        out[n] = norm(expand(k, f), base)
    return out


def expand(k, v):
    """replace references to heap objects by their contents"""
    def m(x):
        if isinstance(x, T) and x.op == 'obj' and isinstance(x.args[1], Ref):
            o = k.st.get(x.args[1])
            return T('object', x.args[0], *[T('kv', C(n), expand(k, k.I.ext.freeze(k.st, y))) for n, y in sorted(o.d.items())])
        if isinstance(x, Ref):
            f = k.I.ext.freeze(k.st, x)
            return expand(k, f) if f != x else x
        return None
    return subst(v, m)


def norm(v, base):
    """alpha-normalise: record base -> 0, loop ids -> order of appearance"""
    m = {}
    if base is not None:
        m[base] = C(0)
    v = subst(v, m)
    order = {}
    for x in walk(v):
        if isinstance(x, C) and isinstance(x.v, str) and len(x.v) > 1 and x.v[0] == 'L' and x.v.rstrip('x')[1:].isdigit() and x.v not in order:
            order[x.v] = f'L{len(order)}'
    if order:
        ren = {C(a): C('l' + b[1:]) for a, b in order.items()}
        v = subst(v, ren)
    return v


def walk(v):
    yield v
    if isinstance(v, T):
        for a in v.args:
            if isinstance(a, (V, tuple)):
                yield from walk(a)
    elif isinstance(v, Tup):
        for a in v.items:
            yield from walk(a)
    elif isinstance(v, tuple):
        for a in v:
            if isinstance(a, (V, tuple)):
                yield from walk(a)
