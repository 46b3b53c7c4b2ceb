"""A file as a writer leaves it: symbolic stream writes, looked up by position.

The writer's abstract run yields stream-write events; positions are polynomials
over loop indices.  `SymFile.rd` answers "what does the reader find at `off`
with format `code`" by matching the offset against the positions of the writes,
last write first.  Where a write cannot be told apart the answer is unknown."""
from .interp import *

_SZ = {'i': 4, 'I': 4, 'f': 4, 'h': 2, 'H': 2, 'q': 8, 'Q': 8, 'd': 8, 'b': 1, 'B': 1, 'c': 1}


class Wr:
    __slots__ = ('pos', 'size', 'val', 'loops', 'conds', 'site', 'n')

    def __repr__(self):
        return f'<{self.pos} +{self.size} := {self.val} loops {self.loops} if {self.conds}>'


class SymFile:
    def __init__(self, I, events, order='<'):
        self.I = I
        self.order = order
        self.counts = {l['id']: l['count'] for l in I.loops}
        self.w = []
        self.relied = set()
        self.sticky = {}
        base_pc = [pc for e, pc in events if e[0] == 'fwrite']
        base_pc = base_pc[-1] if base_pc else ()
        for e, pc in events:
            if e[0] != 'sw':
                continue
            loops, conds = [], []
            n = 0
            while n < len(pc) and n < len(base_pc) and pc[n] == base_pc[n]:
                n += 1
            for it in pc[n:]:
                c, v = it
                if isinstance(c, T) and c.op == 'inloop':
                    loops.append(c.args[0].v)
                else:
                    conds.append(c if v else neg_c(c))
            self.add(e[2], e[3], tuple(loops), tuple(conds), e[4])

    def tag(self, v, loops):
        """loop-carried symbols become functions of the iteration"""
        m = {}
        for x in subterms(v):
            if isinstance(x, T) and x.op == 'phi' and x.args[0].v in loops:
                k = loops.index(x.args[0].v)
                m[x] = T('at', x, *[T('idx', C(l)) for l in loops[:k + 1]])
        return subst(v, m) if m else v

    def add(self, pos, val, loops, conds, site):
        pos = self.tag(pos, loops)
        val = self.tag(val, loops)
        conds = tuple(self.tag(c, loops) for c in conds)
        for p in flat(val):
            n = self.I.ext.sizeof(p)
            w = Wr()
            w.pos, w.size, w.val, w.loops, w.conds, w.site, w.n = pos, n, p, loops, conds, site, len(self.w)
            self.w.append(w)
            pos = add(pos, n)

    # -------------------------------------------------------------- matching
    def match(self, w, off):
        """(index binding, offset inside the field) or None"""
        b = unify(w.pos, off, w.loops)
        if b is None:
            return None
        d = sub(off, subst(w.pos, b))
        if isinstance(d, C) and isinstance(d.v, int):
            return b, d.v
        return None

    def hits(self, w, off, want):
        m = self.match(w, off)
        if m is None:
            return False
        return not isinstance(w.size, C) or m[1] < w.size.v and m[1] + want > 0

    def rd(self, data, off, code, facts=None):
        if isinstance(data, T) and data.op in ('pk', 'pks', 'pad') or isinstance(data, C) and isinstance(data.v, bytes):
            n = self.I.ext.sizeof(data)
            if isinstance(off, C) and isinstance(n, C):
                return self.conv(data, n.v, off.v, code_size(code), code)
            return None
        # a pointer known only as a choice: the reader follows it in the branch it did not rule out
        for x in sorted((x for x in subterms(off) if isinstance(x, T) and x.op == 'ite'), key=lambda x: -len(repr(x))):
            br = [(subst(off, {x: a}), v) for a, v in ((x.args[1], True), (x.args[2], False))]
            keep = [(b, v) for b, v in br if not bad_off(b)]
            if len(keep) == 1:
                # what precedes in the reader has already followed the pointer
                self.sticky[x.args[0]] = keep[0][1]
                br = keep
            elif x.args[0] in self.sticky:
                br = [(b, v) for b, v in br if v == self.sticky[x.args[0]]]
            if len(br) == 1:
                return self.rd(data, br[0][0], code, assume(facts or {}, x.args[0], br[0][1]))
            break
        return self.look(off, code, len(self.w), facts)

    def look(self, off, code, upto, facts=None):
        want = code_size(code)
        for k in range(upto - 1, -1, -1):
            w = self.w[k]
            m = self.match(w, off)
            if m is None:
                continue
            b, d = m
            if not isinstance(w.size, C):
                if d == 0:
                    return None
                continue
            n = w.size.v
            if d >= n or d + want <= 0:
                continue
            v = self.conv(subst(w.val, b), n, d, want, code)
            if v is None:
                return None
            if w.conds:
                c = conj(*[subst(x, b) for x in w.conds])
                if facts:
                    if facts.get(neg_c(c)) is False:
                        return v
                    c = simp_cond(c, facts)
                if c == TRUE:
                    return v
                if c == FALSE:
                    continue
                if not any(self.hits(x, off, want) for x in self.w[:k]):
                    # nothing else is ever stored here: the reader relies on c
                    self.relied.add(c)
                    return v
                els = self.look(off, code, k, assume(facts or {}, c, False))
                if els is None:
                    return None
                return ite(c, v, els)
            return v
        return None

    def conv(self, val, n, d, want, code):
        if isinstance(val, C) and isinstance(val.v, bytes):
            raw = val.v[d:d + want] if d >= 0 else b''
            if len(raw) != want:
                return None
            if code[-1] == 's':
                return C(raw)
            import struct
            c = code if code[0] in '<>=!@' else self.order + code
            return C(struct.unpack(c, raw)[0])
        if d != 0 or n != want:
            if isinstance(val, T) and val.op in ('pk', 'pks') and code[-1] == 's' and d >= 0 and d + want <= n:
                return T('bytes', val, C(d), C(want))
            if isinstance(val, T) and val.op == 'pad' and d >= 0 and d + want <= n:
                return C(b'\0' * want) if code[-1] == 's' else C(0)
            if isinstance(val, T) and val.op in ('pk', 'pks'):
                return T('reint', val, C(d), C(code))
            return None
        if isinstance(val, T) and val.op in ('pk', 'pks') and code[-1] == 's' and d >= 0 and d + want <= n and want != n:
            return T('bytes', val, C(d), C(want))
        if isinstance(val, T) and val.op == 'pk':
            wc = val.args[0].v if isinstance(val.args[0], C) else val.args[0]
            rc = self.relative(code)
            if norm_code(wc).lower() == rc.lower() if norm_code(wc)[-1] in 'iIhHqQbB' else norm_code(wc) == rc:
                return self.ordered(val.args[1])
            if code[-1] == 's':
                return T('bytes', val, C(0), C(want))
            return T('reint', val, C(0), C(code))
        if isinstance(val, T) and val.op == 'pks':
            return val if code[-1] == 's' else T('reint', val, C(0), C(code))
        if isinstance(val, T) and val.op == 'pad':
            return C(b'\0' * want) if code[-1] == 's' else C(0)
        return None


    def relative(self, code):
        """a format code without its byte order when that is the order of the file"""
        code = code.v if isinstance(code, C) else code
        if code[0] == self.order:
            return code[1:]
        if code[0] == '<':
            return '>' + code[1:]
        return norm_code(code)

    def ordered(self, v):
        """the number a word holds in a file of this order: text is not swapped"""
        if self.order == '<':
            return v
        return subst(v, lambda x: T('from_bytes', *[C('big') if a == C('little') else a for a in x.args])
                     if isinstance(x, T) and x.op == 'from_bytes' and C('little') in x.args else None)


def bad_off(b):
    """a file offset below zero"""
    k, m = to_poly(b)
    return k <= 0 and not m


def unpacked(v, code):
    if code[-1] in 'fd':
        return v
    return v


def norm_code(c):
    c = c.v if isinstance(c, C) else c
    if c[0] in '<':
        c = c[1:]
    elif c[0] in '=@':
        c = c[1:]
    return c


def code_size(code):
    if code[-1] == 's':
        return int(code[:-1].lstrip('<>=@!') or 1)
    return _SZ[code[-1]]


def flat(v):
    if isinstance(v, T) and v.op == 'concat':
        out = []
        for a in v.args:
            out += flat(a)
        return out
    return [v]


def unify(pos, off, loops):
    """bind idx(L), L in loops, such that pos == off + const"""
    b = {}
    # loop-carried symbols first: they carry the iteration
    ats = [x for x in subterms(pos) if isinstance(x, T) and x.op == 'at']
    if ats:
        cand = [x for x in subterms(off) if isinstance(x, T) and x.op == 'at']
        for a in ats:
            hit = [c for c in cand if c.args[0] == a.args[0]]
            if len(hit) != 1:
                return None
            for i, x in zip(a.args[1:], hit[0].args[1:]):
                if i in b and b[i] != x:
                    return None
                b[i] = x
        pos = subst(pos, b)
    k, mons = to_poly(pos)
    ko, mo = to_poly(off)
    idxs = {T('idx', C(l)) for l in loops} - set(b)
    mine = {}
    rest = {}
    for m, c in mons.items():
        ix = [a for a in m if a in idxs]
        if not ix:
            rest[m] = c
        elif len(ix) == 1:
            oth = tuple(a for a in m if a != ix[0])
            mine[ix[0]] = (oth, c)
        else:
            return None
    d = dict(mo)
    for m, c in rest.items():
        d[m] = d.get(m, 0) - c
        if d[m] == 0:
            del d[m]
    k0 = ko - k if isinstance(ko, int) and isinstance(k, int) else ko - k
    # the most symbolic coefficient first
    for i, (oth, c) in sorted(mine.items(), key=lambda t: -len(t[1][0])):
        q = {}
        qk = 0
        if oth:
            for m in list(d):
                r = list(m)
                try:
                    for a in oth:
                        r.remove(a)
                except ValueError:
                    continue
                if d[m] % c:
                    return None
                if r:
                    q[tuple(r)] = d[m] // c
                else:
                    qk = d[m] // c
                del d[m]
            b[i] = from_poly(qk, q)
        else:
            for m in list(d):
                if d[m] % c:
                    return None
                q[m] = d[m] // c
                del d[m]
            if c > 0:
                qk, k0 = k0 // c, k0 % c
            else:
                return None
            b[i] = from_poly(qk, q)
    if d:
        return None
    for x in b.values():
        kx, mx = to_poly(x)
        if kx < 0 or any(v < 0 for v in mx.values()):
            return None
        if any(isinstance(a, T) and a.op == 'card' for m in mx for a in m):
            # an index as large as a number of entries is not within bounds
            return None
    return b
