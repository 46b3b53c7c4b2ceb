"""Extents of the regions a writer lays out, as polynomials; disjointness by
lower bounds with the laws of floor division, refuted only by a witness."""
from itertools import chain, product
from .gemcheck import *
from .symfile import code_size

FIXED = 128


def fdiv_out(p):
    """a lower bound of p without floor divisions, or None"""
    for _ in range(12):
        k, mons = to_poly(p)
        fds = [(m, c) for m, c in mons.items() if len(m) == 1 and isinstance(m[0], T) and m[0].op == 'floordiv']
        if not fds:
            return p
        # outermost first: one that occurs in no other
        fds.sort(key=lambda t: -len(repr(t[0][0])))
        (m, c) = fds[0]
        x, q = m[0].args
        if not isinstance(q, C) or not isinstance(q.v, int) or q.v <= 0 or not isinstance(c, int) or c % q.v:
            return None
        low = sub(x, C(q.v - 1)) if c > 0 else x
        rest = sub(p, mul(C(c), m[0]))
        p = add(rest, mul(C(c // q.v), low))
    return None


def low(p, depth=0):
    """a constant lower bound of p over non-negative quantities, or None"""
    if depth > 8:
        return None
    for x in subterms(p):
        if isinstance(x, T) and x.op == 'ite':
            # the outermost choices are split first
            xs = [y for y in subterms(p) if isinstance(y, T) and y.op == 'ite']
            x = max(xs, key=lambda y: len(repr(y)))
            r = [low(subst(p, {x: y}), depth + 1) for y in x.args[1:]]
            return None if None in r else min(r)
    p = fdiv_out(p)
    if p is None:
        return None
    k, mons = to_poly(p)
    for m, c in mons.items():
        if c < 0 or not all(isinstance(a, T) and (a.op in NONNEG or a.op in ('index', 'at', 'phi', 'item', 'arg')) for a in m):
            return None
    return k


def atoms(p):
    out = set()

    def go(x):
        if isinstance(x, T) and x.op in ('floordiv', 'ite', 'ge0', 'gt0', 'eq0', 'not', 'and', 'or', 'mod', 'eq'):
            for a in x.args:
                go(a)
        elif isinstance(x, V):
            k, mons = to_poly(x)
            if len(mons) == 1 and (x,) in mons:
                out.add(x)
            else:
                for m in mons:
                    for a in m:
                        if a != x:
                            go(a)
    go(p)
    return {a for a in out if not isinstance(a, C)}


class NoValue(Exception):
    pass


def value(p, env):
    """the value of a closed form at one choice of its quantities"""
    if p in env:
        return env[p]
    if isinstance(p, C):
        return p.v
    if isinstance(p, T):
        if p.op == 'ite':
            return value(p.args[1] if value(p.args[0], env) else p.args[2], env)
        if p.op == 'floordiv':
            return value(p.args[0], env) // value(p.args[1], env)
        if p.op == 'mod':
            return value(p.args[0], env) % value(p.args[1], env)
        if p.op == 'eq':
            return value(p.args[0], env) == value(p.args[1], env)
        if p.op in ('ge0', 'gt0', 'eq0'):
            x = value(p.args[0], env)
            return {'ge0': x >= 0, 'gt0': x > 0, 'eq0': x == 0}[p.op]
        if p.op == 'not':
            return not value(p.args[0], env)
    k, mons = to_poly(p)
    if len(mons) == 1 and (p,) in mons:
        raise NoValue(p)
    s = k
    for m, c in mons.items():
        t = c
        for a in m:
            t *= value(a, env)
        s += t
    return s


def witness(test, polys, wide=(1, 2, 3, 5, 8, 9, 10, 12, 13, 20, 30, 40, 43, 50, 64, 100, 128, 130, 200)):
    """an assignment of the atoms of polys under which test(values) holds"""
    at = sorted(set().union(*[atoms(p) for p in polys]), key=repr)
    if len(at) > 3 or any(isinstance(x, T) and x.op == 'wide' for a in at for x in subterms(a)):
        return None
    few = (1, 2, 3, 5, 8)
    each = (v for i in range(len(at)) for v in product(*[range(1, 160) if j == i else few for j in range(len(at))]))
    for vals in chain(product(wide, repeat=len(at)), each if len(at) > 1 else product(range(1, 400), repeat=len(at))):
        env = dict(zip(at, vals))
        try:
            if test(*[value(p, env) for p in polys]):
                return env
        except NoValue:
            return None
    return None


class Region:
    """writes at base + idx strides + const"""

    def __init__(self, base, strides, counts):
        self.base, self.strides, self.counts = base, strides, counts
        self.fields = {}
        self.sites = set()

    def put(self, off, size, w):
        self.fields.setdefault((off, size), []).append(w)
        self.sites.add(w.site)

    @property
    def lo(self):
        return add(self.base, C(min(o for o, _ in self.fields)))

    @property
    def hi(self):
        h = add(self.base, C(max(o + s for o, s in self.fields)))
        for s, n in zip(self.strides, self.counts):
            h = add(h, mul(s, sub(n, C(1))))
        return h

    @property
    def name(self):
        return f'region at {show(self.lo, 50)}'


def regions(c):
    """the regions of a composition's writer; data blocks apart"""
    reg, blocks, odd = {}, {}, []
    for w in c.sf.w:
        k, mons = to_poly(w.pos)
        idx = {T('idx', C(l)): l for l in w.loops}
        strides, base, bad = {}, C(0), False
        ats = [x for x in subterms(w.pos) if isinstance(x, T) and x.op == 'at']
        for m, q in mons.items():
            ix = [a for a in m if a in idx]
            t = C(q)
            for a in m:
                if a not in idx:
                    t = mul(t, a)
            if not ix:
                base = add(base, t)
            elif len(ix) == 1:
                strides[ix[0]] = add(strides.get(ix[0], C(0)), t)
            else:
                bad = True
        if bad or not isinstance(w.size, C) or not isinstance(k, int) or any(isinstance(x, T) and x.op == 'phi' for x in subterms(w.pos) if x not in [a.args[0] for a in ats]):
            odd.append(w)
            continue
        ss = sorted(strides.items(), key=lambda t: repr(t[1]))
        counts = tuple(c.sf.counts.get(idx[i]) for i, _ in ss)
        st = tuple(s for _, s in ss)
        if None in counts:
            odd.append(w)
            continue
        d = blocks if ats else reg
        if ats:
            base = untag(base)
        key = (base, st, counts)
        d.setdefault(key, Region(base, st, counts)).put(k, w.size.v, w)
    return list(reg.values()), list(blocks.values()), odd


def untag(p):
    m = {x: x.args[0] for x in subterms(p) if isinstance(x, T) and x.op == 'at'}
    return subst(p, m)


def inside(r):
    """overlap of different fields of one region, or None"""
    fs = sorted(r.fields)
    for (o, s), (o2, s2) in zip(fs, fs[1:]):
        if o2 < o + s:
            return f'bytes {o}..{o + s} and {o2}..{o2 + s2}'
    for (o, s), ws in sorted(r.fields.items()):
        for a, b in zip(ws, ws[1:]):
            if a.val != b.val and not filler(a.val) and not exclusive(a, b):
                return f'byte {o} holds {show(a.val, 60)} and is then overwritten with {show(b.val, 60)};'
    const = [s.v for s in r.strides if isinstance(s, C)]
    if const and fs:
        span = max(o + s for o, s in fs) - min(o for o, _ in fs)
        if span > min(const):
            return f'{span} bytes are stored every {min(const)} bytes'
    return None


def filler(v):
    """a constant that marks a place not yet filled"""
    if isinstance(v, C) and isinstance(v.v, bytes):
        return not v.v.strip(b'\0 ')
    if isinstance(v, T) and v.op == 'pad':
        return True
    return isinstance(v, T) and v.op == 'pk' and isinstance(v.args[1], C) and v.args[1].v in (0, -9999, 9999)


def first_filled(a, b):
    """a only marks places as unused, before anything of b is stored"""
    wa = [w for ws in a.fields.values() for w in ws]
    wb = [w for ws in b.fields.values() for w in ws]
    return all(filler(w.val) for w in wa) and max(w.n for w in wa) < min(w.n for w in wb)


def exclusive(a, b):
    """stores of which only one happens"""
    ca, cb = set(a.conds), set(b.conds)
    return any(neg_c(x) in cb for x in ca)


def hull(r):
    return f'{r.name} [{show(r.lo, 60)} .. {show(r.hi, 60)})'


def layout(ctx, c, n):
    """no two different fields a writer stores share a byte"""
    reg, blocks, odd = regions(c)
    for w in c.sf.w:
        still = [l for l in w.loops if T('idx', C(l)) not in set(subterms(w.pos)) and T('idx', C(l)) in set(subterms(w.val))
                 and not isinstance(c.sf.counts.get(l), C)]
        if still and not any(x.op == 'phi' for x in subterms(w.pos) if isinstance(x, T)):
            ctx.violation(f'{n}: place of {show(w.val, 60)}', f'{show(w.val, 80)} is stored at {show(w.pos, 60)} on every pass of a loop: only the last remains')
    for r in reg:
        x = inside(r)
        k = f'{n}: fields of region {r.name} are apart'
        if x:
            ctx.violation(k, f'{x} in one region written by {r.name}')
        else:
            ctx.discharge(k)
    apart(ctx, n, reg)
    if blocks:
        datablocks(ctx, c, n, reg, blocks)
    return reg, blocks, odd


def apart(ctx, n, reg):
    """no two regions share a byte"""
    for i, a in enumerate(reg):
        for b in reg[i + 1:]:
            k = f'{n}: {a.name} and {b.name} are apart'
            if first_filled(a, b) or first_filled(b, a):
                ctx.discharge(k)
                continue
            d1, d2 = sub(b.lo, a.hi), sub(a.lo, b.hi)
            ok = any(x is not None and x >= 0 for x in (low(d1), low(d2)))
            if ok:
                ctx.discharge(k)
                continue
            env = witness(lambda alo, ahi, blo, bhi: alo < bhi and blo < ahi and alo < ahi and blo < bhi, (a.lo, a.hi, b.lo, b.hi))
            if env is not None:
                at = ', '.join(f'{show(x, 40)} = {v}' for x, v in env.items())
                ctx.violation(k, f'{hull(a)} overlaps {hull(b)} for {at}')
            else:
                ctx.undecided(k, f'{hull(a)} against {hull(b)}')


def datablocks(ctx, c, n, reg, blocks):
    phis = {x for r in blocks for x in subterms(r.base) if isinstance(x, T) and x.op == 'phi'}
    k = f'{n}: data blocks'
    if len(phis) != 1:
        return ctx.undecided(k, f'{len(phis)} running positions')
    phi = next(iter(phis))
    lp = next((l for l in c.w.I.loops if l['id'] == phi.args[0].v and phi in l['phis'].values()), None)
    if lp is None:
        return ctx.undecided(k, 'loop not found')
    loc = next(q for q, v in lp['phis'].items() if v == phi)
    for r in blocks:
        x = inside(r)
        if x:
            ctx.violation(f'{k}: fields are apart', x)
        else:
            ctx.discharge(f'{k}: fields are apart')
    for i, a in enumerate(blocks):
        for b in blocks[i + 1:]:
            ok = any(x is not None and x >= 0 for x in (low(sub(b.lo, a.hi)), low(sub(a.lo, b.hi))))
            kk = f'{k}: {show(a.lo, 40)} and {show(b.lo, 40)} are apart'
            if ok:
                ctx.discharge(kk)
            else:
                env = witness(lambda alo, ahi, blo, bhi: alo < bhi and blo < ahi and alo < ahi and blo < bhi, (a.lo, a.hi, b.lo, b.hi))
                if env is not None:
                    ctx.violation(kk, f'{hull(a)} overlaps {hull(b)}')
                else:
                    ctx.undecided(kk, f'{hull(a)} against {hull(b)}')
    post = c.w.I.locval(lp['end'], loc)
    nxt = [b for b in branches(post) if b != phi]
    kk = f'{k}: the next block starts behind this one'
    if not nxt:
        ctx.violation(kk, 'the position of the next block is not advanced after a block is written')
    first = min_lo(blocks)
    for b in nxt:
        m = {phi: b}
        ds = [sub(subst(first, m), r.hi) for r in blocks]
        if all((low(d) or 0) >= 0 and low(d) is not None for d in ds):
            ctx.discharge(kk)
            continue
        d = next(d for d in ds if low(d) is None or low(d) < 0)
        env = witness(lambda v: v < 0, (d,), (0, 1, 2, 3, 7))
        if env is not None:
            ctx.violation(kk, f'it starts {show(d, 80)} bytes behind the end, negative for {", ".join(f"{show(x, 40)} = {v}" for x, v in env.items()) or "every block"}')
        else:
            ctx.undecided(kk, show(d))
    # the first block lies behind everything else
    init = c.w.I.locval(lp['base'], loc)
    for _ in range(4):
        x = next((x for x in subterms(init) if isinstance(x, T) and x.op == 'phi'), None)
        if x is None:
            break
        l2 = next((l for l in c.w.I.loops if l['id'] == x.args[0].v and x in l['phis'].values()), None)
        if l2 is None:
            break
        loc2 = next(q for q, v in l2['phis'].items() if v == x)
        init = subst(init, {x: c.w.I.locval(l2['base'], loc2)})
    start = subst(first, {phi: init})
    for r in reg:
        kk = f'{n}: data lies behind {r.name}'
        d = sub(start, r.hi)
        b = low(d)
        if b is not None and b >= 0:
            ctx.discharge(kk)
            continue
        env = witness(lambda v, lo, hi: v < 0 and lo < hi, (d, r.lo, r.hi))
        if env is not None:
            ctx.violation(kk, f'the first data block starts inside {hull(r)} for {", ".join(f"{show(x, 40)} = {v}" for x, v in env.items())}')
        else:
            ctx.undecided(kk, show(d))


def min_lo(blocks):
    return min((r.lo for r in blocks), key=lambda p: to_poly(p)[0])


def branches(t):
    if isinstance(t, T) and t.op == 'ite':
        return branches(t.args[1]) | branches(t.args[2])
    return {t}


def crossed(ctx, c, n):
    """the reader of one row and column fetches the pointer of another"""
    sets = {}
    for k, v in c.w.I.permids.items():
        if k[0] == 'card':
            sets[T('card', C(v))] = k[1]
    for off, code in c.unres:
        k = f'{n}: word at {show(off, 60)} format {code}: entry'
        ats = atoms(off)
        cards = sorted((a for a in ats if a.op == 'card'), key=repr)
        ix = sorted((a for a in ats if a.op in ('perm', 'idx')), key=repr)
        if not ix or set(cards) | set(ix) != ats or len(ix) > 2 or len(cards) > 2:
            continue
        for w in c.sf.w:
            if len(w.loops) != len(ix) or not isinstance(w.size, C) or w.size.v != code_size(code):
                continue
            x = collide(c, w, off, cards, ix)
            if x:
                ctx.violation(k, x)
                break


def collide(c, w, off, cards, ix):
    """the reader's address of two different entries at one choice of sizes, in
    the table the writer fills: they meet, or leave it"""
    if not atoms(w.pos) <= set(cards) | {T('idx', C(l)) for l in w.loops}:
        return None
    counts = [c.sf.counts.get(l) for l in w.loops]
    if any(not isinstance(x, T) or x.op != 'card' for x in counts):
        return None
    for sizes in product((2, 3, 5), repeat=len(cards)):
        if len(set(sizes)) < len(sizes):
            continue
        env = dict(zip(cards, sizes))
        try:
            dims = [env[x] for x in counts]
            table = {value(w.pos, {**env, **{T('idx', C(l)): i for l, i in zip(w.loops, ij)}}): ij for ij in product(*[range(d) for d in dims])}
            if len(table) < dims[0] * (dims[1] if len(dims) > 1 else 1):
                return None
            best = None
            for order in ([0, 1], [1, 0]) if len(ix) == 2 else ([0],):
                got = {ij: table.get(value(off, {**env, **{ix[q]: ij[o] for q, o in enumerate(order)}})) for ij in product(*[range(d) for d in dims])}
                bad = sum(g != ij for ij, g in got.items())
                if best is None or bad < best[0]:
                    best = (bad, got)
            hit = sum(g is not None for g in best[1].values())
            if best[0] and hit >= 2:
                ij, g = next((a, b) for a, b in best[1].items() if a != b)
                at = ', '.join(f'{show(a, 40)} = {v}' for a, v in env.items())
                return f'with {at}: the pointer of entry {ij} is looked for at {show(off, 80)}, where ' + (f'that of entry {g} is stored' if g else 'no pointer is stored')
        except (NoValue, KeyError):
            return None
    return None
