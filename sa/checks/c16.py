"""C16: the six profiles of a merged sounding stay aligned.

The query of a file of unmerged soundings is interpreted; every change made to
one of the six profiles of a sounding under construction is recorded with the
conditions under which it is made, the index, and the value.  A level must be
added to all six at one index or to none, a value must come from the parameter
of that name, and all values of a change from one level of one part, the level
whose pressure or height gave the index."""
import re
from collections import Counter
from ..gemcheck import *
from ..report import attempt, fan
from ..reffile import *
from ..reffile import UNMERGED, MERGED
from .c08 import limited
from .c09 import SYM, given
from .c12 import vague
from .c14 import show

WIND = params('PRES', 'DRCT', 'SPED')
PARTS = {p[0]: p for p in UNMERGED}
PARTS['TRPC'] = ('TRPC',) + PARTS['TRPA'][1:]
PARTS['MXWC'] = ('MXWC',) + PARTS['MXWA'][1:]
PWIND = {n: (n, 1, 'real', WIND) for n in ('PPBB', 'PPDD')}
# name -> parts of the file
FILES = {
    'all parts': list(PARTS.values()),
    'all parts, winds by pressure': [PWIND.get(n, p) for n, p in PARTS.items()],
    'mandatory parts': [PARTS[n] for n in ('TTAA', 'PPAA', 'TTCC', 'PPCC')],
    'significant temperatures': [PARTS[n] for n in ('TTAA', 'TTBB', 'TTDD')],
    'significant winds by height': [PARTS[n] for n in ('TTAA', 'PPBB', 'PPDD')],
    'significant winds by pressure': [PARTS['TTAA'], PWIND['PPBB'], PWIND['PPDD']],
    'special levels': [PARTS[n] for n in ('TTAA', 'TRPA', 'MXWA', 'TRPC', 'MXWC')],
    'other order of parameters': [('TTAA', 1, 'real', params('HGHT', 'SPED', 'DRCT', 'DWPT', 'TEMP', 'PRES')), ('TTBB', 1, 'real', params('DWPT', 'PRES', 'TEMP')),
                                  ('PPBB', 1, 'real', params('SPED', 'HGHT', 'DRCT'))],
    'packed': [(n, h, 'realpack', params(*[p[0] for p in ps], packed=True)) for n, h, t, ps in (PARTS[x] for x in ('TTAA', 'TTBB', 'PPBB', 'TRPA'))],
}
FULL = set(MERGED)
PAIR = {'DRCT': 'SPED', 'SPED': 'DRCT', 'TEMP': 'DWPT', 'DWPT': 'TEMP'}
STRUCTURAL = ('append', 'insert', 'pop', 'delitem', '__delitem__', 'remove', 'extend', 'sort', 'reverse', 'clear', '+=')
MISSING = 'missing_float'


def run(ctx):
    ctx.floor = 100
    ctx.rule('together', 'a change of the length or order of one profile is made at the same index of all six under the same conditions')
    ctx.rule('pairs', 'wind direction is replaced together with wind speed, temperature with dewpoint')
    ctx.rule('source', 'what is stored in a profile is the parameter of that name, the missing value, or computed')
    ctx.rule('level', 'the values of one change come from the same level of the same part, and the index from that level too')
    ctx.rule('place', 'a level is inserted where its own pressure or height belongs')
    ctx.rule('complete', 'every parameter of every part reaches its profile')
    fan(ctx, [lambda c, n=n, ps=ps: limited(200000, one, c, n, ps) for n, ps in FILES.items()])


class Change:
    def __init__(self, key, op, site, index, value, pc):
        self.key, self.op, self.site, self.index, self.value, self.pc = key, op, site, index, value, pc


def one(ctx, name, parts):
    ctx.unit(name)
    r = attempt(ctx, name, lambda: read(standard('snd', parts), query='d = r.snxarray()\n', syms=['path'] + SYM, cond=given), seconds=300)
    if r is None or r.st is None:
        ctx.undecided(name, 'the query never completes')
        return
    evs = r.st.event_list()
    profs, src = profiles(r, evs), sources(r, evs, {p[0] for p in parts})
    if not profs:
        ctx.undecided(name, 'no profiles are built as lists')
        return
    ch = changes(r, evs, profs)
    lists = {a: k for a, k in profs.items()}
    together(ctx, name, ch)
    pairs(ctx, name, ch, src)
    levels(ctx, name, ch, src, lists)
    complete(ctx, name, ch, src, parts)


def profiles(r, evs):
    """address of a list -> the profile it is"""
    held = {}
    for e, pc in evs:
        if e[0] == 'mut' and e[2] == 'setitem' and len(e) > 5 and isinstance(e[1], Ref) and isinstance(e[4], C) and e[4].v in FULL and isinstance(e[5], Ref):
            held.setdefault(e[1].a, {})[e[5].a] = e[4].v
    for a, ob in r.st.heap.items():
        if ob.kind == 'dict':
            for s in ob.segs:
                if s[0] == 'kv' and isinstance(s[1], C) and s[1].v in FULL and isinstance(s[2], Ref):
                    held.setdefault(a, {})[s[2].a] = s[1].v
    out = {}
    for d in held.values():
        if set(d.values()) == FULL and len(d) == 6 and all(a in r.st.heap and r.st.heap[a].kind == 'seq' for a in d):
            out.update(d)
    return out


def sources(r, evs, names):
    """array -> (part, names of the parameters it stands for)"""
    dicts, out = {}, {}

    def note(part, k, v):
        v = r.I.ext.freeze(r.st, v) if isinstance(v, V) else v
        if isinstance(k, C) and isinstance(v, T):
            out.setdefault(whole(v), (part, []))[1].append(k.v)
    for e, pc in evs:
        if e[0] != 'mut' or e[2] != 'setitem' or len(e) < 6:
            continue
        k, v = e[4], e[5]
        if isinstance(k, C) and k.v in names and isinstance(v, Ref):
            dicts[v.a] = k.v
            ob = r.st.heap.get(v.a)
            for s in ob.segs if ob is not None and ob.kind == 'dict' else ():
                if s[0] == 'kv':
                    note(k.v, s[1], s[2])
        elif isinstance(e[1], Ref) and e[1].a in dicts:
            note(dicts[e[1].a], k, v)
    return out


def whole(v):
    while isinstance(v, T) and v.op in ('list', 'tuple') and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].op == 'spread':
        v = v.args[0].args[0]
    return v


def changes(r, evs, profs):
    out = []
    for e, pc in evs:
        if e[0] != 'mut' or not isinstance(e[1], Ref) or e[1].a not in profs:
            continue
        a = [r.I.ext.freeze(r.st, x) if isinstance(x, V) else x for x in e[4:]]
        idx, val = (None, a[0] if a else None) if e[2] == 'append' else (a + [None, None])[:2]
        out.append(Change(profs[e[1].a], e[2], e[3], idx, val, tuple(pc)))
    return out


def groups(ch):
    g = {}
    for c in ch:
        g.setdefault((c.op, c.index, c.pc), []).append(c)
    return g


def label(op, cs):
    s = cs[0].site
    return f'{op} in {s[2]}, line {s[1]}'


def together(ctx, name, ch):
    for (op, idx, pc), cs in groups([c for c in ch if c.op in STRUCTURAL]).items():
        n = Counter(c.key for c in cs)
        k = f'{name}: {label(op, cs)}'
        if set(n) == FULL and len(set(n.values())) == 1:
            ctx.discharge(k)
        else:
            lack = sorted(x for x in FULL if n[x] < max(n.values()))
            ctx.violation(k, f'a level is {op}ed to {", ".join(sorted(n))} but not at the same index under the same conditions to {", ".join(lack)}')


def leaves_of(v):
    return leaves_of(v.args[1]) | leaves_of(v.args[2]) if isinstance(v, T) and v.op == 'ite' else {v}


def of(v, src):
    """(part, names, level, absolute) for a value of a part, 'missing', 'else'"""
    ab = False
    while isinstance(v, T) and v.op in ('abs', 'float', 'numpy.abs', 'numpy.absolute', 'numpy.fabs'):
        ab = ab or v.op not in ('float',)
        v = v.args[0]
    if isinstance(v, T) and v.op in ('getitem', 'elemof', 'item'):
        x, j = whole(v.args[0]), v.args[1]
        while isinstance(x, T) and x.op in ('slice_of', 'getitem') and isinstance(x.args[1], T) and x.args[1].op == 'slice' and x.args[1].args[1:] == (NONE, NONE) \
                and isinstance(x.args[1].args[0], C) and isinstance(x.args[1].args[0].v, int) and x.args[1].args[0].v >= 0:
            # a later part of the levels
            x, j = whole(x.args[0]), add(j, x.args[1].args[0])
        if x in src:
            p, ns = src[x]
            return p, tuple(ns), j, ab
    if v == T('arg', C(MISSING), 'float') or isinstance(v, T) and v.op == 'arg' and v.args[0] == C(MISSING):
        return 'missing'
    return 'else'


def level_of(v, src):
    """the level a value is taken from, under the conditions it is; None if it is not of a part throughout"""
    if isinstance(v, T) and v.op == 'ite':
        a, b = level_of(v.args[1], src), level_of(v.args[2], src)
        return None if a is None or b is None else a if a == b else ('if', v.args[0], a, b)
    o = of(v, src)
    return (o[0], o[2]) if isinstance(o, tuple) else None


def named(t):
    return f'{named(t[2])} or {named(t[3])}' if t[0] == 'if' else f'{t[0]} level {show(t[1], 40)}'


def uses(v, src):
    return isinstance(v, V) and any(isinstance(x, T) and x in src for x in subterms(v))


def pairs(ctx, name, ch, src):
    for (op, idx, pc), cs in groups([c for c in ch if c.op == 'setitem']).items():
        ks = {c.key for c in cs if of(c.value, src) == 'missing' or any(isinstance(of(v, src), tuple) for v in leaves_of(c.value))}
        for k in sorted(ks & set(PAIR)):
            what = f'{name}: {label(op, [c for c in cs if c.key == k])}: {k}'
            if PAIR[k] in ks:
                ctx.discharge(what)
            else:
                ctx.violation(what, f'{k} is replaced by a value of the file and {PAIR[k]} of the level is not')


def levels(ctx, name, ch, src, lists):
    for (op, idx, pc), cs in groups(ch).items():
        where = f'{name}: {label(op, cs)}'
        seen = {}
        for c in cs:
            t = level_of(c.value, src)
            if t is not None:
                seen.setdefault(t, c.key)
            for v in leaves_of(c.value) if c.value is not None else ():
                o = of(v, src)
                k = f'{where}: {c.key}'
                if o == 'missing':
                    ctx.discharge(k)
                elif o == 'else':
                    if not uses(v, src) and isinstance(v, V) and not vague(v):
                        # the elevation of the station
                        if c.key == 'HGHT' and idx == C(0):
                            ctx.discharge(k)
                        else:
                            ctx.violation(k, f'{show(v, 80)} is stored in {c.key}')
                    elif op != 'setitem':
                        ctx.undecided(k, 'a computed value is inserted')
                else:
                    part, names, j, ab = o
                    if c.key in names and (not ab or c.key == 'PRES'):
                        ctx.discharge(k)
                    else:
                        ctx.violation(k, f'{"the absolute value of " if ab else ""}{part} {names[0]} is stored in {c.key}')
        if len(seen) > 1:
            a, b = list(seen)[:2]
            ctx.violation(f'{where}: level', f'{seen[a]} comes from {named(a)} and {seen[b]} from {named(b)}')
        elif seen:
            ctx.discharge(f'{where}: level')
            place(ctx, where, op, idx, cs, src, lists, next(iter(seen)))


def content_of(v, lists, src):
    """(profile, first level counted) for the levels of a profile, in ascending or descending order"""
    rev, first = False, 0
    while isinstance(v, T):
        if v.op == 'list' and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].op == 'spread':
            v = v.args[0].args[0]
        elif v.op in ('slice_of', 'getitem') and isinstance(v.args[1], T) and v.args[1].op == 'slice':
            a, b, c = v.args[1].args
            if a == NONE and b == NONE and c == C(-1) and not first:
                rev = not rev
            elif isinstance(a, C) and isinstance(a.v, int) and a.v > 0 and b == NONE and c == NONE:
                first += a.v
            else:
                return None
            v = v.args[0]
        elif v.op in ('reversed', 'tuple_of', 'list_of') and len(v.args) == 1 and not (first and v.op == 'reversed'):
            rev = rev != (v.op == 'reversed')
            v = v.args[0]
        else:
            break
    for x in [v] if isinstance(v, T) else ():
        m = {int(t) for t in re.findall(r'seq#(\d+)', str(x.args[1]))} if x.op == 'phi' else set()
        if len(m) == 1 and next(iter(m)) in lists:
            return lists[next(iter(m))], first, rev, v
        # a profile whose levels are written out: all of one parameter
        if x.op == 'list':
            names = [o[1] for o in (of(y, src) for i in items(x.args) for y in leaves_of(i)) if isinstance(o, tuple)]
            common = set.intersection(*map(set, names)) & FULL if names else set()
            if len(common) == 1:
                return next(iter(common)), first, rev, v
    return None


def items(xs):
    for x in xs:
        if isinstance(x, T) and x.op == 'altseg':
            yield from items(x.args[1])
            yield from items(x.args[2])
        elif isinstance(x, T) and x.op == 'rep' and isinstance(x.args[2], tuple):
            yield from items(x.args[2])
        elif isinstance(x, T) and x.op == 'spread':
            yield from items([x.args[0]])
        elif isinstance(x, T) and x.op == 'list':
            yield from items(x.args)
        else:
            yield x


def place(ctx, where, op, idx, cs, src, lists, lev):
    """the index of a change"""
    if idx is None or not isinstance(idx, V):
        return
    k = f'{where}: place'
    if isinstance(idx, C):
        if idx.v == 0 and lev[1] == C(0):
            ctx.discharge(k)
        elif lev[0] != 'if':
            ctx.violation(k, f'{named(lev)} is stored at index {idx.v}')
        return
    finds = [x for x in subterms(idx) if isinstance(x, T) and (x.op == 'index' or x.op.startswith('bisect.'))]
    if not finds:
        ctx.undecided(k, 'an index that is kept')
        return
    for f in finds:
        at, by = content_of(f.args[0], lists, src), level_of(f.args[1], src)
        put = [c.value for c in cs if at is not None and c.key == at[0] and op == 'insert']
        if by is None and put and isinstance(f.args[1], T) and f.args[1].op == 'phi' and not any(isinstance(x, T) and x.op == 'phi' and x.args[0] == f.args[1].args[0] for x in subterms(put[0])):
            ctx.violation(k, f'{named(lev)} is stored at the place of what an earlier round of the loop left ({str(f.args[1].args[1]).split(":")[-1]})')
        elif by is None or at is None:
            ctx.undecided(k, 'not fully interpreted')
        if by is None or at is None:
            continue
        prof, first, rev, body = at
        if by != lev:
            ctx.violation(k, f'{named(lev)} is stored at the place of {named(by)}')
        elif any(prof not in of(v, src)[1] for v in leaves_of(f.args[1])):
            ctx.violation(k, f'the place of {named(lev)} is sought by another parameter among the values of {prof}')
        else:
            ctx.discharge(k)
            put = [c for c in cs if c.key == prof and op == 'insert']
            if put and put[0].value != f.args[1]:
                ctx.violation(f'{where}: value', f'{show(put[0].value, 60)} is inserted into {prof} where {show(f.args[1], 60)} belongs')
            if op == 'insert':
                ordered(ctx, f'{where}: order', idx, f, prof, first, rev, body)


def ordered(ctx, k, idx, f, prof, first, rev, body):
    """descending pressure, ascending height"""
    left = f.op == 'bisect.bisect_left'
    if prof == 'PRES':
        rest = add(idx, f)
        want = T('len', body)
        good = rev and rest == want
        bare = not rev
    else:
        rest = sub(idx, f)
        want = C(first)
        good = not rev and rest == want
        bare = rev
    if good and f.op.startswith('bisect.'):
        ctx.discharge(k)
    elif f.op.startswith('bisect.') and bare:
        ctx.violation(k, f'{prof} is searched in the wrong order')
    elif counted(rest, body):
        ctx.violation(k, f'a level of {prof} is placed by {show(rest, 80)} instead of by the number of levels there are')
    else:
        ctx.undecided(k, 'not fully interpreted')


def counted(rest, body):
    """a number that does not change in the loop that inserts"""
    if not isinstance(rest, V):
        return False
    lid = body.args[0]
    ts = [x for x in subterms(rest) if isinstance(x, T)]
    return not any(x.op in ('phi', 'idx') and x.args[0] == lid for x in ts) or T('len', body) in ts


def atoms(pc):
    for t, pol in pc:
        if isinstance(t, T) and t.op == 'not':
            t, pol = t.args[0], not pol
        if isinstance(t, T) and (t.op == 'and' and pol or t.op == 'or' and not pol):
            yield from atoms([(x, pol) for x in t.args])
        elif isinstance(t, T):
            yield t, pol


def foreign(c, part, src):
    """another part whose number of levels decides by itself whether a change is made"""
    for t, pol in atoms(c.pc):
        if t.op not in ('ge0', 'gt0', 'eq0', 'truth') or vague(t):
            continue
        k, m = to_poly(t.args[0])
        if len(m) != 1 or len(next(iter(m))) != 1:
            continue
        n = next(iter(m))[0]
        if not (isinstance(n, T) and (n.op == 'len' or n.op == 'ite' and any(isinstance(x, T) and x.op == 'len' for x in n.args))):
            continue
        of_ = {src[x][0] for x in subterms(n) if isinstance(x, T) and x in src}
        if len(of_) == 1 and not of_ & {part, 'TTAA', 'TTCC'}:
            return next(iter(of_))
    return None


def complete(ctx, name, ch, src, parts):
    got, by = set(), {}
    for c in ch:
        for v in leaves_of(c.value) if isinstance(c.value, V) else ():
            o = of(v, src)
            if o not in ('missing', 'else'):
                got.add((o[0], c.key))
                by.setdefault((o[0], c.key), []).append(foreign(c, o[0], src))
    for n, h, t, ps in parts:
        keys = [p[0] for p in ps]
        for k in keys:
            if k == 'HGHT' and n in ('PPBB', 'PPDD') or k in ('DRCT', 'SPED', 'TEMP', 'DWPT') or n in ('TTAA', 'TTCC'):
                on = by.get((n, k), [None])
                if (n, k) in got and None not in on and not (n in ('PPBB', 'PPDD') and 'HGHT' in keys):
                    ctx.violation(f'{name}: {n} {k}', f'{k} of {n} reaches the merged sounding depending on the number of levels of {on[0]}')
                elif (n, k) in got:
                    ctx.discharge(f'{name}: {n} {k}')
                else:
                    ctx.violation(f'{name}: {n} {k}', f'no {k} of {n} reaches the merged sounding')
