"""C17: the missing value is honoured on every path.

A value is followed to where it is computed with: every arithmetic use and every
ordered comparison must lie under a condition that the value is not the missing
value.  The missing value of a file, or of a call, is a symbol, so that a fixed
-9999 in its place is seen."""
import re
from ..gemcheck import *
from ..report import attempt, fan
from ..reffile import *
from ..reffile import MISSING as FILE_MISSING
from ..layout import *
from . import c16
from .c07 import CASES, NAMES2
from .c08 import limited
from .c09 import SYM, given
from .c10 import PURE, FILLS
from .c12 import vague
from .c14 import show
from .c16 import of, leaves_of, FILES

TESTS = ('eq', 'ne')
CARRY = ('list', 'tuple', 'dict', 'kv', 'rep', 'altseg', 'spread', 'asarray', 'numpy.asarray', 'm.copy', 'fill', 'masked', 'astype', 'float', 'float32')


class Walk:
    """uses of values in a term"""

    def __init__(self, isx, missing):
        self.isx, self.missing = isx, missing
        self.bad, self.seen = [], set()

    def atom(self, c):
        """the value a condition compares with the missing value"""
        if isinstance(c, T) and c.op == 'truth':
            c = c.args[0]
        if isinstance(c, T) and c.op == 'eq' and len(c.args) == 2 and self.missing in c.args:
            a, b = c.args
            return b if a == self.missing else a
        return None

    def then(self, c, val, known):
        """what is known not to be missing when the condition has the value"""
        if not isinstance(c, T):
            return known
        if c.op in ('not', 'truth'):
            return self.then(c.args[0], val != (c.op == 'not'), known)
        x = self.atom(c)
        if x is not None:
            return known if val else known | {x}
        if c.op == ('and' if val else 'or'):
            for a in c.args:
                known = self.then(a, val, known)
            return known
        if c.op == ('or' if val else 'and'):
            ks = [self.then(a, val, known) for a in c.args]
            return frozenset.intersection(*ks) if ks else known
        if c.op == 'ite':
            a, b = self.then(c.args[0], True, known), self.then(c.args[0], False, known)
            if isinstance(c.args[1], C) and bool(c.args[1].v) != val:
                return self.then(c.args[2], val, b)
            if isinstance(c.args[2], C) and bool(c.args[2].v) != val:
                return self.then(c.args[1], val, a)
            return self.then(c.args[1], val, a) & self.then(c.args[2], val, b)
        return known

    def cond(self, c, known):
        """a condition, whose parts are evaluated in order"""
        if not isinstance(c, T):
            return
        if c.op in ('not', 'truth'):
            return self.cond(c.args[0], known)
        if c.op in ('and', 'or'):
            for a in c.args:
                self.cond(a, known)
                known = self.then(a, c.op == 'and', known)
            return
        x = self.atom(c)
        if x is not None:
            return self.walk(x, known, False)
        self.walk(c, known, True)

    def walk(self, t, known, computing):
        if isinstance(t, Tup):
            for a in t.items:
                self.walk(a, known, computing)
            return
        if isinstance(t, tuple):
            for a in t:
                self.walk(a, known, computing)
            return
        if not isinstance(t, T):
            return
        if (id(t), known, computing) in self.seen:
            return
        self.seen.add((id(t), known, computing))
        if t == self.missing:
            if computing and t not in self.bad:
                self.bad.append(t)
            return
        if self.isx(t):
            if computing and t not in known and t not in self.bad:
                self.bad.append(t)
            return
        if t.op == 'ite':
            self.cond(t.args[0], known)
            if computing and t in known:
                # one of its values may be the missing value, but not here
                for i, val in ((1, True), (2, False)):
                    if t.args[i] != self.missing:
                        k = self.then(t.args[0], val, known)
                        self.walk(t.args[i], k | {t.args[i]} if isinstance(t.args[i], T) else k, computing)
                return
            self.walk(t.args[1], self.then(t.args[0], True, known), computing)
            self.walk(t.args[2], self.then(t.args[0], False, known), computing)
            return
        if t.op in ('and', 'or', 'not'):
            return self.cond(t, known)
        if t.op == 'rep' and len(t.args) > 3 and isinstance(t.args[2], tuple):
            # what is stored and then replaced under a condition stays under its negation
            for i, a in enumerate(t.args[2]):
                k = known
                for b in t.args[2][i + 1:]:
                    if isinstance(a, T) and a.op == 'kv' and isinstance(b, T) and b.op == 'altseg':
                        for j in (1, 2):
                            if any(isinstance(x, T) and x.op == 'kv' and x.args[0] == a.args[0] for x in b.args[j]):
                                k = self.then(b.args[0], j == 2, k)
                self.walk(a, k, computing)
            return
        if t.op == 'altseg':
            self.cond(t.args[0], known)
            for j in (1, 2):
                self.walk(t.args[j], self.then(t.args[0], j == 1, known), computing)
            return
        if t.op in CARRY:
            for a in t.args:
                self.walk(a, known, computing)
            return
        if t.op in ('getitem', 'elemof', 'item', 'attr') or t.op in TESTS and self.atom(t) is not None:
            return
        if t.op == 'lin':
            k, ms = to_poly(t)
            for m in ms:
                for a in m:
                    self.walk(a, known, True)
            return
        for a in t.args:
            self.walk(a, known, True)


def implied(pc, isx, missing):
    """values known not to be missing under the conditions"""
    w, known = Walk(isx, missing), frozenset()
    for c, v in pc:
        known = w.then(c, v, known)
    return known


def run(ctx):
    ctx.floor = 60
    ctx.rule('stored', 'NaN is replaced by the missing value in whatever a writer stores')
    ctx.rule('masked', 'whatever a query returns as an array is masked where it equals the missing value of the file')
    ctx.rule('unpacked', 'a packed field with all bits set is the missing value, and no other is; it is not scaled')
    ctx.rule('packed', 'missing cells take part in no computation of the packer and are stored as the highest field')
    ctx.rule('computed', 'a value is computed with only where it is known not to be missing')
    ctx.rule('own', 'the missing value compared with is the one of the file or of the call')
    ctx.rule('sought', 'a level without pressure is not placed among the levels of a sounding')
    ctx.rule('kept', 'a value of a sounding is replaced by one of another part only where it is missing')
    fan(ctx, [lambda c, n=n, ps=ps: limited(200000, merge, c, n, ps) for n, ps in FILES.items()]
        + [lambda c, x=x: stored(c, x) for x in CASES if x.kind != 'grd'] + [grids, packers, readers, helpers])


# ------------------------------------------------------------------ written and read back
def stored(ctx, case):
    n, kind = case.name, case.kind
    ctx.unit(f'{n}: NaN')
    c = case.comp()
    if c.sf is None or c.attrs is None:
        return ctx.undecided(f'{n}: stored', 'composition does not complete')
    d = Roles(c).view.restate(c.d)
    for p, g in leaves_named(d):
        nm = next((x for x in reversed(p) if isinstance(x, str)), '').upper()
        if nm not in NAMES2[kind] or not ({'data_vars', 'values', 'coords'} & set(map(str, p))):
            continue
        k, fills, g = f'{n}: {nm}', [], g
        for x in [y for y in subterms(g) if isinstance(y, T) and y.op == 'fill']:
            fills.append(x.args[1])
        if not any(isinstance(y, T) and y.op == 'param' for y in subterms(g)):
            ctx.undecided(k, 'the stored value is not found')
        elif fills and all(isinstance(v, C) and v.v == -9999 for v in fills):
            ctx.discharge(k)
        elif fills:
            ctx.violation(k, f'NaN is stored as {show(fills[0], 40)}')
        elif any(isinstance(y, T) and y.op in ('ite', 'setitem', 'numpy.where', 'numpy.nan_to_num') for y in subterms(g)):
            ctx.undecided(k, 'not fully interpreted')
        else:
            ctx.violation(k, f'NaN in {nm} is stored as it is')


def leaves_named(d):
    from ..gemcomp import leaves as lv
    return lv(d)


def grids(ctx):
    """what add_grid keeps for the writer"""
    ctx.unit('add_grid: NaN')
    w = attempt(ctx, 'add_grid', lambda: writer('grd'))
    if w is None or w.st is None:
        return ctx.undecided('add_grid: NaN', 'the writer does not complete')
    got = []
    for st in [w.st]:
        for e, pc in st.event_list():
            if e[0] == 'mut' and e[2] == 'setitem' and len(e) > 5 and not isinstance(e[4], C):
                v = codec(w.I.ext.deep(st, e[5])) if isinstance(e[5], V) else None
                if isinstance(v, T) and any(isinstance(x, T) and x.op == 'arg' and x.args[0] == C('grid') for x in subterms(v)):
                    got.append((e, v))
    for e, v in got:
        f = [x for x in subterms(v) if isinstance(x, T) and x.op == 'fill']
        k = f'add_grid: {e[3][2]}'
        if f and all(isinstance(x.args[1], C) and x.args[1].v == -9999 for x in f):
            ctx.discharge(k)
        elif f:
            ctx.violation(k, f'NaN is stored as {show(f[0].args[1], 40)}')
        elif vague(v) or any(isinstance(x, T) and x.op in ('ite', 'numpy.where', 'numpy.nan_to_num') for x in subterms(v)):
            ctx.undecided(k, 'not fully interpreted')
        elif plain(v):
            ctx.violation(k, 'NaN is stored as it is')
    if not got:
        ctx.undecided('add_grid: NaN', 'what is kept is not found')


def plain(v):
    """the grid of the caller, or a copy"""
    while isinstance(v, T) and v.op in ('m.copy', 'asarray', 'numpy.asarray', 'numpy.array', 'numpy.copy', 'astype', 'm.astype', 'getitem', 'elemof'):
        v = v.args[0]
    return grid_arg(v)


# ------------------------------------------------------------------ packers
def grid_arg(t):
    return isinstance(t, T) and t.op == 'arg' and t.args[0] == C('grid')


def packers(ctx):
    ctx.unit('pack_grib')
    M = T('arg', C('M'), '?')
    r = attempt(ctx, 'pack_grib', lambda: program('from gempakio.encode.gempak import pack_grib\nd = pack_grib(grid, M, nbits)\n', ['grid', 'M', 'nbits']))
    if r is None or r.st is None:
        return ctx.undecided('pack_grib', 'does not complete')
    bad, ok, marks = [], [0], []

    def flat(t):
        """the grid, or its cells in a row"""
        while isinstance(t, T) and t.op in ('m.ravel', 'm.flatten', 'numpy.ravel', 'm.reshape', 'm.copy', 'asarray', 'numpy.asarray', 'numpy.array', 'astype', 'm.astype'):
            t = t.args[0]
        return grid_arg(t)

    def test(c):
        """1: where not missing, -1: where missing"""
        s = 1
        while isinstance(c, T) and c.op in ('not', 'truth', 'invert', 'numpy.logical_not'):
            s, c = (-s if c.op != 'truth' else s), c.args[0]
        if isinstance(c, T) and c.op == 'eq' and M in c.args and any(flat(a) for a in c.args):
            return -s
        return 0

    def walk(t, clean):
        if isinstance(t, Tup):
            t = t.items
        if isinstance(t, (tuple, list)):
            for a in t:
                walk(a, clean)
            return
        if not isinstance(t, T) or (id(t), clean) in seen:
            return
        seen.add((id(t), clean))
        keep.append(t)
        if flat(t):
            (ok.__setitem__(0, ok[0] + 1) if clean else bad.append(t))
            return
        if t.op == 'eq' and test(t) or t.op == 'attr' or t.op in ('len', 'shape', 'size'):
            return
        if t.op == 'getitem' and flat(t.args[0]) and test(t.args[1]):
            if test(t.args[1]) < 0:
                bad.append(t)
            else:
                ok[0] += 1
            return
        if t.op in ('numpy.where', 'ite') and len(t.args) == 3 and test(t.args[0]):
            s = test(t.args[0])
            a, b = (t.args[1], t.args[2]) if s > 0 else (t.args[2], t.args[1])
            walk(a, True)
            walk(b, False)
            if t.op == 'numpy.where':
                marks.append(b)
            return
        for a in t.args:
            walk(a, clean)
    seen, keep = set(), []
    walk(r.I.ext.deep(r.st, var(r, 'd')), False)
    top = sub(T('pow', C(2), T('arg', C('nbits'), '?')), C(1))
    if bad:
        ctx.violation('pack_grib: missing cells', f'{show(bad[0], 80)} is computed with where cells may be missing')
    elif ok[0]:
        ctx.discharge('pack_grib: missing cells')
    else:
        ctx.undecided('pack_grib: missing cells', 'no use of the grid found')
    for m in marks:
        if m == top:
            ctx.discharge('pack_grib: mark')
        elif vague(m):
            ctx.undecided('pack_grib: mark', 'not fully interpreted')
        else:
            ctx.violation('pack_grib: mark', f'missing cells are stored as {show(m, 60)}, not with all bits set')
    if not marks:
        ctx.undecided('pack_grib: mark', 'not found')


# ------------------------------------------------------------------ the reader
def readers(ctx):
    for n, make in variants().items():
        ctx.unit(n)
        r = attempt(ctx, n, lambda: read(make('<')))
        if r is None or r.st is None:
            if 'nmc' not in n and 'grib2' not in n:
                ctx.undecided(n, 'the query never completes')
            continue
        masked(ctx, n, r)
        if 'packed' in n or 'realpack' in n:
            fields(ctx, n, r)
        if 'diff packing' in n:
            diff(ctx, n, r)
        if 'grib packing' in n or 'dec packing' in n:
            grib(ctx, n, r)


def masked(ctx, n, r):
    if 'surface' in n or 'nmc' in n or 'grib2' in n:
        return
    d = codec(r.I.ext.deep(r.st, var(r, 'd')))
    found = False
    for p, g in leaves_named(d):
        q = [x for x in p if isinstance(x, str) and x != '*']
        if not (q == ['data'] or len(q) == 2 and q[0] == 'data_vars') or isinstance(g, T) and g.op == 'xarray.DataArray':
            continue
        if isinstance(g, Tup) and len(g.items) == 2 or isinstance(g, T) and g.op in ('tuple', 'list') and len(g.args) == 2:
            g = (g.items if isinstance(g, Tup) else g.args)[1]
        if q[0] == 'data_vars' and isinstance(g, T) and g.op == 'list' and all(isinstance(x, C) for x in g.args):
            continue
        found = True
        k = f'{n}: {q[-1]} is masked'
        for v in whole_of(g):
            if isinstance(v, T) and v.op == 'masked':
                if v.args[1] == FILE_MISSING:
                    ctx.discharge(k)
                else:
                    ctx.violation(k, f'masked where it equals {show(v.args[1], 60)}')
            elif isinstance(v, T) and v.op == 'numpy.ma.array':
                mk = [a.args[1] for a in v.args if isinstance(a, T) and a.op == 'kw' and a.args[0] in (C('mask'), 'mask')]
                base = bare(v.args[0])
                if not mk:
                    ctx.violation(k, 'the array has no mask')
                elif len(mk) == 1 and isinstance(mk[0], T) and mk[0].op == 'eq' and any(bare(a) == base for a in mk[0].args):
                    o = [a for a in mk[0].args if bare(a) != base]
                    if o == [FILE_MISSING]:
                        ctx.discharge(k)
                    else:
                        ctx.violation(k, f'masked where it equals {show(o[0] if o else None, 60)}')
                else:
                    ctx.undecided(k, f'mask {show(mk[0], 80)}')
            elif isinstance(v, T) and v.op in ('numpy.ma.masked_equal', 'numpy.ma.masked_values', 'numpy.ma.masked_where', 'wide', 'phi', 'exit') or vague(v):
                ctx.undecided(k, 'not fully interpreted')
            elif isinstance(v, C):
                continue
            else:
                ctx.violation(k, f'what is returned is not masked: {show(v, 80)}')
    if not found:
        ctx.undecided(f'{n}: masked', 'no returned data found')


def bare(v):
    while isinstance(v, T) and v.op in ('m.reshape', 'numpy.reshape', 'm.ravel', 'numpy.array', 'numpy.asarray', 'asarray'):
        v = v.args[0]
    return v


def whole_of(g):
    if isinstance(g, T) and g.op == 'ite':
        return whole_of(g.args[1]) + whole_of(g.args[2])
    if isinstance(g, T) and g.op in ('getitem', 'numpy.expand_dims', 'm.reshape', 'm.astype', 'astype') and g.args:
        return whole_of(g.args[0])
    return [g]


def cases(v, pc=()):
    if isinstance(v, T) and v.op == 'ite':
        return cases(v.args[1], pc + ((v.args[0], True),)) + cases(v.args[2], pc + ((v.args[0], False),))
    return [(pc, v)]


def ones(c):
    return isinstance(c, C) and isinstance(c.v, int) and c.v > 0 and c.v & (c.v + 1) == 0


def field_tests(pc):
    """{(field, all-ones)} known to be equal, known to differ"""
    eqs, nes = set(), set()
    for c, v in pc:
        while isinstance(c, T) and c.op in ('not', 'truth'):
            v, c = v != (c.op == 'not'), c.args[0]
        if isinstance(c, T) and c.op == 'eq':
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T) and isinstance(y, C):
                    (eqs if v else nes).add((x, y))
    return eqs, nes


def fields(ctx, n, r):
    """numbers packed in integers"""
    seen = False
    for e, pc in r.st.event_list():
        if e[0] != 'mut' or e[2] != 'setitem' or len(e) < 6 or not e[3][2].startswith('GempakFile.') or not isinstance(e[4], V):
            continue
        v = r.I.ext.freeze(r.st, e[5])
        for more, x in cases(v):
            eqs, nes = field_tests(tuple(pc) + more)
            if x == FILE_MISSING:
                k = f'{n}: the missing value, line {e[3][1]}'
                if any(ones(c) and bits(f) == c.v for f, c in eqs):
                    seen = True
                    ctx.discharge(k)
                elif eqs and not any(vague(f) for f, c in eqs) and any(bits(f) is not None for f, c in eqs):
                    f, c = next((f, c) for f, c in eqs if bits(f) is not None)
                    ctx.violation(k, f'a field of {bits(f).bit_length()} bits is missing when it is {c.v}, not when all its bits are set')
                else:
                    ctx.undecided(k, 'when it is stored is not known')
                continue
            fs = packed_in(x)
            for f in fs:
                seen = True
                k = f'{n}: a field of {bits(f).bit_length()} bits'
                if any(g == f and c.v == bits(f) for g, c in nes):
                    ctx.discharge(k)
                else:
                    ctx.violation(k, 'a field with all bits set, which is a missing value, is scaled as a number')
    if not seen:
        ctx.undecided(f'{n}: fields', 'no unpacked field found')


def bits(f):
    """the highest value of a masked field"""
    if isinstance(f, T) and f.op == 'bitand':
        return next((a.v for a in f.args if ones(a)), None)
    if isinstance(f, T) and f.op in ('bitor', 'ite'):
        b = {bits(a) for a in (f.args if f.op == 'bitor' else f.args[1:])}
        return next(iter(b)) if len(b) == 1 else None
    return None


def packed_in(x):
    if not (isinstance(x, T) and x.op == 'lin'):
        return []
    k, ms = to_poly(x)
    return [a for m in ms for a in m if isinstance(a, T) and bits(a) is not None]


def meta(r, name):
    """a word of the description of the packed grid"""
    for v in r.st.heap.values():
        v = getattr(v, 'attrs', None)
        x = v.get('grid_meta_int') if isinstance(v, dict) else None
        for y in subterms(x) if isinstance(x, V) else ():
            if isinstance(y, Tup) and y.nt is not None and name in y.nt.fields:
                return dict(zip(y.nt.fields, y.items))[name]
    return None


def diff(ctx, n, r):
    """every cell of a packed grid of differences"""
    evs = [(e, tuple(pc)) for e, pc in r.st.event_list() if e[0] == 'mut' and e[2] == 'setitem' and len(e) > 5 and e[3][2].startswith('GempakGrid.')
           and isinstance(e[4], Tup) and len(e[4].items) == 2 and all(isinstance(x, T) and x.op == 'idx' for x in e[4].items)]
    flag = bit = None
    for e, pc in evs:
        for c, v in pc:
            for x in subterms(c):
                if isinstance(x, T) and x.op == 'eq' and any(isinstance(a, T) and a.op == 'lin' and any(isinstance(y, T) and y.op == 'pow' for y in subterms(a)) for a in x.args):
                    bit = bit or x
    if not evs:
        return ctx.undecided(f'{n}: cells', 'not found')
    for e, pc in evs:
        v = r.I.ext.freeze(r.st, e[5])
        for more, x in cases(v):
            k = f'{n}: {"the missing value" if x == FILE_MISSING else "a value"} at line {e[3][1]}'
            got = sentinel(pc + (more if x == FILE_MISSING or x.op != 'lin' else ()))
            if x == FILE_MISSING:
                if got == 'missing':
                    ctx.discharge(k)
                elif got is None and bit is None and not any(vague(c) for c, v in pc):
                    ctx.violation(k, 'stored without a test of the field')
                elif got == 'unflagged':
                    ctx.violation(k, 'a field with all bits set is taken as missing in a grid that has no missing values')
                elif got == 'present':
                    ctx.violation(k, 'the missing value is stored for fields that are not missing')
                else:
                    ctx.undecided(k, 'not fully interpreted')
            elif got == 'present':
                ctx.discharge(k)
            elif got in ('missing', 'unflagged'):
                ctx.violation(k, 'a missing field is used as a number')
            elif bit is None:
                ctx.violation(k, 'fields are used without a test for the missing value')
            else:
                rest = [c for c, v in pc if bit in set(subterms(c))]
                if not rest:
                    ctx.violation(k, 'the value is stored, or starts the differences, whether or not the field is missing')
                else:
                    ctx.undecided(k, 'not fully interpreted')


def sentinel(pc):
    """what the conditions say of the field: missing, present, unflagged (all bits set, whatever the flag), None"""
    out = None
    for c, v in pc:
        while isinstance(c, T) and c.op in ('not', 'truth'):
            v, c = v != (c.op == 'not'), c.args[0]
        tests = [x for x in subterms(c) if isinstance(x, T) and x.op == 'eq' and any(isinstance(a, T) and any(isinstance(y, T) and y.op == 'pow' for y in subterms(a)) for a in x.args)]
        if not tests:
            continue
        x = tests[0]
        if c == x:
            return 'unflagged' if v else 'present?'
        for o in [y for y in subterms(c) if isinstance(y, T) and y.op == 'eq0' and isinstance(y.args[0], T) and y.args[0].op == 'rd' and ends_at(y.args[0], 16)]:
            got = [truth_of(c, {o: f, x: e}) for f, e in ((True, True), (True, False), (False, True), (False, False))]
            if got == [False, False, True, False]:
                return 'missing' if v else 'present'
            if got[2:] == [True, False] and got[0]:
                return 'unflagged' if v else 'present?'
            if got == [True, True, False, True]:
                return 'present' if v else 'missing'
        return None
    return out


def truth_of(c, given):
    if c in given:
        return given[c]
    if isinstance(c, C):
        return bool(c.v)
    if not isinstance(c, T):
        return None
    a = [truth_of(x, given) for x in c.args] if c.op in ('not', 'truth', 'and', 'or', 'ite') else []
    if c.op in ('not', 'truth'):
        return None if a[0] is None else a[0] != (c.op == 'not')
    if c.op == 'and':
        return False if False in a else None if None in a else True
    if c.op == 'or':
        return True if True in a else None if None in a else False
    if c.op == 'ite':
        return None if a[0] is None else a[1] if a[0] else a[2]
    return None


def grib(ctx, n, r):
    """the vectorised unpacking"""
    ctx.unit(f'{n}: unpacking')
    M = T('arg', C('missing'), '?')
    calls = []
    N, K, R, S = (T('arg', C(x), '?') for x in ('nbits', 'kxky', 'ref', 'scale'))
    top = sub(T('pow', C(2), N), C(1))
    for given_, m in (('missing', 'missing'), ('no missing', 'None')):
        p = attempt(ctx, f'{n}: {given_}', lambda: program(f'from gempakio.decode.gempak import _unpack_grib\nd = _unpack_grib(b, nbits, kxky, ref, scale, {m})\n',
                                                          ['b', 'nbits', 'kxky', 'ref', 'scale', 'missing']))
        k = f'{n}: {given_} value'
        if p is None or p.st is None:
            ctx.undecided(k, 'does not complete')
            continue
        d = p.I.ext.deep(p.st, var(p, 'd'))
        us = [x for x in subterms(d) if isinstance(x, T) and x.op == 'numpy.where' and len(x.args) == 3 and R in set(subterms(x.args[2])) | set(subterms(x.args[1]))]
        if m == 'None':
            if not us and isinstance(d, T) and d.op == 'lin' or us and us[0].args[0] == FALSE:
                ctx.discharge(k)
            elif us and any(isinstance(x, T) and x.op == 'eq' and top in x.args for x in subterms(us[0].args[0])):
                ctx.violation(k, 'a field with all bits set is taken as missing in a grid without missing values')
            else:
                ctx.undecided(k, 'not fully interpreted')
            continue
        if not us:
            if isinstance(d, T) and d.op == 'lin':
                ctx.violation(k, 'every field is scaled, missing or not')
            else:
                ctx.undecided(k, 'not fully interpreted')
            continue
        c, a, b = us[0].args
        s = True
        while isinstance(c, T) and c.op in ('not', 'truth', 'invert'):
            s, c = s != (c.op != 'truth'), c.args[0]
        if not s:
            a, b = b, a
        parts = [c]
        while any(isinstance(x, T) and x.op in ('and', 'bitand', 'numpy.logical_and') for x in parts):
            parts = [y for x in parts for y in (x.args if isinstance(x, T) and x.op in ('and', 'bitand', 'numpy.logical_and') else (x,))]
        tests = [x for x in parts if isinstance(x, T) and x.op == 'eq']
        rest = [x for x in parts if x not in tests and not (isinstance(x, C) and x.v) and not (isinstance(x, T) and x.op in ('not', 'is_none') and M in set(subterms(x)))]
        if len(tests) != 1 or rest:
            ctx.undecided(k, f'missing where {show(c, 80)}')
            continue
        t = tests[0]
        u = next((x for x in t.args if x != top), None)
        km, ms = to_poly(b) if isinstance(b, V) else (None, {})
        if top not in t.args:
            ctx.violation(k, f'a field is missing where {show(t, 80)}, not where all bits are set')
        elif codec(subst(a, {x: FALSE for x in subterms(a) if isinstance(x, T) and x.op == 'is_none' and x.args[0] == M})) != M:
            ctx.violation(k, f'missing fields become {show(a, 60)}')
        elif b == add(R, mul(S, u)):
            ctx.discharge(k)
        else:
            ctx.undecided(k, 'the value of other fields is not fully interpreted')
    passed(ctx, n, r)


def passed(ctx, n, r):
    """the missing value reaches the unpacking exactly if the flag of the grid says so"""
    k = f'{n}: flag'
    got = [x for x in r.calls17] if hasattr(r, 'calls17') else []
    if not got:
        got = calls_of(n)
    flag = None
    for v in got:
        if isinstance(v, T) and v.op == 'ite' and {v.args[1], v.args[2]} == {FILE_MISSING, NONE}:
            c = v.args[0]
            s = v.args[1] == FILE_MISSING
            while isinstance(c, T) and c.op in ('not', 'truth'):
                s, c = s != (c.op == 'not'), c.args[0]
            if isinstance(c, T) and c.op == 'eq0':
                s, c = not s, c.args[0]
            if isinstance(c, T) and c.op == 'rd' and ends_at(c, 16):
                if s:
                    ctx.discharge(k)
                else:
                    ctx.violation(k, 'fields are taken as missing if the flag of the grid says that there are none')
            else:
                ctx.undecided(k, f'depends on {show(c, 80)}')
        elif v == FILE_MISSING:
            ctx.violation(k, 'fields with all bits set are missing even in a grid without missing values')
        elif v == NONE or isinstance(v, C):
            ctx.violation(k, f'the unpacking is given {show(v, 40)} for the missing value of the file')
        else:
            ctx.undecided(k, 'not fully interpreted')
    if not got:
        ctx.undecided(k, 'the call is not found')


def ends_at(c, want):
    """the constant part of an address is as given: the second word of the description"""
    k, ms = to_poly(c.args[1])
    return k == want


def calls_of(n):
    """the missing value given to each unpacking of the file"""
    got = []
    ref = variants()[n]('<')

    class Watch(Interp):
        def call(self, st, f, args, kw, node):
            name = getattr(getattr(f, 'fn', None) or getattr(f, 'node', None) or f, 'name', None)
            if name == '_unpack_grib':
                v = kw.get('missing_value') if isinstance(kw, dict) else None
                v = v if v is not None else args[5] if len(args) > 5 else NONE
                got.append(self.resolve(st, v))
            return super().call(st, f, args, kw, node)

    def ac(t, st):
        return ref.cond(t, st)
    read(ref, I=Watch(repo=os.path.join(REPO, 'src'), assume_rd=ref.rd, assume_cond=ac))
    return [x for i, x in enumerate(got) if x not in got[:i]]


# ------------------------------------------------------------------ calculations
def helpers(ctx):
    M = T('arg', C('missing'), '?')
    for fn, args in PURE.items():
        ctx.unit(fn)
        names = args.split(', ')
        r = attempt(ctx, fn, lambda: program(f'from gempakio.gemcalc import {fn}\nd = {fn}({args}, missing)\n', names + ['missing']))
        if r is None or r.st is None:
            ctx.undecided(fn, 'does not complete')
            continue
        if fn == 'interp_parameters':
            A, B = T('arg', C('adata'), '?'), T('arg', C('bdata'), '?')

            def isx(t):
                # what lies at one of the two levels, but for its pressure
                if t.op in ('elemof', 'getitem', 'item') and t.args[1] == C(1) and isinstance(t.args[0], T) and t.args[0].op == 'elemof' and A in set(subterms(t.args[0])):
                    return True
                return t.op == 'getitem' and t.args[0] in (A, B) and not isinstance(t.args[1], C)
        else:
            def isx(t):
                return t.op == 'arg' and t.args[0].v in names
        w = Walk(isx, M)
        d = r.I.ext.deep(r.st, var(r, 'd'))
        w.walk(d, frozenset(), False)
        own(ctx, fn, d)
        if w.bad:
            ctx.violation(f'{fn}: values', f'{show(w.bad[0], 60)} is computed with where it may be missing')
        elif any(isx(x) for x in subterms(d) if isinstance(x, T)):
            ctx.discharge(f'{fn}: values')
        else:
            ctx.undecided(f'{fn}: values', 'the result does not depend on the arguments')
    for fn in FILLS:
        ctx.unit(fn)
        r = attempt(ctx, fn, lambda: program(f'from gempakio.gemcalc import {fn}\n{fn}(sounding, missing)\n', ['sounding', 'missing']))
        if r is None or r.st is None:
            ctx.undecided(fn, 'does not complete')
            continue
        for e, pc in r.st.event_list():
            if e[0] == 'mut':
                own(ctx, f'{fn}: line {e[3][1]}', [r.I.ext.freeze(r.st, x) for x in e[4:] if isinstance(x, V)] + [c for c, v in pc])


def own(ctx, key, d):
    bad = fixed(d)
    if bad is None:
        ctx.discharge(f'{key}: missing value')
    else:
        ctx.violation(f'{key}: missing value', f'{show(bad, 60)}: the fixed value {bad_value(bad)} is used instead of the missing value given')


def bad_value(b):
    return next((x.v for x in ([b] if isinstance(b, C) else subterms(b)) if is_fixed(x)), -9999)


def is_fixed(x):
    return isinstance(x, C) and not isinstance(x.v, bool) and isinstance(x.v, (int, float)) and x.v == -9999


def fixed(d):
    """a fixed missing value in a term"""
    for t in d if isinstance(d, list) else [d]:
        if is_fixed(t):
            return t
        for x in subterms(t) if isinstance(t, V) else ():
            if isinstance(x, T) and any(is_fixed(a) for a in x.args) and x.op in ('eq', 'ite', 'list', 'kv'):
                return x
    return None


# ------------------------------------------------------------------ the merge
def merge(ctx, name, parts):
    ctx.unit(name)
    r = attempt(ctx, name, lambda: read(standard('snd', parts), query='d = r.snxarray()\n', syms=['path'] + SYM, cond=given), seconds=300)
    if r is None or r.st is None:
        return ctx.undecided(name, 'the query never completes')
    evs = r.st.event_list()
    profs, src = c16.profiles(r, evs), c16.sources(r, evs, {p[0] for p in parts})
    if not profs:
        return ctx.undecided(name, 'no profiles are built as lists')
    done, tests = set(), {}
    for c in c16.changes(r, evs, profs):
        where = f'{name}: {c.op} in {c.site[2]}, line {c.site[1]}'
        bad = next((x for x, v in c.pc if isinstance(x, T) and x.op == 'eq' and any(is_fixed(a) for a in x.args)), None) \
            or next((v for v in leaves_of(c.value) if is_fixed(v)), None) if c.value is not None else None
        if bad is not None:
            ctx.violation(f'{where}: missing value', f'{show(bad, 60)}: a fixed value is used instead of the missing value of the file')
        elif (where, 'own') not in done:
            done.add((where, 'own'))
            ctx.discharge(f'{where}: missing value')
        sought(ctx, where, c, src, tests, done)
        kept(ctx, where, c, src, profs)


def by_height(p, names):
    return p in ('PPBB', 'PPDD') and 'HGHT' in names


def sought(ctx, where, c, src, tests, done):
    if not isinstance(c.index, T):
        return
    keys = []
    for f in subterms(c.index):
        # what is looked up by its value is not there if it is missing, and mandatory levels below the ground are
        # placed because they compare greater than a pressure that is there
        if isinstance(f, T) and f.op.startswith('bisect.'):
            for v in leaves_of(f.args[1]):
                o = of(v, src)
                if isinstance(o, tuple) and not by_height(o[0], o[1]) and o[0] not in ('TTAA', 'TTCC'):
                    while isinstance(v, T) and v.op in ('abs', 'float', 'numpy.abs', 'numpy.absolute', 'numpy.fabs'):
                        v = v.args[0]
                    keys.append((v, o))
    if not keys:
        return
    if id(c.pc) not in tests:
        tests[id(c.pc)] = implied(c.pc, lambda t: True, FILE_MISSING)
    known = tests[id(c.pc)]
    for v, o in keys:
        k = f'{where}: {o[0]} {o[1][0]}'
        if (k, v, c.pc) in done:
            continue
        done.add((k, v, c.pc))
        if v in known or T('abs', v) in known:
            ctx.discharge(k)
        elif vague(v):
            ctx.undecided(k, 'not fully interpreted')
        else:
            ctx.violation(k, f'{o[0]} {o[1][0]} is placed among the levels without a test for the missing value')


def kept(ctx, where, c, src, profs):
    """DRCT and SPED, TEMP and DWPT are replaced where one of them is missing"""
    if c.op != 'setitem' or c.key not in c16.PAIR or c.index == C(0) or not isinstance(c.index, V):
        return
    os_ = [of(v, src) for v in leaves_of(c.value)]
    if not any(isinstance(o, tuple) for o in os_) or any(isinstance(o, tuple) and by_height(o[0], o[1]) for o in os_):
        return
    k = f'{where}: {c.key} is missing before'
    same, unclear = {c.key, c16.PAIR[c.key]}, False
    for t, v in c.pc:
        while isinstance(t, T) and t.op in ('not', 'truth'):
            v, t = v != (t.op == 'not'), t.args[0]
        if not v or not isinstance(t, T):
            continue
        ps = list(t.args) if t.op == 'or' else [t]
        if all(isinstance(p, T) and p.op == 'eq' and FILE_MISSING in p.args for p in ps):
            ks = [profile_at(next((a for a in p.args if a != FILE_MISSING), None), c.index, profs) for p in ps]
            if all(x in same for x in ks):
                return ctx.discharge(k)
            unclear = unclear or None in ks and any(isinstance(a, T) and a.op in ('getitem', 'elemof', 'item') and a.args[1] == c.index and '?' in bodies(a.args[0], profs)
                                                    for p in ps for a in p.args)
    if unclear or vague(c.value):
        return ctx.undecided(k, 'not fully interpreted')
    ctx.violation(k, f'{c.key} of a level is replaced whether or not it is there')


def profile_at(x, index, profs):
    """the profile whose value at the index a term is"""
    while isinstance(x, T) and x.op in ('abs', 'float'):
        x = x.args[0]
    if not (isinstance(x, T) and x.op in ('getitem', 'elemof', 'item')) or x.args[1] != index:
        return None
    ks = bodies(x.args[0], profs)
    return next(iter(ks)) if len(ks) == 1 else None


def bodies(v, profs):
    """the profiles whose content, whatever was replaced in it, a term is"""
    if isinstance(v, T) and v.op == 'phi':
        m = {int(t) for t in re.findall(r'seq#(\d+)', str(v.args[1]))}
        return {profs.get(a, '?') for a in m} or {'?'}
    if isinstance(v, T) and v.op in ('list', 'spread'):
        return set().union(*[bodies(a, profs) for a in v.args]) if v.args else set()
    if isinstance(v, T) and v.op == 'altseg':
        return set().union(*[bodies(a, profs) for j in (1, 2) for a in v.args[j]])
    if isinstance(v, T) and v.op == 'setitem':
        return bodies(v.args[0], profs)
    if isinstance(v, T) and v.op == 'ite':
        return bodies(v.args[1], profs) | bodies(v.args[2], profs)
    return {'?'}
