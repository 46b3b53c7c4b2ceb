"""Writer and reader composed through the file.

A client program adds entries to a writer and writes the file; its symbolic
stream writes become a `SymFile`; the reader is interpreted over that file.
Everything the reader then knows is a term over the caller's own arguments."""
import re
from .drive import *
from .report import REPO
from .symfile import *

CLIENT = {
    'snd': ('SoundingFile', "f = SoundingFile(['PRES', 'TEMP'])", 'f.add_sounding(data{0}, slat{0}, slon{0}, dt{0}, info{0})', 'GempakSounding', 'snxarray'),
    'sfc': ('SurfaceFile', "f = SurfaceFile(['PMSL', 'TEMP'])", 'f.add_station(data{0}, slat{0}, slon{0}, dt{0}, info{0})', 'GempakSurface', 'sfjson'),
    'grd': ('GridFile', 'f = GridFile(lon, lat, proj, rotation=rot)', 'f.add_grid(grid{0}, pn{0}, vc{0}, lev{0}, dt{0}, lev2{0}, dt2{0})', 'GempakGrid', 'gdxarray'),
}
SYMS = ['slat', 'slon', 'dt', 'path', 'grid', 'lon', 'lat', 'proj', 'pn', 'vc', 'lev', 'lev2', 'dt2', 'rot', ('n', 'int'), 'data', 'info']


class Comp:
    pass


def writer(kind, dt='datetime', many=True, tail='', cond=None, **kw):
    cls, make, addc, *_ = CLIENT[kind]
    make = kw.pop('make', None) or make
    src = f'from gempakio.encode.gempak import {cls}\n{make}\n'
    given = cond
    if many:
        src += f"for k in range(n):\n    {addc.format('[k]')}\n{addc.format('[n]')}\n"
    else:
        src += addc.format('') + '\n'
    src += 'f.to_gempak(path)\n' + tail

    def cond(c, st):
        if given is not None:
            v = given(c, st)
            if v is not None:
                return v
        if c.op == 'isinst' and source(c.args[0]) in ('dt', 'dt2'):
            return str(c.args[1]).split('.')[-1] == dt
        return None
    return program(src, SYMS, assume_cond=cond, **kw)


def source(t):
    """the caller's argument a term selects from, or None"""
    while isinstance(t, T) and t.op in ('getitem', 'elemof', 'upper'):
        t = t.args[0]
    return t.args[0].v if isinstance(t, T) and t.op == 'arg' else None


def compose(kind, dt='datetime', query=True, many=True, cond=None, extra='', word=None, order='<', **kw):
    c = Comp()
    c.kind = kind
    ENUMS.update(enum_ranges())
    c.w = writer(kind, dt, many, cond=cond, make=kw.pop('make', None))
    c.sf = SymFile(c.w.I, c.w.st.event_list(), order) if c.w.st is not None else None
    c.log = {}
    c.r = c.attrs = c.d = None
    c.unres = []
    if c.sf is None:
        return c

    def ard(data, off, code):
        if isinstance(data, T) and data.op not in ('filedata', 'pk', 'pks', 'pad'):
            return None
        v = word(off, code) if word is not None else None
        if v is None:
            v = c.sf.rd(data, off, code)
        c.log[(off, code)] = v
        return v

    def ac(t, st):
        if t.op == 'eq' and any(isinstance(a, T) and a.op == 'bytes' for a in t.args):
            if order == '<' and kw.get('byteorder', 'little') == 'little':
                # the writers only ever store the order they write in
                return True
            return as_stored(c.sf, order, *t.args)
        return cond(t, st) if cond is not None else None
    cls, meth = CLIENT[kind][3:]
    src = f'from gempakio import {cls}\nr = {cls}(path)\n' + (f'd = r.{meth}()\n' if query else '') + extra
    I = Interp(repo=os.path.join(REPO, 'src'), assume_rd=ard, assume_cond=ac, **kw)
    # names of the reader's own loops and orders are kept apart from the writer's
    I.tagbase, I.loopfix = 1000, 'R'
    c.r = program(src, SYMS, I=I)
    c.unres = [(o, k) for (o, k), v in c.log.items() if v is None]
    if c.r.st is not None:
        ob = c.r.st.get(var(c.r, 'r'))
        c.attrs = {k: c.r.I.ext.freeze(c.r.st, v) for k, v in ob.d.items()}
        c.d = c.r.I.ext.freeze(c.r.st, var(c.r, 'd')) if query else None
    return c


def as_stored(sf, order, a, b):
    """whether constant bytes are those of a word of the file"""
    if isinstance(b, C):
        a, b = b, a
    if isinstance(a, C) and isinstance(a.v, bytes) and isinstance(b, T) and b.op == 'bytes' and b.args[-1] == C(4) and len(a.v) == 4:
        v = sf.rd(b.args[0], b.args[1], order + 'i')
        if isinstance(v, C) and isinstance(v.v, int):
            return int.from_bytes(a.v, 'little' if order == '<' else 'big', signed=True) == v.v
    return None


# ------------------------------------------------------------------ codec laws
DIGITS = {'%y': 2, '%m': 2, '%d': 2, '%H': 2, '%M': 2, '%S': 2, '%Y': 4, '%j': 3}
RANGE = {'y': (0, 99), 'Y': (1, 9999), 'm': (1, 12), 'd': (1, 31), 'H': (0, 23), 'M': (0, 59), 'S': (0, 59), 'j': (1, 366)}
FIELD = {'hour': 'H', 'minute': 'M', 'second': 'S', 'day': 'd', 'month': 'm', 'year': 'Y'}


def fmt_digits(f):
    """number of digits a strftime format yields, if it yields only digits"""
    parts = re.findall(r'%.', f)
    if not parts or ''.join(parts) != f or not all(p in DIGITS for p in parts):
        return None
    return sum(DIGITS[p] for p in parts)


def fld(x, f):
    return T('fld', x, C(f))


def digits(x, f):
    """the integer whose digits are strftime(x, f)"""
    v = C(0)
    for p in re.findall(r'%.', f):
        v = add(mul(v, C(10 ** DIGITS[p])), fld(x, p[1]))
    return v


def rng(t):
    """bounds of an integer term built from date fields, or None"""
    k, m = to_poly(t)
    if not isinstance(k, int):
        return None
    # x - n*(x // n) is a remainder
    for mon, c in m.items():
        a = mon[0] if len(mon) == 1 else None
        if isinstance(a, T) and a.op == 'floordiv' and isinstance(c, int) and isinstance(a.args[1], C) and isinstance(a.args[1].v, int) and a.args[1].v > 0 and c % a.args[1].v == 0:
            q = -c // a.args[1].v
            k2, m2 = to_poly(a.args[0])
            rest = {x: y for x, y in m.items() if x != mon}
            if m2 and isinstance(k2, int) and all(rest.get(x) == q * y for x, y in m2.items()):
                r = rng(from_poly(k - q * k2, {x: y for x, y in rest.items() if x not in m2}))
                if r:
                    x, y = sorted((0, q * (a.args[1].v - 1)))
                    return r[0] + x, r[1] + y
    lo = hi = k
    for mon, c in m.items():
        if len(mon) != 1 or not isinstance(c, int):
            return None
        a = mon[0]
        if isinstance(a, T) and a.op == 'floordiv' and isinstance(a.args[1], C) and isinstance(a.args[1].v, int) and a.args[1].v > 0:
            r = rng(a.args[0])
            if r is None:
                return None
            r = r[0] // a.args[1].v, r[1] // a.args[1].v
            x, y = sorted((c * r[0], c * r[1]))
            lo, hi = lo + x, hi + y
            continue
        if isinstance(a, T) and a.op == 'fld':
            r = RANGE[a.args[1].v]
        elif isinstance(a, T) and a.op == 'ite':
            r1, r2 = rng(a.args[1]), rng(a.args[2])
            if r1 is None or r2 is None:
                return None
            r = min(r1[0], r2[0]), max(r1[1], r2[1])
        elif isinstance(a, T) and a.op == 'int' and len(a.args) == 1 and intrange(a.args[0]):
            r = intrange(a.args[0])
        elif isinstance(a, T) and a.op == 'enumval' and isinstance(a.args[0], C) and ENUMS.get(a.args[0].v):
            r = ENUMS[a.args[0].v]
        else:
            return None
        x, y = sorted((c * r[0], c * r[1]))
        lo, hi = lo + x, hi + y
    return lo, hi


ENUMS, NAMES = {}, {}


def enum_ranges():
    """{enum class: (least, greatest value)} of the integer enumerations in the source"""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            for n in ast.walk(ast.parse(open(os.path.join(d, f), encoding='utf-8').read())):
                if isinstance(n, ast.ClassDef) and any('Enum' in ast.dump(b) for b in n.bases):
                    vs = [x.value for x in n.body if isinstance(x, ast.Assign)]
                    if vs and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in vs):
                        NAMES[n.name] = {x.value.value: x.targets[0].id for x in n.body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)}
                        vs = [x.value for x in vs]
                        out[n.name] = (min(vs), max(vs))
    return out


def intrange(x):
    """bounds of int(x) for a piece of a forecast time"""
    if isinstance(x, T) and x.op in ('slice_s', 'getitem') and isinstance(x.args[1], T) and x.args[1].op == 'slice':
        a, b, s = x.args[1].args
        if isinstance(x.args[0], T) and x.args[0].op in ('elemof', 'getitem', 'item') and isinstance(x.args[0].args[0], T) and x.args[0].args[0].op == 're.split':
            if a in (NONE, C(0)) and isinstance(b, C) and isinstance(b.v, int) and b.v > 0:
                return 0, 10 ** b.v - 1
            if isinstance(a, C) and a.v == 3 and b == NONE:
                return 0, 99
    if isinstance(x, T) and x.op in ('elemof', 'getitem', 'item') and isinstance(x.args[0], T) and x.args[0].op == 're.split':
        return 0, 999
    return None


def strdigits(x):
    """an integer written with a fixed number of decimal digits -> (value, digits)"""
    if isinstance(x, T) and x.op == 'strftime' and isinstance(x.args[1], C):
        n = fmt_digits(x.args[1].v)
        return None if n is None else (digits(x.args[0], x.args[1].v), n)
    if isinstance(x, C) and isinstance(x.v, str) and x.v.isdigit():
        return C(int(x.v)), len(x.v)
    if isinstance(x, T) and x.op == 'fv' and isinstance(x.args[1], C):
        f = str(x.args[1].v)
        m = re.fullmatch(r'0(\d+)d?', f)
        if m:
            r = rng(x.args[0])
            n = int(m.group(1))
            if r and r[0] >= 0 and r[1] < 10 ** n:
                return x.args[0], n
        n = fmt_digits(f)
        if n is not None:
            return digits(x.args[0], f), n
        if f == '':
            return strdigits(x.args[0])
    if isinstance(x, T) and x.op == 'concat':
        v, n = C(0), 0
        for a in x.args:
            d = strdigits(a)
            if d is None:
                return None
            v, n = add(mul(v, C(10 ** d[1])), d[0]), n + d[1]
        return v, n
    return None


def stamp(x, f):
    """x as far as a date format keeps it"""
    return T('tominute', x) if {'%y', '%m', '%d', '%H', '%M'} <= set(re.findall('%.', f)) else T('stamp', x, C(f))


def recompose(v, f):
    """the date whose digits under format f are the integer v"""
    for x in subterms(v):
        if isinstance(x, T) and x.op == 'fld' and digits(x.args[0], f) == v:
            return x.args[0]
    return None


CLOCK = {'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'fold'}
BELOW = {'second', 'microsecond'}


def replaced(t):
    """laws of datetime.replace"""
    x = t.args[0]
    if not (isinstance(x, T) and x.op == 'dtreplace'):
        return t
    y, kw = x.args[0], {a.args[0].v: a.args[1] for a in x.args[1:]}
    if t.op == 'fld':
        f = {v: k for k, v in FIELD.items()}.get(t.args[1].v)
        if f in kw:
            return kw[f]
        return fld(y, t.args[1].v) if f is not None and t.args[1].v not in 'yj' or not {'year', 'month', 'day'} & set(kw) else t
    if t.op == 'm.date' and set(kw) <= CLOCK:
        return T('m.date', y)
    if t.op == 'm.time' and not set(kw) & CLOCK:
        return T('m.time', y)
    if t.op == 'tominute' and set(kw) <= BELOW:
        return T('tominute', y)
    if t.op == 'minute' and set(kw) <= BELOW:
        return T('minute', y)
    if t.op == 'stamp':
        used = {{v: k for k, v in FIELD.items()}.get(c[1], 'year') for c in re.findall('%.', t.args[1].v)}
        if not used & set(kw):
            return T('stamp', y, t.args[1])
    return t


def law(t):
    """one codec law at the root of a term"""
    if not isinstance(t, T):
        return t
    if t.op in ('fld', 'm.date', 'm.time', 'tominute', 'minute', 'stamp'):
        r = replaced(t)
        if r is not t:
            return r
    if t.op == 'enumval' and isinstance(t.args[0], C) and isinstance(t.args[1], C):
        for val, nm in NAMES.get(t.args[0].v, {}).items():
            if nm == t.args[1].v:
                return C(val)
    if t.op == 'minute' and isinstance(t.args[0], T) and t.args[0].op == 'm.time':
        y = replaced(T('tominute', t.args[0].args[0]))
        if y.args and y.args[0] != t.args[0].args[0]:
            return T('minute', T('m.time', y.args[0]))
    if t.op in ('ge0', 'gt0', 'eq0'):
        r = rng(t.args[0])
        if r:
            a, b = r
            if t.op == 'ge0' and a >= 0 or t.op == 'gt0' and a > 0 or t.op == 'eq0' and a == b == 0:
                return TRUE
            if t.op == 'ge0' and b < 0 or t.op == 'gt0' and b <= 0 or t.op == 'eq0' and (a > 0 or b < 0):
                return FALSE
    if t.op == 'truth' and isinstance(t.args[0], T) and t.args[0].op in ('stamp', 'tominute'):
        return TRUE
    if t.op == 'int' and len(t.args) == 1:
        d = strdigits(t.args[0])
        if d is None and isinstance(t.args[0], T) and t.args[0].op == 'concat':
            a, *rest = t.args[0].args
            r = strdigits(T('concat', *rest)) if len(rest) > 1 else strdigits(rest[0]) if rest else None
            if r is not None and isinstance(a, T) and a.op == 'fv' and isinstance(a.args[1], C) and re.fullmatch(r'(0?\d+)?d?', str(a.args[1].v)):
                b = rng(a.args[0])
                if b and b[0] >= 0 and (re.fullmatch(r'(0\d+)?d?', str(a.args[1].v)) or b[0] >= 0):
                    d = add(mul(a.args[0], C(10 ** r[1])), r[0]), None
        if d is not None:
            return d[0]
        x = t.args[0]
        if isinstance(x, T) and (x.op == 'fld' or x.op == 'round' and (len(x.args) == 1 or x.args[1] in (NONE, C(0)))):
            return x
    if t.op == 'enumname' and len(t.args) == 2:
        e, x = t.args
        if isinstance(x, T) and x.op == 'enumval' and x.args[0] == e:
            return x.args[1]
        if isinstance(x, C) and isinstance(e, C) and x.v in NAMES.get(e.v, ()):
            return C(NAMES[e.v][x.v])
    if t.op in ('upper', 'lower') and len(t.args) == 1:
        x = t.args[0]
        if isinstance(x, T) and x.op in ('upper', 'lower') and len(x.args) == 1:
            return T(t.op, x.args[0])
        if isinstance(x, C) and isinstance(x.v, str):
            return C(getattr(x.v, t.op)())
        if isinstance(x, T) and x.op == 'ite':
            return ite(x.args[0], rule(T(t.op, x.args[1])), rule(T(t.op, x.args[2])))
    if t.op == 'attr' and isinstance(t.args[1], C) and t.args[1].v in FIELD:
        return fld(t.args[0], FIELD[t.args[1].v])
    if t.op == 'floordiv' and isinstance(t.args[1], C) and isinstance(t.args[1].v, int) and t.args[1].v > 0:
        n = t.args[1].v
        k, m = to_poly(t.args[0])
        if isinstance(k, int) and all(isinstance(c, int) for c in m.values()):
            rest = from_poly(k % n, {a: c for a, c in m.items() if c % n})
            r = rng(rest)
            if r and 0 <= r[0] and r[1] < n:
                return from_poly(k // n, {a: c // n for a, c in m.items() if not c % n})
    if t.op == 'lin':
        u = dates(t)
        if u is not None:
            return u
    if t.op == 'ite' and t.args[0] in (TRUE, FALSE):
        return t.args[1] if t.args[0] == TRUE else t.args[2]
    if t.op == 'strptime' and isinstance(t.args[1], C):
        x, f = t.args[0], t.args[1].v
        if isinstance(x, T) and x.op == 'strftime' and x.args[1] == t.args[1]:
            return stamp(x.args[0], f)
        d = strdigits(x)
        if d is not None and d[1] == fmt_digits(f):
            y = recompose(d[0], f)
            if y is not None:
                return stamp(y, f)
        if isinstance(x, T) and x.op == 'fv' and isinstance(x.args[0], T) and x.args[0].op == 'ite':
            i = x.args[0]
            return ite(i.args[0], rule(T('strptime', T('fv', i.args[1], *x.args[1:]), t.args[1])),
                       rule(T('strptime', T('fv', i.args[2], *x.args[1:]), t.args[1])))
    if t.op in ('m.date', 'm.time'):
        x = t.args[0]
        if isinstance(x, T) and x.op == 'tominute':
            return T('m.date', x.args[0]) if t.op == 'm.date' else T('minute', T('m.time', x.args[0]))
        if isinstance(x, T) and x.op == 'stamp':
            if t.op == 'm.date' and x.args[1].v in ('%y%m%d', '%m%d%y%H%M'):
                y = x.args[0]
                return y if isinstance(y, T) and y.op == 'm.date' else T('m.date', y)
            if t.op == 'm.time' and x.args[1].v in ('%H%M',):
                y = x.args[0]
                return T('minute', y if isinstance(y, T) and y.op == 'm.time' else T('m.time', y))
        if isinstance(x, T) and x.op == 'ite':
            return rule(ite(x.args[0], rule(T(t.op, x.args[1])), rule(T(t.op, x.args[2]))))
    if t.op == 'datetime.datetime.combine':
        a, b = t.args
        if isinstance(a, T) and a.op == 'm.date' and isinstance(b, T) and b.op == 'minute' and b.args[0] == T('m.time', a.args[0]):
            return T('tominute', a.args[0])
    if t.op == 'truediv' and isinstance(t.args[1], C):
        x, k = t.args
        if isinstance(x, T) and x.op == 'round' and (len(x.args) == 1 or x.args[1] in (NONE, C(0))):
            kk, m = to_poly(x.args[0])
            if kk == 0 and len(m) == 1:
                (mon, c), = m.items()
                if c == k.v and len(mon) == 1:
                    return T('nearest', mon[0], C(1 / c))
    if t.op == 'encode' and isinstance(t.args[0], T) and t.args[0].op == 'ite':
        i = t.args[0]
        return rule(ite(i.args[0], rule(T('encode', i.args[1], *t.args[1:])), rule(T('encode', i.args[2], *t.args[1:]))))
    if t.op in ('pks', 'decode', 'strip') and isinstance(t.args[-1 if t.op == 'pks' else 0], T) and t.args[-1 if t.op == 'pks' else 0].op == 'ite':
        k = len(t.args) - 1 if t.op == 'pks' else 0
        i = t.args[k]
        return rule(ite(i.args[0], rule(T(t.op, *t.args[:k], i.args[1], *t.args[k + 1:])), rule(T(t.op, *t.args[:k], i.args[2], *t.args[k + 1:]))))
    if t.op == 'encode' and isinstance(t.args[0], C) and isinstance(t.args[0].v, str):
        return C(t.args[0].v.encode())
    if t.op == 'pks' and isinstance(t.args[1], C) and isinstance(t.args[1].v, bytes) and isinstance(t.args[0], C):
        return C(t.args[1].v[:t.args[0].v].ljust(t.args[0].v, b'\0'))
    if t.op == 'decode' and isinstance(t.args[0], C) and isinstance(t.args[0].v, bytes):
        try:
            return C(t.args[0].v.decode())
        except UnicodeDecodeError:
            return t
    if t.op == 'strip' and len(t.args) == 1 and isinstance(t.args[0], C) and isinstance(t.args[0].v, str):
        return C(t.args[0].v.strip())
    if t.op == 'strip' and len(t.args) == 1:
        x = t.args[0]
        if isinstance(x, T) and x.op == 'decode' and isinstance(x.args[0], T) and x.args[0].op == 'pks':
            n, e = x.args[0].args
            if isinstance(e, T) and e.op == 'encode' and (len(e.args) < 2 or e.args[1] in (C('utf-8'), C('utf8'), C('ascii'))):
                y = e.args[0]
                if isinstance(y, T) and y.op == 'fv' and isinstance(y.args[1], C):
                    m = re.fullmatch(r'<?(\d+)s?', str(y.args[1].v))
                    if m and int(m.group(1)) <= n.v:
                        y = y.args[0]
                return T('text', n, y)
    if t.op in ('getitem', 'elemof') and len(t.args) == 2 and isinstance(t.args[1], C) and isinstance(t.args[1].v, int) and isinstance(t.args[0], T) and t.args[0].op in ('attr', 'getitem', 'elemof', 'm.shape', 're.split', 'split'):
        x = t.args[0]
        if x.op == 'attr' and x.args[1] == C('shape') or x.op in ('re.split', 'split') or x.op == 'getitem' and isinstance(x.args[1], C) and isinstance(x.args[1].v, str):
            return T('item', x, t.args[1])
    if t.op == 'ite' and isinstance(t.args[0], T) and t.args[0].op == 'in' and isinstance(t.args[1], T) and t.args[1].op == 'getitem' \
            and t.args[1].args[0] == t.args[0].args[1] and t.args[1].args[1] == t.args[0].args[0]:
        return T('m.get', t.args[1].args[0], t.args[1].args[1], t.args[2])
    # one value of the caller's {parameter: value} table, whatever the case of its keys
    if t.op in ('kwget', 'dictget') and len(t.args) == 2 and isinstance(t.args[1], C):
        d = t.args[0]
        while isinstance(d, T) and d.op == 'dict' and len(d.args) == 1:
            d = d.args[0]
        if isinstance(d, T) and d.op == 'rep' and d.args[3] == TRUE and len(d.args[2]) == 1 and isinstance(d.args[2][0], T) and d.args[2][0].op == 'kv':
            k, val = d.args[2][0].args
            ix = T('idx', d.args[0])
            if isinstance(k, T) and k.op == 'upper' and isinstance(k.args[0], T) and k.args[0].op in ('elemof', 'getitem', 'item') and k.args[0].args[1] == C(0):
                e = k.args[0].args[0]
                if isinstance(e, T) and e.op == 'elemof' and e.args[1] == ix and isinstance(e.args[0], T) and e.args[0].op == 'items':
                    D = e.args[0].args[0]
                    v = subst(val, {T(o, e, C(1)): T('param', D, t.args[1]) for o in ('elemof', 'getitem', 'item')})
                    if not any(x == ix for x in subterms(v)):
                        return codec(v)
    if t.op == 'ite' and isinstance(t.args[0], T):
        c = t.args[0]
        if c.op == 'truth':
            c = c.args[0]
        if isinstance(c, T) and c.op in ('numpy.isnan', 'math.isnan') and c.args[0] == t.args[2] and isinstance(t.args[1], C):
            return T('fill', t.args[2], t.args[1])
    if t.op in ('setitem', 'numpy.where') and len(t.args) == 3:
        x, k, v = t.args if t.op == 'setitem' else (t.args[2], t.args[0], t.args[1])
        if isinstance(k, T) and k.op == 'numpy.isnan' and k.args[0] == x and isinstance(v, C):
            while isinstance(x, T) and (x.op in ('asarray', 'm.copy', 'numpy.array', 'numpy.copy') and len(x.args) == 1):
                x = x.args[0]
            return T('fill', x, v)
    if t.op in ('numpy.array', 'asarray', 'numpy.asarray') and t.args and isinstance(t.args[0], T):
        x = t.args[0]
        if x.op in ('tuple', 'list') and len(x.args) == 1 and isinstance(x.args[0], T) and x.args[0].op == 'rep' and x.args[0].args[3] == TRUE and len(x.args[0].args[2]) == 1:
            r = x.args[0]
            b = r.args[2][0]
            ix = T('idx', r.args[0])
            if isinstance(b, T) and b.op in ('elemof', 'getitem') and b.args[1] == ix and not any(y == ix for y in subterms(b.args[0])):
                return T('profile', b.args[0], r.args[1])
            if isinstance(b, T) and b.op == 'fill' and isinstance(b.args[0], T) and b.args[0].op in ('elemof', 'getitem') and b.args[0].args[1] == ix \
                    and not any(y == ix for y in subterms(b.args[0].args[0])):
                return T('profile', T('fill', b.args[0].args[0], b.args[1]), r.args[1])
            if isinstance(b, T) and not any(y == ix for y in subterms(b)):
                return T('profile', b, r.args[1])
        if x.op == 'profile':
            return x
    if t.op in ('elemof', 'getitem') and isinstance(t.args[0], T) and t.args[0].op == 'fill':
        f = t.args[0]
        return T('fill', T('elemof', f.args[0], t.args[1]), f.args[1])
    if t.op in ('elemof', 'getitem') and isinstance(t.args[0], T) and t.args[0].op == 'profile' and isinstance(t.args[1], C) and isinstance(t.args[1].v, int):
        f = t.args[0].args[0]
        return T('fill', T('elemof', f.args[0], t.args[1]), f.args[1]) if isinstance(f, T) and f.op == 'fill' else T('elemof', f, t.args[1])
    if t.op == 'numpy.ma.array':
        mk = [a.args[1] for a in t.args if isinstance(a, T) and a.op == 'kw' and a.args[0] == C('mask') or isinstance(a, T) and a.op == 'kw' and a.args[0] == 'mask']
        if len(mk) == 1 and isinstance(mk[0], T) and mk[0].op == 'eq' and t.args[0] in mk[0].args:
            o = [a for a in mk[0].args if a != t.args[0]]
            if len(o) == 1:
                return T('masked', t.args[0], o[0])
    if t.op == 'len' and isinstance(t.args[0], T) and t.args[0].op == 'fill':
        return T('len', t.args[0].args[0])
    if t.op == 'ite' and t.args[0].op == 'ge0':
        # what lies behind the end of a text is empty anyway
        k, m = to_poly(t.args[0].args[0])
        if len(m) == 1 and isinstance(k, int) and k < 0:
            (mon, q), = m.items()
            if q == 1 and len(mon) == 1 and isinstance(mon[0], T) and mon[0].op == 'len':
                x = mon[0].args[0]
                gone = {y: C('') for y in subterms(t.args[1]) if isinstance(y, T) and y.op in ('slice_s', 'getitem') and y.args[0] == x and isinstance(y.args[1], T)
                        and y.args[1].op == 'slice' and isinstance(y.args[1].args[0], C) and isinstance(y.args[1].args[0].v, int) and y.args[1].args[0].v >= -k - 1}
                if gone and codec(subst(t.args[1], gone)) == t.args[2]:
                    return t.args[1]
    if t.op == 'text' and t.args[1] == C(''):
        return C('')
    if t.op == 'text':
        n, y = t.args
        if isinstance(y, T) and y.op == 'slice_s' and y.args[1].op == 'slice' and y.args[1].args[0] in (NONE, C(0)) and y.args[1].args[2] in (NONE, C(1)) \
                and isinstance(y.args[1].args[1], C) and isinstance(y.args[1].args[1].v, int) and y.args[1].args[1].v >= n.v:
            return T('text', n, y.args[0])
    return t


def dates(t):
    """day of x plus its hours and minutes"""
    k, m = to_poly(t)
    st = [a for a in m if len(a) == 1 and isinstance(a[0], T) and a[0].op == 'stamp' and m[a] == 1]
    td = [a for a in m if len(a) == 1 and isinstance(a[0], T) and a[0].op == 'datetime.timedelta' and m[a] == 1]
    if k == 0 and len(m) == 2 and len(st) == len(td) == 1:
        x, f = st[0][0].args
        kw = {a.args[0].v if isinstance(a.args[0], C) else a.args[0]: a.args[1] for a in td[0][0].args if isinstance(a, T) and a.op == 'kw'}
        if f.v == '%y%m%d' and kw == {'hours': fld(x, 'H'), 'minutes': fld(x, 'M')}:
            return T('tominute', x)
    return None


def rule(t):
    prev = None
    while t is not prev and isinstance(t, T):
        prev, t = t, law(t)
        if t == prev:
            break
    return t


def codec(v, memo=None):
    """apply the codec laws everywhere in a term"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, (T, Tup)):
            try:
                if x in memo:
                    return memo[x]
            except TypeError:
                pass
        if isinstance(x, T):
            args = tuple(go(a) for a in x.args)
            y = rebuild(x.op, args) if any(a is not b for a, b in zip(args, x.args)) else x
            y = rule(y)
            memo[x] = y
            return y
        if isinstance(x, Tup):
            y = Tup([go(a) for a in x.items], x.nt)
            memo[x] = y
            return y
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(v)


# ------------------------------------------------------------------ entries
ROW, COL = T('the', C('row')), T('the', C('col'))


def untuple(v):
    """named tuples as plain tuples"""
    if isinstance(v, Tup):
        return Tup([untuple(a) for a in v.items])
    return v


class View:
    """terms of a composition restated for one entry: the header at a row is the
    header of call ROW, that at a column of call COL"""

    def __init__(self, c, row=None, col=None):
        self.c = c
        self.tags = {}
        self.m = {}
        self.find = {v: k[1] for k, v in c.w.I.permids.items() if k[0] == 'find'}
        for tag, name in ((row, ROW), (col, COL)):
            if tag is not None:
                self.tags[tag] = name

    def restate(self, v):
        """perm(tag, i) -> ROW / COL, with i remembered"""
        for x in list(subterms(v)):
            if isinstance(x, T) and x.op == 'perm' and isinstance(x.args[0], C) and x.args[0].v in self.tags:
                nm = self.tags[x.args[0].v]
                self.m.setdefault(nm, set()).add(x.args[1])
        m = {x: self.tags[x.args[0].v] for x in subterms(v) if isinstance(x, T) and x.op == 'perm' and isinstance(x.args[0], C) and x.args[0].v in self.tags}
        v = codec(subst(v, m)) if m else codec(v)
        m = {}
        for x in subterms(v):
            if isinstance(x, T) and x.op == 'find' and self.cell(x):
                m[x] = T('the', C('cell'))
            if isinstance(x, T) and x.op == 'in' and self.stored(x):
                m[x] = T('stored', C('cell'))
        return codec(subst(v, m)) if m else v

    def cell(self, x):
        t = self.find.get(x.args[0].v)
        if t is None:
            return False
        lid, kv = t.args[0], t.args[2]
        key = kv[0].args[0]
        return self.iskey(lid, key, x.args[1])

    def stored(self, x):
        """membership of this entry's key in the table of entries"""
        k, d = x.args
        while isinstance(d, T) and d.op in ('dict', 'keys', 'keysof', 'set', 'list') and len(d.args) == 1:
            d = d.args[0]
        if isinstance(d, T) and d.op == 'rep' and len(d.args[2]) == 1 and d.args[3] == TRUE:
            e = d.args[2][0]
            return self.iskey(d.args[0], e.args[0] if isinstance(e, T) and e.op == 'kv' else e, k)
        return False

    def iskey(self, lid, key, k):
        """k is the key template instantiated for this entry"""
        two = all(isinstance(a, Tup) and len(a.items) == 2 and all(isinstance(b, Tup) for b in a.items) for a in (key, k))
        if not two:
            key, k = Tup([key]), Tup([k])
        ix = T('idx', lid)
        names = [ROW, COL] if two else [COL]
        if len(key.items) != len(k.items) or len(key.items) != len(names):
            return False
        return all(codec(untuple(subst(a, {ix: n}))) == codec(untuple(b)) for a, b, n in zip(key.items, k.items, names))


def leaves(v, path=()):
    """(path, term) of the leaves of a structured value"""
    if isinstance(v, T) and v.op in ('dict', 'list', 'tuple', 'set'):
        for i, a in enumerate(v.args):
            if isinstance(a, T) and a.op == 'kv':
                yield from leaves(a, path)
            else:
                yield from leaves(a, path + (i,))
    elif isinstance(v, T) and v.op == 'kv':
        yield from leaves(v.args[1], path + (key_of(v.args[0]),))
    elif isinstance(v, T) and v.op == 'rep':
        for i, a in enumerate(v.args[2]):
            yield from leaves(a, path + ('*',))
    elif isinstance(v, T) and v.op == 'altseg':
        for j in (1, 2):
            for a in v.args[j] if len(v.args) > j and isinstance(v.args[j], tuple) else ():
                yield from leaves(a, path)
    elif isinstance(v, T) and v.op in ('xarray.Dataset', 'xarray.DataArray', 'm.sortby'):
        for i, a in enumerate(v.args[:1] if v.op == 'm.sortby' else v.args):
            if isinstance(a, T) and a.op == 'kw':
                yield from leaves(a.args[1], path + (key_of(a.args[0]),))
            else:
                yield from leaves(a, path + (('data_vars', 'coords', 'attrs')[i] if v.op == 'xarray.Dataset' else ('data', 'coords', 'dims', 'name')[i],)
                                  if v.op != 'm.sortby' else path)
    elif isinstance(v, Tup) and v.nt is not None and v.items:
        for n, a in zip(v.nt.fields, v.items):
            yield from leaves(a, path + (n,))
    elif isinstance(v, tuple):
        for i, a in enumerate(v):
            yield from leaves(a, path)
    else:
        yield path, v


def key_of(k):
    return k.v if isinstance(k, C) else k


# ------------------------------------------------------------------ judgement
from .canonic import ops, OPAQUE, PLAIN  # noqa: E402
from .textwit import differ  # noqa: E402
CODEC = PLAIN | {'nearest', 'round', 'int', 'truediv', 'floordiv', 'text', 'stamp', 'fld', 'minute', 'tominute', 'm.date', 'm.time', 'dtreplace', 'mod', 'datetime.datetime.combine', 'kw', 'datetime.timedelta', 'slice_s', 'slice',
                 'fv', 'lin', 'param', 'fill', 'getitem', 'item', 'the', 'arg', 'm.get', 'is_none', 'absent', 'attr', 'enum', 'enumval', 'stored', 'profile', 'masked'}


def tidy(v):
    """codec laws, then a decision tree over the conditions"""
    for _ in range(3):
        w = codec(v)
        try:
            w = canon(w)
        except TooBig:
            return codec(v)
        w = codec(w)
        if w == v:
            break
        v = w
    return v


def sources(v):
    """what of the caller's input a value depends on"""
    out = set()
    for x in subterms(v):
        if isinstance(x, T):
            if x.op == 'getitem' and isinstance(x.args[0], T) and x.args[0].op == 'arg':
                out.add((x.args[0].args[0].v, x.args[1]))
            elif x.op == 'm.get' and isinstance(x.args[1], C):
                out.add(('key', x.args[1].v))
            elif x.op == 'getitem' and isinstance(x.args[1], C) and isinstance(x.args[1].v, str):
                out.add(('key', x.args[1].v))
            elif x.op == 'param':
                out.add(('param', x.args[1]))
            elif x.op == 'item':
                out.add(('item', x.args[1]))
    return out


def show(v, n=160):
    r = repr(v)
    return r if len(r) <= n else r[:n] + '...'


def decide(ctx, key, want, got, where):
    """equal: discharged; other sources, or a fully understood other value: violation"""
    want, got = tidy(want), tidy(got)
    if want == got or untuple(want) == untuple(got):
        return ctx.discharge(key)
    m = member_split(want, got)
    if m is not None:
        nm, w, g = m
        return ctx.violation(f'{key} for {nm} := {show(g)}', f'{where}: for {nm} expected {show(w)}')
    w = differ(want, got)
    if w is not None:
        return ctx.violation(f'{key} := {show(got)}', f'{where}: {w[0]!r} becomes {w[2]!r} instead of {w[1]!r}')
    ow, og = ops(want), ops(got)
    if 'reint' in og:
        x = next(x for x in subterms(got) if isinstance(x, T) and x.op == 'reint')
        return ctx.violation(f'{key} := {show(got)}', f'{where}: takes {show(x.args[0], 80)} at byte {x.args[1]} as {x.args[2]}, expected {show(want)}')
    if 'bytes' in og - ow:
        x = next((x for x in subterms(got) if isinstance(x, T) and x.op == 'bytes' and isinstance(x.args[0], T) and x.args[0].op == 'pk'), None)
        if x is not None:
            return ctx.violation(f'{key} := {show(got)}', f'{where}: takes the number {show(x.args[0], 80)} as text, expected {show(want)}')
    x = runtogether(got) if 'concat' in og - ow else None
    if x is not None:
        return ctx.violation(f'{key} := {show(got)}', f'{where}: {show(x, 120)} runs digits of varying number together, so different values are stored alike')
    odd = (og & (OPAQUE | {'rd', 'bytes', 'undef'})) - ow
    if odd:
        return ctx.undecided(key, f'{where}: not resolved ({",".join(sorted(odd))}) {show(got)}')
    sw, sg = sources(want), sources(got)
    if sw != sg and not og - ow - CODEC:
        return ctx.violation(f'{key} := {show(got)}', f'{where}: taken from {fmts(sg - sw) or "less"} instead of {fmts(sw - sg) or "only"} {fmts(sw & sg)}')
    if og - ow - CODEC:
        return ctx.undecided(key, f'{where}: outside the vocabulary ({",".join(sorted(og - ow - CODEC))}) {show(got)}')
    return ctx.violation(f'{key} := {show(got)}', f'{where}: expected {show(want)}')


def member_split(want, got):
    """a member of an enumeration for which the two values are known and differ"""
    for x in subterms(got):
        if isinstance(x, T) and x.op == 'enumval' and isinstance(x.args[0], C) and not isinstance(x.args[1], C):
            e, n = x.args[0].v, x.args[1]
            for nm, val in sorted(NAMES.get(e, {}).items(), key=str):
                if isinstance(nm, int):
                    nm, val = val, nm
                m = {x: C(val), n: C(nm)}
                if isinstance(n, T) and n.op in ('lower', 'upper'):
                    m[T('upper', n.args[0])] = C(str(nm).upper())
                    m[T('lower', n.args[0])] = C(str(nm).lower())
                w, g = tidy(subst(want, m)), tidy(subst(got, m))
                if w != g:
                    if not (ops(w) | ops(g)) - CODEC - {'decode', 'pk', 'upper', 'lower'}:
                        return f'{e}.{nm}', w, g
            return None
    return None


def runtogether(v):
    """an integer read from the digits of a number after which a number of varying width follows"""
    for x in subterms(v):
        if isinstance(x, T) and x.op == 'int' and isinstance(x.args[0], T) and x.args[0].op == 'concat' and len(x.args[0].args) > 1:
            a = x.args[0].args
            if all(isinstance(p, T) and p.op in ('fv', 'str') for p in a) and strdigits(a[0]) is not None and any(strdigits(p) is None for p in a[1:]):
                if all(strdigits(p) is not None or varying(p) for p in a):
                    return x
    return None


def varying(p):
    """a decimal number without fixed width that takes one and two digits"""
    f = p.args[1].v if p.op == 'fv' and isinstance(p.args[1], C) else ''
    r = rng(p.args[0])
    return f in ('', 'd') and r is not None and r[0] <= 9 and r[1] >= 10


def fmts(s):
    return ', '.join(sorted(f'{a}[{b}]' for a, b in s))
