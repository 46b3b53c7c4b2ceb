"""Cases of writer/reader compositions, and the roles of rows and columns in them."""
from .gemcomp import *
from .gemspec import *

PROJ = {
    'mercator': ('MER', 'mercator', None),
    'polar_stereographic': ('STR', 'polar_stereographic', None),
    'stereographic': ('STR', 'stereographic', None),
    'lambert_conformal_conic': ('LCC', 'lambert_conformal_conic', None),
    'orthographic': ('ORT', 'orthographic', None),
    'azimuthal_equidistant': ('AED', 'azimuthal_equidistant', None),
    'equidistant_cylindrical': ('CED', None, 'Equidistant Cylindrical'),
    'gnomonic': ('GNO', None, 'Gnomonic'),
    'lambert_azimuthal_equal_area': ('LEA', None, 'Lambert Azimuthal Equal Area'),
}
SPLIT = '([AFVIG])'


class Case:
    def __init__(self, kind, label, dt='datetime', mode=None, proj='lambert_conformal_conic', letter=None, fhr=None, dt2=False, **kw):
        self.kind, self.label, self.dt, self.proj = kind, label, dt, proj
        self.mode = mode or dt
        self.letter, self.fhr, self.dt2 = letter, fhr, dt2
        self.lev2 = kw.get('lev2', 'int' if dt2 else None)
        self.kw = kw

    @property
    def name(self):
        return f'{self.kind} {self.label}'

    # ------------------------------------------------------------ conditions
    def cond(self, c, st):
        """the caller's choices this case fixes"""
        if not isinstance(c, T):
            return None
        if c.op == 'not':
            v = self.cond(c.args[0], st)
            return None if v is None else not v
        if c.op == 'isinst' and source(c.args[0]) in ('dt', 'dt2'):
            return str(c.args[1]).split('.')[-1] == self.dt
        if self.kind == 'grd':
            x = c.args[0] if c.args else None
            if isinstance(x, T) and x.op in ('getitem', 'elemof', 'arg') and source(x) == 'lev2':
                if c.op == 'is_none':
                    return self.lev2 is None
                if c.op == 'truth' and self.lev2 is None:
                    return False
                if c.op == 'isinst':
                    ty = str(c.args[1]).split('.')[-1].strip("'")
                    return ty == self.lev2 if self.lev2 else ty == 'NoneType'
            if c.op in ('is_none', 'truth') and isinstance(c.args[0], T) and c.args[0].op in ('getitem', 'elemof', 'arg') and source(c.args[0]) == 'dt2':
                return self.dt2 == (c.op == 'truth')
            v = self.projcond(c)
            if v is not None:
                return v
            if self.dt == 'str':
                return self.strcond(c)
        elif self.dt == 'str' and c.op == 'in' and c.args[0] == C('F') and source(c.args[1]) == 'dt':
            return self.mode == 'fcst'
        return None

    def projcond(self, c):
        gem, cf, meth = PROJ[self.proj]
        x = c.args[0] if c.args else None
        if c.op in ('is_none', 'truth') and gmname(x):
            return (cf is None) == (c.op == 'is_none')
        if c.op == 'eq':
            a, b = c.args
            for k, x in ((a, b), (b, a)):
                if isinstance(k, C) and gmname(x):
                    return k.v == cf
                if isinstance(k, C) and isinstance(k.v, str) and methname(x):
                    return meth is not None and k.v == meth
        if c.op == 'in' and isinstance(c.args[0], C) and isinstance(c.args[0].v, str) and methname(c.args[1]):
            return meth is not None and c.args[0].v in meth
        return None

    def strcond(self, c):
        typed = self.letter is not None
        x = c.args[0] if c.args else None
        if c.op in ('eq0', 'ge0', 'gt0'):
            k, m = to_poly(x)
            if len(m) == 1:
                (mon, q), = m.items()
                a = mon[0]
                if len(mon) == 1 and isinstance(a, T) and a.op == 'len':
                    n = None
                    if issplit(a.args[0]):
                        n = 3 if typed else 1
                    elif typed and ispart(a.args[0], 2):
                        n = {'empty': 0, 'short': 3, 'long': 5}[self.fhr]
                    elif a.args[0] == T('upper', a.args[0].args[0]) if isinstance(a.args[0], T) and a.args[0].op == 'upper' else isinstance(a.args[0], T) and a.args[0].op in ('getitem', 'elemof') and source(a.args[0]) in ('dt', 'dt2'):
                        n = 12 + (1 + {'empty': 0, 'short': 3, 'long': 5}[self.fhr] if typed else 0)
                    if n is not None:
                        v = k + q * n
                        return {'eq0': v == 0, 'ge0': v >= 0, 'gt0': v > 0}[c.op]
        if c.op in ('eq', 'truth') and typed:
            if c.op == 'truth' and ispart(x, 2):
                return self.fhr != 'empty'
            if c.op == 'eq':
                for k, y in (c.args, c.args[::-1]):
                    if isinstance(k, C) and ispart(y, 1):
                        return k.v == self.letter
                    if k == C('') and ispart(y, 2):
                        return self.fhr == 'empty'
        return None

    # -------------------------------------------------------- known lengths
    def norm(self, v):
        """parts of the caller's date string, of known length in this case, in one form"""
        if self.kind != 'grd' or self.dt != 'str':
            return v
        n = {'empty': 0, 'short': 3, 'long': 5}.get(self.fhr)

        def go(x):
            if not isinstance(x, T) or x.op not in ('getitem', 'slice_s', 'item', 'elemof'):
                return x
            y, i = x.args[0], x.args[1:]
            whole = isinstance(y, T) and y.op == 'upper' and source(y.args[0]) in ('dt', 'dt2') and not issplit(y)
            if issplit(y) and self.letter is None and i and i[0] in (C(0), C(-1)):
                return y.args[1]
            if not (whole or ispart(y, 2)) or not i:
                return x
            ln = n if not whole else 12 + (1 + n if self.letter else 0)
            if ln is None:
                return x
            b = i[0].args if len(i) == 1 and isinstance(i[0], T) and i[0].op == 'slice' else None
            if b is None:
                if whole and self.letter and i[0] in (C(12), C(12 - ln)):
                    return T('item', T('re.split', C(SPLIT), y), C(1))
                return x
            if len(b) < 2 or any(not isinstance(q, C) or not isinstance(q.v, (int, type(None))) for q in b) or len(b) > 2 and b[2].v not in (None, 1):
                return x
            lo, hi, _ = slice(b[0].v, b[1].v).indices(ln)
            if (lo, hi) == (0, ln):
                return y
            if hi <= lo:
                return C('')
            if whole and self.letter:
                sp = T('re.split', C(SPLIT), y)
                if (lo, hi) == (0, 12):
                    return T('item', sp, C(0))
                if (lo, hi) == (12, 13):
                    return T('item', sp, C(1))
                if lo >= 13:
                    return go(T('getitem', T('item', sp, C(2)), T('slice', C(lo - 13), C(hi - 13), C(None))))
            return T('getitem', y, T('slice', C(lo), C(hi), C(None)))
        return bottomup(v, go)

    def comp(self, query=True, extra='', **kw):
        c = compose(self.kind, self.dt, query, True, cond=self.cond, extra=extra, **kw)
        c.case = self
        return c


def bottomup(v, f):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if not isinstance(x, (T, Tup)):
            return x
        if x not in memo:
            if isinstance(x, Tup):
                memo[x] = Tup([go(a) for a in x.items], x.nt)
            else:
                args = tuple(go(a) for a in x.args)
                y = x if all(a is b for a, b in zip(args, x.args)) else rebuild(x.op, args)
                memo[x] = f(y)
        return memo[x]
    return go(v)


def gmname(x):
    return isinstance(x, T) and x.op in ('m.get', 'getitem') and x.args[1] == C('grid_mapping_name')


def methname(x):
    return x is not None and isinstance(x, T) and x.op == 'attr' and x.args[1] == C('method_name')


def issplit(x):
    return isinstance(x, T) and x.op in ('re.split',) and x.args[0] == C(SPLIT) and source(x.args[1]) in ('dt', 'dt2')


def ispart(x, k):
    return isinstance(x, T) and x.op in ('elemof', 'getitem', 'item') and x.args[1] == C(k) and issplit(x.args[0])


# ------------------------------------------------------------------ roles
def permtags(v):
    return {x.args[0].v for x in subterms(v) if isinstance(x, T) and x.op == 'perm' and isinstance(x.args[0], C)}


class Roles:
    """which ordered set of the writer the rows (columns) of the file are"""

    def __init__(self, c):
        self.c = c
        self.sets = {v: k[0] for k, v in c.w.I.permids.items() if k[0] not in ('find', 'card')}
        self.cards = {k[1]: v for k, v in c.w.I.permids.items() if k[0] == 'card'}
        self.row = self.tag('row_headers')
        self.col = self.tag('column_headers')
        self.view = View(c, self.row, self.col)

    def tag(self, attr):
        v = self.c.attrs.get(attr)
        t = permtags(v) if v is not None else set()
        return min(t) if len(t) == 1 else None

    def count(self, tag):
        s = self.sets.get(tag)
        n = self.cards.get(s)
        return T('card', C(n)) if n is not None else None


def tag_indices(v, tag):
    """index terms with which the ordered set `tag` is accessed in v"""
    return {x.args[1] for x in subterms(v) if isinstance(x, T) and x.op == 'perm' and x.args[0] == C(tag)}


def reps(v):
    """[(loop, count, condition, body terms)] and the literal elements of a frozen list"""
    out, lit = [], []
    for a in v.args if isinstance(v, T) and v.op in ('list', 'tuple') else ():
        if isinstance(a, T) and a.op == 'rep':
            out.append((a.args[0], a.args[1], a.args[3], a.args[2]))
        else:
            lit.append(a)
    return out, lit


def disjoint_from(sf, w, off, want):
    """True if the write cannot touch [off, off+want)"""
    m = sf.match(w, off)
    if m is not None:
        return not sf.hits(w, off, want)
    d = sub(w.pos, off)
    lo = lower(d)
    if lo is not None and lo >= want:
        return True
    if isinstance(w.size, C):
        hi = lower(neg(d))
        if hi is not None and hi >= w.size.v:
            return True
    if to_poly(d)[1] == {} and isinstance(w.size, C):
        return True
    if w.loops and len(to_poly(w.pos)[1]) and not (set(to_poly(off)[1])):
        # strided positions against a constant: no integer solution
        k, mons = to_poly(d)
        if all(len(mm) == 1 and isinstance(mm[0], T) and mm[0].op == 'idx' for mm in mons) and all(isinstance(x, int) for x in mons.values()):
            from math import gcd
            g = 0
            for x in mons.values():
                g = gcd(g, x)
            if g and isinstance(w.size, C) and all((k + s) % g for s in range(-(want - 1), w.size.v)):
                return True
    return False


NONNEG = {'len', 'card', 'idx', 'iters', 'count', 'floordiv'}


def lower(p):
    """a lower bound of a polynomial over non-negative quantities"""
    if not isinstance(p, V):
        return None
    k, mons = to_poly(p)
    for m, c in mons.items():
        for a in m:
            if isinstance(a, T) and a.op == 'ite':
                x = [lower(subst(p, {a: y})) for y in a.args[1:]]
                return None if None in x else min(x)
    lo = k
    fl = {}
    for m, c in mons.items():
        if len(m) == 1 and isinstance(m[0], T) and m[0].op == 'floordiv' and isinstance(m[0].args[1], C):
            fl[m[0]] = c
            continue
        if not all(isinstance(a, T) and a.op in NONNEG for a in m):
            return None
        if c < 0:
            return None
    return lo


def missing_words(ctx, c, key):
    """a word the reader needs that no writer stores"""
    if not c.unres:
        ctx.discharge(f'{key}: every word the reader takes is stored by the writer')
        return
    for off, code in c.unres:
        plain = all(isinstance(a, T) and a.op in NONNEG | {'ite'} for m in to_poly(off)[1] for a in m)
        k = f'{key}: word at {show(off, 60)} format {code}'
        if plain and c.sf.w and all(disjoint_from(c.sf, w, off, code_size(code)) for w in c.sf.w):
            ctx.violation(k, 'the reader takes a word from where the writer stores nothing')
        else:
            ctx.undecided(k, 'no unique store found')


ANGLES = {
    'mercator': (None, 'lon', 'rot'), 'polar_stereographic': ('lat', 'lon', None), 'stereographic': ('lat', 'lon', 'rot'),
    'lambert_conformal_conic': ('par0', 'lon', 'par1'), 'orthographic': ('lat', 'lon', 'rot'), 'azimuthal_equidistant': ('lat', 'lon', 'rot'),
    'equidistant_cylindrical': ('lat', 'lon', 'rot'), 'gnomonic': ('lat', 'lon', 'rot'), 'lambert_azimuthal_equal_area': ('lat', 'lon', 'rot'),
}


# the parameters PROJ gives the operation of a projection; those of the CF description
ORIGIN = {'latitude_of_natural_origin', 'longitude_of_natural_origin', 'false_easting', 'false_northing'}
CF = {'latitude_of_projection_origin', 'longitude_of_projection_origin', 'false_easting', 'false_northing', 'grid_mapping_name'}
OPERATION = {'orthographic': ORIGIN, 'azimuthal_equidistant': ORIGIN, 'gnomonic': ORIGIN, 'lambert_azimuthal_equal_area': ORIGIN,
             'equidistant_cylindrical': ORIGIN | {'latitude_of_1st_standard_parallel'},
             'stereographic': ORIGIN | {'scale_factor_at_natural_origin'}}
DESCRIBED = {'orthographic': CF, 'azimuthal_equidistant': CF, 'lambert_azimuthal_equal_area': CF, 'stereographic': CF | {'scale_factor_at_projection_origin'}}


def present(t, p):
    """t with the questions whether the projection has a parameter answered"""
    def f(x):
        if isinstance(x, T) and x.op in ('in', 'absent') and all(isinstance(a, (C, T)) for a in x.args):
            k = next((a.v for a in x.args if isinstance(a, C) and isinstance(a.v, str)), None)
            about = {a.args[1] for a in subterms(x) if isinstance(a, T) and a.op == 'attr'}
            have = OPERATION.get(p) if C('coordinate_operation') in about else None
            if have is None and any(isinstance(a, T) and 'to_cf' in str(a.args[:2]) for a in subterms(x)):
                have = DESCRIBED.get(p)
            if k is not None and have is not None:
                return C((k in have) == (x.op == 'in'))
        return None
    return subst(t, f)


def meaning(t):
    """which angle of the caller's projection a value is"""
    if isinstance(t, T) and t.op == 'arg' and t.args[0] == C('rot'):
        return 'rot'
    words = set()
    for x in subterms(t):
        if isinstance(x, C) and isinstance(x.v, str):
            s = x.v.lower()
            if 'standard_parallel' in s or 'standard parallel' in s:
                words.add('par')
            elif 'longitude' in s or 'lon_0' in s:
                words.add('lon')
            elif 'latitude' in s or 'lat_0' in s:
                words.add('lat')
    if 'par' in words and len(words) == 1:
        i = [x.args[1].v for x in subterms(t) if isinstance(x, T) and x.op in ('item', 'getitem', 'elemof') and isinstance(x.args[1], C) and isinstance(x.args[1].v, int)]
        return f'par{i[0]}' if len(i) == 1 and isinstance(t, T) and t.op in ('item', 'getitem', 'elemof') else 'par'
    if len(words) == 1 and isinstance(t, T) and t.op not in ('lin', 'ite'):
        return words.pop()
    return None


def angles(ctx, n, case, nav):
    """each projection angle of the caller is in its own navigation word"""
    for i, w in enumerate(ANGLES[case.proj]):
        g = nav.get(f'proj_angle{i + 1}')
        k = f'{n}: proj_angle{i + 1}'
        if w is None:
            continue
        g = present(g, case.proj) if g is not None else None
        m = meaning(g) if g is not None else None
        if m == w:
            ctx.discharge(k)
        elif m is None and not isinstance(g, C):
            ctx.undecided(k, show(g))
        else:
            ctx.violation(f'{k} := {show(g)}', f'the word read as angle {i + 1} of {PROJ[case.proj][0]} holds {m or show(g)}, expected {w}')


LATSHAPE = T('attr', T('arg', C('lat'), '?'), C('shape'), '?')


def corner(n, i):
    return T('getitem', T('arg', C(n), '?'), Tup([C(i), C(i)]))


NAV = {
    'grid_definition_type': C(2), 'left_grid_number': C(1), 'bottom_grid_number': C(1),
    'right_grid_number': T('item', LATSHAPE, C(1)), 'top_grid_number': T('item', LATSHAPE, C(0)),
    'lower_left_lat': corner('lat', 0), 'lower_left_lon': corner('lon', 0), 'upper_right_lat': corner('lat', -1), 'upper_right_lon': corner('lon', -1),
}
ANL = {'analysis_type': C(2), 'grid_ext_left': C(0), 'grid_ext_down': C(0), 'grid_ext_right': C(0), 'grid_ext_up': C(0)}
for _a in ('garea', 'extarea', 'datarea'):
    ANL[f'{_a}_llcr_lat'], ANL[f'{_a}_llcr_lon'] = corner('lat', 0), corner('lon', 0)
    ANL[f'{_a}_urcr_lat'], ANL[f'{_a}_urcr_lon'] = corner('lat', -1), corner('lon', -1)
ANL['datarea_urcrn_lon'] = ANL.pop('datarea_urcr_lon')


def by_name(v):
    """{last path component: value} of a structured value"""
    return {p[-1]: x for p, x in leaves(v) if p}
