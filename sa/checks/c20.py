"""C20: navigation angles and corners reach the projection parameter of their own.

The reader is interpreted over a grid file whose navigation and analysis words
are symbols named after their word number in the block; the projection it builds,
the coordinates derived from it and the block fields must be terms over exactly
the words GEMPAK assigns to them.  The writer is composed with the reader for
every projection it supports."""
from ..gemcheck import *

# projection code -> PROJ name, family (GEMPAK: CYL, AZM, CON)
CODES = {
    'MER': ('merc', 'azm'), 'NPS': ('stere', 'azm'), 'SPS': ('stere', 'azm'), 'LCC': ('lcc', 'con'), 'SCC': ('lcc', 'con'), 'CED': ('eqc', 'azm'), 'MCD': ('eqc', 'mcd'),
    'NOR': ('ortho', 'azm'), 'SOR': ('ortho', 'azm'), 'STR': ('stere', 'azm'), 'AED': ('aeqd', 'azm'), 'ORT': ('ortho', 'azm'), 'LEA': ('laea', 'azm'), 'GNO': ('gnom', 'azm'),
}
NAVW = {'grid_definition_type': 1, 'left_grid_number': 3, 'bottom_grid_number': 4, 'right_grid_number': 5, 'top_grid_number': 6, 'lower_left_lat': 7, 'lower_left_lon': 8,
        'upper_right_lat': 9, 'upper_right_lon': 10, 'proj_angle1': 11, 'proj_angle2': 12, 'proj_angle3': 13}
ANLW = {1: ['analysis_type', 'delta_n', 'delta_x', 'delta_y', None], 2: ['analysis_type', 'delta_n', 'grid_ext_left', 'grid_ext_down', 'grid_ext_right', 'grid_ext_up']}
for _v in ANLW.values():
    for _a in ('garea', 'extarea', 'datarea'):
        _v += [f'{_a}_llcr_lat', f'{_a}_llcr_lon', f'{_a}_urcr_lat', f'{_a}_urcr' + ('n' if _a == 'datarea' else '') + '_lon']


def nav(k):
    return T('arg', C(f'nav{k}'), 'float')


def anl(k):
    return T('arg', C(f'anl{k}'), 'float')


AVG = add(mul(C(0.5), nav(7)), mul(C(0.5), nav(9)))
PARAMS = {
    'azm': {'lat_0': nav(11), 'lon_0': nav(12)}, 'con': {'lat_1': nav(11), 'lon_0': nav(12), 'lat_2': nav(13)},
    'mcd': {'lat_0': AVG, 'lon_0': nav(12)},
}
WANT_PROJ = {'mercator': 'merc', 'polar_stereographic': 'stere', 'stereographic': 'stere', 'lambert_conformal_conic': 'lcc', 'orthographic': 'ortho', 'azimuthal_equidistant': 'aeqd',
             'equidistant_cylindrical': 'eqc', 'gnomonic': 'gnom', 'lambert_azimuthal_equal_area': 'laea'}


def run(ctx):
    ctx.floor = 60
    ctx.rule('reader slots', 'for every projection code and analysis type, each projection parameter, corner, grid size and block field the reader derives is a term over '
             'exactly the navigation or analysis word GEMPAK assigns to it; other codes are rejected')
    ctx.rule('writer slots', 'for every projection the writer supports, the parameters and corners the reader derives from the file are those of the caller\'s projection and grid')
    first = Case('grd', 'datetime')
    c = first.comp(query=False)
    base = None
    if c.attrs is not None:
        lab = by_name(c.attrs.get('dm_label'))
        fk = lab.get('file_keys_ptr')
        if isinstance(fk, C) and isinstance(fk.v, int):
            base = (fk.v - 1) * 4 + 2 * 3 * 4 + 4
    if base is None:
        ctx.undecided('position of the navigation block', 'not found')
    else:
        for i, code in enumerate(CODES):
            reader(ctx, first, base, code, 1 + i % 2, CODES[code])
        reader(ctx, first, base, 'LCC', 1, CODES['LCC'], suffix=' analysis 1')
        for code in ('UTM', 'ABC'):
            reject(ctx, first, base, code)
    for p in PROJ:
        write(ctx, p, False)
    for p in ('lambert_conformal_conic', 'stereographic'):
        write(ctx, p, True)


def words_of(v):
    return {x.args[0].v for x in subterms(v) if isinstance(x, T) and x.op == 'arg'}


def words(base, code, ant):
    def word(off, k):
        if not (isinstance(off, C) and isinstance(off.v, int)):
            return None
        d = off.v - base
        if d == 4 and k.endswith('s'):
            return C(code.encode().ljust(4)[:int(k[:-1] or 1)])
        if 0 <= d < 52:
            return nav(d // 4 + 1) if d % 4 == 0 and k[-1] == 'f' else T('arg', C(f'nav byte {d} as {k}'), '?')
        d -= 1028
        if d == 0 and k[-1] == 'f':
            return C(float(ant))
        if 0 <= d < 68 + 4 * (ant == 2):
            return anl(d // 4 + 1) if d % 4 == 0 and k[-1] == 'f' else T('arg', C(f'anl byte {d} as {k}'), '?')
        return None
    return word


def plain(v, crs):
    """coordinate terms in one vocabulary"""
    def f(x):
        if not isinstance(x, T):
            return x
        if x == crs:
            return T('crs')
        if x.op == 'astype' or x.op in ('float', 'numpy.float32') and len(x.args) == 1:
            return x.args[0]
        if x.op == 'pyproj.Proj' and x.args == (T('crs'),):
            return T('proj')
        if x.op in ('getitem', 'item', 'elemof') and len(x.args) == 2 and isinstance(x.args[1], C):
            return T('nth', x.args[0], x.args[1])
        if x.op == 'call' and x.args and x.args[0] == T('proj'):
            pos, kw = split(x.args[1:])
            if len(pos) == 2 and kw in ({}, {'inverse': C(False)}, {'inverse': C(True)}):
                return T('inv' if kw.get('inverse') == C(True) else 'fwd', *pos)
        if x.op == 'numpy.linspace':
            pos, kw = split(x.args)
            pos += [kw.pop(k) for k in ('start', 'stop', 'num')[len(pos):] if k in kw]
            kw.pop('dtype', None)
            if len(pos) == 3 and all(k == 'endpoint' and v == C(True) for k, v in kw.items()):
                return T('linspace', *pos)
        if x.op == 'numpy.meshgrid':
            pos, kw = split(x.args)
            kw.pop('copy', None)
            if len(pos) == 2 and kw in ({}, {'indexing': C('xy')}):
                return T('mesh', *pos)
        return x
    return bottomup(v, f)


def split(args):
    pos, kw = [], {}
    for a in args:
        if isinstance(a, T) and a.op == 'kw':
            kw[a.args[0].v if isinstance(a.args[0], C) else a.args[0]] = a.args[1]
        else:
            pos.append(a)
    return pos, kw


KNOWN = {'crs', 'proj', 'nth', 'inv', 'fwd', 'linspace', 'mesh', 'arg', 'int', 'lin', 'getitem', 'item', 'elemof', 'attr', 'len', 'ite', 'eq', 'eq0', 'not'}


def coord(ctx, key, want, got):
    if got is None:
        return ctx.undecided(key, 'no value')
    if want == got:
        return ctx.discharge(key)
    odd = ops(got) - KNOWN
    if odd:
        return ctx.undecided(key, f'outside the vocabulary ({",".join(sorted(odd))}) {show(got)}')
    ctx.violation(f'{key} := {show(got, 200)}', f'expected {show(want, 200)}')


def crsdict(v):
    if isinstance(v, T) and v.op in ('pyproj.CRS.from_dict', 'pyproj.CRS', 'pyproj.CRS.from_user_input') and v.args:
        d = v.args[0]
        if isinstance(d, T) and d.op == 'dict' and all(isinstance(k, T) and k.op == 'kv' for k in d.args):
            return {k.args[0].v if isinstance(k.args[0], C) else k.args[0]: k.args[1] for k in d.args}
    return None


def reader(ctx, case, base, code, ant, spec, suffix=''):
    n = f'projection {code}{suffix}'
    ctx.unit(n)
    c = case.comp(query=False, word=words(base, code, ant), extra='pp = r.project_point(slon, slat)\n')
    if c.attrs is None:
        if c.r.raises and c.r.st is None:
            return ctx.violation(f'{n}: rejected', f'every path of the reader raises: {show(c.r.raises[-1][1] if len(c.r.raises[-1]) > 1 else "", 120)}')
        return ctx.undecided(n, 'reader does not complete')
    a = c.attrs
    # ------------------------------------------------------------ parameters
    params(ctx, n, a.get('crs'), spec[0], PARAMS[spec[1]])
    if spec[1] == 'mcd':
        d = crsdict(a.get('crs')) or {}
        k = d.get('k_0')
        w = T('ite', None, T('truediv', C(1), T('math.cos', T('math.radians', AVG))), nav(11))
        if isinstance(k, T) and k.op == 'ite':
            coord_ite = (k.args[1], k.args[2]) if str(k.args[0].op) in ('eq', 'eq0') else (k.args[2], k.args[1])
            if coord_ite == (w.args[1], w.args[2]) and {x.args[0].v for x in subterms(k.args[0]) if isinstance(x, T) and x.op == 'arg'} == {'nav11'}:
                ctx.discharge(f'{n}: k_0')
            elif words_of(coord_ite[0]) == {'nav7', 'nav9'} and words_of(coord_ite[1]) == words_of(k.args[0]) == {'nav11'}:
                ctx.undecided(f'{n}: k_0', show(k))
            else:
                ctx.violation(f'{n}: k_0 := {show(k, 200)}', 'expected 1/cos of the mean corner latitude if angle 1 is 0, else angle 1')
        else:
            ctx.undecided(f'{n}: k_0', show(k) if k is not None else 'absent')
    # ----------------------------------------------------------- coordinates
    crs = a.get('crs')
    P = {k: plain(a.get(k), crs) for k in ('x', 'y', 'lon', 'lat')}
    ll, ur = T('fwd', nav(8), nav(7)), T('fwd', nav(10), nav(9))
    nx, ny = T('int', nav(5)), T('int', nav(6))
    for i, (ax, m) in enumerate((('x', nx), ('y', ny))):
        w = T('linspace', T('nth', ll, C(i)), T('nth', ur, C(i)), m)
        coord(ctx, f'{n}: {ax}', w, P[ax])
        P[ax] = w if P[ax] == w else None
    if P['x'] is not None and P['y'] is not None:
        g = T('mesh', P['x'], P['y'])
        inv = T('inv', T('nth', g, C(0)), T('nth', g, C(1)))
        for i, ax in enumerate(('lon', 'lat')):
            coord(ctx, f'{n}: {ax}', T('nth', inv, C(i)), P[ax])
    pp = c.r.I.ext.freeze(c.r.st, var(c.r, 'pp'))
    coord(ctx, f'{n}: project_point', T('fwd', T('arg', C('slon'), '?'), T('arg', C('slat'), '?')), plain(pp, crs))
    for ax, w in (('kx', nx), ('ky', ny)):
        coord(ctx, f'{n}: {ax}', w, a.get(ax))
    # ---------------------------------------------------------------- blocks
    nb, ab = by_name(a.get('navigation_block')), by_name(a.get('analysis_block'))
    for f, k in NAVW.items():
        block(ctx, f'{n}: navigation_block.{f}', nav(k), nb.get(f))
    p = nb.get('projection')
    if isinstance(p, C):
        if str(p.v).strip() == code:
            ctx.discharge(f'{n}: navigation_block.projection')
        else:
            ctx.violation(f'{n}: navigation_block.projection := {p.v!r}', f'the file says {code}')
    for k, f in enumerate(ANLW[ant]):
        if f:
            w = C(float(ant)) if k == 0 else anl(k + 1)
            block(ctx, f'{n}: analysis_block.{f} (type {ant})', w, ab.get(f))


def block(ctx, key, want, got):
    if got is None:
        ctx.undecided(key, 'no such field')
    else:
        coord(ctx, key, want, got)


def params(ctx, n, crs, name, want):
    d = crsdict(crs)
    if d is None:
        return ctx.undecided(f'{n}: projection parameters', show(crs) if crs is not None else 'no projection')
    p = d.get('proj')
    if p == C(name):
        ctx.discharge(f'{n}: proj')
    elif isinstance(p, C):
        ctx.violation(f'{n}: proj := {p.v}', f'expected {name}')
    else:
        ctx.undecided(f'{n}: proj', show(p) if p is not None else 'absent')
    for k, w in want.items():
        g = d.get(k)
        if g is None:
            ctx.violation(f'{n}: {k} missing', f'the projection is built without {k}')
        else:
            coord(ctx, f'{n}: {k}', w, g)
    for k, g in d.items():
        if isinstance(g, V) and any(isinstance(x, T) and x.op == 'arg' and str(x.args[0].v).startswith('nav') for x in subterms(g)) and k not in want and k not in ('k_0', 'lat_ts', 'k'):
            ctx.violation(f'{n}: {k} := {show(g)}', 'a navigation word goes into a parameter it has no meaning for')


def reject(ctx, case, base, code):
    n = f'projection {code}'
    c = case.comp(query=False, word=words(base, code, 2))
    if c.attrs is None and c.r.raises:
        ctx.discharge(f'{n}: rejected')
    elif c.attrs is not None and crsdict(c.attrs.get('crs')):
        ctx.violation(f'{n}: accepted', f'an unsupported projection is read as {show(c.attrs.get("crs"))}')
    else:
        ctx.undecided(f'{n}: rejected', 'reader completes')


# ------------------------------------------------------------------ writer
def write(ctx, p, xy):
    case = Case('grd', f'writer projection {p}' + (' use_xy' if xy else ''), proj=p)
    n = case.name
    ctx.unit(n)
    c = case.comp(query=False, make='f = GridFile(lon, lat, proj, use_xy=True, rotation=rot)' if xy else None)
    if c.attrs is None:
        if c.w.st is None or c.r.raises and not c.unres:
            return ctx.violation(f'{n}: rejected', 'every path raises on a supported projection')
        return ctx.undecided(n, 'writer or reader does not complete')
    nv = {k: Roles(c).view.restate(v) for k, v in by_name(c.attrs.get('navigation_block')).items()}
    angles(ctx, n, case, nv)
    pr = nv.get('projection')
    if isinstance(pr, C):
        if str(pr.v).strip() == PROJ[p][0]:
            ctx.discharge(f'{n}: code')
        else:
            ctx.violation(f'{n}: code := {pr.v!r}', f'expected {PROJ[p][0]}')
    d = crsdict(c.attrs.get('crs'))
    if d is not None:
        g = d.get('proj')
        if g == C(WANT_PROJ[p]):
            ctx.discharge(f'{n}: read back as {WANT_PROJ[p]}')
        elif isinstance(g, C):
            ctx.violation(f'{n}: read back as {g.v}', f'expected {WANT_PROJ[p]}')
        names = {'lon_0': 'lon', 'lat_1': 'par0', 'lat_2': 'par1'} if p == 'lambert_conformal_conic' else {'lon_0': 'lon', 'lat_0': None if p == 'mercator' else 'lat'}
        for k, w in names.items():
            if w is None or k not in d:
                continue
            v = present(d[k], p)
            m = meaning(v)
            if m == w:
                ctx.discharge(f'{n}: read back {k}')
            elif m is None and not isinstance(v, C):
                ctx.undecided(f'{n}: read back {k}', show(v))
            else:
                ctx.violation(f'{n}: read back {k} := {show(d[k])}', f'{k} comes from {m}, expected {w}')
    exp = dict(NAV)
    if xy:
        A = {k: T('arg', C(k), '?') for k in ('lon', 'lat', 'proj')}
        exp['right_grid_number'], exp['top_grid_number'] = T('len', A['lon']), T('len', A['lat'])
        for e, i in (('lower_left', 0), ('upper_right', -1)):
            inv = T('inv', T('nth', A['lon'], C(i)), T('nth', A['lat'], C(i)))
            exp[f'{e}_lon'], exp[f'{e}_lat'] = T('nth', inv, C(0)), T('nth', inv, C(1))
    for f, w in exp.items():
        g = nv.get(f)
        if g is None:
            ctx.undecided(f'{n}: {f}', 'no such field')
            continue
        if xy:
            g = plain(subst(g, {T('arg', C('proj'), '?'): T('proj')}), None)
            if f.endswith('_grid_number') and isinstance(g, T) and g.op == 'nth':
                g = norm_len(g)
        coord(ctx, f'{n}: {f}', tidy(w), tidy(g)) if not xy else coord(ctx, f'{n}: {f}', w, g)


def norm_len(g):
    """shape[0] and size of a one-dimensional array are its length"""
    x = g.args[0]
    if isinstance(x, T) and x.op == 'attr' and x.args[1] == C('shape') and g.args[1] == C(0):
        return T('len', x.args[0])
    return g
