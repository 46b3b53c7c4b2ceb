"""C06: what a reader knows of an entry is what the caller gave for that entry."""
from ..gemcheck import *
from ..gemcheck import decide as compare

TYPES = {'A': 'analysis', 'F': 'forecast', 'V': 'forecast', 'G': 'guess', 'I': 'initial'}
CASES = [Case(k, m, 'datetime' if m == 'datetime' else 'str', m if m == 'fcst' else None) for k in ('snd', 'sfc') for m in ('datetime', 'str', 'fcst') if (k, m) != ('sfc', 'fcst')]
CASES += [Case('grd', 'datetime'), Case('grd', 'datetime with second date', dt2=True), Case('grd', 'plain string', 'str'), Case('grd', 'plain strings with second date', 'str', dt2=True)]
CASES += [Case('grd', f'string type {a}, {f} forecast time', 'str', letter=a, fhr=f) for a in 'AFVGI' for f in ('empty', 'short', 'long') if a != 'A' or f == 'empty']
CASES += [Case('grd', f'strings type {a}, {f} forecast time, with second date', 'str', letter=a, fhr=f, dt2=True) for a in 'AFI' for f in ('empty', 'long') if a != 'A' or f == 'empty']


def run(ctx):
    ctx.floor = 60
    ctx.rule('key', 'the value a reader gives a row or column key, restated over the arguments of the call that made the entry, is the caller\'s value in the key\'s own encoding')
    ctx.rule('entry', 'all fields of one entry come from the same row and column')
    for case in CASES:
        one(ctx, case)


def one(ctx, case):
    n, kind = case.name, case.kind
    ctx.unit(n)
    c = case.comp()

    def decide(ctx, key, want, got, what):
        return compare(ctx, key, case.norm(want), case.norm(got), what)
    if c.attrs is None:
        ctx.undecided(f'{n}: composition', 'writer or reader does not complete')
        return
    R = Roles(c)
    if kind == 'grd':
        spec, query = grid_spec(case), grid_query(case)
    else:
        spec = station_spec(kind, case.mode)
        query = spec
    rk, ck = KEYS[kind]
    for attr, keys in (('row_headers', rk), ('column_headers', ck)):
        v = c.attrs.get(attr)
        if v is None:
            ctx.undecided(f'{n}: {attr}', 'not found')
            continue
        got = by_name(R.view.restate(v))
        for k in keys:
            if k == 'GRID':
                continue
            if k not in got:
                ctx.violation(f'{n}: {attr}.{k}', f'no value for key {k}') if got and not any(isinstance(x, T) and x.op == 'altseg' for x in subterms(v)) else ctx.undecided(f'{n}: {attr}.{k}', 'not found')
                continue
            decide(ctx, f'{n}: {attr}.{k}', spec[k], got[k], f'key {k}')
        order(ctx, f'{n}: {attr}', v, R.row if attr == 'row_headers' else R.col)
    info = {'snd': '_sninfo', 'sfc': '_sfinfo', 'grd': '_gdinfo'}[kind]
    if info in c.attrs:
        v = c.attrs[info]
        entry(ctx, f'{n}: {info}', v, R)
        got = by_name(R.view.restate(v))
        for k, g in got.items():
            if k in spec and k not in ('TYPE',) or kind == 'grd' and k in spec:
                decide(ctx, f'{n}: {info}.{k}', spec[k], g, f'{k} of an entry')
        for k, tag in (('DTNO', R.row), ('ROW', R.row), ('SNDNO', R.col), ('COL', R.col), ('GRIDNO', R.col)):
            ix = tag_indices(v, tag)
            if k in got and len(ix) == 1:
                decide(ctx, f'{n}: {info}.{k}', next(iter(ix)), got[k], f'{k} of an entry')
    if c.d is not None:
        entry(ctx, f'{n}: query', c.d, R)
        d = R.view.restate(c.d)
        for p, g in leaves(d):
            p = [q for q in p if q not in (0, '*')]
            if not p or 'data_vars' in p or 'values' in p:
                continue
            f = p[-1]
            while isinstance(g, T) and g.op in ('numpy.atleast_1d', 'list') and len(g.args) == 1:
                g = g.args[0]
            if kind == 'grd' and f in query and (len(p) > 1 or f == 'name'):
                decide(ctx, f'{n}: query {f}', query[f], g, f'{f} of a returned grid')
            elif kind != 'grd' and f in query and f in ('time', 'date_time', *MEANING) and ('attrs' in p or 'coords' in p or 'properties' in p):
                decide(ctx, f'{n}: query {f}', query[f], g, f'{f} of a returned entry')


def order(ctx, key, v, tag):
    """header i is that of row (column) i"""
    if tag is None:
        return
    rs, lit = reps(v)
    if len(rs) != 1 or lit:
        return ctx.undecided(f'{key} order', 'not one list of headers')
    lid, count, cond, body = rs[0]
    ix = set().union(*[tag_indices(b, tag) for b in body])
    if ix == {T('idx', lid)}:
        ctx.discharge(f'{key} order')
    elif all(isinstance(i, T) and i.op == 'idx' or isinstance(i, C) for i in ix):
        ctx.violation(f'{key} order', f'header number {T("idx", lid)} is that of entry {", ".join(map(show, ix))}')
    else:
        ctx.undecided(f'{key} order', ', '.join(map(show, ix)))


def entry(ctx, key, v, R):
    for nm, tag in (('row', R.row), ('column', R.col)):
        if tag is None:
            continue
        ix = tag_indices(v, tag)
        if len(ix) == 1:
            ctx.discharge(f'{key}: one {nm}')
        elif len(ix) > 1 and all(isinstance(i, T) and i.op == 'idx' or isinstance(i, C) for i in ix):
            ctx.violation(f'{key}: one {nm}', f'fields of one entry come from different {nm}s: {", ".join(sorted(map(show, ix)))}')
        else:
            ctx.undecided(f'{key}: one {nm}', ', '.join(sorted(map(show, ix))))


# ------------------------------------------------------------------ grids
def gmoment(case, d):
    """(initial moment, type, hours, minutes) a grid date argument means"""
    if case.dt == 'datetime':
        return d, None, None, None
    u = T('upper', d)
    if case.letter is None:
        return T('strptime', u, C('%Y%m%d%H%M')), None, None, None
    s = T('re.split', C(SPLIT), u)
    m = T('strptime', T('item', s, C(0)), C('%Y%m%d%H%M'))
    if case.letter == 'A':
        return m, None, None, None
    f = T('item', s, C(2))
    if case.fhr == 'empty':
        h, q = C(0), C(0)
    elif case.fhr == 'short':
        h, q = T('int', f), C(0)
    else:
        h, q = T('int', T('getitem', f, T('slice', NONE, C(3), NONE))), T('int', T('getitem', f, T('slice', C(3), NONE, NONE)))
    return m, TYPES[case.letter], h, q


def delta(h, m):
    return T('datetime.timedelta', T('kw', C('hours'), h), T('kw', C('minutes'), m))


def datefields(case, d):
    m, ty, h, q = gmoment(case, d)
    if ty is None:
        return T('stamp', m, C('%y%m%d')), Tup([C('analysis'), delta(T('fld', m, C('H')), T('fld', m, C('M')))]), at_minute(m), 'analysis'
    return at_minute(m), Tup([C(ty), delta(h, q)]), add(at_minute(m), delta(h, q)), ty


def grid_spec(case):
    g1, t1, full, ty = datefields(case, A('dt'))
    out = {'GDT1': g1, 'GTM1': t1, 'DATTIM1': full, 'TYPE': C(ty)}
    if case.dt2:
        g2, t2, full2, _ = datefields(case, A('dt2'))
    else:
        g2, t2, full2 = NONE, Tup([C('analysis'), delta(C(0), C(0))]), NONE
    out.update(GDT2=g2, GTM2=t2, DATTIM2=full2)
    l1, l2 = T('int', A('lev')), T('int', A('lev2'))
    out['GLV1'] = out['LEVEL1'] = ite(ge0(l1), l1, NONE)
    out['GLV2'] = out['LEVEL2'] = ite(ge0(l2), l2, NONE) if case.lev2 else NONE
    out['GVCD'] = out['COORD'] = ite(T('is_none', A('vc')), C('NONE'), T('upper', A('vc')))
    fv = T('fv', T('upper', A('pn')), C('<12s'), C(-1))
    ps = [text(4, T('slice_s', fv, T('slice', C(4 * i), C(4 * i + 4), NONE)) if i else fv) for i in range(3)]
    for i, x in enumerate(ps):
        out[f'GPM{i + 1}'] = x
    out['PARM'] = T('concat', *ps)
    return out


def grid_query(case):
    s = grid_spec(case)
    return {'time': s['DATTIM1'], 'grid_type': s['TYPE']}
