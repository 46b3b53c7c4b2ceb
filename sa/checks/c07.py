"""C07: pointers and data blocks of writer and reader agree; nothing overlaps."""
from ..layout import *
from ..report import attempt
from ..symfile import SymFile
from ..gemcomp import Comp
from ..textwit import value, No

CASES = [Case('snd', 'datetime'), Case('sfc', 'datetime'), Case('grd', 'datetime')]
NAMES2 = {'snd': ('PRES', 'TEMP'), 'sfc': ('PMSL', 'TEMP')}


def run(ctx):
    ctx.floor = 30
    ctx.rule('data', 'following the pointer of a row and column, the reader obtains, parameter by parameter, the data the caller added for that row and column')
    ctx.rule('listed', 'an entry is listed for a row and column exactly when data were added for them')
    ctx.rule('apart', 'the regions and fields the writer stores share no byte, for every number of rows, columns and data values; data blocks follow one another behind everything else')
    for case in CASES:
        one(ctx, case)
    for kind, cls in (('snd', 'SoundingFile'), ('sfc', 'SurfaceFile')):
        many(ctx, kind, cls)
    ctx.rule('whole', 'behind the last data the file is filled up to a whole number of blocks, whatever the length of the data')


def whole(ctx, n, c):
    """the fill behind the data ends at the end of a block: worked out for every place in a block at which the data may end"""
    k = f'{n}: whole blocks'
    w = next((w for w in reversed(c.sf.w) if w.loops), None)
    count = c.sf.counts.get(w.loops[0]) if w is not None and len(w.loops) == 1 else None
    if count is None:
        return ctx.undecided(k, 'no fill found')
    i = T('idx', C(w.loops[0]))
    end = subst(w.pos, {i: C(0)})
    sym = T('arg', C('end of the data'), 'int')
    step = sub(subst(w.pos, {i: C(1)}), end)
    if not isinstance(w.val, T) or w.val.op != 'pk' or w.val.args[-1] != C(0) or not isinstance(end, T) or step != C(4):
        return ctx.undecided(k, 'no fill found')
    count, conds = subst(count, {end: sym}), [subst(x, {end: sym}) for x in w.conds]
    for words in range(640, 640 + 256):
        try:
            full = 4 * words + (4 * max(0, value(count, {sym: 4 * words})) if all(value(x, {sym: 4 * words}) for x in conds) else 0)
        except No:
            return ctx.undecided(k, 'the length of the fill is not fully interpreted')
        if full % 512:
            return ctx.violation(k, f'where the data end with word {words % 128} of a block, the fill ends with word {full // 4 % 128} of a block ({w.site[2]})')
    ctx.discharge(k)


def many(ctx, kind, cls):
    """descriptions of parameters that fill a block to its last word"""
    n = f'{kind}, 31 parameters'
    ctx.unit(n)
    names = ', '.join(repr(f'P{i:03d}') for i in range(31))
    w = attempt(ctx, n, lambda: writer(kind, make=f'f = {cls}([{names}])'))
    if w is None or w.st is None:
        return ctx.undecided(n, 'the writer does not complete')
    c = Comp()
    c.kind, c.w, c.sf = kind, w, SymFile(w.I, w.st.event_list(), '<')
    reg, blocks, odd = regions(c)
    apart(ctx, n, reg)


def one(ctx, case):
    n, kind = case.name, case.kind
    ctx.unit(n)
    c = case.comp()
    if c.sf is None:
        return ctx.undecided(f'{n}: writer', 'does not complete')
    layout(ctx, c, n)
    whole(ctx, n, c)
    if c.attrs is None:
        return ctx.undecided(f'{n}: composition', 'reader does not complete')
    missing_words(ctx, c, n)
    crossed(ctx, c, n)
    R = Roles(c)
    d = R.view.restate(c.d)
    if isinstance(d, T) and d.op == 'list' and not d.args:
        return ctx.violation(f'{n}: entries are returned', 'a query without conditions returns nothing, whatever is stored')
    own(ctx, f'{n}: a returned entry', R.view.m)
    seen = set()
    if kind == 'grd':
        return grid(ctx, n, c, R)
    for p, g in leaves(d):
        q = [x for x in p if x not in (0, '*')]
        if not q or not isinstance(q[-1], str):
            continue
        nm = q[-1].upper()
        if nm in NAMES2[kind] and ('data_vars' in q or 'values' in q or 'coords' in q):
            seen.add(nm)
            g = peel(g)
            decide(ctx, f'{n}: {nm} of an entry', T('param', T('getitem', T('arg', C('data'), '?'), T('the', C('cell'))), C(nm)), g, f'{nm} of a returned entry')
    for nm in NAMES2[kind]:
        if nm not in seen:
            ctx.undecided(f'{n}: {nm} of an entry', 'not found in the result')
    info = c.attrs.get({'snd': '_sninfo', 'sfc': '_sfinfo'}[kind])
    if info is not None:
        R = Roles(c)
        R.view.restate(info)
        own(ctx, f'{n}: a listed entry', R.view.m)
        listed(ctx, f'{n}: an entry is listed', R.view.restate(info))


def own(ctx, key, m):
    """whatever is taken for one entry is taken with that entry's own row and column"""
    for nm, ix in m.items():
        k = f'{key} is made of one {nm.args[0].v}'
        if len(ix) == 1 and not isinstance(next(iter(ix)), C):
            ctx.discharge(k)
        elif any(isinstance(i, C) for i in ix):
            ctx.violation(k, f'whatever {nm.args[0].v} is asked for, {nm.args[0].v} {[i.v for i in ix if isinstance(i, C)][0]} is used')
        else:
            ctx.violation(k, f'it mixes {nm.args[0].v} ' + ' and '.join(sorted(show(i, 60) for i in ix)))


def peel(g):
    """the data a result is made of, without shape, fill and mask"""
    for _ in range(20):
        if isinstance(g, Tup) and len(g.items) == 2:
            g = g.items[1]
        elif isinstance(g, T) and g.op in ('masked', 'fill', 'profile'):
            g = g.args[0]
        elif isinstance(g, T) and g.op == 'getitem' and isinstance(g.args[1], Tup) and all(not isinstance(x, (T,)) or x.op == 'slice' for x in g.args[1].items):
            g = g.args[0]
        elif isinstance(g, T) and g.op in ('numpy.atleast_1d', 'numpy.array', 'numpy.asarray', 'astype') and g.args:
            g = g.args[0]
        else:
            return g
    return g


def listed(ctx, key, v):
    alt = [x for x in subterms(v) if isinstance(x, T) and x.op == 'altseg']
    if len(alt) != 1:
        if not alt and any(isinstance(x, T) and x.op == 'rep' for x in subterms(v)):
            return ctx.violation(key, 'entries are listed for every row and column, with or without data')
        return ctx.undecided(key, f'{len(alt)} choices')
    cnd, yes, no = alt[0].args[:3]
    st = T('stored', C('cell'))
    if st not in set(subterms(cnd)):
        return ctx.undecided(key, f'condition {show(cnd)}')
    a, b = codec(subst(cnd, {st: TRUE})), codec(subst(cnd, {st: FALSE}))
    if not yes and no:
        a, b = neg_c(a), neg_c(b)
    if b == FALSE and a != FALSE and isinstance(a, (C, T)) and (a == TRUE or a.op == 'truth'):
        ctx.discharge(key)
    elif b == TRUE or a == FALSE:
        ctx.violation(key, f'the entry is listed when {show(cnd)}')
    else:
        ctx.undecided(key, f'condition {show(cnd)}')


def grid(ctx, n, c, R):
    mi, mr = by_name(c.attrs.get('grid_meta_int')), by_name(c.attrs.get('grid_meta_real'))
    x = R.view.restate(c.attrs['grid_meta_int']) if 'grid_meta_int' in c.attrs else None
    nt = next((y for y in subterms(x) if isinstance(y, Tup) and y.nt is not None and 'kxky' in y.nt.fields), None) if x is not None else None
    shape = T('attr', T('arg', C('lat'), '?'), C('shape'), '?')
    nx, ny = T('item', shape, C(1)), T('item', shape, C(0))
    if nt is None:
        return ctx.undecided(f'{n}: packing description', 'not found')
    f = dict(zip(nt.nt.fields, nt.items))
    prec = C(16)
    for k, w in (('kxky', mul(nx, ny)), ('missing_flag', C(-1)), ('bits', prec)):
        if k in f:
            decide(ctx, f'{n}: packed grid {k}', w, f[k], f'{k} of a packed grid')
    x = R.view.restate(c.attrs['grid_meta_real']) if 'grid_meta_real' in c.attrs else None
    nt = next((y for y in subterms(x) if isinstance(y, Tup) and y.nt is not None and 'reference' in y.nt.fields), None) if x is not None else None
    if nt is None:
        return ctx.undecided(f'{n}: packing reference', 'not found')
    f = dict(zip(nt.nt.fields, nt.items))
    ref, sc = f.get('reference'), f.get('scale')
    src = {source2(y) for y in subterms(ref) if isinstance(y, T) and y.op == 'arg'}
    if 'm.min' in ops(ref) and not {'m.max'} & ops(ref) and src <= {'grid'}:
        ctx.discharge(f'{n}: packed grid reference')
    elif {'pow', 'm.max'} & ops(ref) or not src:
        ctx.violation(f'{n}: packed grid reference := {show(ref)}', 'the word read as reference is not the least value of the grid')
    else:
        ctx.undecided(f'{n}: packed grid reference', show(ref))
    cells = {y for v in (ref, sc) for y in subterms(v) if isinstance(y, T) and y.op == 'getitem' and source2(y.args[0]) == 'grid'}
    if cells and all(y.args[1] == T('the', C('cell')) for y in cells):
        ctx.discharge(f'{n}: packed grid is the column\'s own')
    else:
        ctx.undecided(f'{n}: packed grid is the column\'s own', str(len(cells)))


def source2(t):
    return t.args[0].v if isinstance(t, T) and t.op == 'arg' else None
