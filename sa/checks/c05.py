"""C05: what the GEMPAK writers store is where, and as, the readers take it from."""
from ..gemcheck import *

FILETYPE = {'snd': 'sounding', 'sfc': 'surface', 'grd': 'grid'}
CASES = [Case('snd', 'datetime'), Case('sfc', 'datetime'), Case('grd', 'datetime'), Case('grd', 'datetime with second date', dt2=True)]
CASES += [Case('grd', f'projection {p}', proj=p) for p in PROJ]


def run(ctx):
    ctx.floor = 60
    ctx.rule('composition', 'the writer is interpreted over symbolic arguments; the reader is interpreted over the words it stores; every label, block, key and '
             'part field the reader obtains must be the value the writer gave to the field of the same meaning')
    ctx.rule('reachable', 'every word the reader takes lies where the writer stores one')
    for case in CASES:
        one(ctx, case)


def one(ctx, case):
    n, kind = case.name, case.kind
    ctx.unit(n)
    c = case.comp(query='projection' not in case.label)
    if c.attrs is None:
        if c.sf is not None and c.r is not None and c.r.raises and not c.unres:
            ctx.violation(f'{n}: reader rejects', f'every path of the reader raises on what the writer wrote: {show(c.r.raises[-1], 120)}')
        else:
            ctx.undecided(f'{n}: composition', 'writer or reader does not complete')
        return
    R = Roles(c)
    missing_words(ctx, c, n)
    a = {k: R.view.restate(v) for k, v in c.attrs.items() if k in ('dm_label', 'navigation_block', 'analysis_block', 'data_management', 'row_keys', 'column_keys',
                                                                  'parts', 'parameters', 'file_keys', 'kx', 'ky')}

    def want(block, field, w, got):
        decide(ctx, f'{n}: {block}.{field}', w, got, f'{block} field {field}')

    if kind == 'grd' and 'projection' in case.label:
        nav = by_name(a.get('navigation_block'))
        if 'projection' in nav:
            want('navigation_block', 'projection', C(PROJ[case.proj][0]), nav['projection'])
        angles(ctx, n, case, nav)
        return
    lab = by_name(a.get('dm_label'))
    parts = PART[kind]
    rk, ck = KEYS[kind]
    exp = {'version': C(1), 'file_headers': C(2 if kind == 'grd' else 0), 'row_keys': C(len(rk)), 'column_keys': C(len(ck)), 'parts': C(1), 'missing_int': C(-9999),
           'missing_float': C(-9999.0), 'data_mgmt_length': C(128), 'machine_type': C(11)}
    exp['rows'] = C(1) if kind == 'grd' else R.count(R.row)
    exp['columns'] = R.count(R.col)
    for f, w in exp.items():
        if f in lab and w is not None:
            want('dm_label', f, w, lab[f])
        else:
            ctx.undecided(f'{n}: dm_label.{f}', 'field not found')
    ft = lab.get('file_type')
    if isinstance(ft, EnumM):
        if ft.name == FILETYPE[kind]:
            ctx.discharge(f'{n}: dm_label.file_type')
        else:
            ctx.violation(f'{n}: dm_label.file_type := {ft.name}', f'a {FILETYPE[kind]} file is labelled {ft.name}')
    for attr, names, word in (('row_keys', rk, 'row key'), ('column_keys', ck, 'column key')):
        got = [x for _, x in leaves(a.get(attr))]
        if len(got) != len(names):
            ctx.undecided(f'{n}: {attr}', f'{len(got)} keys')
            continue
        for i, (w, g) in enumerate(zip(names, got)):
            want(attr, f'{word} {i + 1}', C(w), g)
    p = by_name(a.get('parts'))
    for f, w in (('name', C(parts[0])), ('header_length', C(parts[1])), ('parameter_count', C(len(parts[3])))):
        if f in p:
            want('parts', f, w, p[f])
    dt = p.get('data_type')
    if isinstance(dt, EnumM):
        if dt.name == parts[2]:
            ctx.discharge(f'{n}: parts.data_type')
        else:
            ctx.violation(f'{n}: parts.data_type := {dt.name}', f'expected {parts[2]}')
    names = [x for q, x in leaves(a.get('parameters')) if 'name' in q]
    if len(names) == len(parts[3]):
        for i, (w, g) in enumerate(zip(parts[3], names)):
            want('parameters', f'name {i + 1}', C(w), g)
    else:
        ctx.undecided(f'{n}: parameters', f'{len(names)} names')
    dm = by_name(a.get('data_management'))
    for f in dm:
        if f in ('max_free_pairs', 'actual_free_pairs', 'last_word') or f.startswith('free_word'):
            want('data_management', f, C(62 if f == 'max_free_pairs' else 0), dm[f])
    nf = dm.get('next_free_word')
    if isinstance(nf, C):
        ctx.violation(f'{n}: data_management.next_free_word := {nf!r}', 'the next free word is not the writer\'s running position')
    elif nf is not None:
        ctx.discharge(f'{n}: data_management.next_free_word')
    if kind == 'grd':
        nav, anl, fk = by_name(a.get('navigation_block')), by_name(a.get('analysis_block')), by_name(a.get('file_keys'))
        for f, w in NAV.items():
            if f in nav:
                want('navigation_block', f, w, nav[f])
        for f, w in ANL.items():
            if f in anl:
                want('analysis_block', f, w, anl[f])
        for f, w in (('header_name1', C(b'NAVB')), ('header_name2', C(b'ANLB')), ('header_length1', C(256)), ('header_length2', C(128)), ('header_type1', C(1)), ('header_type2', C(1))):
            if f in fk:
                want('file_keys', f, w, fk[f])
