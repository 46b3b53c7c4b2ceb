"""C01: every attribute of a decoded VGF element is read from that attribute's
own field of its own record.

For each record kind the reader is interpreted abstractly (the record header is
fixed to the kind, everything else stays symbolic); each attribute of the
element it appends is normalised to a decision tree over field reads at offsets
relative to the record start and compared with the layout table."""
import json
import os
from ..report import HERE, Broken, attempt
from ..ser import from_json
from ..canonic import judge
from ..vgfspec import *


def load_spec():
    d = json.load(open(os.path.join(HERE, 'spec', 'vgf.json')))
    tt = [erase(from_json(x)) for x in d['terms']]
    return {k: {'cls': v['cls'], 'cond': tt[v['cond']], 'advance': tt[v['advance']],
                'attrs': {n: tt[i] for n, i in v['attrs'].items()}} for k, v in d['kinds'].items()}


def run(ctx):
    spec = load_spec()
    ctx.rule('own-field', 'normalised value of element.<attribute> == table entry (field offset, type, byte order, '
             'count, text treatment, rounding, closure) for every record kind')
    ctx.floor = 1000
    attempt(ctx, 'file header', lambda: file_header(ctx))
    for kd in KINDS:
        sp = spec['%d,%d,%d' % kd]
        name = kname(kd)
        ctx.unit(name)
        try:
            f = facts_of(kd)
            if f['dead']:
                ctx.violation(f'{sp["cls"]}/{name}: no element', 'constructing the reader raises for every file of this kind')
                continue
            cls, cond, at = merged_attrs(f)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(name, f'analysis failed: {type(e).__name__} {e}')
            continue
        if at is None:
            ctx.undecided(name, 'no element resolved (see C02)')
            continue
        for n, want in sp['attrs'].items():
            key = f'{sp["cls"]}.{n} [{name}]'
            if n not in at:
                if f['unknown']:
                    ctx.undecided(key, 'not resolved')
                else:
                    ctx.violation(key, 'attribute no longer set on the decoded element')
                continue
            v = judge(want, at[n])
            if v != 'ok' and v[0] == 'bad':
                ctx.violation(f'{key} := {short(at[n])}', f'{v[1]}; expected {short(want)}')
            else:
                ctx.settle(key, v, f'value {short(at[n])}')
        if cls != [sp['cls']]:
            ctx.violation(f'{name} class {cls}', f'element class is {cls}, expected {sp["cls"]}')


def file_header(ctx):
    """the file header record: it gives no element but the header of the file"""
    from ..vgfread import norm, expand
    ctx.unit('file header')
    k = read((0, 22))
    if k.ref is None:
        ctx.violation('file header: dead', 'constructing the reader raises for every file with a file header')
        return
    b = header_base(k)
    got = None
    for L in k.I.loops:
        for m in L['phis']:
            if m == (k.ref.a, '_header') and b is not None:
                got = norm(expand(k, k.I.locval(L['end'], m)), b)
    if got is None:
        if k.I.unknown:
            ctx.undecided('file header', 'not resolved')
        else:
            ctx.violation('file header: header', 'the file header record never sets the header of the file')
        return
    objs = [x for x in subterms(got) if isinstance(x, T) and x.op == 'object']
    if len(objs) != 1 or any(not isinstance(a, T) or a.op != 'kv' for a in objs[0].args[1:]):
        ctx.undecided('file header', f'the header is {short(got)}')
        return
    at = {a.args[0].v: erase(a.args[1]) for a in objs[0].args[1:]}
    D = next((x.args[0] for x in subterms(objs[0]) if isinstance(x, T) and x.op == 'rd'), None)
    rd = lambda o, c: T('rd', D, C(o), c)
    text = lambda o, n: T('strip', T('upto', T('decode', T('bytes', D, C(o) if isinstance(o, int) else o, n), C('utf-8')), C('\x00')))
    want = {'delete': rd(0, 'B'), 'vg_type': C(22), 'vg_class': C(0), 'filled': rd(3, 'b'), 'closed': rd(4, 'B'), 'smooth': rd(5, 'B'), 'version': rd(6, 'B'),
            'group_type': rd(7, 'B'), 'group_number': rd(8, '>i'), 'major_color': rd(12, '>i'), 'minor_color': rd(16, '>i'), 'record_size': rd(20, '>i'),
            **{n: T('round', rd(24 + 4 * i, '>f'), C(2)) for i, n in enumerate(('min_lat', 'min_lon', 'max_lat', 'max_lon'))},
            'gempak_version': text(40, C(128)), 'notes': text(168, sub(rd(20, '>i'), C(168)))}
    for n, w in want.items():
        key = f'FileHeaderElement.{n}'
        if n not in at:
            ctx.violation(key, 'attribute not set on the file header')
            continue
        v = judge(erase(w), at[n])
        if v != 'ok' and v[0] == 'bad':
            ctx.violation(f'{key} := {short(at[n])}', f'{v[1]}; expected {short(w)}')
        else:
            ctx.settle(key, v, f'value {short(at[n])}')


def short(t):
    r = repr(t)
    return r if len(r) < 220 else r[:220] + '...'
