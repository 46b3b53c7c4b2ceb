"""C04: record sizes, counts and bounding boxes of written VGF records."""
from ..vgfwrite import *
from .c03 import settle, records, value, short

HEADER = 40


def check(ctx, name, cls, r, rs):
    for nm, rec in (('file header', rs[0]), (name, rs[1])):
        ks = rec.f.get(C(20))
        got = value(ks[2], rec.eqs, r.st.facts) if ks else T('nofield', C(20))
        settle(ctx, f'{nm}: record_size', value(rec.size, rec.eqs, r.st.facts), got, 'stored record size against bytes of the record', rec)
        for pos, n, code, x in rec.order:
            if code == 's':
                have = tidy(r.I.ext.sizeof(x), rec.eqs)
                if isinstance(n, C) and isinstance(have, C):
                    if n.v >= have.v:
                        ctx.discharge(f'{nm}: text at {short(pos)}')
                    else:
                        ctx.violation(f'{nm}: text at {short(pos)} cut', f'{have.v} bytes in {n.v}')
                else:
                    settle(ctx, f'{nm}: text at {short(pos)}', value(have, rec.eqs, r.st.facts), value(n, rec.eqs, r.st.facts), 'bytes reserved against bytes of the text', rec)
            elif code.startswith('arr:'):
                have = tidy(mul(C(csize(code[4:])), T('len', x)), rec.eqs)
                settle(ctx, f'{nm}: array at {short(pos)}', value(have, rec.eqs, r.st.facts), value(n, rec.eqs, r.st.facts), 'bytes reserved against values', rec)
    rec = rs[1]
    kind = WRITE[cls][0]
    at = reader(kind)[2]
    if at is None:
        ctx.undecided(name, 'reader not resolved')
        return
    line = 'number_points' in at
    A = {n: T('arg', C(n), '?') for n in ('lat', 'lon')}
    for b in ('min_lat', 'min_lon', 'max_lat', 'max_lon'):
        p = primary(at[b])
        got = value(compose(p, rec), rec.eqs, r.st.facts)
        want = A[b[4:]]
        if line:
            want = T(b[:3] + '_of', want)
        settle(ctx, f'{name}: {b}', want, got, 'bounding box', rec)
    if line:
        p = primary(at['number_points'])
        got = value(compose(p, rec), rec.eqs, r.st.facts)
        n = value(T('len', A['lon']), rec.eqs, r.st.facts)
        settle(ctx, f'{name}: number_points', n, got, 'point count', rec)
        for a in ('lat', 'lon'):
            p = primary(at[a])
            got = erase(compose(p, rec))
            if isinstance(got, T) and got.op == 'nofield':
                settle(ctx, f'{name}: {a} block', A[a], got, 'points follow', rec)
            else:
                ctx.discharge(f'{name}: {a} block of number_points values')
    # the reader steps by the number of bytes written
    f = reader(kind)[3]
    if 'advance' in f:
        adv = value(compose(erase(normal(f['advance'], assume({}, reader(kind)[1]))), rec), rec.eqs, r.st.facts)
        settle(ctx, f'{name}: reader step', value(rec.size, rec.eqs, r.st.facts), adv, 'bytes the reader steps over', rec)


def run(ctx):
    ctx.floor = 60
    ctx.rule('record-size', 'header record_size == sum of the sizes of everything packed for the record, as terms over the inputs')
    ctx.rule('counts', 'stored count == number of values in each coordinate block; bytes reserved for text == bytes of the encoded text')
    ctx.rule('bbox', 'min/max latitude/longitude slots hold min/max of the stored latitudes/longitudes')
    ctx.rule('step', 'the reader steps over exactly the bytes written')
    for cls in WRITE:
        ctx.unit(cls)
        try:
            r = build(cls)
            rs = records(ctx, cls, r)
            if rs:
                check(ctx, cls, cls, r, rs)
            for a in ASSIGN[cls]:
                r = build(cls, f'e.{a} = new\n', None, ['new'])
                rs = records(ctx, f'{cls} after {a} = new', r)
                if rs:
                    check(ctx, f'{cls} after {a} = new', cls, r, rs)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(cls, f'analysis failed: {type(e).__name__} {e}')
