"""C03: the VGF writer stores every user value where, and as, the reader takes
the attribute of the same meaning from."""
from ..textwit import differ_for
from ..vgfwrite import *

KNOWNOPS = {'arg', 'lin', 'ite', 'eq0', 'eq', 'not', 'and', 'or', 'ge0', 'gt0', 'is_none', 'int', 'getitem', 'fv', 'truediv', 'min_of', 'max_of',
            'len', 'encode', 'concat', 'nofield', 'round', 'size', 'floordiv', 'mod', 'mul', 'abs', 'neg', 'upper', 'lower', 'strip', 'float'}


def settle(ctx, key, want, got, where, rec=None):
    if want == got:
        return ctx.discharge(key)
    w = differ_for(want, got, pools(key)) if rec is None or rec.clean else None
    if w is not None:
        return ctx.violation(f'{key} := {short(got)}', f'{where}: for {", ".join(f"{k} = {v!r}" for k, v in sorted(w[0].items()))} stored as {w[2]!r}; expected {w[1]!r}')
    ow, og = ops(want), ops(got)
    if og & OPAQUE - ow or og - ow - KNOWNOPS:
        return ctx.undecided(key, f'not comparable: {where} {short(got)} / {short(want)}')
    if rec is not None and not rec.clean:
        return ctx.undecided(key, f'record layout not fully resolved: {where} {short(got)}')
    if any(isinstance(x, T) and x.op == 'nofield' for x in subterms(got)):
        return ctx.violation(f'{key} not at the reader\'s field', f'{where}; reader takes it from {short(got)}, where the writer stores no such field')
    ctx.violation(f'{key} := {short(got)}', f'{where}; expected {short(want)}')


# values every element accepts, for telling two terms apart
COLORS = [4, 0, 1, 16, 32]
LISTS = [[-100.0, -80.5, -90.0], [-100.0, -90.0], [-70.0, -100.0], [-90.0, -100.0, -80.5], [-80.5, -90.0, -100.0], [-90.0, -80.5, -100.0, -85.0],
         [-90.0, -70.0, -100.0, -85.0, -75.0]]
POOL = {'lon': LISTS, 'lat': [[abs(x) / 2 for x in v] for v in LISTS], 'color': COLORS, 'major_color': COLORS, 'minor_color': [None, *COLORS], 'text_color': COLORS,
        'edgecolor': [None, *COLORS], 'facecolor': [None, *COLORS], 'closed': [0, 1], 'filled': list(range(9)), 'smooth': [0, 1, 2], 'gt': [0, 1, 5, 30], 'gn': [0, 1, 7, 1000],
        'width': [2, 1, 5, 10], 'size': [1, 2, 0.5, 10], 'direction': [1, -1], 'stroke': [25, 40, 75], 'front_code': [425, 0, 5, 20, 99, 220, 829, 999], 'pip_size': [40, 100, 500],
        'pip_stroke': [1, 2, 10], 'pip_direction': [1, -1], 'text_type': list(range(17)), 'font': [22, 1, 2, 3, 11, 12, 13, 21, 23, 31, 32, 33], 'align': [0, -1, 1],
        'rotation': [0, 45, 359.5], 'offset_x': [0, -3, 4], 'offset_y': [0, -3, 4], 'turbulence_symbol': list(range(9)), 'symbol_code': [1, 2, 9, 24]}


def pools(key):
    """values that are valid for the element the key names"""
    p = dict(POOL)
    if key.startswith(('SpecialText', 'SpecialSymbol', 'Marker')):
        p.update(lon=[-100.0, 0.5], lat=[40.0, -30.25])
    if key.startswith('SpecialText'):
        p['size'] = [12, 10, 14, 18, 24, 34]
    p['line_type'] = [24, 25, 1, 2, 10, 26] if key.startswith('SpecialLine') else [1, 0, 9, 10, 99]
    p.pop('stroke') if not key.startswith('SpecialLine') else None
    return p


def short(t):
    r = repr(t)
    return r if len(r) < 200 else r[:200] + '...'


def digits(t):
    """the middle digit of a three-digit number, read from its text or worked out by division"""
    def one(x):
        if not isinstance(x, T):
            return None
        if x.op == 'int' and isinstance(x.args[0], T) and x.args[0].op == 'getitem' and x.args[0].args[1] == C(1):
            f = x.args[0].args[0]
            if isinstance(f, T) and f.op == 'fv' and f.args[1] == C('03d'):
                ten = T('floordiv', digits(f.args[0]), C(10))
                return add(ten, mul(C(-10), T('floordiv', ten, C(10))))
        if x.op == 'floordiv' and x.args[1] == C(100):
            return T('floordiv', T('floordiv', digits(x.args[0]), C(10)), C(10))
        return None
    return subst(t, one)


def value(v, eqs, facts):
    return digits(erase(normal(tidy(v, eqs), facts)))


def records(ctx, name, r):
    if r.st is None:
        ctx.violation(f'{name}: cannot be written', 'constructing or writing the element raises for every argument')
        return None
    vals = split_records(r)
    if len(vals) != 2:
        ctx.undecided(name, f'{len(vals)} writes instead of file header and element')
        return None
    return [Rec(r, [v]) for v in vals]


def compare(ctx, name, cls, r, rec):
    kind = WRITE[cls][0]
    rcls, cond, at, f = reader(kind)
    if at is None:
        ctx.undecided(name, 'reader not resolved')
        return
    # record kind
    for off, v, what in ((1, kind[1], 'vg_type'), (2, kind[0], 'vg_class'), (6, kind[2], 'version')):
        hit = rec.f.get(C(off))
        settle(ctx, f'{name}.{what}', C(v), erase(hit[2]) if hit else T('nofield', C(off)), 'record kind', rec)
    for a in r.want:
        if a not in at:
            ctx.undecided(f'{name}.{a}', 'reader attribute not found')
            continue
        p = primary(at[a])
        if p is None:
            if a in ('delete', 'version'):
                continue
            ctx.undecided(f'{name}.{a}', f'reader field not identified: {short(at[a])}')
            continue
        got = value(compose(p, rec), rec.eqs, r.st.facts)
        want = value(r.I.ext.freeze(r.st, var(r, 'want_' + a)), rec.eqs, r.st.facts)
        if a == 'text':
            x = got
            if isinstance(x, T) and x.op == 'encode' and isinstance(x.args[0], T) and x.args[0].op == 'concat' and x.args[0].args[-1] == C('\0') and len(x.args[0].args) == 2:
                x = x.args[0].args[0]
            elif isinstance(x, T) and x.op == 'encode':
                x = x.args[0]
            elif isinstance(x, T) and x.op == 'concat' and x.args[-1] == C(b'\0') and isinstance(x.args[0], T) and x.args[0].op == 'encode':
                x = x.args[0].args[0]
            got = x
        if a in ('lat', 'lon') and p.op == 'arr':
            got = strip_arr(got)
        settle(ctx, f'{name}.{a}', want, got, f'written value (reader field {short(p)})', rec)


def run(ctx):
    ctx.floor = 120
    ctx.rule('same-field', 'value written at the reader\'s field of attribute A == the user input documented for A')
    ctx.rule('assigned', 'after an attribute assignment the new value, and only it, reaches its field')
    ctx.rule('elements', 'the file is the file header followed by every added element once, in order')
    for cls in WRITE:
        ctx.unit(cls)
        try:
            r = build(cls)
            rs = records(ctx, cls, r)
            if rs:
                compare(ctx, cls, cls, r, rs[1])
            for a, attr in ASSIGN[cls].items():
                eff = EFFECT.get((cls, a), {attr: 'new'})
                r = build(cls, f'e.{a} = new\n', eff, ['new'])
                rs = records(ctx, f'{cls} after {a} = new', r)
                if rs:
                    compare(ctx, f'{cls} after {a} = new', cls, r, rs[1])
            if cls in ('SpecialLine', 'Front'):
                d = 'direction' if cls == 'SpecialLine' else 'pip_direction'
                r = build(cls, 'e.flip()\n', {d: f'-{d}'})
                rs = records(ctx, f'{cls} after flip', r)
                if rs:
                    compare(ctx, f'{cls} after flip', cls, r, rs[1])
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(cls, f'analysis failed: {type(e).__name__} {e}')
    order(ctx)


def order(ctx):
    """several elements: every one once, in the order added"""
    src = '''
from gempakio.encode.vgf import Marker, SpecialSymbol, VGFile
a = Marker(lon1, lat1, 3, c1)
b = SpecialSymbol(lon2, lat2, 5, c2)
f = VGFile()
f.add_element(a)
f.add_element(b)
f.add_element(a)
f.to_vgf(path)
'''
    fe = 'VGFile.from_elements(a, b, a)'
    for nm, s in (('add_element', src), ('from_elements', src.replace('f = VGFile()\n', f'f = {fe}\n').replace('f.add_element(a)\n', '').replace('f.add_element(b)\n', ''))):
        r = program(s, ['lon1', 'lat1', 'c1', 'lon2', 'lat2', 'c2', 'path'])
        if r.st is None:
            ctx.violation(f'{nm}: cannot be written', 'writing several elements raises')
            continue
        rec = Rec(r, split_records(r))
        got = [rec.f.get(C(o)) for o in (1, 425, 425 + 76, 425 + 152)]
        lat = [rec.f.get(C(424 + 76 * i + 60)) for i in range(3)]
        want = [C(22), C(19), C(15), C(19)]
        val = [g[2] if g else None for g in got] + [x[2] if x else None for x in lat]
        exp = want + [T('arg', C('lat1'), '?'), T('arg', C('lat2'), '?'), T('arg', C('lat1'), '?')]
        if val == exp and rec.size == C(424 + 3 * 76):
            ctx.discharge(f'{nm}: header and elements in order')
        elif ops(rec.size) & OPAQUE or any(v is None for v in val) and not isinstance(rec.size, C):
            ctx.undecided(f'{nm}: order', short(rec.size))
        else:
            ctx.violation(f'{nm}: elements not written once in order', f'{val} size {rec.size}')
