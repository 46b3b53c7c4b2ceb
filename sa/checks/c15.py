"""C15: element attributes are validated alike by constructor and assignment.

Client programs with every argument but one fixed to a valid value: the
condition under which the constructor (resp. the assignment) raises is computed
as a term over the one symbolic value and compared with the documented range,
and the accepted value must be what the attribute then returns."""
from ..vgfwrite import *
from .c02 import boolnf
from .c03 import short

VALID = {'lon': '[-100.0, -99.0, -98.0]', 'lat': '[30.0, 31.0, 32.0]', 'color': '3', 'line_type': '1', 'closed': '0', 'filled': '0', 'smooth': '0',
         'width': '2', 'stroke': '30', 'size': '1', 'direction': '1', 'front_code': '425', 'major_color': '4', 'minor_color': '5', 'pip_size': '100',
         'pip_stroke': '1', 'pip_direction': '1', 'text': "'abc'", 'text_color': '3', 'text_type': '0', 'font': '22', 'align': '0',
         'edgecolor': '3', 'facecolor': '3', 'rotation': '0', 'offset_x': '0', 'offset_y': '0', 'turbulence_symbol': '0', 'symbol_code': '3'}
VALID_FOR = {'SpecialText': {'size': '12', 'lon': '-100.0', 'lat': '30.0'}, 'SpecialSymbol': {'lon': '-100.0', 'lat': '30.0'},
             'Marker': {'lon': '-100.0', 'lat': '30.0'}}
COLOR = 'not (0 <= v <= 32)'
LINE = {'width': 'not (1 <= v <= 10)', 'closed': 'v not in (0, 1)', 'filled': 'not (0 <= v <= 8)', 'smooth': 'not (0 <= v <= 2)'}
BOTH = {'group_type': 'v < 0', 'group_number': 'v < 0', 'major_color': COLOR, 'minor_color': COLOR}
SYMB = {'width': 'not (1 <= v <= 10)', 'size': 'v < 0.1 or v > 10', 'offset_x': 'False', 'offset_y': 'False'}
# class -> attribute -> condition under which a value v is outside the documented choice
RANGE = {
    'Line': dict(LINE, line_type='not (0 <= v <= 99)'),
    'SpecialLine': dict(LINE, line_type='not (1 <= v <= 26)', direction='v not in (1, -1)', size='v < 0.1 or v > 10'),
    'Front': {'front_code': 'not (0 <= v <= 999)', 'pip_size': 'not (40 <= v <= 500)', 'pip_stroke': 'v <= 0',
              'pip_direction': 'v not in (-1, 1)', 'smooth': 'not (0 <= v <= 2)', 'width': 'not (1 <= v <= 8)'},
    'SpecialText': {'text_color': COLOR, 'edgecolor': COLOR, 'facecolor': COLOR, 'size': 'v not in (10, 12, 14, 18, 24, 34)',
                    'text_type': 'not (0 <= v <= 16)', 'font': 'v not in (1, 2, 3, 11, 12, 13, 21, 22, 23, 31, 32, 33)',
                    'align': 'v not in (-1, 0, 1)', 'rotation': 'False', 'offset_x': 'False', 'offset_y': 'False'},
    'SpecialSymbol': dict(SYMB, symbol_code='not isinstance(v, int) or v < 0 or v > 41'),
    'Marker': dict(SYMB, symbol_code='not isinstance(v, int) or v < 1 or v > 24'),
}
# constructor-only parameters: (class, parameter) -> (other arguments, condition)
CTOR = [
    ('Line', 'color', {}, COLOR), ('SpecialLine', 'color', {}, COLOR), ('SpecialSymbol', 'color', {}, COLOR), ('Marker', 'color', {}, COLOR),
    ('Front', 'major_color', {}, COLOR), ('Front', 'minor_color', {}, COLOR),
    ('SpecialLine', 'stroke', {'line_type': '24'}, 'not (25 <= v <= 75)'), ('SpecialLine', 'stroke', {'line_type': '25'}, 'not (25 <= v <= 75)'),
    ('SpecialLine', 'stroke', {'line_type': '3'}, 'False'),
    ('SpecialText', 'turbulence_symbol', {'text_type': '7'}, 'not (0 <= v <= 8)'),
    ('SpecialText', 'turbulence_symbol', {'text_type': '9'}, 'not (0 <= v <= 8)'),
    ('SpecialText', 'turbulence_symbol', {'text_type': '12'}, 'not (0 <= v <= 10)'),
    ('SpecialText', 'turbulence_symbol', {'text_type': '0'}, 'False'),
    ('SpecialText', 'text', {}, 'not isinstance(v, str) or len(v) > 254'),
]
POINTS = ['Line', 'SpecialLine', 'Front']
KNOWNOPS = {'arg', 'lin', 'ite', 'eq0', 'eq', 'not', 'and', 'or', 'ge0', 'gt0', 'is_none', 'isinst', 'isinstance', 'len', 'int', 'getitem', 'fv'}


V_ = T('arg', C('v'), '?')
NOTNONE = {T('is_none', V_): False}


def call(cls, over):
    args = WRITE[cls][1].split(', ')
    val = dict(VALID, **VALID_FOR.get(cls, {}))
    val.update(over)
    return f'{cls}(' + ', '.join(f'{a}={val[a]}' for a in args) + ')'


def reject(r, since=0):
    return disj(*[conj(*[c if b else neg_c(c) for c, b in st.pc[since:]]) for st, exc, site in r.raises])


def text(t):
    # a text formatted without a format is that text (what is no text is told apart by its own condition)
    return subst(t, lambda x: text(x.args[0]) if isinstance(x, T) and x.op == 'fv' and x.args[1:] == (C(''), C(-1)) else None)


def plain(t):
    return erase(boolnf(text(t), NOTNONE))


def cmp(ctx, key, want, got, where=None):
    want, got = plain(want), plain(got)
    if want == got:
        return ctx.discharge(key)
    if ops(got) & OPAQUE or ops(got) - ops(want) - KNOWNOPS:
        return ctx.undecided(key, f'rejection condition not comparable: {short(got)}')
    ctx.violation(key, f'rejected when {short(got)}; documented: {short(want)}', where)


def run(ctx):
    ctx.floor = 90
    ctx.rule('constructor', 'the constructor raises for a value exactly when it is outside the documented range')
    ctx.rule('assignment', 'assigning the attribute raises exactly when the value is outside the same range')
    ctx.rule('kept', 'an accepted value is what the attribute returns afterwards')
    for cls in WRITE:
        ctx.unit(cls)
        params = WRITE[cls][1].split(', ')
        table = dict(RANGE[cls], **BOTH)
        for a, bad in table.items():
            try:
                one(ctx, cls, a, bad, {}, a in params, True)
            except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
                ctx.undecided(f'{cls}.{a}', f'analysis failed: {type(e).__name__} {e}')
        if cls == 'Front':
            for fc in CODES:
                digit(ctx, fc)
        if cls == 'SpecialText':
            for tt, bad in (('7', 'not (0 <= v <= 8)'), ('9', 'not (0 <= v <= 8)'), ('12', 'not (0 <= v <= 10)'), ('1', 'False')):
                one(ctx, cls, 'turbulence_symbol', bad, {'text_type': tt}, False, True)
    for cls, p, over, bad in CTOR:
        try:
            one(ctx, cls, p, bad, over, True, False)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(f'{cls} {p}', f'analysis failed: {type(e).__name__} {e}')
    for cls in POINTS:
        points(ctx, cls)


def one(ctx, cls, a, bad, over, ctor, assign):
    tag = f'{cls}.{a}' + (f' ({",".join(k + "=" + v for k, v in over.items())})' if over else '')
    imp = f'from {MODV} import {cls}\nbad = {bad}\n'
    if ctor:
        r = program(imp + f'e = {call(cls, dict(over, **{a: "v"}))}\n' + (f'got = e.{a}\n' if assign else ''), ['v'])
        want = r_bad(r, bad)
        cmp(ctx, f'{tag} in constructor', want, reject(r))
        if r.st is not None and assign:
            kept(ctx, f'{tag} in constructor', r)
    if assign:
        r = program(imp + f'e = {call(cls, over)}\ne.{a} = v\ngot = e.{a}\n', ['v'])
        cmp(ctx, f'{tag} assigned', r_bad(r, bad), reject(r))
        if r.st is not None:
            kept(ctx, f'{tag} assigned', r)
            # and it is also what is written: encoding uses the same attribute (C03)


CODES = ['0', '5', '20', '25', '99', '220', '829', '999']


def digit(ctx, fc):
    """the width of a front is the middle digit of its code, whatever the code and the width before"""
    for name, prog, attr, want in (
            ('width assigned', f'e = {call("Front", {"front_code": fc})}\ne.width = W\ngot = (e.width, e.front_code)\n', 'width', lambda w: (w, int(fc) // 100 * 100 + w * 10 + int(fc) % 10)),
            ('code assigned', f'e = {call("Front", {})}\ne.width = W\ne.front_code = {fc}\ngot = (e.width, e.front_code)\n', 'front_code', lambda w: (int(fc) // 10 % 10, int(fc)))):
        bad = []
        for w in (1, 8) if attr == 'width' else (3,):
            r = program(f'from {MODV} import Front\n' + prog.replace('W', str(w)), [])
            if r.raises:
                bad.append(f'width {w}: refused')
            elif r.st is None:
                bad.append(None)
            else:
                g = var(r, 'got')
                g = tuple(x.v if isinstance(x, C) else None for x in g.items) if isinstance(g, Tup) else (None,)
                if None in g:
                    bad.append(None)
                elif g != want(w):
                    bad.append(f'width {w}: width and code are {g}, not {want(w)}')
        key = f'Front code {fc}: {name}'
        if any(bad):
            ctx.violation(key, next(x for x in bad if x))
        elif bad:
            ctx.undecided(key, 'not worked out')
        else:
            ctx.discharge(key)


def r_bad(r, bad):
    q = program(f'bad = {bad}\n', ['v'])
    b = var(q, 'bad')
    return TRUE if b == C(True) else FALSE if b == C(False) else b


def kept(ctx, tag, r):
    got = normal(var(r, 'got'), NOTNONE)
    v = V_
    if got == v or got == T('concat', v, C('\0')):
        ctx.discharge(f'{tag}: value kept')
    elif ops(got) & OPAQUE or isinstance(got, T) and got.op not in ('arg', 'ite', 'lin'):
        ctx.undecided(f'{tag}: value kept', short(got))
    else:
        ctx.violation(f'{tag}: value not kept', f'attribute returns {short(got)}')


def points(ctx, cls):
    """coordinates: same number of each, 2..MAX_POINTS"""
    imp = f'from {MODV} import {cls}\nfrom gempakio.common import MAX_POINTS\n'
    r = program(imp + f'e = {call(cls, {"lon": "lon", "lat": "lat"})}\n', ['lon', 'lat'])
    n, m = T('len', T('arg', C('lon'), '?')), T('len', T('arg', C('lat'), '?'))
    want = disj(neg_c(eq(n, m)), ge0(sub(n, C(501))), neg_c(ge0(sub(n, C(2)))))
    got = reject(r)
    # len(lat) where both have the same number
    cmp(ctx, f'{cls} coordinates', want, got)
