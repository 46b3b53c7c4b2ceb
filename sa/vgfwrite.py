"""Facts about the VGF writer: client programs building each element kind, and
the packed bytes they write, as fields at offsets."""
from .drive import *
from .vgfspec import facts_of, merged_attrs, kname
from .canonic import normal, ops, rewrite, OPAQUE
from .ser import erase

MODV = 'gempakio.encode.vgf'
HEADSIZE = 40 + 128 + 256
COMMON = '''
e.group_type = gt
e.group_number = gn
'''
# reader attribute -> client expression.  Constants are what the record kind
# itself fixes.  Attributes whose value is no user input are listed with the
# constant the file format requires.
HEAD = {'delete': '0', 'filled': '0', 'closed': '0', 'smooth': '0', 'version': '0', 'group_type': 'gt', 'group_number': 'gn',
        'major_color': 'color', 'minor_color': 'color'}
LINEBASE = dict(HEAD, closed='closed', filled='filled', smooth='smooth', width='width', line_type='line_type', lat='lat', lon='lon')
SYM = dict(HEAD, number_symbols='1', width='width', size='size', symbol_type='0', symbol_code='symbol_code', lat='lat', lon='lon',
           offset_x='offset_x', offset_y='offset_y')
SYMARGS = 'lon, lat, symbol_code, color, width, size, offset_x, offset_y'
WRITE = {
    'Line': ((3, 1, 0), 'lon, lat, color, line_type, closed, filled, smooth, width',
             dict(LINEBASE, line_type_hardware='0', line_width_hardware='0')),
    'SpecialLine': ((3, 20, 0), 'lon, lat, color, line_type, closed, filled, stroke, width, smooth, size, direction',
                    dict(LINEBASE, size='size', direction='direction', stroke='stroke if line_type in (24, 25) else 1')),
    'Front': ((1, 2, 0), 'lon, lat, front_code, major_color, minor_color, smooth, pip_size, pip_stroke, pip_direction',
              dict(HEAD, smooth='smooth', major_color='major_color', minor_color='major_color if minor_color is None else minor_color',
                   front_code='front_code', pip_size='pip_size', pip_stroke='pip_stroke', pip_direction='pip_direction',
                   width="int(f'{front_code:03d}'[1])", lat='lat', lon='lon')),
    'SpecialText': ((5, 21, 0), 'lon, lat, text, text_color, size, text_type, font, align, edgecolor, facecolor, rotation, offset_x, '
                    'offset_y, turbulence_symbol',
                    dict(HEAD, major_color='text_color', minor_color='text_color', rotation='rotation', size='size / 14',
                         text_type='text_type', turbulence_symbol='turbulence_symbol', font='font', text_flag='2', width='1',
                         text_color='text_color', line_color='text_color if edgecolor is None else edgecolor',
                         fill_color='text_color if facecolor is None else facecolor', align='align', lat='lat', lon='lon',
                         offset_x='offset_x', offset_y='offset_y', text='text')),
    'SpecialSymbol': ((4, 15, 0), SYMARGS, SYM),
    'Marker': ((4, 19, 0), SYMARGS, SYM),
}
# attributes that may be assigned after construction: name -> reader attribute
ASSIGN = {
    'Line': {'width': 'width', 'line_type': 'line_type', 'closed': 'closed', 'filled': 'filled', 'smooth': 'smooth',
             'major_color': 'major_color', 'minor_color': 'minor_color'},
    'SpecialLine': {'width': 'width', 'line_type': 'line_type', 'direction': 'direction', 'size': 'size', 'closed': 'closed',
                    'filled': 'filled', 'smooth': 'smooth', 'major_color': 'major_color', 'minor_color': 'minor_color'},
    'Front': {'front_code': 'front_code', 'pip_size': 'pip_size', 'pip_stroke': 'pip_stroke', 'pip_direction': 'pip_direction',
              'smooth': 'smooth', 'major_color': 'major_color', 'minor_color': 'minor_color'},
    'SpecialText': {'text_type': 'text_type', 'font': 'font', 'align': 'align', 'edgecolor': 'line_color', 'facecolor': 'fill_color',
                    'rotation': 'rotation', 'offset_x': 'offset_x', 'offset_y': 'offset_y', 'turbulence_symbol': 'turbulence_symbol',
                    'text_color': 'text_color', 'size': 'size', 'width': 'width', 'major_color': 'major_color'},
    'SpecialSymbol': {'symbol_code': 'symbol_code', 'width': 'width', 'size': 'size', 'offset_x': 'offset_x', 'offset_y': 'offset_y',
                      'major_color': 'major_color'},
}
ASSIGN['Marker'] = ASSIGN['SpecialSymbol']
# what an assignment changes: reader attribute -> client expression (default: the new value)
EFFECT = {('Front', 'front_code'): {'front_code': 'new', 'width': "int(f'{new:03d}'[1])"},
          ('SpecialText', 'size'): {'size': 'new / 14'},
          ('SpecialText', 'text_type'): {'text_type': 'new', 'turbulence_symbol': '0'}}


def build(cls, extra='', want=None, syms=(), after=''):
    _, args, table = WRITE[cls]
    want = dict(table, **(want or {}))
    src = f'from {MODV} import {cls}, VGFile\ne = {cls}({args})\n{COMMON}{extra}\nf = VGFile()\nf.add_element(e)\nf.to_vgf(path)\n{after}'
    for a, x in want.items():
        src += f'want_{a} = {x}\n'
    names = args.split(', ') + ['gt', 'gn', 'path'] + list(syms)
    r = program(src, names)
    r.want = list(want)
    return r


def fields(I, v):
    """packed value -> [(size, code, value)]; arrays have code 'arr:<code>'"""
    out = []
    for p in parts_of(v):
        out += field(I, p)
    return out


def strip_arr(x):
    """array-like value without the conversions that packing makes irrelevant"""
    while isinstance(x, T) and (x.op in ('asarray', 'astype', 'numpy.ascontiguousarray', 'numpy.array', 'numpy.asarray', 'numpy.ravel', 'm.tolist', 'm.ravel', 'm.flatten', 'tolist', 'copy', 'm.copy')
                                or (x.op in ('list', 'tuple') and len(x.args) == 1 and isinstance(x.args[0], T) and x.args[0].op in ('star', 'spread'))):
        x = x.args[0]
    return x


def seq_parts(x):
    """values concatenated by an array-like term"""
    x0 = x
    x = strip_arr(x)
    if isinstance(x, T) and x.op in ('star', 'spread'):
        return seq_parts(x.args[0])
    if isinstance(x, T) and x.op in ('list', 'tuple', 'numpy.concatenate', 'numpy.hstack', 'numpy.append'):
        args = x.args
        if x.op in ('numpy.concatenate', 'numpy.hstack'):
            a = args[0]
            if not (isinstance(a, T) and a.op in ('list', 'tuple')):
                if isinstance(a, Tup):
                    args = a.items
                else:
                    return [x0]
            else:
                args = a.args
            return [y for a in args for y in seq_parts(a)]
        if x.op == 'numpy.append':
            return [y for a in args[:2] for y in seq_parts(a)]
        if args and all(isinstance(a, T) and a.op in ('star', 'spread') for a in args):
            return [y for a in args for y in seq_parts(a)]
    return [x]


def field(I, p):
    if isinstance(p, T):
        if p.op == 'pk':
            return [(C(4 if False else csize(p.args[0])), p.args[0], p.args[1])]
        if p.op == 'pks':
            return [(p.args[0], 's', p.args[1])]
        if p.op == 'pad':
            return [(p.args[0], 'x', NONE)]
        if p.op == 'pkarr':
            return array(p.args[0], p.args[1], p.args[2])
        if p.op == 'tobytes':
            x = p.args[0]
            if isinstance(x, T) and x.op == 'astype' and isinstance(x.args[1], C) and isinstance(x.args[1].v, str):
                return array(x.args[1].v, None, x.args[0])
    return [(I.ext.sizeof(p), 's', p)]


def csize(code):
    from .ext import CODESZ
    return CODESZ[code[-1]]


def array(code, total, src):
    parts = seq_parts(src)
    out = []
    n = csize(code)
    for x in parts:
        out.append([mul(C(n), T('len', x)), 'arr:' + code, x])
    if total is not None and len(out) == 1:
        out[0][0] = mul(C(n), total)
    return [tuple(o) for o in out]


class Rec:
    """one written record: offset -> (size, code, value)"""

    def __init__(self, r, vals):
        eqs = equalities(r.st)
        fc = r.st.facts
        self.f = {}
        self.order = []
        pos = C(0)
        for v in vals:
            for n, code, x in fields(r.I, v):
                n = tidy(n, eqs)
                x = tidy(x, eqs)
                pos = tidy(pos, eqs)
                self.f[pos] = (n, code, x)
                self.order.append((pos, n, code, x))
                pos = add(pos, n)
        self.size = tidy(pos, eqs)
        # every part understood: sizes and positions are exact
        self.clean = not any(ops(x) & OPAQUE for _, _, code, x in self.order if code.startswith('arr:')) and all(code != 's' or isinstance(x, C) or isinstance(x, T) and x.op in ('encode', 'concat') and not ops(x) & OPAQUE
                         for _, _, code, x in self.order) and not any(
                             ops(n) & OPAQUE or ops(n) - {'len', 'lin', 'arg', 'encode', 'concat', 'ite', 'eq', 'eq0', 'not', 'and', 'or', 'ge0', 'gt0', 'is_none'}
                             for _, n, _, x in self.order)
        self.eqs = eqs
        self.fc = fc


def tidy(v, eqs):
    v = subst(v, eqs)

    def m(x):
        if isinstance(x, T) and x.op in ('min_of', 'max_of', 'len') and len(x.args) == 1:
            y = strip_arr(x.args[0])
            if y is not x.args[0]:
                return T(x.op, y)
        return None
    v = subst(v, {}, m) if False else subst_fn(v, m)
    return subst(v, eqs)


def subst_fn(v, m):
    return subst(v, m)


def split_records(r):
    """written values -> the file header, then the elements, however many write calls they took"""
    vals = [v for v, pc in written(r)]
    if len(vals) != 1:
        return vals
    head, rest, n = [], [], C(0)
    for p in parts_of(vals[0]):
        (head if isinstance(n, C) and n.v < HEADSIZE else rest).append(p)
        n = add(n, r.I.ext.sizeof(p))
    return [T('concat', *head), T('concat', *rest)] if rest else vals


def compose(v, rec):
    """value of a reader term on the record `rec` (reads -> written values)"""
    memo = {}

    def go(x):
        if isinstance(x, (T, Tup)) and x in memo:
            return memo[x]
        y = x
        if isinstance(x, T):
            if x.op in ('rd', 'arr', 'bytes'):
                off = tidy(go(x.args[1]), rec.eqs)
                hit = rec.f.get(off)
                if x.op == 'rd':
                    y = T('nofield', off, x.args[2]) if hit is None or hit[1] != x.args[2] else hit[2]
                    if hit is not None and hit[1] != x.args[2] and hit[1] in 'Bb' and x.args[2] in 'Bb':
                        y = hit[2]
                elif x.op == 'arr':
                    n = tidy(go(x.args[2]), rec.eqs)
                    code = x.args[3]
                    if hit is None or hit[1] != 'arr:' + code or tidy(mul(C(csize(code)), n), rec.eqs) != hit[0]:
                        y = T('nofield', off, n, code)
                    else:
                        y = hit[2]
                else:
                    n = tidy(go(x.args[2]), rec.eqs)
                    if hit is None or hit[1] not in ('s',) or hit[0] != n:
                        y = T('nofield', off, n)
                    else:
                        y = hit[2]
            else:
                y = T(x.op, *[go(a) for a in x.args]) if x.op == 'text' else rebuild(x.op, tuple(go(a) for a in x.args))
        elif isinstance(x, Tup):
            y = Tup([go(a) for a in x.items], x.nt)
        elif isinstance(x, tuple):
            return tuple(go(a) for a in x)
        if isinstance(x, (T, Tup)):
            memo[x] = y
        return y
    return go(v)


def primary(v):
    """the field read that carries an attribute's value"""
    best = []
    for o in ('arr', 'bytes', 'rd'):
        for x in subterms(v):
            if isinstance(x, T) and x.op == o and x not in best:
                best.append(x)
        if best:
            break
    return best[0] if len(best) == 1 else None


_READER = {}


def reader(kind):
    if kind not in _READER:
        f = facts_of(kind)
        cls, cond, at = merged_attrs(f)
        _READER[kind] = (cls, cond, at, f)
    return _READER[kind]
