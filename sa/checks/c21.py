"""C21: the contract of the binary buffer and of named structures.

Each operation is interpreted from an arbitrary state - position A+B+E with
marks at A and A+B, all symbolic - so that every sequence of operations is
covered by induction: what an operation returns, where it leaves the position
and what it leaves behind the marks are compared with the same thing said
directly over the bytes."""
import itertools
from ..drive import *
from .c12 import vague
from .c14 import show

HEAD = '''
from gempakio.tools import IOBuffer, NamedStruct, OrderedSet
import struct
import numpy as np
from collections import namedtuple
'''
PRE = HEAD + '''
b = IOBuffer(D)
b.skip(A)
m0 = b.set_mark()
b.skip(B)
m1 = b.set_mark()
b.skip(E)
K = A + B + E
'''
# where the position and the marks are, after the operation
POST = '''
pos = b.get_next(2)
rel = b.offset_from({m}0)
b.jump_to({m}0)
at0 = b.get_next(2)
b.jump_to({m}1, 5)
at1 = b.get_next(2)
'''
KEEP = 'at0 = D[A:A + 2]\nat1 = D[A + B + 5:A + B + 7]\n'


def at(p, d='D'):
    return f'pos = {d}[{p}:{p} + 2]\nrel = {p} - A\n'


def ops():
    """(name, program, names, expected program)"""
    obs = 'x pos rel at0 at1'.split()

    def op(name, code, want, adv):
        return name, PRE + code + POST.format(m='m'), obs, HEAD + 'K = A + B + E\n' + want + at(f'(K + {adv})') + KEEP
    yield op('get_next', 'x = b.get_next(N)', 'x = D[K:K + N]\n', 0)
    yield op('get_next: rest', 'x = b.get_next()', 'x = D[K:]\n', 0)
    yield op('skip', 'x = b.skip(N)', 'x = None\n', 'N')
    yield op('read', 'x = b.read(N)', 'x = D[K:K + N]\n', 'N')
    yield op('read_ascii', 'x = b.read_ascii(N)', "x = D[K:K + N].decode('ascii')\n", 'N')
    yield op('read_func', 'x = b.read_func(bytes.hex, N)', 'x = bytes.hex(D[K:K + N])\n', 'N')
    bad = 'def bad(v):\n    raise ValueError(v)\n'
    tried = '\nexcept ValueError:\n    x = 1\n'
    yield op('read_func that fails', bad + 'try:\n    x = b.read_func(bad, N)' + tried, 'x = 1\n', 0)
    yield op('structure that fails', bad + "s = NamedStruct([('a', 'h'), ('b', 'h', bad)], '<', 'Q')\ntry:\n    x = b.read_struct(s)" + tried, 'x = 1\n', 0)
    yield op('set_mark', 'mm = b.set_mark()\nb.skip(N)\nx = b.offset_from(mm)\n', 'x = N + 0\n', 'N')
    yield op('set_mark: new id', 'mm = b.set_mark()\nb.skip(N)\nb.jump_to(mm)\nx = b.get_next(2)\n', 'x = D[K:K + 2]\n', 0)
    yield op('set_mark: ids', 'x = [m0, m1, b.set_mark()]', 'x = [0, 1, 2]\n', 0)
    for m, p in (('m0', 'A'), ('m1', '(A + B)')):
        yield (f'jump_to {m}', PRE + f'x = b.jump_to({m})' + POST.format(m='m'), obs, HEAD + 'x = None\n' + at(p) + KEEP)
        yield (f'jump_to {m} with offset', PRE + f'x = b.jump_to({m}, N)' + POST.format(m='m'), obs, HEAD + 'x = None\n' + at(f'({p} + N)') + KEEP)
        yield op(f'offset_from {m}', f'x = b.offset_from({m})', f'x = K - {p}\n', 0)
    yield op('jump_to and back', 'mm = b.set_mark()\nb.jump_to(m0)\nb.read(N)\nx = b.jump_to(mm)', 'x = None\n', 0)
    yield op('at_end', 'x = b.at_end()', 'x = K >= len(D)\n', 0)
    yield op('check_remains', 'x = b.check_remains(N)', 'x = len(D[K:]) == N\n', 0)
    yield op('len', 'x = len(b)', 'x = len(D)\n', 0)
    yield op('item', 'x = b[N]', 'x = D[N]\n', 0)
    yield op('slice', 'x = b[N:N + 3]', 'x = D[N:N + 3]\n', 0)
    for name, code, want in (('read: rest', 'x = b.read()', 'x = D[K:]\n'), ('skip: rest', 'x = b.skip(None)', 'x = None\n'),
                             ('read_func: rest', 'x = b.read_func(bytes.hex)', 'x = bytes.hex(D[K:])\n'),
                             ('read_ascii: rest', 'x = b.read_ascii()', "x = D[K:].decode('ascii')\n")):
        yield (name, PRE + code + '\nend = b.at_end()\nrel = b.offset_from(m0)\nb.jump_to(m0)\nat0 = b.get_next(2)\n', ['x', 'end', 'rel', 'at0'],
               HEAD + 'K = A + B + E\n' + want + 'end = True\nrel = len(D) - A\nat0 = D[A:A + 2]\n')
    yield ('reset', PRE + 'b.reset()\npos = b.get_next(2)\nx = b.set_mark()\n', ['pos', 'x'], 'pos = D[0:2]\nx = 0\n')
    yield ('clear_marks', PRE + 'b.clear_marks()\npos = b.get_next(2)\nx = b.set_mark()\n', ['pos', 'x'], 'K = A + B + E\npos = D[K:K + 2]\nx = 0\n')
    yield ('two buffers', PRE + 'c = IOBuffer(D)\nc.skip(N)\nn0 = c.set_mark()\nc.read(3)\nx = c.get_next(2)\n' + POST.format(m='m'),
           obs, HEAD + 'K = A + B + E\nx = D[N + 3:N + 5]\n' + at('K') + KEEP)
    yield ('fromfile', HEAD + 'with open(F, "rb") as f:\n    b = IOBuffer.fromfile(f)\nb.skip(A)\nx = b.read(N)\ny = len(b)\n', ['x', 'y'],
           HEAD + 'with open(F, "rb") as f:\n    d = f.read()\nx = d[A:A + N]\ny = len(d)\n')
    yield ('splice', PRE + 'b.splice(m1, W)\npos = b.get_next()\nb.jump_to(m0)\nat0 = b.get_next()\nx = b.offset_from(m1)\n', ['pos', 'at0', 'x'],
           'd = D[:A + B] + W\npos = d[A + B:]\nat0 = d[A:]\nx = 0 - B\n')
    yield ('truncate', PRE + 'b.truncate(N)\nx = len(b)\npos = b.get_next(2)\ny = b[A:]\n', ['x', 'pos', 'y'],
           'd = D[:max(len(D) - N, 0)]\nx = len(d)\nK = A + B + E\npos = d[K:K + 2]\ny = d[A:]\n')
    yield ('truncate: nothing', PRE + 'b.truncate(0)\nx = len(b)\n', ['x'], 'x = len(D)\n')
    for size, code in ((1, 'B'), (2, 'H'), (4, 'I'), (8, 'Q')):
        for e, o in (('big', '>'), ('little', '<')):
            for s in (False, True):
                c = code.lower() if s else code
                yield op(f'read_int {size} {e} {"signed" if s else "unsigned"}', f'x = b.read_int({size}, {e!r}, {s})',
                         f"x = struct.unpack_from('{o}{c}', D, K)[0]\n", size)
    for o in ('', '<', '>', '=', '!'):
        for c, size in (('b', 1), ('h', 2), ('i', 4), ('I', 4), ('f', 4), ('d', 8)):
            for n in (1, 3):
                yield op(f'read_binary {n} {o}{c}', f'x = b.read_binary({n}, {o + c!r})', f"x = list(struct.unpack_from('{o}{n}{c}', D, K))\n", n * size)
            yield (f'read_binary N {o}{c}', PRE + f'b.read_binary(N, {o + c!r})' + POST.format(m='m'), obs[1:],
                   HEAD + 'K = A + B + E\n' + at(f'(K + {size} * N)') + KEEP)
    yield op('read_binary N', 'x = b.read_binary(N)', 'x = D[K:K + N]\n', 'N')
    for c, size in (('i4', 4), ('f4', 4), ('i2', 2), ('u1', 1), ('f8', 8)):
        for o in '<>':
            yield op(f'read_array {o}{c}', f'x = b.read_array(N, {o + c!r})', f"x = np.frombuffer(D, offset=K, dtype={o + c!r}, count=N)\n", f'{size} * N')
    for fmt, size in (('<iih', 10), ('>i4x2f', 16), ('>4s3h', 10), ('=B3xi', 8)):
        yield op(f'read_struct {fmt}', f'x = b.read_struct(struct.Struct({fmt!r}))', f'x = struct.unpack_from({fmt!r}, D, K)\n', size)
    # ------------------------------------------------------------- named structures
    kinds = {'p': ("'i'", 'i', 4, None), 's': ("'5s'", '5s', 5, None), 'c': ("'4s', bytes.decode", '4s', 4, 'bytes.decode'),
             'h': ("'h', float", 'h', 2, 'float'), 'u': ("'3x'", '3x', 3, None)}
    for n in (1, 2, 3, 4):
        for combo in itertools.product('pchu', repeat=n):
            if n == 4 and (combo.count('u') > 2 or combo[0] != 'u' and combo[1] != 'u'):
                continue
            yield from layout(combo, kinds, '>')
    for combo in (tuple('ps'), tuple('shucp'), tuple('uucuuh'), tuple('cucuc')):
        for o in '><=':
            yield from layout(combo, kinds, o)
    for o in '<>=':
        info = "[('a', 'i'), ('b', '3s'), ('', '2x'), ('c', 'h')]"
        yield (f'NamedStruct.pack {o}', HEAD + f"x = NamedStruct({info}, {o!r}).pack(c=A, b=W, a=N)\n", ['x'], HEAD + f"x = struct.pack('{o}i3s2xh', N, W, A)\n")
    info = "[('a', 'i'), ('', '2x'), ('b', 'h', float)]"
    yield ('NamedStruct.unpack', HEAD + f"x = NamedStruct({info}, '>', 'Q').unpack(D)\n", ['x'],
           HEAD + "v = struct.unpack_from('>i2xh', D, 0)\nx = namedtuple('Q', 'a b')(v[0], float(v[1]))\n")
    yield ('NamedStruct.unpack_from', HEAD + f"x = NamedStruct({info}, '<').unpack_from(D, N)\n", ['x'],
           HEAD + "v = struct.unpack_from('<i2xh', D, N)\nx = namedtuple('NamedStruct', 'a b')(v[0], float(v[1]))\n")
    yield ('NamedStruct.unpack_from: start', HEAD + f"x = NamedStruct({info}, '<').unpack_from(D)\n", ['x'],
           HEAD + "v = struct.unpack_from('<i2xh', D, 0)\nx = namedtuple('NamedStruct', 'a b')(v[0], float(v[1]))\n")
    yield ('NamedStruct.unpack_file', HEAD + f"with open(F, 'rb') as f:\n    u = f.read(3)\n    x = NamedStruct({info}, '>').unpack_file(f)\n    y = f.read(2)\n", ['x', 'y'],
           HEAD + "with open(F, 'rb') as f:\n    u = f.read(3)\n    v = struct.unpack('>i2xh', f.read(8))\n    y = f.read(2)\nx = namedtuple('Q', 'a b')(v[0], float(v[1]))\n")
    yield ('NamedStruct.make_tuple', HEAD + f"x = NamedStruct({info}, '>').make_tuple(b=A, a=B)\n", ['x'],
           HEAD + "x = namedtuple('NamedStruct', 'a b')(B, A)\n")
    # ------------------------------------------------------------- ordered sets
    mk = HEAD + "s = OrderedSet(['k', 'a'])\ns.add('z')\ns.add('k')\ns.add('b')\n"
    for name, code, want in (('order', 'x = list(s)', "x = ['k', 'a', 'z', 'b']"), ('discard', "s.discard('a')\ns.discard('q')\nx = list(s)", "x = ['k', 'z', 'b']"),
                             ('readd', "s.discard('k')\ns.add('k')\nx = list(s)", "x = ['a', 'z', 'b', 'k']"), ('len', 'x = len(s)', 'x = 4'),
                             ('contains', "x = ['z' in s, 'q' in s]", 'x = [True, False]'), ('empty', 'x = list(OrderedSet())', 'x = []'),
                             ('independent', "t = OrderedSet()\nt.add('m')\nx = [list(s), list(t)]", "x = [['k', 'a', 'z', 'b'], ['m']]")):
        yield (f'OrderedSet: {name}', mk + code + '\n', ['x'], want + '\n')


def layout(combo, kinds, o):
    rows, fmt, size, vals, names, i = [], o, 0, [], [], 0
    for j, k in enumerate(combo):
        nm = '' if k == 'u' else f'f{j}'
        rows.append(f'({nm!r}, {kinds[k][0]})')
        fmt += kinds[k][1]
        size += kinds[k][2]
        if k != 'u':
            names.append(nm)
            vals.append(f'{kinds[k][3]}(v[{i}])' if kinds[k][3] else f'v[{i}]')
            i += 1
    info = '[' + ', '.join(rows) + ']'
    if not names:
        return
    yield (f'NamedStruct {"".join(combo)} {o}', PRE + f"s = NamedStruct({info}, {o!r}, 'Q')\nz = s.size\nx = b.read_struct(s)" + POST.format(m='m'),
           'x z pos rel at0 at1'.split(),
           HEAD + f"K = A + B + E\nv = struct.unpack_from({fmt!r}, D, K)\nx = namedtuple('Q', {' '.join(names)!r})({', '.join(vals)})\nz = {size}\n"
           + at(f'(K + {size})') + KEEP)


def symbols():
    return [('D', T('filedata', C('buf'))), ('W', T('filedata', C('new'))), ('F', C('f.gem'))] + [(n, T('arg', C(n), 'int')) for n in 'ABEN']


def canon(I, st, v):
    """value as a term that does not mention the heap"""
    if isinstance(v, Ref):
        v = I.ext.freeze(st, v) if hasattr(I.ext, 'freeze') else v
    return v


def run(ctx):
    ctx.rule('effect', 'from an arbitrary position and two arbitrary marks each operation returns, advances and keeps what the same bytes give directly')
    ctx.rule('layout', 'a named structure consumes its size and gives each field its own bytes and converter, for every arrangement of plain, converted and unnamed fields')
    ctx.rule('ordered set', 'members keep the order of first insertion')
    for name, code, obs, want in ops():
        ctx.unit(name)
        try:
            got, exp = program(code, symbols()), program(want, symbols())
        except Exception as e:
            ctx.undecided(name, f'{type(e).__name__}: {e}'[:80])
            continue
        if exp.st is None:
            ctx.undecided(name, 'reference not interpreted')
            continue
        if got.st is None:
            ctx.violation(f'{name}: raises', f'{name}: raises on every path ({show(got.raises[0][1], 80) if got.raises else "no path returns"})')
            continue
        if got.raises and not exp.raises:
            sites = {str(r[2])[-60:] for r in got.raises}
            ctx.undecided(f'{name}: raises', f'may raise at {sorted(sites)[0]}')
        for o in obs:
            key = f'{name}: {o}'
            a, b = canon(got.I, got.st, var(got, o)), canon(exp.I, exp.st, var(exp, o))
            if same(a, b):
                ctx.discharge(key)
            elif a is None or b is None or vague(*[x for x in (a, b) if isinstance(x, V)]):
                ctx.undecided(key, 'not fully interpreted')
            else:
                ctx.violation(key, f'{MEAN.get(o, o)} after {name} is {show(a, 100)} instead of {show(b, 100)}')
    ctx.floor = 20


MEAN = {'x': 'the result', 'pos': 'what is read next', 'rel': 'the distance from the first mark', 'at0': 'what is at the first mark', 'at1': 'what is at the second mark plus 5',
        'z': 'the size', 'end': 'at_end()', 'y': 'what follows'}


def extreme(op, a, b):
    a, b = extremes(a), extremes(b)
    for x, y in ((a, b), (b, a)):
        if x == C(0) and isinstance(y, T) and y.op == 'len':  # a length is not negative
            return y if op == 'max' else x
    return T(op, *sorted((a, b), key=repr))


def extremes(v):
    """a choice between two integers by which is the greater is their maximum or minimum"""
    def m(x):
        if not isinstance(x, T):
            return None
        if x.op in ('max', 'min') and len(x.args) == 2 and all(isinstance(a, V) for a in x.args):
            return extreme(x.op, *x.args)
        if x.op == 'ite' and isinstance(x.args[0], T) and x.args[0].op == 'ge0':
            c, (a, b) = x.args[0].args[0], x.args[1:]
            if not (is_int(a) and is_int(b)):
                return None
            d = sub(a, b)
            op = 'max' if c in (d, sub(d, C(1))) else 'min' if c in (sub(b, a), sub(sub(b, a), C(1))) else None
            if op:
                return extreme(op, a, b)
        return None
    if isinstance(v, Tup):
        return v
    return subst(v, m)


def same(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        fa, fb = (tuple(x.nt.fields) if x.nt is not None else None for x in (a, b))
        return fa == fb and len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    return a == b or extremes(a) == extremes(b)
