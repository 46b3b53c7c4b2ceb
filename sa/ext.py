"""Models of builtins, struct, numpy, io, ... used by the abstract interpreter.

Nothing here touches repository code: each model says what a library call
returns (as a term) or does to the abstract heap.  Calls without a model become
pure terms named after the library path; clients decide whether they know them.
"""
import struct as _struct
import itertools as _it

from .terms import *
from .heap import *
from . import terms as _t

_t.STROPS |= {'fv', 'pk', 'pks', 'pad', 'pkarr', 'concat', 'stream', 'isoformat', 'slice_s'}

CODESZ = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8, 'e': 2, 's': 1}

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard',
            'popitem', 'fill', 'resize', 'put', 'itemset', 'partition', 'byteswap', 'setflags', '__delitem__', '__setitem__',
            'intersection_update', 'difference_update', 'appendleft', 'popleft'}

STRMETH = {'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace', 'split', 'startswith', 'endswith', 'find', 'rfind', 'index',
           'join', 'format', 'encode', 'decode', 'ljust', 'rjust', 'center', 'zfill', 'title', 'capitalize', 'isdigit', 'isalpha',
           'isnumeric', 'isspace', 'isupper', 'islower', 'count', 'splitlines', 'partition', 'rpartition', 'isalnum', 'rsplit',
           'swapcase', 'casefold', 'hex', 'removeprefix', 'removesuffix', 'expandtabs', 'translate'}

EXTCONST = {'math.pi': 3.141592653589793, 'numpy.pi': 3.141592653589793, 'math.e': 2.718281828459045, 'numpy.nan': float('nan'),
            'math.nan': float('nan'), 'math.inf': float('inf'), 'numpy.inf': float('inf')}

DTYPES = {'numpy.float32': 'f', 'numpy.float64': 'd', 'numpy.int32': 'i', 'numpy.int16': 'h', 'numpy.int8': 'b', 'numpy.uint8': 'B',
          'numpy.uint16': 'H', 'numpy.uint32': 'I', 'numpy.int64': 'q', 'numpy.uint64': 'Q', 'builtins.int': 'q', 'builtins.float': 'd',
          'numpy.single': 'f', 'numpy.double': 'd', 'numpy.intc': 'i', 'numpy.ubyte': 'B', 'numpy.byte': 'b'}
DTNAMES = {'float32': 'f', 'float64': 'd', 'int32': 'i', 'int16': 'h', 'int8': 'b', 'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'int64': 'q',
           'f4': 'f', 'f8': 'd', 'i4': 'i', 'i2': 'h', 'i1': 'b', 'u1': 'B', 'u2': 'H', 'u4': 'I', 'i8': 'q', 'f': 'f', 'd': 'd', 'i': 'i', 'h': 'h', 'b': 'b', 'B': 'B', 'I': 'I'}

TYPENAME = {str: 'str', int: 'int', float: 'float', bool: 'bool', bytes: 'bytes', type(None): 'NoneType', tuple: 'tuple', range: 'range'}


class Lazy(V):
    """iterable given by explicit chunks"""
    def __init__(self, chunks):
        self.chunks = chunks

    def __repr__(self):
        return f'<lazy {len(self.chunks)}>'


def flatten_concat(parts):
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'concat':
            out += list(p.args)
        else:
            out.append(p)
    res = []
    for p in out:
        if isinstance(p, C) and isinstance(p.v, (str, bytes)) and len(p.v) == 0 and len(out) > 1:
            continue
        if res and isinstance(p, C) and isinstance(res[-1], C) and isinstance(p.v, (str, bytes)) and type(p.v) is type(res[-1].v):
            res[-1] = C(res[-1].v + p.v)
        else:
            res.append(p)
    if not res:
        return out[0] if out else C('')
    return res[0] if len(res) == 1 else T('concat', *res)


def bexact(v):
    """concrete bytes of a packed constant, or None"""
    if isinstance(v, C) and isinstance(v.v, (bytes, bytearray)):
        return bytes(v.v)
    if isinstance(v, T):
        if v.op == 'pk' and isinstance(v.args[1], (C, EnumM)):
            try:
                return _struct.pack(v.args[0], numval(v.args[1]))
            except (_struct.error, TypeError):
                return None
        if v.op == 'pad' and isinstance(v.args[0], C):
            return b'\0' * v.args[0].v
        if v.op == 'pks' and isinstance(v.args[0], C):
            b = bexact(v.args[1])
            return None if b is None else b[:v.args[0].v].ljust(v.args[0].v, b'\0')
        if v.op == 'concat':
            bs = [bexact(a) for a in v.args]
            return None if any(b is None for b in bs) else b''.join(bs)
    return None


def alpha(t):
    """bound loop names renamed in order of appearance"""
    names = []

    def walk(x):
        if isinstance(x, T):
            if x.op == 'rep' and isinstance(x.args[0], C) and x.args[0].v not in names:
                names.append(x.args[0].v)
            for a in x.args:
                walk(a)
        elif isinstance(x, tuple):
            for a in x:
                walk(a)
        elif isinstance(x, Tup):
            for a in x.items:
                walk(a)
    walk(t)
    if not names:
        return t
    m = {}
    for i, n in enumerate(names):
        m[T('idx', C(n))] = T('idx', C(f'B{i}'))
        m[C(n)] = C(f'B{i}')
    return subst(t, m)


def drop_key(segs, k):
    """dict segments without the key; None when a key cannot be told apart"""
    out = []
    for s in segs:
        if s[0] == 'kv':
            e = const_eq(s[1], k)
            if e is None:
                return None
            if e is not True:
                out.append(s)
        elif s[0] == 'alt':
            a, b = drop_key(s[2], k), drop_key(s[3], k)
            if a is None or b is None:
                return None
            if a or b:
                out.append(('alt', s[1], a, b))
        else:
            return None
    return tuple(out)


def leaf_values(segs):
    """the values of straight-line segments with alternatives; None entries when something else occurs"""
    out = []
    for s in segs:
        if s[0] == 'v':
            out.append(s[1])
        elif s[0] == 'alt':
            out += leaf_values(s[2]) + leaf_values(s[3])
        else:
            return [None, None]
    return out


MAYCALL = {f'builtins.{x}' for x in ('int', 'float', 'sorted', 'min', 'max', 'sum', 'round', 'chr', 'ord', 'next', 'abs')} | {
    'datetime.datetime.strptime', 'datetime.timedelta', 'datetime.datetime.fromisoformat', 'struct.pack', 'numpy.asarray', 'numpy.array'}
MAYMETH = {'strptime', 'encode', 'index'}


def fallible(what, v):
    if isinstance(v, T) and what in ('int', 'float') and v.op in ('getitem', 'item', 'elemof', 'strftime', 'm.strftime', 'fv'):
        # digits of formatted numbers and dates
        x = v.args[0] if v.op in ('getitem', 'item', 'elemof') else v
        if isinstance(x, T) and x.op == 'fv' and isinstance(x.args[1], C) and str(x.args[1].v).endswith('d'):
            return False
        if isinstance(x, T) and x.op in ('strftime', 'm.strftime'):
            return False
    return any(isinstance(x, T) and x.op == 'arg' and not str(x.args[0].v).startswith('held_') for x in subterms(v))


SAFE = {f'builtins.{x}' for x in ('isinstance', 'type', 'callable', 'id', 'print')}


def openfiles(st):
    """files opened and not closed on this path: {ref: open event}"""
    out = {}
    for e, pc in st.event_list():
        if e[0] == 'open':
            out[e[4]] = e
        elif e[0] == 'close':
            out.pop(e[1], None)
    return out


class ExtModel:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------ names
    def modname(self, n):
        return n

    def module_attr(self, mod, name):
        p = f'{mod}.{name}'
        if p in EXTCONST:
            return C(EXTCONST[p])
        if p == 'sys.byteorder':
            return C(self.I.byteorder)
        return Ext(p)

    def ext_attr(self, st, o, name):
        p = f'{o.path}.{name}'
        if o.path in ('exc',):
            pass
        if p == 'sys.byteorder':
            return C(self.I.byteorder)
        if p in EXTCONST:
            return C(EXTCONST[p])
        if name == '__name__':
            return C(o.path.split('.')[-1])
        return Ext(p)

    # ------------------------------------------------------------ freeze
    def freeze(self, st, v, depth=0):
        if isinstance(v, Ref):
            if depth > 6:
                return T('deep')
            o = st.heap.get(v.a)
            if o is None:
                return v
            if o.kind == 'seq':
                if o.t == 'bytearray':
                    return self.bytes_join(st, o)
                return T(o.t if o.t not in ('gen',) else 'list', *[self.fseg(st, s, depth + 1) for s in o.segs])
            if o.kind == 'dict':
                return T('dict', *[self.fseg(st, s, depth + 1) for s in o.segs])
            if o.kind == 'obj':
                cn = o.cls.name if isinstance(o.cls, Cls) else getattr(o.cls, 'path', '?')
                return T('obj', C(cn), v)
            return v
        if isinstance(v, Tup):
            if any(isinstance(x, (Ref, Tup, Lazy)) for x in v.items):
                return Tup([self.freeze(st, x, depth + 1) for x in v.items], v.nt)
            return v
        if isinstance(v, Lazy):
            return T('list', *[self.fchunk(st, c, depth + 1) for c in v.chunks])
        if isinstance(v, T) and v.op == 'ite' and any(isinstance(x, Ref) for x in v.args[1:]):
            return ite(v.args[0], self.freeze(st, v.args[1], depth + 1), self.freeze(st, v.args[2], depth + 1))
        return v

    def instance(self, st, elem, i):
        """the element at i; a dict made afresh by each iteration of the producing loop is that iteration's own"""
        v = elem(i)
        if hasattr(elem, 'inst') and v is elem.inst[0] and v.a in st.heap and st.get(v).kind == 'dict':
            o = st.get(v)
            if all(s[0] in ('kv', 'alt') for s in o.segs):
                m = {elem.inst[1]: i}
                return self.I.new(st, HDict(subst_segs(o.segs, m)))
        return v

    def instances(self, st, chunks, ix, i):
        out = []
        for ch in chunks:
            if ch[0] == 'v' and isinstance(ch[1], Ref):
                el = lambda j, v=ch[1]: v
                el.inst = (ch[1], ix)
                ch = ('v', self.instance(st, el, i))
            elif ch[0] == 'alt':
                ch = ('alt', ch[1], self.instances(st, ch[2], ix, i), self.instances(st, ch[3], ix, i))
            out.append(ch)
        return out

    def keyed(self, st, v):
        """a key function by what it makes of an element"""
        if isinstance(v, Fn):
            probe = st.fork()
            self.I.sinks.append([])
            try:
                r = self.I.call(probe, v, [T('arg', C('an element'))], {}, None)
                return T('keyed', self.freeze(probe, r))
            except MemoryError:
                raise
            except Exception:
                return v
            finally:
                self.I.sinks.pop()
        return self.freeze(st, v) if isinstance(v, V) else v

    def thaw(self, st, v):
        """a fresh object for a frozen dict or list"""
        if isinstance(v, T) and v.op == 'dict' and v.args:
            segs = [self.unseg(x) for x in v.args]
            if None not in segs:
                return self.I.new(st, HDict(tuple(segs)))
        if isinstance(v, T) and v.op == 'list':
            segs = [self.unseg(x) for x in v.args]
            if None not in segs:
                return self.I.new(st, HSeq('list', tuple(segs)))
        return v

    def unseg(self, x):
        if isinstance(x, T):
            if x.op == 'kv':
                return ('kv', x.args[0], x.args[1])
            if x.op == 'spread':
                return ('sym', x.args[0])
            if x.op in ('altseg', 'rep', 'delkey'):
                if x.op == 'rep':
                    inner = tuple(self.unseg(y) for y in x.args[2])
                    return None if None in inner else ('rep', x.args[0].v, x.args[1], inner, x.args[3])
                return None
        return ('v', x)

    def bytes_join(self, st, o):
        if not o.segs:
            return C(b'')
        if all(x[0] == 'v' for x in o.segs):
            return flatten_concat([self.freeze(st, x[1]) for x in o.segs])
        return T('join', C(b''), T('list', *[self.fseg(st, x, 1) for x in o.segs]))

    def unbuf(self, st, v):
        """value of a bytearray"""
        if isinstance(v, Ref) and v.a in st.heap and st.get(v).kind == 'seq' and st.get(v).t == 'bytearray':
            return self.freeze(st, v)
        return v

    def fchunk(self, st, c, depth):
        if c[0] == 'v':
            return self.freeze(st, c[1], depth)
        if c[0] == 'sym':
            i = T('idx', C('#'))
            return T('rep', C('#'), c[1], (self.freeze(st, c[2](i), depth),), TRUE)
        return T('lazychunk')

    def fseg(self, st, s, depth):
        if s[0] == 'v':
            return self.freeze(st, s[1], depth)
        if s[0] == 'kv':
            return T('kv', self.freeze(st, s[1], depth), self.freeze(st, s[2], depth))
        if s[0] == 'rep':
            return T('rep', C(s[1]), s[2], tuple(self.fseg(st, x, depth) for x in s[3]), s[4])
        if s[0] == 'sym':
            return T('spread', s[1])
        if s[0] == 'alt':
            return T('altseg', s[1], tuple(self.fseg(st, x, depth) for x in s[2]), tuple(self.fseg(st, x, depth) for x in s[3]))
        if s[0] == 'del':
            return T('delkey', s[1])
        return T('seg?')

    # ------------------------------------------------------------ sequences
    def segs_of(self, st, v):
        v = self.I.resolve(st, v)
        items = self.I.tuple_items(st, v)
        if items is not None:
            return tuple(('v', x) for x in items)
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'seq':
                return o.segs
            if o.kind == 'dict':
                return self.dict_keysegs(o.segs)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                f, _ = o.cls.lookup('__iter__')
                if f is not None:
                    return self.segs_of(st, self.I.call(st, BM(v, f), [], {}, None))
        if isinstance(v, Lazy):
            return self.chunks_to_segs(st, v.chunks)
        if isinstance(v, T) and v.op == 'ite':
            a, b = self.segs_of(st, v.args[1]), self.segs_of(st, v.args[2])
            return merge_segs(v.args[0], tuple(a), tuple(b))
        if isinstance(v, T) and v.op == 'iter':
            return self.segs_of(st, v.args[0])
        return (('sym', v if not isinstance(v, Ref) else self.freeze(st, v)),)

    def chunks_to_segs(self, st, chunks):
        out = []
        for c in chunks:
            if c[0] == 'v':
                out.append(('v', c[1]))
            elif c[0] == 'sym':
                self.I.loopn += 1
                lid = f'{self.I.loopfix}{self.I.loopn}'
                out.append(('rep', lid, c[1], (('v', c[2](T('idx', C(lid)))),), TRUE))
            elif c[0] == 'alt':
                out.append(('alt', c[1], self.chunks_to_segs(st, c[2]), self.chunks_to_segs(st, c[3])))
            else:
                out.append(('sym', T('lazychunk', C(self.I.fresh_id()))))
        return tuple(out)

    def dict_keysegs(self, segs):
        out = []
        for s in segs:
            if s[0] == 'kv':
                if ('v', s[1]) not in out:
                    out.append(('v', s[1]))
            elif s[0] == 'rep':
                out.append(('rep', s[1], s[2], self.dict_keysegs(s[3]), s[4]))
            elif s[0] == 'sym':
                out.append(('sym', T('keys', s[1])))
            elif s[0] == 'alt':
                out.append(('alt', s[1], self.dict_keysegs(s[2]), self.dict_keysegs(s[3])))
            elif s[0] == 'del':
                out = [x for x in out if x != ('v', s[1])]
        return tuple(out)

    def seg_chunks(self, st, segs):
        out = []
        for s in segs:
            if s[0] == 'v':
                out.append(('v', s[1]))
            elif s[0] == 'rep':
                lid, n, inner, cond = s[1], s[2], s[3], s[4]
                ix = T('idx', C(lid))

                def mk(i, inner=inner, cond=cond, ix=ix):
                    m = {ix: i}
                    return self.seg_chunks(st, subst_segs(inner, m)), subst(cond, m) if isinstance(cond, T) else cond
                if cond == TRUE and len(inner) == 1 and inner[0][0] == 'v':
                    v0 = inner[0][1]
                    fn = lambda i, v0=v0, ix=ix: subst(v0, {ix: i})
                    if isinstance(v0, Ref):
                        fn.inst = (v0, ix)
                    out.append(('sym', n, fn))
                else:
                    mk.ix = ix
                    out.append(('nest', n, mk, cond))
            elif s[0] == 'sym':
                t = s[1]
                out.append(('sym', self.length(st, t), lambda i, t=t: self.elem(st, t, i)))
            elif s[0] == 'alt':
                out.append(('alt', s[1], self.seg_chunks(st, s[2]), self.seg_chunks(st, s[3])))
        return out

    def chunks(self, st, it):
        it = self.I.resolve(st, it)
        if hasattr(it, 'chunks'):
            return it.chunks
        items = self.I.tuple_items(st, it)
        if items is not None:
            if self.I.trace_may and isinstance(it, Ref) and st.get(it).kind == 'seq' and st.get(it).t == 'gen':
                st.emit('geniter', it, self.I.site)
            return [('v', x) for x in items]
        if isinstance(it, C) and isinstance(it.v, range):
            r = it.v
            return [('sym', C(len(r)), lambda i: add(C(r.start), mul(C(r.step), i)))]
        if isinstance(it, Ref):
            o = st.get(it)
            if o.kind == 'seq':
                if self.I.trace_may and o.t == 'gen':
                    st.emit('geniter', it, self.I.site)
                if o.t == 'set' and any(x[0] != 'v' for x in o.segs):
                    d = self.distinct(st, it, o.segs)
                    if d is not None:
                        return d
                return self.seg_chunks(st, o.segs)
            if o.kind == 'dict':
                return self.seg_chunks(st, self.dict_keysegs(o.segs))
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                f, _ = o.cls.lookup('__iter__')
                if f is not None:
                    return self.chunks(st, self.I.call(st, BM(it, f), [], {}, None))
            return [('sym', T('len', self.freeze(st, it)), lambda i: T('elemof', self.freeze(st, it), i))]
        if isinstance(it, Cls) and it.is_enum:
            return [('v', m) for m in it.members.values()]
        if isinstance(it, T):
            if it.op == 'ite':
                return None
            if it.op == 'range':
                a, b, s = it.args
                if isinstance(s, C) and s.v == 1:
                    return [('sym', self.nonneg(sub(b, a)), lambda i: add(a, i))]
                n = self.floordiv(add(sub(b, a), sub(s, C(1))), s) if not (isinstance(s, C) and s.v < 0) else self.floordiv(add(sub(a, b), sub(neg(s), C(1))), neg(s))
                return [('sym', self.nonneg(n), lambda i: add(a, mul(s, i)))]
            if it.op in ('iter',):
                return self.chunks(st, it.args[0])
            if it.op in ('list', 'tuple', 'set'):
                return [('sym', self.length(st, it), lambda i: self.elem(st, it, i))] if any(isinstance(a, T) and a.op in ('spread', 'rep', 'altseg') for a in it.args) else [('v', a) for a in it.args]
            return [('sym', self.length(st, it), lambda i: self.elem(st, it, i))]
        return [('sym', T('len', it), lambda i: T('elemof', it, i))]

    def distinct(self, st, it, segs):
        """the members of a set, each once, in an order that is not specified"""
        lids, inner = [], segs
        while len(inner) == 1 and inner[0][0] == 'rep':
            lids.append(inner[0][1])
            inner = inner[0][3]
        vs = leaf_values(inner)
        if not lids or len(vs) != 1:
            return None
        fa, m = self.freeze(st, it), {}
        for l in lids:
            m[T('idx', C(l))] = T('perm', C(self.I.permids.setdefault((fa, ('unordered',), l), len(self.I.permids) + self.I.tagbase)), T('idx', C('a member')))
        v = subst(vs[0], m)
        return [('sym', self.length(st, it), lambda i: subst(v, {T('idx', C('a member')): i}))]

    def nonneg(self, n):
        """loop counts: clamp dropped when the polynomial is built from lengths"""
        return n

    def set_union(self, st, ref, args):
        segs = st.get(ref).segs
        for a in args:
            for s in self.segs_of(st, a):
                if s not in segs:
                    segs += (s,)
        return self.I.new(st, HSeq('set', segs))

    def card(self, st, v):
        f = self.freeze(st, v)
        return T('card', C(self.I.permids.setdefault(('card', f), len(self.I.permids) + self.I.tagbase)))

    def length(self, st, v):
        v = self.I.resolve(st, v)
        if isinstance(v, C):
            try:
                return C(len(v.v))
            except TypeError:
                return T('len', v)
        if isinstance(v, Tup):
            return C(len(v.items))
        if isinstance(v, Ref):
            o = st.get(v)
            if o.kind in ('seq', 'dict'):
                if o.kind == 'seq' and o.t == 'set' and any(s[0] != 'v' for s in o.segs):
                    return self.card(st, v)
                if o.kind == 'dict':
                    ks = self.dict_keysegs(o.segs)
                    if any(s[0] != 'v' for s in ks):
                        return self.card(st, v)
                    return self.seglen(st, ks)
                return self.seglen(st, o.segs)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                f, _ = o.cls.lookup('__len__')
                if f is not None:
                    return self.I.call(st, BM(v, f), [], {}, None)
            return T('len', self.freeze(st, v))
        if isinstance(v, Lazy):
            n = C(0)
            for c in v.chunks:
                if c[0] == 'v':
                    n = add(n, C(1))
                elif c[0] == 'sym':
                    n = add(n, c[1])
                else:
                    return T('len', self.freeze(st, v))
            return n
        if isinstance(v, Cls) and v.is_enum:
            return C(len(v.members))
        if isinstance(v, T):
            if v.op == 'arr':
                return v.args[2]
            if v.op == 'bytes':
                return v.args[2]
            if v.op == 'ite':
                return ite(v.args[0], self.length(st, v.args[1]), self.length(st, v.args[2]))
            if v.op == 'range':
                return sub(v.args[1], v.args[0]) if v.args[2] == C(1) else T('len', v)
            if v.op in ('pk', 'pks', 'pad', 'concat', 'pkarr'):
                return self.sizeof(v)
            if v.op in ('round', 'sorted', 'reversed', 'list', 'tuple', 'asarray', 'iter') and v.args and isinstance(v.args[0], T) and v.op not in ('list', 'tuple'):
                return self.length(st, v.args[0])
            if v.op in ('list', 'tuple') and not any(isinstance(a, T) and a.op in ('spread', 'rep', 'altseg') for a in v.args):
                return C(len(v.args))
            if v.op == 'content':
                return self.length(st, v.args[0])
            if v.op in ('list', 'tuple'):
                n = C(0)
                for a in v.args:
                    if isinstance(a, T) and a.op == 'spread':
                        n = add(n, self.length(st, a.args[0]))
                    elif isinstance(a, T) and a.op == 'rep' and a.args[3] == TRUE and len(a.args[2]) == 1:
                        n = add(n, a.args[1])
                    elif isinstance(a, T) and a.op in ('rep', 'altseg'):
                        return T('len', v)
                    else:
                        n = add(n, C(1))
                return n
        return T('len', v)

    def seglen(self, st, segs):
        n = C(0)
        for s in segs:
            if s[0] == 'v' or s[0] == 'kv':
                n = add(n, C(1))
            elif s[0] == 'rep':
                inner = self.seglen(st, s[3])
                if s[4] == TRUE and self.I.invariant(inner, C(s[1])):
                    n = add(n, mul(s[2], inner))
                else:
                    # the sum over the iterations of the entries each contributes
                    n = add(n, T('count', C(s[1]), self.freeze(st, s[4]) if isinstance(s[4], V) else TRUE, self.freeze(st, s[2]), inner))
            elif s[0] == 'sym':
                n = add(n, self.length(st, s[1]))
            elif s[0] == 'alt':
                n = add(n, ite(s[1], self.seglen(st, s[2]), self.seglen(st, s[3])))
        return n

    def elem(self, st, v, i):
        v = self.I.resolve(st, v)
        if isinstance(v, (Tup, C)) or isinstance(v, Ref):
            return self.getitem(st, v, i)
        if isinstance(v, T):
            if v.op == 'arr':
                data, off, n, code = v.args
                return self.rd(data, add(off, mul(C(CODESZ[code[-1]]), i)), code)
            if v.op == 'bytes':
                return self.rd(v.args[0], add(v.args[1], i), 'B')
            if v.op == 'ite':
                return ite(v.args[0], self.elem(st, v.args[1], i), self.elem(st, v.args[2], i))
            if v.op == 'round':
                return T('round', self.elem(st, v.args[0], i), *v.args[1:])
            if v.op == 'range':
                return add(v.args[0], mul(v.args[2], i))
            if v.op in ('list', 'tuple') and isinstance(i, C) and isinstance(i.v, int) and 0 <= i.v < len(v.args) and not any(isinstance(a, T) and a.op in ('spread', 'rep', 'altseg') for a in v.args[:i.v + 1]):
                return v.args[i.v]
            if v.op in ('list', 'tuple') and len(v.args) == 1 and isinstance(v.args[0], T):
                a = v.args[0]
                if a.op == 'spread':
                    return self.elem(st, a.args[0], i)
                if a.op == 'rep' and a.args[3] == TRUE and len(a.args[2]) == 1:
                    return subst(a.args[2][0], {T('idx', a.args[0]): i})
            if v.op == 'lin' and is_num(v) and not any(isinstance(a, T) and a.op in ('arr', 'round') for m, _ in v.args[1] for a in m):
                return T('elemof', v, i)
            if v.op == 'lin':
                def m(x):
                    if isinstance(x, T) and x.op in ('arr',):
                        return self.elem(st, x, i)
                    return None
                return subst(v, m)
        return T('elemof', v, i)

    # ------------------------------------------------------------ list/dict mutation
    def list_append(self, st, ref, v):
        o = st.mut(ref)
        st.emit('mut', ref, 'append', self.I.site, v)
        o.segs = o.segs + (('v', v),)

    def list_extend(self, st, ref, v):
        segs = self.segs_of(st, v)
        o = st.mut(ref)
        st.emit('mut', ref, 'extend', self.I.site)
        o.segs = o.segs + tuple(segs)

    def dict_update(self, st, ref, v):
        v = self.I.resolve(st, v)
        o = st.mut(ref)
        st.emit('mut', ref, 'update', self.I.site)
        if isinstance(v, Ref) and st.get(v).kind == 'dict':
            for s in st.get(v).segs:
                self._dset(o, s)
        elif isinstance(v, Ref) and st.get(v).kind == 'seq':
            for s in st.get(v).segs:
                if s[0] == 'v' and isinstance(s[1], Tup) and len(s[1].items) == 2:
                    self._dset(o, ('kv',) + s[1].items)
                else:
                    o.segs = o.segs + (('sym', self.freeze(st, v)),)
        else:
            o.segs = o.segs + (('sym', self.freeze(st, v)),)

    def _dset(self, o, seg):
        if seg[0] == 'kv' and all(s[0] == 'kv' and isinstance(s[1], (C, EnumM, Tup)) for s in o.segs) and isinstance(seg[1], (C, EnumM, Tup)):
            new = []
            hit = False
            for s in o.segs:
                if const_eq(s[1], seg[1]) is True:
                    new.append(('kv', s[1], seg[2]))
                    hit = True
                else:
                    new.append(s)
            if not hit:
                new.append(seg)
            o.segs = tuple(new)
        else:
            o.segs = o.segs + (seg,)

    def setitem(self, st, ref, k, v):
        o = st.mut(ref)
        st.emit('mut', ref, 'setitem', self.I.site, k, v)
        if o.kind == 'dict':
            l = o.segs[-1] if o.segs else None
            if l and l[0] == 'rep' and l[4] == TRUE and len(l[3]) == 1 and l[3][0][0] == 'kv':
                # one more iteration of the loop that filled it
                m = {T('idx', C(l[1])): l[2]}
                fk, fv = self.freeze(st, k), self.freeze(st, v)
                if subst(self.freeze(st, l[3][0][1]), m) == fk and alpha(subst(self.freeze(st, l[3][0][2]), m)) == alpha(fv):
                    o.segs = o.segs[:-1] + (('rep', l[1], add(l[2], C(1)), l[3], TRUE),)
                    return
            self._dset(o, ('kv', k, v))
            return
        if o.kind == 'seq':
            if isinstance(k, C) and isinstance(k.v, int) and all(s[0] == 'v' for s in o.segs) and -len(o.segs) <= k.v < len(o.segs):
                segs = list(o.segs)
                segs[k.v] = ('v', v)
                o.segs = tuple(segs)
                return
            fz = T('setitem', self.freeze(st, ref), self.freeze(st, k), self.freeze(st, v))
            if fz.size > 3000:
                fz = self.I.unk('setitem')
            o.segs = (('sym', fz),)

    def dict_concrete(self, st, ref):
        o = st.get(ref)
        if o.kind != 'dict':
            return None
        out = {}
        for s in o.segs:
            if s[0] == 'kv':
                out[s[1]] = s[2]
            elif s[0] == 'del':
                out.pop(s[1], None)
            else:
                return None
        return out

    def dict_get(self, st, segs, k, missing, maybe=False):
        """value for key k; `missing()` gives the value when absent"""
        for n in range(len(segs) - 1, -1, -1):
            s = segs[n]
            rest = segs[:n]
            if s[0] == 'kv':
                e = self.keyeq(st, s[1], k)
                if isinstance(e, C):
                    if e.v:
                        return s[2]
                    continue
                e = simp_cond(e, st.facts)
                if isinstance(e, C):
                    if e.v:
                        return s[2]
                    continue
                return ite(e, s[2], self.dict_get(st, rest, k, missing, maybe))
            if s[0] == 'del':
                e = self.keyeq(st, s[1], k)
                if isinstance(e, C) and e.v:
                    return missing()
                if isinstance(e, C):
                    continue
                return ite(e, missing(), self.dict_get(st, rest, k, missing, maybe))
            if s[0] == 'alt':
                return ite(s[1], self.dict_get(st, rest + s[2], k, missing, maybe), self.dict_get(st, rest + s[3], k, missing, maybe))
            if s[0] == 'rep':
                lid, cnt, inner, cond = s[1:5]
                ix = T('idx', C(lid))
                if maybe and not (len(inner) == 1 and inner[0][0] == 'kv' and inner[0][1] == k):
                    has = simp_cond(self.dict_has(st, segs[:n + 1], k), st.facts)
                    return ite(has, self.dict_get(st, segs[:n + 1], k, missing), missing())
                if len(inner) == 1 and inner[0][0] == 'kv':
                    key, val = inner[0][1], inner[0][2]
                    if key == ix and cond == TRUE:
                        return subst(val, {ix: k})
                    if key == k:
                        return val
                    e = self.keyeq(st, key, k)
                    if isinstance(e, C) and not e.v and self.I.invariant(key, C(lid)):
                        continue
                    # keys made by the loop: the value the last iteration with this key stored
                    fr = T('rep', C(lid), cnt, (T('kv', self.freeze(st, key), self.freeze(st, val)),), cond)
                    if cond == TRUE and not rest:
                        tag = self.I.permids.setdefault(('find', fr), len(self.I.permids) + self.I.tagbase)
                        return self.thaw(st, subst(self.freeze(st, val), {ix: T('find', C(tag), self.freeze(st, k))}))
                    return T('dictget', fr, self.freeze(st, k))
                return T('dictget', self.fseg(st, s, 0), self.freeze(st, k))
            if s[0] == 'sym':
                return T('dictget', s[1], self.freeze(st, k))
        return missing()

    def keyeq(self, st, a, b):
        return self.I.equal(st, a, b)

    def dict_has(self, st, segs, k):
        for n in range(len(segs) - 1, -1, -1):
            s = segs[n]
            rest = segs[:n]
            if s[0] in ('kv', 'del'):
                e = self.keyeq(st, s[1], k)
                e = simp_cond(e, st.facts) if not isinstance(e, C) else e
                hit = C(s[0] == 'kv')
                if isinstance(e, C):
                    if e.v:
                        return hit
                    continue
                r = self.dict_has(st, rest, k)
                return disj(e, r) if s[0] == 'kv' else conj(neg_c(e), r)
            if s[0] == 'alt':
                return ite(s[1], self.dict_has(st, rest + s[2], k), self.dict_has(st, rest + s[3], k))
            if s[0] == 'rep':
                return T('in', self.freeze(st, k), T('keysof', *[self.fseg(st, x, 0) for x in segs]))
            if s[0] == 'sym':
                r = self.dict_has(st, rest, k)
                return disj(T('in', self.freeze(st, k), s[1]), r)
        return FALSE

    # ------------------------------------------------------------ indexing
    def getitem(self, st, o, k):
        o = self.unbuf(st, o)
        I = self.I
        if I.trace_may and isinstance(o, T) and isinstance(k, C) and isinstance(k.v, str):
            self.may(st, f'[{k.v!r}]', [o])
        if isinstance(o, Tup) or (isinstance(o, C) and isinstance(o.v, (str, bytes, tuple, range))):
            items = o.items if isinstance(o, Tup) else None
            if isinstance(k, (C, EnumM)) and isinstance(numval(k) if isinstance(k, EnumM) else k.v, int):
                kv = int(numval(k))
                n = len(items) if items is not None else len(o.v)
                if -n <= kv < n:
                    return items[kv] if items is not None else C(o.v[kv])
                st.emit('index_error', self.freeze(st, o), k, I.site)
                I.do_raise(st, T('exc', 'IndexError', k))
            if isinstance(k, T) and k.op == 'slice' and all(isinstance(a, C) for a in k.args):
                sl = slice(*[a.v for a in k.args])
                return Tup(items[sl]) if items is not None else C(o.v[sl])
            if items is None:
                return T('slice_s' if isinstance(k, T) and k.op == 'slice' else 'getitem', o, k)
            if isinstance(k, T) and k.op != 'slice' and is_num(k) and 0 < len(items) <= 64:
                out = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    out = ite(eq(k, C(j)), items[j], out)
                return out
            return T('getitem', self.freeze(st, o), k)
        if isinstance(o, Ref):
            ob = st.get(o)
            if ob.kind == 'dict':
                kk = k

                def missing():
                    st.emit('key_error', kk, I.site)
                    return UNDEF
                v = self.dict_get(st, ob.segs, k, missing)
                if isinstance(v, Undef):
                    I.do_raise(st, T('exc', 'KeyError', self.freeze(st, k)))
                if isinstance(v, T) and v.op == 'ite':
                    v = self.strip_miss(st, v, k)
                return v
            if ob.kind == 'seq':
                if isinstance(k, (C, EnumM)):
                    kv = numval(k) if isinstance(k, EnumM) else k.v
                    if isinstance(kv, int):
                        n = 0
                        segs = ob.segs
                        if all(s[0] == 'v' for s in segs):
                            if -len(segs) <= kv < len(segs):
                                return segs[kv][1]
                            st.emit('index_error', self.freeze(st, o), k, I.site)
                            I.do_raise(st, T('exc', 'IndexError', k))
                        if kv >= 0:
                            for s in segs:
                                if s[0] != 'v':
                                    break
                                if n == kv:
                                    return s[1]
                                n += 1
                            else:
                                n = None
                            if n is not None and len(segs) > n and segs[n][0] == 'rep' and segs[n][4] == TRUE and len(segs[n][3]) == 1 and segs[n][3][0][0] == 'v':
                                return subst(segs[n][3][0][1], {T('idx', C(segs[n][1])): C(kv - n)})
                            if n is not None and len(segs) > n and segs[n][0] == 'sym':
                                return self.elem(st, segs[n][1], C(kv - n))
                        elif segs[-1][0] == 'v' and kv == -1:
                            return segs[-1][1]
                        elif kv == -1 and segs[-1][0] == 'rep' and segs[-1][4] == TRUE and len(segs[-1][3]) == 1 and segs[-1][3][0][0] == 'v':
                            return subst(segs[-1][3][0][1], {T('idx', C(segs[-1][1])): sub(segs[-1][2], C(1))})
                        elif kv == -1 and segs[-1][0] == 'sym' and len(segs) == 1:
                            return self.elem(st, segs[-1][1], sub(self.length(st, segs[-1][1]), C(1)))
                        return T('elemof', self.freeze(st, o), k)
                if isinstance(k, T) and k.op == 'slice':
                    if all(s[0] == 'v' for s in ob.segs) and all(isinstance(a, C) for a in k.args):
                        sl = slice(*[a.v for a in k.args])
                        return I.newlist(st, [s[1] for s in ob.segs][sl], ob.t)
                    if k.args == (NONE, NONE, NONE):
                        return I.new(st, HSeq(ob.t, ob.segs))
                    lo, hi, step = k.args
                    if step in (NONE, C(1)) and (lo is NONE or lo == NONE or isinstance(lo, C) and isinstance(lo.v, int) and lo.v >= 0) and (hi == NONE):
                        nlo = 0 if lo == NONE else lo.v
                        if all(s[0] == 'v' for s in ob.segs[:nlo]) and len(ob.segs) >= nlo:
                            return I.new(st, HSeq(ob.t, ob.segs[nlo:]))
                    r = I.new(st, HSeq(ob.t, (('sym', T('slice_of', self.freeze(st, o), k)),)))
                    return r
                segs = ob.segs
                if len(segs) == 1 and segs[0][0] == 'rep' and segs[0][4] == TRUE and len(segs[0][3]) == 1 and segs[0][3][0][0] == 'v':
                    return subst(segs[0][3][0][1], {T('idx', C(segs[0][1])): k})
                if len(segs) == 1 and segs[0][0] == 'sym':
                    return self.elem(st, segs[0][1], k)
                pos = C(0)
                for s in segs:
                    d = sub(k, pos)
                    if isnumconst(d):
                        if s[0] == 'v' and numval(d) == 0:
                            return s[1]
                        if numval(d) < 0:
                            break
                    pos = add(pos, self.seglen(st, (s,)))
                if all(s[0] == 'v' for s in segs) and 0 < len(segs) <= 64 and isinstance(k, T) and is_num(k):
                    out = segs[-1][1]
                    for j in range(len(segs) - 2, -1, -1):
                        out = ite(eq(k, C(j)), segs[j][1], out)
                    return out
                return T('elemof', self.freeze(st, o), k)
            return T('getitem', self.freeze(st, o), self.freeze(st, k))
        if isinstance(o, T):
            if o.op in ('bytes', 'filedata', 'fileread'):
                return self.bytes_index(st, o, k)
            if isinstance(k, C) and isinstance(k.v, int) and not isinstance(k.v, bool):
                if o.op in ('arr', 'round', 'list', 'tuple', 'lin') and k.v >= 0:
                    return self.elem(st, o, k)
                if o.op == 'arr' and k.v < 0:
                    return self.elem(st, o, add(o.args[2], k))
                if o.op in ('split', 'rsplit', 'partition') and k.v == 0 and len(o.args) >= 2:
                    return T('upto', o.args[0], o.args[1])
            if o.op == 'arr' and isinstance(k, T) and k.op == 'slice' and isinstance(k.args[2], C) and isinstance(k.args[2].v, int) \
                    and k.args[2].v > 1 and k.args[1] == NONE and (k.args[0] == NONE or isinstance(k.args[0], C) and isinstance(k.args[0].v, int) and k.args[0].v >= 0):
                # every step-th element
                a, stp = (0 if k.args[0] == NONE else k.args[0].v), k.args[2].v
                I.loopn += 1
                lid = f'{I.loopfix}{I.loopn}'
                cnt = self.floordiv(add(o.args[2], C(stp - 1 - a)), C(stp))
                return I.new(st, HSeq('tuple', (('rep', lid, cnt, (('v', self.elem(st, o, add(C(a), mul(C(stp), T('idx', C(lid)))))),), TRUE),)))
            if o.op == 'arr' and is_num(k):
                return self.elem(st, o, k)
            if is_str(o) and isinstance(k, T) and k.op == 'slice':
                lo, hi, step = k.args
                if isinstance(hi, T) and hi.op == 'find' and hi.args[0] == o and lo in (NONE, C(0)) and step == NONE:
                    return T('upto_raw', o, hi.args[1])
                return T('slice_s', o, self.freeze(st, k))
        return T('getitem', self.freeze(st, o), self.freeze(st, k))

    def strip_miss(self, st, v, k):
        if not any(isinstance(x, Undef) for x in subterms(v)):
            return v

        def go(x):
            if isinstance(x, Undef):
                return None
            if isinstance(x, T) and x.op == 'ite':
                a, b = go(x.args[1]), go(x.args[2])
                if a is None:
                    return b
                if b is None:
                    return a
                return ite(x.args[0], a, b)
            return x
        r = go(v)
        return r if r is not None else UNDEF

    def bytes_index(self, st, o, k):
        if o.op == 'bytes':
            data, base, n = o.args
        else:
            data, base, n = o, C(0), T('len', o)
        if isinstance(k, T) and k.op == 'slice':
            lo, hi, step = k.args
            if step not in (NONE, C(1)):
                return T('slice_s', o, k)
            lo_ = C(0) if lo == NONE else lo
            if isinstance(lo_, C) and isinstance(lo_.v, int) and lo_.v < 0:
                lo_ = add(n, lo_)
            if isinstance(hi, T) and hi.op == 'find' and hi.args[0] == o and lo_ == C(0):
                return T('upto_raw', o, hi.args[1])
            if hi == NONE:
                ln = sub(n, lo_)
            elif isinstance(hi, C) and isinstance(hi.v, int) and hi.v < 0:
                ln = sub(add(n, hi), lo_)
            else:
                if isinstance(hi, T) and any(isinstance(x, T) and x.op == 'find' for x in subterms(hi)):
                    return T('slice_s', o, k)
                if isinstance(hi, C) and isinstance(n, C) and isinstance(n.v, int) and isinstance(hi.v, int) and hi.v > n.v:
                    hi = n
                ln = sub(hi, lo_)
            if ln == n and lo_ == C(0):
                return o
            return self.mkbytes(data, add(base, lo_), ln)
        if isinstance(k, V):
            if isinstance(k, C) and isinstance(k.v, int) and k.v < 0:
                k = add(n, k)
            return self.rd(data, add(base, k), 'B')
        return T('getitem', o, k)

    def mkbytes(self, data, off, n):
        if isinstance(n, C) and isinstance(n.v, int):
            r = self.I.assume_rd(data, off, f'{n.v}s')
            if r is not None:
                return r
        return T('bytes', data, off, n)

    def rd(self, data, off, code):
        if isinstance(data, T) and data.op == 'bytes':
            return self.rd(data.args[0], add(data.args[1], off), code)
        if code[-1] in 'bB' and len(code) == 2:
            code = code[-1]
        self.I.reads.append((data, off, code, self.I.site))
        r = self.I.assume_rd(data, off, code)
        if r is not None:
            return r
        return T('rd', data, off, code)

    # ------------------------------------------------------------ formatting
    def format1(self, v, spec, conversion):
        if isinstance(v, C) and not isinstance(v.v, (tuple,)):
            try:
                x = v.v
                if conversion == 114:
                    x = repr(x)
                elif conversion == 115:
                    x = str(x)
                return C(format(x, spec))
            except (ValueError, TypeError):
                return T('fv', v, C(spec), C(conversion))
        if isinstance(v, EnumM):
            if spec == '' and isinstance(v.value, int):
                return C(str(v.value))
            if isinstance(v.value, int):
                return C(format(v.value, spec))
        if spec == '' and conversion in (-1, 115):
            if is_str(v) and not self.is_bytes(v):
                return v
            if isinstance(v, T) and v.op == 'ite' and all(isinstance(x, C) or is_str(x) for x in v.args[1:]):
                return ite(v.args[0], self.format1(v.args[1], spec, conversion), self.format1(v.args[2], spec, conversion))
        if is_int(v) and spec == 'd':
            spec = ''
        if isinstance(v, T) and v.op == 'ite' and not is_num(v):
            return ite(v.args[0], self.format1(v.args[1], spec, conversion), self.format1(v.args[2], spec, conversion))
        vv = v if isinstance(v, (T, Tup, C, EnumM)) else T('ref', v)
        return T('fv', vv, C(spec), C(-1 if conversion == 115 and spec == '' else conversion))

    def is_bytes(self, v):
        if isinstance(v, C):
            return isinstance(v.v, bytes)
        if isinstance(v, T):
            if v.op in ('bytes', 'filedata', 'encode', 'pk', 'pks', 'pad', 'pkarr', 'tobytes', 'stream'):
                return True
            if v.op in ('strip', 'rstrip', 'lstrip', 'upto', 'upto_raw', 'slice_s', 'replace', 'ljust') and v.args:
                return self.is_bytes(v.args[0])
            if v.op == 'concat':
                return any(self.is_bytes(a) for a in v.args)
        return False

    def concat(self, *parts):
        return flatten_concat(parts)

    # ------------------------------------------------------------ operators
    def floordiv(self, a, b):
        if isnumconst(a) and isnumconst(b) and numval(b) != 0:
            return C(numval(a) // numval(b))
        if isinstance(b, C) and isinstance(b.v, int) and b.v > 0 and is_int(a):
            c, mons = to_poly(a)
            q = {m: k // b.v for m, k in mons.items() if k % b.v == 0}
            r = {m: k for m, k in mons.items() if k % b.v}
            if not r:
                return from_poly(c // b.v, q)
            if q or c // b.v:
                return add(from_poly(c // b.v, q), T('floordiv', from_poly(c % b.v, r), b))
        return T('floordiv', a, b)

    def mod(self, a, b):
        if isnumconst(a) and isnumconst(b) and numval(b) != 0:
            return C(numval(a) % numval(b))
        if isinstance(b, C) and isinstance(b.v, int) and b.v > 0 and is_int(a):
            c, mons = to_poly(a)
            r = {m: k % b.v for m, k in mons.items() if k % b.v}
            a2 = from_poly(c % b.v, r)
            if isinstance(a2, C):
                return C(a2.v % b.v)
            # a mod b = a - b*(a//b)
            return sub(a2, mul(b, self.floordiv(a2, b)))
        return T('mod', a, b)

    def binop(self, st, op, a, b):
        I = self.I
        a, b = self.unbuf(st, a), self.unbuf(st, b)
        if isinstance(a, T) and a.op == 'enum':
            a = a.args[1]
        if isinstance(b, T) and b.op == 'enum':
            b = b.args[1]
        if op == 'Add':
            if is_str(a) or is_str(b):
                if not (is_num(a) or is_num(b)):
                    return self.concat(a, b)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return Tup(a.items + b.items)
            if isinstance(a, (Ref, Lazy)) or isinstance(b, (Ref, Lazy)):
                for x in (a, b):
                    if isinstance(x, Ref) and st.get(x).kind == 'obj' and isinstance(st.get(x).cls, Cls):
                        f, _ = st.get(x).cls.lookup('__add__' if x is a else '__radd__')
                        if f is not None:
                            return I.call(st, BM(x, f), [b if x is a else a], {}, None)
                kinds = [st.get(x).t for x in (a, b) if isinstance(x, Ref) and st.get(x).kind == 'seq']
                if kinds:
                    return I.new(st, HSeq(kinds[0], self.segs_of(st, a) + self.segs_of(st, b)))
            if isinstance(a, C) and not isinstance(a.v, (int, float)) or isinstance(b, C) and not isinstance(b.v, (int, float)):
                return T('+', self.freeze(st, a), self.freeze(st, b))
            return add(self.freeze(st, a), self.freeze(st, b))
        fa, fb = self.freeze(st, a), self.freeze(st, b)
        if op == 'Sub':
            if isinstance(a, Ref) and st.get(a).kind == 'seq':
                return T('setdiff', fa, fb)
            return sub(fa, fb)
        if op == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ref) and st.get(x).kind == 'seq' and not (isinstance(y, Ref)):
                    segs = st.get(x).segs
                    t = st.get(x).t
                    if isinstance(y, C) and isinstance(y.v, int) and y.v * len(segs) <= 2000:
                        return I.new(st, HSeq(t, segs * max(0, y.v)))
                    I.loopn += 1
                    return I.new(st, HSeq(t, (('rep', f'{I.loopfix}{I.loopn}', y, segs, TRUE),)))
                if isinstance(x, Tup) and isinstance(y, C) and isinstance(y.v, int):
                    return Tup(x.items * y.v)
                if isinstance(x, C) and isinstance(x.v, (str, bytes)):
                    if isinstance(y, C):
                        return C(x.v * y.v)
                    if isinstance(x.v, bytes) and set(x.v) == {0}:
                        return T('pad', mul(C(len(x.v)), y))
                    return T('concat', T('strrep', x, y))
            return mul(fa, fb)
        if isnumconst(a) and isnumconst(b):
            x, y = numval(a), numval(b)
            try:
                r = {'Div': lambda: x / y, 'Pow': lambda: x ** y, 'LShift': lambda: x << y, 'RShift': lambda: x >> y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'FloorDiv': lambda: x // y, 'Mod': lambda: x % y}[op]()
                return C(r)
            except (KeyError, ZeroDivisionError, TypeError, ValueError, OverflowError):
                return I.unk('constop ' + op, fa, fb)
        if op == 'Div':
            if isinstance(b, Ref) or isinstance(a, Ref):
                pass
            if isinstance(fb, C) and isinstance(fb.v, float) and fb.v == int(fb.v):
                fb = C(int(fb.v))
            if isinstance(fb, C) and fb.v == 1:
                return fa
            return T('truediv', fa, fb)
        if op == 'FloorDiv':
            return self.floordiv(fa, fb)
        if op == 'Mod':
            if isinstance(fa, C) and isinstance(fa.v, str):
                return T('fv', fb if isinstance(fb, V) else NONE, T('pct', fa), C(-1))
            return self.mod(fa, fb)
        if op == 'Pow':
            return T('pow', fa, fb)
        if op == 'LShift':
            if isinstance(fb, C) and isinstance(fb.v, int) and 0 <= fb.v < 64 and is_int(fa):
                return mul(fa, C(1 << fb.v))
            return T('lshift', fa, fb)
        if op == 'RShift':
            if isinstance(fb, C) and isinstance(fb.v, int) and 0 <= fb.v < 64 and is_int(fa):
                return self.floordiv(fa, C(1 << fb.v))
            return T('rshift', fa, fb)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, T) and a.op == 'union' or (isinstance(a, Cls) and isinstance(b, (Cls, Ext, T))):
                xs = []
                for x in (a, b):
                    xs += list(x.args) if isinstance(x, T) and x.op == 'union' else [x]
                return T('union', *xs)
            if isinstance(a, Ref) and st.get(a).kind == 'dict' and op == 'BitOr':
                r = I.new(st, HDict(st.get(a).segs))
                self.dict_update(st, r, b)
                return r
            if op == 'BitOr' and all(isinstance(x, Ref) and st.get(x).kind == 'seq' and st.get(x).t == 'set' for x in (a, b)):
                return self.set_union(st, a, (b,))
            if op in ('BitAnd', 'BitOr') and I.is_boolish(a) and I.is_boolish(b):
                return conj(a, b) if op == 'BitAnd' else disj(a, b)
            if repr(fa) > repr(fb):
                fa, fb = fb, fa
            return T(op.lower(), fa, fb)
        return T(op, fa, fb)

    def unop(self, st, op, a):
        if op == 'Not':
            return neg_c(self.I.truth(st, a))
        if isinstance(a, T) and a.op == 'enum':
            a = a.args[1]
        if op == 'USub':
            return neg(self.freeze(st, a))
        if op == 'UAdd':
            return a
        if op == 'Invert':
            if isinstance(a, C) and isinstance(a.v, int):
                return C(~a.v)
            return T('invert', self.freeze(st, a))
        return self.I.unk('unop ' + op)

    def compare(self, st, op, a, b):
        I = self.I
        if op == 'Eq':
            return self.eqv(st, a, b)
        if op == 'NotEq':
            return neg_c(self.eqv(st, a, b))
        if op == 'Is':
            return I.is_(st, a, b)
        if op == 'IsNot':
            return neg_c(I.is_(st, a, b))
        if op == 'In':
            return self.contains(st, b, a)
        if op == 'NotIn':
            return neg_c(self.contains(st, b, a))
        if isinstance(a, T) and a.op == 'enum':
            a = a.args[1]
        if isinstance(b, T) and b.op == 'enum':
            b = b.args[1]
        if isinstance(a, (Tup, Ref)) or isinstance(b, (Tup, Ref)) or is_str(a) or is_str(b):
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            if isinstance(a, C) and isinstance(b, C) and type(a.v) is type(b.v):
                return C({'Lt': a.v < b.v, 'LtE': a.v <= b.v, 'Gt': a.v > b.v, 'GtE': a.v >= b.v}[op])
            if op == 'Lt':
                return T('truth', T('lt', fa, fb))
            if op == 'Gt':
                return T('truth', T('lt', fb, fa))
            if op == 'LtE':
                return neg_c(T('truth', T('lt', fb, fa)))
            return neg_c(T('truth', T('lt', fa, fb)))
        if isinstance(a, C) and a.v is None or isinstance(b, C) and b.v is None:
            I.do_raise(st, T('exc', 'TypeError', C('ordering with None')))
        if op == 'Lt':
            return gt0(sub(b, a))
        if op == 'Gt':
            return gt0(sub(a, b))
        if op == 'LtE':
            return ge0(sub(b, a))
        return ge0(sub(a, b))

    def eqv(self, st, a, b):
        ba, bb = bexact(a), bexact(b)
        if ba is not None and not isinstance(a, C):
            a = C(ba)
        if bb is not None and not isinstance(b, C):
            b = C(bb)
        return self.I.equal(st, a, b)

    def contains(self, st, cont, x):
        I = self.I
        cont = I.resolve(st, cont)
        if isinstance(cont, T) and cont.op == 'ite':
            return ite(cont.args[0], self.contains(st, cont.args[1], x), self.contains(st, cont.args[2], x))
        if isinstance(cont, C) and isinstance(cont.v, (str, bytes)):
            if isinstance(x, C):
                return C(x.v in cont.v)
            return T('in', self.freeze(st, x), cont)
        if isinstance(cont, C) and isinstance(cont.v, range):
            if isinstance(x, C):
                return C(x.v in cont.v)
            if cont.v.step == 1 and (is_int(x) or True):
                return conj(ge0(sub(x, C(cont.v.start))), ge0(sub(C(cont.v.stop - 1), x)))
        items = I.tuple_items(st, cont) if not (isinstance(cont, Ref) and st.get(cont).kind == 'dict') else None
        if items is not None:
            return disj(*[self.eqv(st, x, i) for i in items]) if items else FALSE
        if isinstance(cont, T) and cont.op == 'range' and cont.args[2] == C(1):
            return conj(ge0(sub(x, cont.args[0])), ge0(sub(sub(cont.args[1], C(1)), x)))
        if isinstance(cont, Ref):
            o = st.get(cont)
            if o.kind == 'dict':
                return self.dict_has(st, o.segs, x)
            if o.kind == 'obj' and isinstance(o.cls, Cls):
                f, _ = o.cls.lookup('__contains__')
                if f is not None:
                    return I.truth(st, I.call(st, BM(cont, f), [x], {}, None))
            return T('in', self.freeze(st, x), self.freeze(st, cont))
        if isinstance(cont, Cls) and cont.is_enum:
            if isinstance(x, EnumM):
                return C(x in cont.members.values())
            if isinstance(x, C):
                return C(any(m.value == x.v for m in cont.members.values()))
            if isinstance(x, T) and x.op == 'enum':
                x = x.args[1]
            return disj(*[eq(x, C(m.value)) for m in cont.members.values()])
        if is_str(cont) and isinstance(x, C) and isinstance(x.v, str):
            # substring test against a string built from constants and opaque parts
            if isinstance(cont, T) and cont.op == 'concat':
                if any(isinstance(p, C) and isinstance(p.v, str) and x.v in p.v for p in cont.args):
                    return TRUE
                if all(isinstance(p, C) or (isinstance(p, T) and p.op == 'fv' and is_num(p.args[0]) and not any(ch.isdigit() or ch in '-.e' for ch in x.v)) for p in cont.args) and len(x.v) == 1:
                    return FALSE
        return T('in', self.freeze(st, x), self.freeze(st, cont))

    # ------------------------------------------------------------ namedtuples, enums
    def mk_nt(self, st, nt, args, kw):
        I = self.I
        vals = {}
        args = list(args)
        kw = dict(kw)
        if any(isinstance(a, T) and a.op == 'star' for a in args):
            i = next(j for j, a in enumerate(args) if isinstance(a, T) and a.op == 'star')
            sv = args[i].args[0]
            rest = len(args) - i - 1
            need = len(nt.fields) - i - rest
            args = args[:i] + [self.elem(st, sv, C(j)) for j in range(need)] + args[i + 1:]
        if len(args) > len(nt.fields):
            st.emit('extra_arg', nt.name, I.site)
            I.do_raise(st, T('exc', 'TypeError', C(f'too many values for {nt.name}')))
        for f, a in zip(nt.fields, args):
            vals[f] = a
        star = kw.pop('**', None)
        if I.trace_may and star is not None:
            self.may(st, nt.name + '(**)', [star])
        for k, v in kw.items():
            if k not in nt.fields:
                st.emit('bad_kwarg', nt.name, k, I.site)
                I.do_raise(st, T('exc', 'TypeError', C(f'unexpected field {k} for {nt.name}')))
            vals[k] = v
        nd = len(nt.defaults)
        for f, dv in zip(nt.fields[len(nt.fields) - nd:], nt.defaults):
            vals.setdefault(f, dv)
        for f in nt.fields:
            if f not in vals:
                if star is not None:
                    vals[f] = T('kwget', self.freeze(st, star), C(f))
                else:
                    st.emit('missing_arg', nt.name, f, I.site)
                    I.do_raise(st, T('exc', 'TypeError', C(f'missing field {f} of {nt.name}')))
        return Tup([vals[f] for f in nt.fields], nt)

    def enum_call(self, st, cls, x):
        x = self.I.resolve(st, x)
        if isinstance(x, EnumM):
            if x.cls is cls:
                return x
            x = C(x.value)
        if isinstance(x, C):
            for m in cls.members.values():
                if m.value == x.v:
                    return m
            self.I.do_raise(st, T('exc', 'ValueError', C(f'{x.v!r} is not a valid {cls.name}')))
        if isinstance(x, T) and x.op == 'enum':
            return T('enum', C(cls.name), x.args[1])
        if isinstance(x, T) and x.op == 'ite' and not is_num(x):
            return self.I.branch_val(st, x.args[0], lambda s: self.enum_call(s, cls, x.args[1]), lambda s: self.enum_call(s, cls, x.args[2]))
        if self.I.trace_may:
            self.may(st, cls.name, [x])
        return T('enum', C(cls.name), self.freeze(st, x))

    def enum_by_name(self, st, cls, k):
        if isinstance(k, C):
            self.I.do_raise(st, T('exc', 'KeyError', k))
        if self.I.trace_may:
            self.may(st, cls.name + '[]', [k])
        return T('enumby', C(cls.name), self.freeze(st, k))

    def init_ext_base(self, st, ref, cls, args, kw):
        paths = [b.path for b in cls.ext_bases()]
        if any(p.endswith('BytesIO') for p in paths):
            st.mut(ref).d['__ext_pos'] = C(0)
            return
        if not [p for p in paths if p not in ('builtins.object', 'abc.ABC')] and (args or kw):
            st.emit('extra_arg', cls.name, self.I.site)
            self.I.do_raise(st, T('exc', 'TypeError', C(f'{cls.name}() takes no arguments')))

    def super_method(self, st, selfv, name, args, kw):
        if name == '__init__':
            if isinstance(selfv, Ref) and st.get(selfv).kind == 'obj' and isinstance(st.get(selfv).cls, Cls):
                if any(b.path.endswith('BytesIO') for b in st.get(selfv).cls.ext_bases()):
                    st.mut(selfv).d['__ext_pos'] = C(0)
            return NONE
        if name == '__setattr__' and isinstance(selfv, Ref):
            st.mut(selfv).d[args[0].v] = args[1]
            return NONE
        if name == '__new__':
            return self.I.unk('super new')
        if isinstance(selfv, Ref):
            return self.method(st, selfv, name, args, kw)
        return T('super.' + name, *[self.freeze(st, a) for a in args])

    # ------------------------------------------------------------ attributes of opaque values
    def term_attr(self, st, o, name):
        if isinstance(o, T):
            if o.op == 'enum':
                if name in ('value', '_value_'):
                    return o.args[1]
                if name in ('name', '_name_'):
                    return T('enumname', o.args[0], o.args[1])
            if o.op == 'enumby':
                if name == 'value':
                    return T('enumval', o.args[0], o.args[1])
                if name == 'name':
                    return o.args[1]
            if o.op == 'struct' and name == 'size':
                return self.fmtsize(st, o.args[0])
            if o.op == 'struct' and name == 'format':
                return o.args[0]
            if o.op in ('arr', 'round') and name == 'nbytes':
                a = o
                while a.op == 'round':
                    a = a.args[0]
                if a.op == 'arr':
                    return mul(a.args[2], C(CODESZ[a.args[3][-1]]))
            if o.op in ('arr',) and name == 'size':
                return o.args[2]
            if o.op in ('arr',) and name == 'shape':
                return Tup([o.args[2]])
            if name in ('real',):
                return o
        if isinstance(o, T) and name in ('shape', 'dtype', 'size', 'T', 'year', 'month', 'day', 'hour', 'minute', 'second', 'params', 'crs', 'columns', 'values'):
            kind = 'int' if name in ('size', 'year', 'month', 'day', 'hour', 'minute', 'second') else '?'
            return T('attr', o, C(name), kind)
        if isinstance(o, T) and name in ('coordinate_operation', 'method_name', 'name', 'value', 'ndim') and o.op in ('attr', 'elemof', 'arg', 'getitem', 'call'):
            return T('attr', o, C(name), 'int' if name == 'ndim' else '?')
        return BExt(o, name)

    # ------------------------------------------------------------ struct formats
    def fmt_tokens(self, st, fmt):
        """-> (order, [(count V, code)]) or None"""
        parts = list(fmt.args) if isinstance(fmt, T) and fmt.op == 'concat' else [fmt]
        order = '@'
        first = True
        toks = []
        num = ''
        sym = None
        for p in parts:
            if isinstance(p, C) and isinstance(p.v, (str, bytes)):
                s = p.v if isinstance(p.v, str) else p.v.decode()
                for ch in s:
                    if first and ch in '@=<>!':
                        order = ch
                        first = False
                        continue
                    first = False
                    if ch.isspace():
                        continue
                    if ch.isdigit():
                        if sym is not None:
                            return None
                        num += ch
                        continue
                    if ch not in CODESZ:
                        return None
                    cnt = sym if sym is not None else C(int(num)) if num else C(1)
                    toks.append((cnt, ch, sym is not None or bool(num)))
                    num, sym = '', None
            elif isinstance(p, T) and p.op == 'fv' and p.args[1] == C('') and not num and sym is None:
                first = False
                sym = p.args[0]
            elif isinstance(p, T) and is_num(p):
                sym = p
            else:
                return None
        if num or sym is not None:
            return None
        return order, toks

    def lift_fmt(self, st, fmt):
        fmt = self.I.resolve(st, fmt)
        if isinstance(fmt, T) and fmt.op == 'concat':
            ps = [self.I.resolve(st, p) for p in fmt.args]
            fmt = self.concat(*ps)
            if isinstance(fmt, T) and fmt.op == 'concat':
                for n, p in enumerate(fmt.args):
                    if isinstance(p, T) and p.op == 'ite' and not is_num(p):
                        a = list(fmt.args)
                        a[n] = p.args[1]
                        b = list(fmt.args)
                        b[n] = p.args[2]
                        return T('ite', p.args[0], self.concat(*a), self.concat(*b))
        return fmt

    def fmt_layout(self, st, fmt):
        """-> (endian char, [(rel offset, count, code, explicit)], total size) or None"""
        r = self.fmt_tokens(st, fmt)
        if r is None:
            return None
        order, toks = r
        native = order == '@'
        e = {'@': '<' if self.I.byteorder == 'little' else '>', '=': '<' if self.I.byteorder == 'little' else '>', '!': '>'}.get(order, order)
        off = C(0)
        out = []
        for cnt, ch, ex in toks:
            sz = CODESZ[ch]
            if native and ch in 'lL':
                sz = 8
            if native and sz > 1:
                c, mons = to_poly(off)
                if all(k % sz == 0 for k in mons.values()):
                    off = add(off, C((-c) % sz))
                else:
                    self.I.unk('native alignment of symbolic struct offset')
            out.append((off, cnt, ch, ex))
            off = add(off, mul(cnt, C(sz)))
        return e, out, off

    def fmtsize(self, st, fmt):
        fmt = self.lift_fmt(st, fmt)
        if isinstance(fmt, T) and fmt.op == 'ite':
            return ite(fmt.args[0], self.fmtsize(st, fmt.args[1]), self.fmtsize(st, fmt.args[2]))
        r = self.fmt_layout(st, fmt)
        if r is None:
            return T('calcsize', fmt)
        return r[2]

    def unpack(self, st, fmt, data, off):
        fmt = self.lift_fmt(st, fmt)
        if isinstance(fmt, T) and fmt.op == 'ite':
            return ite(fmt.args[0], self.unpack(st, fmt.args[1], data, off), self.unpack(st, fmt.args[2], data, off))
        r = self.fmt_layout(st, fmt)
        if r is None:
            return self.I.unk('struct format', fmt if isinstance(fmt, V) else NONE)
        e, lay, total = r
        if isinstance(data, T) and data.op == 'bytes':
            off = add(data.args[1], off)
            data = data.args[0]
        elif not (isinstance(data, T) and data.op in ('filedata', 'fileread', 'arg', 'content')):
            b = bexact(data)
            if b is not None and isinstance(off, C) and isinstance(fmt, C):
                try:
                    return Tup([C(x) for x in _struct.unpack_from(fmt.v, b, off.v)])
                except _struct.error:
                    pass
        segs = []
        for ro, cnt, ch, ex in lay:
            p = add(off, ro)
            if ch == 'x':
                continue
            if ch == 's':
                segs.append(('v', self.mkbytes(data, p, cnt)))
                continue
            code = e + ch if CODESZ[ch] > 1 else ch
            if isinstance(cnt, C):
                for j in range(cnt.v):
                    segs.append(('v', self.rd(data, add(p, C(j * CODESZ[ch])), code)))
            else:
                self.I.reads.append((data, p, code, self.I.site))
                segs.append(('sym', T('arr', data, p, cnt, code)))
        if all(s[0] == 'v' for s in segs):
            return Tup([s[1] for s in segs])
        if len(segs) == 1:
            return segs[0][1]
        return self.I.new(st, HSeq('tuple', segs))

    def pack(self, st, fmt, vals):
        if self.I.trace_may:
            self.may(st, 'pack', list(vals))
        fmt = self.lift_fmt(st, fmt)
        if isinstance(fmt, T) and fmt.op == 'ite':
            return ite(fmt.args[0], self.pack(st, fmt.args[1], vals), self.pack(st, fmt.args[2], vals))
        r = self.fmt_layout(st, fmt)
        if r is None:
            return self.I.unk('struct pack format', fmt if isinstance(fmt, V) else NONE)
        e, lay, total = r
        vals = list(vals)
        out = []
        pos = C(0)
        for ro, cnt, ch, ex in lay:
            if ro != pos:
                out.append(T('pad', sub(ro, pos)))
            pos = add(ro, mul(cnt, C(CODESZ[ch])))
            if ch == 'x':
                out.append(T('pad', cnt))
                continue
            code = e + ch if CODESZ[ch] > 1 else ch
            if ch == 's':
                if not vals:
                    return self.arity(st, fmt)
                v = self.freeze(st, vals.pop(0))
                if cnt == self.sizeof(v):
                    out.append(v)
                else:
                    out.append(T('pks', cnt, v))
                continue
            if isinstance(cnt, C):
                for j in range(cnt.v):
                    if not vals:
                        return self.arity(st, fmt)
                    v = vals[0]
                    if isinstance(v, T) and v.op == 'star':
                        left = cnt.v - j
                        src = v.args[0]
                        vals.pop(0)
                        for q in range(left):
                            out.append(T('pk', code, self.elem(st, src, C(q))))
                        break
                    vals.pop(0)
                    v = self.I.resolve(st, v)
                    if isinstance(v, T) and v.op == 'enum':
                        v = v.args[1]
                    if isinstance(v, EnumM):
                        v = C(v.value)
                    out.append(T('pk', code, self.freeze(st, v)))
            else:
                if len(vals) == 1 and isinstance(vals[0], T) and vals[0].op == 'star':
                    out.append(T('pkarr', code, cnt, self.freeze(st, self.I.resolve(st, vals.pop(0).args[0]))))
                else:
                    out.append(T('pkarr', code, cnt, T('list', *[self.freeze(st, v) for v in vals])))
                    vals = []
        if vals:
            return self.arity(st, fmt)
        if not out:
            return C(b'')
        r = flatten_concat(out)
        order = self.fmt_tokens(st, fmt)[0]
        if order in '@=':
            b = bexact(r)
            if b is not None:
                return C(b)
        return r

    def arity(self, st, fmt):
        st.emit('bad_unpack', fmt if isinstance(fmt, V) else NONE, C('struct arity'), self.I.site)
        self.I.do_raise(st, T('exc', 'error', C('struct arity')))

    def sizeof(self, v):
        """number of bytes (or characters) of a string-like term"""
        if isinstance(v, C):
            try:
                return C(len(v.v))
            except TypeError:
                return T('len', v)
        if isinstance(v, T):
            if v.op == 'pk':
                return C(CODESZ[v.args[0][-1]])
            if v.op == 'pks':
                return v.args[0]
            if v.op == 'pad':
                return v.args[0]
            if v.op == 'pkarr':
                return mul(v.args[1], C(CODESZ[v.args[0][-1]]))
            if v.op == 'bytes':
                return v.args[2]
            if v.op == 'concat':
                n = C(0)
                for a in v.args:
                    n = add(n, self.sizeof(a))
                return n
            if v.op == 'ite':
                return ite(v.args[0], self.sizeof(v.args[1]), self.sizeof(v.args[2]))
            if v.op == 'fv' and isinstance(v.args[1], C):
                pass
        return T('len', v)

    # ------------------------------------------------------------ methods
    def method(self, st, recv, name, args, kw):
        I = self.I
        recv = I.resolve(st, recv)
        if isinstance(recv, Ref):
            return self.ref_method(st, recv, name, args, kw)
        if isinstance(recv, Lazy):
            return I.unk('lazy method ' + name)
        args = [I.resolve(st, a) for a in args]
        if I.fault is not None:
            self.fault(st, name)
        if isinstance(recv, T) and name in ('open', 'read_bytes', 'write_bytes') and recv.op in ('path', 'arg', 'str', 'fspath'):
            path = recv.args[0] if recv.op == 'path' and len(recv.args) == 1 else recv
            if name == 'open':
                return self.builtin(st, 'open', [path] + args, kw)
            f = self.builtin(st, 'open', [path, C('rb' if name == 'read_bytes' else 'wb')], {})
            r = self.file_method(st, f, st.get(f), name.split('_')[0], args, kw)
            st.emit('close', f, I.site)
            return r
        if I.trace_may and name in MAYMETH:
            self.may(st, name, [recv])
        fa = [self.freeze(st, a) for a in args]
        fk = {k: self.freeze(st, v) for k, v in kw.items()}
        if isinstance(recv, Tup):
            if name == '_asdict' and recv.nt:
                return I.newdict(st, [(C(f), x) for f, x in zip(recv.nt.fields, recv.items)])
            if name == '_replace' and recv.nt:
                d = dict(zip(recv.nt.fields, recv.items))
                d.update(kw)
                return Tup([d[f] for f in recv.nt.fields], recv.nt)
            if name == 'index' and args:
                for j, x in enumerate(recv.items):
                    if const_eq(x, args[0]) is True:
                        return C(j)
                return T('index', self.freeze(st, recv), *fa)
            return T('m.' + name, self.freeze(st, recv), *fa)
        if isinstance(recv, NTCls):
            if name == '_make':
                items = I.tuple_items(st, args[0])
                if items is not None:
                    return self.mk_nt(st, recv, items, {})
                return self.mk_nt(st, recv, [T('star', fa[0])], {})
            return I.unk('nt method ' + name)
        if isinstance(recv, EnumM):
            if name in ('bit_length', 'to_bytes'):
                recv = C(recv.value)
            else:
                return T('m.' + name, recv, *fa)
        if isinstance(recv, C):
            if isinstance(recv.v, (str, bytes, int, float)) and not (name in ('join', 'format')) and all(isinstance(a, C) for a in args) and all(isinstance(v, C) for v in kw.values()) and hasattr(recv.v, name):
                try:
                    r = getattr(recv.v, name)(*[a.v for a in args], **{k: v.v for k, v in kw.items()})
                except MemoryError:
                    raise
                except Exception as e:
                    I.do_raise(st, T('exc', type(e).__name__))
                if isinstance(r, list):
                    return I.newlist(st, [C(x) for x in r])
                if isinstance(r, tuple):
                    return Tup([C(x) for x in r])
                return C(r)
            if name == 'join' and isinstance(recv.v, (str, bytes)):
                items = I.tuple_items(st, args[0])
                if items is not None:
                    out = []
                    for j, x in enumerate(items):
                        if j:
                            out.append(recv)
                        out.append(x)
                    return self.concat(*out) if out else C(type(recv.v)())
                return T('join', recv, self.freeze(st, args[0]))
            if name == 'format' and isinstance(recv.v, str):
                return self.str_format(st, recv.v, args, kw)
            if recv.v is None:
                st.emit('no_attr', 'None', name, I.site)
                I.do_raise(st, T('exc', 'AttributeError', C(name)))
        if isinstance(recv, T):
            if recv.op == 'super':
                return I.unk('super value')
            if recv.op == 'struct':
                fmt = recv.args[0]
                if name == 'unpack_from':
                    off = args[1] if len(args) > 1 else kw.get('offset', C(0))
                    return self.unpack(st, fmt, self.asdata(st, args[0]), off)
                if name == 'unpack':
                    return self.unpack(st, fmt, self.asdata(st, args[0]), C(0))
                if name == 'pack':
                    return self.pack(st, fmt, args)
                if name == 'iter_unpack':
                    return T('iter_unpack', fmt, fa[0])
                if name == 'pack_into':
                    st.emit('mut', args[0], 'pack_into', I.site)
                    return NONE
            if recv.op == 'logger' or repr(recv).startswith('logging.'):
                return NONE
            if recv.op == 'arr' and name in ('tolist', 'copy', 'squeeze', 'ravel', 'flatten', '__array__'):
                return recv if name != 'tolist' else I.new(st, HSeq('list', (('sym', recv),)))
            if name == 'tolist':
                return I.new(st, HSeq('list', (('sym', recv),)))
            if recv.op == 'range' and name == 'index':
                return sub(fa[0], recv.args[0])
            if name in ('read',) and recv.op == 'fileobj':
                return T('filedata', recv.args[0])
            if is_str(recv) or name in STRMETH and name not in ('count', 'index', 'partition', 'format', 'find'):
                return self.str_method(st, recv, name, fa, fk)
            if name in ('astype',):
                t = T('astype', recv, *[self.vdtype(st, a) for a in (args or [kw.get('dtype', NONE)])][:1])
                if 'copy' in kw and kw['copy'] != TRUE:
                    I.nocopy.add(t)
                return t
            if name == 'copy' and not args and not kw and not I.copies and isinstance(recv, T):
                return recv
            if name in ('view',):
                return T('view', recv, *[(self.dtype if isinstance(recv, T) and recv.op in ('arr', 'frombuffer') else self.vdtype)(st, a) for a in args])
            if name in ('round',):
                return T('round', recv, *(fa or [C(0)]))
            if name == 'isoformat' or name == 'strftime':
                return T(name, recv, *fa, *[T('kw', C(k), v) for k, v in sorted(fk.items())])
            if name in ('bit_length',):
                return T('m.bit_length', recv)
            if name == 'to_bytes' and is_num(recv) and args and isinstance(args[0], C):
                en = args[1] if len(args) > 1 else kw.get('byteorder', C('big'))
                e = '<' if en == C('little') else '>'
                signed = kw.get('signed', FALSE) == TRUE
                code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}.get(args[0].v)
                if code:
                    return T('pk', (e if code != 'b' else '') + (code if signed else code.upper()), recv)
            if recv.op == 'dict' and name in ('items', 'keys', 'values', 'get'):
                return T('m.' + name, recv, *fa)
            if name in ('items',):
                return T('items', recv)
            if name == 'tobytes':
                return T('tobytes', recv)
        if isinstance(recv, Ext):
            return self.call(st, Ext(recv.path + '.' + name), args, kw)
        if name in MUTATORS and isinstance(recv, T) and not is_str(recv):
            if not (name == 'partition'):
                st.emit('mut', recv, name, I.site)
        rv = recv if isinstance(recv, V) else NONE
        return T('m.' + name, rv, *fa, *[T('kw', C(k), v) for k, v in sorted(fk.items())])

    def str_format(self, st, s, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(s):
                if lit:
                    parts.append(C(lit))
                if field is not None:
                    if field == '':
                        v = args[auto]
                        auto += 1
                    elif field.isdigit():
                        v = args[int(field)]
                    elif field in kw:
                        v = kw[field]
                    else:
                        return self.I.unk('str.format')
                    parts.append(self.format1(self.I.resolve(st, v), spec or '', {None: -1, 'r': 114, 's': 115}.get(conv, -1)))
        except (ValueError, IndexError):
            return self.I.unk('str.format')
        return self.concat(*parts) if parts else C('')

    def str_method(self, st, recv, name, fa, fk):
        if name == 'decode':
            enc = fa[0] if fa else fk.get('encoding', C('utf-8'))
            if isinstance(enc, C) and isinstance(enc.v, str):
                enc = C(enc.v.lower().replace('_', '-').replace('utf8', 'utf-8'))
            if isinstance(recv, T) and recv.op == 'encode' and recv.args[1] == enc:
                return recv.args[0]
            return T('decode', recv, enc, *fa[1:])
        if name == 'encode':
            enc = fa[0] if fa else fk.get('encoding', C('utf-8'))
            if isinstance(enc, C) and isinstance(enc.v, str):
                enc = C(enc.v.lower().replace('_', '-').replace('utf8', 'utf-8'))
            if isinstance(recv, T) and recv.op == 'concat':
                return T('encode', recv, enc)
            return T('encode', recv, enc, *fa[1:])
        if name in ('split', 'rsplit'):
            r = T(name, recv, *fa, *[T('kw', C(k), v) for k, v in sorted(fk.items())])
            return r
        if name == 'replace' and not fa and fk:
            return T('dtreplace', recv, *[T('kw', C(k), v) for k, v in sorted(fk.items())])
        if name in ('replace', 'strip', 'rstrip', 'lstrip', 'upper', 'lower', 'title', 'ljust', 'rjust', 'center', 'zfill'):
            if isinstance(recv, T) and recv.op == name and name in ('upper', 'lower', 'strip') and recv.args[1:] == tuple(fa):
                return recv
            return T(name, recv, *fa)
        if name in ('find',):
            return T('find', recv, *fa)
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isnumeric', 'isspace', 'isalnum', 'isupper', 'islower'):
            return T('truth', T(name, recv, *fa))
        return T(name, recv, *fa, *[T('kw', C(k), v) for k, v in sorted(fk.items())])

    def asdata(self, st, v):
        v = self.I.resolve(st, v)
        if isinstance(v, Ref):
            return self.freeze(st, v)
        return v

    def dtype(self, st, d):
        """normalised dtype code: '<f', 'i', ... as C(str)"""
        if isinstance(d, Ext):
            c = DTYPES.get(d.path)
            if c is None:
                return C(d.path)
            return C(self.native(c))
        if isinstance(d, C) and isinstance(d.v, str):
            s = d.v
            o = ''
            if s[:1] in '<>=|!@':
                o, s = s[0], s[1:]
            c = DTNAMES.get(s)
            if c is None:
                return d
            if CODESZ[c] == 1:
                return C(c)
            if o in ('<', '>'):
                return C(o + c)
            if o == '!':
                return C('>' + c)
            return C(self.native(c))
        if isinstance(d, T) and d.op == 'ite':
            return ite(d.args[0], self.dtype(st, d.args[1]), self.dtype(st, d.args[2]))
        if isinstance(d, T) and d.op == 'concat':
            f = self.lift_fmt(st, d)
            if isinstance(f, T) and f.op == 'ite':
                return self.dtype(st, f)
            if isinstance(f, C):
                return self.dtype(st, f)
        if isinstance(d, T) and d.op == 'm.newbyteorder' and isinstance(d.args[0], C):
            o = d.args[1].v if len(d.args) > 1 and isinstance(d.args[1], C) else 'S'
            c = d.args[0].v[-1]
            if CODESZ[c] == 1:
                return C(c)
            if o in ('<', '>'):
                return C(o + c)
            if o == 'S':
                return C(('>' if d.args[0].v[0] == '<' else '<') + c)
        if isinstance(d, T) and d.op == 'numpy.dtype':
            return self.dtype(st, d.args[0])
        return self.freeze(st, d)

    def vdtype(self, st, d):
        """the type of an array that is not read from bytes: native order is written '<' on every host"""
        d = self.dtype(st, d)
        if self.I.byteorder == 'big' and isinstance(d, C) and isinstance(d.v, str) and d.v[:1] in '<>':
            return C({'<': '>', '>': '<'}[d.v[0]] + d.v[1:])
        return d

    def native(self, c):
        if CODESZ[c] == 1:
            return c
        return ('<' if self.I.byteorder == 'little' else '>') + c

    def fault(self, st, what):
        """while a file is open: the next operation may be the one that fails"""
        I = self.I
        if not openfiles(st):
            return
        I.faultn += 1
        I.faultlog.append((what, I.site))
        if I.faultn == I.fault:
            I.do_raise(st, T('exc', 'Injected', C(what), C(I.site[1])))

    def ref_method(self, st, ref, name, args, kw):
        I = self.I
        if I.fault is not None and name not in ('close', '__exit__', '__enter__'):
            self.fault(st, name)
        o = st.get(ref)
        if o.kind == 'seq':
            return self.seq_method(st, ref, o, name, args, kw)
        if o.kind == 'dict':
            return self.dict_method(st, ref, o, name, args, kw)
        if o.kind == 'obj':
            paths = [b.path for b in o.cls.ext_bases()] if isinstance(o.cls, Cls) else [getattr(o.cls, 'path', '')]
            if any(p.endswith('BytesIO') for p in paths):
                return self.stream_method(st, ref, name, args, kw)
            if any(p == 'file' for p in paths):
                return self.file_method(st, ref, o, name, args, kw)
            if any('MutableSet' in p for p in paths) and name == 'remove':
                f, _ = o.cls.lookup('discard')
                return I.call(st, BM(ref, f), args, {}, None)
            if name in ('__init__', '__init_subclass__'):
                return NONE
            if name == '__eq__':
                return eq(ref, args[0])
            if name in ('__enter__',):
                return ref
            return T('m.' + name, self.freeze(st, ref), *[self.freeze(st, a) for a in args])
        return I.unk('method ' + name)

    def stream_method(self, st, ref, name, args, kw):
        I = self.I
        pos = st.get(ref).d.get('__ext_pos', C(0))
        if name == 'write':
            v = self.freeze(st, args[0])
            st.emit('sw', ref, pos, v, I.site)
            st.mut(ref).d['__ext_pos'] = add(pos, self.sizeof(v))
            return self.sizeof(v)
        if name == 'seek':
            wh = args[1] if len(args) > 1 else C(0)
            if wh == C(0):
                p = self.freeze(st, args[0])
            elif wh == C(1):
                p = add(pos, args[0])
            else:
                p = add(T('streamlen', C(ref.a)), args[0])
            st.emit('seek', ref, p, I.site)
            st.mut(ref).d['__ext_pos'] = p
            return p
        if name == 'tell':
            return pos
        if name in ('getbuffer', 'getvalue', 'read'):
            st.emit('getbuffer', ref, I.site)
            return T('stream', C(ref.a))
        if name in ('__enter__',):
            return ref
        if name in ('__init__', 'close', 'flush', '__exit__'):
            if name == '__init__':
                st.mut(ref).d['__ext_pos'] = C(0)
            return NONE
        if name == 'truncate':
            st.emit('truncate', ref, I.site)
            return NONE
        return I.unk('stream.' + name)

    def file_method(self, st, ref, o, name, args, kw):
        I = self.I
        if name == 'read':
            st.emit('fread', ref, I.site)
            if not args:
                return T('filedata', o.d['path'])
            return T('fileread', o.d['path'], C(I.fresh_id()), self.freeze(st, args[0]))
        if name == 'write' or name == 'writelines':
            if I.trace_may and name == 'writelines':
                self.chunks(st, args[0])
            st.emit('fwrite', ref, self.freeze(st, args[0]), I.site)
            return T('len', self.freeze(st, args[0]))
        if name == 'close':
            st.emit('close', ref, I.site)
            return NONE
        if name in ('__enter__',):
            return ref
        if name in ('flush', 'seek', 'truncate', '__exit__'):
            st.emit('fop', ref, name, I.site)
            return NONE
        return T('m.' + name, T('file', o.d['path']), *[self.freeze(st, a) for a in args])

    def seq_method(self, st, ref, o, name, args, kw):
        I = self.I
        if o.t == 'bytearray':
            if name in ('extend', 'append'):
                v = self.freeze(st, args[0])
                if name == 'append':
                    v = T('pk', 'B', v)
                st.emit('mut', ref, name, I.site)
                m = st.mut(ref)
                m.segs = m.segs + (('v', v),)
                return NONE
            if name in MUTATORS:
                st.emit('mut', ref, name, I.site)
                st.mut(ref).segs = (('sym', I.unk('bytearray.' + name)),)
                return NONE
            return self.method(st, self.freeze(st, ref), name, args, kw)
        args = [self.unbuf(st, a) for a in args] if name not in ('append', 'insert') else args
        if name == 'append':
            self.list_append(st, ref, args[0])
            return NONE
        if name == 'add':
            o = st.mut(ref)
            st.emit('mut', ref, 'add', I.site)
            if ('v', args[0]) not in o.segs:
                o.segs = o.segs + (('v', args[0]),)
            return NONE
        if name in ('extend', 'update'):
            for a in args:
                self.list_extend(st, ref, a)
            return NONE
        if name == 'insert':
            o = st.mut(ref)
            st.emit('mut', ref, 'insert', I.site, *args)
            if isinstance(args[0], C) and isinstance(args[0].v, int) and all(s[0] == 'v' for s in o.segs[:max(0, args[0].v)]) and args[0].v >= 0:
                k = args[0].v
                o.segs = o.segs[:k] + (('v', args[1]),) + o.segs[k:]
            else:
                o.segs = (('sym', T('inserted', self.freeze(st, ref), self.freeze(st, args[0]), self.freeze(st, args[1]))),)
            return NONE
        if name == 'pop':
            st.emit('mut', ref, 'pop', I.site)
            v = self.getitem(st, ref, args[0] if args else C(-1))
            o = st.mut(ref)
            k = args[0].v if args and isinstance(args[0], C) else -1 if not args else None
            if k is not None and all(s[0] == 'v' for s in o.segs) and -len(o.segs) <= k < len(o.segs):
                segs = list(o.segs)
                segs.pop(k)
                o.segs = tuple(segs)
            elif k == -1 and o.segs and o.segs[-1][0] == 'v':
                o.segs = o.segs[:-1]
            elif k == 0 and o.segs and o.segs[0][0] == 'v':
                o.segs = o.segs[1:]
            else:
                o.segs = (('sym', T('popped', self.freeze(st, ref), C(I.fresh_id()))),)
            return v
        if name == 'clear':
            st.emit('mut', ref, 'clear', I.site)
            st.mut(ref).segs = ()
            return NONE
        if name in ('sort', 'reverse'):
            st.emit('mut', ref, name, I.site)
            o = st.mut(ref)
            o.segs = (('sym', T('sorted' if name == 'sort' else 'reversed', self.freeze(st, ref), *[T('kw', C(k), self.freeze(st, v)) for k, v in sorted(kw.items())])),)
            return NONE
        if name in ('remove', 'discard'):
            st.emit('mut', ref, name, I.site)
            o = st.mut(ref)
            hits = [n for n, s in enumerate(o.segs) if s[0] == 'v' and const_eq(s[1], args[0]) is True]
            if hits and all(s[0] == 'v' for s in o.segs[:hits[0]]):
                segs = list(o.segs)
                segs.pop(hits[0])
                o.segs = tuple(segs)
            else:
                o.segs = (('sym', T('removed', self.freeze(st, ref), self.freeze(st, args[0]))),)
            return NONE
        if name == 'copy':
            return I.new(st, HSeq(o.t, o.segs))
        if name == 'index':
            items = I.tuple_items(st, ref)
            if items is not None:
                for j, x in enumerate(items):
                    r = const_eq(x, args[0])
                    if r is True:
                        return C(j)
                    if r is None:
                        break
            return T('index', self.freeze(st, ref), self.freeze(st, args[0]))
        if name in ('union', 'intersection', 'difference', 'symmetric_difference', 'issubset', 'issuperset', 'isdisjoint'):
            if name == 'union':
                return self.set_union(st, ref, args)
            return T('set.' + name, self.freeze(st, ref), *[self.freeze(st, a) for a in args])
        if name in MUTATORS:
            st.emit('mut', ref, name, I.site)
            st.mut(ref).segs = (('sym', I.unk('seq.' + name)),)
            return NONE
        if name == 'count':
            return T('index', T('countof', self.freeze(st, ref), self.freeze(st, args[0])))
        return T('m.' + name, self.freeze(st, ref), *[self.freeze(st, a) for a in args])

    def dict_method(self, st, ref, o, name, args, kw):
        I = self.I
        if name == 'get':
            dflt = args[1] if len(args) > 1 else kw.get('default', NONE)
            return self.dict_get(st, o.segs, I.resolve(st, args[0]), lambda: dflt, True)
        if name == 'items':
            return I.new(st, HSeq('list', self.dict_itemsegs(o.segs, 'items')))
        if name == 'keys':
            return I.new(st, HSeq('list', self.dict_keysegs(o.segs)))
        if name == 'values':
            return I.new(st, HSeq('list', self.dict_itemsegs(o.segs, 'values')))
        if name == 'update':
            for a in args:
                self.dict_update(st, ref, a)
            for k, v in kw.items():
                if k == '**':
                    self.dict_update(st, ref, v)
                else:
                    self.setitem(st, ref, C(k), v)
            return NONE
        if name == 'copy':
            return I.new(st, HDict(o.segs))
        if name == 'pop':
            st.emit('mut', ref, 'pop', I.site)
            k = I.resolve(st, args[0])
            d = args[1] if len(args) > 1 else None

            v = self.dict_get(st, o.segs, k, lambda: UNDEF if d is None else d, d is not None)
            if isinstance(v, Undef):
                I.do_raise(st, T('exc', 'KeyError', self.freeze(st, k)))
            if d is None and isinstance(v, T) and v.op == 'ite':
                v = self.strip_miss(st, v, k)
            o = st.mut(ref)
            if all(s[0] == 'kv' for s in o.segs) and all(const_eq(s[1], k) is not None for s in o.segs):
                o.segs = tuple(s for s in o.segs if const_eq(s[1], k) is not True)
            elif isinstance(k, C) and drop_key(o.segs, k) is not None:
                o.segs = drop_key(o.segs, k)
            else:
                o.segs = o.segs + (('del', k),)
            return v
        if name == '__delitem__':
            st.emit('mut', ref, 'delitem', I.site)
            o = st.mut(ref)
            k = args[0]
            if all(s[0] == 'kv' and const_eq(s[1], k) is not None for s in o.segs):
                o.segs = tuple(s for s in o.segs if const_eq(s[1], k) is not True)
            else:
                o.segs = o.segs + (('del', k),)
            return NONE
        if name == 'setdefault':
            k = I.resolve(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            h = simp_cond(self.dict_has(st, o.segs, k), st.facts)
            if isinstance(h, C):
                if h.v:
                    return self.getitem(st, ref, k)
                self.setitem(st, ref, k, d)
                return d
            v = self.dict_get(st, o.segs, k, lambda: d, True)
            self.setitem(st, ref, k, v)
            return v
        if name == 'clear':
            st.emit('mut', ref, 'clear', I.site)
            st.mut(ref).segs = ()
            return NONE
        if name in MUTATORS:
            st.emit('mut', ref, name, I.site)
            st.mut(ref).segs = (('sym', I.unk('dict.' + name)),)
            return NONE
        return T('m.' + name, self.freeze(st, ref), *[self.freeze(st, a) for a in args])

    def dict_itemsegs(self, segs, what):
        out = {}
        res = []
        for s in segs:
            if s[0] == 'kv':
                v = s[2] if what == 'values' else Tup([s[1], s[2]])
                key = s[1]
                if isinstance(key, (C, EnumM, Tup, T)):
                    hit = next((n for n, (k, _) in enumerate(res) if k == key), None)
                    if hit is not None:
                        res[hit] = (key, ('v', v))
                        continue
                res.append((key, ('v', v)))
            elif s[0] == 'rep':
                res.append((None, ('rep', s[1], s[2], self.dict_itemsegs(s[3], what), s[4])))
            elif s[0] == 'sym':
                res.append((None, ('sym', T(what, s[1]))))
            elif s[0] == 'alt':
                res.append((None, ('alt', s[1], self.dict_itemsegs(s[2], what), self.dict_itemsegs(s[3], what))))
            elif s[0] == 'del':
                res = [(k, x) for k, x in res if k != s[1]]
        return tuple(x for _, x in res)

    # ------------------------------------------------------------ calls of library functions
    def deep(self, st, v, seen=()):
        """frozen value, objects included"""
        v = self.freeze(st, v)

        def go(x, seen):
            if isinstance(x, Ref) and x not in seen:
                o = st.get(x)
                if o.kind == 'obj':
                    return T('object', *[T('kv', C(k), go(self.freeze(st, y), seen + (x,))) for k, y in sorted(o.d.items())])
            elif isinstance(x, Tup):
                return Tup([go(a, seen) for a in x.items], x.nt)
            elif isinstance(x, T) and any(isinstance(a, Ref) for a in subterms(x)):
                return T(x.op, *[go(a, seen) if isinstance(a, V) else a for a in x.args])
            return x
        return go(v, seen)

    def may(self, st, what, args, kw=None):
        """an operation that raises for some values of the caller's"""
        vs = [self.deep(st, a) for a in list(args) + list((kw or {}).values())]
        if any(fallible(what, x) for x in vs):
            st.emit('may', what, vs[0] if vs else NONE, self.I.site)

    def call(self, st, f, args, kw):
        args = [self.unbuf(st, a) for a in args]
        p = f.path
        I = self.I
        args = [I.resolve(st, a) for a in args]
        if I.fault is not None and p not in SAFE:
            self.fault(st, p.split('.')[-1])
        if I.trace_may and p in MAYCALL:
            self.may(st, p.split('.')[-1], args, kw)
        if p.startswith('builtins.'):
            return self.builtin(st, p[9:], args, kw)
        h = getattr(self, 'x_' + p.replace('.', '_'), None)
        if h is not None:
            return h(st, args, kw)
        if p.startswith('logging.') or p.startswith('warnings.'):
            return T('logger') if p.endswith('getLogger') else NONE
        if p.startswith('collections.abc.') or p.startswith('typing.'):
            return T(p)
        fa = [self.freeze(st, a) for a in args]
        fk = [T('kw', C(k), self.vdtype(st, v) if k == 'dtype' else self.freeze(st, v)) for k, v in sorted(kw.items())]
        if p.startswith('numpy.'):
            nm = p[6:]
            if nm in ('fill_diagonal', 'copyto', 'put', 'place', 'putmask', 'put_along_axis'):
                st.emit('mut', args[0], p, self.I.site)
            if nm in ('nan_to_num', 'ma.masked_invalid', 'ma.fix_invalid') and kw.get('copy', C(True)) == C(False):
                st.emit('mut', args[0], p + ' copy=False', self.I.site)
            if 'out' in kw:
                st.emit('mut', kw['out'], p + ' out=', self.I.site)
        return T(p, *fa, *fk)

    # struct / bytes
    def x_struct_Struct(self, st, args, kw):
        return T('struct', args[0] if isinstance(args[0], V) else NONE)

    def x_struct_unpack(self, st, args, kw):
        return self.unpack(st, args[0], self.asdata(st, args[1]), C(0))

    def x_struct_unpack_from(self, st, args, kw):
        return self.unpack(st, args[0], self.asdata(st, args[1]), args[2] if len(args) > 2 else kw.get('offset', C(0)))

    def x_struct_pack(self, st, args, kw):
        return self.pack(st, args[0], args[1:])

    def x_struct_calcsize(self, st, args, kw):
        return self.fmtsize(st, args[0])

    def x_numpy_frombuffer(self, st, args, kw):
        d = dict(zip(['buffer', 'dtype', 'count', 'offset'], args))
        d.update(kw)
        data = self.asdata(st, d['buffer'])
        code = self.dtype(st, d.get('dtype', C('d')))
        off = d.get('offset', C(0))
        cnt = d.get('count', C(-1))
        if isinstance(code, T) and code.op == 'ite':
            return ite(code.args[0], self._fb(data, off, cnt, code.args[1]), self._fb(data, off, cnt, code.args[2]))
        return self._fb(data, off, cnt, code)

    def _fb(self, data, off, cnt, code):
        if not (isinstance(code, C) and code.v[-1] in CODESZ):
            return self.I.unk('frombuffer dtype', code)
        if isinstance(data, T) and data.op == 'bytes':
            if cnt == C(-1):
                cnt = self.floordiv(sub(data.args[2], off), C(CODESZ[code.v[-1]]))
            off = add(data.args[1], off)
            data = data.args[0]
        self.I.reads.append((data, off, code.v, self.I.site))
        return T('arr', data, off, cnt, code.v)

    def _round(self, st, args, kw):
        a = args[0]
        n = args[1] if len(args) > 1 else kw.get('decimals', C(0))
        return T('round', self.freeze(st, a), n) if not isnumconst(a) else C(round(numval(a), n.v)) if isinstance(n, C) else T('round', a, n)

    x_numpy_around = _round
    x_numpy_round = _round

    def x_numpy_asarray(self, st, args, kw):
        return T('asarray', self.freeze(st, args[0]), *[T('kw', C(k), self.vdtype(st, v) if k == 'dtype' else self.freeze(st, v)) for k, v in sorted(kw.items())])

    def x_numpy_isscalar(self, st, args, kw):
        a = args[0]
        if isnumconst(a) or is_str(a):
            return TRUE
        return T('truth', T('numpy.isscalar', self.freeze(st, a)))

    def x_functools_partial(self, st, args, kw):
        return Partial(args[0], args[1:], kw)

    def x_collections_namedtuple(self, st, args, kw):
        I = self.I
        name = args[0].v if isinstance(args[0], C) else 'nt'
        fl = args[1] if len(args) > 1 else kw.get('field_names')
        fields = None
        if isinstance(fl, C) and isinstance(fl.v, str):
            fields = fl.v.replace(',', ' ').split()
        else:
            items = I.tuple_items(st, fl)
            if items is not None and all(isinstance(x, C) and isinstance(x.v, str) for x in items):
                fields = [x.v for x in items]
        if fields is None:
            return I.unk('namedtuple with unknown fields', self.freeze(st, fl))
        dv = kw.get('defaults')
        defaults = tuple(I.tuple_items(st, dv) or ()) if dv is not None else ()
        return NTCls(name, fields, defaults)

    def x_itertools_product(self, st, args, kw):
        I = self.I
        its = [I.tuple_items(st, a) for a in args]
        if all(i is not None for i in its):
            return I.newlist(st, [Tup(x) for x in _it.product(*its)], 'gen')
        # nested repetition, outermost first
        def segs(k, pre):
            if k == len(args):
                return (('v', Tup(pre)),)
            it = its[k]
            if it is not None:
                return tuple(s for x in it for s in segs(k + 1, pre + [x]))
            out = []
            for c in self.chunks(st, args[k]) or []:
                if c[0] == 'v':
                    out += segs(k + 1, pre + [c[1]])
                elif c[0] == 'sym':
                    I.loopn += 1
                    lid = f'{I.loopfix}{I.loopn}'
                    out.append(('rep', lid, c[1], segs(k + 1, pre + [c[2](T('idx', C(lid)))]), TRUE))
                else:
                    out.append(('sym', I.unk('product')))
            return tuple(out)
        return I.new(st, HSeq('gen', segs(0, [])))

    def x_itertools_chain(self, st, args, kw):
        return self.I.new(st, HSeq('gen', tuple(s for a in args for s in self.segs_of(st, a))))

    def x_itertools_chain_from_iterable(self, st, args, kw):
        items = self.I.tuple_items(st, args[0])
        if items is not None:
            return self.x_itertools_chain(st, items, {})
        return T('chain.from_iterable', self.freeze(st, args[0]))

    def x_itertools_repeat(self, st, args, kw):
        if len(args) > 1:
            return self.binop(st, 'Mult', self.I.newlist(st, [args[0]]), args[1])
        return Lazy([('sym', T('len', T('repeat', self.freeze(st, args[0]))), lambda i: args[0])])

    def x_numpy_repeat(self, st, args, kw):
        I = self.I
        items = I.tuple_items(st, args[0])
        n = args[1] if len(args) > 1 else kw.get('repeats')
        if items is not None and isinstance(n, C) and isinstance(n.v, int):
            return Tup([x for x in items for _ in range(n.v)])
        return T('numpy.repeat', self.freeze(st, args[0]), self.freeze(st, n))

    def x_itertools_groupby(self, st, args, kw):
        return T('groupby', *[self.freeze(st, a) for a in args])

    def x_copy_deepcopy(self, st, args, kw):
        return self.deepcopy(st, args[0], {}, True)

    def x_copy_copy(self, st, args, kw):
        return self.deepcopy(st, args[0], {}, False)

    def deepcopy(self, st, v, memo, deep):
        I = self.I
        if isinstance(v, Ref):
            if v in memo:
                return memo[v]
            o = st.get(v)
            if o.kind == 'obj':
                r = memo[v] = I.new(st, HObj(o.cls, dict(o.d)))
                if deep:
                    for k in list(o.d):
                        st.mut(r).d[k] = self.deepcopy(st, o.d[k], memo, deep)
                return r
            if o.kind == 'seq':
                r = memo[v] = I.new(st, HSeq(o.t, ()))
                st.mut(r).segs = tuple(self.dcseg(st, s, memo, deep) for s in o.segs)
                return r
            if o.kind == 'dict':
                r = memo[v] = I.new(st, HDict(()))
                st.mut(r).segs = tuple(self.dcseg(st, s, memo, deep) for s in o.segs)
                return r
        if isinstance(v, Tup) and deep:
            return Tup([self.deepcopy(st, x, memo, deep) for x in v.items], v.nt)
        if isinstance(v, T) and v.op in ('arg', 'attr'):
            return T('copy', v)
        return v

    def dcseg(self, st, s, memo, deep):
        if not deep:
            return s
        if s[0] == 'v':
            return ('v', self.deepcopy(st, s[1], memo, deep))
        if s[0] == 'kv':
            return ('kv', s[1], self.deepcopy(st, s[2], memo, deep))
        if s[0] == 'rep':
            return ('rep', s[1], s[2], tuple(self.dcseg(st, x, memo, deep) for x in s[3]), s[4])
        return s

    def x_math_ceil(self, st, args, kw):
        if isnumconst(args[0]):
            import math
            return C(math.ceil(numval(args[0])))
        return T('int', T('math.ceil', self.freeze(st, args[0])))

    def x_math_floor(self, st, args, kw):
        if isnumconst(args[0]):
            import math
            return C(math.floor(numval(args[0])))
        return T('int', T('math.floor', self.freeze(st, args[0])))

    def x_io_BytesIO(self, st, args, kw):
        r = self.I.new(st, HObj(Ext('io.BytesIO'), {'__ext_pos': C(0)}))
        return r

    def x_pathlib_Path(self, st, args, kw):
        return T('path', *[self.freeze(st, a) for a in args])

    def x_pathlib_Path_open(self, st, args, kw):
        return self.builtin(st, 'open', args, kw)

    def x_operator_attrgetter(self, st, args, kw):
        return T('attrgetter', *args)

    def x_operator_itemgetter(self, st, args, kw):
        return T('itemgetter', *args)

    def x_datetime_datetime_strptime(self, st, args, kw):
        return T('strptime', *[self.freeze(st, a) for a in args])

    # ------------------------------------------------------------ builtins
    def tyname(self, t):
        if isinstance(t, Ext):
            return t.path.replace('builtins.', '')
        if isinstance(t, Cls):
            return t.name
        if isinstance(t, NTCls):
            return t.name
        return repr(t)

    def is_array(self, v):
        if isinstance(v, T):
            if v.op in ('arr', 'asarray', 'closed') or v.op.startswith('numpy.'):
                return True
            if v.op in ('round', 'flip'):
                return self.is_array(v.args[0])
            if v.op == 'lin':
                return any(self.is_array(a) for m, _ in v.args[1] for a in m)
        return False

    def isinstance_(self, st, v, t):
        I = self.I
        if isinstance(t, Tup):
            return disj(*[self.isinstance_(st, v, x) for x in t.items])
        if isinstance(t, Ref):
            items = I.tuple_items(st, t)
            if items is not None:
                return disj(*[self.isinstance_(st, v, x) for x in items])
        if isinstance(t, T) and t.op == 'union':
            return disj(*[self.isinstance_(st, v, x) for x in t.args])
        n = self.tyname(t)
        if isinstance(v, T) and v.op == 'ite':
            return ite(v.args[0], self.isinstance_(st, v.args[1], t), self.isinstance_(st, v.args[2], t))
        kind = None
        if isinstance(v, C):
            kind = TYPENAME.get(type(v.v))
        elif isinstance(v, EnumM):
            kind = 'int'
        elif isinstance(v, Tup):
            kind = 'tuple' if v.nt is None or n != v.nt.name else v.nt.name
        elif isinstance(v, Ref):
            o = st.get(v)
            if o.kind == 'seq':
                kind = o.t
            elif o.kind == 'dict':
                kind = 'dict'
            elif o.kind == 'obj':
                if isinstance(o.cls, Cls):
                    if isinstance(t, Cls):
                        return C(t in o.cls.mro())
                    if isinstance(t, Ext):
                        if t in o.cls.mro() or n == 'object':
                            return TRUE
                        return FALSE if not n.startswith('collections') else T('isinst', v, n)
                return C(False)
        elif isinstance(v, (Fn, BM)):
            kind = 'function'
        elif isinstance(v, T):
            if is_int(v):
                kind = 'int'
            elif v.op == 'rd':
                kind = 'float'
            elif self.is_array(v):
                kind = 'numpy.ndarray'
            elif is_num(v) and v.op in ('truediv', 'float'):
                kind = 'float'
            elif self.is_bytes(v):
                kind = 'bytes'
            elif is_str(v):
                kind = 'str'
            elif v.op == 'strptime':
                kind = 'datetime.datetime'
            elif v.op == 'enum':
                kind = 'int'
                if v.args[0] == C(n):
                    return TRUE
        if kind is None:
            return T('isinst', self.freeze(st, v) if not isinstance(v, T) else v, n)
        if kind == n or n == 'object':
            return TRUE
        if kind == 'bool' and n == 'int':
            return TRUE
        if n in ('collections.abc.Iterable', 'typing.Iterable'):
            return C(kind in ('str', 'bytes', 'tuple', 'list', 'set', 'dict', 'gen', 'range', 'numpy.ndarray'))
        if n in ('collections.abc.Sequence',):
            return C(kind in ('str', 'bytes', 'tuple', 'list', 'range'))
        if n in ('numbers.Number', 'numbers.Real'):
            return C(kind in ('int', 'float', 'bool'))
        if n in ('collections.abc.Mapping', 'collections.abc.MutableMapping'):
            return C(kind == 'dict')
        if isinstance(t, Cls) and isinstance(v, EnumM):
            return C(t is v.cls)
        return FALSE

    def builtin(self, st, n, args, kw):
        I = self.I
        a = args[0] if args else None
        fz = lambda: [self.freeze(st, x) for x in args]
        if isinstance(a, T) and a.op == 'enum' and n in ('int', 'float', 'abs', 'str'):
            a = a.args[1]
        if n == 'len':
            return self.length(st, a)
        if n == 'int':
            if a is None:
                return C(0)
            if isinstance(a, C) and len(args) == 1:
                try:
                    return C(int(a.v))
                except (ValueError, TypeError) as e:
                    I.do_raise(st, T('exc', type(e).__name__))
            if isinstance(a, EnumM):
                return C(int(a.value))
            if len(args) == 1 and isinstance(a, T) and a.op == 'ite':
                return ite(a.args[0], self.builtin(st, n, [a.args[1]], kw), self.builtin(st, n, [a.args[2]], kw))
            if is_int(a):
                return a
            return T('int', *fz())
        if n == 'float':
            if isinstance(a, C):
                try:
                    return C(float(a.v))
                except (ValueError, TypeError) as e:
                    I.do_raise(st, T('exc', type(e).__name__))
            if isinstance(a, T) and a.op == 'rd' and a.args[2][-1] in 'fd':
                return a
            if is_int(a):
                return a
            return T('float', *fz())
        if n == 'str':
            if a is None:
                return C('')
            if len(args) > 1:
                return self.str_method(st, a, 'decode', [self.freeze(st, x) for x in args[1:]], {})
            if isinstance(a, T) and a.op == 'ite' and len(args) == 1:
                return ite(a.args[0], self.builtin(st, n, [a.args[1]], kw), self.builtin(st, n, [a.args[2]], kw))
            if isinstance(a, C) or is_int(a) or (is_str(a) and not self.is_bytes(a)) or isinstance(a, EnumM):
                return self.format1(a, '', -1)
            return T('str', self.freeze(st, a))
        if n == 'bool':
            return I.truth(st, a) if a is not None else FALSE
        if n == 'bytearray':
            v = self.builtin(st, 'bytes', args, kw)
            if isinstance(v, C) or isinstance(v, T) and v.op in ('pk', 'pks', 'pad', 'pkarr', 'concat', 'encode', 'tobytes', 'join'):
                return I.new(st, HSeq('bytearray', (('v', v),) if v != C(b'') else ()))
            return v
        if n in ('bytes', 'memoryview'):
            if a is None:
                return C(b'')
            if len(args) > 1 or 'encoding' in kw:
                enc = args[1] if len(args) > 1 else kw['encoding']
                if isinstance(a, C) and isinstance(enc, C):
                    return C(a.v.encode(enc.v))
                return self.str_method(st, a, 'encode', [enc], {})
            if isinstance(a, C) and isinstance(a.v, bytes):
                return a
            if isinstance(a, C) and isinstance(a.v, int):
                return C(bytes(a.v)) if a.v < 4096 else T('pad', a)
            if is_num(a):
                return T('pad', a)
            if isinstance(a, T):
                if self.is_bytes(a) or a.op in ('filedata', 'fileread', 'arg'):
                    return a
                return T('bytes_of', a)
            if isinstance(a, Ref) and st.get(a).kind == 'obj':
                f, _ = st.get(a).cls.lookup('__bytes__') if isinstance(st.get(a).cls, Cls) else (None, None)
                if f is not None:
                    return I.call(st, BM(a, f), [], {}, None)
            items = I.tuple_items(st, a)
            if items is not None and all(isinstance(x, C) for x in items):
                return C(bytes([x.v for x in items]))
            return T('bytes_of', self.freeze(st, a))
        if n == 'range':
            r = [self.unenum(x) for x in args]
            if all(isinstance(x, C) for x in r):
                return C(range(*[int(x.v) for x in r]))
            lo, hi, s = (C(0), r[0], C(1)) if len(r) == 1 else (r[0], r[1], C(1)) if len(r) == 2 else r
            return T('range', lo, hi, s)
        if n in ('list', 'tuple', 'set', 'frozenset'):
            if a is None:
                return Tup([]) if n == 'tuple' else I.newlist(st, (), 'set' if n == 'frozenset' else n)
            if isinstance(a, Ref) and st.get(a).kind == 'obj' and isinstance(st.get(a).cls, Cls) and st.get(a).cls.lookup('__iter__')[0] is None:
                return T(n + '_of', self.freeze(st, a))
            segs = self.segs_of(st, a)
            if n in ('set', 'frozenset'):
                out = []
                for s in segs:
                    if s not in out:
                        out.append(s)
                return I.new(st, HSeq('set', out))
            if n == 'tuple':
                if all(s[0] == 'v' for s in segs):
                    return Tup([s[1] for s in segs])
                return I.new(st, HSeq('tuple', segs))
            return I.new(st, HSeq('list', segs))
        if n == 'dict':
            r = I.newdict(st)
            if a is not None:
                b = a
                if isinstance(b, Lazy):
                    b = I.new(st, HSeq('list', self.segs_of(st, b)))
                if isinstance(b, Ref) and st.get(b).kind == 'seq':
                    o = st.mut(r)
                    for s in st.get(b).segs:
                        if s[0] == 'v' and isinstance(s[1], Tup) and len(s[1].items) == 2:
                            self._dset(o, ('kv',) + s[1].items)
                        elif s[0] == 'rep' and len(s[3]) == 1 and s[3][0][0] == 'v' and isinstance(s[3][0][1], Tup):
                            o.segs = o.segs + (('rep', s[1], s[2], (('kv',) + s[3][0][1].items,), s[4]),)
                        else:
                            o.segs = o.segs + (('sym', self.freeze(st, b)),)
                else:
                    self.dict_update(st, r, b)
            for k, v in kw.items():
                if k == '**':
                    self.dict_update(st, r, v)
                else:
                    self.setitem(st, r, C(k), v)
            return r
        if n == 'zip':
            return self.zip_(st, args)
        if n == 'enumerate':
            start = args[1] if len(args) > 1 else kw.get('start', C(0))
            cs = self.chunks(st, a)
            if cs is None:
                return I.branch_val(st, a.args[0], lambda s: self.builtin(s, n, [a.args[1]] + args[1:], kw), lambda s: self.builtin(s, n, [a.args[2]] + args[1:], kw))
            return self.enum_chunks(st, cs, start)
        if n == 'map':
            if len(args) == 2:
                r = I.newlist(st, (), 'gen')
                if I.trace_may:
                    st.emit('gen0', I.site)

                def body(s, v):
                    self.list_append(s, r, I.call(s, args[0], [v], {}, None))
                    return {'fall': (s, None)}
                outs = I.iterate(st.fork(), args[1], body, None)
                if 'fall' in outs:
                    I.become(st, outs['fall'][0])
                if I.trace_may:
                    st.emit('gen1', r)
                return r
            z = self.zip_(st, args[1:])
            r = I.newlist(st, (), 'gen')

            def body2(s, v):
                self.list_append(s, r, I.call(s, args[0], I.tuple_items(s, v) or [v], {}, None))
                return {'fall': (s, None)}
            outs = I.iterate(st.fork(), z, body2, None)
            if 'fall' in outs:
                I.become(st, outs['fall'][0])
            return r
        if n == 'filter':
            r = I.newlist(st, (), 'gen')

            def body(s, v):
                c = I.truth(s, v) if args[0] == NONE else I.truth(s, I.call(s, args[0], [v], {}, None))

                def yes(x):
                    self.list_append(x, r, v)
                    return {'fall': (x, None)}
                return I.fork_on(s, c, yes, lambda x: {'fall': (x, None)})
            outs = I.iterate(st.fork(), args[1], body, None)
            if 'fall' in outs:
                I.become(st, outs['fall'][0])
            return r
        if n == 'iter':
            if isinstance(a, Ref) and st.get(a).kind in ('seq', 'dict'):
                return I.new(st, HSeq('gen', self.segs_of(st, a)))
            if isinstance(a, Ref) and st.get(a).kind == 'obj' and isinstance(st.get(a).cls, Cls):
                f, _ = st.get(a).cls.lookup('__iter__')
                if f is not None:
                    return I.call(st, BM(a, f), [], {}, None)
            return T('iter', self.freeze(st, a))
        if n == 'next':
            if isinstance(a, Ref) and st.get(a).kind == 'seq':
                segs = st.get(a).segs
                if segs and segs[0][0] == 'v':
                    st.mut(a).segs = segs[1:]
                    return segs[0][1]
                dflt = args[1] if len(args) > 1 else None
                fzv = self.freeze(st, a)
                if not segs:
                    if dflt is not None:
                        return dflt
                    I.do_raise(st, T('exc', 'StopIteration'))
                s = segs[0]
                if s[0] == 'rep' and len(s[3]) == 1 and s[3][0][0] == 'v' and s[4] == TRUE and False:
                    pass
                v = T('first', fzv)
                if dflt is not None:
                    return ite(T('truth', T('nonempty', fzv)), v, dflt)
                return v
            return T('next', *fz())
        if n == 'reversed':
            items = I.tuple_items(st, a)
            if items is not None:
                return I.newlist(st, items[::-1], 'gen')
            return T('reversed', self.freeze(st, a))
        if n == 'sorted':
            items = I.tuple_items(st, a)
            if items is not None and all(isinstance(x, C) for x in items) and not kw:
                try:
                    return I.newlist(st, [C(x) for x in sorted(x.v for x in items)])
                except TypeError:
                    pass
            fk = [T('kw', C(k), self.keyed(st, v)) for k, v in sorted(kw.items())]
            segs = self.segs_of(st, a)
            while len(segs) == 2 and segs[0][0] == 'rep' and segs[0][4] == TRUE and len(segs[0][3]) == 1 and segs[0][3][0][0] == 'v' \
                    and segs[1][0] == 'v' and subst(segs[0][3][0][1], {T('idx', C(segs[0][1])): segs[0][2]}) == segs[1][1]:
                segs = (('rep', segs[0][1], add(segs[0][2], C(1)), segs[0][3], TRUE),)
            if len(segs) == 1 and segs[0][0] == 'v':
                return I.newlist(st, [segs[0][1]])
            if len(segs) == 1 and segs[0][0] == 'rep' and segs[0][4] == TRUE and len(segs[0][3]) == 1 and segs[0][3][0][0] == 'v':
                # a permutation: element i is the element of some index perm(i)
                _, lid, _, inner, _ = segs[0]
                I.loopn += 1
                new = f'{I.loopfix}{I.loopn}'
                tag = I.permids.setdefault((self.freeze(st, a), tuple(fk)), len(I.permids) + I.tagbase)
                el = subst(inner[0][1], {T('idx', C(lid)): T('perm', C(tag), T('idx', C(new)))})
                return I.new(st, HSeq('list', (('rep', new, self.length(st, a), (('v', el),), TRUE),)))
            lids, inner = [], segs
            while len(inner) == 1 and inner[0][0] == 'rep' and (inner[0][4] == TRUE or len(inner[0][3]) != 1 or inner[0][3][0][0] == 'alt'):
                lids.append(inner[0][1])
                inner = inner[0][3]
            if len(lids) > 0:
                # entries of nested loops, some of them left out: each is the one template at some index tuple
                vs = leaf_values(inner)
                if len(vs) == 1:
                    I.loopn += 1
                    new = f'{I.loopfix}{I.loopn}'
                    fa = self.freeze(st, a)
                    m = {}
                    for l in lids:
                        tag = I.permids.setdefault((fa, tuple(fk), l), len(I.permids) + I.tagbase)
                        m[T('idx', C(l))] = T('perm', C(tag), T('idx', C(new)))
                    return I.new(st, HSeq('list', (('rep', new, self.length(st, a), (('v', subst(vs[0], m)),), TRUE),)))
            return I.new(st, HSeq('list', (('sym', T('sorted', self.freeze(st, a), *fk)),)))
        if n in ('min', 'max'):
            xs = args
            if len(args) == 1:
                items = I.tuple_items(st, a)
                if items is None or kw and len(items) != 1:
                    return T(n + '_of', self.freeze(st, a), *[T('kw', C(k), self.keyed(st, v)) for k, v in sorted(kw.items())])
                xs = items
            if all(isnumconst(x) for x in xs) and xs:
                return C((min if n == 'min' else max)(numval(x) for x in xs))
            fs = sorted({self.freeze(st, x) for x in xs}, key=repr)
            if n == 'max' and C(0) in fs and any(isinstance(x, T) and x.op in ('len', 'size', 'card') for x in fs):
                fs = [x for x in fs if x != C(0)]
            if len(fs) == 1:
                return fs[0]
            return T(n, *fs)
        if n == 'sum':
            items = I.tuple_items(st, a)
            if items is not None:
                r = args[1] if len(args) > 1 else C(0)
                for x in items:
                    r = self.binop(st, 'Add', r, I.resolve(st, x))
                return r
            # sum over a repetition of an invariant count
            return T('sum', self.freeze(st, a))
        if n == 'abs':
            if isnumconst(a):
                return C(abs(numval(a)))
            return T('abs', *fz())
        if n == 'round':
            if isnumconst(a):
                nd = args[1].v if len(args) > 1 and isinstance(args[1], C) else kw['ndigits'].v if 'ndigits' in kw and isinstance(kw['ndigits'], C) else None
                return C(round(numval(a), nd) if nd is not None else round(numval(a)))
            if is_int(a) and len(args) == 1:
                return a
            nd = args[1] if len(args) > 1 else kw.get('ndigits')
            return T('round', self.freeze(st, a), nd) if nd is not None else T('round', self.freeze(st, a))
        if n in ('any', 'all'):
            items = I.tuple_items(st, a)
            if items is not None:
                cs = [I.truth(st, x) for x in items]
                return (disj if n == 'any' else conj)(*cs) if cs else C(n == 'all')
            return T(n, self.freeze(st, a))
        if n == 'isinstance':
            return self.isinstance_(st, a, args[1])
        if n == 'issubclass':
            if isinstance(a, Cls) and isinstance(args[1], (Cls, Ext)):
                return C(args[1] in a.mro())
            return T('truth', T('issubclass', *fz()))
        if n == 'hasattr':
            if isinstance(a, Ref) and st.get(a).kind == 'obj' and isinstance(args[1], C):
                o = st.get(a)
                nm = args[1].v
                v = o.d.get(nm)
                if v is not None and not isinstance(v, Undef):
                    if isinstance(v, T) and any(isinstance(x, Undef) for x in subterms(v)):
                        return T('hasattr', a, C(nm))
                    return TRUE
                if isinstance(o.cls, Cls):
                    f, _ = o.cls.lookup(nm)
                    if f is not None:
                        return TRUE
                    if not [b for b in o.cls.ext_bases() if b.path != 'builtins.object']:
                        return FALSE
            if isinstance(a, Tup) and a.nt is not None and isinstance(args[1], C):
                return C(args[1].v in a.nt.fields or hasattr(tuple, args[1].v))
            if isinstance(a, T) and a.op == 'ite':
                return ite(a.args[0], self.builtin(st, 'hasattr', [a.args[1], args[1]], {}), self.builtin(st, 'hasattr', [a.args[2], args[1]], {}))
            return T('hasattr', self.freeze(st, a), args[1])
        if n == 'getattr':
            if isinstance(args[1], C):
                if len(args) > 2:
                    try:
                        has = self.builtin(st, 'hasattr', args[:2], {})
                        if has == FALSE:
                            return args[2]
                    except Dead_:
                        return args[2]
                return I.getattr(st, a, args[1].v, None, args[2] if len(args) > 2 else None)
            if isinstance(a, Tup) and a.nt is not None:
                out = None
                for nm, v in zip(a.nt.fields, a.items):
                    c = I.equal(st, args[1], C(nm))
                    if c == TRUE:
                        return v
                    if c == FALSE:
                        continue
                    out = v if out is None else ite(c, v, out)
                if out is not None:
                    return out
            return T('getattr', *fz())
        if n == 'setattr':
            if isinstance(args[1], C):
                I.setattr(st, a, args[1].v, args[2])
            else:
                st.emit('mut', a, 'setattr?', I.site)
                I.unk('setattr symbolic')
            return NONE
        if n == 'open':
            path = args[0]
            mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
            r = I.new(st, HObj(Ext('file'), {'path': self.freeze(st, path), 'mode': mode}))
            st.emit('open', self.freeze(st, path), mode, I.site, r)
            return r
        if n == 'type':
            if isinstance(a, Ref) and st.get(a).kind == 'obj':
                return st.get(a).cls
            if isinstance(a, C):
                return Ext('builtins.' + type(a.v).__name__)
            if isinstance(a, Tup):
                return a.nt or Ext('builtins.tuple')
            if isinstance(a, Ref):
                o = st.get(a)
                return Ext('builtins.' + (o.t if o.kind == 'seq' else 'dict'))
            if isinstance(a, EnumM):
                return a.cls
            return T('type', self.freeze(st, a))
        if n == 'callable':
            if isinstance(a, (Fn, BM, Partial, Ext, Cls)):
                return TRUE
            return T('truth', T('callable', self.freeze(st, a)))
        if n == 'print':
            return NONE
        if n == 'object':
            return I.new(st, HObj(Ext('builtins.object'), {}))
        if n == 'property':
            return Wrap('property', a, args[1] if len(args) > 1 else kw.get('fset'))
        if n == 'staticmethod':
            return Wrap('static', a)
        if n == 'slice':
            xs = list(args)
            if len(xs) == 1:
                xs = [NONE, xs[0], NONE]
            while len(xs) < 3:
                xs.append(NONE)
            return T('slice', *xs)
        if n in ('ord', 'chr', 'hex', 'oct', 'bin', 'hash', 'repr', 'id', 'pow', 'divmod', 'format', 'ascii'):
            if n == 'divmod':
                return Tup([self.binop(st, 'FloorDiv', args[0], args[1]), self.binop(st, 'Mod', args[0], args[1])])
            if n == 'format':
                return self.format1(a, args[1].v if len(args) > 1 and isinstance(args[1], C) else '', -1)
            if n == 'pow' and len(args) == 2:
                return self.binop(st, 'Pow', args[0], args[1])
            if all(isinstance(x, C) for x in args) and n not in ('id', 'hash'):
                try:
                    return C(getattr(__import__('builtins'), n)(*[x.v for x in args]))
                except MemoryError:
                    raise
                except Exception:
                    pass
            return T(n, *fz())
        if n == 'int.from_bytes':
            en = args[1] if len(args) > 1 else kw.get('byteorder', C('big'))
            signed = kw.get('signed', args[2] if len(args) > 2 else FALSE)
            en = I.resolve(st, en)
            if isinstance(en, T) and en.op == 'ite':
                return ite(en.args[0], self.from_bytes(a, en.args[1], signed), self.from_bytes(a, en.args[2], signed))
            return self.from_bytes(a, en, signed)
        if n in ('str.join', 'str.upper', 'str.lower', 'str.strip', 'bytes.decode', 'str.encode', 'bytes.strip', 'str.rstrip', 'str.lstrip', 'bytes.rstrip', 'str.format', 'str.replace', 'dict.get', 'list.append', 'dict.items', 'dict.values', 'bytearray.decode'):
            return self.method(st, args[0], n.split('.')[1], args[1:], kw)
        if n == 'bytes.fromhex' and isinstance(a, C):
            return C(bytes.fromhex(a.v))
        if n == 'dict.fromkeys':
            r = I.newdict(st)
            items = I.tuple_items(st, a)
            dv = args[1] if len(args) > 1 else NONE
            if items is not None:
                for k in items:
                    self.setitem(st, r, k, dv)
            else:
                st.mut(r).segs = (('sym', T('fromkeys', *fz())),)
            return r
        if n == 'object.__setattr__':
            I.setattr(st, a, args[1].v, args[2])
            return NONE
        import builtins as _b
        ec = getattr(_b, n, None)
        if isinstance(ec, type) and issubclass(ec, BaseException):
            return T('exc', n, *fz())
        if n == 'super':
            return T('super', C('?'))
        I.unk('builtin ' + n)
        return T('builtins.' + n, *fz(), *[T('kw', C(k), self.freeze(st, v)) for k, v in sorted(kw.items())])

    def unenum(self, x):
        if isinstance(x, T) and x.op == 'enum':
            return x.args[1]
        if isinstance(x, EnumM):
            return C(x.value)
        return x

    def from_bytes(self, a, en, signed):
        if isinstance(a, T) and a.op == 'ite':
            return ite(a.args[0], self.from_bytes(a.args[1], en, signed), self.from_bytes(a.args[2], en, signed))
        if isinstance(a, C) and isinstance(a.v, bytes) and isinstance(en, C):
            return C(int.from_bytes(a.v, en.v, signed=signed == TRUE))
        if isinstance(a, T) and a.op == 'bytes' and isinstance(a.args[2], C) and isinstance(en, C) and a.args[2].v in (1, 2, 4, 8):
            n = a.args[2].v
            c = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[n]
            if signed != TRUE:
                c = c.upper()
            return self.rd(a.args[0], a.args[1], ('<' if en.v == 'little' else '>') + c if n > 1 else c)
        return T('int', T('from_bytes', a, en, signed))

    def enum_chunks(self, st, cs, start):
        out = []
        base = start
        for c in cs:
            if c[0] == 'v':
                out.append(('v', Tup([base, c[1]])))
                base = add(base, C(1))
            elif c[0] == 'sym':
                out.append(('sym', c[1], lambda i, c=c, base=base: Tup([add(base, i), c[2](i)])))
                base = add(base, c[1])
            elif c[0] == 'alt':
                ea = self.enum_chunks(st, c[2], base)
                eb = self.enum_chunks(st, c[3], base)
                out.append(('alt', c[1], ea.chunks, eb.chunks))
                base = T('wide', C(self.I.fresh_id()), 'int')
            else:
                # several items per repetition: index is not linear
                k = T('wide', C(self.I.fresh_id()), 'int')

                def mk(i, c=c, k=k):
                    inner, cond = c[2](i)
                    return self.enum_chunks(st, inner, k).chunks, cond
                out.append(('nest', c[1], mk, c[3]))
                base = T('wide', C(self.I.fresh_id()), 'int')
        return Lazy(out)

    def zip_(self, st, args):
        I = self.I
        if any(isinstance(a, T) and a.op == 'star' for a in args):
            if len(args) == 1:
                return T('unzip', args[0].args[0])
            return I.unk('zip star')
        its = [I.tuple_items(st, a) for a in args]
        conc = [i for i in its if i is not None]
        if len(conc) == len(its):
            return I.newlist(st, [Tup(x) for x in zip(*its)], 'gen')
        if conc:
            n = min(len(i) for i in conc)
            return I.newlist(st, [Tup([it[j] if it is not None else self.zelem(st, a, C(j)) for it, a in zip(its, args)]) for j in range(n)], 'gen')
        css = [self.chunks(st, a) for a in args]
        if all(cs is not None and len(cs) == 1 and cs[0][0] == 'sym' for cs in css):
            counts = []
            for cs in css:
                if cs[0][1] not in counts:
                    counts.append(cs[0][1])
            n = counts[0] if len(counts) == 1 else T('index', T('min', *sorted(counts, key=repr)))
            fs = [cs[0][2] for cs in css]
            return Lazy([('sym', n, lambda i: Tup([f(i) for f in fs]))])
        if all(cs is not None for cs in css) and len({tuple((c[0], c[1] if c[0] == 'sym' else None) for c in cs) for cs in css}) == 1 and all(c[0] in ('v', 'sym') for c in css[0]):
            out = []
            for parts in zip(*css):
                if parts[0][0] == 'v':
                    out.append(('v', Tup([p[1] for p in parts])))
                else:
                    out.append(('sym', parts[0][1], lambda i, parts=parts: Tup([p[2](i) for p in parts])))
            return Lazy(out)
        z = T('zip', *[self.freeze(st, a) for a in args])
        return Lazy([('sym', T('len', z), lambda i: Tup([self.zelem(st, a, i) for a in args]))])

    def zelem(self, st, a, i):
        if isinstance(a, Lazy):
            if len(a.chunks) == 1 and a.chunks[0][0] == 'sym':
                return a.chunks[0][2](i)
            return T('elemof', self.freeze(st, a), i)
        if isinstance(a, Ref) and st.get(a).kind in ('dict', 'obj'):
            cs = self.chunks(st, a)
            if cs and len(cs) == 1 and cs[0][0] == 'sym':
                return cs[0][2](i)
            return T('elemof', self.freeze(st, a), i)
        return self.elem(st, a, i)


class Dead_(Exception):
    pass


def subst_segs(segs, m):
    out = []
    for s in segs:
        if s[0] == 'v':
            out.append(('v', subst(s[1], m)))
        elif s[0] == 'kv':
            out.append(('kv', subst(s[1], m), subst(s[2], m)))
        elif s[0] == 'rep':
            out.append(('rep', s[1], subst(s[2], m), subst_segs(s[3], m), subst(s[4], m)))
        elif s[0] == 'sym':
            out.append(('sym', subst(s[1], m)))
        elif s[0] == 'alt':
            out.append(('alt', subst(s[1], m), subst_segs(s[2], m), subst_segs(s[3], m)))
        else:
            out.append(s)
    return tuple(out)
