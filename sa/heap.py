"""Abstract heap and program state."""
from .terms import *


class Cls(V):
    def __init__(self, name, module, bases, ns, node=None):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node
        self.is_enum = any((isinstance(b, Ext) and b.path in ('enum.IntEnum', 'enum.Enum', 'enum.IntFlag')) or
                           (isinstance(b, Cls) and b.is_enum) for b in bases)
        self.members = {}
        self.dataclass = False

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for x in b.mro():
                    if x not in out:
                        out.append(x)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name], c
        return None, None

    def ext_bases(self):
        return [b for b in self.mro() if isinstance(b, Ext)]

    def __repr__(self):
        return f'<class {self.name}>'


class NTCls(V):
    def __init__(self, name, fields, defaults=()):
        self.name, self.fields = name, tuple(fields)
        self.defaults = defaults

    def __repr__(self):
        return f'<namedtuple {self.name}>'

    def __eq__(self, o):
        return isinstance(o, NTCls) and (o.name, o.fields) == (self.name, self.fields)

    def __hash__(self):
        return hash((self.name, self.fields))


class Fn(V):
    def __init__(self, node, module, closure, qual, defaults, kwdefaults, cls=None):
        self.node, self.module, self.closure, self.qual = node, module, closure, qual
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self._gen = None

    def __repr__(self):
        return f'<fn {self.qual}>'


class BM(V):
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return f'<bm {self.fn!r} of {self.self_!r}>'

    def __eq__(self, o):
        return isinstance(o, BM) and o.self_ == self.self_ and o.fn is self.fn

    def __hash__(self):
        return hash((self.self_, id(self.fn)))


class BExt(V):
    """method `name` of an abstract value implemented by the engine"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def __repr__(self):
        return f'<meth {self.name} of {self.recv!r}>'

    def __eq__(self, o):
        return isinstance(o, BExt) and (o.recv, o.name) == (self.recv, self.name)

    def __hash__(self):
        return hash((self.recv, self.name))


class Partial(V):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw.items()))

    def __repr__(self):
        return f'<partial {self.fn!r} {self.args} {self.kw}>'

    def __eq__(self, o):
        return isinstance(o, Partial) and (o.fn, o.args, o.kw) == (self.fn, self.args, self.kw)

    def __hash__(self):
        return hash(('partial', self.args))


class Wrap(V):
    """property / staticmethod / classmethod object"""
    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn, self.setter = kind, fn, setter

    def __repr__(self):
        return f'<{self.kind} {self.fn!r}>'


class Ext(V):
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f'<{self.path}>'

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('Ext', self.path))


class ModV(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<module {self.name}>'

    def __eq__(self, o):
        return isinstance(o, ModV) and o.name == self.name

    def __hash__(self):
        return hash(('Mod', self.name))


# ---------------------------------------------------------------- heap objects
class HObj:
    kind = 'obj'
    __slots__ = ('cls', 'd', 'owner')

    def __init__(self, cls, d=None):
        self.cls, self.d, self.owner = cls, d if d is not None else {}, None

    def copy(self):
        return HObj(self.cls, dict(self.d))


class HEnv:
    kind = 'env'
    __slots__ = ('d', 'parent', 'owner', 'name')

    def __init__(self, d=None, parent=None, name=''):
        self.d, self.parent, self.owner, self.name = d if d is not None else {}, parent, None, name

    def copy(self):
        return HEnv(dict(self.d), self.parent, self.name)


class HSeq:
    """list / set / deque; segs:
       ('v', value) | ('rep', loopid, count, segs, cond) | ('sym', term) | ('alt', cond, segs, segs)"""
    kind = 'seq'
    __slots__ = ('t', 'segs', 'owner')

    def __init__(self, t, segs=()):
        self.t, self.segs, self.owner = t, tuple(segs), None

    def copy(self):
        return HSeq(self.t, self.segs)

    def __repr__(self):
        return f'{self.t}{list(self.segs)}'


class HDict:
    """entries: ('kv', key, value) | ('rep', loopid, count, entries, cond) | ('sym', term)
       | ('del', key) | ('alt', cond, entries, entries); later entries win"""
    kind = 'dict'
    __slots__ = ('segs', 'owner')

    def __init__(self, segs=()):
        self.segs, self.owner = tuple(segs), None

    def copy(self):
        return HDict(self.segs)

    def __repr__(self):
        return f'dict{list(self.segs)}'


_sid = [0]


class State:
    def __init__(self):
        self.heap = {}
        self.pcs = None         # alternative path conditions of a joined loop exit
        self.pc = ()
        self.facts = {}
        self.events = None     # cons list (prev, event, depth)
        _sid[0] += 1
        self.id = _sid[0]

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.facts = self.facts
        s.events = self.events
        # both sides must copy-on-write from now on
        _sid[0] += 1
        self.id = _sid[0]
        return s

    def get(self, ref):
        return self.heap[ref.a]

    def mut(self, ref):
        o = self.heap[ref.a]
        if o.owner != self.id:
            o = o.copy()
            o.owner = self.id
            self.heap[ref.a] = o
        return o

    def new(self, obj, addr):
        obj.owner = self.id
        self.heap[addr] = obj
        return Ref(addr)

    def emit(self, *ev):
        d = self.events[2] + 1 if self.events else 1
        self.events = (self.events, (ev, self.pc), d)

    def event_list(self, since=None):
        out = []
        e = self.events
        while e is not None and e is not since:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def assume(self, cond, val=True):
        c = cond if val else neg_c(cond)
        self.facts = assume(self.facts, c, True)
        self.pc = self.pc + ((cond, val),)


def merge_events(a, b):
    """common prefix + rest of a + rest of b"""
    if a is b:
        return a
    ea, eb = a, b
    tb = []
    while ea is not eb:
        da = ea[2] if ea else 0
        db = eb[2] if eb else 0
        if db > da:
            tb.append(eb[1])
            eb = eb[0]
        elif da > db:
            ea = ea[0]
        else:
            tb.append(eb[1])
            eb = eb[0]
            ea = ea[0]
    out = a
    for ev in reversed(tb):
        out = (out, ev, (out[2] if out else 0) + 1)
    return out


def sel_cond(pa, pb):
    """selector condition: (cond, common prefix); cond true selects a"""
    n = 0
    while n < len(pa) and n < len(pb) and pa[n] == pb[n]:
        n += 1
    sa, sb = pa[n:], pb[n:]

    def cj(s):
        return conj(*[c if v else neg_c(c) for c, v in s])
    if sa and sb:
        if sa[0][0] == sb[0][0]:
            c, v = sa[0]
            return (c if v else neg_c(c)), pa[:n]
        return cj(sa), pa[:n]
    if sa:
        return cj(sa), pa[:n]
    if sb:
        return neg_c(cj(sb)), pa[:n]
    return T('choice', C(n)), pa[:n]


def merge_val(c, a, b):
    if a is b:
        return a
    if a is UNDEF and b is UNDEF:
        return a
    return ite(c, a, b)


def merge_segs(c, a, b):
    if a == b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    ra, rb = a[n:], b[n:]
    if len(ra) == len(rb) and all(x[0] == y[0] == 'v' for x, y in zip(ra, rb)):
        return a[:n] + tuple(('v', ite(c, x[1], y[1])) for x, y in zip(ra, rb))
    if len(ra) == len(rb) and all(x[0] == y[0] == 'kv' and x[1] == y[1] for x, y in zip(ra, rb)):
        return a[:n] + tuple(('kv', x[1], ite(c, x[2], y[2])) for x, y in zip(ra, rb))
    if isinstance(c, T) and c.op == 'not':
        return a[:n] + (('alt', c.args[0], rb, ra),)
    return a[:n] + (('alt', c, ra, rb),)


def merge(sa, sb):
    """join two states (mutually exclusive paths)"""
    if sa is None:
        return sb
    if sb is None:
        return sa
    c, pc = sel_cond(sa.pc, sb.pc)
    out = State()
    out.pc = pc
    fa, fb = sa.facts, sb.facts
    out.facts = {k: v for k, v in fa.items() if fb.get(k) is v} if fa is not fb else fa
    out.events = merge_events(sa.events, sb.events)
    h = dict(sa.heap)
    for addr, ob in sb.heap.items():
        oa = h.get(addr)
        if oa is None:
            h[addr] = ob
            continue
        if oa is ob:
            continue
        h[addr] = merge_obj(c, oa, ob)
    out.heap = h
    _sid[0] += 1
    sa.id = _sid[0]
    _sid[0] += 1
    sb.id = _sid[0]
    return out


def merge_obj(c, oa, ob):
    if oa.kind in ('obj', 'env'):
        if oa.kind == 'obj':
            o = HObj(oa.cls)
        else:
            o = HEnv(None, oa.parent, oa.name)
        for k in list(oa.d) + [k for k in ob.d if k not in oa.d]:
            o.d[k] = merge_val(c, oa.d.get(k, UNDEF), ob.d.get(k, UNDEF))
        return o
    if oa.kind == 'seq':
        return HSeq(oa.t, merge_segs(c, oa.segs, ob.segs))
    if oa.kind == 'dict':
        return HDict(merge_segs(c, oa.segs, ob.segs))
    raise AssertionError(oa.kind)
