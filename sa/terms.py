"""Value-graph terms: the symbolic domain of the abstract interpreter.

Every abstract value is immutable (heap objects are addressed through Ref).
Numeric expressions are kept in polynomial normal form, conditionals as `ite`
nodes which `canon` turns into an ordered decision tree, so that syntactically
different but equivalent ways of writing the same computation coincide.
"""
import struct


class V:
    __slots__ = ()


def _ck(v):
    """type-aware key for constants (1, True and 1.0 must differ)"""
    if isinstance(v, tuple):
        return ('tuple',) + tuple(_ck(x) for x in v)
    return (type(v).__name__, v)


class C(V):
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = ('C',) + _ck(v)

    def __eq__(self, o):
        return isinstance(o, C) and self.k == o.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return repr(self.v)


class EnumM(V):
    """member of an IntEnum/Enum class of the repository"""
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumM) and (self.cls.name, self.name) == (o.cls.name, o.name)

    def __hash__(self):
        return hash((self.cls.name, self.name))

    def __repr__(self):
        return f'{self.cls.name}.{self.name}'


class Tup(V):
    __slots__ = ('items', 'nt', '_h')

    def __init__(self, items, nt=None):
        self.items = tuple(items)
        self.nt = nt
        self._h = hash(self.items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.nt:
            return f'{self.nt.name}(' + ', '.join(f'{n}={v!r}' for n, v in zip(self.nt.fields, self.items)) + ')'
        return '(' + ', '.join(map(repr, self.items)) + ')'


class Ref(V):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(('Ref', self.a))

    def __repr__(self):
        return f'@{self.a}'


class T(V):
    """operator term"""
    __slots__ = ('op', 'args', '_h', 'size', '_r')
    table = {}

    def __new__(cls, op, *args):
        key = (op, args)
        try:
            t = cls.table.get(key)
        except TypeError:
            raise TypeError(f'unhashable in term {op} {args!r}')
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t._h = hash(key)
            n = 1
            for a in args:
                n += _size(a)
            t.size = n
            t._r = None
            cls.table[key] = t
        return t

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self._r is None:
            self._r = _show(self)
        return self._r


def _size(a):
    if isinstance(a, T):
        return a.size
    if isinstance(a, Tup):
        return 1 + sum(_size(x) for x in a.items)
    if isinstance(a, tuple):
        return sum(_size(x) for x in a)
    return 1


class Undef(V):
    __slots__ = ()

    def __repr__(self):
        return '<undef>'


UNDEF = Undef()


def _num(c):
    return str(c)


def _show(t):
    if t.op == 'lin':
        c, mons = t.args
        parts = []
        for mon, k in mons:
            m = '*'.join(map(repr, mon))
            parts.append(m if k == 1 else f'{_num(k)}*{m}')
        if c or not parts:
            parts.append(_num(c))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'ite':
        return f'[{t.args[0]!r} ? {t.args[1]!r} : {t.args[2]!r}]'
    if t.op == 'rd':
        return f'rd({t.args[1]!r},{t.args[2]})'
    if t.op in ('arr', 'bytes'):
        return f'{t.op}(' + ','.join(_sa(a) for a in t.args[1:]) + ')'
    if t.op == 'filedata':
        return 'FILE'
    return f'{t.op}(' + ', '.join(_sa(a) for a in t.args) + ')'


def _sa(a):
    if isinstance(a, tuple):
        return '(' + ','.join(_sa(x) for x in a) + ')'
    return a if isinstance(a, str) else repr(a)


# ------------------------------------------------------------------ numbers
def isnumconst(v):
    return isinstance(v, C) and isinstance(v.v, (int, float)) or isinstance(v, EnumM) and isinstance(v.value, (int, float))


def numval(v):
    return v.value if isinstance(v, EnumM) else v.v


NUMOPS = {'lin', 'floordiv', 'mod', 'truediv', 'len', 'int', 'float', 'round', 'abs', 'pow', 'lshift', 'rshift',
          'count', 'card', 'ord', 'index', 'idx', 'iters', 'find', 'calcsize', 'hash', 'sum', 'word'}
INTOPS = {'floordiv', 'len', 'int', 'count', 'card', 'ord', 'index', 'idx', 'iters', 'find', 'lshift', 'rshift', 'word'}
STROPS = {'decode', 'strip', 'rstrip', 'lstrip', 'upto', 'fmt', 'upper', 'lower', 'str', 'repr', 'replace', 'join', 'concat',
          'encode', 'bytes', 'tobytes', 'pack', 'slicestr', 'strftime', 'filedata', 'enumname', 'group', 'title'}


def is_num(v):
    if isnumconst(v):
        return True
    if isinstance(v, T):
        if v.op in NUMOPS:
            return True
        if v.op == 'rd':
            return v.args[2][-1] != 's'
        if v.op == 'ite':
            return is_num(v.args[1]) and is_num(v.args[2])
        if v.op in ('phi', 'wide', 'arg', 'elemof', 'attr'):
            return bool(v.args and v.args[-1] in ('num', 'int'))
        if v.op == 'fresh':
            return v.args[-1] in ('num', 'int')
    return False


def is_int(v):
    if isinstance(v, EnumM):
        return isinstance(v.value, int)
    if isinstance(v, C):
        return isinstance(v.v, int)
    if isinstance(v, T):
        if v.op in INTOPS:
            return v.op != 'round' or len(v.args) == 1
        if v.op == 'rd':
            return v.args[2][-1] in 'iIbBhHqQlL'
        if v.op == 'lin':
            return isinstance(v.args[0], int) and all(isinstance(k, int) and all(is_int(a) for a in m) for m, k in v.args[1])
        if v.op == 'ite':
            return is_int(v.args[1]) and is_int(v.args[2])
        if v.op in ('mod', 'abs', 'round') and v.op != 'round':
            return all(is_int(a) for a in v.args)
        if v.op == 'round':
            return len(v.args) == 1
        if v.op in ('phi', 'wide', 'arg', 'fresh', 'elemof', 'attr'):
            return bool(v.args and v.args[-1] == 'int')
        if v.op == 'enum':
            return True
    return False


def is_str(v):
    """strings and bytes: '+' is ordered concatenation"""
    if isinstance(v, C):
        return isinstance(v.v, (str, bytes))
    if isinstance(v, T):
        if v.op in STROPS:
            return True
        if v.op == 'rd':
            return v.args[2][-1] == 's'
        if v.op == 'ite':
            return is_str(v.args[1]) or is_str(v.args[2])
    return False


def to_poly(v):
    """-> (const, {mon: coef}) ; mon is a sorted tuple of atoms"""
    if isnumconst(v):
        x = numval(v)
        if isinstance(x, bool):
            x = int(x)
        return x, {}
    if isinstance(v, T) and v.op == 'lin':
        return v.args[0], dict(v.args[1])
    return 0, {(v,): 1}


def from_poly(c, mons):
    mons = {m: k for m, k in mons.items() if k != 0}
    if isinstance(c, float) and c == 0:
        c = 0 if not mons else 0
    if not mons:
        return C(c)
    if c == 0 and len(mons) == 1:
        (m, k), = mons.items()
        if k == 1 and len(m) == 1:
            return m[0]
    return T('lin', c, tuple(sorted(mons.items(), key=lambda mk: tuple(_key(a) for a in mk[0]))))


_keys = {}
_keyn = {}


def _key(a):
    """deterministic structural order key (string)"""
    return repr(a)


def add(a, b):
    ca, ma = to_poly(a)
    cb, mb = to_poly(b)
    out = dict(ma)
    for m, k in mb.items():
        out[m] = out.get(m, 0) + k
    return from_poly(ca + cb, out)


def neg(a):
    return mul(C(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    ca, ma = to_poly(a)
    cb, mb = to_poly(b)
    out = {}
    c = ca * cb
    if cb:
        for m, k in ma.items():
            out[m] = out.get(m, 0) + k * cb
    if ca:
        for m, k in mb.items():
            out[m] = out.get(m, 0) + k * ca
    for m1, k1 in ma.items():
        for m2, k2 in mb.items():
            m = tuple(sorted(m1 + m2, key=_key))
            out[m] = out.get(m, 0) + k1 * k2
    return from_poly(c, out)


# ------------------------------------------------------------------ conditions
TRUE, FALSE, NONE = C(True), C(False), C(None)


def neg_c(c):
    if isinstance(c, C):
        return C(not c.v)
    if isinstance(c, T):
        if c.op == 'not':
            return c.args[0]
        if c.op == 'and':
            return disj(*[neg_c(x) for x in c.args])
        if c.op == 'or':
            return conj(*[neg_c(x) for x in c.args])
        if c.op == 'ge0' and is_int(c.args[0]):
            n = sub(C(-1), c.args[0])
            t = ge0(n)
            # keep one canonical polarity
            if isinstance(t, C):
                return t
            return t if _polkey(t) else T('not', c)
    return T('not', c)


def _polkey(t):
    return False


def conj(*cs):
    out = []
    for c in cs:
        if isinstance(c, C):
            if not c.v:
                return FALSE
            continue
        if isinstance(c, T) and c.op == 'and':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return TRUE
    for c in out:
        if isinstance(c, T) and T('not', c) in out:
            return FALSE
    if len(out) == 1:
        return out[0]
    return T('and', *out)


def disj(*cs):
    out = []
    for c in cs:
        if isinstance(c, C):
            if c.v:
                return TRUE
            continue
        if isinstance(c, T) and c.op == 'or':
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T('or', *out)


def ge0(x):
    """x >= 0 with canonical polarity: leading coefficient positive (ints only)"""
    if isnumconst(x):
        return C(numval(x) >= 0)
    c, mons = to_poly(x)
    ms = sorted(mons.items(), key=lambda mk: tuple(_key(a) for a in mk[0]))
    if is_int(x) and ms[0][1] < 0:
        # x >= 0  <=> not (-x-1 >= 0)
        y = sub(C(-1), x)
        return T('not', T('ge0', y))
    if ms[0][1] < 0:
        return T('not', T('gt0', neg(x)))
    return T('ge0', x)


def gt0(x):
    if isnumconst(x):
        return C(numval(x) > 0)
    if is_int(x):
        return ge0(sub(x, C(1)))
    c, mons = to_poly(x)
    ms = sorted(mons.items(), key=lambda mk: tuple(_key(a) for a in mk[0]))
    if ms[0][1] < 0:
        return T('not', T('ge0', neg(x)))
    return T('gt0', x)


def const_eq(a, b):
    """equality of two values if decidable, else None"""
    if isnumconst(a) and isnumconst(b):
        return numval(a) == numval(b)
    if isinstance(a, C) and isinstance(b, C):
        return a.v == b.v
    if isinstance(a, (C, EnumM)) and isinstance(b, (C, EnumM)):
        av = a.v if isinstance(a, C) else a.value
        bv = b.v if isinstance(b, C) else b.value
        return av == bv
    if a == b:
        return True
    if isinstance(a, Tup) and isinstance(b, Tup):
        if len(a.items) != len(b.items):
            return False
        rs = [const_eq(x, y) for x, y in zip(a.items, b.items)]
        if any(r is False for r in rs):
            return False
        return None
    if isinstance(a, (Tup, C, EnumM)) and isinstance(b, (Tup, C, EnumM)):
        return False
    kinds = []
    for x in (a, b):
        if isinstance(x, Ref) or isinstance(x, Tup):
            kinds.append('obj')
        elif isinstance(x, C) and (x.v is None):
            kinds.append('none')
        elif isinstance(x, C) and isinstance(x.v, str):
            kinds.append('str')
        elif is_num(x):
            kinds.append('num')
        elif is_str(x):
            kinds.append('str')
        else:
            kinds.append('?')
    if '?' not in kinds and kinds[0] != kinds[1]:
        return False
    if isinstance(a, T) and isinstance(b, T) and is_num(a) and is_num(b):
        d = sub(a, b)
        if isnumconst(d):
            return numval(d) == 0
    return None


def eq(a, b):
    r = const_eq(a, b)
    if r is not None:
        return C(r)
    if isinstance(a, T) and a.op == 'ite':
        ra, rb = const_eq(a.args[1], b), const_eq(a.args[2], b)
        if ra is not None and rb is not None:
            return ite(a.args[0], C(ra), C(rb))
    if isinstance(b, T) and b.op == 'ite' and not (isinstance(a, T) and a.op == 'ite'):
        return eq(b, a)
    if is_num(a) and is_num(b):
        d = sub(a, b)
        c, mons = to_poly(d)
        ms = sorted(mons.items(), key=lambda mk: tuple(_key(x) for x in mk[0]))
        if ms and ms[0][1] < 0:
            d = neg(d)
        return T('eq0', d)
    if isinstance(a, EnumM):
        a = C(a.value)
    if isinstance(b, EnumM):
        b = C(b.value)
    if _key(a) > _key(b):
        a, b = b, a
    return T('eq', a, b)


# ------------------------------------------------------------------ ite
LIMIT = 4000


def ite(c, a, b):
    if isinstance(c, C):
        return a if c.v else b
    if a == b and type(a) is type(b):
        return a
    if isinstance(c, T) and c.op == 'not':
        return ite(c.args[0], b, a)
    if isinstance(a, C) and isinstance(b, C) and a.v is True and b.v is False:
        return c
    if isinstance(a, C) and isinstance(b, C) and a.v is False and b.v is True:
        return neg_c(c)
    # nested with same condition
    if isinstance(a, T) and a.op == 'ite' and a.args[0] == c:
        a = a.args[1]
    if isinstance(b, T) and b.op == 'ite' and b.args[0] == c:
        b = b.args[2]
    if a == b and type(a) is type(b):
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items) and a.nt is b.nt:
        return Tup([ite(c, x, y) for x, y in zip(a.items, b.items)], a.nt)
    t = T('ite', c, a, b)
    if t.size > LIMIT:
        return T('wide', ('ite', hash(t) & 0xffffffff), 'num' if is_num(t) else '?')
    return t


def subterms(v, seen=None):
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (T, Tup)):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
            stack.extend(x.args if isinstance(x, T) else x.items)
        elif isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, V):
            yield x
            if hasattr(x, 'recv'):
                stack.append(x.recv)


def cond_atoms(c, out=None):
    if out is None:
        out = []
    if isinstance(c, T):
        if c.op in ('and', 'or'):
            for x in c.args:
                cond_atoms(x, out)
        elif c.op == 'not':
            cond_atoms(c.args[0], out)
        elif c.op == 'ite':
            for x in c.args:
                cond_atoms(x, out)
        elif c not in out:
            out.append(c)
    return out


def subst(v, m, memo=None):
    """bottom-up substitution with re-normalisation; m: {V: V} or callable"""
    if memo is None:
        memo = {}
    if isinstance(v, (T, Tup)):
        if v in memo:
            return memo[v]
    r = m(v) if callable(m) else m.get(v)
    if r is not None:
        return r
    if isinstance(v, T):
        args = tuple(subst(a, m, memo) for a in v.args)
        if all(x is y for x, y in zip(args, v.args)):
            out = v
        else:
            out = rebuild(v.op, args)
    elif isinstance(v, Tup):
        out = Tup([subst(a, m, memo) for a in v.items], v.nt)
    elif isinstance(v, tuple):
        out = tuple(subst(a, m, memo) for a in v)
        return out if any(x is not y for x, y in zip(out, v)) else v
    elif hasattr(v, 'recv'):
        r = subst(v.recv, m, memo)
        return v if r is v.recv else type(v)(r, v.name)
    else:
        return v
    memo[v] = out
    return out


def rebuild(op, args):
    if op == 'lin':
        out = C(args[0])
        for m, k in args[1]:
            p = C(k)
            for a in m:
                p = mul(p, a)
            out = add(out, p)
        return out
    if op == 'ite':
        return ite(*args)
    if op == 'and':
        return conj(*args)
    if op == 'or':
        return disj(*args)
    if op == 'not':
        return neg_c(args[0])
    if op == 'ge0':
        return ge0(args[0])
    if op == 'gt0':
        return gt0(args[0])
    if op == 'eq0':
        return eq(args[0], C(0)) if is_num(args[0]) else T('eq0', *args)
    if op == 'eq':
        return eq(*args)
    if op == 'truth' and len(args) == 1:
        a = args[0]
        if isinstance(a, C):
            return C(bool(a.v))
        if isinstance(a, T):
            if a.op == 'ite':
                return ite(a.args[0], rebuild('truth', (a.args[1],)), rebuild('truth', (a.args[2],)))
            if a.op in BOOLOPS:
                return a
            if a.op in ('lin', 'rd', 'idx', 'len'):
                if is_num(a):
                    return neg_c(eq(a, C(0)))
    return T(op, *args)


BOOLOPS = {'and', 'or', 'not', 'ge0', 'gt0', 'eq0', 'eq', 'in', 'isinst', 'is_none', 'is', 'truth', 'hasattr'}


def lin_facts_decide(atom, facts):
    """decide an atomic condition from facts {atom: bool}: equalities and integer bounds"""
    if atom in facts:
        return facts[atom]
    if not isinstance(atom, T):
        return None
    if atom.op in ('ge0', 'gt0', 'eq0'):
        x = atom.args[0]
        c, mons = to_poly(x)
        ms = tuple(sorted(mons.items(), key=lambda mk: tuple(_key(a) for a in mk[0])))
        lo, hi = None, None   # bounds on the polynomial part p = sum mons
        neq = set()
        exact_int = is_int(x)
        for f, val in facts.items():
            if not isinstance(f, T) or f.op not in ('ge0', 'gt0', 'eq0'):
                continue
            fc, fm = to_poly(f.args[0])
            fms = tuple(sorted(fm.items(), key=lambda mk: tuple(_key(a) for a in mk[0])))
            if fms == ms:
                s = 1
            elif tuple((m, -k) for m, k in fms) == ms:
                s = -1
            else:
                continue
            # f: s*p + fc  (>=|>|==) 0
            if f.op == 'eq0':
                if val:
                    v = -fc * s
                    lo = v if lo is None else max(lo, v)
                    hi = v if hi is None else min(hi, v)
                else:
                    neq.add(-fc * s)
            elif f.op == 'ge0':
                if (val and s == 1) or (not val and s == -1):
                    b = -fc if s == 1 else (fc + 1 if exact_int else fc)
                    lo = b if lo is None else max(lo, b)
                else:
                    b = fc if s == -1 else (-fc - 1 if exact_int else -fc)
                    hi = b if hi is None else min(hi, b)
            else:
                if val and s == 1:
                    lo = -fc if lo is None else max(lo, -fc)
                    neq.add(-fc)
                elif not val and s == 1:
                    hi = -fc if hi is None else min(hi, -fc)
                elif val and s == -1:
                    hi = fc if hi is None else min(hi, fc)
                    neq.add(fc)
                else:
                    lo = fc if lo is None else max(lo, fc)
        # non-negative quantities
        if all(k > 0 and all(isinstance(a, T) and a.op in ('len', 'iters', 'idx', 'count', 'card') for a in m) for m, k in ms):
            lo = 0 if lo is None else max(lo, 0)
        if exact_int:
            while lo is not None and lo in neq:
                lo += 1
            while hi is not None and hi in neq:
                hi -= 1
        if atom.op == 'ge0':
            if lo is not None and lo + c >= 0:
                return True
            if hi is not None and hi + c < 0:
                return False
        elif atom.op == 'gt0':
            if lo is not None and (lo + c > 0 or (lo + c == 0 and lo in neq)):
                return True
            if hi is not None and hi + c <= 0:
                return False
        else:
            if lo is not None and hi is not None and lo == hi:
                return lo + c == 0
            if -c in neq or (lo is not None and -c < lo) or (hi is not None and -c > hi):
                return False
    if atom.op == 'eq':
        a, b = atom.args
        for x, y in ((a, b), (b, a)):
            if isinstance(y, (C, EnumM)):
                for f, val in facts.items():
                    if val and isinstance(f, T) and f.op == 'eq' and x in f.args:
                        o = f.args[0] if f.args[1] == x else f.args[1]
                        if isinstance(o, C) and isinstance(y, C) and o != y:
                            return False
    if atom.op == 'is_none':
        x = atom.args[0]
        for f, val in facts.items():
            if val and isinstance(f, T) and f.op == 'isinst' and f.args[0] == x and f.args[1] != 'NoneType':
                return False
            if val and isinstance(f, T) and f.op in ('eq', 'in') and x in f.args:
                o = f.args[0] if f.args[1] == x else f.args[1]
                if isinstance(o, C) and o.v is not None:
                    return False
    return None


def simp_cond(c, facts):
    if isinstance(c, C):
        return C(bool(c.v))
    if isinstance(c, T):
        if c.op == 'not':
            return neg_c(simp_cond(c.args[0], facts))
        if c.op == 'and':
            return conj(*[simp_cond(x, facts) for x in c.args])
        if c.op == 'or':
            return disj(*[simp_cond(x, facts) for x in c.args])
        if c.op == 'ite':
            k = simp_cond(c.args[0], facts)
            if isinstance(k, C):
                return simp_cond(c.args[1] if k.v else c.args[2], facts)
            return ite(k, simp_cond(c.args[1], facts), simp_cond(c.args[2], facts))
        r = lin_facts_decide(c, facts)
        if r is not None:
            return C(r)
    return c


def assume(facts, c, val=True):
    """extend facts with c == val (returns new dict)"""
    if isinstance(c, C):
        return facts
    f = dict(facts)
    stack = [(c, val)]
    while stack:
        x, v = stack.pop()
        if isinstance(x, T):
            if x.op == 'not':
                stack.append((x.args[0], not v))
                continue
            if x.op == 'and' and v or x.op == 'or' and not v:
                for y in x.args:
                    stack.append((y, v))
                continue
            if x.op == 'and' or x.op == 'or':
                # keep as composite fact
                f[x] = v
                # unit propagation: all but one decided
                rest = [y for y in x.args if not isinstance(simp_cond(y, f), C)]
                if len(rest) == 1:
                    others = [simp_cond(y, f) for y in x.args if y is not rest[0]]
                    if x.op == 'or' and all(isinstance(o, C) and not o.v for o in others):
                        stack.append((rest[0], True))
                    if x.op == 'and' and all(isinstance(o, C) and o.v for o in others):
                        stack.append((rest[0], False))
                continue
            if x.op == 'ite':
                t = simp_cond(x.args[1], assume(f, x.args[0], True))
                e = simp_cond(x.args[2], assume(f, x.args[0], False))
                if isinstance(e, C) and bool(e.v) != v:
                    stack += [(x.args[0], True), (x.args[1], v)]
                    continue
                if isinstance(t, C) and bool(t.v) != v:
                    stack += [(x.args[0], False), (x.args[2], v)]
                    continue
            f[x] = v
    return f


class TooBig(Exception):
    pass


def canon(v, facts=None, limit=3000):
    """ordered decision-tree normal form: all `ite` conditions hoisted to the
    top, tested in a fixed order; leaves are ite-free."""
    budget = [limit]

    def atoms_of(v):
        out = []
        for s in subterms(v):
            if isinstance(s, T) and s.op == 'ite':
                cond_atoms(s.args[0], out)
        return out

    def go(v, facts):
        budget[0] -= 1
        if budget[0] < 0:
            raise TooBig()
        ats = [a for a in atoms_of(v) if not any(isinstance(x, T) and x.op == 'ite' for x in subterms(a))] or atoms_of(v)
        if not ats:
            return v
        ats.sort(key=_key)
        a = ats[0]
        d = simp_cond(a, facts)
        if isinstance(d, C):
            return go(_restrict(v, a, d), facts)
        ft, ff = assume(facts, a, True), assume(facts, a, False)
        t = go(_restrict_f(_restrict(v, a, TRUE), ft), ft)
        f = go(_restrict_f(_restrict(v, a, FALSE), ff), ff)
        if t == f:
            return t
        return T('ite', a, t, f)
    return go(v, dict(facts or {}))


def _restrict(v, a, c):
    return subst(v, {a: c})


def _restrict_f(v, facts):
    def m(x):
        if isinstance(x, T) and x.op == 'ite':
            c = simp_cond(x.args[0], facts)
            if isinstance(c, C):
                return _restrict_f(x.args[1] if c.v else x.args[2], facts)
        return None
    return subst(v, m)


def leaves(v, facts=None):
    """[(path conditions, leaf)] of the canonical decision tree"""
    out = []

    def go(v, pc):
        if isinstance(v, T) and v.op == 'ite':
            go(v.args[1], pc + ((v.args[0], True),))
            go(v.args[2], pc + ((v.args[0], False),))
        else:
            out.append((pc, v))
    go(canon(v, facts), ())
    return out
