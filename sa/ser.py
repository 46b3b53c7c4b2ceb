"""Terms <-> JSON, for the committed reference tables under /verif/spec."""
from .terms import *


def to_json(v):
    if isinstance(v, C):
        x = v.v
        if isinstance(x, bytes):
            return {'b': x.hex()}
        if isinstance(x, tuple):
            return {'ct': [to_json(C(y)) for y in x]}
        if isinstance(x, (str, int, float, bool)) or x is None:
            if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
                return {'f': repr(x)}
            return {'c': x}
        return {'r': repr(x)}
    if isinstance(v, T):
        return [v.op] + [to_json(a) for a in v.args]
    if isinstance(v, Tup):
        return {'t': [to_json(a) for a in v.items]}
    if isinstance(v, EnumM):
        return {'e': [v.cls.name, v.name]}
    if isinstance(v, tuple):
        return {'u': [to_json(a) for a in v]}
    if isinstance(v, (str, int, float, bool)) or v is None:
        return {'p': v}
    return {'x': repr(v)}


def from_json(j):
    if isinstance(j, list):
        return T(j[0], *[from_json(a) for a in j[1:]])
    (k, x), = j.items()
    if k == 'c':
        return C(x)
    if k == 'b':
        return C(bytes.fromhex(x))
    if k == 'ct':
        return C(tuple(from_json(y).v for y in x))
    if k == 'f':
        return C(float(x))
    if k == 't':
        return Tup([from_json(a) for a in x])
    if k == 'u':
        return tuple(from_json(a) for a in x)
    if k == 'p':
        return x
    return T('foreign', C(str(x)))


def erase(v):
    """drop identities that only exist inside one analysis run (heap addresses,
    enum member objects) so that terms of two runs can be compared"""
    memo = {}

    def go(x):
        if isinstance(x, (T, Tup)) and x in memo:
            return memo[x]
        if isinstance(x, T):
            r = T(x.op, *[go(a) for a in x.args])
        elif isinstance(x, Tup):
            r = Tup([go(a) for a in x.items])
        elif isinstance(x, tuple):
            return tuple(go(a) for a in x)
        elif isinstance(x, EnumM):
            return T('enumm', C(x.cls.name), C(x.name))
        elif isinstance(x, Ref):
            return T('ref')
        elif isinstance(x, (C, str, int, float, bool)) or x is None:
            return x
        else:
            return T('foreign', C(type(x).__name__))
        memo[x] = r
        return r
    return go(v)
