"""Texts for which two terms over a text the caller gives are different.

A text field of a header is cut, padded and put together again from pieces; two terms that say this in different ways are told
apart by working both out for texts of every length the field holds.  Only terms all of whose operations are known here
are worked out; the answer None decides nothing."""
from .terms import C, T, to_poly, subterms

ROOM = {'station_id': 8, 'state': 4, 'country': 4, 'pn': 12}


class No(Exception):
    pass


def source(x):
    """the name of the caller's text x stands for"""
    if isinstance(x, T) and x.op == 'm.get' and len(x.args) == 3 and isinstance(x.args[1], C) and x.args[1].v in ROOM:
        return x.args[1].v
    if isinstance(x, T) and x.op in ('arg', 'getitem') and len(x.args) == 2:
        y = x if x.op == 'arg' else x.args[0]
        if isinstance(y, T) and y.op == 'arg' and isinstance(y.args[0], C) and y.args[0].v in ROOM:
            return y.args[0].v
    return None


def value(t, env):
    if isinstance(t, C):
        return t.v
    if not isinstance(t, T):
        raise No
    if t in env:
        return env[t]
    a = t.args
    op = t.op
    if op == 'ite':
        return value(a[1] if value(a[0], env) else a[2], env)
    if op in ('is_none', 'absent'):
        if a[0] in env:
            return env[a[0]] is None
        if source(a[0]) or isinstance(a[0], T) and a[0].op in ('getitem', 'arg'):
            return False
        raise No
    if op == 'lin':
        k, m = to_poly(t)
        for mon, c in m.items():
            for f in mon:
                v = value(f, env)
                if not isinstance(v, (int, float)):
                    raise No
                c = c * v
            k = k + c
        return k
    if op == 'and':
        return all(value(x, env) for x in a)
    if op == 'or':
        return any(value(x, env) for x in a)
    v = [value(x, env) for x in a if not (isinstance(x, T) and x.op == 'slice')]
    s = v[0] if v else None
    if op in ('ge0', 'gt0', 'eq0') and isinstance(s, (int, float)):
        return s >= 0 if op == 'ge0' else s > 0 if op == 'gt0' else s == 0
    if op == 'not' and len(v) == 1:
        return not s
    if op == 'eq' and len(v) == 2:
        return s == v[1]
    if op == 'truth' and len(v) == 1:
        return bool(s)
    if op == 'int' and len(v) == 1 and isinstance(s, int):
        return s
    if op == 'text' and len(v) == 2 and isinstance(v[1], str):
        return v[1][:s].strip()
    if op == 'concat' and all(isinstance(x, str) for x in v):
        return ''.join(v)
    if isinstance(s, (list, tuple)):
        if op in ('max_of', 'min_of', 'max', 'min') and len(v) == 1 and s:
            return max(s) if op[:3] == 'max' else min(s)
        if op == 'len' and len(v) == 1:
            return len(s)
        if op in ('getitem', 'item', 'elemof') and len(v) == 2 and isinstance(v[1], int) and -len(s) <= v[1] < len(s):
            return s[v[1]]
        raise No
    if op in ('max', 'min') and len(v) > 1 and all(isinstance(x, (int, float)) for x in v):
        return max(v) if op == 'max' else min(v)
    if isinstance(s, (int, float)) and all(isinstance(x, (int, float)) for x in v):
        if op == 'abs' and len(v) == 1:
            return abs(s)
        if op == 'floordiv' and len(v) == 2 and v[1]:
            return s // v[1]
        if op == 'truediv' and len(v) == 2 and v[1]:
            return s / v[1]
        if op == 'mod' and len(v) == 2 and v[1]:
            return s % v[1]
    if op in ('fv', 'str') and isinstance(s, int) and not isinstance(s, bool):
        try:
            return str(s) if op == 'str' else format(s, a[1].v) if isinstance(a[1], C) and a[2] == C(-1) else None
        except (ValueError, TypeError, IndexError):
            raise No from None
    if not isinstance(s, str):
        raise No
    if op == 'len':
        return len(s)
    if op == 'int' and len(v) == 1:
        try:
            return int(s)
        except ValueError:
            raise No from None
    if op in ('getitem', 'item', 'elemof') and len(v) == 2 and isinstance(v[1], int) and -len(s) <= v[1] < len(s):
        return s[v[1]]
    if op in ('upper', 'lower', 'str', 'strip', 'lstrip', 'rstrip') and len(v) == 1:
        return s if op == 'str' else getattr(s, op)()
    if op in ('slice_s', 'getitem') and len(a) == 2 and isinstance(a[1], T) and a[1].op == 'slice':
        p = [value(x, env) for x in a[1].args]
        if all(x is None or isinstance(x, int) for x in p):
            return s[slice(*p)]
    if op == 'fv' and len(a) == 3 and isinstance(a[1], C) and a[2] == C(-1):
        try:
            return format(s, a[1].v)
        except (ValueError, TypeError):
            raise No from None
    if op in ('ljust', 'rjust') and len(v) > 1 and isinstance(v[1], int):
        return getattr(s, op)(*v[1:])
    raise No


def differ(want, got):
    """(text, value wanted, value found) for which they differ, or None"""
    src = {}
    for t in (want, got):
        for x in subterms(t):
            n = source(x)
            if n:
                src.setdefault(n, set()).add(x)
    if len(src) != 1:
        return None
    (n, atoms), = src.items()
    if len(atoms) != 1:
        return None
    at, = atoms
    for k in range(ROOM[n] + 1):
        for s in ('ABCDEFGHIJKL'[:k], 'abcdefghijkl'[:k]):
            try:
                w, g = value(want, {at: s}), value(got, {at: s})
            except No:
                return None
            if w != g:
                return s, w, g
    return None


def differ_for(want, got, pools):
    """(values of the arguments, value wanted, value found) among the values in `pools` {name: values}, or None; arguments of several
    names are varied one after the other"""
    atoms = {}
    for t in (want, got):
        for x in subterms(t):
            if isinstance(x, T) and x.op == 'arg' and isinstance(x.args[0], C):
                atoms.setdefault(x.args[0].v, set()).add(x)
    if not atoms or any(n not in pools or len(s) != 1 for n, s in atoms.items()):
        return None
    base = {n: pools[n][0] for n in atoms}
    seen = []
    for n in atoms:
        for v in pools[n]:
            for m in [None, *[x for x in atoms if x != n]]:
                for u in [None] if m is None else pools[m]:
                    e = dict(base, **{n: v}, **({} if m is None else {m: u}))
                    if 'lon' in e and 'lat' in e and isinstance(e['lon'], list) and len(e['lon']) != len(e['lat']):
                        continue
                    if e in seen:
                        continue
                    seen.append(e)
                    if len(seen) > 300:
                        return None
                    env = {next(iter(atoms[k])): x for k, x in e.items()}
                    try:
                        w, g = value(want, env), value(got, env)
                    except No:
                        return None
                    if w != g and not (isinstance(w, float) and isinstance(g, (int, float)) and abs(w - g) <= 1e-9 * max(1, abs(w))):
                        return e, w, g
    return None
