"""Comparison-time normal forms and the three-valued judgement.

`normal(term)` turns an attribute term into an ordered decision tree whose
leaves use a small vocabulary (field reads, arrays, text fields, closed/flip
coordinate sequences); `judge(spec, got)` compares two of them.
"""
from .terms import *
from .terms import _key

NUL = (C('\x00'), C(b'\x00'))
TEXTOPS = {'decode', 'upto', 'upto_raw', 'strip', 'rstrip', 'lstrip', 'replace', 'bytes'}
# operations whose presence means the interpreter lost track of the value
OPAQUE = {'wide', 'fresh', 'exit', 'unknown', 'opaque', 'phi', 'elemof', 'hasattr', 'altseg', 'slice_of', 'content'}


def elem0(x):
    if isinstance(x, T):
        if x.op == 'arr':
            return T('rd', x.args[0], x.args[1], x.args[3])
        if x.op == 'round':
            e = elem0(x.args[0])
            return T('round', e, *x.args[1:]) if e is not None else None
        if x.op in ('asarray',):
            return elem0(x.args[0])
    return None


def text_norm(t):
    """text field: bytes -> ('text', bytes, frozenset of treatments, other replacements)"""
    feats, repl = set(), []
    while True:
        if t.op == 'decode':
            feats.add('decode')
        elif t.op in ('upto', 'upto_raw') and t.args[1] in NUL:
            feats.add('nul')
        elif t.op == 'strip' and len(t.args) == 1:
            feats.add('strip')
        elif t.op in ('strip', 'rstrip') and len(t.args) == 2 and t.args[1] in NUL:
            feats.add('nulpad')
        elif t.op in ('rstrip', 'lstrip', 'strip'):
            feats.add(t.op + ''.join(repr(a) for a in t.args[1:]))
        elif t.op == 'replace':
            repl.append(tuple(t.args[1:]))
        elif t.op == 'upto':
            feats.add('upto' + repr(t.args[1]))
        elif t.op == 'bytes':
            return T('text', t, tuple(C(f) for f in sorted(feats)), tuple(reversed(repl)))
        else:
            return None
        t = t.args[0]
        if not isinstance(t, T):
            return None


def unrep(x):
    """list(rep(i, n, (rd(base + k*i, code)), True)) -> arr when stride matches"""
    from .ext import CODESZ
    if x.op == 'list' and len(x.args) == 1 and isinstance(x.args[0], T) and x.args[0].op == 'rep':
        r = x.args[0]
        lid, n, body, cond = r.args
        if cond == TRUE and len(body) == 1:
            b = body[0]
            wrap = []
            while isinstance(b, T) and b.op == 'round':
                wrap.append(b.args[1:])
                b = b.args[0]
            if isinstance(b, T) and b.op == 'rd' and b.args[2][-1] != 's':
                idx = T('idx', lid)
                c, m = to_poly(b.args[1])
                k = m.pop((idx,), 0)
                if k == CODESZ[b.args[2][-1]] and not any(idx in mon for mon in m):
                    out = T('arr', b.args[0], from_poly(c, m), n, b.args[2])
                    for w in reversed(wrap):
                        out = T('round', out, *w)
                    return out
    return None


def rewrite(v):
    """leaf-level rewriting, bottom-up"""
    memo = {}

    def go(x):
        if isinstance(x, (T, Tup)):
            if x in memo:
                return memo[x]
        if isinstance(x, T):
            if x.op in TEXTOPS:
                t = text_norm(x)
                if t is not None and x.op != 'bytes':
                    r = T('text', go(t.args[0]), t.args[1], t.args[2])
                    memo[x] = r
                    return r
            args = tuple(go(a) for a in x.args)
            y = rebuild(x.op, args) if any(a is not b for a, b in zip(args, x.args)) else x
            if isinstance(y, T):
                y = step(y)
            memo[x] = y
            return y
        if isinstance(x, Tup):
            y = Tup([go(a) for a in x.items], x.nt)
            memo[x] = y
            return y
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(v)


def tag_pattern(pat):
    """regular expression that captures the text after <TAG> up to the next '<'
    -> (tag term, group index)"""
    parts = list(pat.args) if isinstance(pat, T) and pat.op == 'concat' else [pat]
    if not (isinstance(parts[0], C) and isinstance(parts[0].v, str) and isinstance(parts[-1], C) and isinstance(parts[-1].v, str)):
        return None
    for pre, post, g in (('(?<=<', '>)(.+?)(?=<)', 0), ('<', '>(.+?)<', 1), ('<', '>(.+?)(?=<)', 1), ('(?<=<', '>)(.+?)<', 1), ('(?<=<', '>).+?(?=<)', 0)):
        a, z = parts[0].v, parts[-1].v
        if len(parts) == 1:
            if a.startswith(pre) and a.endswith(post) and len(a) > len(pre) + len(post):
                w = a[len(pre):-len(post)]
                if w.replace('_', '').isalnum():
                    return C(w), g
        elif a.startswith(pre) and z.endswith(post):
            mid = [C(a[len(pre):])] + parts[1:-1] + [C(z[:-len(post)])]
            return T('tagname', *[m for m in mid if m != C('')]), g
    return None


def step(x):
    if x.op == 'elemof' and x.args[1] == C(0) and isinstance(x.args[0], T) and x.args[0].op == 'split' and len(x.args[0].args) > 1 and x.args[0].args[1] in NUL:
        return T('upto_raw', x.args[0].args[0], x.args[0].args[1])
    if x.op == 'm.group' and isinstance(x.args[0], T) and x.args[0].op == 're.search' and len(x.args[0].args) == 2:
        tp = tag_pattern(x.args[0].args[0])
        g = x.args[1].v if len(x.args) > 1 and isinstance(x.args[1], C) else 0
        if tp is not None and (g == tp[1] or (g in (0, 1) and '(?<=' in repr(x.args[0].args[0]) and tp[1] == 0)):
            return T('tag', tp[0], x.args[0].args[1])
    if x.op == 'numpy.concatenate' and isinstance(x.args[0], T) and x.args[0].op in ('list', 'tuple') and len(x.args[0].args) == 2:
        a, b = x.args[0].args
        if isinstance(b, T) and b.op in ('list', 'tuple') and len(b.args) == 1 and b.args[0] == elem0(a) and b.args[0] is not None:
            return T('closed', a)
        if isinstance(b, T) and b.op == 'arr' and isinstance(a, T) and a.op == 'arr' and b.args[1] == a.args[1] and b.args[2] == C(1):
            return T('closed', a)
    if x.op == 'numpy.append' and len(x.args) == 2 and x.args[1] == elem0(x.args[0]) and x.args[1] is not None:
        return T('closed', x.args[0])
    if x.op in ('numpy.flip', 'numpy.flipud') and len(x.args) == 1:
        return T('flip', x.args[0])
    if x.op == 'getitem' and x.args[1] == T('slice', NONE, NONE, C(-1)):
        return T('flip', x.args[0])
    if x.op == 'list':
        r = unrep(x)
        if r is not None:
            return r
    if x.op in ('numpy.array', 'asarray', 'numpy.asarray') and x.args and isinstance(x.args[0], T) and x.args[0].op in ('arr', 'closed', 'flip'):
        return x.args[0]
    return x


def normal(v, facts=None):
    try:
        v = rewrite(v)
        v = canon(v, facts)
        v = rewrite(v)
        return canon(v, facts)
    except TooBig:
        return T('wide', C('toobig'), '?')


def ops(v):
    out = set()
    for x in subterms(v):
        if isinstance(x, T):
            out.add(x.op)
    return out


def reads(v):
    """set of field reads (offset term, width/type), byte order dropped from strings"""
    out = set()
    for x in subterms(v):
        if isinstance(x, T):
            if x.op == 'rd':
                out.add(('rd', x.args[1], x.args[2]))
            elif x.op == 'arr':
                out.add(('arr', x.args[1], x.args[2], x.args[3]))
            elif x.op == 'bytes':
                out.add(('bytes', x.args[1], x.args[2]))
    return out


def consts(v):
    out = {}
    for x in subterms(v):
        if isinstance(x, C):
            out[x] = out.get(x, 0) + 1
    return out


def skeleton(v):
    """term with constants and read positions abstracted"""
    if isinstance(v, C):
        return ('c',)
    if isinstance(v, T):
        if v.op in ('rd', 'arr', 'bytes'):
            return (v.op,)
        if v.op == 'lin':
            return ('lin', tuple(tuple(skeleton(a) for a in m) for m, _ in v.args[1]))
        return (v.op,) + tuple(skeleton(a) for a in v.args)
    if isinstance(v, Tup):
        return ('tup',) + tuple(skeleton(a) for a in v.items)
    if isinstance(v, tuple):
        return tuple(skeleton(a) for a in v)
    return ('x',)


def opaque(v):
    return sorted(ops(v) & OPAQUE)


PLAIN = {'lin', 'ite', 'not', 'and', 'or', 'ge0', 'gt0', 'eq0', 'eq'}
VOCAB = PLAIN | {'rd', 'arr', 'bytes', 'filedata', 'arg', 'text', 'round', 'closed', 'flip', 'tag', 'tagname', 'int', 'float',
                 'enum', 'enumname', 'list', 'rep', 'idx', 'object', 'kv', 'dict', 'fv', 'len', 'absent', 'enumm'}


def judge(spec, got):
    """'ok' | ('bad', why) | ('undecided', why).  'bad' only when every
    operation in `got` is understood: it occurs in the reference value or
    belongs to the fixed vocabulary."""
    if spec == got:
        return 'ok'
    os_, og = ops(spec), ops(got)
    oq = [o for o in opaque(got) if o not in os_]
    if oq:
        return ('undecided', 'value not fully resolved: ' + ','.join(oq))
    new = og - os_ - VOCAB
    if new:
        return ('undecided', 'operations outside the vocabulary: ' + ','.join(sorted(new)))
    rs, rg = reads(spec), reads(got)
    if rs != rg:
        miss = sorted(map(repr, rs - rg))[:4]
        extra = sorted(map(repr, rg - rs))[:4]
        if not rg:
            return ('bad', f'never taken from the file (expected {miss})')
        if not extra:
            return ('bad', f'does not depend on {miss}')
        if not miss:
            return ('bad', f'also depends on {extra}')
        return ('bad', f'taken from {extra} instead of {miss}')
    lost = os_ - og
    a = {x.args[1:] for x in subterms(spec) if isinstance(x, T) and x.op == 'round'}
    b = {x.args[1:] for x in subterms(got) if isinstance(x, T) and x.op == 'round'}
    if a != b:
        return ('bad', f'rounding {sorted(map(repr, b))} instead of {sorted(map(repr, a))}')
    if skeleton(spec) == skeleton(got):
        return ('bad', 'different constants')
    return ('bad', 'computed differently from the same fields' + (f' (without {",".join(sorted(lost - PLAIN))})' if lost - PLAIN else ''))
