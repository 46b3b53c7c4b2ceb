"""C08: decoded values do not depend on the byte order of host or file.

Every VGF record kind is interpreted for a little and for a big endian host; the
attributes must be the same terms, and every multi-byte field big-endian but for
the blocks GEMPAK leaves unswapped.  The GEMPAK readers are interpreted over the
words of a written file, for both hosts and for both orders of the file; what
they hold and return must be the same terms.  In the remaining code every read
reached is checked to ask for the order of the file."""
import re
from ..gemcheck import *
from .. import terms
from ..report import fan
from ..vgfspec import KINDS, facts_of, merged_attrs, kname
from ..canonic import judge
from .c01 import short
from .c12 import vague
from .c14 import show
from ..reffile import variants, read

# fields GEMPAK does not swap (cvgswap.c): record kind -> attributes
RAW = {(10, 26): {'font_size'}, (11, 32): {'text_lat', 'text_lon', 'arrow_lat', 'arrow_lon', 'high_fill', 'med_fill', 'low_fill', 'line_type', 'arrow_size'}}
STATE = ('prefmt', 'endian', 'swapped_bytes')
CODED = ('rd', 'arr', 'pk', 'pkarr', 'reint')
CONFIG = [('little', '<'), ('little', '>'), ('big', '<'), ('big', '>')]


def code_of(x):
    c = x.args[-1] if x.op in ('rd', 'arr', 'reint') else x.args[0]
    return c.v if isinstance(c, C) else c


def multi(code):
    return isinstance(code, str) and code[-1] in 'hHiIlLqQfd'


def run(ctx):
    ctx.floor = 100
    ctx.rule('vgf hosts', 'every attribute of every record kind is the same term on a little and on a big endian host')
    ctx.rule('vgf order', 'every multi-byte field of a record is big-endian, but for the blocks GEMPAK leaves unswapped, which are little-endian')
    ctx.rule('gempak orders', 'every attribute and query result of the readers is the same term for both hosts and both orders of the file')
    fan(ctx, [lambda c, kind=kind: limited(20000000, gempak, c, kind) for kind in ('snd', 'grd', 'sfc')] + [vgf]
        + [lambda c, nm=nm, make=make: limited(100000 if 'unmerged' in nm else 20000000, structure, c, nm, make) for nm, make in variants().items()])


def limited(n, f, *args):
    old = terms.LIMIT
    terms.LIMIT = n
    try:
        f(*args)
    finally:
        terms.LIMIT = old


# ------------------------------------------------------------------ VGF
def vgf(ctx):
    for kd in KINDS:
        name = kname(kd)
        ctx.unit(name)
        try:
            a, b = facts_of(kd, 'little'), facts_of(kd, 'big')
            if a['dead'] or b['dead']:
                if a['dead'] != b['dead']:
                    ctx.violation(f'{name}: raises', f'reading {name} raises on a {"little" if a["dead"] else "big"} endian host only')
                else:
                    ctx.undecided(name, 'reading raises')
                continue
            (ca, _, la), (cb, _, lb) = merged_attrs(a), merged_attrs(b)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(name, f'analysis failed: {type(e).__name__} {e}'[:100])
            continue
        if la is None or lb is None:
            ctx.undecided(name, 'no element resolved')
            continue
        adv = a.get('advance'), b.get('advance')
        if adv[0] == adv[1]:
            ctx.discharge(f'{name}: advance')
        elif vague(*[x for x in adv if isinstance(x, V)]):
            ctx.undecided(f'{name}: advance', 'not fully interpreted')
        else:
            ctx.violation(f'{name}: advance', f'the next record is looked for at {short(adv[0])} on little and at {short(adv[1])} on big endian hosts')
        for n in sorted(set(la) | set(lb)):
            key = f'{name}: {n}'
            if n not in la or n not in lb:
                ctx.undecided(key, 'not set on both hosts')
                continue
            v = judge(plain(la[n]), plain(lb[n]))
            if v != 'ok' and v[0] == 'bad':
                ctx.violation(f'{key}: hosts', f'is {short(la[n])} on little and {short(lb[n])} on big endian hosts')
                continue
            ctx.settle(f'{key}: hosts', v, 'differs in form')
            want = '<' if n in RAW.get(kd[:2], ()) else '>'
            codes = {code_of(x) for x in subterms(la[n]) if isinstance(x, T) and x.op in ('rd', 'arr')}
            codes = sorted(c for c in codes if multi(c) and c[0] in '<>')
            wrong = [c for c in codes if c[0] == '<']
            if wrong and want == '>':
                ctx.violation(f'{key}: order', f'reads {wrong[0]}: VGF stores it big-endian')
            elif codes and not wrong and want == '<':
                ctx.violation(f'{key}: order', f'reads {codes[0]}: GEMPAK leaves it in little-endian order')
            else:
                ctx.discharge(f'{key}: order')


def plain(t):
    """an array is the same whatever the order of its type"""
    if not isinstance(t, V):
        return t
    return subst(t, lambda x: T('kw', x.args[0], C('<' + x.args[1].v[1:])) if isinstance(x, T) and x.op == 'kw' and x.args[0] == C('dtype')
                 and isinstance(x.args[1], C) and isinstance(x.args[1].v, str) and x.args[1].v[:1] == '>' else None)


# ------------------------------------------------------------------ GEMPAK, composed
def relative(t, order):
    """terms with format codes relative to the order of the file: '<' is the file's order"""
    def rel(c):
        v = c.v if isinstance(c, C) else c
        if isinstance(v, str) and re.fullmatch(r'[<>][a-zA-Z]', v):
            v = ('<' if v[0] == order else '>') + v[1:]
            return C(v) if isinstance(c, C) else v
        return c

    def f(x):
        if isinstance(x, T) and x.op in CODED and any(rel(a) != a for a in x.args):
            return T(x.op, *[rel(a) if isinstance(a, (C, str)) else relative(a, order) if isinstance(a, V) else a for a in x.args])
        return None
    return subst(t, f) if order != '<' else t


def gempak(ctx, kind):
    res = {}
    for h, o in CONFIG:
        nm = f'{kind} on a {h} endian host, {"little" if o == "<" else "big"} endian file'
        ctx.unit(nm)
        try:
            c = Case(kind, 'datetime').comp(order=o, byteorder=h)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(nm, f'analysis failed: {type(e).__name__} {e}'[:100])
            continue
        if c.attrs is None:
            if c.r is not None and c.r.st is None and res:
                ctx.violation(f'{nm}: raises', f'reading fails: {show(c.r.raises[0][1], 100) if c.r.raises else "no path returns"}')
            else:
                ctx.undecided(nm, 'not interpreted')
            continue
        res[h, o] = {k: relative(v, o) for k, v in {**c.attrs, 'result of ' + CLIENT[kind][4]: c.d}.items()
                     if isinstance(v, V) and k not in STATE and not k.endswith('_buffer')}
    compare(ctx, CLIENT[kind][3], res)


def renumbered(t):
    """the text of a term, what is numbered by the analysis numbered in the order it appears"""
    seen = {}
    return re.sub(r'[#@]\d+|\bL\d+x?\b', lambda m: seen.setdefault(m.group(), f'#n{len(seen)}'), repr(t))


def compare(ctx, who, res):
    base = res.get(CONFIG[0])
    if base is None:
        return
    for cf in CONFIG[1:]:
        if cf not in res:
            continue
        for k, want in base.items():
            key = f'{who} on a {cf[0]} endian host, {"little" if cf[1] == "<" else "big"} endian file: {k}'
            got = res[cf].get(k)
            if got == want or (got is not None and renumbered(got) == renumbered(want)):
                ctx.discharge(key)
            elif got is None or any(isinstance(x, T) and x.op == 'wide' for x in subterms(got)):
                ctx.undecided(key, 'not fully interpreted')
            else:
                a, b = first(want, got)
                ctx.violation(key, f'is {show(b, 120)} instead of {show(a, 120)}')


# ------------------------------------------------------------------ GEMPAK, by structure of the file
def structure(ctx, nm, make):
    """what is read of any file of a structure, its contents being symbols"""
    res = {}
    for h, o in CONFIG:
        unit = f'{nm}, {h} endian host, {"little" if o == "<" else "big"} endian file'
        ctx.unit(unit)
        try:
            r = read(make(o), byteorder=h)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(unit, f'analysis failed: {type(e).__name__} {e}'[:100])
            continue
        sites = {}
        for data, off, code, site in r.I.reads:
            if isinstance(data, T) and data.op == 'filedata' and multi(code) and len(code) == 2:
                sites.setdefault((site[2], code[0]), (site, code))
        for (qual, e), (site, code) in sorted(sites.items()):
            key = f'{unit}: reads of {qual}'
            if e == o:
                ctx.discharge(key)
            else:
                ctx.violation(key, f'{site[0]}:{site[1]} reads {code} from a file in {o} order')
        if r.st is None:
            ctx.undecided(unit, 'no path returns')
            continue
        d = r.I.ext.freeze(r.st, var(r, 'd'))
        at = r.st.get(var(r, 'r')).d
        res[h, o] = {k: relative(v, o) for k, v in {**{k: r.I.ext.freeze(r.st, v) for k, v in at.items() if isinstance(k, str)}, 'result': d}.items()
                     if isinstance(v, V) and k not in STATE and not k.endswith('_buffer')}
    compare(ctx, nm, res)


def first(a, b):
    """innermost place where two values differ"""
    def kids(x):
        return x.args if isinstance(x, T) else x.items if isinstance(x, Tup) else x if isinstance(x, tuple) else None
    xa, xb = kids(a), kids(b)
    if xa is None or xb is None or len(xa) != len(xb) or type(a) is not type(b) or isinstance(a, T) and a.op != b.op:
        return a, b
    for x, y in zip(xa, xb):
        if x != y:
            if isinstance(x, (V, tuple)) and isinstance(y, (V, tuple)):
                r = first(x, y)
                return (a, b) if isinstance(a, T) and not isinstance(r[0], (T, Tup)) else r
            return a, b
    return a, b
