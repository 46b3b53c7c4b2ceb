"""C09: a query returns exactly the entries that satisfy the criteria.

A client program asks the reader (interpreted over a file of any content) for
everything, for the index of the file and for a selection.  What the selection
must be is said in plain Python over the index - entry by entry, by the meaning
of the criterion - and interpreted along with it.  Every entry is delivered by a
loop over the index in file order; the condition under which the entry is
delivered must agree with the criterion for every combination of the comparisons
both are made of, and what is delivered for it must be what the full query
delivers for it."""
import itertools
import re
from ..gemcheck import *
from .. import terms
from ..report import fan
from ..reffile import REPO, KIND, MERGED, standard, packing, params, read
from .c08 import limited
from .c12 import Canon, vague
from .c14 import show

# name of the criterion -> (field of the index entry)
NAMED = {'snd': {'station_id': 'ID', 'station_number': 'NUMBER', 'date_time': 'DATTIM', 'state': 'STATE', 'country': 'COUNTRY'},
         'grd': {'parameter': 'PARM', 'date_time': 'DATTIM1', 'coordinate': 'COORD', 'level': 'LEVEL1', 'date_time2': 'DATTIM2', 'level2': 'LEVEL2'}}
NAMED['sfc'] = NAMED['snd']
INFO = {'snd': 'sninfo', 'sfc': 'sfinfo', 'grd': 'gdinfo'}
TEXT = {'station_id', 'state', 'country', 'parameter', 'coordinate'}
TIME = {'date_time', 'date_time2'}
SYM = [('s1', 'str'), ('s2', 'str'), ('n1', 'int'), ('n2', 'int'), ('t1', 'datetime'), ('t2', 'datetime'), ('west', 'float'), ('east', 'float'),
       ('south', 'float'), ('north', 'float')]
BOX = 's.LON >= west and s.LON <= east and s.LAT >= south and s.LAT <= north'
FILES = {'snd': {'snd': lambda: standard('snd', [('SNDT', 1, 'real', params(*MERGED))]),
                 'snd, unmerged': lambda: standard('snd', [('TTAA', 1, 'real', params(*MERGED))])},
         'sfc': {'sfc': lambda: standard('sfc', 'standard'), 'sfc, ship': lambda: standard('sfc', 'ship'), 'sfc, climate': lambda: standard('sfc', 'climate')},
         'grd': {'grd': lambda: standard('grd', None, words=packing('none'))}}


def forms(kind):
    """form -> (arguments of the query, what an entry s must satisfy, preparation)"""
    out = {'nothing': ('', 'True', '')}
    for c, f in NAMED[kind].items():
        if c in TEXT:
            out[c] = (f'{c}=s1', f's.{f} == s1.upper()', '')
            out[f'{c}, text'] = (f'{c}="Abc"', f's.{f} == "ABC"', '')
            out[f'{c}, list'] = (f'{c}=[s1, "abc", s2]', f's.{f} == s1.upper() or s.{f} == "ABC" or s.{f} == s2.upper()', '')
            out[f'{c}, tuple'] = (f'{c}=(s1, s2)', f's.{f} == s1.upper() or s.{f} == s2.upper()', '')
        elif c in TIME:
            # the times of a grid without a second time take no part in the order
            times = f'[x.{f} for x in info if x.{f} is not None]' if c == 'date_time2' else f'[x.{f} for x in info]'
            out[c] = (f'{c}=t1', f's.{f} == t1', '')
            out[f'{c}, text'] = (f'{c}="202402291305"', f's.{f} == stamp', 'stamp = datetime.strptime("202402291305", "%Y%m%d%H%M")\n')
            out[f'{c}, list'] = (f'{c}=[t1, "202402291305", t2]', f's.{f} == t1 or s.{f} == stamp or s.{f} == t2',
                                 'stamp = datetime.strptime("202402291305", "%Y%m%d%H%M")\n')
            for w, g in (('first', 'min'), ('FIRST', 'min'), ('last', 'max'), ('LAST', 'max')):
                out[f'{c}, {w}'] = (f'{c}={w!r}', f's.{f} == edge', f'edge = {g}({times})\n')
        else:
            out[c] = (f'{c}=n1', f's.{f} == n1', '')
            out[f'{c}, list'] = (f'{c}=[n1, n2]', f's.{f} == n1 or s.{f} == n2', '')
            out[f'{c}, constants'] = (f'{c}=[3, 5]', f's.{f} == 3 or s.{f} == 5', '')
    if kind != 'grd':
        out['bbox'] = ('bbox=(west, east, south, north)', BOX, '')
    pick = {'TEXT': ('s1', 's1.upper()'), 'TIME': ('t1', 't1'), 'NUM': ('n1', 'n1')}
    crit = []
    for c, f in NAMED[kind].items():
        a, w = pick['TEXT' if c in TEXT else 'TIME' if c in TIME else 'NUM']
        crit.append((c, f'{c}={a}', f's.{f} == {w}'))
    if kind != 'grd':
        crit.append(('bbox', 'bbox=(west, east, south, north)', BOX))
    if kind != 'sfc':
        for a, b in itertools.combinations(crit, 2):
            out[f'{a[0]} and {b[0]}'] = (f'{a[1]}, {b[1]}', f'{a[2]} and {b[2]}', '')
        out['all criteria'] = (', '.join(a[1] for a in crit), ' and '.join(a[2] for a in crit), '')
    else:
        for a in crit:
            if a[0] != 'date_time':
                out[f'date_time and {a[0]}'] = (f'date_time=t1, {a[1]}', f's.DATTIM == t1 and {a[2]}', '')
    return out


def run(ctx):
    ctx.floor = 20
    ctx.rule('criterion', 'an entry is delivered under a condition that agrees with the criteria for every outcome of the comparisons they consist of')
    ctx.rule('entry', 'what is delivered for an entry is what the unrestricted query delivers for it')
    ctx.rule('order', 'entries are delivered by one pass over the index of the file')
    jobs = []
    for kind, files in FILES.items():
        fs = forms(kind)
        for name in files:
            if 'unmerged' in name:
                # the selection is the same code: the criteria one by one
                fs = {k: v for k, v in fs.items() if ' and ' not in k and ', ' not in k}
            for i in range(4):
                jobs.append(lambda c, kind=kind, name=name, fs=dict(list(fs.items())[i::4]): limited(100000 if 'unmerged' in name else 20000000, queries, c, kind, name, fs))
    jobs.append(lambda c: limited(20000000, nearest, c))
    fan(ctx, jobs)


def loops(t):
    """the text of a term, its loops numbered in the order they appear"""
    seen = {}
    return re.sub(r'\bL\d+x?\b', lambda m: seen.setdefault(m.group(), f'loop{len(seen)}'), repr(t))


REPORTS = [('SFTX', 1, 'character', params('TEXT')), ('SFSP', 1, 'character', params('SPCL'))]


def nearest(ctx):
    ctx.rule('nearest', 'nearest_time returns, for every station that satisfies the criterion, the entry of that station closest in time')
    pick = 'min(r.sfjson({}=i), key=lambda x: abs(x["properties"]["date_time"] - t1))'
    sid, num = pick.format('station_id'), pick.format('station_number')
    for form, (args, *srcs) in {
            'station_id': ('station_id=s1', f'[{sid} for i in [s1]]'),
            'station_id, list': ('station_id=[s1, s2]', f'[{sid} for i in [s1, s2]]'),
            'station_id, special reports': ('station_id=s1, include_special=True', f'[{sid} for i in [s1]]'.replace('=i)', '=i, include_special=True)')),
            'station_number, special reports': ('station_number=n1, include_special=True', f'[{num} for i in [n1]]'.replace('=i)', '=i, include_special=True)')),
            'station_id, time as text': ('station_id=s1', f'[{sid} for i in [s1]]'),
            'station_number': ('station_number=n1', f'[{num} for i in [n1]]'),
            'station_number, list': ('station_number=[n1, n2]', f'[{num} for i in [n1, n2]]'),
            'state': ('state=s1', f'[{sid} for i in {{s.ID for s in r._sfinfo if s.STATE == s1.upper()}}]'),
            'country': ('country=s1', f'[{sid} for i in {{s.ID for s in r._sfinfo if s.COUNTRY == s1.upper()}}]'),
            **{f'{k}, list': (f'{k}=[s1, s2]', *(y for x in (
                f'(lambda w: [w.update(s.ID for s in r._sfinfo if s.{k.upper()} == x) for x in [s1.upper(), s2.upper()]] and w)(set())',
                f'{{s.ID for s in r._sfinfo if s.{k.upper()} in [s1.upper(), s2.upper()]}}') for y in (
                    f'(lambda ids: [{sid} for i in ids] if ids else [])({x})', f'[{sid} for i in {x}]')))
               for k in ('state', 'country')},
            'bbox': ('bbox=(west, east, south, north)', f'[{sid} for i in {{s.ID for s in r._sfinfo if {BOX}}}]')}.items():
        unit = f'GempakSurface.nearest_time: {form}'
        ctx.unit(unit)
        query = ''.join(f'want{i} = {src}\n' for i, src in enumerate(srcs)) + f'd = r.nearest_time(t1, {args})\n'
        if 'special' in form:
            query += f'plain = {srcs[0]}\n'.replace(', include_special=True', '')
        if form.endswith('as text'):
            query = 'from datetime import datetime\n' + query.replace('- t1)', "- datetime.strptime(s2, '%Y%m%d%H%M'))").replace('_time(t1,', '_time(s2,')
        r = read(standard('sfc', 'standard', parts=REPORTS) if 'special' in form else FILES['sfc']['sfc'](), query=query, syms=['path'] + SYM, cond=given)
        if r.st is None:
            ctx.undecided(unit, 'the query never completes')
            continue
        *wants, b = (alpha(named(r.I, r.I.ext.freeze(r.st, var(r, n)), booleans)) for n in [f'want{i}' for i in range(len(srcs))] + ['d'])
        wants = [T('list', T('altseg', w.args[0], tuple(w.args[1].args), tuple(w.args[2].args))) if isinstance(w, T) and w.op == 'ite'
                 and all(isinstance(x, T) and x.op == 'list' for x in w.args[1:]) else w for w in wants]
        if 'special' in form:  # the report texts are not fully interpreted: told from the query without special reports only
            w, b = loops(wants[0]), loops(b)
            o = loops(alpha(named(r.I, r.I.ext.freeze(r.st, var(r, 'plain')))))
            if w == b and o != b:
                ctx.discharge(unit)
            elif o == b and w != b:
                ctx.violation(unit, 'the entries returned are those without special reports, which were asked for')
            else:
                ctx.undecided(unit, 'the result is not fully interpreted')
            continue
        if b in wants:
            ctx.discharge(unit)
        elif vague(wants[0], b):
            ctx.undecided(unit, 'the result is not fully interpreted')
        else:
            ctx.violation(unit, f'the entries returned are {show(b, 200)}')


def queries(ctx, kind, name, fs):
    meth = KIND[kind][1]
    for form, (args, crit, prep) in fs.items():
        unit = f'{KIND[kind][0]}.{meth} ({name}): {form}'
        ctx.unit(unit)
        src = (f'from datetime import datetime\nfull = r.{meth}()\ninfo = r.{INFO[kind]}()\n{prep}' f'want = [s for s in info if {crit}]\nd = r.{meth}({args})\n')
        try:
            r = read(FILES[kind][name](), query=src, syms=['path'] + SYM, cond=given)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(unit, f'analysis failed: {type(e).__name__} {e}')
            continue
        if r.st is None:
            ctx.undecided(unit, 'the query never completes')
            continue
        fz = lambda n: r.I.ext.freeze(r.st, var(r, n))
        judge(ctx, unit, *(named(r.I, fz(n)) for n in ('want', 'full', 'd')))


KINDOF = {'str': ('str', 'collections.abc.Iterable'), 'int': ('int',), 'float': ('float',), 'datetime': ('datetime.datetime',)}


def given(t, st):
    """what holds of the values given: they are of the type said"""
    if t.op in ('is_none', 'isinst', 'truth') and t.args and isinstance(t.args[0], T) and t.args[0].op == 'arg' and len(t.args[0].args) > 1:
        ty = t.args[0].args[1]
        ty = ty.v if isinstance(ty, C) else ty
        if ty not in KINDOF:
            return None
        if t.op == 'is_none':
            return False
        if t.op == 'isinst':
            n = t.args[1]
            n = n.v if isinstance(n, C) else n
            return any(str(n).endswith(k) for k in KINDOF[ty])
    if t.op == 'eq' and any(isinstance(a, C) and isinstance(a.v, str) for a in t.args) and any(
            isinstance(a, T) and a.op == 'arg' and len(a.args) > 1 and a.args[1] in (C('int'), C('float'), C('datetime'), 'int', 'float', 'datetime') for a in t.args):
        return False
    return None


def named(I, v, pre=lambda t: t):
    """counts by what they count, and the ends of a sorted list as its extremes"""
    keys = {t: k for k, t in I.permids.items()}
    can = {}

    def one(t):
        if t.op in ('card', 'perm') and isinstance(t.args[0], C) and t.args[0].v in keys:
            n = t.args[0].v
            if n not in can:
                k = keys[n]
                cn = Canon(I)
                can[n] = unnumbered(repr(tuple(cn(alpha(deepmap(pre(x), f))) if isinstance(x, (V, tuple)) else position(k[0], x) for x in k)))
            return T(t.op, C(can[n]), *[deepmap(x, f) for x in t.args[1:]])
        if t.op == 'slice_of' and t.args[1] in ENDS and isinstance(t.args[0], T) and t.args[0].op == 'list' and len(t.args[0].args) == 1:
            rep = t.args[0].args[0]
            if isinstance(rep, T) and rep.op == 'rep' and len(rep.args[2]) == 1 and isinstance(rep.args[2][0], V):
                src = {keys[x.args[0].v][0] for x in subterms(rep.args[2][0]) if isinstance(x, T) and x.op == 'perm' and x.args[1] == T('idx', rep.args[0])
                       and keys.get(x.args[0].v, (0, 1))[1] == ()}
                if len(src) == 1:
                    return T('list', T(ENDS[t.args[1]], deepmap(next(iter(src)), f)))
        return None
    f = lambda t: one(t) if isinstance(t, T) and t.args else None

    def empty(t):
        """none of them if there are none"""
        if t.op == 'altseg' and t.args[2] == () and len(t.args[1]) == 1 and isinstance(t.args[1][0], T) and t.args[1][0].op == 'rep' \
                and t.args[0] == ge0(sub(t.args[1][0].args[1], C(1))):
            return deepmap(t.args[1][0], g)
        return None
    g = lambda t: empty(t) if isinstance(t, T) and t.args else None
    return deepmap(deepmap(pre(v), f), g)


def booleans(t):
    """choices between yes, no and a condition as the conjunction or disjunction they are, in one order"""
    def f(x):
        if not isinstance(x, T):
            return None
        if x.op == 'ite' and any(a in (C(True), C(False)) and isinstance(a.v, bool) for a in x.args[1:] if isinstance(a, C)) \
                and all(isinstance(a, C) and isinstance(a.v, bool) or isinstance(a, T) and a.op in CONDOP for a in x.args[1:]):
            c, a, b = (deepmap(y, f) for y in x.args)
            if isinstance(a, C):
                return ordered(disj(c, b) if a.v else conj(neg_c(c), b))
            return ordered(disj(neg_c(c), a) if b.v else conj(c, a))
        if x.op in ('and', 'or'):
            return ordered((conj if x.op == 'and' else disj)(*[deepmap(a, f) for a in x.args]))
        if x.op == 'not' and isinstance(x.args[0], T) and x.args[0].op in ('and', 'or', 'ite'):
            y = deepmap(x.args[0], f)
            return ordered(neg_c(y)) if isinstance(y, T) and y.op in ('and', 'or') else T('not', y)
        return None
    return deepmap(t, f)


CONDOP = {'and', 'or', 'not', 'ge0', 'gt0', 'eq', 'eq0', 'in', 'ite', 'truth', 'is_none', 'isinst'}


def ordered(c):
    return T(c.op, *sorted(c.args, key=repr)) if isinstance(c, T) and c.op in ('and', 'or') else c


def unnumbered(s):
    """objects in order of mention"""
    seen = {}
    return re.sub(r'\b([a-z]+)#\d+', lambda m: seen.setdefault(m[0], f'{m[1]}#{len(seen)}'), s)


def position(src, lid):
    """which of the loops that make a list this is"""
    ls = [x.args[0].v for x in subterms(src) if isinstance(x, T) and x.op == 'rep'] if isinstance(src, V) else []
    return ls.index(lid) if lid in ls else lid


ENDS = {T('slice', C(-1), C(None), C(None)): 'max_of', T('slice', C(None), C(1), C(None)): 'min_of', T('slice', C(0), C(1), C(None)): 'min_of'}


# ------------------------------------------------------------------ deliveries
class Odd(Exception):
    pass


def deliveries(v):
    """[(loop, number of rounds, condition, value)] of a list made by passes over an index"""
    if not (isinstance(v, T) and v.op == 'list'):
        raise Odd(f'not a list: {getattr(v, "op", type(v).__name__)}')
    out = []

    def go(items, conds, loop):
        for x in items:
            if isinstance(x, T) and x.op == 'altseg':
                go(x.args[1], conds + [x.args[0]], loop)
                go(x.args[2], conds + [negated(x.args[0])], loop)
            elif isinstance(x, T) and x.op == 'rep':
                if loop is not None:
                    raise Odd('a loop within the loop over the entries')
                go(x.args[2], conds + ([x.args[3]] if len(x.args) > 3 else []), (x.args[0], x.args[1]))
            elif isinstance(x, T) and x.op == 'spread':
                raise Odd('a list of unknown make')
            else:
                out.append((loop, conj(*conds), x))
    go(v.args, [], None)
    return out


def negated(c):
    return T('not', c)


def renamed(v, loop):
    """the value of the round, whatever the loop is called"""
    lid = loop[0].v if isinstance(loop[0], C) else loop[0]

    return alpha(subst(v, relabel({lid: 'entry'}), {}))


def relabel(m):
    def one(t):
        if isinstance(t, T) and t.op in ('idx', 'phi', 'pick', 'iters', 'count') and isinstance(t.args[0], C) and t.args[0].v in m:
            return T(t.op, C(m[t.args[0].v]), *[subst(x, one, {}) if isinstance(x, V) else x for x in t.args[1:]])
        return None
    return one


def alpha(v):
    """loops that are part of a value, named by what they go over"""
    memo, names = {}, {}

    def height(x):
        if isinstance(x, tuple):
            return max((height(y) for y in x), default=0)
        if not isinstance(x, (T, Tup)):
            return 0
        if x not in memo:
            h = height(x.args if isinstance(x, T) else x.items)
            if isinstance(x, T) and x.op in ('rep', 'count') and isinstance(x.args[0], C):
                h += 1
                names[x.args[0].v] = f'inner{max(h, int(names.get(x.args[0].v, "inner0")[5:]))}'
            memo[x] = h
        return memo[x]
    height(v)
    if not names:
        return v
    if isinstance(v, tuple):
        return tuple(alpha(x) if isinstance(x, (V, tuple)) else x for x in v)
    f = relabel(names)

    def one(t):
        if isinstance(t, T) and t.op in ('rep', 'count') and t.args and isinstance(t.args[0], C) and t.args[0].v in names:
            return T(t.op, C(names[t.args[0].v]), *[deepmap(x, one) for x in t.args[1:]])
        return f(t) if isinstance(t, T) else None
    return subst(v, one, {})


def deepmap(x, f):
    return tuple(deepmap(y, f) for y in x) if isinstance(x, tuple) else subst(x, f, {}) if isinstance(x, V) else x


def anyloop(v):
    def one(t):
        if isinstance(t, T) and t.op in ('idx', 'phi', 'pick') and isinstance(t.args[0], C):
            return T('idx', C('entry'))
        return None
    return subst(v, one, {})


def places(v):
    v = anyloop(v)
    return {x for x in subterms(v) if isinstance(x, T) and x.op in ('rd', 'bytes', 'arr')}


def judge(ctx, unit, want, full, d):
    try:
        ws, fs, ds = (deliveries(x) for x in (want, full, d))
    except Odd as e:
        return ctx.undecided(unit, f'the result is {e}')
    for x in ws + fs + ds:
        if x[0] is None:
            if x in ds and not vague(x[1], x[2]):
                return ctx.violation(f'{unit}: order', f'{show(x[2], 100)} is delivered outside the pass over the index')
            return ctx.undecided(unit, 'not delivered by a loop')
    counts = {show(x[0][1], 2000) for x in ws + fs + ds if x[1] != FALSE}
    if len(counts) != 1:
        if any(vague(x[0][1]) for x in ds):
            return ctx.undecided(f'{unit}: order', 'the number of rounds is not fully interpreted')
        return ctx.violation(f'{unit}: order', f'the entries are delivered by passes over {", ".join(sorted(counts))[:300]}')
    wc, fc, dc = ([(renamed(c, l), renamed(v, l) if isinstance(v, V) else v) for l, c, v in x] for x in (ws, fs, ds))
    cs = lambda x: disj(*[c for c, _ in x])
    a, b = conj(cs(wc), cs(fc)), cs(dc)
    ok = agree(a, b)
    if ok is None:
        ctx.undecided(f'{unit}: criterion', 'the condition is made of too many comparisons')
    elif ok is True:
        ctx.discharge(f'{unit}: criterion')
    elif vague(a, b):
        ctx.undecided(f'{unit}: criterion', 'the condition is not fully interpreted')
    else:
        ctx.violation(f'{unit}: criterion', f'an entry is delivered or left out against the criteria when {ok}')
    ctx.discharge(f'{unit}: order')
    same = {v for _, v in dc} <= {v for _, v in fc}
    if same:
        return ctx.discharge(f'{unit}: entry')
    pa, pb = (set().union(*[places(v) for _, v in x if isinstance(v, V)] or [set()]) for x in (fc, dc))
    if pa == pb and pa:
        ctx.discharge(f'{unit}: entry')
    elif vague(*pa, *pb) or not pb:
        ctx.undecided(f'{unit}: entry', 'what is delivered is not fully interpreted')
    else:
        ctx.violation(f'{unit}: entry', f'what is delivered for an entry comes from elsewhere: {", ".join(show(x, 90) for x in sorted(pa ^ pb, key=repr)[:2])}')


FALSE = C(False)


# ------------------------------------------------------------------ truth tables
def formula(c):
    """('and'|'or', ...) | ('not', f) | ('atom', key) | bool over comparisons"""
    if isinstance(c, C):
        return bool(c.v)
    if isinstance(c, T):
        if c.op in ('and', 'or'):
            return (c.op, *[formula(a) for a in c.args])
        if c.op == 'not':
            return ('not', formula(c.args[0]))
        if c.op == 'truth':
            return formula(c.args[0])
        if c.op == 'ite':
            k = formula(c.args[0])
            return ('or', ('and', k, formula(c.args[1])), ('and', ('not', k), formula(c.args[2])))
        if c.op == 'in':
            return member(c.args[0], c.args[1])
        if c.op in ('ge0', 'gt0', 'eq0'):
            k, m = to_poly(c.args[0])
            lead = sorted(m.items(), key=lambda kv: repr(kv[0]))
            sign = -1 if lead and lead[0][1] < 0 else 1
            p = c.args[0] if sign > 0 else neg(c.args[0])
            if c.op == 'eq0':
                return ('sign', p, (0,))
            return ('sign', p, tuple(sorted([sign] + ([0] if c.op == 'ge0' else []))))
        if c.op == 'eq':
            for a, b in (c.args, c.args[::-1]):
                if isinstance(a, T) and a.op == 'ite':
                    k = formula(a.args[0])
                    return ('or', ('and', k, formula(terms.eq(a.args[1], b))), ('and', ('not', k), formula(terms.eq(a.args[2], b))))
            if any(a == C(None) and isinstance(b, T) and (b.op in ('max_of', 'min_of', 'arg', 'strptime') or is_str(b)) for a, b in (c.args, c.args[::-1])):
                return False
            return ('atom', frozenset(c.args))
    return ('atom', c)


def member(x, s):
    items = s.items if isinstance(s, Tup) else s.args if isinstance(s, T) and s.op in ('list', 'tuple') else None
    if items is None:
        return ('atom', T('in', x, s))
    out = ['or']
    for i in items:
        if isinstance(i, T) and i.op == 'spread' and isinstance(i.args[0], T) and i.args[0].op == 'list':
            out.append(member(x, i.args[0]))
        elif isinstance(i, T) and i.op == 'altseg':
            k = formula(i.args[0])
            out.append(('and', k, member(x, T('list', *i.args[1]))))
            out.append(('and', ('not', k), member(x, T('list', *i.args[2]))))
        elif isinstance(i, T) and i.op in ('rep', 'spread'):
            out.append(('atom', T('in', x, T('list', i))))
        else:
            out.append(formula(terms.eq(x, i)))
    return tuple(out)


def atoms(f, out):
    if isinstance(f, tuple):
        if f[0] == 'atom':
            out.setdefault(('atom', f[1]), (True, False))
        elif f[0] == 'sign':
            out.setdefault(('sign', f[1]), (-1, 0, 1))
        else:
            for x in f[1:]:
                atoms(x, out)
    return out


def value(f, env):
    if isinstance(f, bool):
        return f
    if f[0] == 'atom':
        return env[f[:2]]
    if f[0] == 'sign':
        return env[f[:2]] in f[2]
    if f[0] == 'not':
        return not value(f[1], env)
    if f[0] == 'and':
        return all(value(x, env) for x in f[1:])
    return any(value(x, env) for x in f[1:])


def agree(a, b):
    """True, None (too large) or what makes the difference"""
    if a == b:
        return True
    fa, fb = formula(a), formula(b)
    at = atoms(fb, atoms(fa, {}))
    n = 1
    for v in at.values():
        n *= len(v)
    if n > 200000:
        return None
    ks = list(at)
    for vals in itertools.product(*at.values()):
        env = dict(zip(ks, vals))
        if value(fa, env) != value(fb, env):
            only = [(k, v) for k, v in env.items() if k not in atoms(fa, {}) or k not in atoms(fb, {})] or list(env.items())
            return ', '.join(f'{tell(k)} is {v if k[0] == "atom" else "negative zero positive".split()[v + 1]}' for k, v in only[:4])
    return True


def tell(k):
    x = k[1]
    return ' == '.join(show(a, 70) for a in sorted(x, key=repr)) if isinstance(x, frozenset) else show(x, 120)
