"""C11: queries are pure and independent of history.

For every structure of a file the reader is interpreted in two client programs:
one asks a query of a reader just opened, the other puts a history of calls
before it - other queries, queries that fail, results taken apart by the caller,
other readers of other files.  The answer must be the same term, as must every
attribute the reader had when it was opened, but for those no query looks at
before setting them."""
import re
from ..gemcheck import *
from ..report import attempt, fan
from ..reffile import *
from .c08 import limited, first
from .c09 import SYM, alpha, deepmap, given, named
from .c12 import vague
from .c14 import show
from .c19 import CLIENT

# the query asked last, by kind
FULL = {'snd': 'r.snxarray()', 'sfc': 'r.sfjson()', 'grd': 'r.gdxarray()'}
SOME = {'snd': 'r.snxarray(station_id=s1)', 'sfc': 'r.sfjson(station_id=s1)', 'grd': 'r.gdxarray(parameter=s1)'}
INFO = {'snd': 'r.sninfo()', 'sfc': 'r.sfinfo()', 'grd': 'r.gdinfo()'}
LAST = {k: [FULL[k], SOME[k], INFO[k]] for k in FULL}
LAST['sfc'].append('r.nearest_time(t1, station_id=s1)')
LAST['grd'].append('r.project_point(west, north)')
EVERY = {'snd': 'r.snxarray(station_id=s2, station_number=n2, date_time=t2, state=s2, country=s2, bbox=[west, east, south, north])',
         'grd': 'r.gdxarray(parameter=s2, date_time=t2, coordinate=s2, level=n2, date_time2=t1, level2=n1)'}
EVERY['sfc'] = EVERY['snd'].replace('snx', 'sfj').replace('array', 'son')


def ends(kind, s):
    some = SOME[kind].replace('s1', s)
    return [some.replace(f'={s})', f'={s}, date_time="{w}")') for w in ('last', 'first')]


def histories(kind):
    cls = KIND[kind][0]
    full, some = FULL[kind], SOME[kind]
    q = lambda x: x.replace('r.', 'o.')
    out = {
        'the full query': f'{full}\n',
        'a selection': f'{some.replace("s1", "s2")}\n',
        'a query that may fail': f'try:\n    {some.replace("s1", "s2")}\nexcept Exception:\n    pass\n',
        'a query given nonsense': f'try:\n    {full.replace("()", "(date_time=5.5)")}\nexcept Exception:\n    pass\n',
        'a selection by everything': f'try:\n    {EVERY[kind]}\nexcept Exception:\n    pass\n',
        'the first and the last': f'{full.replace("()", "(date_time=" + repr("first") + ")")}\n{full.replace("()", "(date_time=" + repr("last") + ")")}\n',
        'a selection of the first and the last': '\n'.join(ends(kind, 's2')) + '\n',
        'the index': f'{INFO[kind]}\n',
        'an index emptied by the caller': f'x = {INFO[kind]}\nx.clear()\n',
        'a result emptied by the caller': f'x = {full}\nx.clear()\n',
        'another reader of the file': f'o = {cls}(path)\n{q(full)}\n',
        'a reader of another file': f'o = {cls}(path2)\n{q(full)}\n',
        'a file that cannot be read': f'try:\n    o = {cls}(badpath)\nexcept Exception:\n    pass\n',
    }
    if kind == 'grd':
        out['a projected point'] = 'r.project_point(east, south)\n'
    if kind == 'sfc':
        out['nearest times'] = 'r.nearest_time(t2, station_id=s2)\n'
        out['a changed result'] = f'x = {full}\nfor y in x:\n    y["properties"].clear()\n    y["values"].clear()\n'
    return out


def run(ctx):
    ctx.floor = 50
    ctx.rule('answer', 'the answer to a query is the same term whatever calls were made before')
    ctx.rule('state', 'what the reader held when it was opened is the same term after any query')
    ctx.rule('vgf', 'the answer of a VGF query is the same term whatever queries were made before, and the elements stay')
    jobs = []
    for nm, make in variants().items():
        wide = 'unmerged' in nm
        jobs.append(lambda c, nm=nm, make=make, wide=wide: limited(100000 if wide else 20000000, structure, c, nm, make, wide))
    fan(ctx, jobs + [vgf])


class Both:
    """two files of different orders behind two paths"""

    def __init__(self, make):
        self.a, self.b = make('<'), make('>')
        self.kind = self.a.kind

    def rd(self, data, off, code):
        if isinstance(data, T) and data.op == 'filedata':
            p = data.args[0]
            return (self.b if any(isinstance(x, T) and x.op == 'arg' and x.args[0] == C('path2') for x in subterms(p)) else self.a).rd(data, off, code)
        return None

    def cond(self, t, st):
        if any(isinstance(x, T) and x.op == 'arg' and x.args[0] == C('path2') for x in subterms(t)):
            return self.b.cond(t, st)
        return self.a.cond(t, st)


def answer(make, src, names=()):
    r = read(Both(make), query=src, syms=['path', 'path2', 'badpath'] + SYM, cond=given)
    if r.st is None:
        return None
    at = r.st.get(var(r, 'r')).d
    out = {k: clean(r, v) for k, v in at.items() if isinstance(k, str) and isinstance(v, V) and not k.endswith('_buffer')}
    return {n: clean(r, var(r, n)) for n in names}, out


def clean(r, v):
    return numbered(alpha(named(r.I, r.I.ext.deep(r.st, v))))


def numbered(v):
    """loops a value mentions, in order of mention"""
    names = {}

    def one(t):
        if isinstance(t, Ref):
            return C(names.setdefault(('@', t.a), f'object{len(names)}'))
        if isinstance(t, (Cls, Fn)):
            return C(repr(t))
        if isinstance(t, T) and t.args and isinstance(t.args[0], C) and re.fullmatch(r'L\d+x?', str(t.args[0].v)):
            n = names.setdefault(t.args[0].v, f'loop{len(names)}')
            return T(t.op, C(n), *[place(deepmap(x, one)) for x in t.args[1:]])
        if isinstance(t, T) and t.op == 'phi' and any(place(x) is not x for x in t.args):
            return T('phi', *[place(deepmap(x, one)) for x in t.args])
        return None

    def place(x):
        """objects in order of mention"""
        y = x.v if isinstance(x, C) else x
        if isinstance(y, str) and re.fullmatch(r'[a-z]+#\d+', y):
            z = names.setdefault(y, f'object{len(names)}')
            return C(z) if isinstance(x, C) else z
        return x
    return deepmap(v, one)


def structure(ctx, nm, make, wide):
    kind = make('<').kind
    usual = LAST[kind][:1] if wide else LAST[kind]
    last = usual + ends(kind, 's1')[:1 if wide else None]
    plain = {}
    opened = attempt(ctx, f'{nm}: opening', lambda: answer(make, ''))
    names = [f'd{i}' for i in range(len(last))]
    for n, q in zip(names, last):
        plain[n] = attempt(ctx, f'{nm}: {q}', lambda: answer(make, f'{n} = {q}\n', [n]))
    free = {}
    for what, h in histories(kind).items():
        if wide and what not in ('the full query', 'a selection', 'a query that may fail', 'a selection by everything', 'a reader of another file', 'an index emptied by the caller'):
            continue
        unit = f'{nm}: after {what}'
        ctx.unit(unit)
        asked = list(zip(names, last))
        if what == 'a selection of the first and the last':
            asked = asked[len(usual):]
        elif len(asked) > len(usual):
            asked = asked[:len(usual)]
        # each answer is also part of the history of the next
        got = attempt(ctx, unit, lambda: answer(make, h + ''.join(f'{n} = {q}\n' for n, q in asked), [n for n, q in asked]))
        if got is None:
            ctx.undecided(unit, 'the queries never complete')
            continue
        for n, q in asked:
            if plain[n] is None:
                ctx.undecided(f'{unit}: {q}', 'the query never completes')
            else:
                compare(ctx, f'{unit}: {q}', plain[n][0][n], got[0][n])
        for k, v in (opened[1] if opened else {}).items():
            if got[1].get(k) != v:
                if k not in free:
                    free[k] = scratch(make, k, last)
                if free[k]:
                    continue
            compare(ctx, f'{unit}: {k}', v, got[1].get(k))


def scratch(make, k, last):
    """no query looks at what the attribute held"""
    for q in last:
        try:
            r = read(Both(make), query=f'r.{k} = stale\nd = {q}\n', syms=['path', 'path2', 'stale'] + SYM, cond=given)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError):
            return False
        if r.st is None or uses(r.I.ext.freeze(r.st, var(r, 'd'))) or any(uses(c) for c, _ in r.st.pc):
            return False
    return True


def uses(v):
    return isinstance(v, V) and any(isinstance(x, T) and x.op == 'arg' and x.args[0] == C('stale') for x in subterms(v))


def compare(ctx, key, want, got):
    if want == got:
        ctx.discharge(key)
    elif got is None or vague(want, got):
        ctx.undecided(key, 'not fully interpreted')
    else:
        a, b = first(want, got)
        ctx.violation(key, f'is {show(b, 120)} instead of {show(a, 120)}')


# ------------------------------------------------------------------ VGF
WCLIENT = CLIENT.replace('= els', '= list(els)').replace('= grps', '= list(grps)')    # lists of the reader's own
VQ = ['r.elements', 'r.groups', 'r.bounds', 'r.has_fronts', 'r.has_text', 'r.has_sigmet', 'r.get_fronts()', 'r.get_text()', 'r.get_group(n1)', 'r.filter_elements(n1, n2)',
      'r.filter_elements(n1, n2, "or")', 'r.to_json()']
VH = VQ + ['W()', 'try:\n    r.filter_elements(1, 2, "xor")\nexcept Exception:\n    pass\n', 'x = r.filter_elements(n2)\nx.clear()']


def vgf(ctx):
    def ask(src):
        r = program(WCLIENT + src, ['els', 'grps', ('n1', 'int'), ('n2', 'int')])
        return None if r.st is None else {n: clean(r, var(r, n)) for n in ('d', 'e', 'g')}
    tail = 'd = {}\ne = r._elements\ng = r._groups\n'
    plain = {q: attempt(ctx, q, lambda: ask(tail.format(q))) for q in VQ}
    for h in VH:
        for q in VQ:
            what = h.split('\n')[0] if not h.startswith('try') else 'a query that fails'
            unit = f'VectorGraphicFile: {q} after {what}'
            ctx.unit(unit)
            got = attempt(ctx, unit, lambda: ask(f'{h}\n' + tail.format(q)))
            if got is None or plain[q] is None:
                ctx.undecided(unit, 'the query never completes')
                continue
            for n, w in (('d', 'answer'), ('e', 'elements'), ('g', 'groups')):
                compare(ctx, f'{unit}: {w}', plain[q][n], got[n])
