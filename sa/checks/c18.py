"""C18: no internal failure, and unsupported content is rejected by name.

The readers are interpreted over every structure of file they support, for every
query, and over every kind of VGF record; a path may end in an exception the
library raises by a statement of its own, never in an unbound variable, a missing
attribute or a call that does not fit.  The whole package is resolved on the
syntax tree for what the interpretation does not reach.  Files that are not
supported must be rejected by an explicit error on every path."""
from itertools import product as cross
from ..gemcheck import *
from .. import terms
from ..names import Package, names, members
from .. import report
from ..report import fan
from ..reffile import variants, read as readfile, standard, RefFile, params, packing, MERGED, KIND
from ..vgfspec import KINDS, SKIPPED, kname
from ..vgfread import base_const
from .c14 import show

INTERNAL = ('AttributeError', 'UnboundLocalError', 'NameError')
CALLS = ('missing argument', 'too many arguments', 'unexpected keyword')
FILTERS = {'grd': ['parameter', 'date_time', 'coordinate', 'level', 'date_time2', 'level2'],
           'snd': ['station_id', 'station_number', 'date_time', 'state', 'country', 'bbox'],
           'sfc': ['station_id', 'station_number', 'date_time', 'state', 'country', 'bbox']}


def run(ctx):
    ctx.floor = 100
    ctx.rule('internal failure', 'no path of a reader ends in an unbound variable, a missing attribute or a call that does not fit the callee')
    ctx.rule('resolution', 'every name, attribute of self or of a class, and call in the package resolves to a definition that accepts it')
    ctx.rule('explicit rejection', 'every path reading unsupported or damaged content ends in an exception the library raises by a statement of its own')
    jobs = [resolution]
    jobs += [lambda c, nm=nm, mk=mk: structure(c, nm, mk) for nm, mk in variants().items()]
    jobs += [lambda c, k=k: filtered(c, k) for k in FILTERS]
    jobs += [lambda c, i=i: vgf(c, (list(KINDS) + list(SKIPPED))[i::4]) for i in range(4)]
    jobs += [rejected]
    jobs += [lambda c, k=k: writers(c, k) for k in ('grd', 'snd', 'sfc')]
    fan(ctx, jobs)


# ------------------------------------------------------------------ resolution
def resolution(ctx):
    pkg = Package(os.path.join(REPO, 'src'))
    for mod in pkg.mods:
        ctx.unit(mod)
    for key, line, bad in names(pkg):
        if bad:
            ctx.violation(f'{key}: names', f'{", ".join(sorted(bad))} is bound nowhere', f'{key}:{line}')
        else:
            ctx.discharge(f'{key}: names')
    for key, line, why in members(pkg):
        if why:
            ctx.violation(key, why, f'line {line}')
        else:
            ctx.discharge(key)


# ------------------------------------------------------------------ failures inside
def internal(exc):
    if not (isinstance(exc, T) and exc.op == 'exc'):
        return False
    name = exc.args[0].v if isinstance(exc.args[0], C) else exc.args[0]
    text = exc.args[1].v if len(exc.args) > 1 and isinstance(exc.args[1], C) else exc.args[1] if len(exc.args) > 1 else ''
    if name in INTERNAL:
        return True
    return name == 'TypeError' and isinstance(text, str) and text.startswith(CALLS)


def possible(c, n=12):
    """False where no valuation of the tests a condition is made of satisfies it"""
    atoms = []

    def lift(t):
        """tests of a choice become choices of tests"""
        if isinstance(t, T) and t.op in ('not', 'and', 'or'):
            return T(t.op, *[lift(a) for a in t.args])
        if isinstance(t, T) and t.op == 'ite':
            return T('ite', lift(t.args[0]), lift(t.args[1]), lift(t.args[2]))
        if isinstance(t, T) and t.op in ('eq', 'is_none', 'truth', 'eq0', 'ge0', 'is'):
            for i, a in enumerate(t.args):
                if isinstance(a, T) and a.op == 'ite':
                    x, y = (T(t.op, *[b if j == i else o for j, o in enumerate(t.args)]) for b in a.args[1:])
                    return T('ite', lift(a.args[0]), lift(x), lift(y))
            if t.op == 'eq' and t.args[0] == t.args[1]:
                return TRUE
            if t.op == 'eq' and all(isinstance(a, C) for a in t.args):
                return C(t.args[0].v == t.args[1].v)
        return t

    def collect(t):
        if isinstance(t, T) and t.op in ('not', 'and', 'or', 'ite'):
            for a in t.args:
                collect(a)
        elif isinstance(t, V) and not isinstance(t, C) and t not in atoms:
            atoms.append(t)

    def val(t, m):
        if isinstance(t, C):
            return bool(t.v)
        if isinstance(t, T):
            if t.op == 'not':
                return not val(t.args[0], m)
            if t.op == 'and':
                return all(val(a, m) for a in t.args)
            if t.op == 'or':
                return any(val(a, m) for a in t.args)
            if t.op == 'ite':
                return val(t.args[1] if val(t.args[0], m) else t.args[2], m)
        return m[t]
    c = lift(c)
    collect(c)
    same = {}
    for a in atoms:
        k = [x for x in a.args if isinstance(x, C)] if isinstance(a, T) and a.op == 'eq' else []
        o = [x for x in a.args if not isinstance(x, C)] if k else []
        same.setdefault(('eq', o[0]) if len(k) == 1 and len(o) == 1 else ('one', a), []).append(a)
    # constants a value is compared with exclude each other
    ways = [[{x: x is y for x in g} for y in g] + [{x: False for x in g}] for g in same.values()]
    size = 1
    for w in ways:
        size *= len(w)
    if size > 2 ** n:
        return None
    for pick in cross(*ways):
        m = {k: v for w in pick for k, v in w.items()}
        if val(c, m):
            return True
    return False


def faults(ctx, unit, r):
    """internal failures of one program"""
    seen = set()
    for st, exc, site in r.raises:
        if internal(exc):
            key = f'{unit}: {site[2]} {show(exc, 60)}'
            seen.add(site[2])
            ctx.violation(key, f'{site[0]}:{site[1]} ends in {show(exc, 80)} when {show(last(st), 160)}', f'{site[0]}:{site[1]}')
    done = set()
    for st in ([r.st] if r.st is not None else []) + [x[0] for x in r.raises]:
        for e, pc in st.event_list():
            if e[0] == 'undef' and isinstance(e[1], str) and not e[1].startswith('.'):
                if not any(x[1].args[0] in ('UnboundLocalError', C('UnboundLocalError')) for x in r.raises if isinstance(x[1], T)) and e not in done:
                    done.add(e)
                    ctx.violation(f'{unit}: {e[2][2]} name {e[1]}', f'{e[2][0]}:{e[2][1]} uses {e[1]}, which is bound nowhere')
            elif e[0] == 'maybe_undef' and e not in done:
                done.add(e)
                p = possible(conj(e[3], *[c if v else neg_c(c) for c, v in pc if c.op != 'inloop']))
                if p is None:
                    p = possible(e[3]) and None
                key = f'{unit}: {e[2][2]} {e[1]} bound'
                if p is False:
                    ctx.discharge(key)
                elif p is None:
                    ctx.undecided(key, 'too many conditions')
                else:
                    ctx.violation(key, f'{e[2][0]}:{e[2][1]} uses {e[1]}, unbound when {show(e[3], 160)}', f'{e[2][0]}:{e[2][1]}')
            elif e[0] == 'bad_unpack' and e not in done:
                done.add(e)
                ctx.violation(f'{unit}: {e[-1][2]} unpacking', f'{e[-1][0]}:{e[-1][1]} unpacks {show(e[1], 60)} into {show(e[2], 20)} names')
    for q in sorted(f'{m}.{q}' for m, q in r.I.called):
        if q not in seen:
            ctx.discharge(f'{unit}: {q}')


def last(st):
    for c, v in reversed(st.pc):
        if not (isinstance(c, T) and c.op == 'inloop'):
            return c if v else neg_c(c)
    return TRUE


def attempt(ctx, unit, f):
    ctx.unit(unit)
    return report.attempt(ctx, unit, f)


def structure(ctx, nm, make):
    r = attempt(ctx, nm, lambda: readfile(make('<')))
    if r is not None:
        faults(ctx, nm, r)
    r = attempt(ctx, f'{nm}: construction', lambda: readfile(make('<'), query=''))
    if r is not None and r.st is not None:
        ob = var(r, 'r')
        for k, v in r.st.get(ob).d.items() if isinstance(ob, Ref) else ():
            if isinstance(k, str) and not k.startswith('__ext'):
                c = unset(v)
                p = c is not None and possible(conj(c, *[a if b else neg_c(a) for a, b in r.st.pc]))
                if p is None:
                    ctx.undecided(f'{nm}: attribute {k}', 'too many conditions')
                elif p:
                    ctx.violation(f'{nm}: attribute {k}', f'{k} is set on some paths of the constructor only')
                else:
                    ctx.discharge(f'{nm}: attribute {k}')


def unset(v):
    """condition under which it is, or None"""
    if isinstance(v, Undef):
        return TRUE
    if isinstance(v, T) and v.op == 'ite':
        a, b = unset(v.args[1]), unset(v.args[2])
        cs = ([conj(v.args[0], a)] if a is not None else []) + ([conj(neg_c(v.args[0]), b)] if b is not None else [])
        return disj(*cs) if cs else None
    return None


REFS = {'grd': lambda: standard('grd', None, words=packing('none')), 'snd': lambda: standard('snd', [('SNDT', 1, 'real', params(*MERGED))]),
        'sfc': lambda: standard('sfc', 'standard')}


def filtered(ctx, kind):
    cls, meth, _ = KIND[kind]
    qs = {f'{cls}.{meth}({f})': (f'd = r.{meth}({f}={f})', [f]) for f in FILTERS[kind]}
    if kind == 'grd':
        qs[f'{cls}.gdinfo()'] = ('d = r.gdinfo()', [])
        qs[f'{cls}.project_point()'] = ('d = r.project_point(lon, lat)', ['lon', 'lat'])
        for a in ('first', 'LAST'):
            qs[f'{cls}.{meth}({a})'] = (f'd = r.{meth}(date_time={a!r}, date_time2={a!r})', [])
    elif kind == 'snd':
        qs[f'{cls}.sninfo()'] = ('d = r.sninfo()', [])
        qs[f'{cls}.{meth}(first)'] = (f'd = r.{meth}(date_time="FIRST")', [])
        qs[f'{cls}.{meth}(latest)'] = (f'd = r.{meth}(date_time="latest")', [])
    else:
        qs[f'{cls}.sfinfo()'] = ('d = r.sfinfo()', [])
        qs[f'{cls}.nearest_time()'] = ('d = r.nearest_time(t, station_id=s)', ['t', 's'])
        qs[f'{cls}.nearest_time(number)'] = ('d = r.nearest_time(t, station_number=s)', ['t', 's'])
        qs[f'{cls}.nearest_time(state)'] = ('d = r.nearest_time(t, state=s)', ['t', 's'])
        qs[f'{cls}.nearest_time(country)'] = ('d = r.nearest_time(t, country=s)', ['t', 's'])
        qs[f'{cls}.nearest_time(bbox)'] = ('d = r.nearest_time(t, bbox=s)', ['t', 's'])
        qs[f'{cls}.{meth}(last)'] = (f'd = r.{meth}(date_time="LAST")', [])
    for unit, (q, syms) in qs.items():
        r = attempt(ctx, unit, lambda: readfile(REFS[kind](), query=q, syms=['path'] + syms))
        if r is not None:
            faults(ctx, unit, r)


def vgf(ctx, kinds):
    for kd in kinds:
        fixed = {1: kd[1], 2: kd[0], 6: kd[2]}

        def rd(data, off, code):
            c = base_const(off)
            return C(fixed[c]) if c is not None and code in ('B', 'b') and fixed.get(c) is not None else None
        unit = 'VGF ' + kname(kd)
        r = attempt(ctx, unit, lambda: program('from gempakio import VectorGraphicFile\nv = VectorGraphicFile(path)\n', ['path'],
                                               I=Interp(repo=os.path.join(REPO, 'src'), assume_rd=rd)))
        if r is not None:
            faults(ctx, unit, r)


def writers(ctx, kind):
    c = attempt(ctx, f'{CLIENT[kind][0]} and {CLIENT[kind][3]}', lambda: Case(kind, 'datetime').comp())
    if c is not None and c.r is not None:
        faults(ctx, f'{CLIENT[kind][0]} and {CLIENT[kind][3]}', c.r)


# ------------------------------------------------------------------ rejections
def told(x):
    return show(x[1], 200)


def stored(d):
    """anything read where a data pointer leads"""
    return any(isinstance(x, T) and x.op in ('rd', 'arr', 'bytes') and any(isinstance(y, T) and y.op == 'rd' for y in subterms(x.args[1])) for x in subterms(d))


def rejected(ctx):
    def word(off, v):
        def words(ref, o, code):
            return C(v) if o == C(off) and (isinstance(v, bytes) or code[-1] in 'iI') else None
        return words
    snd = lambda **k: standard('snd', [('SNDT', 1, 'real', params(*MERGED))], **k)
    sfc = lambda **k: standard('sfc', 'standard', **k)
    grd = lambda **k: standard('grd', None, **k)

    def magic(ref, o, code):
        return C(b'HDF5'.ljust(int(code[:-1]))) if o == C(0) and code[-1] == 's' else None

    def head(v):
        def words(ref, o, code):
            return C(v) if o == C(28 + 4 * 16) and code[-1] in 'iI' else None
        return words
    tries = []
    for kind, mk in (('grd', grd), ('snd', snd), ('sfc', sfc)):
        cls = KIND[kind][0]
        tries.append((f'{cls}: not a GEMPAK file', lambda mk=mk: mk(words=magic)))
        for other in 'grd', 'snd', 'sfc':
            if other != kind:
                tries.append((f'{cls}: file of type {KIND[other][2]}', lambda mk=mk, other=other: mk(words=head(KIND[other][2]))))
    ref = grd()
    navw, anlw = ref.nav_size, ref.anl_size
    tries.append(('GempakGrid: navigation block of another size', lambda: grd(words=word(navw, 255))))
    tries.append(('GempakGrid: analysis block of another size', lambda: grd(words=word(anlw, 64))))
    for p in ('nmc', 'grib2'):
        tries.append((f'GempakGrid: {p} packing', lambda p=p: grd(words=packing(p))))
    tries.append(('GempakGrid: unknown packing', lambda: grd(words=packing(7))))

    def proj(ref, o, code):
        return C(b'XYZ'.ljust(int(code[:-1]))) if code[-1] == 's' and o == C(ref.nav + 4) else None
    tries.append(('GempakGrid: unknown projection', lambda: grd(words=proj)))
    for ty in ('integer', 'grid'):
        tries.append((f'GempakSounding: merged data of type {ty}', lambda ty=ty: standard('snd', [('SNDT', 1, ty, params(*MERGED))])))
        tries.append((f'GempakSounding: unmerged data of type {ty}', lambda ty=ty: standard('snd', [('TTAA', 1, ty, params(*MERGED)), ('PPAA', 1, ty, params('PRES', 'DRCT', 'SPED'))])))
        for v in ('standard', 'ship', 'climate'):
            tries.append((f'GempakSurface: {v} data of type {ty}', lambda ty=ty, v=v: standard('sfc', v, parts=[('SFDT', 1, ty, params('PMSL', 'TEMP'))])))
    tries.append(('GempakSounding: merged data of type character', lambda: standard('snd', [('SNDT', 1, 'character', params(*MERGED))])))
    tries.append(('GempakSounding: merged data without a vertical coordinate', lambda: standard('snd', [('SNDT', 1, 'real', params('TEMP', 'DWPT'))])))
    tries.append(('GempakSurface: keys of no known layout', lambda: RefFile('sfc', ['GVER'], ['STID'], [('SFDT', 1, 'real', params('PMSL', 'TEMP'))])))
    usual = {told(x) for k in REFS for x in readfile(REFS[k]()).raises}
    for unit, mk in tries:
        r = attempt(ctx, unit, lambda: readfile(mk()))
        if r is None:
            continue
        faults(ctx, unit, r)
        own = [x for x in r.raises if not internal(x[1])]
        if r.st is None:
            if own:
                ctx.discharge(f'{unit}: rejected')
            elif not r.raises:
                ctx.undecided(f'{unit}: rejected', 'no path ends')
            continue
        d = r.I.ext.freeze(r.st, var(r, 'd'))
        if d == T('list') or ('data of type' in unit and not stored(d)):
            if any(told(x) not in usual or 'without' in unit and 'matched' not in told(x) for x in own):
                ctx.discharge(f'{unit}: rejected')
            else:
                ctx.violation(f'{unit}: accepted', 'is read as nothing, without an error')
        else:
            ctx.violation(f'{unit}: accepted', f'is read as {show(d, 120)}')
