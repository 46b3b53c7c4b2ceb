"""C10: calls neither modify nor retain what the caller passes.

Modification: client programs call every public operation that takes an array, a
list or a dictionary.  No change (assignment to an element, in-place operator or
method, output argument) may reach an array of the caller or a view of it, on
any path, raising ones included; lists and dictionaries the client builds must
hold the same terms afterwards.

Retention: the client changes what it passed between handing it over and
writing.  For an array, everything the library still holds of it by reference
(the array or a view of it, not a copy, not a value computed from it) becomes
the changed array.  What is written must be the same terms."""
from ..gemcheck import *
from ..vgfwrite import *
from ..report import attempt, fan
from ..reffile import *
from .c08 import limited
from .c09 import given
from .c12 import content, judge, vague
from .c13 import symcall
from .c14 import show

# what shares memory with its first argument
VIEWS = {'asarray', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.asfortranarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d',
         'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'numpy.swapaxes', 'numpy.moveaxis', 'numpy.flipud', 'numpy.fliplr', 'numpy.flip',
         'numpy.rot90', 'numpy.expand_dims', 'numpy.broadcast_to', 'numpy.ma.array', 'numpy.ma.asarray', 'numpy.ma.masked_array', 'numpy.ma.asanyarray',
         'numpy.ma.getdata', 'numpy.require', 'm.reshape', 'm.ravel', 'm.view', 'view', 'm.transpose', 'm.squeeze', 'm.swapaxes', 'm.__array__', 'setitem', 'memoryview', 'numpy.frombuffer'}
INDEXED = ('getitem', 'item', 'elemof')
WHOLE = ('T', 'flat', 'base', 'real', 'imag', 'data', 'values')


class Caller(Interp):
    """an interpreter in which a client can change an array it passed"""
    copies = True

    def call(self, st, f, args, kw, node):
        if isinstance(f, T) and f.op == 'arg' and f.args[0] == C('changes'):
            for a in args:
                self.change(st, a)
            return NONE
        return super().call(st, f, args, kw, node)

    def change(self, st, x):
        x = self.resolve(st, x)
        new = T('changed', x)

        def value(v):
            if isinstance(v, Tup):
                items = [value(y) for y in v.items]
                return v if all(a is b for a, b in zip(items, v.items)) else Tup(items, v.nt)
            return self.held(v, x, new) if isinstance(v, T) else v

        def seg(s):
            if isinstance(s, V):
                return value(s)
            return tuple(seg(y) for y in s) if isinstance(s, (tuple, list)) else s
        for a in list(st.heap):
            ob = st.heap[a]
            if ob.kind == 'obj':
                for k, v in list(ob.d.items()):
                    nv = value(v) if isinstance(v, V) else v
                    if nv is not v and nv != v:
                        st.mut(Ref(a)).d[k] = nv
            elif ob.kind in ('seq', 'dict'):
                ns = tuple(seg(s) for s in ob.segs)
                if ns != ob.segs:
                    st.mut(Ref(a)).segs = ns

    def held(self, v, x, new):
        """v with what it refers to of x replaced"""
        if v == x:
            return new
        if not isinstance(v, T) or not v.args:
            return v
        if v.op in ('list', 'tuple', 'dict', 'rep', 'altseg', 'kv', 'spread'):
            return T(v.op, *[self.inside(a, x, new) for a in v.args])
        if v.op in ('ite', 'phi'):
            return T(v.op, *[self.held(a, x, new) if i else a for i, a in enumerate(v.args)])
        if shares(self, v):
            return T(v.op, self.held(v.args[0], x, new), *v.args[1:])
        return v

    def inside(self, a, x, new):
        return tuple(self.inside(b, x, new) for b in a) if isinstance(a, tuple) else self.held(a, x, new) if isinstance(a, T) else a


def truth(v):
    return not (isinstance(v, C) and not v.v)


def shares(I, v):
    """the value is a view of its first argument"""
    if v.op in VIEWS:
        return True
    if v.op == 'astype':
        return v in I.nocopy
    if v.op == 'numpy.array':
        return any(isinstance(a, T) and a.op == 'kw' and a.args[0] == C('copy') and truth(a.args[1]) is False for a in v.args[1:])
    if v.op in ('getitem', 'attr'):
        k = v.args[1]
        if v.op == 'attr':
            return isinstance(k, C) and k.v in WHOLE
        ks = k.items if isinstance(k, Tup) else [k]
        # an index by position alone is a number only of an array of as many dimensions
        return any(isinstance(y, T) and y.op == 'slice' or isinstance(y, C) and (y.v is None or y.v is Ellipsis or y.v == '...ellipsis') for y in ks)
    return False


def roots(I, v):
    """caller's values the object changed may be"""
    if not isinstance(v, T):
        return set()
    if v.op == 'arg':
        return {v.args[0].v}
    if v.op in ('ite', 'phi'):
        return set().union(*[roots(I, a) for a in v.args[1:]]) if len(v.args) > 1 else set()
    if shares(I, v) or v.op in INDEXED or v.op in ('m.get', 'm.setdefault', 'm.values', 'm.items', 'changed', 'closed') or v.op == 'attr':
        return roots(I, v.args[0])
    return set()


def run(ctx):
    ctx.floor = 40
    ctx.rule('not modified', 'no assignment to an element, in-place operator, in-place method or output argument reaches an array of the caller or a view of it; lists and dictionaries passed hold the same terms afterwards')
    ctx.rule('not retained', 'what is written is the same terms if the caller changes what it passed before the write')
    ctx.rule('in place', 'a helper that fills a sounding assigns only to the profiles it is for')
    jobs = [lambda c, k=k: gempak(c, k) for k in ('snd', 'sfc', 'grd')]
    jobs += [lambda c, k=k: vgf(c, k) for k in WRITE]
    jobs += [helpers, structs]
    for nm in STRUCTS:
        jobs.append(lambda c, nm=nm: limited(100000 if 'unmerged' in nm else 20000000, queries, c, nm))
    fan(ctx, jobs)


def interp(cond=None):
    return Caller(repo=os.path.join(REPO, 'src'), assume_cond=cond)


def muts(r, names):
    """[(argument changed, how, site)] on any path"""
    seen = []
    for st in [r.st] + [x[0] for x in r.raises]:
        if st is None:
            continue
        for e, pc in st.event_list():
            if e[0] != 'mut' or isinstance(e[1], Ref):
                continue
            for n in roots(r.I, e[1]) & set(names):
                x = (n, e[2], e[3])
                if x not in seen:
                    seen.append(x)
    return seen


def unmodified(ctx, unit, r, names, lists=(), before=None):
    """nothing of the caller is changed"""
    bad = muts(r, names)
    for n, how, site in bad:
        ctx.violation(f'{unit}: {n} {how} in {site[2]}', f'the caller\'s {n} is changed in place ({how}) in {site[2]}, line {site[1]}')
    for n in names:
        if not any(b[0] == n for b in bad):
            ctx.discharge(f'{unit}: {n}')
    for n in lists:
        k = f'{unit}: {n}'
        want = before[n]
        for what, st in [('', r.st)] + [(f' (raising {show(x[1], 40)})', x[0]) for x in r.raises]:
            if st is None:
                continue
            v = st.get(r.env).d.get(n)
            if not isinstance(v, Ref):
                continue    # raised before the client made it
            got = r.I.ext.deep(st, v)
            if got == want:
                ctx.discharge(k + what)
            elif vague(got):
                by = [e for e, pc in st.event_list() if e[0] == 'mut' and e[1] == v and str(e[3][0]).startswith('gempakio')]
                if by:
                    ctx.violation(k + what, f'the caller\'s {n} is changed in place ({by[0][2]}) in {by[0][3][2]}, line {by[0][3][1]}')
                else:
                    ctx.undecided(k + what, 'not fully interpreted')
            else:
                ctx.violation(k + what, f'the caller\'s {n} holds {show(got, 120)} afterwards instead of {show(want, 100)}')


# ------------------------------------------------------------------- writers
# kind -> names of array arguments
ARRAYS = {'snd': ['a1', 'a2'], 'sfc': [], 'grd': ['lon', 'lat', 'grid']}
BUILT = {'snd': "ps = [p1, p2]\ndata = {'PRES': a1, 'TEMP': a2}\ninfo = {'station_id': sid, 'elevation': selv}\n",
         'sfc': "ps = [p1, p2]\ndata = {'PMSL': a1, 'TEMP': a2}\ninfo = {'station_id': sid, 'elevation': selv}\n", 'grd': ''}
LISTS = {'snd': ['ps', 'data', 'info'], 'sfc': ['ps', 'data', 'info'], 'grd': []}
MAKE = {'snd': "f = SoundingFile(['PRES', 'TEMP'])\n", 'sfc': "f = SurfaceFile(['PMSL', 'TEMP'])\n"}
PARM = {'snd': 'f = SoundingFile(ps)\n', 'sfc': 'f = SurfaceFile(ps)\n'}
XYMAKE = 'f = GridFile(lon, lat, proj, use_xy=True)\n'
AFTER = {'snd': ["changes(a1)\nchanges(a2)\n", "data['PRES'] = other\n", 'data.clear()\n', "info['station_id'] = other\n", 'info.clear()\n'],
         'sfc': ["data['PMSL'] = other\n", 'data.clear()\n', "info['station_id'] = other\n", 'info.clear()\n'],
         'grd': ['changes(grid)\n', 'changes(lat)\nchanges(lon)\n']}
MORE = ['p1', 'p2', 'a1', 'a2', 'sid', 'selv', 'other', 'anydata', 'anyinfo', 'changes']


def held(r, n):
    return r.I.ext.deep(r.st, var(r, n))


def gempak(ctx, kind):
    cls, make, addc, *_ = CLIENT[kind]
    imp = f'from gempakio.encode.gempak import {cls}\n'
    made = MAKE.get(kind, make + '\n')
    add, write = addc.format('') + '\n', 'f.to_gempak(path)\n'
    syms = [s for s in SYMS if s not in ('data', 'info') or kind == 'grd'] + MORE

    def client(src, case=None):
        return program(imp + src, syms, I=interp((case or Case(kind, 'datetime')).cond))
    unit = f'{cls}: add and write'
    ctx.unit(unit)
    r0 = client(BUILT[kind])
    before = {n: held(r0, n) for n in LISTS[kind]}
    for dt in ('datetime', 'str'):
        r = attempt(ctx, unit, lambda: client(BUILT[kind] + made + add + write, Case(kind, dt)))
        if r is not None:
            unmodified(ctx, f'{unit} ({dt})', r, ARRAYS[kind], LISTS[kind][1:], before)
    if kind == 'grd':
        r = attempt(ctx, unit, lambda: client(XYMAKE + add + write))
        if r is not None:
            unmodified(ctx, f'{unit} (x, y)', r, ARRAYS[kind])
    else:
        r = attempt(ctx, unit, lambda: client(BUILT[kind] + PARM[kind]))
        if r is not None:
            unmodified(ctx, f'{cls}: parameters', r, [], ['ps'], before)
        r = attempt(ctx, unit, lambda: client(f'f = {cls}(other)\n'))
        if r is not None:
            unmodified(ctx, f'{cls}: parameters of any kind', r, ['other'])
        r = attempt(ctx, unit, lambda: client(made + add.replace('data', 'anydata').replace('info', 'anyinfo')))
        if r is not None:
            unmodified(ctx, f'{cls}: data of any kind', r, ['anydata', 'anyinfo'])
        empty = BUILT[kind].split('info = ')[0] + 'info = {}\n'
        r = attempt(ctx, unit, lambda: client(empty + made + add))
        if r is not None:
            unmodified(ctx, f'{cls}: no station information', r, [], ['info'], {'info': held(client('info = {}\n'), 'info')})
    progs = [(BUILT[kind] + made + add, a, '') for a in AFTER[kind]]
    if kind == 'grd':
        progs += [(made, 'changes(lat)\nchanges(lon)\n', add), (XYMAKE, 'changes(lat)\nchanges(lon)\n', add), (XYMAKE + add, 'changes(lat)\nchanges(lon)\n', '')]
    else:
        progs += [(BUILT[kind] + PARM[kind], a, add) for a in ('ps.clear()\n', 'ps[0] = other\n', 'ps.append(other)\n')]
    for first, change, rest in progs:
        unit = f'{cls}: ' + change.strip().replace('\n', ', ') + (' before the entry is added' if rest else ' before the write') + (' (x, y)' if first.startswith(XYMAKE) else '')
        ctx.unit(unit)
        retained(ctx, unit, lambda s: client(first + s + rest + write), change)


def retained(ctx, unit, client, change):
    want = attempt(ctx, unit, lambda: content(client('')))
    got = attempt(ctx, unit, lambda: content(client(change)))
    if want is None or got is None:
        ctx.undecided(unit, 'no file is written')
    else:
        judge(ctx, unit, 'a change by the caller', want, got)


def vgf(ctx, cls):
    imp = f'from {MODV} import {cls}, VGFile\n'
    args = WRITE[cls][1]
    make = f'e = {cls}({args})\n'
    tail = 'f = VGFile()\nf.add_element(e)\nf.to_vgf(path)\n'
    listy = cls in ('Line', 'SpecialLine', 'Front')
    syms = args.split(', ') + ['path', 'changes', 'other', 'x1', 'x2', 'x3', 'y1', 'y2', 'y3']

    def client(src):
        return program(imp + src, syms, I=interp())
    unit = f'{cls}: make and write'
    ctx.unit(unit)
    if listy:
        r = attempt(ctx, unit, lambda: client(make + tail))
        if r is not None:
            unmodified(ctx, unit, r, ['lon', 'lat'])
        retained(ctx, f'{cls}: coordinates changed', lambda s: client(make + s + tail), 'changes(lat)\nchanges(lon)\n')
        built = 'lons = [x1, x2, x3]\nlats = [y1, y2, y3]\n'
        make2 = make.replace('lon, lat', 'lons, lats')
        r0 = client(built)
        before = {n: r0.I.ext.deep(r0.st, var(r0, n)) for n in ('lons', 'lats')}
        r = attempt(ctx, unit, lambda: client(built + make2 + tail))
        if r is not None:
            unmodified(ctx, f'{unit} (lists)', r, [], ['lons', 'lats'], before)
        retained(ctx, f'{cls}: coordinate lists changed', lambda s: client(built + make2 + s + tail), 'lons[0] = other\nlats.append(other)\n')
    el = 'es = [e]\n'
    retained(ctx, f'{cls}: list of elements changed', lambda s: client(make + el + 'f = VGFile.from_elements(*es)\n' + s + 'f.to_vgf(path)\n'), 'es.clear()\n')


# ------------------------------------------------------------------- helpers
FILLS = {'interp_logp_height': ['HGHT'], 'interp_logp_pressure': ['PRES'], 'interp_moist_height': ['HGHT'], 'interp_missing_data': ['TEMP', 'DWPT', 'DRCT', 'SPED']}
PURE = {'interp_parameters': 'vlev, adata, bdata', 'mixing_ratio': 'dwpc, pres', 'moist_hydrostatic_height': 'z_bot, pres_bot, pres_top, scale_height',
        'scale_height': 'tmpc_bot, tmpc_top, dwpc_bot, dwpc_top, pres_bot, pres_top', 'vapor_pressure': 'dwpc', 'virtual_temperature': 'tmpc, dwpc, pres'}


def helpers(ctx):
    for fn, args in PURE.items():
        ctx.unit(fn)
        names = args.split(', ')
        r = attempt(ctx, fn, lambda: program(f'from gempakio.gemcalc import {fn}\nd = {fn}({args}, missing)\n', names + ['missing'], I=interp()))
        if r is not None:
            unmodified(ctx, fn, r, names)
    for fn, mine in FILLS.items():
        ctx.unit(fn)
        r = attempt(ctx, fn, lambda: program(f'from gempakio.gemcalc import {fn}\n{fn}(sounding, missing)\n', ['sounding', 'missing'], I=interp()))
        if r is None:
            continue
        bad, hit = [], set()
        for st in [r.st] + [x[0] for x in r.raises]:
            for e, pc in (st.event_list() if st is not None else ()):
                if e[0] != 'mut' or isinstance(e[1], Ref) or 'sounding' not in roots(r.I, e[1]):
                    continue
                t, keys = e[1], set()
                while isinstance(t, T) and t.op in INDEXED + ('setitem',):
                    if t.op in INDEXED and isinstance(t.args[1], C) and isinstance(t.args[1].v, str):
                        keys.add(t.args[1].v)
                    t = t.args[0]
                if e[2] == 'setitem' and keys and keys <= set(mine):
                    hit |= keys
                elif (e[2], e[3]) not in bad:
                    bad.append((e[2], e[3]))
                    ctx.violation(f'{fn}: {e[2]} of {sorted(keys) or "the sounding"}', f'{fn} changes {sorted(keys) or "the sounding itself"} ({e[2]}), line {e[3][1]}')
        for k in mine:
            if k in hit:
                ctx.discharge(f'{fn}: {k}')
        if not bad:
            ctx.discharge(f'{fn}: nothing else')
    ctx.unit('pack_grib')
    r = attempt(ctx, 'pack_grib', lambda: program('from gempakio.encode.gempak import pack_grib\nd = pack_grib(grid, missing)\n', ['grid', 'missing'], I=interp()))
    if r is not None:
        unmodified(ctx, 'pack_grib', r, ['grid'])


def structs(ctx):
    """what is passed to the buffer and structure classes"""
    made = "info = [('a', 'i'), (None, '4x'), ('b', 'f', conv)]\n"
    for what, head, src, change, res in [
            ('NamedStruct', 'from gempakio.tools import NamedStruct\n', "s = NamedStruct(info, '>')\n", 'info.clear()\n', 'd = s.unpack(data)\ne = s.size\n'),
            ('OrderedSet', 'from gempakio.tools import OrderedSet\n', 's = OrderedSet(info)\n', 'info.clear()\n', 'd = list(s)\ne = len(s)\n')]:
        ctx.unit(what)
        syms = ['data', 'conv']
        r0 = program(head + made, syms, I=interp())
        before = {'info': r0.I.ext.deep(r0.st, var(r0, 'info'))}
        a = attempt(ctx, what, lambda: program(head + made + src + res, syms, I=interp()))
        b = attempt(ctx, what, lambda: program(head + made + src + change + res, syms, I=interp()))
        if a is None or b is None or a.st is None or b.st is None:
            ctx.undecided(what, 'never completes')
            continue
        unmodified(ctx, what, a, [], ['info'], before)
        for n in 'de':
            x, y = (r.I.ext.deep(r.st, var(r, n)) for r in (a, b))
            if x == y:
                ctx.discharge(f'{what}: {n} after a change')
            elif vague(x, y):
                ctx.undecided(f'{what}: {n} after a change', 'not fully interpreted')
            else:
                ctx.violation(f'{what}: {n} after a change', f'clearing the list passed changes the result from {show(x, 80)} to {show(y, 80)}')


# ------------------------------------------------------------------- queries
STRUCTS = variants()
LISTABLE = {'grd': ['parameter', 'date_time', 'coordinate', 'level', 'date_time2', 'level2'],
            'snd': ['station_id', 'station_number', 'date_time', 'state', 'country', 'bbox'],
            'sfc': ['station_id', 'station_number', 'date_time', 'state', 'country', 'bbox']}
QUERY = {'grd': 'gdxarray', 'snd': 'snxarray', 'sfc': 'sfjson'}


def queries(ctx, nm):
    make = STRUCTS[nm]
    kind = make('<').kind
    calls = [f'd = r.{QUERY[kind]}({p}=x)\n' for p in LISTABLE[kind]]
    if kind == 'sfc':
        calls += [f'd = r.nearest_time(dt, {p}=x)\n' for p in LISTABLE[kind] if p != 'date_time']
    for q in calls:
        unit = f'{nm}: {q[6:].strip()}'
        ctx.unit(unit)
        n = 4 if 'bbox' in q else 2
        built = 'x = [' + ', '.join(f's{i}' for i in range(n)) + ']\n'
        syms = ['path', 'dt'] + [f's{i}' for i in range(4)]
        r0 = program(built, syms)
        before = {'x': r0.I.ext.deep(r0.st, var(r0, 'x'))}
        r = attempt(ctx, unit, lambda: read(make('<'), query=built + q, syms=syms, cond=given))
        if r is None:
            continue
        if r.st is None and not r.raises:
            ctx.undecided(unit, 'never completes')
            continue
        unmodified(ctx, unit, r, [], ['x'], before)
