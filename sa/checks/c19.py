"""C19: presence flags, getters, filters and groups of the VGF reader agree.

Every flag, getter and filter is interpreted over a symbolic element list.  What
it yields is a predicate on (class, type) of an element and a list over all
elements in order; the predicate is compared with the reference table on every
class and type."""
from ..drive import *
from ..vgfread import read_kind, flat_elems, base_const
from ..gemcomp import REPO
from .c12 import vague
from .c14 import show
import re

MOD = 'gempakio.decode.vgf'
# name -> (class, type) as in drwids.h and vgstruct.h
WHAT = {
    'fronts': (1, None), 'text': (5, 17), 'special_text': (5, 21), 'symbols': (4, None), 'special_symbols': (4, 15), 'markers': (4, 19),
    'special_lines': (3, 20), 'lines': (3, 1), 'winds': (6, None), 'tracks': (10, None), 'watch_box': (2, None), 'sigmet': (11, None),
    'met': (15, None),
}
CLASSES, TYPES = list(range(17)) + [99], list(range(44)) + [99]
CLIENT = f'''
from {MOD} import VectorGraphicFile, Group
class W(VectorGraphicFile):
    def __init__(self):
        self._elements = els
        self._groups = grps
r = W()
'''
OTHERS = ('vg_class', 'vg_type', 'delete', 'version', 'record_size', 'range_min_lat')
ELS = T('arg', C('els'), '?')


def names():
    """has_X and get_X defined by the reader class"""
    tree = ast.parse(open(os.path.join(REPO, 'src', 'gempakio', 'decode', 'vgf.py'), encoding='utf-8').read())
    has, get = set(), set()
    for n in tree.body:
        if isinstance(n, ast.ClassDef) and n.name == 'VectorGraphicFile':
            for f in n.body:
                nm = getattr(f, 'name', None) or next((t.id for t in getattr(f, 'targets', ()) if isinstance(t, ast.Name)), '')
                if nm.startswith('has_'):
                    has.add(nm[4:])
                elif nm.startswith('get_') and nm != 'get_group':
                    get.add(nm[4:])
    return has, get


# ------------------------------------------------------------------ evaluation
def isattr(x, name):
    return (type(x).__name__ == 'BExt' and x.name == name) or (isinstance(x, T) and x.op == 'attr' and x.args[1] == C(name))


def owner(x):
    return x.recv if type(x).__name__ == 'BExt' else x.args[0]


def ev(t, m):
    """term under an assignment of element attributes, folded"""
    def f(x):
        for k, v in m.items():
            if isattr(x, k):
                return v
        return None
    return fold(subst(t, f))


def spread(items):
    """items with decided alternatives and loops over one element written out, or None"""
    out = []
    for x in items:
        if isinstance(x, T) and x.op == 'altseg':
            if x.args[0] not in (TRUE, FALSE):
                return None
            inner = spread(x.args[1] if x.args[0] == TRUE else x.args[2])
        elif isinstance(x, T) and x.op == 'rep':
            c = x.args[3] if len(x.args) > 3 else TRUE
            if c not in (TRUE, FALSE) or x.args[1] != C(1) or not isinstance(x.args[2], tuple):
                return None
            inner = spread(x.args[2]) if c == TRUE else []
        elif isinstance(x, T) and x.op == 'spread':
            return None
        else:
            inner = [x]
        if inner is None:
            return None
        out += inner
    return out


def fold(t):
    """existence over a list whose elements all satisfy or all fail"""
    if isinstance(t, tuple):
        return tuple(fold(x) for x in t)
    if not isinstance(t, T):
        return t
    a = [fold(x) for x in t.args]
    if t.op == 'len' and a == [ELS]:
        return C(1)
    if t.op == 'count' and len(a) == 4:
        if a[1] in (TRUE, FALSE) and isinstance(a[2], C) and isinstance(a[3], C):
            return C(a[2].v * a[3].v if a[1] == TRUE else 0)
        return T(t.op, *a)
    if t.op in ('list', 'tuple', 'set'):
        out = spread(a)
        return T(t.op, *(a if out is None else out))
    if t.op in ('any', 'all') and len(a) == 1 and isinstance(a[0], T) and a[0].op in ('list', 'tuple', 'set') and all(x in (TRUE, FALSE) for x in a[0].args):
        return C(any(x.v for x in a[0].args)) if t.op == 'any' else C(all(x.v for x in a[0].args))
    if t.op in ('min', 'max') and a and all(isinstance(x, C) for x in a):
        return C((min if t.op == 'min' else max)(x.v for x in a))
    if t.op in ('truth', 'bool', 'is_none') and len(a) == 1:
        x = a[0]
        if isinstance(x, T) and x.op in ('list', 'tuple', 'set') and not any(isinstance(y, T) and y.op in ('rep', 'altseg', 'spread') for y in x.args):
            return FALSE if t.op == 'is_none' else C(bool(x.args))
        if isinstance(x, C):
            return C(x.v is None) if t.op == 'is_none' else C(bool(x.v))
    if t.op == 'eq' and isinstance(a[0], C) and isinstance(a[1], C):
        return C(a[0].v == a[1].v)
    if t.op == 'in' and isinstance(a[0], C) and isinstance(a[1], (T, Tup)):
        xs = a[1].items if isinstance(a[1], Tup) else a[1].args if a[1].op in ('list', 'tuple', 'set', 'frozenset') else None
        if xs is not None and all(isinstance(x, C) for x in xs):
            return C(a[0].v in [x.v for x in xs])
    if t.op == 'ite' and a[0] in (TRUE, FALSE):
        return a[1] if a[0] == TRUE else a[2]
    if t.op == 'not' and a[0] in (TRUE, FALSE):
        return C(not a[0].v)
    return rebuild(t.op, tuple(a)) if any(x is not y for x, y in zip(a, t.args)) else t


def deep(I, st, v, n=0):
    """value with every list in place of its reference"""
    def f(x):
        if isinstance(x, Ref) and n < 8 and x.a in st.heap and st.get(x).kind in ('seq', 'dict'):
            return deep(I, st, I.ext.freeze(st, x), n + 1)
        return None
    v = I.ext.freeze(st, v)
    return plain(plain(subst(v, f)))


def entries(items, bound=()):
    """(element, loops around it) of a list value, whatever the conditions"""
    for x in items:
        if isinstance(x, T) and x.op == 'altseg':
            yield from entries(x.args[1], bound)
            yield from entries(x.args[2], bound)
        elif isinstance(x, T) and x.op == 'rep' and isinstance(x.args[2], tuple):
            yield from entries(x.args[2], bound + (x.args[0],))
        elif isinstance(x, T) and x.op != 'spread':
            yield x, bound


def whole(v):
    """why a list value does not run over all elements in order (certain reasons only)"""
    for l in subterms(v):
        if not (isinstance(l, T) and l.op in ('list', 'tuple')):
            continue
        for x, bound in entries(l.args):
            if x.op != 'elemof' or vague(x):
                continue
            src, ix = x.args
            if src == ELS and isinstance(ix, T) and ix.op == 'idx' and ix.args[0] not in bound:
                return 'at most one element is yielded'
            if isinstance(src, T) and src.op in ('reversed', 'sorted') and src.args[0] == ELS:
                return f'the elements are {src.op}'
            if src == ELS and isinstance(ix, T) and ix.op == 'perm':
                return 'the elements are sorted'
            if isinstance(src, T) and src.op == 'getitem' and src.args[0] == ELS and isinstance(src.args[1], T) and src.args[1].op == 'slice' and all(isinstance(y, C) for y in src.args[1].args):
                return f'only elements[{src.args[1]!r}] are considered'
    return None


def misplaced(r, v):
    """why a list that is filled in a loop is out of order: some elements are put at its end, others at its front"""
    if r is None or any(isinstance(x, T) and x.op in ('reversed', 'sorted', 'perm', 'deque') for x in subterms(v)):
        return None
    how = {}
    for e, _ in r.st.event_list():
        if e[0] == 'mut':
            how.setdefault(e[1], []).append(e)
    if any(e[2] in ('reverse', 'sort') for l in how.values() for e in l):
        return None
    for o, l in how.items():
        if not any(isinstance(x, T) and x.op == 'exit' and str(o).lstrip('@') in str(x.args[1]).split('#')[-1:] for x in subterms(v)):
            continue
        front = [e for e in l if e[2] == 'insert' and len(e) == 6 and e[4] == C(0) and member(e[5])]
        if front and any(e[2] == 'append' and len(e) == 5 and member(e[4]) for e in l):
            return f'some elements are put at the front, others at the end ({front[0][3][2]} line {front[0][3][1]})'
    return None


def plain(t):
    """els[:] and els[i] as the list and its element"""
    def f(x):
        if isinstance(x, T) and x.op == 'getitem' and x.args[0] == ELS:
            if isinstance(x.args[1], T) and x.args[1].op == 'slice' and set(x.args[1].args) <= {NONE, C(0)} and x.args[1].args[1] == NONE:
                return ELS
            if isinstance(x.args[1], T) and x.args[1].op == 'idx':
                return T('elemof', ELS, x.args[1])
        return None
    return subst(t, f)


def member(v):
    """elements of a list value are elements of the file at the loop index"""
    if isinstance(v, T) and v.op == 'elemof' and v.args[0] == ELS:
        return isinstance(v.args[1], T) and v.args[1].op == 'idx'
    return False


# ----------------------------------------------------------------------- rules
def run(ctx):
    ctx.floor = 20
    ctx.rule('flag', 'has_X is true exactly when an element of class and type X is present')
    ctx.rule('getter', 'get_X returns the elements of class and type X, all of them, in file order, or None when there is none')
    ctx.rule('filter', 'filter_elements keeps exactly the elements whose class and type meet the criteria')
    ctx.rule('group', 'get_group returns one group per group number, each with exactly the elements of that group type and number, in file order')
    ctx.rule('bounds', 'each side of the bounding box is the least or greatest coordinate of that name, over the elements without a zero coordinate')
    ctx.rule('element bounds', 'the bounds of an element are the least latitude and longitude and the greatest latitude and longitude of its points')
    ctx.rule('group types', 'groups lists the group type of every record other than the file header, without zero, each once')
    has, get = names()
    for n in sorted(has | get):
        ctx.unit(n)
        if n not in WHAT:
            pair(ctx, n, n in has, n in get)
            continue
        one(ctx, n, has, get)
    for n in WHAT:
        if n not in has and n not in get:
            ctx.undecided(n, 'neither flag nor getter defined')
    filters(ctx)
    groups(ctx)
    grouptypes(ctx)
    bounds(ctx)
    own_bounds(ctx)


def query(src, syms=()):
    return program(CLIENT + src, ['els', 'grps'] + list(syms))


def table(v, sig=False):
    """{(class, type): folded value} or None where it cannot be folded"""
    out = {}
    if v is None:
        return out
    at = {a for x in subterms(v) for a in ('vg_class', 'vg_type') if isattr(x, a)}
    cs = CLASSES if 'vg_class' in at else [99]
    ts = TYPES if 'vg_type' in at else [99]
    memo = {}
    for c in CLASSES:
        for t in TYPES:
            k = (c if 'vg_class' in at else 99, t if 'vg_type' in at else 99)
            if k not in memo:
                memo[k] = ev(v, {'vg_class': C(k[0]), 'vg_type': C(k[1])})
            out[(c, t)] = memo[k]
    return out


def want(spec, c, t, op='and'):
    k, y = spec
    if k is None and y is None:
        return False
    if k is None or y is None:
        return (k is None or c == k) and (y is None or t == y)
    return (c == k and t == y) if op == 'and' else (c == k or t == y)


def truthy(x):
    if isinstance(x, C):
        return bool(x.v)
    if isinstance(x, T) and x.op in ('list', 'tuple', 'set') and not any(isinstance(y, T) and y.op in ('rep', 'altseg', 'spread') for y in x.args):
        return bool(x.args)
    return None


def one(ctx, n, has, get):
    spec = WHAT[n]
    src = (f'h = r.has_{n}\n' if n in has else '') + (f'g = r.get_{n}()\n' if n in get else '')
    r = query(src)
    if r.st is None:
        return ctx.violation(f'{n}: raises', f'the query raises {show(r.raises[-1][1], 80) if r.raises else ""} on every path')
    if n in has:
        settle(ctx, f'has_{n}', r.I.ext.freeze(r.st, var(r, 'h')) if not isinstance(var(r, 'h'), Ref) else deep(r.I, r.st, var(r, 'h')), spec, flag=True)
    if n in get:
        settle(ctx, f'get_{n}', deep(r.I, r.st, var(r, 'g')), spec, r=r)


def settle(ctx, key, v, spec, flag=False, op='and', r=None):
    tab = table(v)
    wrong, open_ = [], []
    for (c, t), x in tab.items():
        w = want(spec, c, t, op)
        if flag:
            b = truthy(x)
            if b is None:
                open_.append(x)
            elif b != w:
                wrong.append((c, t, x))
            continue
        if x == NONE:
            ok = not w
        elif isinstance(x, T) and x.op in ('list', 'tuple') and truthy(x) is not None:
            if not x.args:
                ok = False if w else None
            elif all(isinstance(y, T) and any(z == ELS for z in subterms(y)) and y.op == 'elemof' for y in x.args):
                ok = w and len(x.args) == 1
            else:
                ok = None
            if ok is None:
                open_.append(x)
                continue
        else:
            open_.append(x)
            continue
        if not ok:
            wrong.append((c, t, x))
    bad = whole(v) or misplaced(r, v)
    if bad:
        ctx.violation(f'{key}: not all elements in order', f'{key}: {bad}')
    elif wrong:
        c, t, x = wrong[0]
        ctx.violation(f'{key}: class {c} type {t}', f'with elements of class {c} and type {t} only, {key} yields {show(x, 80)}')
    elif open_:
        ctx.undecided(key, f'yields {show(open_[0], 100)}')
    else:
        ctx.discharge(key)


def pair(ctx, n, h, g):
    """a flag and getter outside the table need only agree"""
    if not (h and g):
        return ctx.undecided(n, 'not in the reference table')
    r = query(f'h = r.has_{n}\ng = r.get_{n}()\n')
    if r.st is None:
        return ctx.undecided(n, 'raises')
    a, b = table(deep(r.I, r.st, var(r, 'h'))), table(deep(r.I, r.st, var(r, 'g')))
    for k in a:
        x, y = truthy(a[k]), truthy(b[k])
        if x is None or y is None:
            return ctx.undecided(n, show(a[k], 60))
        if x != y:
            return ctx.violation(f'{n}: class {k[0]} type {k[1]}', f'has_{n} is {x} where get_{n} yields {show(b[k], 60)}')
    ctx.discharge(f'{n}: flag and getter agree')


def filters(ctx):
    ctx.unit('filter_elements')
    for k in (1, 3):
        for t in (1, 2):
            for src, spec, op in ((f'vg_class={k}', (k, None), 'and'), (f'vg_type={t}', (None, t), 'and'), (f'{k}, {t}', (k, t), 'and'),
                                  (f'{k}, {t}, "and"', (k, t), 'and'), (f'{k}, {t}, "or"', (k, t), 'or'), (f'vg_type={t}, operation="or"', (None, t), 'or'),
                                  (f'vg_class={k}, operation="or"', (k, None), 'or'), ('', (None, None), 'and')):
                r = query(f'g = r.filter_elements({src})\n')
                if r.st is None:
                    ctx.violation(f'filter_elements({src}): raises', 'a documented call raises')
                    continue
                settle(ctx, f'filter_elements({src})', deep(r.I, r.st, var(r, 'g')), spec, op=op, r=r)
    r = query('g = r.filter_elements(1, 2, "xor")\n')
    if r.st is None:
        ctx.discharge('filter_elements: illegal operation rejected')
    else:
        ctx.violation('filter_elements: illegal operation', 'an operation other than `and` and `or` is accepted')


def groups(ctx):
    ctx.unit('get_group')
    r = query('q = r.get_group(gt)\nk = [[e for e in g.elements] for g in q]\n', ['gt'])
    if r.st is None:
        return ctx.violation('get_group: raises', 'get_group raises on every path')
    v = deep(r.I, r.st, var(r, 'k'))
    # the lists inside: one per group
    lists = [x for x in subterms(v) if isinstance(x, T) and x.op == 'rep' and isinstance(x.args[2], tuple)
             and any(isinstance(y, T) and y.op == 'list' for y in subterms(x.args[2]))]
    inner = {y for x in lists for y in subterms(x.args[2]) if isinstance(y, T) and y.op == 'list' and any(member(z) for z in subterms(y))}
    if not inner:
        return ctx.undecided('get_group', 'contents of a group not resolved')
    GT = T('arg', C('gt'), '?')
    for l in sorted(inner, key=repr):
        wrong = open_ = None
        for t in (3, 4):
            for n, num in ((7, 7), (8, 7), (7, 8), (0, 0), (0, 7), (7, 0)):
                def f(x, t=t, n=n, num=num):
                    if isattr(x, 'group_type'):
                        return C(t)
                    if isattr(x, 'group_number'):
                        return C(n if member(owner(x)) else num)
                    if any(isattr(x, o) for o in OTHERS) and member(owner(x)):
                        return C(99)
                    return C(3) if x == GT else None
                y = fold(subst(l, f))
                w = t == 3 and n == num
                if not isinstance(y, T) or y.op != 'list' or truthy(y) is None:
                    open_ = y
                elif bool(y.args) != w or len(y.args) > 1:
                    wrong = f'an element of group type {"asked for" if t == 3 else "not asked for"} and number {n} is {"kept in" if y.args else "left out of"} group {num}'
        if whole(l):
            ctx.violation('get_group: members', whole(l))
        elif wrong:
            ctx.violation('get_group: members', wrong)
        elif open_ is not None:
            ctx.undecided('get_group: members', show(open_, 120))
        else:
            ctx.discharge('get_group: members')
    # one group per number
    for x in lists:
        n = x.args[1]
        if n in (C(0), T("len", NONE)):
            continue
        if not (isinstance(n, T) and n.op == 'count' and len(n.args) == 4):
            ctx.undecided('get_group: one group per number', show(n, 80))
            continue
        fresh = [y for y in subterms(n.args[3]) if isinstance(y, T) and y.op == 'in' and isattr(y.args[0], 'group_number')]
        if fresh:
            ctx.discharge('get_group: one group per number')
        elif not vague(n):
            ctx.violation('get_group: one group per number', f'the number of groups is {show(n, 120)}')
        else:
            ctx.undecided('get_group: one group per number', show(n, 80))
    members(ctx)


def members(ctx):
    ctx.unit('Group.add_element')
    r = query('g = Group()\ng.add_element(e0)\ng.add_element(e1)\nx = [e for e in g.elements]\nn = g.group_size\ny = [e for e in g]\n', ['e0', 'e1'])
    if r.st is None:
        return ctx.violation('Group: raises', 'adding elements to a group raises on every path')
    e = T('list', T('arg', C('e0'), '?'), T('arg', C('e1'), '?'))
    for nm, src in (('elements', 'x'), ('iteration', 'y')):
        v = deep(r.I, r.st, var(r, src))
        if v == e:
            ctx.discharge(f'Group: {nm}')
        elif isinstance(v, T) and v.op == 'list' and truthy(v) is not None:
            ctx.violation(f'Group: {nm}', f'a group of two elements holds {show(v, 80)}')
        else:
            ctx.undecided(f'Group: {nm}', show(v, 80))
    v = r.I.ext.freeze(r.st, var(r, 'n'))
    if v == C(2):
        ctx.discharge('Group: group_size')
    elif isinstance(v, C):
        ctx.violation('Group: group_size', f'the size of a group of two elements is {v!r}')
    else:
        ctx.undecided('Group: group_size', show(v, 80))
    # elements of another type or number are refused, and no others
    for t in (3, 4):
        for n in (7, 8):
            def f(x, t=t, n=n):
                for k, same, d in (('group_type', 3, t), ('group_number', 7, n)):
                    if isattr(x, k):
                        return C(same) if owner(x) == T('arg', C('e0'), '?') else C(d)
                return None
            hit, open_ = False, False
            for st, exc, s in r.raises:
                vs = [fold(subst(c[0] if isinstance(c, tuple) else c, f)) == C(c[1] if isinstance(c, tuple) else True) for c in tuple(st.pc)]
                raw = [fold(subst(c[0] if isinstance(c, tuple) else c, f)) for c in tuple(st.pc)]
                if any(not isinstance(x, C) for x in raw):
                    open_ = True
                elif all(vs):
                    hit = True
            w = t != 3 or n != 7
            key = f'Group: second element of {"the same" if t == 3 else "another"} type and {"the same" if n == 7 else "another"} number'
            if open_:
                ctx.undecided(key, 'condition not resolved')
            elif hit == w:
                ctx.discharge(key)
            else:
                ctx.violation(key, 'accepted' if w else 'refused')


def grouptypes(ctx):
    for kd in ((3, 1), (1, 2), (4, 15), (5, 21), (10, 26), (0, 22)):
        ctx.unit(f'groups of class {kd[0]} type {kd[1]}')
        key = f'groups: records of class {kd[0]} type {kd[1]}'
        k = read_kind(kd[0], kd[1], repo=os.path.join(REPO, 'src'))
        if k.ref is None:
            ctx.undecided(key, 'the reader never completes')
            continue
        g = k.I.getattr(k.st, k.ref, 'groups')
        segs = k.st.get(g).segs if isinstance(g, Ref) and k.st.get(g).kind == 'seq' else None
        if segs is None:
            ctx.undecided(key, show(k.I.ext.freeze(k.st, g), 80))
            continue
        els = flat_elems(segs)
        if len(els) != 1:
            (ctx.discharge if not els and kd[0] == 0 else ctx.undecided)(*((key,) if not els and kd[0] == 0 else (key, f'{len(els)} places add a group type')))
            continue
        path, v = els[0]
        v = k.I.ext.freeze(k.st, v)
        if not (isinstance(v, T) and v.op == 'rd'):
            ctx.undecided(key, show(v, 80))
            continue
        if base_const(v.args[1]) != 7:
            ctx.violation(key, f'the group type is taken from offset {base_const(v.args[1])} of the record header')
            continue
        conds = [c[1] for c in path if c[0] == 'if' and any(y == v for y in subterms(c[1]))]
        res = {}
        for here in (TRUE, FALSE):
            for num in (0, 1, 5, 255):
                def f(x, here=here, num=num):
                    if isinstance(x, T) and x.op == 'in' and x.args[0] == v:
                        return here
                    return C(num) if x == v else None
                res[here.v, num] = fold(subst(conj(*conds), f))
        if any(x not in (TRUE, FALSE) for x in res.values()):
            ctx.undecided(key, show(conj(*conds), 100))
            continue
        on = {a for a, x in res.items() if x == TRUE}
        if kd[0] == 0:
            (ctx.violation(key, 'the file header adds a group type') if on else ctx.discharge(key))
        elif any(h for h, _ in on):
            ctx.violation(key, 'a group type that is listed is added again')
        elif (False, 0) in on:
            ctx.violation(key, 'group type zero is listed')
        elif len(on) < 3:
            ctx.violation(key, f'group type {min({1, 5, 255} - {n for _, n in on})} is left out')
        else:
            ctx.discharge(key)


def bounds(ctx):
    """the bounding box compares coordinates only, so the orders of two elements' coordinates decide it"""
    ctx.unit('bounds')
    src = CLIENT.replace('= els', '= [e0, e1]') + 'b = r.bounds\n'
    r = program(src, ['grps', 'e0', 'e1'])
    if r.st is None:
        return ctx.violation('bounds: raises', 'bounds raises on every path')
    v = deep(r.I, r.st, var(r, 'b'))
    items = v.items if isinstance(v, Tup) else None
    if items is None or len(items) != 4:
        return ctx.undecided('bounds', show(v, 80))
    NM = ('min_lat', 'min_lon', 'max_lat', 'max_lon')
    E = {T('arg', C('e0'), '?'): 0, T('arg', C('e1'), '?'): 1}

    def at(vals):
        def f(x):
            for k in NM:
                if isattr(x, k) and owner(x) in E:
                    return C(vals[E[owner(x)]][k])
            return None
        return [fold(subst(x, f)) for x in items]
    cases = []
    for hi in range(16):
        a = {k: 10 * (i + 1) + (5 if hi >> i & 1 else 0) for i, k in enumerate(NM)}
        b = {k: 10 * (i + 1) + (0 if hi >> i & 1 else 5) for i, k in enumerate(NM)}
        cases.append((a, b, [(min if i < 2 else max)(a[k], b[k]) for i, k in enumerate(NM)]))
    for which in (0, 1):
        for z in NM:
            e = [{k: 10 * (i + 1) + 3 * j for i, k in enumerate(NM)} for j in (0, 1)]
            e[which][z] = 0
            cases.append((e[0], e[1], [e[1 - which][k] for k in NM]))
    for i, k in enumerate(NM):
        src = {x.name if type(x).__name__ == 'BExt' else x.args[1].v for _, y in leaves(items[i]) for x in subterms(y) if any(isattr(x, n) for n in NM)}
        if src - {k} and not vague(items[i]):
            ctx.violation(f'bounds: {k}', f'{k} of the bounding box may be {sorted(src - {k})[0]} of an element')
            continue
        bad = open_ = None
        for a, b, w in cases:
            g = at((a, b))[i]
            if not isinstance(g, C):
                open_ = g
            elif g.v != w[i]:
                bad = (a, b, g)
        if open_ is not None:
            ctx.undecided(f'bounds: {k}', show(open_, 80))
        elif bad:
            ctx.violation(f'bounds: {k}', f'{k} of the bounding box is {bad[2]!r} for elements with {bad[0]} and {bad[1]}')
        else:
            ctx.discharge(f'bounds: {k}')


WRAP = {'float', 'array', 'asarray', 'atleast_1d', 'ravel', 'list', 'tuple', 'float32', 'float64', 'flatten'}


def extreme(t):
    """(least or greatest, of what) when the term is that, or None"""
    if isinstance(t, Tup) and len(t.items) == 1:
        t = t.items[0]
    if not isinstance(t, T):
        return None
    n = str(t.op).split('.')[-1]
    if n in ('float',) and len(t.args) == 1:
        return extreme(t.args[0])
    for way in ('min', 'max'):
        if n in (way, way + '_of', 'a' + way, 'nan' + way) and len(t.args) == 1:
            x = points(t.args[0])
            return (way, x) if x else None
    if n in ('min', 'max') and len(t.args) > 1 and all(isinstance(a, T) and a.op == 'getitem' and isinstance(a.args[1], C) and points(a.args[0]) for a in t.args):
        return n, 'single ' + ' and '.join(sorted({points(a.args[0]) for a in t.args}))
    if n in ('elemof', 'getitem') and isinstance(t.args[1], C) and points(t.args[0]):
        return 'value', 'single ' + points(t.args[0])
    if n in ('elemof', 'getitem') and isinstance(t.args[1], C) and t.args[1].v in (0, -1) and isinstance(t.args[0], T) and str(t.args[0].op).split('.')[-1] in ('sorted', 'sort') and len(t.args[0].args) == 1:
        x = points(t.args[0].args[0])
        return ('max' if t.args[1].v else 'min', x) if x else None
    return None


def points(t):
    while isinstance(t, T) and t.op != 'arg' and len(t.args) == 1 and str(t.op).split('.')[-1] in WRAP:
        t = t.args[0]
    if isinstance(t, T) and t.op == 'getitem' and isinstance(t.args[1], T) and t.args[1].op == 'slice' and all(isinstance(a, C) for a in t.args[1].args):
        x, (a, b, step) = points(t.args[0]), [a.v for a in t.args[1].args]
        whole = step in (None, 1, -1) and b is None and (a is None or a == 0 and step != -1)
        return x if whole or x is None else 'part of ' + x
    return t.args[0].v if isinstance(t, T) and t.op == 'arg' else None


def own_bounds(ctx):
    ctx.unit('bounds of an element')
    r = program(f'''
from {MOD} import VectorGraphicElement
class E(VectorGraphicElement):
    def __init__(self):
        self.lat = lats
        self.lon = lons
b = E().bounds
''', ['lats', 'lons'])
    if r.st is None:
        return ctx.violation('element bounds: raises', 'bounds of an element raises on every path')
    v = deep(r.I, r.st, var(r, 'b'))
    if not isinstance(v, Tup) or len(v.items) != 4:
        return ctx.undecided('element bounds', show(v, 80))
    for what, want, t in zip(('min_lat', 'min_lon', 'max_lat', 'max_lon'), (('min', 'lats'), ('min', 'lons'), ('max', 'lats'), ('max', 'lons')), v.items):
        got = extreme(t)
        if got == want:
            ctx.discharge(f'element bounds: {what}')
        elif got is None:
            ctx.undecided(f'element bounds: {what}', show(t, 80))
        else:
            ctx.violation(f'element bounds: {what}', f'{what} of an element is the {got[0]} of its {got[1]}')
