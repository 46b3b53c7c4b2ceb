"""C14: a rejected change leaves the object as it was.

Client programs call the method, or assign the attribute, with symbolic values.
At every raise the object (with everything it owns) is compared with the object
before the call; and on every path no operation that raises for some of the
caller's values comes after the first change of the object's own state."""
from ..gemcheck import *
from ..vgfwrite import *
from .c15 import RANGE, BOTH, call

EXTRA = ('slat', 'slon', 'dt', 'grid', 'pn', 'vc', 'lev', 'lev2', 'dt2', 'data', 'info')


def run(ctx):
    ctx.floor = 60
    ctx.rule('state at raise', 'in every state in which the call raises, each attribute of the object, with everything it owns, has the value it had before the call')
    ctx.rule('no failure after change', 'after the first change of the object no conversion, look-up, sort or unpacking that fails for some caller values is evaluated on the same path')
    ctx.rule('scratch', 'an attribute changed by a rejected call is harmless only if no later addition or write ever looks at the value it was left with')
    for kind in ('snd', 'sfc', 'grd'):
        adds(ctx, kind)
    for cls in WRITE:
        ctx.unit(cls)
        table = sorted(set(RANGE[cls]) | set(BOTH) | setters(cls))
        for a in table:
            setter(ctx, cls, a, {'text_type': '7'} if a == 'turbulence_symbol' else {})


def setters(cls):
    """assignable properties of a class and its bases in its module"""
    with open(os.path.join(REPO, 'src', *MODV.split('.')) + '.py') as f:
        defs = {n.name: n for n in ast.parse(f.read()).body if isinstance(n, ast.ClassDef)}
    out, todo = set(), [cls]
    while todo:
        c = defs.get(todo.pop())
        if c is not None:
            todo += [b.id for b in c.bases if isinstance(b, ast.Name)]
            out |= {n.name for n in c.body if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Attribute) and d.attr == 'setter' for d in n.decorator_list)}
    return out


def run2(pre, post, syms):
    """states before and after the change"""
    A, B = (Interp(repo=os.path.join(REPO, 'src')) for _ in (0, 1))
    A.trace_may = B.trace_may = True
    return program(pre, syms, I=A), program(pre + post, syms, I=B)


def owned(st, o):
    """addresses of everything reachable from an object"""
    seen, todo = set(), [o]
    while todo:
        v = todo.pop()
        if isinstance(v, Ref):
            if v.a in seen:
                continue
            seen.add(v.a)
            ob = st.get(v)
            if ob.kind == 'obj':
                todo += list(ob.d.values())
            elif ob.kind == 'seq':
                todo += [x for s in ob.segs for x in flat(s)]
            elif ob.kind == 'dict':
                todo += [x for s in ob.segs for x in flat(s)]
        elif isinstance(v, Tup):
            todo += list(v.items)
        elif isinstance(v, T):
            todo += [x for x in subterms(v) if isinstance(x, Ref)]
    return seen


def flat(x):
    if isinstance(x, (tuple, list)):
        return [y for a in x for y in flat(a)]
    return [x] if isinstance(x, V) else []


def exclusive(p, q):
    d = dict((c, v) for c, v in p)
    return any(c in d and d[c] != v for c, v in q)


def changed(r0, r1, o, k0):
    """[(attributes differing from before, exc, site)] at each raise of the call"""
    before = {k: r0.I.ext.deep(r0.st, v) for k, v in r0.st.get(o).d.items()}
    out = []
    for st, exc, site in r1.raises[k0:]:
        ob = st.get(o)
        after = {k: r1.I.ext.deep(st, v) for k, v in ob.d.items()}
        out.append((sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k)), exc, site))
    return out


def attr_of(r0, o, ev):
    """name of the attribute an event changes"""
    if ev[0] == 'setattr':
        return ev[2] if ev[1] == o else None
    a = ev[1].a
    for k, v in r0.st.get(o).d.items():
        if a in owned(r0.st, v):
            return k
    return None


def parts(v):
    """the records a container holds, or the value itself"""
    p = frozenset(x for x in subterms(v) if isinstance(x, Tup) and x.nt)
    return p or v


def late(r0, r1, o, n0):
    """[(attribute, site of change, failing operation, its site)]"""
    mine = owned(r0.st, o)
    evs = r1.st.event_list()[n0:]
    first, out, done = [], [], []
    for e, pc in evs:
        if e[0] in ('setattr', 'mut') and isinstance(e[1], Ref) and e[1].a in mine:
            first.append((e, pc))
        elif e[0] == 'may':
            if not first:
                done.append((e[1], parts(e[2])))
                continue
            if any(w == e[1] and p == parts(e[2]) for w, p in done):
                continue    # the same operation on the same values has already succeeded
            for f, q in first:
                if not exclusive(q, pc):
                    out.append((attr_of(r0, o, f), f[3] if f[0] == 'mut' else f[-1], e[1], e[2], e[3]))
    return out


def site(s):
    return f'{s[2]}' if isinstance(s, tuple) else str(s)


def adds(ctx, kind):
    cls, make, addc, *_ = CLIENT[kind]
    meth = addc.split('(')[0].split('.')[1]
    n = f'{cls}.{meth}'
    ctx.unit(n)
    syms = SYMS + [s + '1' for s in EXTRA]
    pre = f'from gempakio.encode.gempak import {cls}\n{make}\n{addc.format("")}\n'
    r0, r1 = run2(pre, addc.format('1') + '\n', syms)
    if r0.st is None or r1.st is None:
        return ctx.undecided(n, 'the addition never completes')
    o = var(r0, 'f')
    judge(ctx, n, r0, r1, o, lambda a: scratch(kind, a))


def scratch(kind, attr):
    """the value left in the attribute is never looked at again"""
    cls, make, addc, *_ = CLIENT[kind]
    for tail in ('f.to_gempak(path)\n', addc.format('1') + '\nf.to_gempak(path)\n'):
        src = f'from gempakio.encode.gempak import {cls}\n{make}\n{addc.format("")}\nf.{attr} = stale\n{tail}'
        r = program(src, SYMS + [s + '1' for s in EXTRA] + ['stale'])
        if r.st is None:
            return False

        def uses(v):
            return isinstance(v, V) and any(isinstance(x, T) and x.op == 'arg' and x.args[0] == C('stale') for x in subterms(v))
        for st in [r.st] + [x[0] for x in r.raises]:
            for e, pc in st.event_list():
                if e[0] == 'setattr' and e[2] == attr:
                    continue
                if any(uses(x) for x in e) or any(uses(c) for c, _ in pc):
                    return False
            if any(uses(c) for c, _ in st.pc):
                return False
        ob = r.st.get(var(r, 'f'))
        if any(uses(r.I.ext.deep(r.st, v)) for k, v in ob.d.items() if k != attr):
            return False
    return True


def judge(ctx, n, r0, r1, o, harmless):
    n0, k0 = len(r0.st.event_list()), len(r0.raises)
    ok = {}

    def fine(a):
        if a not in ok:
            ok[a] = harmless(a)
        return ok[a]
    for df, exc, s in changed(r0, r1, o, k0):
        what = show(exc, 70)
        bad = [a for a in df if not fine(a)]
        k = f'{n}: raise {what}'
        if bad:
            ctx.violation(f'{k}: {",".join(bad)} changed', f'the call is rejected after it changed {", ".join(bad)} (raise in {site(s)}, line {s[1]})')
        else:
            ctx.discharge(k)
    seen, ops_ = set(), {}
    for x in late(r0, r1, o, n0):
        if x[0] is not None and not fine(x[0]):
            ops_.setdefault((x[2], x[3], x[4]), []).append(x)
    for a, s1, what, v, s2 in [x[0] for x in ops_.values()]:
        k = f'{n}: {a} changed before {what} of {show(v, 60)}'
        if k not in seen:
            seen.add(k)
            ctx.violation(k, f'{a} is changed (line {s1[1]}) before {what} of {show(v, 100)} (line {s2[1]}), which fails for some values')
    if not seen:
        ctx.discharge(f'{n}: nothing fails after the first change')


HELD = {}


def holds(cls, over):
    """plain attributes that hold a number"""
    k = (cls, tuple(over.items()))
    if k not in HELD:
        r = program(f'from {MODV} import {cls}\ne = {call(cls, over)}\n', [])
        d = r.st.get(var(r, 'e')).d if r.st is not None else {}
        HELD[k] = [a for a, v in sorted(d.items()) if isinstance(v, C) and isinstance(v.v, (int, float)) and a != '_text_type']
    return HELD[k]


def setter(ctx, cls, a, over):
    tag = f'{cls}.{a}' + (' (turbulence)' if over else '')
    imp = f'from {MODV} import {cls}\n'
    try:
        # what the element holds is symbolic: the state before is any state
        held = holds(cls, over)
        pre = imp + f'e = {call(cls, over)}\n' + ''.join(f'e.{h} = held_{h}\n' for h in held)
        r0, r1 = run2(pre, f'e.{a} = v\n', ['v'] + [f'held_{h}' for h in held])
    except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
        return ctx.undecided(tag, f'analysis failed: {type(e).__name__} {e}')
    if r0.st is None or r1.st is None:
        return ctx.undecided(tag, 'the assignment never completes')
    judge(ctx, tag, r0, r1, var(r0, 'e'), lambda x: False)
