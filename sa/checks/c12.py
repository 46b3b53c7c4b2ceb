"""C12: writing is repeatable, independent of when entries were added, and of
other file objects.

Each writer is interpreted over symbolic entries in client programs that differ
only in history (write again, write before the last entry is added, use another
file object in between).  The abstract contents of the last file written - the
sequence of positioned stream writes, or of file writes - must be the same terms
as those of the plain program."""
from ..gemcheck import *
from ..vgfwrite import *
from .c13 import symcall, HELDS
from .c14 import show

LIMITW = {'wide', 'fresh', 'unknown', 'opaque', 'exit', 'hasattr', 'unk'}
SWOPS = ('sw', 'seek', 'getbuffer', 'truncate')


def run(ctx):
    ctx.floor = 10
    ctx.rule('repeat', 'the second write of an unchanged object stores the same terms at the same positions as the first')
    ctx.rule('late entry', 'a write after entries were added between writes stores the same terms as one write after all of them were added')
    ctx.rule('other object', 'creating, filling and writing another file object changes nothing in what this one stores')
    ctx.rule('encode', 'encoding an element again yields the same bytes, and leaves the element as it was')
    for kind in ('snd', 'sfc', 'grd'):
        gempak(ctx, kind)
    for cls in WRITE:
        vgf(ctx, cls)
    several(ctx)


# ------------------------------------------------------------------- programs
def gempak(ctx, kind):
    cls, make, addc, *_ = CLIENT[kind]
    head = f'from gempakio.encode.gempak import {cls}\n'
    loop = f"for k in range(n):\n    {addc.format('[k]')}\n"
    last = addc.format('[n]') + '\n'
    one = addc.format('') + '\n'
    write, other = 'f.to_gempak(path)\n', 'f.to_gempak(path2)\n'
    omake = make.replace('f = ', 'g = ').replace('(lon, lat, proj, rotation=rot)', '(olon, olat, oproj)')
    oadd = re.sub(r'\b(data|slat|slon|dt|info|grid|pn|vc|lev|lev2|dt2)\b', r'o\1', one.replace('f.', 'g.')).replace(')\n', ')\n')
    base = make + '\n'
    case = Case(kind, 'datetime')
    progs = {
        'plain': base + loop + last + write,
        'single': base + one + write,
        'repeat': (base + loop + last + other + write, 'plain', 'writing a second time'),
        'late entry': (base + loop + other + last + write, 'plain', 'writing before the last entry is added'),
        'first entry late': (base + other + one + write, 'single', 'writing before any entry is added'),
        'other object': (base + omake + '\n' + one + oadd + 'g.to_gempak(path2)\n' + write, 'single', 'using another file object'),
        'failed write': (base + one + 'try:\n    f.to_gempak(badpath)\nexcept Exception:\n    pass\n' + write, 'single', 'a write that failed'),
    }
    syms = SYMS + ['path2', 'badpath'] + ['o' + s if isinstance(s, str) else s for s in SYMS if not isinstance(s, tuple)]
    compare(ctx, cls, head, progs, syms, case.cond)


def vgf(ctx, cls):
    head = f'from {MODV} import VGFile, {cls}\ng = VGFile()\ne = {symcall(cls)}\n'
    write, other = 'g.to_vgf(path)\n', 'g.to_vgf(path2)\n'
    progs = {
        'single': 'g.add_element(e)\n' + write,
        'repeat': ('g.add_element(e)\n' + other + write, 'single', 'writing a second time'),
        'late entry': (other + 'g.add_element(e)\n' + write, 'single', 'writing before the element is added'),
        'encode': ('e.encode()\ng.add_element(e)\n' + write, 'single', 'encoding the element first'),
        'other object': ('h = VGFile()\nh.add_element(e)\nh.to_vgf(path2)\ng.add_element(e)\n' + write, 'single', 'writing the element to another file'),
        'from_elements': (f'g = VGFile.from_elements(e)\n' + write, 'single', 'from_elements in place of add_element'),
    }
    syms = [f'held_{a}' for a in HELDS] + ['path', 'path2']
    compare(ctx, cls, head, progs, syms, None)
    # the same for every value of every argument that the constructor accepts
    names = WRITE[cls][1].split(', ')
    full = f'from {MODV} import VGFile, {cls}\ng = VGFile()\ne = {cls}({", ".join(n + "=" + n for n in names)})\ne.group_type = gt\ne.group_number = gn\n'
    compare(ctx, f'{cls}, any arguments', full, progs, names + ['gt', 'gn', 'path', 'path2'], None)


def several(ctx):
    head = f'from {MODV} import VGFile\ng = VGFile()\n'
    loop = 'for k in range(n):\n    g.add_element(els[k])\n'
    last = 'g.add_element(els[n])\n'
    write, other = 'g.to_vgf(path)\n', 'g.to_vgf(path2)\n'
    progs = {
        'plain': loop + last + write,
        'repeat': (loop + last + other + write, 'plain', 'writing a second time'),
        'late entry': (loop + other + last + write, 'plain', 'writing before the last element is added'),
        'other object': ('h = VGFile()\nh.add_element(els[0])\nh.to_vgf(path2)\n' + loop + last + write, 'plain', 'writing another file'),
    }
    compare(ctx, 'VGFile', head, progs, ['els', ('n', 'int'), 'path', 'path2'], None)


def compare(ctx, cls, head, progs, syms, cond):
    done = {}

    def get(name):
        if name not in done:
            src = progs[name]
            src = src[0] if isinstance(src, tuple) else src
            done[name] = content(program(head + src, syms, assume_cond=cond))
        return done[name]
    for name, p in progs.items():
        if not isinstance(p, tuple):
            continue
        ctx.unit(f'{cls}: {name}')
        want, got = get(p[1]), get(name)
        if want is None or got is None:
            why = 'plain' if want is None else name
            ctx.undecided(f'{cls}: {name}', f'no file is written on any path of the {why} program')
            continue
        judge(ctx, f'{cls}: {name}', p[2], want, got)


# ------------------------------------------------------------------- contents
def content(r):
    """canonical [(tag, terms, condition, site)] of the file written last on `path`"""
    if r.st is None:
        return None
    evs = r.st.event_list()
    last = None
    for e, pc in evs:
        if e[0] == 'open' and isinstance(e[1], T) and e[1].op == 'arg' and e[1].args[0] == C('path'):
            last = e[4] if len(e) > 4 else None
    if last is None:
        return None
    lo = [(e, pc) for e, pc in evs if e[0] == 'fwrite' and e[1] == last]
    # what holds on every path on which the file is written is no part of the comparison
    base = set(tuple(lo[0][1])) if lo else set()
    # the stream is the one whose buffer was taken last
    ref = None
    for e, pc in evs:
        if e[0] == 'getbuffer':
            ref = e[1]
    out = []
    for e, pc in evs:
        if ref is not None and e[0] in SWOPS and e[1] == ref or ref is None and e[0] == 'fwrite' and e[1] == last:
            site = e[-1] if isinstance(e[-1], tuple) else ('', 0, '')
            out.append((e[0], [x for x in e[2:] if isinstance(x, V)], [x for x in tuple(pc) if x not in base], site))
    both = []
    for can in (Canon(r.I, [x for o in out for x in o[1] + [y for c in o[2] for y in c if isinstance(y, V)]]), Canon(r.I)):
        both.append([(n, [can(x) for x in v], [can(x) for x in pc], s) for n, v, pc, s in out])
    return both


LOOPOPS = ('idx', 'phi', 'iters', 'pick', 'inloop', 'count', 'rep')


class Canon:
    """terms with loops renumbered (in order of creation, or of first appearance)
    and orders named by what they order"""

    def __init__(self, I, terms=None):
        self.I, self.memo = I, {}
        self.keys = {v: k for k, v in I.permids.items()}
        self.loops, self.objs = {}, {}
        if terms is not None:
            ls = {x.args[0].v for t in terms for x in subterms(t) if isinstance(x, T) and x.op in LOOPOPS and x.args and isinstance(x.args[0], C)}
            for l in sorted(ls, key=lambda l: [int(d) for d in re.findall(r'\d+', str(l))] + [str(l)]):
                self.loops[l] = len(self.loops)

    def __call__(self, t):
        return subst(t, self.one, self.memo)

    def deep(self, x):
        return self(x) if isinstance(x, V) else tuple(self.deep(y) for y in x) if isinstance(x, tuple) else x

    def one(self, t):
        if isinstance(t, Ref):
            return C(f'@{self.objs.setdefault(t.a, len(self.objs))}')
        if not isinstance(t, T) or not t.args or not isinstance(t.args[0], C):
            return None
        if t.op in LOOPOPS:
            n = self.loops.setdefault(t.args[0].v, len(self.loops))
            return T(t.op, C(f'#{n}'), *[self.deep(x) for x in t.args[1:]])
        if t.op in ('perm', 'card', 'find') and t.args[0].v in self.keys:
            k = self.keys[t.args[0].v]
            sub = Canon(self.I)
            key = tuple(sub(x) if isinstance(x, (V, tuple)) else x for x in k)
            return T(t.op, C(repr(key)), *[self(x) if isinstance(x, V) else x for x in t.args[1:]])
        return None


def vague(*ts):
    return any(isinstance(x, T) and x.op in LIMITW for t in ts for x in subterms(t))


def flat(pcs):
    return [x for c in pcs for x in (c if isinstance(c, tuple) else (c,)) if isinstance(x, V)]


def judge(ctx, key, what, want, got):
    want, got = next(((a, b) for a, b in zip(want, got) if [x[:3] for x in a] == [x[:3] for x in b]), (want[0], got[0]))
    for i, (a, b) in enumerate(zip(want, got)):
        k = f'{key}: {a[0]} {i} ({a[3][2] if len(a[3]) > 2 else ""})'
        if (a[0] != b[0] or len(a[1]) != len(b[1])) and vague(*a[1], *b[1], *flat(a[2]), *flat(b[2])):
            ctx.undecided(k, 'what is stored is not fully interpreted')
            return
        if a[0] != b[0] or len(a[1]) != len(b[1]):
            ctx.violation(k, f'{what} changes what is stored: {show_ev(b)} instead of {show_ev(a)}')
            return
        same = a[1] == b[1] and a[2] == b[2]
        if vague(*a[1], *b[1]) or not same and vague(*flat(a[2]), *flat(b[2])):
            ctx.undecided(k, 'the value stored is not fully interpreted')
        elif same:
            ctx.discharge(k)
        else:
            x, y = next(((x, y) for x, y in zip(a[1] + a[2], b[1] + b[2]) if x != y), (None, None))
            ctx.violation(k, f'{what} changes what is stored at line {b[3][1]} ({b[3][2]}): {show(y, 120)} instead of {show(x, 120)}')
            return
    if len(want) != len(got):
        ctx.violation(f'{key}: length', f'{what} changes the number of parts stored from {len(want)} to {len(got)}')
    elif not want:
        ctx.undecided(key, 'nothing stored')
    else:
        ctx.discharge(f'{key}: same sequence')


def show_ev(e):
    return f'{e[0]} of {show(e[1][-1], 80) if e[1] else ""} at line {e[3][1]} ({e[3][2]})'
