"""C13: a failing write or read closes what it opened and ruins no file.

Fault injection on the abstract interpreter: for every operation evaluated while
a file is open, the interpretation is repeated with that operation raising; in
the resulting abstract states every opened file must be closed.  Separately,
nothing that can fail on the caller's values may be evaluated once a destination
has been opened for writing."""
from ..gemcheck import *
from ..vgfwrite import *
from .c14 import exclusive, show
from .c15 import call
from ..ext import openfiles


def programs():
    """name -> (source, symbols, conditions)"""
    for kind in ('snd', 'sfc', 'grd'):
        cls, make, addc, rcls, meth = CLIENT[kind]
        yield f'{cls}.to_gempak', f'from gempakio.encode.gempak import {cls}\n{make}\n{addc.format("")}\nf.to_gempak(path)\n', SYMS, True
    imp = f'from {MODV} import VGFile, ' + ', '.join(WRITE) + '\n'
    for c in WRITE:
        yield f'VGFile.to_vgf ({c})', imp + f'g = VGFile.from_elements({symcall(c)})\ng.to_vgf(path)\n', [f'held_{a}' for a in HELDS] + ['path'], True
    yield 'VGFile.to_vgf (any elements)', imp + 'g = VGFile()\nfor k in range(n):\n    g.add_element(els[k])\ng.to_vgf(path)\n', ['els', 'path', ('n', 'int')], True
    for kind in ('snd', 'sfc', 'grd'):
        rcls = CLIENT[kind][3]
        yield f'{rcls}', f'from gempakio import {rcls}\nr = {rcls}(path)\n', SYMS, False
    yield 'VectorGraphicFile', 'from gempakio import VectorGraphicFile\nr = VectorGraphicFile(path)\n', ['path'], False


HELDS = ['lon', 'lat', 'group_type', 'group_number', 'direction', 'offset_x', 'offset_y', 'rotation']


def symcall(cls):
    """constructor call with symbolic values where any value is accepted"""
    args = WRITE[cls][1].split(', ')
    over = {'lon': 'held_lon', 'lat': 'held_lat'}
    for a in ('offset_x', 'offset_y', 'rotation'):
        if a in args:
            over[a] = f'held_{a}'
    return call(cls, over)


def interp(fault=None, may=False, cond=None):
    I = Interp(repo=os.path.join(REPO, 'src'), assume_cond=cond)
    I.trace_may = may
    I.fault = fault
    return I


def run(ctx):
    ctx.floor = 12
    ctx.rule('closed on failure', 'if any operation evaluated while a file is open raises, the file is closed in the state that reaches the caller')
    ctx.rule('closed', 'a file opened on a path is closed on that path, whether it returns or raises')
    ctx.rule('encoded first', 'nothing that can fail on the caller\'s values is evaluated after the destination has been opened for writing')
    for n, src, syms, writes in programs():
        ctx.unit(n)
        one(ctx, n, src, syms, writes)


def one(ctx, n, src, syms, writes):
    cond = Case('grd', 'datetime').cond if 'GridFile' in n else None
    base = interp(0, True, cond)
    r = program(src, syms, I=base)
    if r.st is None:
        return ctx.undecided(n, 'the call never completes')
    opens = [(e, pc) for e, pc in r.st.event_list() if e[0] == 'open']
    if not opens:
        return ctx.undecided(n, 'no file is opened on any path')
    # ------------------------------------------------------------ leaks
    left = openfiles(r.st)
    if left:
        for e in left.values():
            ctx.violation(f'{n}: never closed', f'the file opened at line {e[3][1]} ({e[3][2]}) is not closed when the call returns')
    else:
        ctx.discharge(f'{n}: closed on return')
    bad = 0
    for st, exc, s in r.raises:
        for e in openfiles(st).values():
            bad += 1
            ctx.violation(f'{n}: left open by {show(exc, 60)}', f'the file opened at line {e[3][1]} ({e[3][2]}) is open when {show(exc, 80)} is raised at line {s[1]} ({s[2]})')
    if not bad:
        ctx.discharge(f'{n}: closed at every raise')
    # ------------------------------------------------------------ faults
    k, limit = 1, 400
    total = base.faultn
    while k <= min(total, limit):
        I = interp(k, False, cond)
        q = program(src, syms, I=I)
        what, s = I.faultlog[k - 1] if k <= len(I.faultlog) else ('?', ('', 0, ''))
        key = f'{n}: {what} in {s[2]} fails'
        hit = [(st, exc, at) for st, exc, at in q.raises if isinstance(exc, T) and len(exc.args) > 1 and exc.args[0] == 'Injected' or 'Injected' in show(exc, 40)]
        opened = [e for st, exc, at in hit for e in openfiles(st).values()]
        if opened:
            ctx.violation(key, f'the file opened at line {opened[0][3][1]} ({opened[0][3][2]}) stays open if {what} at line {s[1]} ({s[2]}) raises')
        elif hit:
            ctx.discharge(key)
        elif q.st is not None and not openfiles(q.st):
            ctx.discharge(f'{key} (handled)')
        else:
            ctx.undecided(key, 'the failure does not reach the caller')
        k += 1
    # ------------------------------------------------------ encoded first
    if not writes:
        return
    opened, lazy, gens, stack = [], {}, {}, []
    bad = False
    for e, pc in r.st.event_list():
        if e[0] == 'open':
            m = e[2]
            if not (isinstance(m, C) and isinstance(m.v, str)) or any(ch in m.v for ch in 'wxa+'):
                opened.append((e, pc))
        elif e[0] == 'gen0':
            stack.append([])
        elif e[0] == 'gen1' and stack:
            gens[e[1]] = stack.pop()
        elif e[0] == 'may':
            for g in stack:
                g.append(e)
            if not stack:
                bad |= after(ctx, n, e, pc, opened)
        elif e[0] == 'geniter':
            for m in gens.get(e[1], ()):
                bad |= after(ctx, n, m, pc, opened)
    if not bad:
        ctx.discharge(f'{n}: everything is encoded before the destination is opened')


def after(ctx, n, e, pc, opened):
    for o, q in opened:
        if not exclusive(pc, q):
            ctx.violation(f'{n}: {e[1]} after open', f'{e[1]} of {show(e[2], 80)} (line {e[3][1]}, {e[3][2]}) is evaluated after the destination was opened for writing at line {o[3][1]}')
            return True
    return False
