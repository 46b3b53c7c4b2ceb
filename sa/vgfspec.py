"""Facts about the VGF reader, one record kind (class, type, version) at a time."""
import os
from .vgfread import *
from .canonic import normal
from .ser import erase
from .report import REPO

KINDS = [
    (1, 2, 0), (2, 6, 0), (2, 6, 1), (2, 6, 2), (2, 6, 3), (2, 6, 4), (2, 6, 5), (2, 6, 6),
    (3, 1, 0), (3, 20, 0), (4, 5, 0), (4, 10, 0), (4, 11, 0), (4, 12, 0), (4, 13, 0), (4, 14, 0), (4, 15, 0),
    (4, 16, 0), (4, 19, 0), (5, 17, 0), (5, 18, 0), (5, 21, 0),
    (6, 7, 0), (6, 8, 0), (6, 9, 0), (6, 23, 0), (6, 24, 0), (10, 26, 0),
    (11, 27, 0), (11, 27, 1), (11, 28, 0), (11, 28, 1), (11, 29, 0), (11, 29, 1), (11, 30, 0), (11, 30, 1),
    (11, 31, 0), (11, 31, 1), (11, 32, 0), (11, 35, 0), (11, 36, 0), (12, 4, 0), (14, 34, 0),
    (15, 37, 0), (15, 38, 0), (15, 39, 0), (15, 40, 0), (15, 41, 0), (15, 42, 0), (15, 43, 0)]

# record kinds the reader steps over without producing an element
SKIPPED = [(0, 1, 0), (7, 1, 0), (8, 25, 0), (9, 1, 0), (13, 19, 0), (16, 1, 0), (3, 2, 0), (12, 1, 0), (5, 1, 0),
           (11, 33, 0), (15, 1, 0), (2, 6, 7), (11, 27, 2), (11, 28, 3)]

CLASSES = {0: 'header', 1: 'front', 2: 'watch', 3: 'line', 4: 'symbol', 5: 'text', 6: 'wind', 10: 'track', 11: 'sigmet',
           12: 'circle', 14: 'list', 15: 'met'}


def kname(k):
    return f'class {k[0]} type {k[1]} version {k[2]}'


def read(kind, byteorder='little', **kw):
    return read_kind(*kind, repo=os.path.join(REPO, 'src'), byteorder=byteorder, **kw)


def loop_of(k, base):
    """the record loop (the one whose phi is the record base)"""
    for l in reversed(k.I.loops):
        if base is not None and C_id(base) == l['id']:
            return l
    return k.I.loops[-1] if k.I.loops else None


def C_id(base):
    a = base.args[0]
    return a.v if isinstance(a, C) else a


def header_base(k):
    """record base for kinds that produce no element: the phi every header read uses"""
    cand = {}
    for l in k.I.loops:
        for m in l['mods']:
            v = k.I.locval(l['end'], m)
            for x in subterms(v):
                if isinstance(x, T) and x.op == 'rd':
                    c, mons = to_poly(x.args[1])
                    for mm, kk in mons.items():
                        if kk == 1 and len(mm) == 1 and isinstance(mm[0], T) and mm[0].op == 'phi':
                            cand[mm[0]] = cand.get(mm[0], 0) + 1
    return max(cand, key=lambda t: cand[t]) if cand else None


def path_cond(path):
    return conj(*[p[1] for p in path if p[0] == 'if'])


def facts_of(kind, byteorder='little'):
    k = read(kind, byteorder)
    out = {'kind': kind, 'k': k, 'dead': k.ref is None, 'unknown': dict(k.I.unknown)}
    if k.ref is None:
        return out
    segs = element_segs(k)
    b = record_base(k)
    out['resolved'] = segs is not None
    els = flat_elems(segs or ())
    if b is None:
        b = header_base(k)
    out['base'] = b
    out['elements'] = []
    L = loop_of(k, b) if b is not None else None
    out['loop'] = L
    notbr = neg_c(disj(*[marks(L, L['outs'][kk][0]) for kk in ('break', 'return') if kk in L['outs']])) if L else TRUE
    for p, e in els:
        reps = [x for x in p if x[0] == 'rep']
        raw = expand(k, conj(path_cond(p), notbr))
        cond = norm(raw, b)
        ent = {'reps': len(reps), 'cond': cond, 'raw': raw, 'cls': None, 'attrs': None}
        if isinstance(e, Ref):
            o = k.st.get(e)
            ent['cls'] = getattr(o.cls, 'name', str(o.cls))
            ent['attrs'] = attrs(k, e, b)
        out['elements'].append(ent)
    if L is not None:
        for m, ph in L['phis'].items():
            if ph is b:
                out['basekey'] = m
                out['advance_raw'] = expand(k, sub(k.I.locval(L['end'], m), b))
                out['advance'] = norm(out['advance_raw'], b)
    return out


def marks(L, st):
    """condition, inside the loop body, of reaching `st`"""
    return disj(*[mark1(L, pc) for pc in (st.pcs or (st.pc,))])


def mark1(L, pc):
    out, seen = [], False
    for c, v in pc:
        if isinstance(c, T) and c.op == 'inloop' and c.args[0] == C(L['id']):
            seen = True
            out = []
            continue
        if seen:
            out.append(c if v else neg_c(c))
    return conj(*out)


def stop_conditions(f):
    """(loop test false, break condition, end-of-iteration substitution)"""
    k, L = f['k'], f['loop']
    m = {}
    for loc, ph in L['phis'].items():
        v = k.I.locval(L['end'], loc)
        if isinstance(v, (C, T, EnumM)):
            m[ph] = v
    outs = L['outs']
    we = marks(L, outs['wexit'][0]) if 'wexit' in outs else FALSE
    br = disj(*[marks(L, outs[kk][0]) for kk in ('break', 'return') if kk in outs])
    return we, br, m


def merged_attrs(f):
    """attributes of the element appended for this kind, merged over the
    alternative paths that append one; under the facts of the append condition"""
    els = [e for e in f['elements'] if e['attrs'] is not None]
    if not els:
        return None, None, None
    any_c = disj(*[e['cond'] for e in els])
    fc = assume({}, any_c)
    names = []
    for e in els:
        for n in e['attrs']:
            if n not in names:
                names.append(n)
    out = {}
    for n in names:
        v = els[-1]['attrs'].get(n, T('absent'))
        for e in reversed(els[:-1]):
            v = ite(e['cond'], e['attrs'].get(n, T('absent')), v)
        out[n] = erase(normal(v, fc))
    cls = sorted({e['cls'] for e in els})
    return cls, any_c, out
