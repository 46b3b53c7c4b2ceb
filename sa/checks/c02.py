"""C02: the VGF record scan visits every record once, in file order."""
from ..report import Broken
from ..canonic import judge
from ..terms import leaves
from ..vgfspec import *
from .c01 import load_spec, short

FILELEN = None


def boolnf(c, facts=None):
    return normal(T('ite', c, C('stop'), C('go')), facts)


def scan(ctx, kd, f, sp, want_adv):
    """stop condition and order obligations; returns nothing"""
    name = kname(kd)
    k, L, b = f['k'], f['loop'], f['base']
    if L is None or 'advance_raw' not in f:
        ctx.undecided(f'{name}: loop', 'record loop not identified')
        return
    # the first record starts at offset 0
    init = k.I.locval(L['base'], f['basekey'])
    if init == C(0):
        ctx.discharge(f'{name}: first record at offset 0')
    elif isinstance(init, C):
        ctx.violation(f'{name}: first record at offset {init!r}', 'the scan does not start at the beginning of the file')
    else:
        ctx.undecided(f'{name}: first record', repr(init)[:80])
    valid = f['valid']
    try:
        we, br, post = stop_conditions(f)
        entered = assume({}, neg_c(we))
        hv = f['header_valid']
        flen = T('len', sp['file'])
        stop = disj(subst(we, post), subst(br, post))
        want_c = neg_c(ge0(sub(sub(flen, want_adv), C(1))))
        if br == FALSE:
            sv = erase(boolnf(norm(stop, b), {norm(a, b): v for a, v in assume(entered, valid).items()}))
            want = erase(boolnf(want_c, assume(assume({}, ge0(sub(flen, C(1)))), norm(valid, b))))
            v = judge(want, sv)
        else:
            # the next header is read before the scan decides: compare given that it is valid
            fc = {norm(a, b): v for a, v in assume(assume(entered, valid), neg_c(br)).items()}
            nxt = norm(subst(hv, post), b)
            sv = erase(normal(T('ite', nxt, T('ite', norm(stop, b), C('stop'), C('go')), C('n/a')), fc))
            want = erase(normal(T('ite', nxt, T('ite', want_c, C('stop'), C('go')), C('n/a')), fc))
            v = 'ok' if want == sv else ('undecided', 'exit condition not comparable')
        ctx.settle(f'{name}: scan continues after a valid record', v, f'stops when {short(sv)}')
        stop = disj(subst(we, post), br)
        res = set()
        for part in hv.args if isinstance(hv, T) and hv.op == 'and' else (hv,):
            fc = {norm(x, b): v for x, v in assume(entered, part, False).items()}
            res.add(boolnf(norm(stop, b), fc))
        if res == {C('stop')}:
            ctx.discharge(f'{name}: scan stops at an invalid header')
        elif C('go') in res:
            ctx.violation(f'{name}: scan continues past an invalid header', 'an invalid record header does not end the scan')
        else:
            ctx.undecided(f'{name}: invalid header', '; '.join(short(x) for x in res if isinstance(x, T)))
    except RecursionError as e:
        ctx.undecided(f'{name}: stop', str(e))
    # order of elements
    for loc in L['mods']:
        v = k.I.locval(L['end'], loc) if loc[1] is None else None
        if isinstance(v, tuple):
            pos = [i for i, s in enumerate(v) if s[0] == 'sym' and isinstance(s[1], T) and s[1].op == 'phi' and s[1].args[0] == C(L['id'])]
            if pos and pos[0] == 0:
                ctx.discharge(f'{name}: {k.I.locname(L["base"], loc).split("#")[0]} grows at its end')
            elif pos:
                ctx.violation(f'{name}: elements out of file order', 'an element is placed before those of earlier records')


def run(ctx):
    spec = load_spec()
    ctx.floor = 250
    ctx.rule('one-element', 'a valid record of a supported kind appends exactly one element, and only when its header is valid')
    ctx.rule('advance', 'the offset of the next record is record start + the length of the record body of this kind (record size for kinds without an element)')
    ctx.rule('progress', 'every valid record moves the scan forward by at least a header')
    ctx.rule('stop', 'the scan ends exactly at an invalid header or at the end of the data')
    ref = spec['3,1,0']
    file = next(x for x in subterms(ref['attrs']['delete']) if isinstance(x, T) and x.op == 'filedata')
    validspec = spec['1,2,0']['cond']  # header validity, the same for every kind
    recsize = T('rd', file, C(20), '>i')
    for kd in KINDS + SKIPPED:
        name = kname(kd)
        ctx.unit(name)
        try:
            f = facts_of(kd)
        except (RecursionError, KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
            ctx.undecided(name, f'analysis failed: {type(e).__name__} {e}')
            continue
        if f['dead']:
            ctx.violation(f'{name}: reader never completes', 'constructing the reader raises for every file with such a record')
            continue
        sp = spec.get('%d,%d,%d' % kd)
        if f.get('base') is None:
            if kd[1] > 43:
                continue
            ctx.undecided(name, 'record loop not identified')
            continue
        els = f['elements']
        f['header_valid'] = unnorm(validspec, f['base'], f)
        if sp is None:
            if els:
                if all(e['attrs'] is not None for e in els):
                    ctx.violation(f'{name}: element for unsupported record', 'a record kind that has no element produces one')
                else:
                    ctx.undecided(f'{name}: no element', 'element list not resolved')
            else:
                ctx.discharge(f'{name}: skipped without an element')
            f['valid'] = unnorm(validspec, f['base'], f)
            want = recsize
        else:
            want = sp['advance']
            if not f['resolved'] or any(e['attrs'] is None for e in els):
                ctx.undecided(f'{name}: one element', 'element list not resolved')
                f['valid'] = unnorm(validspec, f['base'], f)
            elif not els:
                ctx.violation(f'{name}: record dropped', 'a valid record of this kind appends no element')
                f['valid'] = unnorm(validspec, f['base'], f)
            else:
                if any(e['reps'] != 1 for e in els):
                    ctx.violation(f'{name}: several elements per record', 'the element is appended inside an inner loop')
                else:
                    excl = True
                    for i, e in enumerate(els):
                        for g in els[i + 1:]:
                            both = normal(conj(e['cond'], g['cond']))
                            if both != FALSE and simp_cond(g['cond'], assume({}, e['cond'])) != FALSE:
                                excl = False
                    if excl:
                        ctx.discharge(f'{name}: one element per record')
                    else:
                        ctx.violation(f'{name}: several elements per record', 'more than one element is appended on the same path')
                fl = {ge0(sub(T('len', file), C(1))): True}
                cond = erase(boolnf(disj(*[e['cond'] for e in els]), fl))
                ctx.settle(f'{name}: element iff header valid', judge(erase(boolnf(sp['cond'], fl)), cond), f'appended when {short(cond)}')
                f['valid'] = disj(*[e['raw'] for e in els])
        if 'advance' in f:
            fc = {norm(a, f['base']): v for a, v in assume({}, f['valid']).items()}
            adv = erase(normal(f['advance'], fc))
            ctx.settle(f'{name}: advance', judge(want, adv), f'moves {short(adv)}')
            stall = [x for x in leaves(adv) if isinstance(x, C) and isinstance(x.v, int) and x.v <= 0]
            if stall:
                ctx.violation(f'{name}: scan may stall', f'a valid record can move the scan by {stall}')
            else:
                ctx.discharge(f'{name}: progress')
        scan(ctx, kd, f, {'file': file}, want)


def unnorm(cond, base, f):
    """table condition (record-relative) -> terms of this run"""
    k = f['k']
    # file handle term of this run
    data = None
    for v in (k.I.locval(f['loop']['end'], m) for m in f['loop']['mods'] if m[1] is not None) if f.get('loop') else ():
        for x in subterms(v):
            if isinstance(x, T) and x.op == 'filedata':
                data = x

    def m(x):
        if isinstance(x, T) and x.op == 'rd':
            return T('rd', data or x.args[0], add(x.args[1], base), x.args[2])
        return None
    return subst(cond, m)
