"""Structure of a GEMPAK file, independent of the writers.

Only what fixes the layout is given: label words, key names, parts and parameter
names.  The numbers of rows and columns, where headers and pointers start and
everything stored in headers and data stay symbols, so the reader is interpreted
for every file of that structure."""
from .drive import *
from .report import REPO
from .symfile import code_size

ROWS, COLS = T('arg', C('rows'), 'int'), T('arg', C('columns'), 'int')
ROWP, COLP, DATP = (T('arg', C(n), 'int') for n in ('rowptr', 'colptr', 'datptr'))
MISSING = T('arg', C('missing_float'), 'float')
TYPES = {'real': 1, 'integer': 2, 'character': 3, 'realpack': 4, 'grid': 5}
STN = ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']
TIM = ['DATE', 'TIME']
ROWK, COLK, PART, MGMT, FKEY = 200, 240, 300, 100, 400
LABEL = ['version', 'file_headers', 'file_keys_ptr', 'rows', 'row_keys', 'row_keys_ptr', 'row_headers_ptr', 'columns', 'column_keys', 'column_keys_ptr',
         'column_headers_ptr', 'parts', 'parts_ptr', 'data_mgmt_ptr', 'data_mgmt_length', 'data_block_ptr', 'file_type', 'data_source', 'machine_type', 'missing_int']
KIND = {'snd': ('GempakSounding', 'snxarray', 2), 'sfc': ('GempakSurface', 'sfjson', 1), 'grd': ('GempakGrid', 'gdxarray', 3)}
GRIDK = ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']


class RefFile:
    def __init__(self, kind, rowkeys, colkeys, parts, order='<', rows=ROWS, columns=COLS, source=4, used=True, words=None):
        """parts: [(name, header length, type name, [(parameter, scale, offset, bits)])]"""
        self.kind, self.order, self.used = kind, order, used
        self.rowkeys, self.colkeys, self.parts = rowkeys, colkeys, parts
        self.extra = words
        n = len(parts)
        lab = {'version': 1, 'file_headers': 2 if kind == 'grd' else 0, 'file_keys_ptr': FKEY, 'rows': rows, 'row_keys': len(rowkeys), 'row_keys_ptr': ROWK,
               'row_headers_ptr': ROWP, 'columns': columns, 'column_keys': len(colkeys), 'column_keys_ptr': COLK, 'column_headers_ptr': COLP, 'parts': n,
               'parts_ptr': PART, 'data_mgmt_ptr': MGMT, 'data_mgmt_length': 32, 'data_block_ptr': DATP, 'file_type': KIND[kind][2], 'data_source': source,
               'machine_type': 11, 'missing_int': -9999}
        self.w = {}
        for i, k in enumerate(LABEL):
            self.w[28 + 4 * i] = lab[k]
        self.w[28 + 4 * len(LABEL) + 12] = MISSING
        for p, ks in ((ROWK, rowkeys), (COLK, colkeys)):
            for i, k in enumerate(ks):
                self.w[4 * (p - 1 + i)] = k
        b = 4 * (PART - 1)
        for i, (nm, hl, ty, ps) in enumerate(parts):
            for j, v in enumerate((nm, hl, TYPES[ty], len(ps))):
                self.w[b + 4 * (j * n + i)] = v
        b += 16 * n
        for f in range(4):
            for nm, hl, ty, ps in parts:
                for p in ps:
                    self.w[b] = p[f]
                    b += 4
        if kind == 'grd':
            b = 4 * (FKEY - 1)
            for i, v in enumerate(('NAVB', 'ANLB', 256, 128, 2, 2, 256)):
                self.w[b + 4 * i] = v
            self.w[b + 24 + 4 + 4 * 256] = 128
            self.nav, self.anl = b + 28, b + 24 + 8 + 4 * 256
            self.nav_size, self.anl_size = b + 24, b + 24 + 4 + 4 * 256
        head = b'GEMPAK DATA MANAGEMENT FILE '
        self.head = head
        self.hits = set()

    def find(self, off, code):
        """what the structure fixes at a constant offset"""
        want = code_size(code)
        if off < 28:
            return C(self.head[off:off + want]) if code[-1] == 's' else None
        v = self.w.get(off)
        if v is None or want != 4:
            return None
        self.hits.add(off)
        if isinstance(v, V):
            return v
        if isinstance(v, str):
            raw = v.ljust(4).encode()
            return C(raw) if code[-1] == 's' else C(int.from_bytes(raw, 'little' if code[0] == '<' else 'big', signed=True))
        if code[-1] in 'iI' and code[0] == self.order:
            return C(v)
        return None

    def header(self, off, code):
        """words that flag a header as used"""
        if code[-1] not in 'iI':
            return None
        k, mons = to_poly(off)
        for p, n in ((ROWP, len(self.rowkeys) + 1), (COLP, len(self.colkeys) + 1)):
            if mons.get((p,)) == 4 and isinstance(k, int) and (k + 4) % (4 * n) == 0:
                return C(9999) if code[0] == self.order else None
        return None

    def rd(self, data, off, code):
        if not (isinstance(data, T) and data.op == 'filedata'):
            return None
        if self.extra is not None:
            v = self.extra(self, off, code)
            if v is not None:
                return v
        if isinstance(off, C) and isinstance(off.v, int):
            return self.find(off.v, code)
        return self.header(off, code) if self.used else None

    def cond(self, t, st):
        if t.op == 'eq' and any(isinstance(a, C) and isinstance(a.v, bytes) and len(a.v) == 4 for a in t.args) and any(isinstance(a, T) and a.op == 'bytes' for a in t.args):
            k = next(a.v for a in t.args if isinstance(a, C))
            return int.from_bytes(k, 'little' if self.order == '<' else 'big') == 1
        return None


def params(*names, packed=False):
    return [(n, -1, 100 * i, 9 + i) if packed else (n, 0, 0, 0) for i, n in enumerate(names)]


MERGED = ('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')
UNMERGED = [('TTAA', 1, 'real', params('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')), ('PPAA', 1, 'real', params('PRES', 'DRCT', 'SPED')),
            ('TRPA', 1, 'real', params('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED')), ('MXWA', 1, 'real', params('PRES', 'DRCT', 'SPED')),
            ('TTBB', 1, 'real', params('PRES', 'TEMP', 'DWPT')), ('PPBB', 1, 'real', params('HGHT', 'DRCT', 'SPED')),
            ('TTCC', 1, 'real', params('PRES', 'TEMP', 'DWPT', 'DRCT', 'SPED', 'HGHT')), ('PPCC', 1, 'real', params('PRES', 'DRCT', 'SPED')),
            ('TTDD', 1, 'real', params('PRES', 'TEMP', 'DWPT')), ('PPDD', 1, 'real', params('HGHT', 'DRCT', 'SPED'))]


def surface_parts(kind):
    if kind == 'text':
        return [('SFDT', 1, 'real', params('PMSL', 'TEMP')), ('SFTX', 1, 'character', params('TEXT'))]
    return [('SFDT', 1, kind, params('PMSL', 'TEMP', 'DWPT', packed=kind == 'realpack'))]


def standard(kind, variant, **kw):
    if kind == 'grd':
        return RefFile('grd', ['GVER'], GRIDK, [('GRID', 2, 'grid', [('GRID', 0, 0, 0)])], rows=C(1), **kw)
    if kind == 'snd':
        return RefFile('snd', TIM, STN, variant, **kw)
    sfc = STN + ['SPRI']
    row, col = {'standard': (TIM, sfc), 'ship': (['GSUR'], sfc + TIM), 'climate': (sfc, TIM)}[variant]
    part = kw.pop('parts', None) or surface_parts('real')
    return RefFile('sfc', row, col, part, rows=C(1) if variant == 'ship' else ROWS, **kw)


def read(ref, query=None, I=None, syms=('path',), cond=None, **kw):
    """the reader over the file, and the query it is asked"""
    cls, meth, _ = KIND[ref.kind]
    src = f'from gempakio import {cls}\nr = {cls}(path)\n' + (query if query is not None else f'd = r.{meth}()\n')

    def ac(t, st):
        v = ref.cond(t, st)
        return v if v is not None or cond is None else cond(t, st)
    I = I or Interp(repo=os.path.join(REPO, 'src'), assume_rd=ref.rd, assume_cond=ac, **kw)
    return program(src, syms, I=I)


# ------------------------------------------------------------------ the structures read
PACKINGS = {'none': 0, 'grib': 1, 'nmc': 2, 'diff': 3, 'dec': 4, 'grib2': 5}


def packing(name):
    """fixes the packing word of every grid"""
    def words(ref, off, code):
        if code[-1] not in 'iI':
            return None
        k, mons = to_poly(off)
        if k == 8 and len(mons) == 1:
            (m, c), = mons.items()
            if c == 4 and len(m) == 1 and isinstance(m[0], T) and m[0].op == 'rd' and code[0] == ref.order:
                return C(PACKINGS.get(name, name))
        return None
    return words


def variants():
    """name -> function of the order of the file"""
    out = {}
    for ty in ('real', 'realpack'):
        ps = [('SNDT', 1, ty, params('PRES', 'TEMP', 'HGHT', packed=ty == 'realpack'))]
        out[f'merged sounding, {ty}'] = lambda o, ps=ps: standard('snd', ps, order=o)
    out['unmerged sounding'] = lambda o: standard('snd', UNMERGED[:2], order=o)
    out['unmerged sounding, packed'] = lambda o: standard('snd', [('TTAA', 1, 'realpack', params(*MERGED, packed=True))], order=o)
    out['unmerged sounding with text'] = lambda o: standard('snd', UNMERGED[:1] + [('TXTA', 1, 'character', params('TXTA'))], order=o)
    for v in ('standard', 'ship', 'climate'):
        for ty in ('real', 'realpack', 'text'):
            out[f'{v} surface, {ty}'] = lambda o, v=v, ty=ty: standard('sfc', v, parts=surface_parts(ty), order=o)
    for p in PACKINGS:
        out[f'grid, {p} packing'] = lambda o, p=p: standard('grd', None, words=packing(p), order=o)
    return out
