"""What a reader must know about what the caller added, per file kind.

Values are written over the caller's own arguments: `A(name, w)` is argument
`name` of the call that made header `w` (ROW or COL)."""
from .gemcomp import *

INFO = ('station_id', 'station_number', 'elevation', 'state', 'country', 'priority')


def A(n, w=COL):
    return T('getitem', T('arg', C(n), '?'), w)


def call(op, *a, **kw):
    return T(op, *[x if isinstance(x, (V, tuple)) else C(x) for x in a], *[T('kw', C(k), v) for k, v in kw.items()])


def info(key, default, f):
    x = T('m.get', A('info'), C(key), C(default))
    return f(x)


def opt(x, none):
    return ite(T('is_none', A('info')), none, x)


def upstr(key):
    return T('upper', T('str', T('m.get', A('info'), C(key), C(''))))


def text(n, x):
    return T('text', C(n), x)


STID8 = upstr('station_id')
LONG = ge0(sub(T('len', STID8), C(5)))
STD2 = opt(ite(LONG, text(4, T('slice_s', STID8, T('slice', C(4), C(8), NONE))), C('')), C(''))
STATION = {
    'STID': opt(text(4, STID8), C('')),
    'STNM': opt(T('int', T('m.get', A('info'), C('station_number'), C(-9999))), C(-9999)),
    'SLAT': T('nearest', A('slat'), C(0.01)),
    'SLON': T('nearest', A('slon'), C(0.01)),
    'SELV': opt(T('int', T('m.get', A('info'), C('elevation'), C(-9999))), C(-9999)),
    'STAT': opt(text(4, upstr('state')), C('')),
    'COUN': opt(text(4, upstr('country')), C('')),
    'STD2': STD2,
    'SPRI': opt(T('m.get', A('info'), C('priority'), C(0)), C(0)),
}
STIDFULL = T('concat', STATION['STID'], STATION['STD2'])
MEANING = {'ID': STIDFULL, 'NUMBER': STATION['STNM'], 'LAT': STATION['SLAT'], 'LON': STATION['SLON'], 'ELEV': STATION['SELV'],
           'STATE': STATION['STAT'], 'COUNTRY': STATION['COUN'],
           'station_id': STIDFULL, 'station_number': STATION['STNM'], 'lat': STATION['SLAT'], 'lon': STATION['SLON'], 'latitude': STATION['SLAT'],
           'longitude': STATION['SLON'], 'elevation': STATION['SELV'], 'state': STATION['STAT'], 'country': STATION['COUN'], 'priority': STATION['SPRI']}


def moment(kind, mode, d):
    """the date and time a caller's date argument `d` means"""
    if mode == 'datetime':
        return d
    u = T('upper', d)
    if mode == 'fcst':
        p = T('split', u, C('F'))
        return add(T('strptime', T('item', p, C(0)), C('%Y%m%d%H%M')), T('datetime.timedelta', T('kw', C('hours'), T('int', T('item', p, C(1))))))
    return T('strptime', u, C('%Y%m%d%H%M'))


def at_minute(x):
    return T('tominute', x)


def station_spec(kind, mode):
    """{header field or key: expected value}"""
    m = moment(kind, mode, A('dt', ROW))
    out = dict(STATION)
    out.update(MEANING)
    out['DATE'] = T('m.date', m)
    out['TIME'] = T('minute', T('m.time', m))
    out['DATTIM'] = out['date_time'] = out['time'] = at_minute(m)
    return out


KEYS = {
    'snd': (['DATE', 'TIME'], ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2']),
    'sfc': (['DATE', 'TIME'], ['STID', 'STNM', 'SLAT', 'SLON', 'SELV', 'STAT', 'COUN', 'STD2', 'SPRI']),
    'grd': (['GRID'], ['GDT1', 'GTM1', 'GDT2', 'GTM2', 'GLV1', 'GLV2', 'GVCD', 'GPM1', 'GPM2', 'GPM3']),
}
PART = {'snd': ('SNDT', 1, 'real', ['PRES', 'TEMP']), 'sfc': ('SFDT', 1, 'real', ['PMSL', 'TEMP']), 'grd': ('GRID', 2, 'grid', ['GRID'])}
