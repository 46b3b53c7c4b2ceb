#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, EG, EV, DG, TL, GC = ('src/gempakio/decode/vgf.py', 'src/gempakio/encode/gempak.py', 'src/gempakio/encode/vgf.py',
                        'src/gempakio/decode/gempak.py', 'src/gempakio/tools.py', 'src/gempakio/gemcalc.py')
P = []


def p(id, title, st, over, qt, why, files, mech, obs=()):
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': qt}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(obs), 'hook_needed': None}})


p('C01', 'Decoded VGF attributes come from their own record fields',
  'Every attribute of an element decoded from a Vector Graphics Format file equals the content of that attribute\'s own field in the '
  'element\'s own record: the field at the position, with the width, type, byte order, count, text trimming, coordinate rounding and '
  'polygon closing that the record layout defines for its class, type and version. This holds for every supported class, type and '
  'version and whatever other records the file contains.',
  ['inputs'], 'all VGF files: every supported record kind and version, every field value, any preceding records',
  'The tests decode one or two files per element type; a field swapped or shifted in a kind or version that no file exercises, or that '
  'the sample leaves at zero, is invisible.',
  [V, TL], [('per-kind record layouts', V), ('NamedStruct/IOBuffer field reader', TL)], ['VectorGraphicFile(path).elements'])
p('C02', 'VGF scan yields each record once, in order, and always ends',
  'Reading a VGF file visits the records from the start of the file one after the other: each valid record of a supported kind yields '
  'exactly one element (a line without points yields none), each record of another kind yields none, elements appear in file order, '
  'and each record is stepped over by its full length. The scan stops at the first record whose header is invalid (delete flag, '
  'colours or record size out of range) or at the end of the data, and every step moves forward.',
  ['inputs'], 'all VGF files: any sequence of records, including unknown types and versions and corrupt headers',
  'Sample files hold one kind of element and are well formed; unknown kinds, unknown versions and malformed headers never occur.',
  [V, TL], [('record scan and header validation', V)], ['VectorGraphicFile(path).elements'])
p('C03', 'VGF writer and reader agree on every field',
  'For every element kind that can be written to a VGF file, each user-supplied value is stored exactly where, and as, the reader takes '
  'the attribute of the same meaning from, so writing an element and reading the file back returns the same attribute values up to the '
  'reader\'s two-decimal coordinate rounding.',
  ['inputs'], 'all values of all fields of all writable element kinds',
  'The write tests round-trip one sample per element with many fields at defaults; two fields that hold the same value can be swapped unnoticed.',
  [EV, V], [('element encode methods', EV), ('reader layouts', V)], ['VectorGraphicFile(written).elements'])
p('C04', 'VGF record sizes and counts equal what is written',
  'In every record the VGF writer emits, the header\'s record size equals the number of bytes of the record, every stored point count or '
  'text length equals the number of points or bytes that follow it, and the bounding box is the minimum and maximum of the stored latitudes '
  'and longitudes in their own slots.',
  ['inputs'], 'all writable elements, any number of points, any text including non-ASCII',
  'Tests write short ASCII texts and a few points; a size that is off for other lengths desynchronises every later record.',
  [EV], [('record size computation', EV)], ['bytes of the written file'])
p('C05', 'GEMPAK writer and reader agree on the file layout',
  'Every field the grid, sounding and surface writers store in a file\'s label, navigation and analysis blocks, file, row and column keys, '
  'part descriptions and data management block lies at the word address, in the order and with the type from which the readers take the '
  'field of the same meaning.',
  ['inputs', 'configurations'], 'all files writable by GridFile, SoundingFile and SurfaceFile: any projection, part layout, sizes',
  'Round-trip tests use a handful of layouts; wrong pointers can coincide with right ones for particular sizes.',
  [EG, DG], [('block writers', EG), ('block readers', DG)], ['bytes written by to_gempak', 'readers\' attributes'])
p('C06', 'GEMPAK row and column header codecs are inverse',
  'For every row and column header key that both sides handle, the integer the writers store decodes in the readers to the value the caller '
  'supplied: dates, times, scaled latitudes and longitudes, elevations, station numbers, character codes and grid level and parameter fields, '
  'with scaled values rounded to nearest and each header word stored at the position of its own key.',
  ['inputs'], 'all key values: any station position (including negative and non-representable decimals), date, id and text',
  'Sample stations avoid values whose scaled product is inexact and keys with distinctive neighbours.',
  [EG, DG], [('header encoders', EG), ('header decoders', DG)], ['sninfo/sfinfo/gdinfo after a round trip'])
p('C07', 'Data pointers and data blocks agree and never overlap',
  'For every row, column and part, the data pointer word the readers look up is the word the writers fill for the same row, column and part, '
  'it addresses that part\'s own data, and the blocks the writers lay out (label, keys, headers, parts, pointers, data) never overlap. Every file ends at the end of a block.',
  ['inputs', 'configurations'], 'all numbers of rows, columns and parts, all data lengths',
  'Files in the tests have few rows, columns and parts, for which transposed or overlapping addresses can coincide.',
  [EG, DG], [('pointer arithmetic of writers and readers', EG)], ['data returned by gdxarray/snxarray/sfjson'])
p('C08', 'Decoded values do not depend on host or file byte order',
  'Every value a reader returns is the same whatever the byte order of the host and of the file: each multi-byte field is read in the '
  'file\'s own byte order (VGF always big-endian apart from its documented little-endian or raw blocks) and text is never byte-swapped.',
  ['inputs', 'configurations'], 'all files in either byte order, on hosts of either byte order',
  'Tests run on a little-endian host with mostly little-endian samples.',
  [V, DG, TL], [('format prefixes and byte swapping', V)], ['decoded attributes and data'])
p('C09', 'Selectors return exactly the matching entries',
  'A query on a GEMPAK reader (gdxarray, snxarray, sfjson) delivers an entry of the file that holds data if and only if the entry satisfies '
  'every given criterion: a text criterion names the entry\'s value in any case, a time is given as a datetime, as YYYYmmddHHMM text or as first or last '
  '(the earliest or latest in the file), a bounding box includes its edges; criteria not given do not restrict, several criteria must all '
  'hold, a scalar and a list of values mean the same, and entries come in the order of the index. nearest_time returns, for every station the '
  'criterion names, that station\'s entry closest in time.',
  ['inputs', 'configurations'], 'all combinations of criteria and values over all files',
  'Tests try a few single-criterion queries.',
  [DG], [('selection filters', DG)], ['results of gdxarray/snxarray/sfjson/nearest_time'])
p('C10', 'Calls never modify or retain the caller\'s arguments',
  'No public operation of the readers, writers, calculation helpers and binary structures modifies an array, list or dictionary passed to it (a helper that fills a sounding in '
  'place changes only the profiles it is for), and an array, list or dictionary passed to a writer and changed by the caller afterwards does not change what is written.',
  ['inputs', 'histories'], 'all calls with mutable arguments, and later changes to them by the caller',
  'Tests pass literals and never look at them again.',
  [EG, EV, DG, V, GC], [('argument normalisation', EG)], ['the caller\'s own objects'])
p('C11', 'Reader queries are pure and history independent',
  'Querying a reader never changes it: the answer to any query is the same whatever queries were made before, on the same or another reader, '
  'and no state is shared between reader objects.',
  ['histories'], 'all sequences of queries on any number of open readers',
  'Each test opens a file and asks once.',
  [DG, V], [('query methods', DG)], ['query results'])
p('C12', 'Writing twice writes the same file',
  'Writing a file object is repeatable: writing the same object again, without adding anything, produces the same bytes, and adding an entry '
  'after a write produces the same bytes as adding it before. What is written depends on the entries added to this object only: encoding an element, '
  'a failed write, or creating, filling and writing another file object before changes nothing.',
  ['histories'], 'all sequences of add and write calls',
  'Each test writes once.',
  [EG, EV], [('write state handling', EG)], ['bytes written'])
p('C13', 'A failing write or read leaves no open handle and no ruined file',
  'Whenever reading or writing a file raises, at whatever point, the file it opened is closed by the time the caller sees the error; it is also closed '
  'when the call returns. A VGF or GEMPAK write that fails because an element or entry cannot be encoded leaves an existing destination file as it was: '
  'everything is encoded before the destination is opened for writing.',
  ['fault_sequences', 'inputs'], 'every raising path of reading and writing',
  'Tests only perform successful writes.',
  [EG, EV, DG, V], [('context managers around open', EG)], ['destination file and open handles'])
p('C14', 'Rejected changes leave the object unchanged',
  'When adding an entry to a writer or setting an attribute of an element raises because the value is invalid, the object is exactly as it was before '
  'the call, so a later write is unaffected.',
  ['fault_sequences', 'histories'], 'every invalid argument to add_grid, add_sounding, add_station and every element setter',
  'Tests check that an error is raised, not what it leaves behind.',
  [EG, EV], [('validation order in add methods and setters', EG)], ['object after the error', 'file written afterwards'])
p('C15', 'Element validation cannot be bypassed',
  'Every way of giving a VGF element attribute a value, by constructor or by assignment, enforces the same documented range or choice of values, and a value in '
  'the documented range is accepted.',
  ['inputs'], 'all attribute values, both routes',
  'Tests try one bad value on one route for some attributes.',
  [EV], [('property setters', EV)], ['ValueError/TypeError raised'])
p('C16', 'Merged sounding profiles stay aligned',
  'While a merged sounding is assembled from its mandatory, significant-temperature and significant-wind parts, every level added, inserted, replaced or removed is '
  'added, inserted, replaced or removed in the pressure, temperature, dewpoint, direction, speed and height profiles alike, each value coming from the same level of the matching part, and a level is inserted at the place of its own pressure or height among the levels merged so far.',
  ['inputs'], 'all combinations of parts and missing values',
  'A few sample soundings reach a fraction of the merge branches.',
  [DG], [('sounding merge', DG)], ['snxarray result'])
p('C17', 'The missing value is honoured on every path',
  'A stored missing value never enters a computation as a number: every unpacking and calculation path replaces or tests the file\'s missing value before using it, '
  'returned arrays are masked where they hold it, merging soundings replaces a wind, temperature or dewpoint that is there only where it is missing, '
  'and writers store NaN as the missing value.',
  ['inputs'], 'all data with missing entries at any place',
  'Few samples hold missing data in packed or calculated fields.',
  [DG, EG, GC], [('missing value masks', DG)], ['NaN in returned data'])
p('C18', 'Unsupported or damaged content fails loudly',
  'Reading a file, querying a reader and writing a file never fail with an unbound variable, a missing attribute or a call that does not fit its callee: every branch '
  'defines what it uses, and an attribute a constructor sets is set on all its paths. A file that is not a GEMPAK file, a GEMPAK file of another kind than the reader\'s, and one with an unsupported '
  'projection, block size, grid packing, data type or key layout is rejected with an exception raised on purpose, never read as something else or as nothing.',
  ['inputs'], 'all branches of readers and writers; all files of every supported structure and of each unsupported one',
  'Unsupported variants are not in the sample files.',
  [V, DG, EG, EV, TL], [('dispatch over types and packings', DG)], ['exception type raised'])
p('C19', 'VGF has_X flags agree with get_X and groups',
  'For every element kind, the reader\'s flag that reports its presence is true exactly when the getter for that kind returns something, each getter returns exactly the elements of its class '
  'in file order, filter_elements selects by class, by type or by both, group queries return exactly the elements of the group, and the file bounds are the extremes of the corners of the elements that have coordinates, and the bounds of one element are the extremes of its points.',
  ['inputs'], 'all mixtures of element kinds',
  'Sample files contain one kind each, so a flag and getter that disagree on mixtures pass.',
  [V], [('has_* properties and get_* methods', V)], ['has_*, get_*'])
p('C20', 'Projection parameters reach their own slots',
  'For every map projection and analysis block, each navigation angle and corner point goes into the projection parameter of the same meaning when reading, '
  'and into the navigation word that reader takes it from when writing.',
  ['inputs', 'configurations'], 'all supported projections and parameter values',
  'Samples cover few projections, often with equal or zero angles.',
  [DG, EG], [('projection set-up and navigation block', DG)], ['crs and navigation block'])
p('C21', 'The binary buffer contract',
  'Reading a structure from the binary buffer consumes exactly the structure\'s size and returns each named field with its own value and converter, reading or skipping advances '
  'the position by exactly the amount asked, looking ahead does not, and jumping returns to exactly the marked or given position, in any combination. '
  'A read whose conversion function raises leaves the position where it was. '
  'Truncating and splicing change only the bytes asked for, buffers share nothing, packing a structure places each named value in its own field, and ordered sets keep the order of first insertion.',
  ['inputs', 'histories'], 'all structure layouts and sequences of buffer operations',
  'The readers exercise only the layouts they need.',
  [TL], [('IOBuffer, NamedStruct and OrderedSet', TL)], ['IOBuffer/NamedStruct results'])
p('C22', 'Grid packing is accurate to the packing precision', 'A grid written with GRIB packing and read back differs from the original by at most half a packing step for every data range and bit width.',
  ['inputs'], 'all grids and bit widths', 'Tests pack one grid.', [EG, DG], [('GRIB packing', EG)])
p('C23', 'Unpacked grids equal the GRIB definition', 'Unpacking GRIB, NMC, DIFF and SHORT data yields the value each packing\'s bit stream defines for every bit width and length.',
  ['inputs'], 'all bit streams', 'Tests unpack few samples.', [DG], [('unpackers', DG)])
p('C24', 'Vertical interpolation reproduces the physics', 'Interpolated winds, temperatures and heights of merged soundings satisfy the log-pressure and hypsometric relations.',
  ['inputs'], 'all profiles', 'Tests compare a few soundings.', [GC, DG], [('interpolation', GC)])
p('C25', 'Surface text reports are split correctly', 'Every standard and special METAR text in a surface file is returned with its own station and time.',
  ['inputs'], 'all texts', 'Tests read two files.', [DG], [('text splitting', DG)])
p('C26', 'Projected coordinates are numerically right', 'Grid x, y, latitude and longitude arrays agree with the map projection to rounding error.',
  ['inputs'], 'all projections', 'Tests compare a few grids.', [DG], [('pyproj calls', DG)])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
