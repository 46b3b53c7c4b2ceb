#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': 'value-flow abstract interpretation of the reader per record kind, compared with a committed layout table',
    'C02': 'abstract interpretation of the scan loop: per-kind append count, condition, offset advance and exit condition',
    'C03': 'abstract interpretation of each encode method composed with the abstract reader: every attribute must come back as the value supplied',
    'C04': 'abstract interpretation of each encode method: record extents, counts and bounding box compared symbolically with what is written',
    'C05': 'abstract interpretation of the GEMPAK writers composed with the abstract readers over the words they store: labels, blocks, keys, parts and parameters field by field',
    'C06': 'abstract interpretation of the header encoders composed with the abstract decoders: every header key restated over the caller\'s arguments must be the identity (integer and date codec laws)',
    'C07': 'polynomial write extents from the abstract writers (overlap by lower bounds, pointer addresses by matching) and composition of pointer look-ups with the pointers stored',
    'C08': 'abstract interpretation of the readers on hosts of both byte orders over files of both byte orders: every attribute and result must be the same term',
    'C09': 'abstract interpretation of every query over files of any content beside its meaning said in plain code; the conditions of delivery compared by truth table over their comparisons',
    'C10': 'abstract interpretation of every call taking an array, list or dictionary: effects on the caller\'s values and their views, and the same written terms after an aliased change by the caller',
    'C11': 'abstract interpretation of client programs that differ only in the history of calls before a query: the answer and everything the reader holds must be the same terms',
    'C12': 'abstract interpretation of client programs that differ only in history: the positioned writes of the last file must be the same terms',
    'C13': 'typestate and effect analysis by abstract interpretation with fault injection: every opened file is closed in each abstract state that returns or raises; no fallible operation on caller values after the destination is opened',
    'C14': 'abstract interpretation of setters and add_* methods: state at every raise compared with the state before; no fallible operation after the first change',
    'C15': 'abstract interpretation of constructors and setters: reject conditions of both routes compared with a table of documented ranges',
    'C16': 'abstract interpretation of the sounding merge over every combination of parts: effects on the six profile lists compared with each other (index, condition, source level and part, order of pressures)',
    'C17': 'guarded-use analysis over the interpreter\'s terms and effects: computations on stored values lie under tests against the symbolic missing value; masks, unpacking and packing sentinels compared with the flag and width stored',
    'C18': 'abstract interpretation of every reader, query and writer for internal failures (definite and conditional unbound names, attributes, call signatures), rejection of unsupported structures on every path, and whole-package name, attribute and call resolution on the syntax tree',
    'C19': 'abstract interpretation of flags, getters, filter_elements, group queries and bounds over a symbolic element list, evaluated for every (class, type) pair of the record layouts',
    'C20': 'abstract interpretation of the grid reader over symbolic navigation words, and of the writer composed with it: every projection parameter, corner and coordinate is a term over its own words',
    'C21': 'abstract interpretation of every buffer operation from an arbitrary symbolic position and marks, and of every arrangement of named-structure fields, compared with the same bytes read directly',
}
NOTE = ('Decided from the source by abstract interpretation: joins at merges, loops by fixpoint, all branches, no execution and no solver. '
        'Trusts the interpreter\'s models of builtins, struct and numpy and the reviewed reference tables. Constructs it cannot resolve are listed as undecided in the evidence.')
NA = {
    'C22': 'numeric error bound of a quantiser: depends on runtime floating-point values no static argument here bounds',
    'C23': 'bit-exact results of data-dependent bit streams: runtime values',
    'C24': 'numerical physics of interpolation: runtime values',
    'C25': 'depends on free-text grammar of real reports; no structural definition to decide against',
    'C26': 'numerical result of pyproj: outside the source',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, json, struct"',
     'checks': [{'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p}',
                 'technique': t, 'level': 'other', 'level_note': NOTE} for p, t in sorted(T.items())],
     'not_applicable': [{'property': p, 'reason': NA.get(p, 'no check yet: see DESIGN.md')} for p in props if p not in T]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
