#!/usr/bin/env python3
"""Dump the VGF layout table /verif/spec/vgf.json (development time only; the
result was reviewed against GEMPAK's vgstruct.h and is committed).  Checks only
read the table."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.vgfspec import *
from sa.ser import to_json

# corrections to what the present reader does: the record layout is the authority
OVERRIDE = {('SigmetElement', 'status'): T('rd', 'FILE', C(100), '>i')}


def main():
    table, index, kinds = [], {}, {}

    def put(v):
        v = erase(v)
        if v not in index:
            index[v] = len(table)
            table.append(to_json(v))
        return index[v]
    for kd in KINDS:
        f = facts_of(kd)
        cls, cond, at = merged_attrs(f)
        assert len(cls) == 1
        for (c, n), v in OVERRIDE.items():
            if cls == [c]:
                data = next(x.args[0] for x in subterms(at['vg_type' if 0 else 'lat']) if isinstance(x, T) and x.op == 'arr')
                at[n] = T('rd', data, C(100), '>i')
        adv = normal(f['advance'], assume({}, cond))
        kinds['%d,%d,%d' % kd] = {'cls': cls[0], 'cond': put(normal(cond)), 'advance': put(adv),
                                 'attrs': {n: put(v) for n, v in at.items()}}
    with open(os.path.join(HERE, 'spec', 'vgf.json'), 'w') as o:
        o.write('{"terms": [\n' + ',\n'.join(json.dumps(t, separators=(',', ':')) for t in table) + '\n],\n"kinds": ')
        json.dump(kinds, o, indent=0)
        o.write('}\n')
    print(len(table), 'terms', len(kinds), 'kinds')


main()
