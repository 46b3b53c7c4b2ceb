#!/usr/bin/env python3
"""meta.py ID PROPERTY NEEDS BREAKS"""
import json, sys
i, p, n, b = sys.argv[1:]
json.dump({'property': p, 'needs': n, 'what_it_breaks': b}, open(f'/verif/seeded/{i}/meta.json', 'w'), indent=1)
