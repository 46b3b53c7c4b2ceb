#!/bin/bash
# every behaviour-preserving diff of selftest/ against every claimed check: prints what is not quiet
# usage: tools/selftest.sh [NAME...] ; CHECKS="C01 C02" limits the checks
cd "$(dirname "$0")/.."
IDS=${CHECKS:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for d in ${@:-$(ls selftest/*.diff | xargs -n1 basename | sed 's/.diff$//')}; do
  w=$(mktemp -d /tmp/st.XXXX); cp -a /repo/. $w/
  if ! git -C $w apply /verif/selftest/$d.diff 2>/dev/null; then echo "$d: does not apply"; rm -rf "$w"; continue; fi
  for i in $IDS; do (o=$(VERIF_REPO=$w timeout 900 python3 check.py $i 2>&1); rc=$?; echo "$d $i rc=$rc $(echo "$o" | tail -1 | cut -c1-110)"
     [ $rc != 0 ] && echo "$o" | head -3 | cut -c1-250) & done; wait
  rm -rf "$w"
done
