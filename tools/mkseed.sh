#!/bin/bash
# usage: mkseed.sh ID PROPERTY  -- /tmp/wt holds an edited copy of /repo; demo.py is in seeded/ID
ID=$1; PROP=$2; D=/verif/seeded/$ID
cd /tmp/wt || exit 1
git diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no diff"; exit 1; }
cat > "$D/demo.sh" <<'X'
#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" TZ=UTC PROJ_NETWORK=OFF
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
X
T=$(PYTHONPATH=/tmp/wt/src PYTHONDONTWRITEBYTECODE=1 TZ=UTC PROJ_NETWORK=OFF /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -1)
bash "$D/demo.sh" > /tmp/demo.out 2>&1; W=$?
(cd /repo && bash "$D/demo.sh" >/tmp/demo2.out 2>&1); R=$?
C=$(cd /verif && VERIF_REPO=/tmp/wt python3 check.py $PROP 2>&1 | grep -vE "^KNOWN" | cut -c1-260 | tail -4)
echo "== $ID tests[$T] demo-with-bug=$W demo-repo=$R"; tail -1 /tmp/demo.out | cut -c1-150; [ $R = 0 ] || tail -3 /tmp/demo2.out; echo "$C"
git checkout -q -- .
