#!/bin/bash
# plant.sh ID: turn the edits in the scratch copy /tmp/w into seeded/ID/patch.diff,
# after running the test suite and the demonstration with and without them.
set -u
ID=$1
D=/verif/seeded/$ID
[ -f $D/demo.py ] && [ -f $D/meta.json ] || { echo "write demo.py and meta.json first"; exit 2; }
cat > $D/demo.sh <<'S'
#!/bin/bash
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
S
git -C /tmp/w diff -- src > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no edits"; exit 2; }
(cd /repo && timeout 300 bash $D/demo.sh) >/tmp/plant.out 2>&1; a=$?
[ $a = 0 ] || tail -3 /tmp/plant.out
(cd /tmp/w && timeout 300 bash $D/demo.sh) >/tmp/plant.out 2>&1; b=$?
tail -1 /tmp/plant.out
(cd /tmp/w && PYTHONPATH=/tmp/w/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=120 test 2>&1 | tail -4)
echo "$ID demo unchanged=$a patched=$b"
git -C /tmp/w checkout -q -- .
