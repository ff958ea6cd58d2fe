#!/bin/bash
# plant.sh ID [notests]: verifies /verif/seeded/ID in a copy of /repo (demo passes without, fails with the patch; stable tests pass; check reports it)
id=$1; d=/verif/seeded/$id; w=/tmp/pl/$id
/bin/rm -rf "$w"; mkdir -p "$w"; git -C /repo archive HEAD | tar x -C "$w"; 
cd "$w" && git init -q . && git add -A && git -c user.email=a -c user.name=a commit -qm base
export PYTHONPATH=$w PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
timeout 300 bash $d/demo.sh >/tmp/pl/$id.demo0 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id PATCH FAILS"; exit 1; }
timeout 300 bash $d/demo.sh >/tmp/pl/$id.demo1 2>&1; r1=$?
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=skipped
if [ "$2" != notests ]; then
  PYTHONPATH=$w:/opt/vp /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p order_slow_first --timeout=400 --continue-on-collection-errors -n 8 --maxschedchunk 1 -W ignore::DeprecationWarning -o junit_family=xunit2 --junitxml=/tmp/pl/$id.xml tests >/tmp/pl/$id.tests 2>&1
  python3 /opt/vp/results.py /tmp/pl/$id.json junit:/tmp/pl/$id.xml >/dev/null
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=json.load(open('/tmp/pl/$id.json'))['passed']
print(sorted(set(b)-set(p)) or 0)")
fi
s=$(date +%s); (cd /verif; unset PYTHONPATH; VERIF_REPO=$w ./run.sh $prop quick) >/tmp/pl/$id.check 2>&1; c=$?; e=$(date +%s)
echo "$id $prop demo0=$r0 demo1=$r1 tests=$t check=$c ($((e-s))s) $(grep -c VIOLATION /tmp/pl/$id.check)"
/bin/rm -rf "$w"
