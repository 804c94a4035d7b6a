#!/bin/bash
# try_bugs.sh [-t] ID...   development aid: for each planted bug, in a scratch
# copy of /repo: demo on the unchanged and the changed tree, the property's
# quick check against the changed copy, and (-t) the repository's tests.
tests=0; [ "$1" = -t ] && { tests=1; shift; }
export PYTHONDONTWRITEBYTECODE=1
WT=${WT:-/tmp/wt}
for id in "$@"; do
  d=/verif/seeded/$id
  rm -rf "$WT"; cp -a /repo "$WT"; git -C "$WT" checkout -q -- .
  ( cd "$WT" && bash "$d/demo.sh" >/tmp/demo.out 2>&1 ); a=$?
  git -C "$WT" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  if grep -q '\.pyx' "$d/patch.diff"; then (cd "$WT"; rm -rf build; find turbustat -name '*.cpython-*.so' -delete; /opt/venv/bin/python setup.py -q build_ext --inplace >/dev/null 2>&1); fi
  ( cd "$WT" && timeout 300 bash "$d/demo.sh" >/tmp/demo.out 2>&1 ); b=$?
  p=$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  VP_REPO=$WT timeout 900 bash /verif/run.sh "$p" quick >/tmp/check.$id.out 2>&1; c=$?
  v=$(grep -o 'P[0-9]*-[A-Za-z0-9_]*.json' /tmp/check.$id.out | sort -u | tr '\n' ' ')
  t=-
  if [ $tests = 1 ]; then
    ( cd "$WT" && PYTHONHASHSEED=0 MPLBACKEND=Agg PYTHONPATH=/opt/vp/plugin OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 \
      /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_isolate --timeout=400 -n 8 --dist loadfile \
      --junitxml=/tmp/junit.xml turbustat docs >/tmp/tests.$id.out 2>&1
      /opt/venv/bin/python /opt/vp/results.py /tmp/try.json junit:/tmp/junit.xml >/dev/null )
    t=$(/opt/venv/bin/python /tmp/w/cmp.py /tmp/try.json | tr '\n' ' ')
  fi
  echo "$id: $p demo clean=$a changed=$b check=$c [$v] tests: $t"
done
rm -rf "$WT"
