#!/bin/bash
# trybug.sh NAME...: demo and check of seeded bugs in a scratch copy of /repo (dev tool; the tests are left to vcheck)
T=$(cd "$(dirname "$0")/.." && pwd)
for n in "$@"; do
  D=$T/seeded/$n
  W=$(mktemp -d /tmp/bug-XXXXXX)
  cp -a /repo "$W/repo"
  cd "$W/repo" || exit 1
  (cd "$W/repo" && bash "$D/demo.sh" >"$W/d0" 2>&1); r0=$?
  git apply "$D/patch.diff" || { echo "$n: patch does not apply"; rm -rf "$W"; continue; }
  sed "s#/repo#$W/repo#g" /opt/vp/build_ext.py > "$W/be.py" 2>/dev/null
  (SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0 /opt/venv/bin/python "$W/be.py" >"$W/b" 2>&1) || { echo "$n: BUILD FAILED"; tail -5 "$W/b"; }
  (bash "$D/demo.sh" >"$W/d1" 2>&1); r1=$?
  tests=
  if [ -n "$TESTS" ]; then
    sed -e "s#/opt/vp/build_ext.py#$W/be.py#; s#/opt/vp/reports#$W/reports#; s#cd /repo#cd $W/repo#" /opt/vp/test.sh > "$W/test.sh"
    bash "$W/test.sh" "$W/t.json" >"$W/t" 2>&1
    tests=$(python3 -c "import json;t=json.load(open('$W/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));m=set(b['stable'])-set(t['passed']);print('tests FAIL',len(m),sorted(m)[:2]) if m else print('tests ok')")
  fi
  id=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd "$T"
  VERIF_REPO="$W/repo" python3 run.py "$id" --tier quick >"$W/c" 2>&1; rc=$?
  echo "$n: demo clean=$r0 patched=$r1 $tests check $id exit=$rc $(grep -c VIOLATION "$W/c") violations | $(grep '^---' "$W/c" | head -1 | cut -c1-150)"
  [ $r0 = 0 ] || tail -3 "$W/d0"
  rm -rf "$W"
done
