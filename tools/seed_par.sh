#!/bin/bash
# usage: seed_par.sh [SEED...]; like seed_check.sh, but on scratch copies of /repo, four at a time.
ids="$@"; [ -z "$ids" ] && ids=$(ls /verif/seeded)
one() {
  s=$1; d=/verif/seeded/$s; c=/tmp/seedcopy.$s
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf "$c"; cp -a /repo "$c"; cd "$c" || exit
  . /opt/vp/env.sh
  bash $d/demo.sh >/tmp/seed.$s.clean 2>&1; clean=$?
  git apply $d/patch.diff || { echo "$s APPLY-FAILED"; rm -rf "$c"; return; }
  PYTHONPATH="$c" /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=/tmp/seed.$s.xml >/dev/null 2>&1
  /usr/bin/python3 /opt/vp/results.py /tmp/seed.$s.json junit:/tmp/seed.$s.xml >/dev/null
  tests=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed.$s.json'));x=sorted(set(b)-set(o['passed']));print(len(x),*x[:2])")
  bash $d/demo.sh >/tmp/seed.$s.bad 2>&1; bad=$?
  t0=$SECONDS; VP_REPO="$c" /verif/run.sh $prop >/tmp/seed.$s.chk 2>&1; chk=$?
  v=$(grep -c "^VIOLATION property=$prop" /tmp/seed.$s.chk)
  verdict=MISSED; [ $chk = 1 ] && [ $v -gt 0 ] && verdict=CAUGHT
  note=; [ $clean = 0 ] || note="$note DEMO-FAILS-ON-CLEAN"; [ $bad != 0 ] || note="$note DEMO-PASSES-WITH-PATCH"
  [ "$tests" = 0 ] || note="$note TESTS-FAIL($tests)"
  echo "$s $prop $verdict rc=$chk $((SECONDS-t0))s$note"
  cd /; rm -rf "$c"
  flock /tmp/seed.lock python3 - "$s" "$verdict$note" <<'P'
import json, sys
f = "/verif/tools/seed_results.json"
try: d = json.load(open(f))
except FileNotFoundError: d = {}
d[sys.argv[1]] = sys.argv[2].lower()
json.dump(d, open(f, "w"), indent=0, sort_keys=True)
P
}
export -f one
printf '%s\n' $ids | xargs -P 4 -I{} bash -c 'one {}'
