#!/bin/bash
# usage: seed_check.sh [SEED...]; applies each seeded change in /repo, runs tests, demo and its property's check.
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for s in $ids; do
  d=/verif/seeded/$s
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  (cd /repo && bash $d/demo.sh >/tmp/seed.$s.clean 2>&1); clean=$?
  git -C /repo apply $d/patch.diff || { echo "$s APPLY-FAILED"; continue; }
  tests=$(bash tools/rt.sh | head -1 | sed 's/.*: *//')
  (cd /repo && bash $d/demo.sh >/tmp/seed.$s.bad 2>&1); bad=$?
  t0=$SECONDS; ./run.sh $prop >/tmp/seed.$s.chk 2>&1; chk=$?
  v=$(grep -c "^VIOLATION property=$prop" /tmp/seed.$s.chk)
  git -C /repo checkout -q -- .
  verdict=MISSED; [ $chk = 1 ] && [ $v -gt 0 ] && verdict=CAUGHT
  note=; [ $clean = 0 ] || note="$note DEMO-FAILS-ON-CLEAN"; [ $bad != 0 ] || note="$note DEMO-PASSES-WITH-PATCH"
  [ "$tests" = 0 ] || note="$note TESTS-FAIL($tests)"
  echo "$s $prop $verdict rc=$chk $((SECONDS-t0))s$note"
  python3 - "$s" "$verdict$note" <<'P'
import json, sys
f = "/verif/tools/seed_results.json"
try: d = json.load(open(f))
except FileNotFoundError: d = {}
d[sys.argv[1]] = sys.argv[2].lower()
json.dump(d, open(f, "w"), indent=0, sort_keys=True)
P
done
