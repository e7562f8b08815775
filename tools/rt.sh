#!/bin/bash
# Run the repository's tests; print stable ones that no longer pass.
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/rt.json'))
bad=set(b)-set(o['passed']); print('stable now failing:',len(bad)); print(*sorted(bad)[:20],sep='\n')
PY
