#!/bin/bash
# runs the stable tests on a scratch copy of /repo's working tree
W=/tmp/rt-$$; mkdir -p "$W"; cp -a /repo "$W/repo"
sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
PYTHONPATH=$W/repo bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
m=sorted(set(b)-set(o['passed'])); print('missing', len(m), m[:10])
PY
rm -rf "$W"
