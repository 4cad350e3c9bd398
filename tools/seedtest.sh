#!/bin/bash
# usage: seedtest.sh ID [notest] : confirms a planted bug in a scratch copy: applies, demo passes before and fails after, the stable
# tests still pass, and which check catches it (the property's own).  Prints one line.
ID=$1; V=${VERIFDIR:-/verif}; D=$V/seeded/$ID; W=/tmp/seed-$ID
rm -rf "$W"; mkdir -p "$W"; cp -a /repo "$W/repo"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
run_demo() { (cd "$W/repo"; mkdir -p "$W/d"; cp -r "$D"/. "$W/d/"; rm -f "$W"/d/*.diff "$W"/d/meta.json; sed -i "s#/repo#$W/repo#g" "$W"/d/*; TMPDIR=$W timeout 300 bash "$W/d/demo.sh" >"$W/demo.$1.log" 2>&1; echo $?); }
d0=$(run_demo before)
git -C "$W/repo" apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
d1=$(run_demo after)
t=skipped
if [ "$2" != notest ]; then
  sed "s#/repo#$W/repo#g" /opt/vp/test.sh > "$W/test.sh"
  PYTHONPATH=$W/repo bash "$W/test.sh" "$W/out.json" > "$W/test.log" 2>&1
  t=$(python3 - "$W/out.json" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open(sys.argv[1]))
p=set(o.get('passed', o if isinstance(o,list) else []))
print('missing %s'%sorted(set(b)-p)[:3] if set(b)-p else 'pass')
PY
)
fi
VERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick VERIF_EVID=$W python3 $V/checks/$P.py > "$W/check.log" 2>&1; c=$?
echo "$ID property=$P demo before=$d0 after=$d1 tests=$t check_rc=$c"
grep -m3 -A1 failing "$W/check.log" | cut -c1-400
[ $c -ne 2 ] && rm -rf "$W"
