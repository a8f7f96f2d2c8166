#!/bin/bash
# seedcheck.sh ID [PROPS...]: applies seeded/ID/patch.diff to /repo, builds, runs stable tests + demo, runs the checks, and undoes it
id=$1; shift; d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NOTEST" ]; then
bash $d/demo.sh >/tmp/sd0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/sb.log; exit 1; }
bash /opt/vp/test.sh /tmp/st.json >/tmp/stt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/st.json'))
def g(d,k): return set(d.get(k,[]))
bp=set(b['stable']); tp=set(t.get('passed') or t.get('pass') or [])
print('tests lost:', sorted(bp-tp)[:10], len(bp))
P
bash $d/demo.sh >/tmp/sd1.log 2>&1; r1=$?
echo "demo clean=$r0 patched=$r1"
else git apply $d/patch.diff || exit 1; fi
cd /verif
for p in ${@:-$prop}; do VP_OUT=/tmp/vpout ./check $p > /tmp/sc_$p.log 2>&1; echo "check $p exit $?: $(grep -m1 'VIOLATION' /tmp/sc_$p.log) $(grep -m3 '^  \|ERROR' /tmp/sc_$p.log | cut -c1-200)"; done
