#!/bin/bash
# tryseed.sh ID [CHECK...]: in private mounts over /repo and /verif, confirm a
# planted bug (builds, stable tests, demo) and run the checks (default: its own).
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
CH=${*:-$P}
W=$(mktemp -d /tmp/try.XXXXXX)
mkdir "$W/vp"; cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/mc /verif/run.sh /verif/*.json* /verif/known_findings.txt "$W/verif/" 2>/dev/null; cp -a "$S" "$W/seed"; cp -a /opt/vp/. "$W/vp"
unshare -m bash -c '
W='"$W"'; CH="'"$CH"'"; ID='"$ID"'
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo
tests() { bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1; python3 - $W/t.json <<PY
import json,sys
r=json.load(open(sys.argv[1])); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
p=r.get("passed") or r.get("pass") or r
bad=[t for t in b if not (t in p and (p[t] in ("pass","passed",True) if isinstance(p,dict) else True))]
print("TESTS-OK" if not bad else "TESTS-BAD %s"%bad)
PY
}
if [ -z "$NODEMO" ]; then
bash $W/seed/demo.sh >$W/d0.log 2>&1; d0=$?
fi
git apply $W/seed/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$W/b.log 2>&1 || echo "$ID BUILD FAILS: $(cat $W/b.log)"
if [ -z "$NODEMO" ]; then
t=$(tests)
bash $W/seed/demo.sh >$W/d1.log 2>&1; d1=$?
[ $d0 = 0 ] && [ $d1 != 0 ] && [ "$t" = TESTS-OK ] && echo "$ID CONFIRMED ($(grep -v "^\(FAIL\|---\|exit\|ok\)" $W/d1.log | head -2 | tr "\n" " " | cut -c1-160))" || { echo "$ID NOT-CONFIRMED d0=$d0 d1=$d1 $t"; tail -5 $W/d0.log; tail -5 $W/d1.log; }
fi
cd /verif
for c in $CH; do
 s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./run.sh check $c >$W/c.log 2>&1; rc=$?; e=$(date +%s)
 [ -n "$LOG" ] && { cp $W/c.log "$LOG"; cp /verif/evidence/$c.json "$LOG.json"; }; if [ $rc = 1 ] && grep -q "^VIOLATION property=$c " $W/c.log; then v=CAUGHT; else v=missed; fi
 echo "$ID $c rc=$rc $v $((e-s))s $(grep -v "^VIOLATION" $W/c.log | grep -m1 -iE "fail|viol|:" | cut -c1-200)"
done
'
rm -rf "$W"
