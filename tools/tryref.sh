#!/bin/bash
# tryref.sh PATCH [CHECK...]: run the checks (default: all) on /repo with a
# behaviour-preserving PATCH, in private mounts; they have to stay quiet.
P=$(realpath "$1"); shift
CH=${*:-$(seq -f C%02g 1 26)}
W=$(mktemp -d /tmp/ref.XXXXXX)
mkdir "$W/vp"; cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/mc /verif/run.sh /verif/*.json* /verif/known_findings.txt "$W/verif/"; cp -a /opt/vp/. "$W/vp"; cp "$P" "$W/p.diff"
unshare -m bash -c '
W='"$W"'; CH="'"$CH"'"
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo; git apply $W/p.diff || exit 1
bash /opt/vp/build.sh >$W/b.log 2>&1 || { echo BUILD FAILS; cat $W/b.log; }
cd /verif
for c in $CH; do
 s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./run.sh check $c >$W/c.log 2>&1; rc=$?; e=$(date +%s)
 if [ $rc = 0 ]; then v=quiet; else v=ALARM; fi
 echo "$c rc=$rc $v $((e-s))s $(grep -v "^VIOLATION" $W/c.log | grep -m1 -iE "fail|viol|:" | cut -c1-400)"
done
'
rm -rf "$W"
