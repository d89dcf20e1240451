#!/bin/bash
# tryfix.sh COMMIT CHECK: undo a fix commit of /repo in private mounts and run a check.
C=$1; K=$2
W=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/mc /verif/run.sh "$W/verif/"
unshare -m bash -c '
mount --bind '"$W"'/repo /repo; mount --bind '"$W"'/verif /verif
cd /repo
git -c user.name=x -c user.email=x@x revert --no-commit '"$C"' >/dev/null 2>&1 || { echo "'"$C $K"' does not revert"; exit; }
cd /verif
./run.sh check '"$K"' >'"$W"'/c.log 2>&1; rc=$?
v=missed; [ $rc = 1 ] && grep -q "^VIOLATION property='"$K"' " '"$W"'/c.log && v=CAUGHT
echo "'"$C $K"' rc=$rc $v $(grep -v "^VIOLATION" '"$W"'/c.log | grep -m1 -iE "fail|viol|:" | cut -c1-200)"
'
rm -rf "$W"
