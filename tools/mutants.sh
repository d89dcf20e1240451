#!/bin/bash
# mutants.sh LIST K OUTDIR: K copies of mutants.py, each in private mounts.
LIST=$(realpath "$1"); K=$2; OUT=$3; mkdir -p "$OUT"; OUT=$(realpath "$OUT")
for w in $(seq 0 $((K-1))); do
 W=$OUT/w$w; rm -rf "$W"; mkdir -p "$W/verif/evidence"
 cp -a /repo "$W/repo"; cp -a /verif/mc /verif/*.json* /verif/known_findings.txt "$W/verif/"
 cp /verif/tools/mutants.py "$OUT/"
 unshare -m bash -c "mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /; exec python3 $OUT/mutants.py $LIST $w $K $OUT/res.$w" &
done
wait
