#!/bin/bash
# sweep.sh "IDS" "SEEDS" [tier]: run checks over seeds, print only what is not HELD.
cd /verif
for s in $2; do for k in $1; do
 o=$(VERIF_SEED=$s VERIF_TIER=${3:-quick} python3 check.py $k 2>&1); rc=$?
 if [ $rc != 0 ]; then echo "== $k seed $s rc $rc"; echo "$o" | cut -c1-400 | head -25; fi
done; done
echo sweep done
