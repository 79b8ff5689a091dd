#!/bin/bash
# run.sh LAYER: extract and verify one layer (development helper; X=1: expand errors)
cd /verif
B=${B:-/tmp/vx}; mkdir -p $B
extract/target/debug/vx --src ${SRC:-/repo/src} --contracts contracts --tmpl $1.vt --out $B/$1.rs --report $B/$1.json || exit 2
cd $B
if [ -n "$X" ]; then verus $1.rs --expand-errors --triggers-mode silent "${@:2}" 2>&1 | tail -${N:-60}; exit; fi
timeout ${T:-300} verus $1.rs --triggers-mode silent "${@:2}" > $1.log 2>&1
python3 /verif/extract/errs.py $1 | head -${N:-60}
