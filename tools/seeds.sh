#!/bin/bash
# seeds.sh flavour harness from to [extra]
P=$(python3 /tmp/bp.py $1 $2) || exit 1
h=$2; f=$3; t=$4; shift 4
export ASAN_OPTIONS=detect_leaks=0:exitcode=97 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
seq $f $t | xargs -P 8 -I{} bash -c "mkdir -p /tmp/o/$h-{}; cd /tmp/o/$h-{}; timeout 600 $P --seed {} --dir /tmp/o/$h-{} --out /tmp/o/$h-{}.json $* >/tmp/o/$h-{}.log 2>&1; r=\$?; [ \$r = 0 ] || { echo seed {} rc \$r; grep -a -A12 'runtime error\|ERROR: Addr' /tmp/o/$h-{}.log | head -20; cat /tmp/o/$h-{}.json.prog; tail -c 600 /tmp/o/$h-{}.log; }; cut -c1-500 /tmp/o/$h-{}.json.viol"
rm -rf /tmp/o/$h-*/
