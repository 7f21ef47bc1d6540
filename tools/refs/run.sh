#!/bin/bash
# run.sh VARIANT [props…]: inside priv.sh: apply, build, test, run checks
V=$1; shift
python3 $(dirname "$0")/$V.py || exit 1
cd /repo && gofmt -l . ; bash /opt/vp/build.sh > /tmp/refs/$V.build 2>&1 || { tail -20 /tmp/refs/$V.build; exit 1; }
[ $# -gt 0 ] || set -- $(seq -f 'C%02g' 1 33)
cd /tmp/vw
for p in $@; do s=$(date +%s); taskset -c 0-2 nice -n 10 ./bin/gosym check -prop $p -v -time 300 -verif /tmp/vw -workers 3 > /tmp/refs/$V.$p.log 2>&1; rc=$?; echo "$p rc=$rc $(( $(date +%s)-s ))s $(grep -E 'VIOLATION|ERROR|inconclusive [0-9]|incomplete="[^"]' /tmp/refs/$V.$p.log | head -3)"; tail -1 /tmp/refs/$V.$p.log | grep -v "0 inconclusive, 0 viol"; done
