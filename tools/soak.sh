#!/bin/bash
# soak.sh ID seed cases : one harness, many cases, outside the driver
cd /verif; id=$1; c=${id,,}; python3 vrun.py $id --build-only || exit 3
v=${4:-asan}; e=$(ls -t build/$v*/$c-*.exe|head -1); rm -f /tmp/soak.$c.*
for i in 0 1 2 3 4 5 6 7; do (ASAN_OPTIONS=detect_leaks=0 $e --seed $2 --from $i --to $3 --step 8 --out /tmp/soak.$c.$i 2>/tmp/soak.$c.err$i; echo "rc $?" >> /tmp/soak.$c.err$i)& done; wait
cat /tmp/soak.$c.? | grep "^V" | sed 's/.*"key":"\([^"]*\)".*/\1/' | sort | uniq -c
cat /tmp/soak.$c.? | grep "^V" | head -${5:-4} | cut -c1-900
cat /tmp/soak.$c.err? | grep -v "rc 0" | head -20
