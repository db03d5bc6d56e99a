#!/bin/bash
for i in $(seq 1 ${1:-25}); do P=$(pgrep -f 'samplint.*vdrv_' | tail -1); timeout 20 gdb -p $P -batch -ex "thread apply all bt 40" 2>/dev/null | grep -oE "samplint::[a-zA-Z_]+::[a-zA-Z_:]+" | grep -v "main" | awk '!s[$0]++' | head -${2:-6} | sed s/samplint::// | tr '\n' ' '; echo; sleep 0.3; done
