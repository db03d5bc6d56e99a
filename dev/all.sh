#!/bin/bash
# runs every claimed check on the current tree (dev helper)
cd /verif; for i in $(python3 -c "import json;print(*json.load(open('checks.json')))"); do o=$(python3 check.py $i 2>&1); r=$?; echo "$i rc=$r $(echo "$o" | tail -1)"; [ $r = 0 ] || echo "$o" | head -20; done
