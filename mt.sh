#!/bin/bash
# mt.sh FILE SED DRV FNS : dev helper, analyses with a temporary edit of /repo
cd /repo && git diff --quiet || { echo "/repo dirty"; exit 1; }
sed -i "$2" src/$1; git diff --stat | head -3
git diff | grep '^[+-] ' 
bash /verif/t.sh $3 $4; grep -A7 "^[0-9]* error" /tmp/o.$3.log | head -20
git -C /repo checkout -q -- .
