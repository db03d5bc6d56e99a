#!/bin/bash
# t.sh DRIVER FNS  : dev helper
export D=/verif/drv/$1 T=/verif/target SAMPLINT_CRATE=vdrv_$1 SAMPLINT_FN=$2 SAMPLINT_OUT=/tmp/o.$1.json
rm -rf $T/debug/build/llm-samplers* ; rm -f $SAMPLINT_OUT
ls $T/debug/.fingerprint 2>/dev/null | grep -E "^(llm-samplers|vdrv)" | while read f; do rm -rf $T/debug/.fingerprint/$f; done
time timeout ${TMO:-880} /verif/run.sh 2>&1 | awk "{ print systime()-T0, \$0; fflush() }" T0=$(date +%s) > /tmp/o.$1.log
python3 /verif/show.py $SAMPLINT_OUT
