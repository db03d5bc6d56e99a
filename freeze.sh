#!/bin/bash
# freeze.sh CRATE : record the driver names of a driver crate (every driver must be analysed by its check)
bash /verif/t.sh $1 c >/dev/null 2>&1
python3 - $1 <<'P'
import json,sys
n=sorted(d['driver'] for d in json.load(open(f'/tmp/o.{sys.argv[1]}.json')))
open(f'/verif/drv/{sys.argv[1]}/drivers.txt','w').write('\n'.join(n)+'\n'); print(len(n))
P
python3 /verif/gen.py
