#!/bin/bash
# explore wrapper: ex.sh SCENARIO N BASE -> summary and first violations
/verif/check.py explore "$1" "$2" "$3" > /tmp/ex.$1 2>&1
python3 - /tmp/ex.$1 <<'P'
import sys,re
t=open(sys.argv[1]).read()
i=t.find('\n}\n'); 
import json
try:
    d=json.loads(t[:i+2]); 
    print({k:d[k] for k in('runs','ok','skip','inconclusive','harness','wall','det','det_bad')}); print('probes',d['probes']); print('faults',d['faults'])
    print(t[i+3:])
except Exception as e: print(e); print(t[-6000:])
P
