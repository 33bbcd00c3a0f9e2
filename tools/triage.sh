#!/bin/bash
# tools/triage.sh SECONDS SEED [PROP]: 8 workers over all properties, prints the violation classes
cd "$(dirname "$0")/.."; B=${B:-build/t}; rm -rf /tmp/tri; mkdir -p /tmp/tri
for j in $(seq 0 $((${N:-8}-1))); do $B/sim batch --dir=$B --prop=${3:-0} --seed=$2 --seconds=$1 --stride=${N:-8} --offset=$j --keepgoing --replay=/tmp/tri/r$j --out=/tmp/tri/b$j.json --sets=/tmp/tri/s$j >/tmp/tri/o$j 2>&1 & done; wait
python3 - <<'P'
import json,glob
runs=0;v={};f={}
for p in glob.glob('/tmp/tri/b*.json'):
    b=json.load(open(p)); runs+=b['runs']
    if b['errors'] or b['mismatch']: print('ERR',b['errors'],b['mismatch'],b['error_detail'])
    for k,c in b['violations'].items():
        cl,s=k.split(' seed '); x=v.setdefault(cl,[0,s]); x[0]+=c
    for k,c in b['foreign_detail'].items(): f[k]=f.get(k,0)+c
print('runs',runs,'viol',v,'foreign',f)
P
cat /tmp/tri/o* | cut -c1-${W:-700}
