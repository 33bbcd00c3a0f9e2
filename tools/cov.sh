#!/bin/bash
# tools/cov.sh SECONDS OUT [PROP]: which lines of the server code the simulation reaches (measuring only)
cd /verif; mkdir -p $2; COV=1 ./build.sh /tmp/cov 2>&1 | tail -3
rm -f /tmp/cov/pcs; SIM_COV=/tmp/cov/pcs B=/tmp/cov W=200 tools/triage.sh $1 77 $3
python3 - $2 <<'P'
import subprocess,re,sys
so='/tmp/cov/icbd.0.so'
pcs=open('/tmp/cov/pcs','rb').read()
d=subprocess.run(['objdump','-d','--no-show-raw-insn',so],capture_output=True,text=True).stdout.split('\n')
sites=[]
for i,l in enumerate(d):
    if '__sanitizer_cov_trace_pc@plt' in l and 'call' in l:
        n=re.match(r'\s*([0-9a-f]+):',d[i+1]); 
        if n: sites.append(int(n.group(1),16))
out=subprocess.run(['addr2line','-e',so,'-f']+[],input='\n'.join(hex(s) for s in sites),capture_output=True,text=True).stdout.split('\n')
hit={};allb={}
for k,s in enumerate(sites):
    f=out[2*k+1].split(' ')[0]; allb.setdefault(f,[0,0]); allb[f][0]+=1; allb[f][1]+=pcs[s]
c=sum(1 for s in sites if pcs[s]); print('blocks',len(sites),'reached',c)
un=sorted((f for f,v in allb.items() if v[1]<v[0]),key=lambda f:(f.rsplit(':',1)[0],int(f.rsplit(':',1)[1]) if f.rsplit(':',1)[1].isdigit() else 0))
with open(sys.argv[1]+'/uncovered.txt','w') as o:
    for f in un:
        p,_,n=f.rpartition(':')
        try: src=open(p).read().split('\n')[int(n)-1].strip()
        except Exception: src=''
        o.write('%s %d/%d %s\n'%(f.replace('/repo/',''),allb[f][1],allb[f][0],src))
P
