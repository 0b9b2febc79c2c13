#!/bin/bash
# try.sh BIN HARNESS RUNS SECS [-D k=v ...]: run and summarise (development aid)
cd /verif && python3 tools/build.py $1 || exit 2
b=$1; h=$2; r=$3; s=$4; shift 4
SEED=${SEED:-1}
${DSIM_BUILD:-./build}/bin/$b --harness $h --seed $SEED --runs $r --secs $s --jobs ${JOBS:-8} --cpu ${CPU:-20} --scratch /tmp "$@" >/tmp/try.$$.txt
python3 - /tmp/try.$$.txt <<'EOP'
import json,collections,sys
c=collections.Counter(); ex={};n=0;ph=collections.Counter();fl=collections.Counter();sim=0;st=0;hs=set()
for l in open(sys.argv[1]):
    r=json.loads(l); n+=1; c[r['class']]+=1
    e=ex.setdefault(r['class'],[])
    if len(e)<3: e.append((r['seed'],r['msg'][:600],r['sample'][:300]))
    ph.update(r['probes']);fl.update(r['faults']);sim+=r['sim_ns'];st+=r['steps'];hs.add(r['hash'])
print(n,'runs',len(hs),'distinct',dict(c),'simsec',round(sim/1e9,1),'steps/run',st//max(n,1)); print(' probes',dict(ph)); print(' faults',dict(fl))
for k,v in ex.items():
    for x in v: print('  ',repr(k),x)
EOP
rm -f /tmp/try.$$.txt
