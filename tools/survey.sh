#!/bin/bash
# survey.sh PROP SECONDS [extra worker args]: run 8 workers, list violations by signature.
P=$1; T=$2; shift 2
B=$(python3 /verif/build.py 2>/tmp/survey.build | tail -1); [ -n "$B" ] || { grep -A3 error: /tmp/survey.build | head -40; exit 1; }
D=$(mktemp -d)
for w in 1 2 3 4 5 6 7 8; do $B worker --prop $P --start $w --stride 8 --tmax $T --keep 1 "$@" > $D/$w 2>$D/$w.err & done; wait
grep -h ^VIOL $D/* | python3 -c "
import sys,json,collections
d=collections.OrderedDict()
for l in sys.stdin:
    o=json.loads(l[5:])
    for v in o['viol']:
        d.setdefault(v['sig'],[]).append((o['seed'],v['msg']))
for k,v in sorted(d.items(),key=lambda x:-len(x[1])): print(len(v),k,'| seed',v[0][0],'|',v[0][1][:400])
"
grep -h ^LOST $D/* | cut -c1-150 | sort | uniq -c | sort -rn | head -5
grep -h ^STATS $D/* | python3 -c "
import sys,json
r=n=f=0;ops={};filt={}
for l in sys.stdin:
    o=json.loads(l[6:]); r+=o['runs']; n+=o['nontrivial']; f+=o['filtered']
    for k,v in o['ops'].items(): ops[k]=ops.get(k,0)+v
print('runs',r,'nontrivial',n,'filtered',f); print({k:v for k,v in sorted(ops.items()) if not k.startswith('filtered')}); print(list({k.split('first:')[-1] for k in ops if k.startswith('filtered')})[:4])
"
cp $D/* /tmp/survey/ 2>/dev/null
/bin/rm -r $D
