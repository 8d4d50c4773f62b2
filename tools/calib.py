import sys,json,re,collections
d=collections.defaultdict(list)
for f in sys.argv[1:]:
    for l in open(f):
        if not l.startswith('VIOL'): continue
        o=json.loads(l[5:])
        for v in o['viol']:
            m=re.search(r'error (\S+) .*support (\d+)/(\d+), oversampling (\d+)/(\d+), theta (\S+), w_step (\S+), height (\d+)',v['msg'])
            if m: d[(int(m[2]),int(m[3]))].append((float(m[1]),o['seed'],float(m[6])**2*float(m[7]),m[4],m[5],m[8]))
for k in sorted(d):
    x=sorted(d[k]); n=len(x)
    print(k,n,'median %.4g 90%% %.4g 99%% %.4g'%(x[n//2][0],x[int(n*.9)][0],x[int(n*.99)][0]),'max',x[-4:])
