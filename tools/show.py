import sys,json
for l in sys.stdin:
    d=json.loads(l)
    print(d['root'],d['status'],d['why'],'secs',d['secs'],'nodes',d['nodes'],'blocks',d['blocks'],'checks',d['checks'],d['covers'])
    for e in d['events']:
        print('   ',e['kind'],e['msg'],'|',e['func'],e['site'])
        w={}
        for k,v in e['witness'].items():
            n,_,b=k.rpartition('.')
            if b.isdigit(): w.setdefault(n,0); w[n]|=v<<int(b)
            else: w[k]=v
        print('       ',{k:hex(v) for k,v in w.items()})
