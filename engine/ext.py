import json,sys,collections
d=json.load(open(sys.argv[1])); T=d['types']; C=collections.Counter(); W={}
for b in d['bodies']:
    for bl in b['blocks']:
        if bl and bl['t'][0]=='call':
            f=bl['t'][1]
            if f[0]=='k' and f[1]['k']=='fn':
                c=T[f[1]['ty']]['callee']
                if c.get('ctor') or c.get('inst'): continue
                n=(c['path'],c.get('rpath') if c.get('rpath')!=c['path'] else '=',c.get('shim',''))
                C[n]+=1; W.setdefault(n,b['key'][:60])
for n,k in sorted(C.items(),key=str): print(k,*n,'   @',W[n])
