"""Pretty printer for dumped MIR (debugging aid)."""
import json,sys
def place(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+='@%d'%e[1]
        else: s+=str(e)
    return s
def const(c,T):
    k=c['k']
    if k=='int': return str(c['v'])
    if k=='str': return repr(c['v'])
    if k=='fn': return T[c['ty']]['s']
    return json.dumps(c)[:120]
def op(o,T):
    if o[0] in 'cm': return ('' if o[0]=='c' else 'move ')+place(o[1])
    if o[0]=='k': return const(o[1],T)
    return str(o)
def rv(r,T):
    if r[0]=='use': return op(r[1],T)
    if r[0]=='ref': return '&%s %s'%(r[1],place(r[2]))
    if r[0]=='bin': return '%s(%s,%s)'%(r[1],op(r[2],T),op(r[3],T))
    if r[0]=='un': return '%s(%s)'%(r[1],op(r[2],T))
    if r[0]=='discr': return 'discr(%s)'%place(r[1])
    if r[0]=='agg': return '%s{%s}'%(r[1],', '.join(op(x,T) for x in r[2]))
    if r[0]=='cast': return 'cast %s %s as %s'%(r[1],op(r[2],T),T[r[3]]['s'])
    if r[0] in('reborrow','rawptr'): return '&%s(%s) %s'%(r[0],r[1],place(r[2]))
    return str(r)
def body(b,T):
    print('FN',b['key'],'argc',b['argc'],'spread',b['spread'],b['span'],b['kind'])
    print('  names',b['names'])
    for i,l in enumerate(b['locals']): print('   _%d: %s'%(i,T[l]['s'][:150]))
    for i,bl in enumerate(b['blocks']):
        if bl is None: continue
        print(' bb%d:'%i)
        for s in bl['s']:
            if s[0]=='=': print('    %s = %s'%(place(s[1]),rv(s[2],T)))
            elif s[0] in('live','dead'): print('    %s _%d'%(s[0],s[1]))
            else: print('   ',s)
        t=bl['t']
        if t[0]=='call': print('    %s = CALL %s(%s) -> %s'%(place(t[3]),op(t[1],T),', '.join(op(x,T) for x in t[2]),t[4]))
        elif t[0]=='switch': print('    switch %s %s else %s'%(op(t[1],T),t[3],t[4]))
        elif t[0]=='drop': print('    drop %s -> %s'%(place(t[2]),t[1]))
        else: print('   ',t)
if __name__=='__main__':
    d=json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if len(sys.argv)<3: print(b['key'])
        elif sys.argv[2] in b['key']: body(b,d['types'])
