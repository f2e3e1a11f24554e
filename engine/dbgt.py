import sys
import interp
from interp import *
sub=sys.argv[3]; lim=int(sys.argv[4]); ops=sys.argv[2].split(','); n=[0]
keys=sys.argv[5].split(',') if len(sys.argv)>5 else None
old=LoopHead.add
def add(self, st):
    r=old(self,st)
    if sub in self.what:
        n[0]+=1
        print('HEAD',n[0],self.what[-60:],'new' if r is not None else 'sub', 'fams', sum(len(x) for x in self.seen.values()), len(self.seen))
        for tag,s in (('in ',st),('out',r)):
            if s is None: continue
            print('  ',tag,{k:show(v,4)[:150] for k,v in s.mon.items() if keys is None or k in keys})
            print('     mem',{k:show(v,5)[:200] for k,v in s.mem.items() if walk(v)[1]})
            if keys is None: print('     facts',{show(k):str(v)[:40] for k,v in s.facts.items()},{show(k):show(v) for k,v in s.nums.items()})
        if n[0]>=lim: sys.exit()
    return r
LoopHead.add=add
from transport import *
p=Prog.load(sys.argv[1]); t=Transport(p)
t.OPS=ops
t.analyse()
for k,v in t.violations.items(): print('VIOL',v['property'],'|',v['rule'],'|',v['message'][:300],'|',v['at'],'|',v['stack'][:1],v.get('op'))
