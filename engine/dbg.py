import sys
import interp
from interp import *
n=[0]
old = LoopHead.add
def add(self, st):
    n[0]+=1
    r = old(self, st)
    if n[0] < int(sys.argv[3]):
        print('HEAD', self.what, 'new' if r is not None else 'sub')
        s = r if r is not None else st
        for k,v in s.mem.items(): print('   ', k, show(v, 8)[:300])
        for k,v in s.facts.items(): print('   F', show(k), show(v) if isinstance(v,tuple) else v)
        for k,v in s.nums.items(): print('   N', show(k), show(v))
    else: sys.exit()
    return r
LoopHead.add = add
sys.argv = [sys.argv[0], sys.argv[1], sys.argv[2], sys.argv[3]]
exec(open('try1.py').read())
