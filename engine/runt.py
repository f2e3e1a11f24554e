import sys,time,traceback
from transport import *
p=Prog.load(sys.argv[1])
t=Transport(p)
t0=time.time()
import os
if os.environ.get('TURNS'): t.it.exact_turns=int(os.environ['TURNS'])
if os.environ.get('LONG'): t.it.head_budget=20000; t.long=os.environ['LONG']
if os.environ.get('OPS'): t.OPS=os.environ['OPS'].split(',')
t.it.tolerant=len(sys.argv)<=3
t.it.deadline=time.time()+(int(sys.argv[2]) if len(sys.argv)>2 else 120)
try:
    t.analyse()
except (Unsupported,Budget,Split,Timeout) as e:
    print('ABORT',type(e).__name__,e,'at',t.it.where,t.it.stack[-4:])
    if len(sys.argv)>3: traceback.print_exc()
t.settle_ends()
print('time',round(time.time()-t0,1),'steps',t.it.steps,'ops',t.op_log,'events',len(t.events))
print('unknown',{k[-70:]:v for k,v in t.it.unknown_calls.items()})
print('panics',list(t.it.panics))
print('lost',t.it.lost)
for v,e in t.verdicts(): print('VIOL' if e else 'perhaps',v['approx'],v['property'],'|',v['rule'],'|',v['message'][:300],'|',v['at'],'|',v['stack'][:1],v.get('op'))
print({k:sum(v.values()) for k,v in sorted(t.rules.items())})

print('cut',t.it.cut)

