import sys, traceback, signal
class TO(Exception): pass
def al(*a): raise TO('timeout')
signal.signal(signal.SIGALRM, al)
from vals import *
from interp import *
p = Prog.load(sys.argv[1])
sub = sys.argv[2] if len(sys.argv) > 2 else ''
class H:
    def __init__(s): s.em=[]
    region = None
    def keep_fact(s, st, k): return False
    def charset(s, st, ct): return None
    def on_byte(s, st, t, i): pass
    def on_emit(s, st, n, ps): s.em.append((n, ps)); (len(st.mon.get('out', ('s',()))[1])<0 and st.mon.__setitem__('out', ('s', pieces_cat(st.mon.get('out', ('s',()))[1], ps))))
    def panicked(s, *a): pass
    def on_fact(s, *a): pass
    def on_insert(s, st, set_, v): s.em.append(('ins', show(v)))
    def io(s, st, op, args, ty): raise Unsupported('io '+op)
verbose = len(sys.argv) > 3
for r in p.roots:
    if sub not in r['path'] or r['kind'] == 'Const': continue
    b = p.body(r['key'])
    if b is None:
        print('NOBODY', r['path']); continue
    it = Interp(p, H())
    st = State()
    args = []
    for i in range(b.argc):
        t = b.locals[i+1]
        if p.T[it.strip_refs(t)]['s'].startswith('core::fmt::Formatter'):
            st.mem[('m','fm')] = ('fm', ('sink','o')); args.append(('R',('m','fm'),()))
        else: args.append(it.sym(st, ('arg', b.names.get(str(i+1), 'a%d'%i) if isinstance(b.names, dict) else 'a%d'%i), t))
    signal.alarm(25)
    try:
        out = it.exec_fn(st, b, args)
        print('OK ', r['path'], len(out), 'steps', it.steps, 'unk', [x[-60:] for x in it.unknown_calls], 'panics', [k[:2] for k in it.panics])
        if verbose:
            for s, v in out[:60]:
                print('    ', show(v, 9)); print('        facts', {showterm(k[1]) if k[0] in('var','cs','chars','b') else k: (cs_show(x) if k[0] in ('cs','chars') else x) for k, x in s.facts.items()}, 'mon', {k:show(x) for k,x in s.mon.items()}, 'notes', s.notes)
    except (Unsupported, Budget, Split, TO) as e:
        print('UNS', r['path'], type(e).__name__, e, 'at', it.where)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])[-3:]
        print('EXC', r['path'], type(e).__name__, e, 'at', it.where, [(x.filename.rsplit('/',1)[1], x.lineno) for x in tb])
