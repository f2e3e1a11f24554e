import sys, check, interp, pure, time, os
p = interp.Prog.load(sys.argv[1])
for n in sys.argv[2].split(','):
    t=time.time()
    r = pure.run(p, 'x', n, int(os.environ['TURNS']) if os.environ.get('TURNS') else None, time.time() + 200)
    print(n, round(time.time()-t,1), {k: v for k, v in r.items() if k in ('lost', 'cut', 'unknown', 'panics', 'outcomes')}, r['rules'])
    for rec, d in r['records'][:12]: print('   VIOL' if d else '   perhaps', rec['approx'], rec['property'], rec['rule'], '|', rec['message'][:400], '|', rec['at'])
