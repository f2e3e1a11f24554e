#!/usr/bin/env python3
"""bench.py LIST.py [NAME...] -- development aid: evaluate every property at once on edited copies of the repository.
LIST.py defines M = [(name, expected property or '' for an edit that keeps the behaviour, [(file, old, new), ...]), ...]."""
import sys, os, time, shutil, subprocess, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
import check, interp, pure
D = os.environ.get('BENCH', '/tmp/bench')
BASE = os.environ.get('BASE', '/repo')
T1, T2 = int(os.environ.get('T1', 200)), int(os.environ.get('T2', 330))
TURNS = [int(x) for x in os.environ.get('TURNS', '2 5').split()]
W = int(os.environ.get('W', 170))
ANA = sorted({n for v in pure.FOR.values() for n in v})
check.CACHE = D + '/cache'
os.makedirs(check.CACHE, exist_ok=True)


def apply(name, edits):
    d = D + '/r'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(BASE, d, ignore=shutil.ignore_patterns('target', '.git'))
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d occurrences in %s of %r' % (name, s.count(old), f, old[:80]))
        open(p, 'w').write(s.replace(old, new))
    return d


def evaluate(name, exp):
    check.PROGS.clear()
    interp.__dict__.get('reset', lambda: None)()
    outs = check.dumps()
    for rt in check.RTS:
        check.PROGS[rt] = interp.Prog.load(outs[rt], rt)
    c = check.Check('C01', 'quick')
    pool = check.Pool()
    only = os.environ.get('ONLY', 'both')
    ana = os.environ['ANA'].split(',') if os.environ.get('ANA') else ANA
    if only in ('both', 'pure'):
        for n in ana:
            for rt in check.RTS:
                pool.submit(('pure', rt, n, None), c.left(T1))
    if only in ('both', 'transport'):
        c.transport(pool, c.left(T1))
    else:
        c.pure(pool, (), c.left(T1))
    pool.close()
    c.prop = 'C27'
    if only in ('both', 'transport'):
        pure.compare_runtimes(c)
    t1 = time.time() - c.t0
    props = sorted(set(check.TRANSPORT) | set(pure.FOR))

    def state(results, prop):
        c.prop = prop
        sure, maybe = c.alarms(results)
        names, ops = pure.FOR.get(prop, ()), check.TRANSPORT.get(prop)
        rel = [(t, r) for t, r in results if (t[0] == 'pure' and t[2] in names) or (t[0] in ('op', 'connect', 'exact') and ops) or t[0] == 'compare']
        lost = c.incomplete(rel, ops)
        return sure, maybe, lost
    ex = []
    want = []
    und = []
    res = {}
    for p in props:
        s, m, l = state(c.results, p)
        res[p] = (s, m, l)
        if (m or l) and not s:
            und.append(p)
            for task, _ in m + l:
                if task[0] in ('compare', 'witness'):
                    continue
                w = ('pure', task[1], task[2]) if task[0] == 'pure' else ('exact', task[1], task[2] if task[0] == 'op' else 'new')
                if w not in want:
                    want.append(w)
    found2 = {}
    if want and T2:
        t0 = time.time()
        pool = check.Pool()
        for turns in TURNS:
            for w in want:
                if w[0] == 'pure':
                    pool.submit(('pure', w[1], w[2], turns), t0 + T2)
                else:
                    pool.submit(('exact', w[1], () if w[2] == 'new' else (w[2],), turns), t0 + T2)
        for rt in sorted({w[1] for w in want if w[0] == 'exact'}):
            pool.submit(('exact', rt, check.ALL[1:], 1), t0 + T2)
        left = set(und)
        for task, r in pool.results(t0 + T2 + 20):
            for p in list(left):
                c.prop = p
                s, _ = c.alarms([(task, r)])
                if s:
                    found2[p] = (time.time() - t0, s)
                    left.discard(p)
            if not left or (exp and exp in found2):
                break
        pool.close()
    sures = [p for p in props if res[p][0]]
    late = sorted(found2)
    unds = [p for p in und if p not in found2]
    if exp:
        v = 'CAUGHT' if exp in sures else 'CAUGHT2' if exp in found2 else 'UNDECIDED' if exp in unds else 'MISSED'
    else:
        v = 'NOISY' if sures or late else 'undecided' if unds else 'quiet'
    print('%-28s %-4s %-9s %3ds  sure=%s exact=%s undecided=%s' % (name, exp, v, time.time() - c.t0, ','.join(sures), ','.join('%s(%ds)' % (p, found2[p][0]) for p in late), ','.join(unds)))
    if v not in ('quiet',):
        seen = set()
        for p in ([exp] if exp else sures + late + unds):
            s, m, l = res[p]
            for t, r in (s or [])[:2] + (found2[p][1][:2] if p in found2 else []):
                k = (p, r['message'])
                if k not in seen:
                    seen.add(k)
                    print(('    %s SURE %s %s: %s [%s]' % (p, ' '.join(map(str, t[1:3])), r['rule'], r['message'], r['at']))[:W])
            if p in unds:
                for t, r in m[:3]:
                    k = (r['rule'], r['message'], str(r['approx']))
                    if k not in seen:
                        seen.add(k)
                        print(('    %s perhaps %s %s: %s [%s] %s' % (p, ' '.join(map(str, t[1:3])), r['rule'], r['message'], r['at'], r['approx']))[:W])
                for t, k in l[:4]:
                    if k not in seen:
                        seen.add(k)
                        print(('    %s lost %s: %s' % (p, ' '.join(map(str, t[1:3])), k))[:W * 2])
    sys.stdout.flush()


if __name__ == '__main__':
    g = runpy.run_path(sys.argv[1])
    sel = sys.argv[2:]
    for name, exp, edits in g['M']:
        if sel and not any(name == s or (s.endswith('*') and name.startswith(s[:-1])) for s in sel):
            continue
        check.REPO = apply(name, edits)
        pid = os.fork()      # a fresh process each time
        if pid == 0:
            try:
                evaluate(name, exp)
            except SystemExit as e:
                print('%-28s %-4s BUILD %s' % (name, exp, str(e)[-1500:]))
            except BaseException:
                import traceback
                traceback.print_exc()
            sys.stdout.flush()
            os._exit(0)
        os.waitpid(pid, 0)
