#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decide one property on /repo's current source."""
import sys, os, json, time, subprocess, shutil, traceback, signal, multiprocessing as mp, queue
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
RTS = ('tokio', 'async-std')
sys.setrecursionlimit(20000)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def ensure_tool():
    os.makedirs(CACHE, exist_ok=True)
    tool = os.path.join(CACHE, 'mirdump')
    src = os.path.join(ROOT, 'driver', 'main.rs')
    if not os.path.exists(tool) or os.path.getmtime(tool) < os.path.getmtime(src):
        r = sh(['bash', os.path.join(ROOT, 'driver', 'build.sh'), tool + '.new'])
        if r.returncode:
            raise SystemExit('the MIR dumper does not build:\n' + r.stdout)
        os.replace(tool + '.new', tool)
    return tool


def lockfile():
    """the (git-ignored) lock file pins the cached dependency versions"""
    l = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(l) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', l)


def dump(rt, wait=True):
    """type-check /repo's current tree for one runtime and dump its MIR"""
    tgt = os.path.join(CACHE, 't-' + rt)
    out = os.path.join(CACHE, rt + '.json')
    if os.path.exists(out):
        os.remove(out)
    # defeat cargo's freshness cache for this crate only
    for d in ('debug/.fingerprint', 'debug/deps', 'debug/incremental', 'debug/build'):
        p = os.path.join(tgt, d)
        if os.path.isdir(p):
            for n in os.listdir(p):
                if 'async-smtp' in n or 'async_smtp' in n:
                    q = os.path.join(p, n)
                    shutil.rmtree(q) if os.path.isdir(q) else os.remove(q)
    env = dict(os.environ, MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=os.path.join(CACHE, 'mirdump'))
    env.pop('RUSTFLAGS', None)
    return subprocess.Popen(['cargo', '+nightly', 'check', '-q', '--offline', '--lib', '--no-default-features', '--features', 'runtime-' + rt,
                             '--target-dir', tgt], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out


def dumps():
    ensure_tool()
    lockfile()
    ps = {rt: dump(rt) for rt in RTS}
    outs = {}
    for rt, (p, out) in ps.items():
        o, _ = p.communicate()
        if p.returncode or not os.path.exists(out):
            raise SystemExit('/repo does not type-check with runtime-%s:\n%s' % (rt, o[-3000:]))
        outs[rt] = out
    return outs


# ---------------------------------------------------------------- tasks, run in forked workers
PROGS = {}


def summarise(h, **kw):
    """what one analysis found, in picklable form"""
    it = h.it
    d = dict(records=h.verdicts(), rules=h.rules, lost=dict(it.lost), cut=dict(it.cut), steps=it.steps,
             unknown=dict(it.unknown_calls), panic_obl=sum(it.panic_obl.values()), panic_sites=len(it.panic_obl), panics=len(it.panics),
             functions=sorted(it.cover_fn), blocks=sum(len(x) for x in it.cover_fn.values()), callsites=len(it.callsites),
             externals=sorted(it.externals), outcomes=dict(getattr(h, 'op_log', {})), samples=[])
    d.update(kw)
    return d


def make_transport(prog, exact, deadline):
    import transport
    t = transport.Transport(prog)
    t.it.tolerant = True
    t.it.deadline = deadline
    t.it.exact_turns = exact
    return t


def run_task(task, deadline):
    """task = (kind, runtime, ...)"""
    kind, rt = task[:2]
    prog = PROGS[rt]
    import interp
    if kind == 'connect':
        t = make_transport(prog, None, deadline)
        try:
            sts = t.connected()
        except (interp.Unsupported, interp.Budget, interp.Split, interp.Timeout) as e:
            t.it.lose(None, e)
            sts = []
        t.settle_ends()
        return summarise(t, idle=sts, events=t.events_out())
    if kind == 'op':
        t = make_transport(prog, None, deadline)
        sts = []
        try:
            t.prepare(task[3])
            sts = t.step(task[3], task[2], task[4])
        except (interp.Unsupported, interp.Budget, interp.Split, interp.Timeout) as e:
            t.it.lose(None, e)
        t.settle_ends()
        ev = t.events_out()
        return summarise(t, idle=sts, events=ev, samples=[v[1] + ' at ' + v[2] for v in list(ev.values())[:400:80]])
    if kind == 'exact':
        t = make_transport(prog, task[3], deadline)
        t.OPS = task[2]
        if len(task) > 4:
            t.long = task[4]
            t.it.head_budget = 20000
        try:
            t.analyse()
        except (interp.Unsupported, interp.Budget, interp.Split, interp.Timeout) as e:
            t.it.lose(None, e)
        return summarise(t, idle=[])
    if kind == 'witness':
        import witness
        return witness.run(rt, os.path.join(CACHE, 't-' + rt))
    if kind == 'pure':
        import pure
        return pure.run(prog, rt, task[2], task[3], deadline)
    raise ValueError(kind)


def worker(inq, outq):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    import vals
    while True:
        x = inq.get()
        if x is None:
            return
        i, task, deadline = x
        t0 = time.time()
        try:
            r = run_task(task, deadline)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            r = dict(error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-2000:])
        r['cpu'] = time.time() - t0
        try:
            outq.put((i, r))
        except Exception as e:
            outq.put((i, dict(error='result: %s' % e)))


class Pool:
    def __init__(self, n=None):
        ctx = mp.get_context('fork')
        self.inq, self.outq = ctx.Queue(), ctx.Queue()
        self.n = n or min(8, os.cpu_count() or 4)
        self.ps = [ctx.Process(target=worker, args=(self.inq, self.outq), daemon=True) for _ in range(self.n)]
        for p in self.ps:
            p.start()
        self.pending = {}
        self.k = 0

    def submit(self, task, deadline):
        self.k += 1
        self.pending[self.k] = task
        self.inq.put((self.k, task, deadline))

    def results(self, until):
        """yield (task, result) until nothing is pending or time is up; new tasks may be submitted meanwhile"""
        while self.pending:
            left = until - time.time()
            if left <= 0:
                for t in self.pending.values():
                    yield t, dict(error='no result in time')
                self.pending = {}
                return
            try:
                i, r = self.outq.get(timeout=min(left, 2))
            except queue.Empty:
                if not all(p.is_alive() for p in self.ps):
                    for t in self.pending.values():
                        yield t, dict(error='a worker died')
                    self.pending = {}
                    return
                continue
            yield self.pending.pop(i), r

    def close(self):
        for p in self.ps:
            p.terminate()
        for p in self.ps:
            p.join(2)
            if p.is_alive():
                p.kill()


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.results = []          # (task, result) of the proving phase
        self.exact_results = []
        self.log = []

    def left(self, total):
        return self.t0 + total

    def transport(self, pool, until):
        import pickle
        import interp
        seen = {rt: {} for rt in RTS}

        def add(rt, sts):
            for s in sts:
                c = interp.canon(s)
                k = (c.skel, interp.norm_slots(c.slots))
                if k in seen[rt]:
                    continue
                seen[rt][k] = s
                if len(seen[rt]) > 60:
                    self.log.append('too many states between operations')
                    return
                import transport
                for op in sorted(transport.Transport.OPS, key=lambda o: ('send', 'try_login', 'auth').index(o) if o in ('send', 'try_login', 'auth') else 9):
                    n = transport.Transport.PARTS.get(op)
                    for k in range(n) if n else (None,):
                        pool.submit(('op', rt, op, s, k), until)
        for rt in RTS:
            pool.submit(('connect', rt), until)
        for task, r in pool.results(until + 20):
            self.results.append((task[:3], r))
            if 'idle' in r:
                add(task[1], r['idle'])
                if task[0] == 'connect' and not r['idle']:
                    r.setdefault('lost', {})['no connection can be established'] = 1
        self.idle_states = {rt: len(x) for rt, x in seen.items()}

    def pure(self, pool, names, until):
        for n in names:
            for rt in RTS:
                pool.submit(('pure', rt, n, None), until)
        for task, r in pool.results(until + 20):
            self.results.append((task[:3], r))

    def alarms(self, results):
        """records of this property: (definite, merely possible)"""
        sure, maybe = [], []
        for task, r in results:
            for rec, definite in r.get('records', ()):
                if rec['property'] == self.prop:
                    (sure if definite else maybe).append((task, rec))
        return sure, maybe

    def incomplete(self, results, ops=None):
        out = []
        for task, r in results:
            if ops is not None and task[0] in ('op', 'connect') and (task[2] if task[0] == 'op' else 'new') not in ops:
                continue
            if 'error' in r:
                out.append((task, r['error']))
            for k, n in r.get('lost', {}).items():
                out.append((task, k))
        return out


# operations whose paths a property is about
ALL = ('new', 'quit', 'starttls', 'auth', 'try_login', 'send')
TRANSPORT = {
    'C01': ('send',), 'C02': ('send',), 'C03': ('send',), 'C04': ('send',), 'C10': ('send',),
    'C05': ALL, 'C06': ALL, 'C07': ALL, 'C08': ALL, 'C09': ('new',), 'C11': ('starttls',), 'C12': ('auth', 'try_login'),
    'C13': ('auth', 'try_login'), 'C14': ('auth', 'try_login'), 'C19': ALL, 'C26': ALL, 'C27': ALL, 'C17': ALL, 'C31': ALL, 'C34': ALL,
}


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        dumps()
        print('ready')
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import pure as P
    c = Check(prop, tier)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    names = P.FOR.get(prop, ())
    ops = TRANSPORT.get(prop)
    if not names and not ops and prop != 'C25':
        raise SystemExit('unknown property %s' % prop)
    outs = dumps()
    import interp
    for rt in RTS:
        PROGS[rt] = interp.Prog.load(outs[rt], rt)
    t1 = 200 if tier == 'quick' else 300
    t2 = 640 if tier == 'quick' else 780
    pool = Pool()
    try:
        if names:
            c.pure(pool, names, c.left(t1))
        if ops:
            c.transport(pool, c.left(t1))
        if prop == 'C25':
            for rt in RTS:
                pool.submit(('witness', rt, 'programs'), c.left(t1))
            c.results.extend((t, r) for t, r in pool.results(c.left(t1)))
    finally:
        pool.close()
    if prop == 'C27':
        P.compare_runtimes(c)
    sure, maybe = c.alarms(c.results)
    missing = c.incomplete(c.results, ops)
    undecided = []
    if not sure and (maybe or missing):
        # neither proved nor refuted: follow paths exactly, without generalising over loops
        want = []
        for task, _ in maybe + missing:
            if task[0] in ('compare', 'witness'):
                continue
            if task[0] == 'pure':
                w = ('pure', task[1], task[2])
            else:
                op = task[2] if task[0] == 'op' else 'new'
                w = ('exact', task[1], op)
            if w not in want:
                want.append(w)
        pool = Pool()
        try:
            for turns in (2, 5, 9):
                if turns == 9:
                    # long runs on which nothing fails: for what happens only after many turns
                    for w in want:
                        if w[0] == 'exact' and w[2] == 'send':
                            pool.submit(('exact', w[1], ('send',), 1100, 'recipients'), c.left(t2))
                            pool.submit(('exact', w[1], ('send',), 1100, 'content'), c.left(t2))
                        if w[0] == 'exact':
                            pool.submit(('exact', w[1], () if w[2] == 'new' else (w[2],), 12 if w[2] == 'try_login' else 130, 'lines'), c.left(t2))
                for w in want:
                    if w[0] == 'pure':
                        pool.submit(('pure', w[1], w[2], turns), c.left(t2))
                    else:
                        pool.submit(('exact', w[1], () if w[2] == 'new' else (w[2],), turns), c.left(t2))
            if any(w[0] == 'exact' for w in want):
                for rt in sorted({w[1] for w in want if w[0] == 'exact'}):
                    pool.submit(('exact', rt, ALL[1:], 1), c.left(t2))
            for task, r in pool.results(c.left(t2) + 20):
                c.exact_results.append((task, r))
                s, _ = c.alarms([(task, r)])
                if s:
                    sure.extend(s)
                    break
        finally:
            pool.close()
        if not sure:
            undecided = [dict(where=' '.join(map(str, t[:3])), possible=r['message'][:300], rule=r['rule'], at=r['at'], why=r['approx']) for t, r in maybe] + \
                        [dict(where=' '.join(map(str, t[:3])), not_followed=k[:300]) for t, k in missing]
    report(c, sure, undecided, names, ops)


def key_of(rec):
    """names a violation without line numbers"""
    fn = rec['stack'][-1] if rec['stack'] else ''
    return '%s|%s|%s' % (rec['rule'], rec.get('op') or '', fn)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split('key=', 1)[1])
    return out


def report(c, sure, undecided, names, ops):
    prop = c.prop
    known = known_findings(prop)
    real, hit = [], []
    for t, rec in sure:
        k = key_of(rec)
        if k in known:
            if k not in hit:
                hit.append(k)
        else:
            real.append((t, rec))
    rules = {}
    tot = dict(functions=set(), blocks=0, callsites=0, steps=0, externals=set(), outcomes={}, unknown={})
    samples = []
    panic_obl = 0
    for task, r in c.results:
        for k, n in r.get('rules', {}).get(prop, {}).items():
            rules[k] = rules.get(k, 0) + n
        if prop == 'C26':
            panic_obl += r.get('panic_sites', 0)
        rel = task[0] == 'pure' or ops is None or (task[2] if task[0] == 'op' else 'new') in ops
        if rel:
            tot['functions'] |= {(task[1], f) for f in r.get('functions', ())}
            tot['blocks'] += r.get('blocks', 0)
            tot['callsites'] += r.get('callsites', 0)
            tot['steps'] += r.get('steps', 0)
            tot['externals'] |= set(r.get('externals', ()))
            for k, n in r.get('outcomes', {}).items():
                tot['outcomes'][task[1] + ' ' + k] = tot['outcomes'].get(task[1] + ' ' + k, 0) + n
            for k, n in r.get('unknown', {}).items():
                tot['unknown'][k] = tot['unknown'].get(k, 0) + n
            samples.extend(r.get('samples', ())[:3])
    n = sum(rules.values()) + panic_obl
    bad = len(sure) + len(undecided)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = dict(property=prop, tier=c.tier, seed=seed, level=P_level(prop),
              coverage=dict(
                  obligations=n, discharged=max(0, n - bad),
                  checker_cmd='bash check.sh %s %s' % (prop, c.tier),
                  trusted_base=TRUSTED,
                  explanation=WITNESS if prop == 'C25' else 'Abstract interpretation of the MIR that rustc produces for the current tree of /repo, once per runtime feature. Every path through the listed functions is followed with symbolic inputs (server replies, contents, lists, configurations and I/O outcomes are arbitrary); loops are generalised until nothing new arises. Obligations are counted each time a rule is evaluated on a path.',
                  rules=[dict(rule=k, evaluated=v) for k, v in sorted(rules.items())] + ([dict(rule='panic sites examined', evaluated=panic_obl)] if panic_obl else []),
                  analysed=dict(functions=len(tot['functions']), basic_blocks=tot['blocks'], call_sites=tot['callsites'], block_executions=tot['steps'],
                                path_outcomes=tot['outcomes'], modelled_library_functions=len(tot['externals']), states_between_operations=getattr(c, 'idle_states', {})),
                  uninterpreted_library_functions=sorted(tot['unknown']),
                  function_list=sorted({f for _, f in tot['functions']})[:200],
                  samples=samples[:8],
                  verdict='violated' if real else ('known finding' if hit else ('undecided' if undecided else 'holds')),
                  undecided=undecided[:20], exact_runs=[dict(task=str(t)[:120], cut=sum(r.get('cut', {}).values()), lost=len(r.get('lost', {})), error=r.get('error')) for t, r in c.exact_results][:20]),
              assumptions=ASSUME, wall_s=round(time.time() - c.t0, 1), violations=len(real))
    json.dump(ev, open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w'), indent=1)
    if n == 0 and not sure:
        print('no rule of %s was evaluated on the current tree' % prop)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for u in undecided[:10]:
        print('undecided: %s' % json.dumps(u)[:400])
    if os.environ.get('VERIF_DEBUG'):
        for t, r in c.results:
            print('   ', str(t)[:60], len(str(t)), round(r.get('cpu', 0), 1), sum(r.get('outcomes', {}).values()))
    print('%s %s: %d obligations, %d functions, %d path outcomes, %.1f s' % (prop, ev['coverage']['verdict'], n, len(tot['functions']), sum(tot['outcomes'].values()), time.time() - c.t0))
    if real:
        rp = os.path.join(ROOT, 'evidence', prop + '.violation.txt')
        with open(rp, 'w') as f:
            for t, rec in real[:20]:
                f.write('%s\n  rule: %s\n  runtime/operation: %s\n  at: %s\n  call chain: %s\n' % (rec['message'], rec['rule'], ' '.join(map(str, t[:3])), rec['at'], ' > '.join(rec['stack'])))
                f.write('  decisions on the path:\n' + ''.join('    %s\n' % (x,) for x in rec['path']) + '\n')
        t, rec = real[0]
        own = [x for x in rec['stack'] if not x.lstrip('<&').startswith(('core::', 'alloc::', 'std::'))]
        print('%s [%s] at %s in %s' % (rec['message'][:400], rec['rule'], rec['at'], own[-1] if own else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


def P_level(prop):
    return 'proof'


TRUSTED = ['rustc nightly front end (type checking and MIR construction) on the same source',
           'engine/interp.py (MIR semantics, loop generalisation and joins)',
           'engine/models.py, engine/stdlib.py (models of the standard library, base64, async I/O traits)',
           'the monitors stating each property (engine/transport.py, engine/pure.py, engine/parsing.py, engine/sources.py)']
WITNESS = 'Witness functions that need the auto traits are type-checked against the current tree of /repo, once per runtime feature and generic over the stream type; a violation is a trait error of the compiler for one of them. Control programs that must fail show that the compiler sees such errors.'
ASSUME = ['the stream, message source and allocator behave as their trait contracts say; a write or read may fail, or be short, at any call',
          'usize counters do not overflow (more than 2^63 elements or bytes)',
          'the nightly front end used for the dump accepts the same language as the stable compiler used for the build']

if __name__ == '__main__':
    main()
