#!/usr/bin/env python3
"""mut.py LIST.py [NAME...] -- development aid: run each edit's own property check, as registered, on an edited copy of the repository.
LIST.py as for bench.py.  Env: DIR scratch directory (default /tmp/mut), T1/T2 time limits of the two phases."""
import sys, os, re, time, shutil, subprocess, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
D = os.environ.get('DIR', '/tmp/mut')
BASE = os.environ.get('BASE', '/repo')
ROOT = os.path.dirname(HERE)


def prepare():
    os.makedirs(D + '/v', exist_ok=True)
    for d in ('engine', 'driver'):
        shutil.rmtree(D + '/v/' + d, ignore_errors=True)
        shutil.copytree(ROOT + '/' + d, D + '/v/' + d)
    for f in ('KNOWN_FINDINGS.txt',):
        if os.path.exists(ROOT + '/' + f):
            shutil.copy(ROOT + '/' + f, D + '/v/')
    os.makedirs(D + '/v/.cache', exist_ok=True)
    shutil.copy2(ROOT + '/.cache/mirdump', D + '/v/.cache/mirdump')
    p = D + '/v/engine/check.py'
    s = open(p).read()
    s = s.replace("t1 = 200 if tier == 'quick' else 300", 't1 = %s' % os.environ.get('T1', '150')).replace("t2 = 640 if tier == 'quick' else 780", 't2 = %s' % os.environ.get('T2', '350'))
    open(p, 'w').write(s)


def main():
    prepare()
    g = runpy.run_path(sys.argv[1])
    sel = sys.argv[2:]
    for name, prop, edits in g['M']:
        if sel and not any(name == s or (s.endswith('*') and name.startswith(s[:-1])) for s in sel):
            continue
        d = D + '/r'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(BASE, d, ignore=shutil.ignore_patterns('target', '.git'))
        bad = None
        for f, old, new in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                bad = '%d occurrences in %s of %r' % (s.count(old), f, old[:80])
                break
            open(p, 'w').write(s.replace(old, new))
        if bad:
            print('%-24s %s EDIT %s' % (name, prop, bad), flush=True)
            continue
        t0 = time.time()
        r = subprocess.run(['python3', 'engine/check.py', prop, 'quick'], cwd=D + '/v', env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        o = r.stdout
        v = 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' in o else 'BUILD' if 'does not type-check' in o else 'UNDECIDED' if 'undecided' in o else 'MISSED' if r.returncode == 0 else 'BROKEN'
        print('%-24s %s %-9s %4ds' % (name, prop, v, time.time() - t0))
        ls = [l for l in o.splitlines() if not l.startswith('VIOLATION') and not re.match(r'C\d+ \w', l)]
        for l in ls[-25:] if v in ('BUILD', 'BROKEN') else ls[:4]:
            print('     ' + l[:330])
        sys.stdout.flush()


main()
