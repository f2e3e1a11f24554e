"""C25: programs that need the auto traits, type-checked against the crate as it is now.

Every function of the witness program is one obligation; the compiler's error for it names the value that breaks it."""
import glob
import json
import os
import re
import subprocess
import tempfile

RULE = 'operations can be spawned and values moved across threads'
CONTROL = 'the witness programs can fail'
EXTERN = {'tokio': ('tokio', 'tokio::io::AsyncBufRead + tokio::io::AsyncWrite + Unpin'),
          'async-std': ('async_std', 'async_std::io::BufRead + async_std::io::Write + Unpin')}
FUTURES = (('connecting', 's: S, c: SmtpClient', 'SmtpTransport::new(c, s)'),
           ('try_login', 't: &mut SmtpTransport<S>, c: &Credentials, m: &[Mechanism]', 't.try_login(c, m)'),
           ('starttls', 't: SmtpTransport<S>', 't.starttls()'),
           ('quit', 't: &mut SmtpTransport<S>', 't.quit()'),
           ('auth', 't: &mut SmtpTransport<S>, m: Mechanism, c: &Credentials', 't.auth(m, c)'),
           ('send', 't: &mut SmtpTransport<S>, e: SendableEmail', 't.send(e)'))
SEND = ('SmtpTransport<S>', 'SmtpTransport<Box<dyn Stream + Send>>')
BOTH = ('SmtpClient', 'SendableEmail', 'Envelope', 'EmailAddress', 'Message', 'Credentials', 'Mechanism', 'ServerInfo', 'Extension', 'ClientId',
        'Response', 'Code', 'Error', 'MailParameter', 'RcptParameter')
AUTO = re.compile(r'cannot be (sent|shared) between threads|future cannot be (sent|shared)|future is not .(Send|Sync)|implementation of .(Send|Sync). is not general enough')
STDERR = re.compile(r"the trait bound .*Error.*: (std::error::|core::error::)?Error.* is not satisfied|doesn't implement .*(Display|Debug)")


def program(rt, control=False):
    ext, bound = EXTERN[rt]
    out = ['#![allow(dead_code, unused, async_fn_in_trait)]',
           'use async_smtp::{SmtpClient, SmtpTransport, SendableEmail, Envelope, EmailAddress, Message};',
           'use async_smtp::authentication::{Credentials, Mechanism};',
           'use async_smtp::extension::{ServerInfo, Extension, ClientId, MailParameter, RcptParameter};',
           'use async_smtp::response::{Response, Code};',
           'use async_smtp::error::Error;',
           'trait Stream: %s {}' % bound,
           'fn send<T: Send>(_: T) {}', 'fn send_ty<T: Send>() {}', 'fn both<T: Send + Sync>() {}', "fn error<T: std::error::Error + Send + Sync + 'static>() {}"]
    names = {}

    def fn(name, sig, body):
        out.append('fn w%d%s { %s }' % (len(names), sig, body))
        names[len(out)] = name
    if control:
        fn('an Rc', '()', 'send_ty::<std::rc::Rc<u8>>()')
        fn('a future holding an Rc', '()', 'send(async { let x = std::rc::Rc::new(0u8); std::future::ready(()).await; drop(x); })')
        return '\n'.join(out) + '\n', names
    for n, args, e in FUTURES:
        fn('the future of %s' % n, '<S: %s + Send>(%s)' % (bound, ', '.join(('mut ' if a.startswith('t: SmtpT') else '') + a for a in args.split(', '))), 'send(%s)' % e)
    for t in SEND:
        fn(t, '<S: %s + Send>()' % bound if t.endswith('<S>') else '()', 'send_ty::<%s>()' % t)
    for t in BOTH:
        fn(t, '()', 'both::<%s>()' % t)
    fn('Error', '()', 'error::<Error>()')
    fn('an error boxed by anyhow-style code', '(e: Error)', "let _: Box<dyn std::error::Error + Send + Sync + 'static> = Box::new(e);")
    return '\n'.join(out) + '\n', names


def compile_(src, rt, target):
    libs = {}
    dirs = set()
    for f in glob.glob(os.path.join(target, 'debug', '**', 'lib*.rmeta'), recursive=True) + glob.glob(os.path.join(target, 'debug', '**', 'lib*.so'), recursive=True):
        dirs.add(os.path.dirname(f))
        libs.setdefault(os.path.basename(f)[3:].rsplit('-', 1)[0], []).append(f)
    cmd = ['rustc', '+nightly', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'witness', '--emit=metadata', '--error-format=json', '--cap-lints', 'allow']
    for n in ('async_smtp', EXTERN[rt][0]):
        fs = [f for f in libs.get(n, ()) if f.endswith('.rmeta')]
        if not fs:
            raise RuntimeError('no library %s' % n)
        cmd += ['--extern', '%s=%s' % (n, max(fs, key=os.path.getmtime))]
    for d in sorted(dirs):
        cmd += ['-L', 'dependency=' + d]
    with tempfile.TemporaryDirectory() as tmp:
        p = os.path.join(tmp, 'witness.rs')
        open(p, 'w').write(src)
        r = subprocess.run(cmd + ['--out-dir', tmp, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, cwd=tmp)
    errs = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level') == 'error' and d.get('spans'):
            errs.append(d)
    if r.returncode and not errs:
        raise RuntimeError('witness: ' + r.stderr[-500:])
    return errs


def spans(d):
    for s in d.get('spans', ()):
        yield s
    for c in d.get('children', ()):
        for s in spans(c):
            yield s


def run(rt, target):
    recs = []
    rules = {RULE: 0, CONTROL: 0}
    lost = {}
    src, names = program(rt, True)
    bad = {s['line_start'] for d in compile_(src, rt, target) if AUTO.search(d['message']) for s in d['spans'] if s['is_primary']}
    for l, n in names.items():
        rules[CONTROL] += 1
        if l not in bad:
            lost['the compiler accepts %s as Send' % n] = 1
    src, names = program(rt)
    rules[RULE] += len(names)
    seen = set()
    for d in compile_(src, rt, target):
        line = None
        for s in spans(d):
            if s['file_name'].endswith('witness.rs') and s['line_start'] in names:
                line = s['line_start']
                break
        where = [s for s in spans(d) if '/src/' in s['file_name'] and 'witness.rs' not in s['file_name'] and ('/repo/' in s['file_name'] or s['file_name'].startswith('src/'))]
        at = '%s:%d' % (where[0]['file_name'], where[0]['line_start']) if where else 'src'
        name = names.get(line, '?')
        if (name, d['message']) in seen:
            continue
        seen.add((name, d['message']))
        if line is not None and (AUTO.search(d['message']) or name.endswith('rror') and STDERR.search(d['message'])):
            notes = [c['message'] for c in d.get('children', ()) if c.get('message')]
            recs.append((dict(property='C25', rule=RULE, message='%s: %s' % (name, d['message']), at=at, stack=[name], op=name, approx=[], path=notes[:12]), True))
        else:
            lost['witness for %s does not compile: %s' % (name, d['message'][:200])] = 1
    return dict(records=recs, rules={'C25': rules}, lost=lost, samples=[l for l in src.splitlines() if l.startswith('fn w')][:6],
                outcomes={'witness functions': len(names)}, functions=sorted(names.values()))
