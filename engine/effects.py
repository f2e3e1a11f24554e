"""C32: the effects of the library, from the call graph of the type-checked program.

Every function that MIR of the crate (or library code instantiated by it) mentions is looked up in a table of effects
outside the values a caller hands over; every static of the crate is checked for state."""
import re
from vals import *
from interp import *

P = 'C32'
R_CALL = 'no effect but I/O on the stream and message source that the caller supplied'
R_HOST = 'only ClientId::hostname asks for the name of the host'
R_STATE = 'no state outside the values of the caller'

# (path of the function, what it does)
EFFECTS = [(re.compile(r), w) for r, w in (
    (r'^(std|tokio|async_std|async_fs|tokio_uring)::fs::|^(<)?std::path::Path>?::(exists|try_exists|metadata|symlink_metadata|read_dir|read_link|canonicalize|is_file|is_dir|is_symlink)$', 'accesses files'),
    (r'^(std|tokio|async_std|async_net)::net::(?!ip_addr|socket_addr|parser|addr_parse)|<impl (std|tokio|async_std)::net::.*ToSocketAddrs|^(std|core|tokio|async_std)::.*ToSocketAddrs::', 'uses the network'),
    (r'^std::env::', 'reads or changes the environment of the process'),
    (r'^(std|tokio|async_std|async_process)::process::(?!ExitCode|Termination)', 'uses processes'),
    (r'^std::thread::(?!local)', 'uses threads or blocks the thread'),
    (r'^std::thread::local::', 'uses thread-local state'),
    (r'^std::time::(Instant|SystemTime)::(now|elapsed|duration_since)$', 'reads the clock'),
    (r'^(std|async_std)::io::(stdio|stdin|stdout|stderr)::|^(std|async_std)::io::(stdin|stdout|stderr|_print|_eprint)$|^tokio::io::(stdin|stdout|stderr)|^async_std::io::utils::', 'uses the standard streams'),
    (r'^tokio::(time|signal|runtime)::|^tokio::task::(?!yield_now)|^tokio::spawn', 'uses timers, signals or tasks'),
    (r'^async_std::(task::(?!ready|yield_now)|future::timeout|stream::interval|io::timeout|os::)|^async_(io|executor|global_executor|task)::|^futures_timer::', 'uses timers or tasks'),
    (r'^(async_std::future::future::FutureExt|futures_util::future::.*)::(delay|timeout)$', 'uses timers'),
    (r'^(futures|futures_executor|futures_lite|futures_util)::(executor|future::block_on|local_pool)|::block_on$', 'blocks the thread'),
    (r'^(std|parking_lot|lock_api)::sync::.*(Mutex|RwLock|Condvar|Barrier|mpsc).*::(lock|read|write|wait|recv|wait_timeout|wait_while)$', 'may block the thread'),
    (r'^(rand|getrandom|fastrand|uuid|libc|nix|rustix|core::arch|std::arch|std::os|std::sys)::', 'uses the operating system directly'),
    (r'^(std::hash::random|std::collections::hash::map)::RandomState::new$|^std::panic::|^std::panicking::(set_hook|take_hook|catch)', 'changes panic handling or draws random numbers'),
)]
HOST = re.compile(r'^hostname::|gethostname')
# random hash keys only decide the order in which a set is iterated; sets are made with them by the library itself
FINE = re.compile(r'RandomState::new$|^std::panicking::begin_panic|^std::panic::(Location|panic_any)')
CONST_ONCE = re.compile(r'^(std::sync::lazy_lock::LazyLock|std::sync::LazyLock|once_cell::sync::Lazy|lazy_static::lazy::Lazy)')


class Effects:
    """mixed into Pure"""

    def an_effects(self):
        T = self.T
        st = State()

        def mentions(x):
            if isinstance(x, list):
                for y in x:
                    yield from mentions(y)
            elif isinstance(x, dict):
                if isinstance(x.get('ty'), int):
                    yield x['ty']
                for y in x.values():
                    if isinstance(y, (list, dict)):
                        yield from mentions(y)

        edges, calls = {}, {}
        for key, b in self.p.raw.items():
            e = edges.setdefault(key, set())
            cs = calls.setdefault(key, [])
            for bl in b['blocks']:
                if not bl:
                    continue
                at = bl['t'][-1] if isinstance(bl['t'][-1], str) else b['span']
                tys = set(mentions(bl['t'])) | set(mentions(bl['s']))
                for s in bl['s']:
                    # closures and coroutines made here
                    if isinstance(s, list) and len(s) > 2 and isinstance(s[2], list) and s[2] and s[2][0] == 'agg' and isinstance(s[2][1], list):
                        tys |= {x for x in s[2][1] if isinstance(x, int) and x < len(T) and T[x] and T[x]['k'] in ('closure', 'coroutine')}
                for t in tys:
                    t = T[t]
                    if not t:
                        continue
                    if t['k'] in ('closure', 'coroutine') and t.get('body'):
                        e.add(t['body'])
                    if t['k'] != 'fndef':
                        continue
                    c = t['callee']
                    for k in (c.get('inst'), c.get('via'), (c.get('fmt') or {}).get('inst') if isinstance(c.get('fmt'), dict) else None):
                        if k:
                            e.add(k)
                    cs.append((c, at))
        reach = {}

        def closure(k):
            out, todo = set(), [k]
            while todo:
                x = todo.pop()
                if x in out:
                    continue
                out.add(x)
                # bodies nested in x (closures, coroutines, promoted constants) belong to it
                todo.extend(edges.get(x, ()))
                todo.extend(nested.get(x, ()))
            return out
        nested = {}
        for key, b in self.p.raw.items():
            for r in self.p.raw:
                if r != key and key.startswith(r + '::{closure'):
                    nested.setdefault(r, set()).add(key)
        host = {key for key, cs in calls.items() if any(HOST.search(c['path']) or HOST.search(c.get('rpath', '')) for c, _ in cs)}
        for r in self.p.roots:
            if r['kind'].startswith('Static'):
                self.it.where = r['span']
                ty = T[r['ty']]
                self.require(st, P, R_STATE, not r['mutable'] and (r['freeze'] or bool(CONST_ONCE.match(ty.get('path') or ty['s']))),
                             'the static %s can change (%s)' % (r['path'], ty['s']))
            if not r.get('public') or not (r['kind'].startswith('Fn') or r['kind'].startswith('AssocFn')):
                continue
            reach[r['path']] = closure(r['key'])
            if r['path'] != 'extension::ClientId::hostname':
                self.it.where = r['span']
                self.require(st, P, R_HOST, not (reach[r['path']] & host), '%s asks the operating system for the name of the host' % r['path'])
        self.check(P, R_STATE)
        for key, cs in calls.items():
            b = self.p.raw[key]
            for c, at in cs:
                names = [c['path'], c.get('rpath', '')]
                if any(FINE.search(n) for n in names):
                    continue
                w = next((w for r, w in EFFECTS if any(r.search(n) for n in names)), None)
                self.it.where = at
                self.it.stack = [b['path']]
                self.it.cover_fn.setdefault(b['path'], set())
                users = sorted(p for p, ks in reach.items() if key in ks) if w else ()
                self.require(st, P, R_CALL, w is None, lambda: '%s %s: it calls %s%s' % (b['path'], w, c['path'], ' (reached from %s)' % ', '.join(users[:3]) if users else ''))
