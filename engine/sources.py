"""C24: message sources and the unsafe code around them.  C25: auto traits of what users hold."""
from vals import *
from interp import *

R_POLL = 'polling a message polls its reader once and passes the result on'
R_SELF = 'a poll does not replace or move the reader'
R_MAKE = 'an email keeps the message and envelope it was given'
R_UNSAFE = 'the only unsafe code is pin projection'

# unsafe operations of compiler-generated code and of pin projection
SAFE_UNSAFE = ('core::pin::Pin::', 'core::fmt::Arguments::', 'core::fmt::rt::', 'core::future::get_context', 'core::intrinsics::unreachable',
               'core::intrinsics::discriminant_value')
MARKERS = ('core::clone::TrivialClone', 'pin_project::UnsafeUnpin', 'pin_project_lite::UnsafeUnpin')


class Sources:
    """mixed into Pure"""

    def swap(self, v, a, b):
        if v == a:
            return b
        if isinstance(v, tuple):
            return tuple(self.swap(x, a, b) for x in v)
        return v

    def an_source(self):
        self.guard(self.source_poll)
        self.guard(self.source_make)
        self.guard(self.source_unsafe)

    # ------------------------------------------------------------ polls
    def source_poll(self):
        P = 'C24'
        it = self.it
        path = None
        for r in self.p.roots:
            if r.get('trait', '').split('<')[0].endswith('AsyncRead') and r.get('name') == 'poll_read' and r.get('self_ty') == self.ty('types::Message'):
                path = r['path']
        if path is None:
            raise Unsupported('Message does not implement AsyncRead')
        b = self.fn(path)
        mty = self.ty('types::Message')

        def inner(st, c, args, dty):
            if c.get('inst') is not None and not c.get('rpath', '').startswith('<core::') and self.p.body(c['inst']) is not None and self.p.body(c['inst']).local:
                return None
            n = st.mon.get('polls', 0)
            st.mon['polls'] = n + 1
            where = args[0]
            while isinstance(where, tuple) and where[0] == 'A' and len(where[3]) == 1:
                where = where[3][0]
            ok = where[0] == 'R' and where[1] == ('m', 'msg')
            same = len(args) == len(rest) + 1 and all(self.place(st, x) == self.place(st, y) for x, y in zip(args[1:], rest))
            if not same or not ok:
                st.mon['odd'] = 1
            for i in range(2, b.argc):
                # the reader may have written to the buffer
                if ('m', 'p%d' % i) in st.mem:
                    st.mem[('m', 'p%d' % i)] = it.sym(st, ('after', i, n), self.T[b.locals[i + 1]]['elem'])
            return [(st, ('S', ('inner', n), dty))]

        def change(st, c, args, dty):
            """the buffer handed to the reader is modified"""
            base, p = it.target(st, args[0])
            old = it.read(st, base, p)
            it.write(st, base, p, ('S', ('changed', c['name'], st.fresh()), old[2] if old[0] == 'S' else old[1]))
            return [(st, it.sym(st, ('ret', c['name'], st.fresh()), dty) if self.T[dty]['s'] != '()' else ('A', 't', 0, ()))]
        mine = []
        for t in self.T:
            c = t.get('callee')
            f = None
            if c and c['path'].endswith('AsyncRead::poll_read'):
                f = inner
            elif c and c['path'].startswith('tokio::io::read_buf::ReadBuf::') and c['name'] in ('clear', 'advance', 'set_filled', 'put_slice', 'filled_mut', 'inner_mut', 'unfilled_mut', 'initialize_unfilled'):
                f = change
            if f:
                it.overrides[c['path']] = f
                mine.append(c['path'])
        for var in range(len(self.T[mty]['variants'])):
            st = State()
            m0 = it.expand(st, self.arg('msg', mty), var)
            st.mem[('m', 'msg')] = m0
            rest = []
            for i in range(1, b.argc):
                t = b.locals[i + 1]
                if self.T[t]['k'] == 'ref':
                    st.mem[('m', 'p%d' % i)] = it.sym(st, ('arg', 'a%d' % i), self.T[t]['elem'])
                    rest.append(('R', ('m', 'p%d' % i), ()))
                else:
                    rest.append(it.sym(st, ('arg', 'a%d' % i), t))
            st.mon['polls'] = 0
            for s, v in self.run(st, path, [('A', b.locals[1], 0, (('R', ('m', 'msg'), ()),))] + rest):
                it.where = path
                name = self.T[mty]['variants'][var]['n']
                self.payload = v
                n = s.mon['polls']
                self.require(s, P, R_POLL, n == 1, 'polling a %s message polls its reader %d times' % (name, n))
                if n == 0:
                    continue
                self.require(s, P, R_POLL, not s.mon.get('odd'), 'polling a %s message polls something else, or with other arguments' % name)
                self.require(s, P, R_POLL, self.same_result(s, v), lambda: 'polling a %s message returns %s instead of what its reader returned' % (name, show(v)[:200]))
                for i in range(2, b.argc):
                    now = s.mem.get(('m', 'p%d' % i))
                    if now is not None:
                        self.payload = now
                        self.require(s, P, R_POLL, self.same(s, now, it.sym(s, ('after', i, 0), self.T[b.locals[i + 1]]['elem'])),
                                     lambda: 'after a poll of a %s message the buffer is %s' % (name, show(now)[:200]))
                now = s.mem.get(('m', 'msg'))
                self.payload = now
                self.require(s, P, R_SELF, self.same(s, now, m0), lambda: 'after a poll the message is %s' % show(now)[:200])
                self.payload = ()
        for k in mine:
            it.overrides.pop(k, None)

    def place(self, st, v):
        n = 0
        while isinstance(v, tuple) and v and v[0] == 'R' and n < 9:
            w = self.it.read(st, v[1], v[2])
            if not (isinstance(w, tuple) and w and w[0] == 'R'):
                return v
            v = w
            n += 1
        return v

    def same_result(self, st, v):
        want = ('S', ('inner', st.mon['polls'] - 1), v[2] if v[0] == 'S' else v[1] if v[0] == 'A' else None)
        return self.same(st, v, want)

    # ------------------------------------------------------------ construction
    def source_make(self):
        P = 'C24'
        E = 'types::SendableEmail::'
        for n in ('new', 'new_with_reader'):
            b = self.fn(E + n)
            if b.argc != 2:
                raise Unsupported('signature of SendableEmail::%s' % n)
            st = State()
            args = [self.arg('a%d' % i, b.locals[i + 1]) for i in range(2)]
            for s, v in self.run(st, E + n, list(args)):
                for s2, m in self.run(s.copy(), E + 'message', [v]):
                    self.it.where = E + n
                    m = self.look(s2, m)
                    inner = self.look(s2, m[3][0]) if m[0] == 'A' and m[3] else m
                    wants = [args[1]] + ([('S', ('call', 'core::convert::Into::into', (args[1],)), inner[1][2])]
                                         if inner[0] == 'cur' and isinstance(inner[1], tuple) and len(inner[1]) == 3 else [])
                    if n == 'new':
                        ok = inner[0] == 'cur' and inner[1] in wants and inner[2] == ZERO
                    else:
                        ok = inner in wants
                    x = m
                    for w in wants[::-1]:
                        x = self.swap(x, w, ())
                    self.payload = x
                    self.require(s2, P, R_MAKE, ok, lambda: 'the message of an email made by %s is %s' % (n, show(m)[:200]))
                    self.payload = ()
                cell = ('m', 'email')
                s3 = s.copy()
                s3.mem[cell] = v
                for s4, e in self.run(s3, E + 'envelope', [('R', cell, ())]):
                    self.it.where = E + n
                    e = self.look(s4, e)
                    self.payload = e
                    self.require(s4, P, R_MAKE, self.same(s4, e, args[0]), lambda: 'the envelope of an email made by %s is %s' % (n, show(e)[:200]))
                    self.payload = ()

    # ------------------------------------------------------------ unsafe code
    def source_unsafe(self):
        P = 'C24'
        st = State()
        T = self.T
        for b in self.p.raw.values():
            if not b['local']:
                continue
            for bl in b['blocks']:
                if not bl:
                    continue
                self.check(P, R_UNSAFE)
                t = bl['t']
                if t[0] == 'call' and t[1][0] == 'k' and t[1][1].get('k') == 'fn':
                    c = T[t[1][1]['ty']].get('callee') or {}
                    if c.get('unsafe') and not c['path'].startswith(SAFE_UNSAFE):
                        self.it.where = t[-1] if isinstance(t[-1], str) else b['path']
                        self.violation(st, P, R_UNSAFE, '%s calls the unsafe function %s' % (b['path'], c['path']))
                if self.raw(bl, b):
                    self.it.where = b['path']
                    self.violation(st, P, R_UNSAFE, '%s dereferences a raw pointer' % b['path'])
        for i in self.p.d.get('impls', ()):
            self.check(P, R_UNSAFE)
            if i['unsafe'] and i['trait'] not in MARKERS:
                self.it.where = i['span']
                self.violation(st, P, R_UNSAFE, 'unsafe implementation of %s for %s' % (i['trait'], T[i['ty']]['s']))

    def raw(self, x, b):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[1] and x[0] < len(b['locals']) and self.T[b['locals'][x[0]]]['k'] == 'ptr' and x[1][0] == ['*']:
                return True
            return any(self.raw(y, b) for y in x)
        if isinstance(x, dict):
            return any(self.raw(y, b) for y in x.values())
        return False
