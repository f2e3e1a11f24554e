"""Analyses of everything but the transport operations: constructors, accessors, rendering, classification, parsing."""
import os
import time
from vals import *
from interp import *
from hooks import Hooks
import models
from parsing import Parsing, LINE
from sources import Sources
from ehlo import Ehlo
from effects import Effects
from reports import Reports

ALLOWED = cs_minus(((33, 126),), cs_of('<', '>'))          # characters of an email address
FORBIDDEN = cs_minus(CHAR, ALLOWED)
XPLAIN = cs_minus(CHAR, cs_union(cs_minus(ASCII, ((33, 126),)), cs_of('+', '=')))   # written unchanged by xtext


class Pure(Parsing, Sources, Ehlo, Effects, Reports, Hooks):
    addr_term = None
    addr_on = False

    def __init__(self, prog):
        Hooks.__init__(self)
        self.p = prog
        self.T = prog.T
        self.it = Interp(prog, self)
        self.m = self.it.models
        self.op_log = {}
        self.emit = None

    # ------------------------------------------------------------ helpers
    def root(self, path):
        r = self.p.root(path)
        if r is None:
            raise Unsupported('no function %s' % path)
        return r

    def fn(self, path):
        b = self.p.body(self.root(path)['key'])
        if b is None:
            raise Unsupported('no body of %s' % path)
        return b

    def impl(self, trait, self_ty, name):
        """path of a trait method of a crate type"""
        for r in self.p.roots:
            if r.get('trait', '').split('<')[0] == trait and r.get('name') == name:
                s = r.get('self_ty')
                s = self.T[s]['s'] if isinstance(s, int) else s
                if s is not None and s.split('<')[0] == self_ty:
                    return r['path']
        return None

    def ty(self, name):
        t = self.p.tyname.get(name)
        if t is None:
            raise Unsupported('type %s' % name)
        return t

    def arg(self, name, ty):
        return ('S', ('arg', name), ty if isinstance(ty, int) else self.ty(ty))

    def run(self, st, path, args):
        self.it.where = path
        r = self.it.exec_fn(st, self.fn(path), args)
        self.op_log[path] = self.op_log.get(path, 0) + len(r)
        return r

    def call(self, st, path, args):
        """run, keeping nothing of the frame; [(state, value with references resolved)]"""
        out = []
        for s, v in self.run(st, path, args):
            out.append((s, self.thaw(s, v)))
        return out

    def thaw(self, st, v):
        """value with references into memory replaced by constant references"""
        try:
            return self.it.freeze(st, v)
        except Exception:
            return v

    def look(self, st, v):
        """follow references"""
        n = 0
        while isinstance(v, tuple) and v and v[0] in ('R', 'B') and n < 12:
            v = self.it.deref(st, v)
            n += 1
        return v

    def cases(self, st, v):
        """[(state, variant index, fields)] of an enum value"""
        out = []
        for s, var in self.m.std.variants(st, v):
            fs = v[3] if v[0] == 'A' else self.it.expand(s, v, var)[3]
            out.append((s, var, fs))
        return out

    def result(self, st, v):
        """[(state, ok?, payload)] of a Result"""
        return [(s, var == 0, fs[0]) for s, var, fs in self.cases(st, v)]

    def same(self, st, v, want):
        """v equals the unknown value want (which may have been taken apart, cloned or looked into)"""
        v = self.look(st, v)
        want = self.look(st, want)
        if v == want:
            return True
        if not isinstance(v, tuple) or not isinstance(want, tuple):
            if isinstance(want, tuple) and want[0] == 'S' and isinstance(v, (int, bool)):
                cs = st.facts.get(('cs', want[1]))
                if isinstance(v, bool):
                    return self.it.known(st, want[1]) is v
                return cs is not None and cs == ((v, v),)
            return False
        if self.textual(v) or self.textual(want):
            try:
                return self.m.pieces(st, v) == self.m.pieces(st, want)
            except Unsupported:
                return False
        if v[0] == 'v' or want[0] == 'v':
            try:
                return self.m.parts(st, v) == self.m.parts(st, want)
            except Exception:
                return False
        if v[0] == 'A' and want[0] == 'A':
            return v[2] == want[2] and len(v[3]) == len(want[3]) and all(self.same(st, a, b) for a, b in zip(v[3], want[3]))
        if v[0] == 'A' and want[0] == 'S' and v[1] != 't':
            t = self.T[v[1]]
            if t.get('kind') == 'enum':
                if st.facts.get(('var', want[1])) != frozenset([v[2]]):
                    return False
            w = self.it.expand(st, want, v[2])
            return w is not None and self.same(st, v, w)
        if v[0] == 'S' and want[0] == 'A':
            return self.same(st, want, v)
        return False

    def textual(self, v):
        return v[0] == 's' or v[0] == 'S' and self.it.is_text(v[2])

    # ------------------------------------------------------------ output
    def on_emit(self, st, name, ps):
        if self.emit is not None:
            self.emit(st, ps)
        else:
            st.mon['text'] = ('s', pieces_cat(st.mon.get('text', ('s', ()))[1], ps))

    def fmt(self, st, path, ref):
        """run a Display::fmt on a sink; [(state, fmt succeeded, text)]"""
        st.mem[('m', 'fm')] = ('fm', ('sink', 'o'))
        st.mon['text'] = ('s', ())
        out = []
        for s, v in self.run(st, path, [ref, ('R', ('m', 'fm'), ())]):
            s.mem.pop(('m', 'fm'), None)
            for s2, ok, _ in self.result(s, v):
                out.append((s2, ok, s2.mon['text'][1]))
        return out

    def whole(self, st, v):
        return self.m.pieces(st, self.look(st, v))

    def override_xtext(self):
        p = self.impl('core::fmt::Display', 'util::XText', 'fmt')
        if p is None:
            raise Unsupported('XText does not implement Display')

        def f(st, c, args, dty):
            v = self.look(st, args[0])
            fs = v[3] if v[0] == 'A' else self.it.expand(st, v)[3]
            self.m.std.out(st, args[1], (('T', 'xtext', self.whole(st, fs[0])),))
            return [(st, self.m.ok(dty, ('A', 't', 0, ())))]
        self.it.overrides[p] = f

    def simple_text(self, prop, rule, st, path, ref, want, what):
        """the text is `want(state)` on every path"""
        n = 0
        for s, ok, text in self.fmt(st, path, ref):
            n += 1
            w = want(s)
            self.it.where = path
            self.payload = text
            self.require(s, prop, rule, ok and text == w, lambda: '%s renders as %s instead of %s' % (what, showpieces(text) if ok else 'an error', showpieces(w)))
        return n

    # ============================================================ C15
    def an_address(self):
        P = 'C15'
        A = 'types::EmailAddress'
        self.addr_on = True
        ty = self.ty(A)
        rule = 'an address holds only allowed characters'
        rule2 = 'every string of allowed characters is accepted unchanged, all others are rejected'

        def check(st, ok, v, src, what):
            term = src[1] if src[0] == 'S' else None
            cs = st.facts.get(('chars', term), CHAR)
            self.addr_odd(st)
            if ok:
                inner = [x for x in (v[3] if v[0] == 'A' else ()) if isinstance(x, tuple) and self.textual(x)]
                self.require(st, P, rule2, v[0] == 'A' and v[1] == ty and len(inner) == 1 and self.same(st, inner[0], src),
                             lambda: '%s does not keep the address unchanged: %s' % (what, show(v)))
                bad = cs_minus(cs, ALLOWED)
                if bad and self.it.cmp(st, 'eq', self.m.text_len(st, src), self.addr_upto(st, term)) is True:
                    bad = ()
                self.require(st, P, rule, not bad, lambda: '%s accepts addresses containing %s' % (what, cs_show(bad)[:200]))
            else:
                # rejected: some character is known not to be allowed
                why = [t for k, x in st.facts.items() if k[0] == 'b' and x is True and k[1][0] == 'somechar' for t in [k[1]] if self.about(t[1], term)]
                why = any(not cs_inter(t[2], ALLOWED) for t in why) or \
                    any(k[0] == 'cs' and k[1][0] in ('ch', 'idx') and k[1][1] == term and not cs_inter(x, ALLOWED) for k, x in st.facts.items())
                self.require(st, P, rule2, why, lambda: '%s rejects strings that consist of allowed characters only' % what)
        for path, n in (('types::EmailAddress::new', 'EmailAddress::new'), (self.impl('core::str::traits::FromStr', A, 'from_str'), 'EmailAddress::from_str')):
            if path is None:
                continue
            self.it.where = path
            b = self.fn(path)
            st = State()
            a = self.it.sym(st, ('arg', 'address'), b.locals[1])
            src = self.look(st, a)
            self.addr_term = src[1] if src[0] == 'S' else None
            try:
                for s, v in self.run(st, path, [a]):
                    for s2, ok, x in self.result(s, v):
                        self.it.where = path
                        check(s2, ok, x, src, n)
            finally:
                self.addr_term = None
        # rendering shows the address itself
        d = self.impl('core::fmt::Display', A, 'fmt')
        if d:
            st = State()
            v = self.it.expand(st, self.arg('address', ty))
            inner = [x for x in v[3] if isinstance(x, tuple) and self.textual(x)]
            if len(inner) == 1:
                self.simple_text(P, 'an address is displayed as it is', st, d, cref(v), lambda s: self.whole(s, inner[0]), 'an address')
        self.closed(P, A, 'an address cannot be altered once constructed', lambda st, v: self.address_ok(st, v))

    def addr_is(self, t):
        """the text under examination"""
        return isinstance(t, tuple) and (t == self.addr_term or self.addr_term is None and t[0] == 'arg')

    def address_keep(self, st, k):
        """what remains of a fact about a place in the address that is no longer of interest"""
        if k[0] == 'cs' and k[1][0] in ('ch', 'idx') and self.addr_is(k[1][1]):
            t, cs = k[1][1], st.facts[k]
            if not cs_inter(cs, ALLOWED):
                st.facts[('b', ('somechar', t, FORBIDDEN))] = True
            elif k[1][0] == 'idx':
                self.addr_step(st, t, k[1][2], cs)
            elif ('b', ('maychar', t)) not in st.facts:
                if cs_minus(cs, ALLOWED):
                    st.facts[('b', ('maychar', t))] = True      # this one may be anything in the set
                else:
                    st.inexact('may')
        elif k[0] == 'b' and k[1][0] == 'somechar' and isinstance(k[1][1], tuple) and (self.addr_is(k[1][1]) or k[1][1][0] == 'part' and self.addr_is(k[1][1][1])):
            if st.facts[k] is True and not cs_inter(k[1][2], ALLOWED):
                t = k[1][1]
                st.facts[('b', ('somechar', t[1] if t[0] == 'part' else t, FORBIDDEN))] = True
        elif k[0] == 'b' and (self.mentions(k, self.addr_term) if self.addr_term is not None else self.mentions_arg(k)):
            st.inexact('may')
        return False

    def addr_step(self, st, t, i, cs):
        """one more character of the address is known: all of the first `upto` are allowed"""
        n = st.nums.get(('upto', t), ZERO)
        if cs_minus(cs, ALLOWED):
            st.facts[('b', ('maychar', t))] = True
        elif self.it.cmp(st, 'eq', n, i) is True:
            st.nums[('upto', t)] = ladd(i, ONE)
        elif self.it.cmp(st, 'lt', i, n) is not True and ('b', ('maychar', t)) not in st.facts:
            st.inexact('may')

    def addr_upto(self, st, t):
        """so many characters of the address are known to be allowed"""
        n = st.nums.get(('upto', t), ZERO)
        while True:
            cs = [x for k, x in st.facts.items() if k[0] == 'cs' and k[1][0] == 'idx' and k[1][1] == t and self.it.cmp(st, 'eq', k[1][2], n) is True]
            if not cs or cs_minus(cs[0], ALLOWED):
                return n
            n = ladd(n, ONE)

    def mentions_arg(self, v):
        return isinstance(v, tuple) and (len(v) == 2 and v[0] == 'arg' or any(self.mentions_arg(x) for x in v))

    def addr_odd(self, st):
        t = self.addr_term
        for k in st.facts:
            if k[0] == 'b' and k[1][0] not in ('somechar', 'maychar') and self.mentions(k, t):
                st.inexact('may')

    def mentions(self, v, t):
        return v == t or isinstance(v, tuple) and any(self.mentions(x, t) for x in v)

    def about(self, t, term):
        return t == term or (isinstance(t, tuple) and t[0] == 'part' and t[1] == term)

    def address_ok(self, st, v):
        """v: an EmailAddress value some function produced"""
        if v[0] == 'S':
            return True             # an address that existed before
        for x in v[3]:
            if isinstance(x, tuple) and self.textual(x):
                for p in self.m.pieces(st, x):
                    if p[0] == 'L':
                        if any(not cs_inter(((c, c),), ALLOWED) for c in p[1]):
                            return False
                    elif p[0] == 'S':
                        t = p[1]
                        if t[0] == 'f' and self.is_old(t):
                            continue
                        cs = st.facts.get(('chars', t), None)
                        if cs is None:
                            cs = st.facts.get(('chars', ('part', t, p[2], p[3])), CHAR)
                        if cs_minus(cs, ALLOWED) and not (p[2] == ZERO and self.it.cmp(st, 'eq', p[3], self.addr_upto(st, t)) is True):
                            return False
                    else:
                        return False
        return True

    def is_old(self, t):
        """t is the text inside an address the function was given"""
        while isinstance(t, tuple) and t[0] in ('f', 'as', 'idx', 'deref'):
            if self.addr_terms.get(t[1]) is not None:
                return True
            t = t[1]
        return False

    addr_terms = {}

    def closed(self, prop, name, rule, inv):
        """no function of the crate produces or leaves behind a value of the type that breaks its invariant, and none can be
        modified from outside"""
        ty = self.ty(name)
        adt = self.T[ty]
        self.it.where = name
        st0 = State()
        for v in adt['variants']:
            for f in v['f']:
                self.require(st0, prop, rule, not f['pub'], 'field %s of %s is public' % (f['n'], name))
        short = name.split('::')[-1]
        mentions = lambda t: short in self.T[t]['s'] and name in self.T[t]['s']
        for r in self.p.roots:
            if r.get('kind') not in ('Fn', 'AssocFn') or r.get('output') is None:
                continue
            ins = [i for i in r['inputs'] if mentions(i)]
            mut = [i for i in r['inputs'] if self.T[i]['k'] == 'ref' and self.T[i].get('mut') and mentions(i)]
            if not mentions(r['output']) and not mut:
                continue
            if r.get('async') or r['path'].startswith('smtp_client') or r['path'].startswith('stream'):
                continue
            self.it.where = r['path']
            if '&mut %s' % name in self.T[r['output']]['s'] or ('&mut' in self.T[r['output']]['s'] and mentions(r['output'])):
                self.require(st0, prop, rule, False, '%s hands out a mutable reference to %s' % (r['path'], name))
                continue
            if r.get('trait', '').startswith('core::clone::Clone'):
                continue
            b = self.p.body(r['key'])
            if b is None:
                continue
            st = State()
            args = []
            muts = []
            for i in range(b.argc):
                t = b.locals[i + 1]
                if self.T[t]['k'] == 'ref' and self.T[t].get('mut') and mentions(t):
                    cell = ('m', 'a%d' % i)
                    st.mem[cell] = self.it.sym(st, ('arg', 'a%d' % i), self.T[t]['elem'])
                    muts.append(cell)
                    args.append(('R', cell, ()))
                elif 'core::fmt::Formatter' in self.T[t]['s']:
                    st.mem[('m', 'fm')] = ('fm', ('sink', 'o'))
                    args.append(('R', ('m', 'fm'), ()))
                else:
                    args.append(self.it.sym(st, ('arg', 'a%d' % i), t))
            try:
                res = self.run(st, r['path'], args) if self.p.root(r['path']) is r else self.it.exec_fn(st, b, args)
            except (Unsupported, Budget, Split) as e:
                self.it.lose(st, e)
                continue
            self.it.where = r['path']
            for s, v in res:
                vals = list(self.find(s, v, ty))
                for c in muts:
                    vals.extend(self.find(s, s.mem.get(c), ty))
                for x in vals:
                    self.require(s, prop, rule, inv(s, x), lambda: '%s can produce %s' % (r['path'], show(x)[:200]))

    def find(self, st, v, ty, depth=0):
        """aggregates of the type inside v"""
        if not isinstance(v, tuple) or depth > 12:
            return
        if v and v[0] == 'A' and len(v) == 4 and v[1] == ty:
            yield v
            return
        if v and v[0] == 'R' and len(v) == 3:
            try:
                w = self.it.read(st, v[1], v[2])
            except Exception:
                return
            for x in self.find(st, w, ty, depth + 1):
                yield x
            return
        for x in v:
            if isinstance(x, tuple):
                for y in self.find(st, x, ty, depth + 1):
                    yield y

    # ============================================================ C16
    def an_envelope(self):
        P = 'C16'
        E = 'types::Envelope'
        ty = self.ty(E)
        b = self.fn('types::Envelope::new')
        st = State()
        args = [self.arg(n, b.locals[i + 1]) for i, n in enumerate(('from', 'to'))]
        if len(args) != b.argc or 'Vec' not in self.T[b.locals[2]]['s']:
            raise Unsupported('signature of Envelope::new')
        src_from, src_to = args
        rule = 'an envelope is created exactly when there is a recipient'
        rule2 = 'the accessors return the sender and the recipients given'
        for s, v in self.run(st, 'types::Envelope::new', list(args)):
            for s2, ok, x in self.result(s, v):
                n = self.m.seq_len(s2, src_to)
                self.it.where = 'types::Envelope::new'
                some = self.it.cmp(s2, 'lt', ZERO, n)
                if not ok:
                    self.require(s2, P, rule, self.it.cmp(s2, 'eq', n, ZERO) is True, 'Envelope::new fails although there are recipients')
                    continue
                self.require(s2, P, rule, some is True, 'Envelope::new succeeds without recipients')
                cell = ('m', 'env')
                s2.mem[cell] = x
                for s3, to in self.run(s2.copy(), 'types::Envelope::to', [('R', cell, ())]):
                    self.it.where = 'types::Envelope::to'
                    self.require(s3, P, rule2, self.same_seq(s3, to, src_to), lambda: 'to() returns %s' % show(to))
                for s3, fr in self.run(s2.copy(), 'types::Envelope::from', [('R', cell, ())]):
                    for s4, var, fs in self.cases(s3, fr):
                        self.it.where = 'types::Envelope::from'
                        for s5, v5, f5 in self.cases(s4, src_from):
                            self.require(s5, P, rule2, var == v5 and (var == 0 or self.same(s5, fs[0], f5[0])), lambda: 'from() returns %s' % show(fr))
        self.closed(P, E, 'an envelope cannot be altered or created without recipients', lambda s, v: self.envelope_ok(s, v))

    def same_seq(self, st, v, want):
        v = self.look(st, v)
        try:
            return self.m.parts(st, v) == self.m.parts(st, want)
        except Exception:
            return self.same(st, v, want)

    def envelope_ok(self, st, v):
        if v[0] == 'S':
            return True
        ok = False
        for i, x in enumerate(v[3]):
            if isinstance(x, tuple) and (x[0] == 'v' or x[0] == 'S' and 'Vec' in self.T[x[2]]['s']):
                if x[0] == 'S' and x[1][0] == 'f':
                    return True      # taken from an existing envelope
                ok = ok or self.it.cmp(st, 'lt', ZERO, self.m.seq_len(st, x)) is True
        return ok

    # ============================================================ C17
    def lits(self, *xs):
        out = ()
        for x in xs:
            out = pieces_cat(out, (('L', x),) if isinstance(x, bytes) else x)
        return out

    def an_commands(self):
        P = 'C17'
        rule = 'a command renders as its RFC form'
        self.override_xtext()
        C = 'commands::'
        disp = lambda n: self.impl('core::fmt::Display', C + n, 'fmt')
        for n, t in (('StarttlsCommand', b'STARTTLS'), ('DataCommand', b'DATA'), ('QuitCommand', b'QUIT'), ('NoopCommand', b'NOOP'), ('RsetCommand', b'RSET')):
            d = disp(n)
            if d is None:
                continue
            v = ('A', self.ty(C + n), 0, ())
            self.guard(lambda: self.simple_text(P, rule, State(), d, cref(v), lambda s: (('L', t + b'\r\n'),), n))

        def made(n, mk, want):
            """values made by the constructor, rendered"""
            d = disp(n)
            if d is None or self.p.root(C + n + '::new') is None:
                return
            st = State()
            b = self.fn(C + n + '::new')
            args = [self.arg(m_, b.locals[i + 1]) for i, m_ in enumerate(mk)]
            if len(args) != b.argc:
                raise Unsupported('signature of %s::new' % n)
            for s, v in self.run(st, C + n + '::new', args):
                want(s, v, d, args)

        def with_arg(n, verb):
            made(n, ('argument',), lambda s, v, d, a: self.simple_text(P, rule, s, d, cref(v), lambda s2: self.lits(verb + b' ', self.whole(s2, a[0]), b'\r\n'), n))
        self.guard(lambda: with_arg('VrfyCommand', b'VRFY'))
        self.guard(lambda: with_arg('ExpnCommand', b'EXPN'))

        def help_(s, v, d, a):
            for s2, ok, text in self.fmt(s, d, cref(v)):
                for s3, var, fs in self.cases(s2, a[0]):
                    w = self.lits(b'HELP', (b' ' if var == 1 else b''), self.whole(s3, fs[0]) if var == 1 else (), b'\r\n')
                    self.it.where = d
                    self.require(s3, P, rule, ok and text == w, lambda: 'HELP renders as %s instead of %s' % (showpieces(text), showpieces(w)))
        self.guard(lambda: made('HelpCommand', ('argument',), help_))

        def ehlo(s, v, d, a):
            for s2, ok, text in self.fmt(s, d, cref(v)):
                for s3, var, fs in self.cases(s2, a[0]):
                    w = self.lits(b'EHLO ', self.client_text(s3, var, fs), b'\r\n')
                    self.it.where = d
                    self.require(s3, P, rule, ok and text == w, lambda: 'EHLO renders as %s instead of %s' % (showpieces(text), showpieces(w)))
        self.guard(lambda: made('EhloCommand', ('client_id',), ehlo))

        def client():
            d = self.impl('core::fmt::Display', 'extension::ClientId', 'fmt')
            a = self.arg('client_id', 'extension::ClientId')
            for s2, ok, text in self.fmt(State(), d, cref(a)):
                for s3, var, fs in self.cases(s2, a):
                    w = self.client_text(s3, var, fs)
                    self.it.where = d
                    self.require(s3, P, 'client identifiers render as domain, [IPv4] or [IPv6:address]', ok and text == w,
                                 lambda: 'client id renders as %s instead of %s' % (showpieces(text), showpieces(w)))
        self.guard(client)
        self.guard(lambda: self.params('extension::MailParameter', P))
        self.guard(lambda: self.params('extension::RcptParameter', P))
        # MAIL and RCPT: a list of parameters of any length
        for n, mk in (('MailCommand', ('sender', 'parameters')), ('RcptCommand', ('recipient', 'parameters'))):
            self.guard(lambda: made(n, mk, lambda s, v, d, a: self.path_command(P, rule, n, s, v, d, a)))
        self.guard(lambda: self.auth_command(P, rule))

    def guard(self, f):
        """one part of an analysis failing must not stop the others"""
        try:
            f()
        except (Unsupported, Budget, Split, AssertionError, KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
            if isinstance(e, Timeout):
                raise
            if os.environ.get("VERIF_TRACE"):
                import traceback
                traceback.print_exc()
            self.it.lose(None, e)

    def client_text(self, st, var, fs):
        n = self.T[self.ty('extension::ClientId')]['variants'][var]['n']
        if n == 'Domain':
            return self.whole(st, fs[0])
        pre, post = {'Ipv4': (b'[', b']'), 'Ipv6': (b'[IPv6:', b']')}[n]
        return self.lits(pre, (('T', 'display', self.look(st, fs[0])),), post)

    def param_text(self, st, tyname, var, fs):
        """expected text of a parameter; None when it depends on facts not known yet"""
        n = self.T[self.ty(tyname)]['variants'][var]['n']
        if n == 'Body':
            out = []
            bt = self.T[self.ty('extension::MailBodyParameter')]['variants']
            vs = self.m.std.variants(st.copy(), fs[0])
            if len(vs) != 1:
                # the text may also be produced from a table of both names
                return None
            return self.lits(b'BODY=', {'SevenBit': b'7BIT', 'EightBitMime': b'8BITMIME'}[bt[vs[0][1]]['n']])
        if n == 'Size':
            return self.lits(b'SIZE=', (('T', 'dec', fs[0]),))
        if n == 'SmtpUtfEight':
            return self.lits(b'SMTPUTF8')
        if n == 'Other':
            vs = self.m.std.variants(st.copy(), fs[1])
            if len(vs) != 1:
                return None
            if vs[0][1] == 0:
                return self.whole(st, fs[0])
            g = fs[1][3] if fs[1][0] == 'A' else self.it.expand(st, fs[1], 1)[3]
            return self.lits(self.whole(st, fs[0]), b'=', (('T', 'xtext', self.whole(st, g[0])),))
        raise Unsupported('parameter %s' % n)

    def params(self, tyname, P):
        d = self.impl('core::fmt::Display', tyname, 'fmt')
        a = self.arg('parameter', tyname)
        rule = 'parameters render as KEYWORD or KEYWORD=value, custom values in xtext'
        for s2, ok, text in self.fmt(State(), d, cref(a)):
            for s3, var, fs in self.cases(s2, a):
                for s4 in self.split_param(s3, tyname, var, fs):
                    w = self.param_text(s4, tyname, var, fs)
                    self.it.where = d
                    self.require(s4, P, rule, ok and self.resolve(s4, text) == w, lambda: 'parameter renders as %s instead of %s' % (showpieces(text), showpieces(w)))

    def split_param(self, st, tyname, var, fs):
        n = self.T[self.ty(tyname)]['variants'][var]['n']
        if n == 'Body':
            return [s for s, v in self.m.std.variants(st, fs[0])]
        if n == 'Other':
            return [s for s, v in self.m.std.variants(st, fs[1])]
        return [st]

    def resolve(self, st, text):
        """texts that depend on an enum value, now known"""
        out = ()
        for p in text:
            if p[0] == 'T' and p[1] == 'byvariant':
                vs = st.facts.get(('var', p[2]))
                if vs is not None and len(vs) == 1:
                    out = pieces_cat(out, (('L', dict(p[3])[next(iter(vs))]),))
                    continue
            out = pieces_cat(out, (p,))
        return out

    # --- rendering with a list: what is still expected is kept in the state
    def path_command(self, P, rule, name, st, v, d, args):
        ptype = 'extension::MailParameter' if name == 'MailCommand' else 'extension::RcptParameter'
        pd = self.impl('core::fmt::Display', ptype, 'fmt')

        def show_param(s, c, a, dty):
            x = self.look(s, a[0])
            self.m.std.out(s, a[1], (('T', 'param', self.m.freeze_arg(s, x, None)),))
            return [(s, self.m.ok(dty, ('A', 't', 0, ())))]
        self.it.overrides[pd] = show_param
        params = args[1]
        self.emit = lambda s, ps: self.expect(s, ps, P, rule, name, params, ptype)
        try:
            for s0, var, fs in (self.cases(st, args[0]) if name == 'MailCommand' else [(st, 1, (args[0],))]):
                if var == 1:
                    e = fs[0]
                    e = self.it.expand(s0, e) if e[0] == 'S' else e
                    inner = [x for x in e[3] if isinstance(x, tuple) and self.textual(x)]
                    path = self.whole(s0, inner[0])
                else:
                    path = ()
                s0.mon['pend'] = ('s', self.lits(b'MAIL FROM:<' if name == 'MailCommand' else b'RCPT TO:<', path, b'>'))
                s0.mon['i'] = ZERO
                s0.mon['end'] = 0
                # rendering does not consult the sender again unless it must
                for s, ok, _ in self.fmt(s0, d, cref(v)):
                    self.it.where = d
                    self.require(s, P, rule, ok and s.mon['end'] == 1 and not s.mon['pend'][1], lambda: '%s ends before %s' % (name, showpieces(s.mon['pend'][1]) if s.mon['pend'][1] else 'the line is complete'))
        finally:
            self.emit = None
            del self.it.overrides[pd]

    def expect(self, st, ps, P, rule, name, params, ptype):
        self.check(P, rule)
        self.payload = ps
        todo = list(ps)
        mon = st.mon

        def bad(p, w):
            self.violation(st, P, rule, '%s writes %s where %s is due' % (name, showpieces((p,)), w))
            raise Infeasible()
        while todo:
            p = todo.pop(0)
            if p[0] == 'S' and p[2] == p[3]:
                continue
            if p[0] == 'S' and self.it.cmp(st, 'eq', p[2], p[3]) is True:
                continue
            pend = mon['pend'][1]
            while pend and pend[0][0] == 'S' and self.it.cmp(st, 'eq', pend[0][2], pend[0][3]) is True:
                pend = pend[1:]
            if not pend:
                if mon['end']:
                    bad(p, 'nothing')
                n = self.m.seq_len(st, params)
                if p[0] == 'L' and p[1][:1] == b' ':
                    if self.it.cmp(st, 'lt', mon['i'], n) is not True:
                        bad(p, 'CRLF (there may be no further parameter)')
                    e = self.m.seq_get(st, params, mon['i'])
                    mon['i'] = ladd(mon['i'], ONE)
                    pend = (('L', b' '), ('T', 'param', e))
                elif p[0] == 'L' and p[1][:1] == b'\r':
                    if self.it.cmp(st, 'eq', mon['i'], n) is not True:
                        bad(p, 'a parameter (not all may have been written)')
                    mon['end'] = 1
                    pend = (('L', b'\r\n'),)
                else:
                    bad(p, 'a space or CRLF')
            w = pend[0]
            if w[0] == 'T' and w[1] == 'param' and p != w:
                # written piece by piece
                e = w[2]
                vs = self.m.std.variants(st.copy(), e)
                if len(vs) != 1:
                    bad(p, 'a parameter')
                t = self.param_text(st, ptype, vs[0][1], e[3] if e[0] == 'A' else self.it.expand(st, e, vs[0][1])[3])
                if t is None:
                    bad(p, 'a parameter')
                pend = pieces_cat(t, pend[1:])
                todo.insert(0, p)
                mon['pend'] = ('s', pend)
                continue
            if p == w:
                pend = pend[1:]
            elif p[0] == 'L' and w[0] == 'L':
                a, b = p[1], w[1]
                n = min(len(a), len(b))
                if a[:n] != b[:n]:
                    bad(p, showpieces((w,)))
                pend = ((('L', b[n:]),) if len(b) > n else ()) + pend[1:]
                if len(a) > n:
                    todo.insert(0, ('L', a[n:]))
            elif p[0] == 'S' and w[0] == 'S' and p[1] == w[1] and p[2] == w[2] and self.it.cmp(st, 'le', p[3], w[3]) is not False:
                pend = (('S', w[1], p[3], w[3]),) + pend[1:]
            else:
                bad(p, showpieces((w,)))
            mon['pend'] = ('s', pend)

    def auth_command(self, P, rule):
        d = self.impl('core::fmt::Display', 'commands::AuthCommand', 'fmt')
        new = 'commands::AuthCommand::new'
        if d is None or self.p.root(new) is None:
            return
        b = self.fn(new)
        mty = self.ty('authentication::Mechanism')
        names = [v['n'] for v in self.T[mty]['variants']]
        st = State()
        mech = self.arg('mechanism', mty)
        cty = self.ty('authentication::Credentials')
        str_t = self.p.tyname.get('alloc::string::String')
        u, pw = self.arg('u', str_t), self.arg('p', str_t)
        cred = self.run(State(), 'authentication::Credentials::new', [u, pw])[0][1]
        ch = self.arg('challenge', b.locals[3])
        for s, v in self.run(st, new, [mech, cred, ch]):
            for s2, ok, x in self.result(s, v):
                if not ok:
                    continue
                for s3, ok3, text in self.fmt(s2, d, cref(x)):
                    for s4, mv in self.m.std.variants(s3, mech):
                        for s5, cv, cf in self.cases(s4, ch):
                            n = names[mv]
                            U, W = self.whole(s5, u), self.whole(s5, pw)
                            b64 = lambda t: (('T', 'b64', t),)
                            if n == 'Plain':
                                w = [self.lits(b'AUTH PLAIN ', b64(self.lits(b'\0', U, b'\0', W)), b'\r\n')]
                            elif n == 'Xoauth2':
                                w = [self.lits(b'AUTH XOAUTH2 ', b64(self.lits(b'user=', U, b'\x01auth=Bearer ', W, b'\x01\x01')), b'\r\n')]
                            elif n == 'Login':
                                w = [self.lits(b'AUTH LOGIN\r\n')] if cv == 0 else [self.lits(b64(U), b'\r\n'), self.lits(b64(W), b'\r\n')]
                            else:
                                raise Unsupported('mechanism %s' % n)
                            self.it.where = d
                            self.payload = text
                            self.require(s5, P, rule, ok3 and text in w, lambda: 'AUTH %s renders as %s' % (n, showpieces(text)))

    # ============================================================ C22
    def an_xtext(self):
        P = 'C22'
        d = self.impl('core::fmt::Display', 'util::XText', 'fmt')
        if d is None:
            raise Unsupported('XText does not implement Display')
        st = State()
        v = self.it.expand(st, self.arg('text', self.fn(d).locals[1] if False else self.T[self.fn(d).locals[1]]['elem']))
        src = self.look(st, v[3][0])
        self.xsrc = src[1]
        st.mon['pos'] = ZERO
        st.mon['buf'] = ('s', ())
        self.emit = self.xt
        self.region = self.xsrc
        try:
            for s, ok, _ in self.fmt(st, d, cref(v)):
                self.it.where = d
                n = self.m.text_len(s, src)
                self.require(s, P, 'the whole string is written', ok and not s.mon['buf'][1] and self.it.cmp(s, 'eq', s.mon['pos'], n) is True,
                             lambda: 'xtext ends at position %s of %s' % (lshow(s.mon['pos']), lshow(n)))
        finally:
            self.emit = None
            self.region = None

    def region_lost(self, st, ks):
        """facts about single characters that are given up"""
        if any(self.it.cmp(st, 'lt', k[1][2], st.mon.get('pos', ZERO)) is not True for k in ks):
            st.inexact('may')

    def chars_of(self, st, term, lo, hi):
        """characters that part lo..hi of a text may contain"""
        best = CHAR
        whole = st.facts.get(('chars', term))
        if whole is not None:
            best = cs_inter(best, whole)
        for k, cs in st.facts.items():
            if k[0] == 'chars' and k[1][0] == 'part' and k[1][1] == term:
                if (k[1][2] == lo or self.it.cmp(st, 'le', k[1][2], lo) is True) and (k[1][3] == hi or self.it.cmp(st, 'le', hi, k[1][3]) is True):
                    best = cs_inter(best, cs)
        # stretch by stretch
        pos, acc = lo, ()
        for _ in range(8):
            if pos == hi:
                return cs_inter(best, acc)
            nxt = [(k[1][3], cs) for k, cs in st.facts.items() if k[0] == 'chars' and k[1][0] == 'part' and k[1][1] == term and k[1][2] == pos and k[1][3] != pos]
            c = st.facts.get(('cs', ('ch', term, pos)))
            if c is not None:
                w = ONE if c[-1][1] < 128 else st.nums.get(('w', ('ch', term, pos)))
                if w is not None:
                    nxt.append((ladd(pos, w), c))
            if not nxt:
                break
            far = [x for x in nxt if x[0] == hi] or nxt
            pos, c = far[0]
            acc = cs_union(acc, c)
        return best

    def xt(self, st, ps):
        P = 'C22'
        r1 = 'characters outside the xtext alphabet are written as + and two upper-case digits'
        r2 = 'other characters are written unchanged and in order'
        mon = st.mon
        self.payload = ps
        for p in ps:
            buf = mon['buf'][1]
            at = ('ch', self.xsrc, mon['pos'])
            if p[0] == 'S' and p[1] == self.xsrc and not buf:
                if self.it.cmp(st, 'eq', p[2], p[3]) is True:
                    continue
                self.require(st, P, r2, p[2] == mon['pos'] or self.it.cmp(st, 'eq', p[2], mon['pos']) is True,
                             lambda: 'part %s..%s is written when position %s is due' % (lshow(p[2]), lshow(p[3]), lshow(mon['pos'])))
                cs = self.chars_of(st, p[1], p[2], p[3])
                bad = cs_minus(cs, XPLAIN)
                self.require(st, P, r1, not bad, lambda: 'characters %s may be written unchanged' % cs_show(bad)[:200])
                mon['pos'] = p[3]
                continue
            if p[0] == 'T' and p[1] == 'char' and not buf and p[2][0] == 'S' and p[2][1][0] == 'ch' and p[2][1][1] == self.xsrc:
                cs = self.it.charset(st, p[2][1])
                self.require_code(st, P, r2, p[2], at, lambda: 'a character is written out of order')
                bad = cs_minus(cs, XPLAIN)
                self.require(st, P, r1, not bad, lambda: 'characters %s may be written unchanged' % cs_show(bad)[:200])
                mon['pos'] = ladd(mon['pos'], self.m.std.width(st, p[2][1]))
                continue
            if p[0] == 'L' and (buf or p[1][:1] == b'+'):
                b = (buf[0][1] if buf else b'') + p[1]
                while b:
                    if b[:1] != b'+':
                        self.violation(st, P, r2, 'literal %r is written' % b)
                        raise Infeasible()
                    if len(b) < 3:
                        break
                    cs = self.it.charset(st, ('ch', self.xsrc, mon['pos']))
                    want = (b'+%02X' % cs[0][0]) if cs_size(cs) == 1 and cs[0][0] < 128 else None
                    self.require(st, P, r1, want == b[:3], lambda: '%r is written for a character in %s' % (b[:3], cs_show(cs)[:100]))
                    mon['pos'] = ladd(mon['pos'], ONE)
                    b = b[3:]
                mon['buf'] = ('s', (('L', b),) if b else ())
                continue
            if p[0] == 'T' and p[1] == 'hex' and buf == (('L', b'+'),):
                cs = self.it.charset(st, ('ch', self.xsrc, mon['pos']))
                self.require(st, P, r1, p[2] == 'upper_hex' and p[3] == 2 and p[4] is True and p[5] is False and len(p) >= 7,
                             lambda: 'a character is encoded as +%s' % show(p))
                self.require_code(st, P, r1, p[6], at, lambda: 'a character is encoded as +%s' % show(p))
                bad = cs_minus(cs, cs_minus(CHAR, XPLAIN))
                self.require(st, P, r2, not bad, lambda: 'characters %s may be encoded although they are in the xtext alphabet' % cs_show(bad)[:200])
                mon['pos'] = ladd(mon['pos'], ONE)
                mon['buf'] = ('s', ())
                continue
            self.violation(st, P, r2, '%s is written' % showpieces((p,)))
            raise Infeasible()

    def require_code(self, st, prop, rule, v, at, msg):
        """v is the code of the (ASCII) character `at` of the text"""
        r = self.same_code(st, v, at)
        if r is None:
            st.inexact('may')
        self.require(st, prop, rule, r is True, msg)

    def same_code(self, st, v, at):
        if isinstance(v, tuple) and v[0] == '#' and v[2]:
            for k, n in st.nums.items():
                if n == v and k[0] in ('code', 'cast'):
                    return self.same_code(st, ('S', k, None) if k[0] == 'cast' else ('S', k[1], None), at)
        cs = self.it.charset(st, at)
        if isinstance(v, int) or v[0] == '#' and not v[2]:
            v = v if isinstance(v, int) else v[1]
            return cs_size(cs) == 1 and cs[0][0] == v
        if v[0] != 'S':
            return None
        t = v[1]
        while t[0] in ('cast', 'code'):
            if t[0] == 'code':
                t = t[1]
                continue
            x = t[-1]
            if not (isinstance(x, tuple) and x[0] == 'S'):
                return self.same_code(st, x, at) if isinstance(x, (int, tuple)) else None
            t = x[1]
        if t[0] == 'idx' and t[1] == at[1] and cs[-1][1] < 128:
            t = ('ch',) + t[1:]
        if t == at:
            return True
        if t[0] == 'ch' and t[1] == at[1]:
            return self.it.cmp(st, 'eq', t[2], at[2])
        return None

    # ============================================================ C20
    def an_codes(self):
        P = 'C20'
        R = 'response::Response'
        rty = self.ty(R)
        f = {x['n']: (i, x['t']) for i, x in enumerate(self.T[rty]['variants'][0]['f'])}
        if 'code' not in f:
            raise Unsupported('field code')
        ic, cty = f['code']
        cf = {x['n']: (i, x['t']) for i, x in enumerate(self.T[cty]['variants'][0]['f'])}
        digits = []
        for n in ('severity', 'category', 'detail'):
            i, t = cf[n]
            digits.append((i, t, {v['d']: k for k, v in enumerate(self.T[t]['variants'])}))
        rule = 'the code is displayed as the three digits'
        st0 = State()
        for (i, t, vs), want in zip(digits, ((2, 3, 4, 5), tuple(range(6)), tuple(range(10)))):
            self.it.where = self.T[t]['s']
            self.require(st0, P, 'each digit has one value', tuple(sorted(vs)) == want, 'digit values of %s are %s' % (self.T[t]['s'], sorted(vs)))
        dcode = self.impl('core::fmt::Display', 'response::Code', 'fmt')

        def code(a, b, c):
            fs = [None] * len(cf)
            for (i, t, vs), x in zip(digits, (a, b, c)):
                fs[i] = ('A', t, vs[x], ())
            return ('A', cty, 0, tuple(fs))
        combos = [(a, b, c) for a in (2, 3, 4, 5) for b in range(6) for c in range(10)]
        new = self.p.root('response::Code::new')

        def response(cv):
            resp = self.it.expand(State(), self.arg('response', rty))
            fs = list(resp[3])
            fs[ic] = cv
            return ('A', rty, 0, tuple(fs))
        u16 = self.p.tyname.get('u16')
        for a, b, c in combos:
            n = 100 * a + 10 * b + c
            cv = code(a, b, c)
            self.guard(lambda: self.simple_text(P, rule, State(), dcode, cref(cv), lambda s: (('L', b'%d' % n),), 'code %d' % n))

            def has():
                resp = response(cv)
                for arg, want in ((n, True), ((n + 1) % 1000, False), (n % 100, False), (n + 1000, False)):
                    for s, v in self.run(State(), 'response::Response::has_code', [cref(resp), arg]):
                        self.it.where = 'response::Response::has_code'
                        self.require(s, P, 'has_code compares with the three digits', v is want, lambda: 'has_code(%d) is %s for a reply with code %d' % (arg, show(v), n))
            if b in (0, 5) or c in (0, 9) or (b, c) == (3, 4):
                self.guard(has)

        def has_sym():
            # any number: true exactly for the code
            for a, b, c in ((2, 5, 0), (3, 3, 4), (5, 5, 9), (4, 0, 1)):
                n = 100 * a + 10 * b + c
                resp = response(code(a, b, c))
                for s, v in self.run(State(), 'response::Response::has_code', [cref(resp), ('S', ('arg', 'n'), u16)]):
                    for s2, val in self.truth(s, v):
                        cs = self.it.charset(s2, ('arg', 'n')) or ((0, 65535),)
                        self.it.where = 'response::Response::has_code'
                        cs = cs_inter(cs, ((0, 65535),))
                        if val:
                            ok = cs == ((n, n),)
                        else:
                            ok = not cs_inter(cs, ((n, n),))
                        self.require(s2, P, 'has_code compares with the three digits', ok, lambda: 'has_code(x) is %s for x in %s and a reply with code %d' % (val, cs_show(cs)[:100], n))
        if self.p.root('response::Response::has_code') is not None:
            self.guard(has_sym)
        for name, i in (('Severity', 0), ('Category', 1), ('Detail', 2)):
            d = self.impl('core::fmt::Display', 'response::' + name, 'fmt')
            if d:
                for val, var in digits[i][2].items():
                    self.guard(lambda: self.simple_text(P, rule, State(), d, cref(('A', digits[i][1], var, ())), lambda s: (('L', b'%d' % val),), 'digit %d' % val))
        if new is not None:
            def mk():
                b = self.fn('response::Code::new')
                args = [self.arg('a%d' % i, b.locals[i + 1]) for i in range(b.argc)]
                for s, v in self.run(State(), 'response::Code::new', list(args)):
                    self.it.where = 'response::Code::new'
                    ok = all(v[0] == 'A' and v[3][i] == ('S', ('arg', 'a%d' % k), t) for k, (i, t, _) in enumerate(digits))
                    self.require(s, P, 'a code keeps its digits', ok, lambda: 'Code::new gives %s' % show(v))
            self.guard(mk)
        # classification
        pos = 'response::Response::is_positive'
        errf = None
        for r in self.p.roots:
            if r.get('trait', '').startswith('core::convert::From') and r.get('name') == 'from' and r.get('inputs') == [rty] and self.T[r['output']]['s'] == 'error::Error':
                errf = r
        ety = self.ty('error::Error')
        for sev in (2, 3, 4, 5):
            i, t, vs = digits[0]
            fs = [('S', ('f', ('f', ('arg', 'response'), ic), k), x['t']) for k, x in enumerate(self.T[cty]['variants'][0]['f'])]
            fs[i] = ('A', t, vs[sev], ())
            resp = response(('A', cty, 0, tuple(fs)))

            def positive():
                for s, v in self.run(State(), pos, [cref(resp)]):
                    for s2, val in self.truth(s, v):
                        self.it.where = pos
                        self.require(s2, P, 'a reply is positive exactly when its first digit is 2 or 3', val == (sev in (2, 3)), 'is_positive is %s for replies starting with %d' % (val, sev))
            self.guard(positive)

            def error():
                if errf is None:
                    raise Unsupported('conversion of replies into errors')
                for s, v in self.it.exec_fn(State(), self.p.body(errf['key']), [resp]):
                    for s2, var, f2 in self.cases(s, v):
                        n = self.T[ety]['variants'][var]['n']
                        self.it.where = errf['path']
                        want = {4: 'Transient', 5: 'Permanent'}.get(sev)
                        if want:
                            self.require(s2, P, 'negative replies become the matching error with the complete reply', n == want and self.same(s2, f2[0], resp),
                                         lambda: 'a reply starting with %d becomes %s(%s)' % (sev, n, show(f2)[:100]))
                        else:
                            self.require(s2, P, 'positive replies are neither transient nor permanent errors', n not in ('Transient', 'Permanent'), 'a reply starting with %d becomes %s' % (sev, n))
            self.guard(error)

    def truth(self, st, v):
        if isinstance(v, bool):
            return [(st, v)]
        out = []
        for val in (True, False):
            s = st.copy()
            try:
                if self.it.assume(s, v[1], val):
                    out.append((s, val))
            except Infeasible:
                pass
        return out

    # ============================================================ C23
    def an_options(self):
        P = 'C23'
        C = 'smtp_client::SmtpClient'
        ty = self.ty(C)
        B = C + '::'
        d = self.run(State(), B + 'new', [])
        if len(d) != 1:
            raise Unsupported('SmtpClient::new')
        base = self.thaw(*d[0])
        nf = len(base[3])
        changed = {}
        for f in ('smtp_utf8', 'pipelining', 'hello_name', 'without_greeting'):
            b = self.fn(B + f)
            me = self.it.expand(State(), self.arg('client', ty))
            args = [me] + [self.it.sym(State(), ('arg', 'value'), b.locals[i + 1]) for i in range(1, b.argc)]
            for s, v in self.run(State(), B + f, list(args)):
                self.it.where = B + f
                v = self.thaw(s, v)
                diff = [i for i in range(nf) if not self.same(s, v[3][i], me[3][i])]
                ok = len(diff) == 1 and (self.same(s, v[3][diff[0]], args[1]) if len(args) > 1 else v[3][diff[0]] in (True, False))
                if len(args) == 1 and not diff:
                    ok = False
                self.require(s, P, 'a setter changes exactly its own option', ok, lambda: '%s changes %d fields: %s' % (f, len(diff), show(v)[:200]))
                if ok:
                    changed.setdefault(f, set()).add((diff[0], v[3][diff[0]] if len(args) == 1 else None))
        idx = {f: next(iter(x))[0] for f, x in changed.items() if len(x) == 1}
        st = d[0][0]
        self.it.where = B + 'new'
        self.require(st, P, 'options are independent', len(set(idx.values())) == len(idx), 'two setters change the same option')
        rule = 'a new client has the documented defaults'
        if 'smtp_utf8' in idx:
            self.require(st, P, rule, base[3][idx['smtp_utf8']] is False, 'SMTPUTF8 is enabled by default')
        if 'pipelining' in idx:
            self.require(st, P, rule, base[3][idx['pipelining']] is True, 'pipelining is disabled by default')
        if 'without_greeting' in idx:
            off = next(iter(changed['without_greeting']))[1]
            self.require(st, P, rule, base[3][idx['without_greeting']] is (not off), 'no greeting is expected by default')
        if 'hello_name' in idx:
            dn = self.impl('core::default::Default', 'extension::ClientId', 'default')
            for s, v in self.run(State(), dn, []):
                self.require(s, P, rule, self.same(s, base[3][idx['hello_name']], v), 'the default client name is not ClientId::default()')
            nm = base[3][idx['hello_name']]
            self.require(st, P, rule, nm[0] == 'A' and self.T[nm[1]]['variants'][nm[2]]['n'] == 'Ipv4' and '127 0 0 1' in show(nm), lambda: 'the default client name is %s' % show(nm))
        dd = self.impl('core::default::Default', C, 'default')
        if dd:
            for s, v in self.run(State(), dd, []):
                self.it.where = dd
                self.require(s, P, 'default() equals new()', self.same(s, self.thaw(s, v), base), 'SmtpClient::default() differs from SmtpClient::new()')

    # ============================================================ C26 (everything but the transport)
    SKIP = ('smtp_client::SmtpTransport', 'stream::')

    def an_panics(self):
        """every function users can call, with arbitrary arguments"""
        it = self.it
        self.emit = lambda st, ps: None
        again = []
        for r in self.p.roots:
            if r.get('kind') not in ('Fn', 'AssocFn') or r['path'].startswith(self.SKIP) or not r.get('public'):
                continue
            if r.get('trait', '').split('<')[0] in ('core::fmt::Debug', 'core::hash::Hash'):
                continue
            b = self.p.body(r['key'])
            if b is None:
                continue
            self.check('C26', 'no panic')

            def go(opaque, r=r, b=b):
                it.where = r['path']
                st = State()
                args = []
                if any(self.guarded(b.locals[i + 1]) for i in range(b.argc)):
                    # not every value of the type need exist
                    st.inexact('values the type does not allow')
                for i in range(b.argc):
                    t = b.locals[i + 1]
                    if 'core::fmt::Formatter' in self.T[it.strip_refs(t)]['s']:
                        st.mem[('m', 'fm')] = ('fm', ('sink', 'o'))
                        args.append(('R', ('m', 'fm'), ()))
                    elif opaque and self.T[it.strip_refs(t)]['k'] == 'str':
                        st.mon['valid'] = ZERO
                        args.append(cref(('s', (('T', 'rest', LINE(ZERO)),))))
                    else:
                        args.append(it.sym(st, ('arg', 'a%d' % i), t))
                res = it.exec_fn(st, b, args)
                self.op_log['roots'] = self.op_log.get('roots', 0) + len(res)
            lost = dict(it.lost)
            self.guard(lambda: go(False))
            if it.lost != lost and [self.T[it.strip_refs(b.locals[i + 1])]['k'] == 'str' for i in range(b.argc)].count(True) == 1:
                again.append((go, r, lost, dict(it.lost)))
                it.lost.clear()
                it.lost.update(lost)
        self.parse_mode()
        self.guard(self.parse_roots)
        for go, r, lost, first in again:
            # the text taken apart line by line
            before = dict(it.lost)
            self.guard(lambda: go(True))
            if it.lost != before:
                for k, n in first.items():
                    if n != lost.get(k):
                        it.lost[k] = n

    def guarded(self, t, seen=None):
        """does the type have private fields of the crate, hence possibly an invariant?"""
        t = self.it.strip_refs(t)
        x = self.T[t]
        if x['k'] == 'adt' and x.get('local'):
            return any(not f['pub'] or self.guarded(f['t']) for v in x['variants'] for f in v['f'])
        if x['k'] == 'adt':
            return any(isinstance(a, int) and self.guarded(a) for a in x.get('args', ()))
        return False


FOR = {
    'C15': ('address',), 'C16': ('envelope',), 'C17': ('commands',), 'C18': ('parse',), 'C20': ('codes',), 'C22': ('xtext',), 'C23': ('options',), 'C24': ('source',),
    'C26': ('panics',), 'C21': ('ehlo',), 'C32': ('effects',), 'C33': ('reports',),
}


def run(prog, rt, name, exact, deadline):
    import check
    h = Pure(prog)
    it = h.it
    it.tolerant = True
    it.deadline = deadline
    it.exact_turns = exact
    try:
        getattr(h, 'an_' + name)()
    except Timeout as e:
        it.lost['Timeout: %s' % e] = 1
    except (Unsupported, Budget, Split, Infeasible) as e:
        it.lose(None, e)
    except (KeyError, IndexError, TypeError, AttributeError, ValueError) as e:
        import traceback
        it.lose(None, Unsupported('%s %s %s' % (type(e).__name__, e, traceback.format_exc()[-900:])))
    return check.summarise(h)


def compare_runtimes(c):
    """C27: everything one runtime does, the other does too"""
    ev = {}
    for task, r in c.results:
        if 'events' in r:
            ev.setdefault(task[1], {}).update({(task[2] if task[0] == 'op' else 'new',) + (k,): v for k, v in r['events'].items()})
    bad = c.incomplete(c.results)
    rts = sorted(ev)
    n = 0
    recs = []
    for a in rts:
        for b in rts:
            if a == b:
                continue
            for k, (approx, text, where) in ev[a].items():
                n += 1
                if k in ev[b]:
                    continue
                # something a does in a way b never does: certain if a's run is exact and b was followed completely
                why = tuple(approx) + (('%s not followed completely' % b,) if any(t[1] == b for t, _ in bad) else ())
                recs.append((dict(property='C27', rule='both runtimes perform the same I/O with the same contents and results',
                                  message='with runtime %s only: %s' % (a, text), at=where, stack=[], op=k[0], approx=list(why), path=[]), not why))
    c.results.append((('compare', 'both', 'events'), dict(records=recs, rules={'C27': {'both runtimes perform the same I/O with the same contents and results': n}})))
