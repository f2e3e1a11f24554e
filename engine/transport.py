"""Most general client of SmtpTransport: every operation, any order, any server, any I/O outcome.

The transport is created by SmtpTransport::new with arbitrary options and then used by an arbitrary
sequence of operations; the stream, the server's replies, the message source and all arguments are
unknown.  Every I/O call of the library goes to `io` below, which follows all its outcomes and keeps
the ghost state (`st.mon`) the protocol rules are stated over.
"""
from vals import *
from interp import *
from hooks import Hooks

CR, LF, DOT = 13, 10, 46
CLASSES = [((CR, CR),), ((LF, LF),), ((DOT, DOT),), cs_minus(U8, cs_of(CR, LF, DOT))]
CLS_NAME = ['CR', 'LF', 'dot', 'other']


def T1(v):
    return ('x', v)


class Transport(Hooks):
    def __init__(self, prog):
        Hooks.__init__(self)
        self.p = prog
        self.T = prog.T
        it = self.it = Interp(prog, self)
        self.m = it.models
        self.events = {}
        self.ended, self.ended_ok = {}, set()
        self.least = 1 << 62
        self.io_sites = {}
        self.op_log = {}
        # ----- the parser of replies is analysed on its own (C18): here it may answer anything
        self.parsers = []
        for r in prog.roots:
            if r.get('kind') in ('Fn', 'AssocFn') and r.get('output') is not None:
                t = self.T[r['output']]
                if t['s'].startswith('core::result::Result<(&str, response::Response), nom::') and len(r['inputs']) == 1:
                    self.parsers.append(r['path'])
                    it.overrides[r['path']] = self.parse
        it.overrides['extension::ServerInfo::from_response'] = self.sinfo
        self.names()

    # ------------------------------------------------------------ names
    def names(self):
        T = self.T
        self.tyResp = self.p.tyname.get('response::Response')
        if self.tyResp is None:
            raise Unsupported('type response::Response')

        def fld(ty, name):
            for i, f in enumerate(T[ty]['variants'][0]['f']):
                if f['n'] == name:
                    return i, f['t']
            raise Unsupported('field %s of %s' % (name, T[ty]['s']))
        self.iCode, tc = fld(self.tyResp, 'code')
        self.iMsg, _ = fld(self.tyResp, 'message')
        self.iSev, ts = fld(tc, 'severity')
        self.iCat, tcat = fld(tc, 'category')
        self.iDet, tdet = fld(tc, 'detail')

        def var(ty, d):
            for i, v in enumerate(T[ty]['variants']):
                if v['d'] == d:
                    return i
            raise Unsupported('variant %d of %s' % (d, T[ty]['s']))
        self.sev = {d: var(ts, d) for d in (2, 3, 4, 5)}
        self.cat3 = var(tcat, 3)
        self.det4 = var(tdet, 4)
        self.ncat = len(T[tcat]['variants'])
        self.ndet = len(T[tdet]['variants'])
        self.tyMech = self.p.tyname['authentication::Mechanism']
        self.mech = {v['n']: i for i, v in enumerate(T[self.tyMech]['variants'])}
        self.tyExt = self.p.tyname['extension::Extension']
        self.ext = {v['n']: i for i, v in enumerate(T[self.tyExt]['variants'])}

    def extv(self, name, *fs):
        return ('A', self.tyExt, self.ext[name], tuple(fs))

    # ------------------------------------------------------------ calling things
    def fn(self, path):
        r = self.p.root(path)
        if r is None:
            raise Unsupported('no function %s' % path)
        b = self.p.body(r['key'])
        if b is None:
            raise Unsupported('no body of %s' % path)
        return b

    def run(self, st, path, args):
        return self.it.exec_fn(st, self.fn(path), args)

    def run_async(self, st, path, args):
        out = []
        for s, v in self.run(st, path, args):
            if not (isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and self.T[v[1]]['k'] == 'coroutine'):
                raise Unsupported('%s is not an async fn' % path)
            b = self.p.body(self.T[v[1]]['body'])
            out.extend(self.it.exec_fn(s, b, [v, ('S', ('resume',), b.locals[2])]))
        return out

    # ------------------------------------------------------------ event log (for comparing runtimes)
    def untype(self, v):
        if isinstance(v, tuple):
            if v and v[0] == 'A' and len(v) == 4:
                return ('A', v[2], tuple(self.untype(x) for x in v[3]))
            if v and v[0] == 'S' and len(v) == 3:
                return ('S', self.untype(v[1]))
            if v and v[0] == 'F':
                return ('F',)
            if v and v[0] == 'deq':
                v = v[:3]
            return tuple(self.untype(x) for x in v)
        return v

    def log(self, st, kind, payload):
        self.payload = payload if kind != 'return' else ()
        v = (kind, self.untype(payload), self.untype(tuple(sorted(st.mon.items()))))
        sk, ls, ns = walk(v)
        m = {}
        for n in ns:
            m.setdefault(n, len(m))
        if ns:
            sk = walk(map_fresh(v, m))[0]
        k = (sk, norm_slots(ls))
        e = self.events.get(k)
        if e is None or (not st.approx and e[0]):
            self.events[k] = (st.approx, '%s: %s %s' % (st.mon.get('op'), kind, self.describe(payload)), self.it.where)

    def describe(self, payload):
        try:
            return showpieces(payload)[:200]
        except Exception:
            return show(payload)[:200]

    def events_out(self):
        import hashlib
        return {hashlib.md5(repr(k).encode()).hexdigest(): v for k, v in self.events.items()}

    # ------------------------------------------------------------ ghosts
    def start(self, st):
        st.mon.update(op='', mode='cmd', line=('s', ()), out=ZERO, unfl=0, dead=0, neg=0, rej=(), last=(), cls='',
                      reading=0, wpos=ZERO, rest=())

    def begin(self, st, op, **kw):
        for k in list(st.mon):
            if k not in ('op', 'mode', 'line', 'out', 'unfl', 'dead', 'neg', 'rej', 'last', 'cls', 'reading', 'wpos', 'rest'):
                del st.mon[k]
        st.mon.update(op=op, neg=0, rej=(), last=(), cls='', nlines=ZERO, **kw)

    # ------------------------------------------------------------ replies
    def reply(self, st, alts=True):
        n = st.fresh()
        return ('S', ('reply', n), self.tyResp)

    def sev_term(self, r):
        return ('f', ('f', r[1], self.iCode), self.iSev)

    def classes(self, st, r):
        """[(class name, facts to set)]"""
        code = ('f', r[1], self.iCode)
        s, c, d = ('f', code, self.iSev), ('f', code, self.iCat), ('f', code, self.iDet)
        allc, alld = frozenset(range(self.ncat)), frozenset(range(self.ndet))

        def F(sev, cat=None, det=None):
            f = {('var', s): frozenset([self.sev[sev]])}
            if cat is not None:
                f[('var', c)] = cat
            if det is not None:
                f[('var', d)] = det
            return f
        if st.mon['op'] in ('auth', 'try_login'):
            if self.long:
                return [('2', F(2)), ('334', F(3, frozenset([self.cat3]), frozenset([self.det4])))]
            return [('2', F(2)), ('4', F(4)), ('5', F(5)),
                    ('334', F(3, frozenset([self.cat3]), frozenset([self.det4]))),
                    ('2', F(3, allc - {self.cat3})),
                    ('2', F(3, frozenset([self.cat3]), alld - {self.det4}))]
        if self.long:
            return [('2', F(2))]
        return [('2', F(2)), ('2', F(3)), ('4', F(4)), ('5', F(5))]

    def same_value(self, v, want):
        """v is the unknown value `want` (possibly taken apart)"""
        if v == want:
            return True
        if isinstance(v, tuple) and v[0] == 'A' and want[0] == 'S':
            for i, x in enumerate(v[3]):
                t = ('f', want[1], i)
                if isinstance(x, tuple) and x[0] in ('S', 'A'):
                    if x[0] == 'S' and x[1] != t:
                        return False
                    if x[0] == 'A' and not self.same_value(x, ('S', t, None)):
                        return False
                elif isinstance(x, int):
                    continue
                else:
                    return False
            return True
        if isinstance(v, tuple) and v[0] == 'S' and want[0] == 'S':
            return v[1] == want[1]
        return False

    def parse(self, st, c, args, dty):
        """parse_response(text): any answer"""
        ps = self.m.pieces(st, args[0])
        it, m = self.it, self.m
        mon = st.mon
        want = pieces_cat((), (('S', ('wire', mon['rid']), ZERO, mon['wpos']),)) if mon['reading'] else ()
        self.require(st, 'C19', 'parser is given exactly the bytes received since the previous reply', ps == want,
                     lambda: 'the reply parser is given %s instead of the whole reply received so far (%s)' % (showpieces(ps), showpieces(want)))
        self.log(st, 'parse', ps)
        t = self.T[dty]
        tok, terr = t['args'][0], t['args'][1]
        out = []
        s = st.copy()
        r = self.reply(s)
        restty = self.T[tok]['fields'][0]
        for name, facts in self.classes(s, r):
            s2 = s.copy()
            s2.facts.update(facts)
            s2.log('%s: reply %s complete' % (self.it.where, name))
            self.got_reply(s2, r, name)
            out.append((s2, m.ok(dty, ('A', 't', 0, (cref(('S', ('wirerest', s2.fresh()), self.T[restty]['elem'])), r)))))
        for vi, v in enumerate(self.T[terr]['variants']):
            if self.long and not (self.long == 'lines' and v['n'] == 'Incomplete'):
                continue
            s2 = st.copy()
            n = s2.fresh()
            e = ('A', terr, vi, tuple(it.sym(s2, ('f', ('nomerr', n), i), f['t']) for i, f in enumerate(v['f'])))
            s2.log('%s: reply parser answers %s' % (self.it.where, v['n']))
            if v['n'] == 'Incomplete':
                s2.mon['inc'] = 1
            else:
                s2.mon['dead'] = 'parse'
            out.append((s2, m.err(dty, e)))
        return out

    def got_reply(self, st, r, name):
        mon = st.mon
        mon['reading'] = 0
        mon['wpos'] = ZERO
        mon.pop('rid', None)
        mon.pop('inc', None)
        mon['out'] = lsub(mon['out'], ONE)
        mon['last'] = r
        mon['cls'] = name
        self.check('C05', 'each reply consumed was owed')
        if name in '45' and not mon['neg'] and not mon.get('cancel'):
            mon['neg'] = 1
            mon['rej'] = r

    def sinfo(self, st, c, args, dty):
        """ServerInfo::from_response(reply): analysed on its own (C21)"""
        v = self.m.freeze_arg(st, args[0], c)
        mon = st.mon
        if mon['op'] == 'new':
            self.require(st, 'C09', 'features are those of the EHLO reply', mon['last'] != () and self.same_value(v, mon['last']) and mon.get('stage') == 'ehlo',
                         'the server features are not taken from the reply to EHLO')
        out = []
        t = self.T[dty]
        s = st.copy()
        s.mon['features'] = 1
        out.append((s, self.m.ok(dty, ('S', ('sinfo', 0), t['args'][0]))))
        if self.long:
            return out
        s = st.copy()
        s.mon['sierr'] = 1
        out.append((s, self.m.err(dty, self.it.sym(s, ('sierr', 0), t['args'][1]))))
        return out

    # ------------------------------------------------------------ I/O
    def peel(self, st, v):
        """innermost object an I/O trait method is called on"""
        n = 0
        while n < 20:
            n += 1
            w = self.it.deref_all(st, v)
            if isinstance(w, tuple) and w[0] in ('rd', 'tk'):
                if w[0] == 'tk':
                    self.limit = w[2]
                v = w[1]
                continue
            if isinstance(w, tuple) and w[0] == 'A' and w[1] != 't' and self.T[w[1]].get('path') in ('core::pin::Pin',):
                v = w[3][0]
                continue
            return w
        return v

    def io(self, st, op, args, ty):
        it = self.it
        k = (it.where.split(' ')[0], op)
        self.io_sites[k] = self.io_sites.get(k, 0) + 1
        self.limit = None
        o = self.peel(st, args[0])
        if self.limit is not None and op not in ('read_to_end', 'read_to_string', 'read_line'):
            raise Unsupported('%s of a limited reader' % op)
        if isinstance(o, tuple) and o[0] == 'S' and o[1] == ('arg', 'stream'):
            f = getattr(self, 'io_' + op, None)
            if f is None:
                raise Unsupported('stream operation %s' % op)
            return f(st, args, ty)
        if isinstance(o, tuple) and st.mon.get('src') and self.same_value(o, st.mon['src'][1]):
            f = getattr(self, 'src_' + op, None)
            if f is None:
                raise Unsupported('message source operation %s' % op)
            return f(st, args, ty)
        if isinstance(o, tuple) and (o[0] == 's' or o[0] == 'S' and it.is_text(o[2])):
            if op == 'write_all':
                self.m.std.append(st, args[0], self.m.pieces(st, args[1]))
                return [(st, self.m.ok(ty, unit()))]
            if op == 'flush':
                return [(st, self.m.ok(ty, unit()))]
        raise Unsupported('%s on %s' % (op, show(o)[:80]))

    def fail(self, st, ty, what):
        s = st.copy()
        e = self.it.sym(s, ('ioerr', s.fresh()), self.T[ty]['args'][1])
        s.mon.setdefault('ioe', e)
        s.mon['ioe2'] = e
        s.mon.pop('eofk', None)
        s.log('%s: %s fails' % (self.it.where, what))
        return s, self.m.err(ty, e)

    def alive(self, st, what):
        mon = st.mon
        if mon['dead'] and not mon.get('afterdead'):
            mon['afterdead'] = 1
            self.violation(st, 'C08', 'nothing is sent after a failed I/O operation or an unreadable reply',
                           '%s after %s' % (what, {'parse': 'an unparsable reply', 'eof': 'the end of the connection', 'io': 'a failed I/O operation'}.get(mon['dead'], mon['dead'])))
        self.check('C08', 'nothing is sent after a failed I/O operation or an unreadable reply')

    def io_flush(self, st, args, ty):
        self.log(st, 'flush', ())
        s, v = self.fail(st, ty, 'flush')
        s.mon['dead'] = 'io'
        st.mon['unfl'] = 0
        return self.well([(st, self.m.ok(ty, unit())), (s, v)])

    def well(self, out):
        """on long runs no I/O call fails"""
        return out[:1] if self.long else out

    def io_write_all(self, st, args, ty):
        ps = self.m.pieces(st, args[1])
        self.log(st, 'write', ps)
        s, v = self.fail(st, ty, 'write')
        s.mon['dead'] = 'io'
        if not self.long:
            self.wrote(s, ps, failed=True)
        self.wrote(st, ps)
        return self.well([(st, self.m.ok(ty, unit())), (s, v)])

    def io_write(self, st, args, ty):
        ps = self.m.pieces(st, args[1])
        self.log(st, 'write?', ps)
        n = self.m.text_len(st, ('s', ps))
        s, v = self.fail(st, ty, 'write')
        s.mon['dead'] = 'io'
        s2 = st.copy()
        k = s2.newp()
        rem = ladd(s2.newp(), ONE)
        key = self.m.std.push_k(s2, ('v', (k,)))
        parts = self.it.refine(s2, lambda c: self.it.assume_eq(c, n, ladd(k, rem)))
        out = [(s, v)]
        self.wrote(st, ps)
        out.append((st, self.m.ok(ty, n)))
        if self.long:
            return out[1:]
        for s2 in parts:
            k = self.m.std.pop_k(s2, key)[1][0]
            ps = self.m.pieces(s2, args[1])
            tot = self.m.text_len(s2, ('s', ps))
            b = self.m.pieces(s2, self.m.subseq(s2, ('s', ps), k, tot))
            s2.log('%s: only a part is written' % self.it.where)
            self.wrote(s2, ps, short=b)
            out.append((s2, self.m.ok(ty, k)))
        return out

    def io_shutdown(self, st, args, ty):
        raise Unsupported('shutdown of the stream')

    io_close = io_shutdown

    def io_read_line(self, st, args, ty):
        mon = st.mon
        it, m = self.it, self.m
        self.log(st, 'read_line', ())
        self.unrest(st)
        if mon['dead'] and mon['dead'] != 'eof':
            # a read after a failure does no harm, but must not turn into success (checked on return)
            pass
        self.require(st, 'C07', 'everything written is flushed before waiting for a reply', not mon['unfl'],
                     'the client waits for a reply while bytes it has written are not flushed')
        if not mon['reading']:
            owed = it.cmp(st, 'lt', ZERO, mon['out'])
            self.require(st, 'C05', 'a reply is only awaited when one is owed', owed is True,
                         lambda: 'the client waits for a reply although %s outstanding' % ('none is' if owed is False else 'possibly none is'))
            if mon['op'] == 'new' and mon.get('stage') == 'start' and not mon['greeting']:
                self.violation(st, 'C09', 'no greeting is read when none is expected', 'a reply is read before EHLO although the client is configured not to expect a greeting')
            if owed is not True:
                mon['out'] = ONE
            mon['reading'] = 1
            mon['rid'] = st.fresh()
            mon['wpos'] = ZERO
        out = []
        if mon['dead'] == 'eof':
            return [(st, m.ok(ty, ZERO))]
        # failure
        s, v = self.fail(st, ty, 'read')
        s.mon['dead'] = 'io'
        out.append((s, v))
        # end of the connection
        s = st.copy()
        s.log('%s: connection closed' % it.where)
        s.mon['dead'] = 'eof'
        self.ends(s, 'the connection', 'inside a reply' if mon['wpos'] != ZERO else 'before a reply')
        out.append((s, m.ok(ty, ZERO)))
        # a line (or the unterminated rest before the end)
        k = ladd(st.newp(), ONE)
        mon = st.mon
        end = ladd(mon['wpos'], k)
        piece = ('S', ('wire', mon['rid']), mon['wpos'], end)
        st.nums.setdefault(('len', ('wire', mon['rid'])), None)
        del st.nums[('len', ('wire', mon['rid']))]
        m.std.append(st, args[1], (piece,))
        st.mon['wpos'] = end
        st.mon.pop('inc', None)
        out.append((st, m.ok(ty, k)))
        return out[-1:] if self.long else out

    # ------------------------------------------------------------ ends of input
    def ends(self, st, what, where):
        """an input has ended: the operation has to come to an end as well"""
        k = '%s ends %s in %s %s' % (what, where, st.mon['op'], st.mon.get('stage', ''))
        st.mon['eofk'] = k
        if k not in self.ended or (self.ended[k][0].approx and not st.approx):
            self.ended[k] = (st.copy(), self.it.where, list(self.it.stack))

    def settle_ends(self):
        """after all paths have been followed: does any path lead from the end of an input to a result?"""
        if self.it.lost or self.it.cut or self.it.exact_turns:
            return
        for k, (s, where, stack) in self.ended.items():
            src = k.startswith('the message')
            p = 'C02' if src else 'C19'
            self.check(p, 'the operation ends when its input has ended')
            if k not in self.ended_ok:
                self.it.where, self.it.stack = where, stack
                self.payload = ()
                self.violation(s, p, 'the operation ends when its input has ended', '%s: the operation never returns' % k)

    # ------------------------------------------------------------ message source
    def src_fail(self, st, ty):
        s, v = self.fail(st, ty, 'reading the message source')
        s.mon['msg'] = 'err'
        return s, v

    def ilen(self, st):
        return self.it.num(st, ('len', st.mon['ct']))

    def src_read_to_end(self, st, args, ty):
        self.log(st, 'source read_to_end', ())
        it, m = self.it, self.m
        s, v = self.src_fail(st, ty)
        out = []
        # the part read before the failure stays in the buffer
        k = s.newp()
        pos = s.mon['rpos']
        s.mon['rend'] = ladd(pos, k)
        for s in it.refine(s, lambda c: it.assume_ge0(c, lsub(self.ilen(c), c.mon['rend']))):
            m.std.append(s, args[1], (('S', s.mon['ct'], s.mon['rpos'], s.mon['rend']),))
            s.mon['rpos'] = s.mon.pop('rend')
            out.append((s, v))
        if self.limit is not None:
            # the limit may be reached first
            s = st.copy()
            end = ladd(s.mon['rpos'], as_lin(self.limit))
            for s in it.refine(s, lambda c: it.assume_ge0(c, lsub(self.ilen(c), ladd(ladd(c.mon['rpos'], as_lin(self.limit)), ONE)))):
                end = ladd(s.mon['rpos'], as_lin(self.limit))
                m.std.append(s, args[1], (('S', s.mon['ct'], s.mon['rpos'], end),))
                s.log('%s: the limit of the reader is reached' % it.where)
                s.mon['rpos'] = end
                out.append((s, m.ok(ty, as_lin(self.limit))))
        n = self.ilen(st)
        pos = st.mon['rpos']
        m.std.append(st, args[1], pieces_cat((), (('S', st.mon['ct'], pos, n),)))
        st.mon['rpos'] = n
        st.mon['msg'] = 'end'
        self.ends(st, 'the message source', 'after everything was read')
        out.append((st, m.ok(ty, lsub(n, pos))))
        return out[-1:] if self.long else out

    src_read_to_string = src_read_to_end

    def src_read(self, st, args, ty):
        self.log(st, 'source read', ())
        it, m = self.it, self.m
        s, v = self.src_fail(st, ty)
        out = [] if self.long else [(s, v)]
        b, p = it.target(st, args[1])
        buf = it.read(st, b, p)
        cap = m.text_len(st, buf)
        # end
        for s in it.refine(st, lambda c: it.assume_eq(c, c.mon['rpos'], self.ilen(c))):
            s.mon['msg'] = 'end'
            self.ends(s, 'the message source', 'after everything was read' if s.mon['rpos'] != ZERO else 'without content')
            s.log('%s: end of the message source' % it.where)
            out.append((s, m.ok(ty, ZERO)))
        s = st.copy()
        s.mon['rend'] = ladd(s.mon['rpos'], ladd(s.newp(), ONE))
        key = m.std.push_k(s, ('v', (cap,)))
        for s in it.refine(s, lambda c: it.assume_ge0(c, lsub(self.ilen(c), c.mon['rend']))):
            end = s.mon['rend']
            for s in it.refine(s, lambda c: self.room(c, c.mem[key][1][1][0], lsub(c.mon['rend'], c.mon['rpos']))):
                out.append(self.src_chunk(s, b, p, m.std.pop_k(s, key)[1][0], ty))
        return out

    def src_chunk(self, s, b, p, cap, ty):
        pos, end = s.mon['rpos'], s.mon.pop('rend')
        k = lsub(end, pos)
        new = (('S', s.mon['ct'], pos, end), ('S', ('junk', s.fresh()), ZERO, lsub(cap, k)))
        self.it.write(s, b, p, ('s', pieces_cat((), new)))
        s.mon['rpos'] = end
        return s, self.m.ok(ty, k)

    def room(self, st, cap, k):
        """k bytes of the content fit into a buffer"""
        if cap[2]:
            return self.it.assume_ge0(st, lsub(cap, k))
        # this bound is kept while the number of bytes read is in use; a state is certain to be possible if its
        # shortest content fits into the buffer
        if k[1] > cap[1]:
            return False
        self.least = min(self.least, cap[1])
        st.facts[('ge0', lsub(cap, k), k)] = True
        return True

    def violation(self, st, prop, rule, msg):
        if 'ct' in st.mon and self.ilen(st)[1] > self.least:
            st.inexact('bound not kept')
        super().violation(st, prop, rule, msg)

    # ------------------------------------------------------------ bytes arriving at the server
    def unrest(self, st):
        """a short write was not continued"""
        mon = st.mon
        if mon['rest'] != ():
            self.violation(st, 'C02' if mon['mode'] == 'data' else 'C04', 'everything handed to the stream is written',
                           'part of the data is dropped after a short write: %s' % showpieces(mon['rest'][1]))
            mon['rest'] = ()

    def wrote(self, st, ps, failed=False, short=None):
        mon = st.mon
        # a short write counts as a whole one; what is left has to come next
        if mon['rest'] != () and mon['rest'][1] == ps:
            mon['rest'] = ('s', short) if short else ()
            if not failed:
                self.alive(st, 'bytes are written')
            return
        self.unrest(st)
        if short is not None:
            mon['rest'] = ('s', short)
        self.alive(st, 'bytes are written') if not failed else None
        if failed:
            # only a part may have arrived: nothing may follow anyway
            if mon['mode'] == 'data':
                self.content(st, ps, failed=True)
            return
        mon['unfl'] = 1
        if mon['reading']:
            self.violation(st, 'C19', 'nothing is sent while a reply is half read', 'bytes are written before the reply being read was complete')
        self.taint(st, ps)
        if mon['mode'] == 'data':
            self.content(st, ps)
            return
        line = pieces_cat(mon['line'][1], ps)
        if line and line[-1][0] == 'L' and line[-1][1].endswith(b'\r\n'):
            mon['line'] = ('s', ())
            self.command(st, line)
        else:
            mon['line'] = ('s', line)

    def mentions(self, v, t):
        if v == t:
            return True
        if isinstance(v, tuple):
            return any(self.mentions(x, t) for x in v if isinstance(x, tuple))
        return False

    def taint(self, st, ps):
        c = st.mon.get('cred')
        self.check('C12', 'credentials are only written inside an AUTH exchange')
        if c and self.mentions(ps, c[1]):
            line = pieces_cat(st.mon['line'][1], ps)
            ok = (line[0][0] == 'L' and line[0][1].startswith(b'AUTH ')) or st.mon['cls'] == '334'
            if not ok:
                self.violation(st, 'C12', 'credentials are only written inside an AUTH exchange', 'credentials are written outside an AUTH exchange: %s' % showpieces(ps))

    # ------------------------------------------------------------ commands
    def verb(self, line):
        if line[0][0] != 'L':
            return None
        b = line[0][1]
        for v in (b'EHLO ', b'MAIL FROM:', b'RCPT TO:', b'DATA\r\n', b'QUIT\r\n', b'STARTTLS\r\n', b'AUTH ', b'*\r\n'):
            if b.startswith(v):
                return v.decode().strip().split(' ')[0]
        return None

    def feature(self, st, ext):
        return self.it.known(st, ('contains', self.features(st), ext))

    def features(self, st):
        # the set of features inside the server info, as the interpreter names it
        return self._features

    def command(self, st, line):
        it = self.it
        mon = st.mon
        v = self.verb(line)
        op = mon['op']
        txt = showpieces(line)
        self.log(st, 'command', line)
        # ---- C06: what is outstanding
        pend = it.cmp(st, 'lt', ZERO, mon['out'])
        if pend is not False:
            ok = v in ('MAIL', 'RCPT', 'DATA') and self.feature(st, self.extv('Pipelining')) is True \
                and it.known(st, ('arg', 'pipelining')) is True
            self.require(st, 'C06', 'commands overlap only under negotiated pipelining', ok,
                         '%s is written while a reply is outstanding, but pipelining was not both offered and enabled' % txt if v in ('MAIL', 'RCPT', 'DATA')
                         else '%s is written while a reply is outstanding' % txt)
        else:
            self.check('C06', 'commands overlap only under negotiated pipelining')
        # ---- C13: a challenge is pending
        if mon['cls'] == '334' and op in ('auth', 'try_login'):
            self.challenge_answer(st, line, v, txt)
        else:
            h = getattr(self, 'cmd_' + op, None)
            if h is None:
                self.violation(st, 'C05', 'unexpected command', 'unexpected command %s' % txt)
            else:
                h(st, line, v, txt)
        mon = st.mon
        mon['out'] = ladd(mon['out'], ONE)
        mon['nlines'] = ladd(mon['nlines'], ONE)

    # --- connection set-up
    def cmd_new(self, st, line, v, txt):
        mon = st.mon
        self.require(st, 'C09', 'EHLO is the only command of the set-up', v == 'EHLO' and mon.get('stage') == 'start',
                     'unexpected command during connection set-up: %s' % txt)
        if mon['greeting']:
            self.require(st, 'C09', 'nothing is written before a positive greeting', mon['cls'] == '2',
                         'EHLO is written before a positive greeting was received')
        if v == 'EHLO':
            exp = [ps for ps in self.client_names(st)]
            exp = [pieces_cat((('L', b'EHLO '),), pieces_cat(ps, (('L', b'\r\n'),))) for ps in exp]
            self.require(st, 'C09', 'EHLO carries the configured client name', line in exp,
                         lambda: 'EHLO line is %s, expected %s' % (txt, ' or '.join(showpieces(x) for x in exp)))
        mon['stage'] = 'ehlo'

    def render(self, st, path, ref):
        """texts a Display impl may produce: [(state, pieces)]"""
        st.mem[('m', 'rt')] = ('s', ())
        st.mem[('m', 'rfm')] = ('fm', ('R', ('m', 'rt'), ()))
        out = []
        for s, v in self.run(st, path, [ref, ('R', ('m', 'rfm'), ())]):
            if self.result(s, v)[0] == 0:
                out.append((s, s.mem.pop(('m', 'rt'))[1]))
                s.mem.pop(('m', 'rfm'))
        return out

    def client_names(self, st):
        name = ('S', ('arg', 'name'), self.p.tyname['extension::ClientId'])
        return [ps for s, ps in self.render(st.copy(), '<extension::ClientId as core::fmt::Display>::fmt', cref(name))]

    # --- quit / starttls
    def cmd_quit(self, st, line, v, txt):
        self.require(st, 'C17', 'QUIT is sent as is', line == (('L', b'QUIT\r\n'),), 'quit writes %s' % txt)

    def cmd_starttls(self, st, line, v, txt):
        mon = st.mon
        self.require(st, 'C11', 'STARTTLS is written only if advertised', self.feature(st, self.extv('StartTls')) is True,
                     'STARTTLS is written although the server did not advertise it')
        self.require(st, 'C11', 'starttls writes STARTTLS once', line == (('L', b'STARTTLS\r\n'),) and not mon.get('tls'),
                     'starttls writes %s' % txt)
        mon['tls'] = 1

    # --- authentication
    def cmd_auth(self, st, line, v, txt):
        mon = st.mon
        it = self.it
        if mon.get('authed'):
            self.violation(st, 'C13', 'one AUTH command per authentication; answers only to 334',
                           '%s is written although the server did not ask for it (last reply %s)' % (txt, mon['cls']))
            return
        self.check('C13', 'one AUTH command per authentication; answers only to 334')
        self.require(st, 'C13', 'authentication starts with AUTH', v == 'AUTH', 'authentication starts with %s' % txt)
        mon['authed'] = 1
        mech = self.auth_mech(line)
        if mon['op'] == 'auth':
            vs = st.facts.get(('var', ('arg', 'mechanism')))
            self.require(st, 'C12', 'AUTH names the requested mechanism', mech is not None and vs == frozenset([mech]),
                         'AUTH line %s does not name the requested mechanism' % txt)
            if mech is not None and self.is_plainish(mech) is not None:
                self.initial_response(st, line, mech, txt)
            return
        # try_login: the first accepted mechanism the server offers
        acc = mon['accepted'][1]
        e = self.m.seq_get(st, acc, mon['checked'])
        okset = mech is not None and self.mech_of(st, e) == mech
        offered = mech is not None and (self.feature(st, ('A', self.tyExt, self.ext['Authentication'], (e,))) is True or
                                        self.feature(st, self.extv('Authentication', ('A', self.tyMech, mech, ()))) is True)
        self.require(st, 'C12', 'try_login uses the first accepted mechanism the server offers', okset and offered,
                     lambda: 'AUTH line %s: not shown to name the first accepted mechanism that the server offers (%s)' %
                     (txt, 'mechanism not offered' if okset else 'another mechanism comes first'))
        if mech is not None:
            self.initial_response(st, line, mech, txt)

    cmd_try_login = cmd_auth

    def is_plainish(self, mech):
        return mech

    def mech_of(self, st, e):
        if e[0] == 'A':
            return e[2]
        vs = st.facts.get(('var', e[1]))
        if vs is not None and len(vs) == 1:
            return next(iter(vs))
        return None

    MECH = {'Plain': b'PLAIN', 'Login': b'LOGIN', 'Xoauth2': b'XOAUTH2'}

    def auth_mech(self, line):
        b = line[0][1]
        for n, w in self.MECH.items():
            if b in (b'AUTH ' + w + b'\r\n', b'AUTH ' + w + b' ', b'AUTH ' + w):
                return self.mech[n]
        return None

    def initial_response(self, st, line, mech, txt):
        u, p = self.cred_terms(st)
        U, P = self.whole(st, u), self.whole(st, p)
        pl = None
        if mech == self.mech['Plain']:
            pl = pieces_cat((('L', b'\0'),), pieces_cat(U, pieces_cat((('L', b'\0'),), P)))
        elif mech == self.mech['Xoauth2']:
            pl = pieces_cat((('L', b'user='),), pieces_cat(U, pieces_cat((('L', b'\x01auth=Bearer '),), pieces_cat(P, (('L', b'\x01\x01'),)))))
        name = [w for n, w in self.MECH.items() if self.mech[n] == mech][0]
        if pl is None:
            want = (('L', b'AUTH ' + name + b'\r\n'),)
        else:
            want = (('L', b'AUTH ' + name + b' '), ('T', 'b64', pl), ('L', b'\r\n'))
        self.require(st, 'C14', 'AUTH line carries exactly the initial response of its mechanism', line == want,
                     lambda: 'AUTH line is %s, expected %s' % (txt, showpieces(want)))

    def whole(self, st, term):
        return self.m.pieces(st, ('S', term, self.p.tyname['str']))

    def cred_terms(self, st):
        return self._cred

    def challenge_answer(self, st, line, v, txt):
        mon = st.mon
        it = self.it
        if mon.get('cancel'):
            self.violation(st, 'C13', 'an exchange is cancelled once', '%s is written after the exchange was cancelled' % txt)
        if line == (('L', b'*\r\n'),):
            mon['cancel'] = 1
            self.check('C13', 'unanswered challenge is cancelled')
            return
        self.check('C13', 'answers to challenges')
        n = mon['answers'] = ladd(mon['answers'], ONE)
        # bounded: the count must not grow without anything else in the state moving
        for p, k in n[2]:
            used = False
            for d in (st.mem, st.facts, st.nums):
                for kk, vv in d.items():
                    if any(q == p for l in walk(vv)[1] + (walk(kk)[1] if d is not st.mem else ()) for q, _ in l[2]):
                        used = True
            if not used:
                self.violation(st, 'C13', 'a bounded number of challenges is answered', 'the client goes on answering challenges without limit')
        u, p = self.cred_terms(st)
        U, P = self.whole(st, u), self.whole(st, p)
        ok = line in ((('T', 'b64', U), ('L', b'\r\n')), (('T', 'b64', P), ('L', b'\r\n')))
        mech = None
        if mon['op'] == 'auth':
            vs = st.facts.get(('var', ('arg', 'mechanism')))
            mech = next(iter(vs)) if vs and len(vs) == 1 else None
        else:
            mech = self.mech_of(st, self.m.seq_get(st, mon['accepted'][1], mon['checked']))
        if mech != self.mech['Login']:
            self.violation(st, 'C14', 'only LOGIN answers challenges', 'a challenge is answered (%s) under a mechanism other than LOGIN' % txt)
        self.require(st, 'C14', 'answers carry exactly the user name or the password', ok, 'the answer to a challenge is %s' % txt)
        # the challenge has to have been decoded from this very reply
        what = 'user' if line and line[0] == ('T', 'b64', U) else 'password'
        if ok:
            self.prompt(st, what, txt)

    USER = {b'User Name', b'Username:', b'Username'}
    PASS = {b'Password', b'Password:'}

    def prompt(self, st, what, txt):
        r = st.mon['last'][1]
        want = self.USER if what == 'user' else self.PASS
        good = False
        # (a challenge text is a fact about the decoded first word of the last reply)
        for k, f in st.facts.items():
            if k[0] == 'str' and isinstance(k[1], tuple) and k[1][0] == 'b64dec' and self.mentions(k[1], r) and f[0] == 'eq':
                good = f[1] in want
        self.require(st, 'C14', 'user name and password go only to their own prompt', good,
                     'the %s is sent in answer to something that is not a %s prompt' % (what, what))

    # --- sending
    def cmd_send(self, st, line, v, txt):
        it, m = self.it, self.m
        mon = st.mon
        if v == 'MAIL':
            self.require(st, 'C04', 'one MAIL command, first', mon['stage'] == 'start', 'MAIL is written again: %s' % txt)
            mon['stage'] = 'mail'
            params = self.split_path(st, line, b'MAIL FROM:<', m.pieces(st, mon['from'][1]) if mon.get('from') else None, txt, 'MAIL carries the envelope sender')
            del mon['from']
            if params is not None:
                b8 = self.feature(st, self.extv('EightBitMime'))
                u8 = self.feature(st, self.extv('SmtpUtfEight'))
                en = it.known(st, ('arg', 'utf8'))
                words = params.split(b' ')[1:] if params else []
                has8, hasu = words.count(b'BODY=8BITMIME'), words.count(b'SMTPUTF8')
                other = [w for w in words if w not in (b'BODY=8BITMIME', b'SMTPUTF8')]
                ok8 = has8 == (1 if b8 is True else 0) and b8 is not None
                wantu = True if (u8 is True and en is True) else False if (u8 is False or en is False) else None
                oku = wantu is not None and hasu == (1 if wantu else 0)
                self.require(st, 'C10', 'BODY=8BITMIME exactly when 8BITMIME is advertised', ok8,
                             'MAIL command %s although 8BITMIME is %s' % (txt, self.tri(b8)))
                self.require(st, 'C10', 'SMTPUTF8 exactly when advertised and enabled', oku,
                             'MAIL command %s although SMTPUTF8 is %s and %s' % (txt, self.tri(u8), {True: 'enabled', False: 'disabled', None: 'not checked to be enabled'}[en]))
                self.require(st, 'C10', 'no other MAIL parameter', not other and (not params or params.startswith(b' ')), 'MAIL command carries other parameters: %s' % txt)
        elif v == 'RCPT':
            self.require(st, 'C04', 'RCPT comes after MAIL and before DATA', mon['stage'] == 'mail', 'RCPT is written at the wrong point: %s' % txt)
            n = self.ulen(st)
            inr = it.cmp(st, 'lt', mon['rcpt'], n)
            want = None
            if inr is not False:
                e = m.seq_get(st, mon['to'][1], mon['rcpt'])
                want = m.pieces(st, self.addr(st, e))
            self.require(st, 'C04', 'no more RCPT commands than recipients', inr is True, 'more RCPT commands than envelope recipients: %s' % txt)
            if it.cmp(st, 'lt', ZERO, mon['out']) is not True:
                self.require(st, 'C34', 'negotiated pipelining is used', self.feature(st, self.extv('Pipelining')) is False or it.known(st, ('arg', 'pipelining')) is False,
                             '%s waits for the reply to the previous command although pipelining %s' % (txt, 'is offered and enabled' if self.feature(st, self.extv('Pipelining')) and it.known(st, ('arg', 'pipelining')) else 'may be offered and enabled'))
            else:
                self.check('C34', 'negotiated pipelining is used')
            params = self.split_path(st, line, b'RCPT TO:<', want, txt, 'RCPT carries the next envelope recipient')
            if params is not None:
                self.require(st, 'C10', 'RCPT carries no parameter', params == b'', 'RCPT command carries parameters: %s' % txt)
            mon['rcpt'] = ladd(mon['rcpt'], ONE)
        elif v == 'DATA':
            alln = it.cmp(st, 'eq', mon['rcpt'], self.ulen(st))
            self.require(st, 'C04', 'DATA comes after MAIL and all RCPT commands', mon['stage'] == 'mail' and alln is True and line == (('L', b'DATA\r\n'),),
                         lambda: 'DATA is written %s' % ('before all recipients were named' if mon['stage'] == 'mail' else 'at the wrong point'))
            mon['stage'] = 'data'
            mon['mode'] = 'data'
        else:
            self.violation(st, 'C04', 'send writes only MAIL, RCPT, DATA and the content', 'send writes %s' % txt)

    def tri(self, x):
        return {True: 'advertised', False: 'not advertised', None: 'not checked to be advertised'}[x]

    def ulen(self, st):
        return self.m.seq_len(st, st.mon['to'][1])

    def addr(self, st, e):
        """the text of an address, as a value"""
        out = self.run(st.copy(), '<types::EmailAddress as core::convert::AsRef<str>>::as_ref', [cref(e)])
        if len(out) != 1:
            raise Unsupported('address text')
        return self.it.freeze(out[0][0], self.it.deref_all(out[0][0], out[0][1]))

    def split_path(self, st, line, pre, want, txt, rule):
        """check the path of a MAIL/RCPT line; returns the text between '>' and CRLF"""
        w = pieces_cat((('L', pre),), pieces_cat(want or (), (('L', b'>'),)))
        full = tuple(line)
        ok = len(full) >= len(w) and full[:len(w) - 1] == w[:len(w) - 1] and full[len(w) - 1][0] == 'L' and full[len(w) - 1][1].startswith(w[-1][1])
        if want is None:
            ok = False
        self.require(st, 'C04', rule, ok, lambda: 'command is %s, expected path %s' % (txt, showpieces(w)))
        if not ok:
            return None
        rest = (('L', full[len(w) - 1][1][len(w[-1][1]):]),) + full[len(w):]
        if len(rest) != 1:
            self.violation(st, 'C10', 'parameters are fixed text', 'unexpected parameters: %s' % txt)
            return None
        b = rest[0][1]
        return b[:-2]

    # ------------------------------------------------------------ content
    def content(self, st, ps, failed=False):
        it = self.it
        mon = st.mon
        if not mon.get('cstart'):
            mon['cstart'] = 1
            out0 = it.cmp(st, 'eq', mon['out'], ZERO)
            self.require(st, 'C06', 'nothing follows DATA before the replies have been received', out0 is True,
                         'something is written after DATA while a reply is outstanding')
            self.require(st, 'C03', 'content only after positive replies to MAIL, every RCPT and DATA', out0 is True and not mon['neg'] and mon['cls'] == '2' and mon['stage'] == 'data',
                         lambda: 'message content is written although %s' % ('a command of the transaction was rejected' if mon['neg'] else 'not all replies have been received'))
            self.require(st, 'C04', 'content only after the complete envelope', mon['stage'] == 'data', 'message content is written before DATA')
        n = self.ilen(st)
        for p in ps:
            if p[0] == 'S' and p[1] == mon['ct']:
                self.content_piece(st, p[2], p[3])
            elif p[0] == 'L':
                for b in p[1]:
                    self.content_byte(st, b, failed)
            else:
                self.violation(st, 'C01', 'only the content, stuffed dots and the end marker are written', 'foreign bytes in the message: %s' % showpieces((p,)))

    def content_piece(self, st, lo, hi):
        it = self.it
        mon = st.mon
        if mon['eod']:
            self.violation(st, 'C02', 'end-of-data is the last thing written', 'content is written after (part of) the end-of-data marker')
            return
        if mon['post'] and it.cmp(st, 'eq', ladd(lo, ONE), mon['cpos']) is True:
            mon['post'] = 0          # the dot is written a second time
            lo = mon['cpos']
        if it.cmp(st, 'eq', lo, mon['cpos']) is not True:
            self.violation(st, 'C01', 'content is written in order, nothing dropped or repeated',
                           'content bytes from offset %s are written where offset %s is due' % (lshow(lo), lshow(mon['cpos'])))
        self.check('C01', 'content is written in order, nothing dropped or repeated')
        if it.cmp(st, 'lt', mon['apos'], hi) is not False:
            self.violation(st, 'C01', 'every byte is examined before it is written', 'content up to offset %s is written although only %s bytes were examined for a leading dot' % (lshow(hi), lshow(mon['apos'])))
        self.check('C01', 'every byte is examined before it is written')
        due = mon['due'][1:]
        if mon['post'] and it.cmp(st, 'eq', lo, hi) is not True:
            mon['post'] = 0
            self.violation(st, 'C01', 'a dot at the start of a line is doubled', 'a line of the content that begins with a dot is written without an extra dot')
        while due:
            d = due[0]
            inside = it.cmp(st, 'lt', d, hi)
            if inside is True and it.cmp(st, 'eq', ladd(d, ONE), hi) is True:
                mon['post'] = 1      # the other dot has to follow
                due = due[1:]
            elif inside is not False and it.cmp(st, 'eq', lo, hi) is not True:
                self.require(st, 'C01', 'a dot at the start of a line is doubled', False,
                             'a line of the content that begins with a dot is written without an extra dot')
                due = due[1:]
            else:
                break
        mon['due'] = ('x',) + due if due else ()
        self.check('C01', 'a dot at the start of a line is doubled')
        if it.cmp(st, 'eq', lo, hi) is not True:
            mon['dotted'] = 0
        mon['cpos'] = hi

    def content_byte(self, st, b, failed=False):
        it = self.it
        mon = st.mon
        if mon['post'] and b == DOT:
            mon['post'] = 0
            self.check('C01', 'a dot at the start of a line is doubled')
            return
        due = mon['due'][1:]
        if due and not mon['dotted'] and b == DOT and not mon['eod'] and it.cmp(st, 'eq', due[0], mon['cpos']) is True:
            mon['dotted'] = 1
            mon['due'] = ('x',) + due[1:] if due[1:] else ()
            self.check('C01', 'a dot at the start of a line is doubled')
            return
        if not mon['eod'] and it.cmp(st, 'lt', mon['cpos'], self.ilen(st)) is True:
            # what matters is the value: this may be the next byte of the content
            if it.charset(st, ('idx', mon['ct'], mon['cpos'])) == ((b, b),) or mon['dotted'] and b == DOT:
                self.content_piece(st, mon['cpos'], ladd(mon['cpos'], ONE))
                return
            if it.exact_turns is None and it.cmp(st, 'lt', mon['cpos'], mon['apos']) is not False:
                st.inexact('may')      # what was found out about that byte is not kept over loops
        marker = b'\r\n.\r\n'
        if mon['eod'] >= len(marker):
            self.violation(st, 'C02', 'end-of-data is written exactly once', 'more bytes follow the end-of-data marker')
            return
        if b != marker[mon['eod']]:
            if mon.get('lostdue'):
                raise Unsupported('deferred dot-stuffing')
            if mon['eod'] == 0 and b == DOT:
                self.violation(st, 'C01', 'dots are added only at the start of lines that begin with one', 'an extra dot is written where the content has no line starting with a dot')
            else:
                self.violation(st, 'C01' if not mon['eod'] else 'C02', 'the content is followed by CRLF . CRLF only', 'unexpected byte %r after the content' % chr(b))
            return
        if mon['eod'] == 0:
            alln = it.cmp(st, 'eq', mon['cpos'], self.ilen(st))
            if mon['msg'] == 'end' and not mon['dead']:
                self.require(st, 'C01', 'nothing of the content is missing before the end marker', alln is True and mon['due'] == () and not mon['dotted'] and not mon['post'],
                             'only %s of %s content bytes are written before the end-of-data marker' % (lshow(mon['cpos']), lshow(self.ilen(st))))
            self.require(st, 'C02', 'end-of-data only after the complete content was written', alln is True and mon['due'] == () and not mon['dotted'] and not mon['post'],
                         'the end-of-data marker is written although only %s of %s content bytes were' % (lshow(mon['cpos']), lshow(self.ilen(st))))
            self.require(st, 'C02', 'end-of-data only after the message source was read to its end', mon['msg'] == 'end',
                         'the end-of-data marker is written although the message source %s' % ('failed' if mon['msg'] == 'err' else 'was not read to its end'))
            if mon['dead'] and not failed:
                self.violation(st, 'C02', 'no end-of-data after a failed write', 'the end-of-data marker is written after a failed write')
        mon['eod'] += 1
        if mon['eod'] == len(marker) and not failed:
            mon['out'] = ladd(mon['out'], ONE)
            mon['stage'] = 'eod'
            mon['cls'] = ''

    def on_byte(self, st, term, i):
        mon = st.mon
        if mon.get('ct') != term:
            return
        it = self.it
        ap = mon['apos']
        if it.cmp(st, 'eq', i, ap) is not True:
            return
        cs = it.charset(st, ('idx', term, i))
        cls = [k for k in range(4) if cs_inter(cs, CLASSES[k])]
        if len(cls) != 1:
            def mk(k):
                def f(s):
                    return it.set_charset(s, ('idx', term, i), cs_inter(cs, CLASSES[k]))
                return f
            raise Split([mk(k) for k in cls], 'content byte', st)
        k = cls[0]
        q = mon['q']
        if q == 'LS' and k == 2:
            if mon['due'] != () and it.exact_turns is None:
                mon['lostdue'] = 1
            else:
                mon['due'] = (mon['due'] or ('x',)) + (ap,)
        mon['q'] = 'C' if k == 0 else 'LS' if (k == 1 and q == 'C') else 'M'
        mon['apos'] = ladd(ap, ONE)

    def keep_fact(self, st, k):
        mon = st.mon
        if k[0] != 'cs' or not mon.get('ct') or k[1][0] != 'idx' or k[1][1] != mon['ct']:
            return False
        return self.it.exact_turns is not None and self.it.cmp(st, 'lt', k[1][2], mon['cpos']) is False

    def by_value(self, st, ct):
        """bytes of the content remain what they are"""
        return ct[1] != st.mon.get('ct')

    def charset(self, st, ct):
        mon = st.mon
        if ct[0] != 'idx' or mon.get('ct') != ct[1]:
            return None
        d = lsub(mon['apos'], ct[2])
        if d[2]:
            return None
        q = mon['q']
        if d[1] == 1:
            return {'C': ((CR, CR),), 'LS': ((LF, LF),), 'M': cs_minus(U8, ((CR, CR),))}[q]
        if d[1] == 2 and q == 'LS':
            return ((CR, CR),)
        return None

    only = {}

    def on_fact(self, st, term, val):
        mon = st.mon
        if self.only.get(term, val) != val:
            return False         # belongs to another part of the work
        if term[0] == 'contains' and 'accepted' in mon and not mon.get('authed'):
            x = term[2]
            if isinstance(x, tuple) and x[0] == 'A' and x[1] == self.tyExt and x[2] == self.ext['Authentication']:
                try:
                    e = self.m.seq_get(st, mon['accepted'][1], mon['checked'])
                except Infeasible:
                    return
                y = x[3][0]
                hit = y == e or (y[0] == 'A' and self.mech_of(st, e) == y[2])
                if hit:
                    if not val:
                        mon['checked'] = ladd(mon['checked'], ONE)

    # ------------------------------------------------------------ results
    def result(self, st, v):
        if isinstance(v, tuple) and v[0] == 'S':
            vs = st.facts.get(('var', v[1]))
            if vs and len(vs) == 1:
                i = next(iter(vs))
                return i, self.it.expand(st, v, i)[3][0]
        if not (isinstance(v, tuple) and v[0] == 'A'):
            raise Unsupported('result %s' % show(v)[:60])
        return v[2], v[3][0]

    def returned(self, st, v):
        """rules at the end of an operation"""
        it = self.it
        mon = st.mon
        op = mon['op']
        err, val = self.result(st, v)
        ok = err == 0
        self.log(st, 'return', (ok, val))
        dead = mon['dead']
        if 'eofk' in mon:
            self.ended_ok.add(mon['eofk'])
        self.it.where = 'result of %s' % op
        req = lambda p, r, c, m_: self.require(st, p, r, c, m_)
        srcerr = mon.get('msg') == 'err'
        req('C08', 'an operation succeeds only if every I/O call did', not (ok and dead), lambda: '%s succeeds although %s' % (op, {'parse': 'a reply could not be parsed', 'eof': 'the connection ended before the reply was complete', 'io': 'an I/O operation failed'}.get(dead, dead)))
        req('C19', 'no success without a complete reply', not (ok and dead in ('parse', 'eof')), '%s succeeds although the reply was malformed or cut off' % op)
        if srcerr:
            req('C02', 'send fails if the message source fails', not ok, 'send succeeds although the message source failed')
        if ok:
            self.unrest(st)
            if op == 'send' and dead == 'io':
                self.violation(st, 'C02', 'send fails if writing fails', 'send succeeds although a write failed')
            req('C07', 'an operation that succeeds leaves nothing unflushed', not mon['unfl'], '%s succeeds although written bytes are not flushed' % op)
            self.check('C08', 'an operation succeeds only if every reply it consumed was positive')
            if mon['neg'] or (mon.get('cancel')):
                p = {'new': 'C09', 'starttls': 'C11', 'auth': 'C13', 'try_login': 'C12', 'send': 'C03'}.get(op)
                self.violation(st, 'C08', 'an operation succeeds only if every reply it consumed was positive', '%s succeeds although the server rejected a command' % op)
                if p:
                    self.violation(st, p, 'no success after a negative reply', '%s succeeds although the server rejected a command' % op)
                if op == 'try_login':
                    self.violation(st, 'C13', 'no success after a negative reply', '%s succeeds although the server rejected the authentication' % op)
        if not dead and not srcerr:
            if mon['line'][1]:
                self.violation(st, 'C17' if op != 'send' else 'C04', 'commands are complete lines', '%s ends with an incomplete line written: %s' % (op, showpieces(mon['line'][1])))
            z = it.cmp(st, 'eq', mon['out'], ZERO)
            req('C05', 'every command is answered by one consumed reply before the operation ends', z is True,
                lambda: '%s returns although %s replies are outstanding' % (op, lshow(mon['out']) if mon['out'][1] or mon['out'][2] else 'some'))
            req('C19', 'reading goes on until the reply is complete', not mon['reading'], '%s returns in the middle of a reply' % op)
            if op in ('auth', 'try_login'):
                req('C13', 'auth never returns while a challenge is unanswered', mon['cls'] != '334' or bool(mon.get('cancel')),
                    '%s returns while the server is waiting for the answer to a challenge' % op)
        self.cause(st, ok, val, dead, srcerr)
        if self.settings is not None and ('m', 'T') in st.mem:
            now = self.find_settings(st.mem[('m', 'T')])
            self.require(st, 'C34', 'operations leave configuration and server features as they are', len(now) == len(self.settings) and all(self.alike(a, b) for a, b in zip(now, self.settings)),
                         lambda: '%s changes the transport: %s' % (op, ', '.join('%s becomes %s' % (show(b)[:120], show(a)[:120]) for a, b in zip(now, self.settings) if not self.alike(a, b))))
        f = getattr(self, 'end_' + op, None)
        if f:
            f(st, ok, val, dead, srcerr)

    settings = None

    def find_settings(self, v):
        """the configuration and the server features inside a transport"""
        if isinstance(v, tuple) and v and v[0] in ('A', 'S'):
            ty = v[1] if v[0] == 'A' else v[2]
            if ty != 't' and isinstance(ty, int) and self.T[ty].get('path') in ('smtp_client::SmtpClient', 'extension::ServerInfo'):
                return [v]
            if v[0] == 'A':
                return [y for x in v[3] for y in self.find_settings(x)]
        return []

    def alike(self, a, b):
        if a == b or isinstance(b, tuple) and b[0] == 'S' and self.same_value(a, b) or isinstance(a, tuple) and a[0] == 'S' and self.same_value(b, a):
            return True
        return isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'A' and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.alike(x, y) for x, y in zip(a[3], b[3]))

    def cause(self, st, ok, val, dead, srcerr):
        """C31: an error tells what went wrong"""
        mon = st.mon
        if ok or mon.get('sierr'):
            return
        n, x = None, ()
        if isinstance(val, tuple) and val[0] == 'A':
            n = self.T[val[1]]['variants'][val[2]]['n']
            x = val[3][0] if val[3] else ()
        op = mon['op']
        req = lambda r, c, m_: self.require(st, 'C31', r, c, m_)
        what = 'Error::%s' % n if n else 'an unknown error'
        rejected = mon['neg'] and self.is_reply_err(st, val, mon['rej'])
        if dead == 'io' or srcerr:
            req('an I/O error is returned as it is', rejected or n == 'Io' and (self.same_value(x, mon['ioe']) or self.same_value(x, mon['ioe2'])),
                '%s returns %s, not the error that %s reported' % (op, what if n != 'Io' else 'another I/O error', 'the message source' if srcerr else 'the stream'))
        elif dead == 'eof':
            req('the end of the connection is an I/O error', rejected or n == 'Io', '%s returns %s when the connection ends' % (op, what))
        elif dead == 'parse':
            req('a malformed reply is a parsing error', rejected or n in ('Parsing', 'ResponseParsing'), '%s returns %s for a malformed reply' % (op, what))
        elif mon['neg']:
            sev = st.facts.get(('var', self.sev_term(mon['rej'])))
            want = 'Transient' if sev == frozenset([self.sev[4]]) else 'Permanent'
            req('4xx is a transient and 5xx a permanent error with that reply', rejected and n == want, '%s returns %s%s for a rejection that is %s' % (op, what, '' if rejected else ' (not carrying the reply)', want.lower()))
        else:
            req('without a failure the error is one of the client itself', n is not None and n not in ('Io', 'Transient', 'Permanent', 'Timeout', 'Resolution', 'Parsing'),
                '%s returns %s although neither the server nor the stream failed' % (op, what))

    def is_reply_err(self, st, e, r):
        """e is Error::Transient(r) / Error::Permanent(r)"""
        if not (isinstance(e, tuple) and e[0] == 'A' and e[1] != 't'):
            return False
        n = self.T[e[1]]['variants'][e[2]]['n']
        return n in ('Transient', 'Permanent') and r != () and self.same_value(e[3][0], r)

    def end_new(self, st, ok, val, dead, srcerr):
        mon = st.mon
        if ok:
            self.require(st, 'C09', 'set-up succeeds only after EHLO was accepted', mon.get('stage') == 'ehlo' and mon['cls'] == '2' and mon.get('features') == 1,
                         'the transport is created without a positive EHLO reply')
        elif not dead and not mon['neg']:
            self.require(st, 'C19', 'a positive reply is not turned into an error', mon.get('sierr') == 1, 'connecting fails although all replies were positive')
        if mon['neg'] and not dead:
            self.require(st, 'C09', 'a rejected greeting or EHLO is reported', not ok and self.is_reply_err(st, val, mon['rej']), 'a negative greeting or EHLO reply is not reported as such')

    def end_quit(self, st, ok, val, dead, srcerr):
        mon = st.mon
        self.require(st, 'C08', 'quit sends QUIT', it_eq(mon['nlines'], 1) or bool(dead), 'quit does not send exactly one command')
        self.plain_end(st, ok, val, dead)

    def plain_end(self, st, ok, val, dead):
        mon = st.mon
        if dead:
            return
        if mon['neg']:
            self.require(st, 'C08', 'a negative reply is reported', not ok, '%s ignores a negative reply' % mon['op'])
            self.require(st, 'C19', 'a negative reply is returned as an error carrying it', not ok and self.is_reply_err(st, val, mon['rej']), 'the error is not the reply of the server')
        elif mon['cls'] in ('2', '334'):
            self.require(st, 'C19', 'a positive reply is returned as success', ok, '%s fails although the server replied positively' % mon['op'])

    def end_starttls(self, st, ok, val, dead, srcerr):
        mon = st.mon
        adv = self.feature(st, self.extv('StartTls'))
        if ok:
            self.require(st, 'C11', 'the stream is returned only after a positive reply to STARTTLS', mon.get('tls') == 1 and mon['cls'] == '2' and not mon['neg'] and not dead,
                         'the plaintext stream is returned although STARTTLS was not accepted by the server')
            self.require(st, 'C11', 'the stream returned is the inner stream', self.same_value(self.peel(st, val), ('S', ('arg', 'stream'), None)), 'starttls does not return the inner stream')
        elif not dead:
            if adv is False:
                self.require(st, 'C11', 'nothing is sent when STARTTLS is not offered', not mon.get('tls'), 'STARTTLS is written although it was not advertised')
            else:
                self.plain_end(st, ok, val, dead)

    def end_auth(self, st, ok, val, dead, srcerr):
        mon = st.mon
        if dead:
            return
        if ok:
            self.require(st, 'C13', 'auth succeeds only with a positive final reply', mon['cls'] == '2' and mon.get('authed') == 1 and not mon.get('cancel'), 'auth succeeds without a positive final reply')
            if mon['op'] == 'auth':
                self.require(st, 'C13', 'auth returns the last reply', mon['last'] != () and self.same_value(val, mon['last']), 'auth does not return the server\'s last reply')
                self.require(st, 'C08', 'auth returns the last reply', mon['last'] != () and self.same_value(val, mon['last']), 'auth does not return the server\'s last reply')
        else:
            if not mon.get('cancel') and mon['cls'] == '2':
                self.violation(st, 'C13', 'auth succeeds when the final reply is positive', 'auth fails although the final reply is positive')
            if not mon.get('cancel') and mon['neg']:
                self.require(st, 'C13', 'auth reports the server\'s rejection', self.is_reply_err(st, val, mon['rej']), 'auth does not report the negative reply of the server')
            self.check('C13', 'auth succeeds when the final reply is positive')

    def end_try_login(self, st, ok, val, dead, srcerr):
        mon = st.mon
        self.end_auth_common(st, ok, val, dead)
        if not dead and not mon.get('authed'):
            n = self.m.seq_len(st, mon['accepted'][1])
            self.require(st, 'C12', 'try_login gives up only if no accepted mechanism is offered', self.it.cmp(st, 'eq', mon['checked'], n) is True,
                         'try_login does not authenticate although an accepted mechanism may be offered')
            self.require(st, 'C12', 'nothing is written without a common mechanism', it_eq(mon['nlines'], 0), 'try_login writes although no mechanism is common')

    def end_auth_common(self, st, ok, val, dead):
        mon = st.mon
        if mon.get('authed'):
            self.end_auth(st, ok, val, dead, False)
            if ok and not dead:
                self.require(st, 'C12', 'try_login succeeds only if the authentication did', mon['cls'] == '2' and not mon.get('cancel'), 'try_login succeeds although the authentication failed')

    def end_send(self, st, ok, val, dead, srcerr):
        mon = st.mon
        it = self.it
        if ok:
            done = mon['stage'] == 'eod' and mon['eod'] == 5
            self.require(st, 'C02', 'send succeeds only after the complete message and end-of-data', done or bool(dead), 'send succeeds without having written the end-of-data marker')
            self.require(st, 'C04', 'send succeeds only after MAIL, all RCPT, DATA and the content', done or bool(dead), 'send succeeds although the transaction is incomplete')
            self.require(st, 'C08', 'send returns the last reply', mon['last'] != () and mon['cls'] == '2' and self.same_value(val, mon['last']) or bool(dead), 'send does not return the reply to the message')
        elif not dead and not srcerr:
            if mon['neg']:
                self.require(st, 'C03', 'a rejection is reported', self.is_reply_err(st, val, mon['rej']), 'send does not report the rejection by the server')
            else:
                self.violation(st, 'C19', 'a positive reply is not turned into an error', 'send fails although all replies were positive')
        if not dead and not srcerr and mon['neg'] and ok:
            self.violation(st, 'C03', 'a rejection is reported', 'send succeeds although a command was rejected')

    # ------------------------------------------------------------ driving
    def connect(self):
        it = self.it
        st = State()
        self.start(st)
        T = self.T
        B = 'smtp_client::SmtpClient::'
        bty = self.p.tyname['bool']
        todo = self.run(st, B + 'new', [])
        for f, arg in (('smtp_utf8', ('S', ('arg', 'utf8'), bty)), ('pipelining', ('S', ('arg', 'pipelining'), bty)),
                       ('hello_name', ('S', ('arg', 'name'), self.p.tyname['extension::ClientId']))):
            nxt = []
            for s, v in todo:
                nxt.extend(self.run(s, B + f, [v, arg]))
            todo = nxt
        cfgs = []
        self.settings = None
        for s, v in todo:
            cfgs.append((s.copy(), v, True))
            for s2, v2 in self.run(s, B + 'without_greeting', [v]):
                cfgs.append((s2, v2, False))
        body = self.fn('smtp_client::SmtpTransport::<S>::new')
        sty = body.locals[2]
        out = []
        for s, v, greet in cfgs:
            self.begin(s, 'new', stage='start', greeting=1 if greet else 0)
            s.mon['out'] = ONE if greet else ZERO
            res = self.run_async(s, 'smtp_client::SmtpTransport::<S>::new', [v, ('S', ('arg', 'stream'), sty)])
            self.op_log['new'] = self.op_log.get('new', 0) + len(res)
            for s2, r in res:
                self.returned(s2, r)
                err, val = self.result(s2, r)
                if err == 0:
                    s2.mem[('m', 'T')] = val
                    out.append(s2)
        return out

    def idle(self, st):
        """state between operations, or None when the connection is unusable"""
        mon = st.mon
        if mon['dead'] or mon.get('msg') == 'err':
            return None
        if mon['out'] != ZERO or mon['reading']:
            return None          # already reported
        if ('m', 'T') not in st.mem:
            return None
        for k in list(st.mem):
            if k != ('m', 'T'):
                del st.mem[k]
        # operations are analysed for every configuration at once
        T = self.T

        def gen(v):
            if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't':
                ty = T[v[1]]
                if ty.get('path') == 'smtp_client::SmtpClient':
                    fs = [f['t'] for f in ty['variants'][v[2]]['f']]
                    return v[:3] + (tuple(('S', ('cfg', i), fs[i]) if isinstance(x, bool) else x for i, x in enumerate(v[3])),)
                return v[:3] + (tuple(gen(x) for x in v[3]),)
            return v
        st.mem[('m', 'T')] = gen(st.mem[('m', 'T')])
        # what a later operation learns about the features again, it learns again
        for k in list(st.facts):
            del st.facts[k]
        for k in list(st.nums):
            del st.nums[k]
        st.trace = None
        self.start(st)
        self.begin(st, 'idle')
        return st

    OPS = ('quit', 'starttls', 'auth', 'try_login', 'send')

    def find_features(self, st):
        """how the interpreter names the set of features: ask for one and look at the term"""
        v = st.mem[('m', 'T')]
        si = [x for x in v[3] if isinstance(x, tuple) and self.mentions(x, ('sinfo', 0))]
        s = st.copy()
        got = []
        save = self.on_fact
        self.on_fact = lambda s_, t, val: got.append(t) if t[0] == 'contains' else None
        try:
            res = self.run(s, 'extension::ServerInfo::supports_feature', [cref(('S', ('sinfo', 0), self.p.tyname['extension::ServerInfo'])), cref(self.extv('Pipelining'))])
            for s2, r in res:
                if isinstance(r, tuple) and r[0] == 'S':
                    got.append(r[1])
        finally:
            del self.on_fact
        got = [t for t in got if t[0] == 'contains']
        if not got:
            raise Unsupported('feature query')
        self._features = got[0][1]

    def connected(self):
        """states in which a new transport may be"""
        out = []
        for s in self.connect():
            s = self.idle(s)
            if s is not None:
                out.append(s)
        return out

    def prepare(self, st):
        self.find_features(st.copy())

    # the work of one operation, shared out by cases that together cover everything
    PARTS = {'try_login': 4, 'auth': 3}

    def part(self, st, op, k):
        st = st.copy()
        self.only = {}
        if op == 'try_login':
            # whether the first three mechanisms of the caller's list are offered
            for i, want in (((0, True),), ((0, False), (1, True)), ((0, False), (1, False), (2, True)), ((0, False), (1, False), (2, False)))[k]:
                e = self.it.sym(st, ('idx', ('arg', 'accepted'), ('#', i, ())), self.tyMech)
                f = ('b', ('contains', self.features(st), self.extv('Authentication', e)))
                self.only[f[1]] = want
        else:
            # the mechanism asked for
            if k >= len(self.mech):
                return None
            rest = frozenset([k]) if k < 2 else frozenset(range(2, len(self.mech)))
            st.facts[('var', ('arg', 'mechanism'))] = rest
        return st

    def step(self, st, op, k=None):
        out, seen = [], set()
        if k is not None:
            st = self.part(st, op, k)
            if st is None:
                return out
        for s in self.operate(st.copy(), op):
            s = self.idle(s)
            if s is None:
                continue
            c = canon(s)
            k = (c.skel, norm_slots(c.slots))
            if k not in seen:
                seen.add(k)
                out.append(s)
        return out

    def analyse(self):
        idle = []
        seen = set()
        work = []

        def add(s):
            s = self.idle(s)
            if s is None:
                return
            c = canon(s)
            k = (c.skel, norm_slots(c.slots))
            if k in seen:
                return
            seen.add(k)
            idle.append(s)
            work.append(s)
        for s in self.connect():
            add(s)
        if not self.OPS:
            return
        if not idle:
            raise Unsupported('no connection can be established')
        self.find_features(idle[0])
        while work:
            s = work.pop()
            if self.long and len(idle) - len(work) > 1:
                break
            for op in self.OPS:
                for s2 in self.operate(s.copy(), op):
                    add(s2)
            if len(idle) > 60:
                raise Budget('states between operations')
        self.idle_states = idle

    # what long runs (many turns of a loop, no branching that does not matter to it) are about
    long = None

    def plain(self, starts):
        """a sender, no optional parameter, and either no content or a single recipient"""
        out = []
        for st, args in starts:
            if st.mon['from'] == T1(lit(b'')):
                continue
            for x in ('EightBitMime', 'SmtpUtfEight'):
                self.only[('contains', self.features(st), self.extv(x))] = False
            if self.long != 'content':
                st.nums[('len', st.mon['ct'])] = ZERO
            else:
                st.facts['chars', st.mon['ct']] = ((97, 97),)
            if self.long == 'recipients':
                out.append((st, args))
            else:
                to = st.mon['to'][1]
                out.extend((s, args) for s in self.it.refine(st, lambda c: self.it.assume_eq(c, self.m.seq_len(c, to), ONE)))
        return out

    def operate(self, st, op):
        it = self.it
        T = self.T
        P = 'smtp_client::SmtpTransport::<S>::'
        body = self.fn(P + op)
        self_ref = ('R', ('m', 'T'), ())
        starts = []
        if op == 'quit':
            self.begin(st, op)
            starts = [(st, [self_ref])]
        elif op == 'starttls':
            self.begin(st, op)
            v = st.mem.pop(('m', 'T'))
            starts = [(st, [v])]
        elif op in ('auth', 'try_login'):
            self.begin(st, op, answers=ZERO)
            cty = self.p.tyname['authentication::Credentials']
            cred = ('S', ('arg', 'credentials'), cty)
            st.mon['cred'] = T1(cred[1])
            if op == 'auth':
                args = [self_ref, ('S', ('arg', 'mechanism'), self.tyMech), cref(cred)]
            else:
                sl = it.strip_refs(body.locals[3])
                acc = ('S', ('arg', 'accepted'), sl)
                st.mon['accepted'] = T1(acc)
                st.mon['checked'] = ZERO
                args = [self_ref, cref(cred), cref(acc)]
            # the two texts of the credentials, in constructor order
            s0 = State()
            str_t = self.p.tyname['std::string::String'] if 'std::string::String' in self.p.tyname else self.p.tyname['alloc::string::String']
            r = self.run(s0, 'authentication::Credentials::new', [('S', ('arg', 'u'), str_t), ('S', ('arg', 'p'), str_t)])
            fs = r[0][1][3]
            iu = [i for i, x in enumerate(fs) if x == ('S', ('arg', 'u'), str_t)]
            ip = [i for i, x in enumerate(fs) if x == ('S', ('arg', 'p'), str_t)]
            if len(iu) != 1 or len(ip) != 1:
                raise Unsupported('credentials')
            self._cred = (('f', cred[1], iu[0]), ('f', cred[1], ip[0]))
            starts = [(st, args)]
        elif op == 'send':
            ety = body.locals[2]
            email = ('S', ('arg', 'email'), ety)
            self.begin(st, op, stage='start', rcpt=ZERO, msg='unread', rpos=ZERO, cpos=ZERO, apos=ZERO, q='LS', due=(), post=0, dotted=0, eod=0)
            st.mon['ct'] = ('content',)
            for s, src in self.run(st, 'types::SendableEmail::message', [email]):
                s.mon['src'] = T1(src)
                for s2, env in self.run(s, 'types::SendableEmail::envelope', [cref(email)]):
                    envv = self.m.freeze_arg(s2, env, {'path': ''})
                    for s3, to in self.run(s2, 'types::Envelope::to', [cref(envv)]):
                        s3.mon['to'] = T1(self.m.freeze_arg(s3, to, {'path': ''}))
                        for s4, fr in self.run(s3, 'types::Envelope::from', [cref(envv)]):
                            for s5, var in self.m.std.variants(s4, fr):
                                fs = fr[3] if fr[0] == 'A' else it.expand(s5, fr, var)[3]
                                if var == 1:
                                    s5.mon['from'] = T1(self.addr(s5, self.m.freeze_arg(s5, fs[0], {'path': ''})))
                                else:
                                    s5.mon['from'] = T1(lit(b''))
                                starts.append((s5, [self_ref, email]))
        out = []
        self.settings = None if op == 'starttls' else self.find_settings(st.mem[('m', 'T')])
        if op == 'send' and self.long:
            self.only = {}
            starts = self.plain(starts)
        for s, args in starts:
            res = self.run_async(s, P + op, args)
            self.op_log[op] = self.op_log.get(op, 0) + len(res)
            for s2, r in res:
                self.returned(s2, r)
                if op != 'starttls':
                    out.append(s2)
        return out


def it_eq(l, n):
    return l == ('#', n, ())


def unit():
    return ('A', 't', 0, ())
