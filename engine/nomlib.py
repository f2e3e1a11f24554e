"""Meaning of nom's parser combinators over symbolic texts.

A parser is ('nomp', kind, args).  The text it reads consists of pieces; besides literals three opaque ones describe
a text as lines ended by CRLF, taken apart only as far as a parser looks:

  ('T', 'rest', LINE k)      everything from line k on; line k is complete or everything left is without CRLF
  ('T', 'lrest', LINE k, j)  line k from byte j, without its CRLF; contains no CRLF
  ('T', 'tail', LINE k, j)   what follows the last CRLF, from byte j; contains no CRLF

with LINE k = ('idx', text, k).  Questions about them become facts: ('complete', LINE), ('lend', LINE, j): the line ends
at byte j, and the values of ('byte', LINE, j).
"""
from vals import *
from interp import Split, Infeasible, Unsupported

KINDS = ('Error', 'Failure', 'Incomplete')
OPAQUE = ('rest', 'lrest', 'tail')


def line_at(line, d):
    return ('idx', line[1], ladd(line[2], lin(d)))


def is_opaque(p):
    return p[0] == 'T' and p[1] in OPAQUE


def mentions(v):
    if not isinstance(v, tuple) or not v:
        return False
    if len(v) >= 3 and v[0] == 'T' and v[1] in OPAQUE:
        return True
    return any(mentions(x) for x in v if isinstance(x, tuple))


def register(m, tab, pats, reg):
    it = m.it
    T = m.T
    N = m.nom = Nom(m)

    def comb(kind, *paths):
        def f(st, c, a, d):
            return [(st, ('nomp', kind, tuple(a)))]
        for p in paths:
            tab['nom::' + p] = f
    for mode in ('streaming', 'complete'):
        s = mode == 'streaming'

        def leaf(kind, *paths):
            comb(kind + ('' if s else '!'), *paths)
        leaf('tag', 'bytes::%s::tag' % mode)
        leaf('tag_no_case', 'bytes::%s::tag_no_case' % mode)
        leaf('take_until', 'bytes::%s::take_until' % mode)
        leaf('take', 'bytes::%s::take' % mode)
        leaf('char', 'character::%s::char' % mode)
        leaf('one_of', 'character::%s::one_of' % mode)
        leaf('none_of', 'character::%s::none_of' % mode)
        leaf('satisfy', 'character::%s::satisfy' % mode)
        for name in ('crlf', 'anychar'):
            def direct(st, c, a, d, kind=name + ('' if s else '!')):
                return N.entry(st, ('nomp', kind, ()), a, d)
            tab['nom::character::%s::%s' % (mode, name)] = direct
            N.direct['nom::character::%s::%s' % (mode, name)] = name + ('' if s else '!')
    for k, p in [('alt', 'branch::alt'), ('complete', 'combinator::complete'), ('map', 'combinator::map'), ('peek', 'combinator::peek'),
                 ('value', 'combinator::value'), ('verify', 'combinator::verify'), ('cut', 'combinator::cut'),
                 ('map_res', 'combinator::map_res'), ('map_opt', 'combinator::map_opt'), ('recognize', 'combinator::recognize'),
                 ('not', 'combinator::not'), ('into', 'combinator::into'), ('success', 'combinator::success'), ('cond', 'combinator::cond'), ('all_consuming', 'combinator::all_consuming'),
                 ('many0', 'multi::many0'), ('many1', 'multi::many1'),
                 ('preceded', 'sequence::preceded'), ('terminated', 'sequence::terminated'), ('delimited', 'sequence::delimited'),
                 ('pair', 'sequence::pair'), ('separated_pair', 'sequence::separated_pair'), ('tuple', 'sequence::tuple')]:
        comb(k, p)

    def opt(st, c, a, d):
        o = m.p.tyname.get('core::option::Option<%s>' % T[c['args'][1]]['s'])
        if o is None:
            raise Unsupported('type of opt')
        return [(st, ('nomp', 'opt', (a[0], ('ty', o))))]
    tab['nom::combinator::opt'] = opt

    @reg('nom::error::Error::new')
    def error_new(st, c, a, d):
        return [(st, ('A', d, 0, tuple(a)))]

    @reg('nom::error::ParseError::from_error_kind', 'nom::error::make_error')
    def make_error(st, c, a, d):
        if T[d].get('path') != 'nom::error::Error':
            return NotImplemented
        return [(st, ('A', d, 0, tuple(a)))]

    @reg('nom::internal::Parser::parse')
    def parse(st, c, a, d):
        return N.entry(st, it.deref_all(st, a[0]), a[1:], d)
    tab['nom::combinator::eof'] = lambda st, c, a, d: N.entry(st, ('nomp', 'eof', ()), a, d)


class Nom:
    def __init__(self, m):
        self.m = m
        self.it = m.it
        self.T = m.T
        self.level = 0
        self.unfolded = None          # told before a further line is looked at
        self.direct = {'nom::combinator::eof': 'eof'}

    # ------------------------------------------------------------ boundary with interpreted code
    def entry(self, st, p, args, dty):
        """call of a parser from interpreted code"""
        ps = self.m.pieces(st, args[0])
        out = []
        for s, o in self.run(st, p, ps):
            out.append((s, self.encode(s, o, dty)))
        return out

    def field_ty(self, t, i):
        t = self.T[t]
        return t['args'][i]

    def encode(self, st, o, dty):
        t = self.T[dty]
        if t.get('path') != 'core::result::Result':
            raise Unsupported('result of a parser: %s' % t['s'][:60])
        ety = t['args'][1]
        if o[0] == 'ok':
            return ('A', dty, 0, (('A', 't', 0, (cref(('s', o[1])), o[2])),))
        return ('A', dty, 1, (self.err_value(st, o[1], o[2], ety),))

    def err_value(self, st, kind, payload, ety):
        et = self.T[ety]
        if et.get('path') != 'nom::internal::Err':
            raise Unsupported('error type %s' % et['s'][:60])
        for i, v in enumerate(et['variants']):
            if v['n'] == kind:
                fs = []
                for f in v['f']:
                    ft = self.T[f['t']]
                    if kind == 'Incomplete':
                        fs.append(('S', ('needed',), f['t']))
                    elif payload is not None and payload[0] == 'val':
                        fs.append(payload[1])
                    elif ft.get('path') == 'nom::error::Error':
                        code, ps = payload if payload is not None else ('Tag', ())
                        fs.append(('A', f['t'], 0, tuple(self.err_field(x, code, ps) for x in ft['variants'][0]['f'])))
                    else:
                        fs.append(self.it.sym(st, ('nomerr',), f['t']))
                return ('A', ety, i, tuple(fs))
        raise Unsupported('error kind %s' % kind)

    def err_field(self, f, code, ps):
        t = self.T[f['t']]
        if t.get('path') == 'nom::error::ErrorKind':
            for i, v in enumerate(t['variants']):
                if v['n'] == code:
                    return ('A', f['t'], i, ())
            raise Unsupported('error code %s' % code)
        return cref(('s', ps))

    def decode(self, st, v):
        """outcome of an interpreted parser function"""
        it = self.it
        v = it.deref_all(st, v)
        if v[0] != 'A' or self.T[v[1]].get('path') != 'core::result::Result':
            raise Unsupported('result of a parser function: %s' % show(v)[:60])
        x = it.deref_all(st, v[3][0])
        if v[2] == 0:
            return ('ok', self.m.pieces(st, x[3][0]), x[3][1])
        if x[0] != 'A':
            raise Unsupported('error of a parser function')
        kind = self.T[x[1]]['variants'][x[2]]['n']
        if kind == 'Incomplete':
            return ('bad', kind, None)
        return ('bad', kind, ('val', x[3][0]))

    # ------------------------------------------------------------ running
    def run(self, st, p, ps):
        """[(state, ('ok', rest, value) | ('bad', kind, payload))]"""
        self.level += 1
        if self.level > 60:
            self.level -= 1
            raise Unsupported('nesting of parsers')
        d, stack = self.it.depth, list(self.it.stack)
        try:
            return self._run(st, p, ps)
        finally:
            self.level -= 1

    def key(self, n=0):
        return ('k', 5000 + self.level, n)

    def call(self, st, f, args):
        """call user code: [(state, value)]"""
        key = self.key(9)
        st.mem[key] = ('kept',) + tuple(args)
        out = []
        for s, v in self.m.trysplit(st, lambda c: self.it.call_value(c, f, list(c.mem[key][1:]), None)):
            s.mem.pop(key, None)
            out.append((s, v))
        return out

    def _run(self, st, p, ps):
        it, m = self.it, self.m
        n = 0
        while isinstance(p, tuple) and p[0] in ('R', 'B') and n < 9:
            p = it.deref(st, p)
            n += 1
        if p[0] == 'F' and self.T[p[1]]['callee']['path'] in self.direct:
            p = ('nomp', self.direct[self.T[p[1]]['callee']['path']], ())
        if p[0] != 'nomp':
            if p[0] == 'F' or p[0] == 'A' and p[1] != 't':
                out = []
                for s, v in self.call(st, p, [cref(('s', ps))]):
                    out.append((s, self.decode(s, v)))
                return out
            if p[0] == 's':
                p = ('nomp', 'tag', (p,))
            else:
                raise Unsupported('parser %s' % show(p)[:60])
        kind, a = p[1], p[2]
        f = getattr(self, 'p_' + kind.rstrip('!'), None)
        if f is None:
            raise Unsupported('parser %s' % kind)
        if kind.rstrip('!') in LEAVES:
            self.short = 'Error' if kind.endswith('!') else 'Incomplete'
            short = self.short

            def leaf(c):
                self.short = short
                return [(c, f(c, a, ps))]
            return m.trysplit(st, leaf)
        return f(st, a, ps)

    def bad(self, kind, code, ps):
        return ('bad', kind, (code, ps) if kind != 'Incomplete' else None)

    # ------------------------------------------------------------ looking at text
    def unfold(self, st, ps):
        """pieces with the first one taken apart as far as it is known to exist"""
        if ps and ps[0][0] == 'T' and ps[0][1] == 'rest':
            line = ps[0][2]
            t = ('complete', line)
            if self.unfolded is not None:
                self.unfolded(st, line)
            if self.it.branch(st, t):
                return (('T', 'lrest', line, 0), ('L', b'\r\n'), ('T', 'rest', line_at(line, 1))) + tuple(ps[1:])
            return (('T', 'tail', line, 0),) + tuple(ps[1:])
        return ps

    def ended(self, st, p):
        return self.it.branch(st, ('lend', p[2], p[3]))

    def byte_is(self, st, p, cs):
        return self.it.branch(st, ('ins', ('byte', p[2], p[3]), cs_inter(cs, U8)))

    def match(self, st, ps, b, nocase=False):
        """('yes', rest) | ('no',) | ('short',) for the literal b at the start of the text"""
        while b:
            ps = self.unfold(st, ps)
            if not ps:
                return ('short',)
            p = ps[0]
            if p[0] == 'L':
                n = min(len(p[1]), len(b))
                x, y = p[1][:n], b[:n]
                if (x.lower() != y.lower()) if nocase else (x != y):
                    return ('no',)
                ps = ((('L', p[1][n:]),) if len(p[1]) > n else ()) + ps[1:]
                b = b[n:]
                continue
            if p[0] == 'S':
                raise Unsupported('tag in %s' % showpieces(ps)[:60])
            if not is_opaque(p):
                raise Unsupported('tag in %s' % showpieces(ps)[:60])
            if self.ended(st, p):
                ps = ps[1:]
                continue
            if b[:2] == b'\r\n' and p[1] == 'lrest':
                return ('no',)              # no CRLF inside a line
            c = b[:1]
            cs = cs_of(*(set(c.lower() + c.upper()) if nocase else set(c)))
            if not self.byte_is(st, p, cs):
                return ('no',)
            if b[:2] == b'\r\n':
                # in the unfinished last line
                q = ('T', 'tail', p[2], p[3] + 1)
                return ('short',) if self.ended(st, q) else ('no',)
            ps = (('T', p[1], p[2], p[3] + 1),) + ps[1:]
            b = b[1:]
        return ('yes', ps)

    def lit_arg(self, st, v):
        v = self.m.pieces(st, v) if not isinstance(v, int) else (('L', chr(v).encode()),)
        if not self.m.is_lit(v):
            raise Unsupported('literal of a parser')
        return self.m.lit_bytes(v)

    def p_tag(self, st, a, ps, nocase=False):
        b = self.lit_arg(st, a[0])
        r = self.match(st, ps, b, nocase)
        if r[0] == 'yes':
            if nocase:
                raise Unsupported('text of tag_no_case')
            return ('ok', r[1], cref(lit(b)))
        return self.bad('Error' if r[0] == 'no' else self.short, 'Tag', ps)

    def p_tag_no_case(self, st, a, ps):
        return self.p_tag(st, a, ps, True)

    def p_crlf(self, st, a, ps):
        r = self.match(st, ps, b'\r\n')
        if r[0] == 'yes':
            return ('ok', r[1], cref(lit(b'\r\n')))
        return self.bad('Error' if r[0] == 'no' else self.short, 'CrLf', ps)

    def p_char(self, st, a, ps):
        v = a[0]
        if not isinstance(v, int) or v > 127:
            raise Unsupported('char parser')
        r = self.match(st, ps, bytes([v]))
        if r[0] == 'yes':
            return ('ok', r[1], v)
        return self.bad('Error' if r[0] == 'no' else self.short, 'Char', ps)

    def next_byte(self, st, ps):
        """(constant | ('byte', ..) term, rest), or None at the end"""
        while True:
            ps = self.unfold(st, ps)
            if not ps:
                return None
            p = ps[0]
            if p[0] == 'L':
                return p[1][0], ((('L', p[1][1:]),) if len(p[1]) > 1 else ()) + ps[1:]
            if not is_opaque(p):
                raise Unsupported('character of %s' % showpieces(ps)[:60])
            if self.ended(st, p):
                ps = ps[1:]
                continue
            return ('byte', p[2], p[3]), (('T', p[1], p[2], p[3] + 1),) + ps[1:]

    def one(self, st, ps, cs, code):
        r = self.next_byte(st, ps)
        if r is None:
            return self.bad(self.short, code, ps)
        b, rest = r
        if isinstance(b, int):
            if any(l <= b <= h for l, h in cs):
                return ('ok', rest, b)
            return self.bad('Error', code, ps)
        low = cs_inter(cs, ASCII)
        wide = cs_minus(cs, ASCII)
        if not self.it.branch(st, ('ins', b, cs_union(low, ((128, 255),)) if wide else low)):
            return self.bad('Error', code, ps)
        now = self.it.charset(st, b)
        if now[-1][1] > 127:
            if not self.it.branch(st, ('ins', b, ASCII)):
                # one of several bytes; how many is not followed
                st.inexact('unknown text')
                t = ('wide', b[1], b[2])
                st.facts[('cs', t)] = cs_inter(cs, cs_minus(CHAR, ASCII))
                return ('ok', rest, ('S', t, self.m.p.tyname['char'])) if st.facts[('cs', t)] else self.bad('Error', code, ps)
            now = self.it.charset(st, b)
        if cs_size(now) == 1:
            return ('ok', rest, now[0][0])
        return ('ok', rest, ('S', b, self.m.p.tyname['char']))

    def p_one_of(self, st, a, ps):
        return self.one(st, ps, cs_of(*self.lit_arg(st, a[0])), 'OneOf')

    def p_none_of(self, st, a, ps):
        return self.one(st, ps, cs_minus(CHAR, cs_of(*self.lit_arg(st, a[0]))), 'NoneOf')

    def p_anychar(self, st, a, ps):
        return self.one(st, ps, CHAR, 'Eof')

    def p_satisfy(self, st, a, ps):
        r = self.m.std.pred_sets(st, a[0])
        if r is None:
            raise Unsupported('satisfy')
        return self.one(st, ps, r[1], 'Satisfy')

    def p_take(self, st, a, ps):
        n = as_lin(a[0])
        if n[2]:
            raise Unsupported('take')
        out = ()
        rest = ps
        for _ in range(n[1]):
            r = self.next_byte(st, rest)
            if r is None:
                return self.bad(self.short, 'Eof', ps)
            b, rest = r
            if not isinstance(b, int) and self.it.charset(st, b)[-1][1] > 127:
                if not self.it.branch(st, ('ins', b, ASCII)):
                    raise Unsupported('character of several bytes')
            out = pieces_cat(out, [('L', bytes([b])) if isinstance(b, int) else ('T', 'char', ('S', b, self.m.p.tyname['char']))])
        return ('ok', rest, cref(('s', out)))

    def p_take_until(self, st, a, ps):
        b = self.lit_arg(st, a[0])
        out = ()
        rest = ps
        while True:
            rest = self.unfold(st, rest)
            if not rest:
                return self.bad(self.short, 'TakeUntil', ps)
            p = rest[0]
            if p[0] == 'L':
                buf = p[1]
                k = buf.find(b)
                if k >= 0:
                    out = pieces_cat(out, [('L', buf[:k])])
                    return ('ok', ((('L', buf[k:]),) + rest[1:]), cref(('s', out)))
                if any(buf.endswith(b[:n]) for n in range(1, len(b))) and len(rest) > 1:
                    raise Unsupported('take_until across pieces')
                out = pieces_cat(out, [p])
                rest = rest[1:]
                continue
            if not is_opaque(p):
                raise Unsupported('take_until in %s' % showpieces(rest)[:60])
            if b'\r\n' not in b:
                if self.it.branch(st, ('has', p[2], p[3], b)):
                    # somewhere inside the line
                    out = pieces_cat(out, [('T', 'upto', p[2], p[3], b)])
                    return ('ok', (('L', b), ('T', 'after', p[2], p[3], b)) + rest[1:], cref(('s', out)))
            elif b[:2] != b'\r\n':
                raise Unsupported('take_until across pieces')
            out = pieces_cat(out, [p])
            rest = rest[1:]

    def p_eof(self, st, a, ps):
        r = self.next_byte(st, ps)
        if r is None:
            return ('ok', (), cref(('s', ())))
        return self.bad('Error', 'Eof', ps)

    # ------------------------------------------------------------ combinators
    def p_opt(self, st, a, ps):
        oty = a[1][1]
        return self.p_peek(st, a[:1], ps, lambda o, p: ('ok', o[1], self.m.some(oty, o[2])) if o[0] == 'ok' else (('ok', p, self.m.none(oty)) if o[1] == 'Error' else o))

    def p_alt(self, st, a, ps):
        ps_key = self.key(0)
        parsers = self.members(st, a[0])
        states = [st]
        out = []
        last = {}
        st.mem[ps_key] = ('kept', ('s', ps))
        for j, q in enumerate(parsers):
            nxt = []
            for s in states:
                for s2, o in self.run(s, q, s.mem[ps_key][1][1]):
                    if o[0] == 'bad' and o[1] == 'Error':
                        if j == len(parsers) - 1:
                            s2.mem.pop(ps_key)
                            out.append((s2, o))
                        else:
                            nxt.append(s2)
                    else:
                        s2.mem.pop(ps_key, None)
                        out.append((s2, o))
            states = nxt
        return out

    def members(self, st, v):
        v = self.it.deref_all(st, v) if v[0] == 'R' else v
        if v[0] == 'A' and v[1] == 't':
            return list(v[3])
        if v[0] == 'v':
            if all(e[0] == 'e' for e in v[1]):
                return [e[1] for e in v[1]]
        raise Unsupported('list of parsers %s' % show(v)[:60])

    def seq(self, st, parsers, ps):
        """run one after the other: (state, rest, outputs) and failures"""
        key = self.key(1)
        states = [(st, ps, ())]
        bad = []
        for q in parsers:
            nxt = []
            for s, rest, outs in states:
                s.mem[key] = ('kept',) + outs
                for s2, o in self.run(s, q, rest):
                    outs2 = s2.mem.pop(key)[1:]
                    if o[0] == 'ok':
                        nxt.append((s2, o[1], outs2 + (o[2],)))
                    else:
                        bad.append((s2, o))
            states = nxt
        return states, bad

    def _seq(self, st, parsers, ps, pick):
        good, out = self.seq(st, parsers, ps)
        for s, rest, outs in good:
            out.append((s, ('ok', rest, pick(outs))))
        return out

    def tup(self, *fs):
        return ('A', 't', 0, tuple(fs))

    def p_tuple(self, st, a, ps):
        return self._seq(st, self.members(st, a[0]), ps, lambda o: self.tup(*o))

    def p_preceded(self, st, a, ps):
        return self._seq(st, a, ps, lambda o: o[1])

    def p_terminated(self, st, a, ps):
        return self._seq(st, a, ps, lambda o: o[0])

    def p_delimited(self, st, a, ps):
        return self._seq(st, a, ps, lambda o: o[1])

    def p_pair(self, st, a, ps):
        return self._seq(st, a, ps, lambda o: self.tup(*o))

    def p_separated_pair(self, st, a, ps):
        return self._seq(st, a, ps, lambda o: self.tup(o[0], o[2]))

    def p_map(self, st, a, ps):
        out = []
        key = self.key(2)
        for s, o in self.run(st, a[0], ps):
            if o[0] != 'ok':
                out.append((s, o))
                continue
            s.mem[key] = ('kept', ('s', o[1]))
            for s2, v in self.call(s, a[1], [o[2]]):
                out.append((s2, ('ok', s2.mem.pop(key)[1][1], v)))
        return out

    def _map_try(self, st, a, ps, good, code):
        out = []
        key = self.key(2)
        for s, o in self.run(st, a[0], ps):
            if o[0] != 'ok':
                out.append((s, o))
                continue
            s.mem[key] = ('kept', ('s', o[1]))
            for s2, v in self.call(s, a[1], [o[2]]):
                rest = s2.mem.pop(key)[1][1]
                v = self.it.deref_all(s2, v)
                for s3, x in self.m.std.variants(s2, v):
                    if x == good:
                        fs = v[3] if v[0] == 'A' else self.it.expand(s3, v, x)[3]
                        out.append((s3, ('ok', rest, fs[0])))
                    else:
                        out.append((s3, self.bad('Error', code, ())))
        return out

    def p_map_res(self, st, a, ps):
        return self._map_try(st, a, ps, 0, 'MapRes')

    def p_map_opt(self, st, a, ps):
        return self._map_try(st, a, ps, 1, 'MapOpt')

    def p_verify(self, st, a, ps):
        out = []
        key = self.key(2)
        for s, o in self.run(st, a[0], ps):
            if o[0] != 'ok':
                out.append((s, o))
                continue
            s.mem[key] = ('kept', ('s', o[1]), o[2])
            arg = o[2] if isinstance(o[2], tuple) and o[2][0] == 'R' else cref(o[2])
            for s2, v in self.call(s, a[1], [arg]):
                _, rest, val = s2.mem.pop(key)
                for s3, b in self.m.std.both(s2, v):
                    out.append((s3, ('ok', rest[1], val) if b else self.bad('Error', 'Verify', ())))
        return out

    def p_value(self, st, a, ps):
        key = self.key(2)
        st.mem[key] = ('kept', a[0])
        out = []
        for s, o in self.run(st, a[1], ps):
            v = s.mem.pop(key)[1]
            out.append((s, ('ok', o[1], v) if o[0] == 'ok' else o))
        return out

    def p_success(self, st, a, ps):
        return [(st, ('ok', ps, a[0]))]

    def p_peek(self, st, a, ps, conv=None):
        key = self.key(2)
        st.mem[key] = ('kept', ('s', ps))
        out = []
        for s, o in self.run(st, a[0], ps):
            ps2 = s.mem.pop(key)[1][1]
            out.append((s, conv(o, ps2) if conv else (('ok', ps2, o[2]) if o[0] == 'ok' else o)))
        return out

    def p_not(self, st, a, ps):
        def conv(o, ps2):
            if o[0] == 'ok':
                return self.bad('Error', 'Not', ps2)
            return ('ok', ps2, self.tup()) if o[1] == 'Error' else o
        return self.p_peek(st, a, ps, conv)

    def p_complete(self, st, a, ps):
        return self.p_peek(st, a, ps, lambda o, p: self.bad('Error', 'Complete', p) if o[0] == 'bad' and o[1] == 'Incomplete' else o)

    def p_cut(self, st, a, ps):
        return self.p_peek(st, a, ps, lambda o, p: ('bad', 'Failure', o[2]) if o[0] == 'bad' and o[1] == 'Error' else o)

    def p_all_consuming(self, st, a, ps):
        out = []
        for s, o in self.run(st, a[0], ps):
            if o[0] != 'ok':
                out.append((s, o))
                continue
            key = self.key(2)
            s.mem[key] = ('kept', o[2])
            for s2, o2 in self.run(s, ('nomp', 'eof', ()), o[1]):
                v = s2.mem.pop(key)[1]
                out.append((s2, ('ok', (), v) if o2[0] == 'ok' else o2))
        return out

    def many(self, st, a, ps, least):
        m = self.m
        kin, kacc = self.key(3), self.key(4)
        st.mem[kin] = ('s', ps)
        st.mem[kacc] = ('v', ())
        q = a[0]
        kp = self.key(5)
        st.mem[kp] = ('kept', q)

        def step(s):
            out = []
            for s2, o in self.run(s, s.mem[kp][1], s.mem[kin][1]):
                if o[0] == 'ok':
                    if o[1] == s2.mem[kin][1]:
                        out.append((s2, ('done', self.bad('Error', 'Many0', o[1]))))
                        continue
                    s2.mem[kin] = ('s', o[1])
                    s2.mem[kacc] = m.push(s2.mem[kacc], o[2])
                    out.append((s2, None))
                elif o[1] == 'Error':
                    acc = s2.mem[kacc]
                    if least and not acc[1]:
                        out.append((s2, ('done', o)))
                    else:
                        out.append((s2, ('done', ('ok', s2.mem[kin][1], acc))))
                else:
                    out.append((s2, ('done', o)))
            return out
        res = []
        for s, o in m.fix(st, step, 'many'):
            for k in (kin, kacc, kp):
                s.mem.pop(k, None)
            res.append((s, o))
        return res

    def p_many0(self, st, a, ps):
        return self.many(st, a, ps, 0)

    def p_many1(self, st, a, ps):
        return self.many(st, a, ps, 1)


LEAVES = {'tag', 'tag_no_case', 'crlf', 'char', 'one_of', 'none_of', 'anychar', 'satisfy', 'take', 'take_until', 'eof'}
