"""C18: the text accepted by the reply parser, and what is made of it."""
from vals import *
from interp import *
from nomlib import line_at, mentions
import nomlib

DIG = (cs_of((50, 53)), cs_of((48, 53)), cs_of((48, 57)))
TEXT = ('arg', 'input')
R1 = 'accepted replies have the SMTP grammar'
R2 = 'all lines have the same code'
R3 = 'the reply keeps code and texts'
R4 = 'whole lines of an unfinished reply are incomplete, not an error'
R5 = 'a well-formed reply is accepted'
R6 = 'anything else is an error'


def LINE(k):
    return ('idx', TEXT, k)


class Parsing:
    """mixed into Pure"""

    def keep_fact(self, st, k):
        if self.addr_on:
            return self.address_keep(st, k)
        if self.ehlo_on:
            if k[0] in ('b', 'cs', 'chars', 'str', 'nofind', 'bnd') and 'other' not in st.mon and self.ehlo_odd(k):
                st.mon['other'] = 1
            return self.ehlo_keep(st, k)
        if not getattr(self, 'parsing', False):
            return False
        if self.it.exact_turns is not None:
            return True
        if k[0] in ('b', 'cs') and isinstance(k[1], tuple) and len(k[1]) > 1 and k[1][1] == ('idx', ('probe',), ZERO):
            return True
        # the lines not yet left behind
        v = st.mon.get('valid')
        if v is None or not isinstance(k[1], tuple):
            return False
        t = k[1]
        if k[0] == 'b' and t[0] in ('complete', 'lend') or k[0] == 'cs' and t[0] == 'byte':
            return t[1][1] == TEXT and t[1][2] in (v, ladd(v, ONE))
        return False

    # ------------------------------------------------------------ events
    def on_fact(self, st, term, val):
        if not getattr(self, 'parsing', False):
            return
        if term[0] == 'complete':
            t = self.it.exact_turns
            if t is not None and val and self.it.cmp(st, 'lt', lin(min(t, 4)), term[1][2]) is True:
                self.it.cut['lines'] = self.it.cut.get('lines', 0) + 1
                return False
            return
        if term[0] in ('lend', 'has'):
            return
        if term[0] in ('tabeq', 'tabsame'):
            if not val:
                st.mon['mismatch'] = 1
                return
            if self.it.exact_turns is not None or term[0] == 'tabsame':
                return
            (_, (_, l1, c1), _), (_, (_, l2, c2), _) = term[1], term[2]
            if c1 != c2:
                return
            self.count(st, c1, l1[2], l2[2])
            return
        if mentions(term):
            st.inexact('unknown text')

    def count(self, st, c, a, b):
        mon = st.mon
        # every line up to cnt has the digit of the first one
        n = mon.get('first%d' % c, ZERO)
        for x, y in ((a, b), (b, a)):
            if x == ladd(n, ONE) and (y == ZERO or y == n):
                mon['first%d' % c] = x
                return
        # every line below cnt has the digit of line ref
        n = mon.get('ref%d' % c, ZERO)
        for x, y in ((a, b), (b, a)):
            if x == n and ('refl%d' % c not in mon or n == ZERO or mon['refl%d' % c] == y):
                mon['refl%d' % c] = y
                mon['ref%d' % c] = ladd(n, ONE)
                return

    def progress(self, st, line):
        """a line after the first is looked at: what is certain about the one before it"""
        if self.it.exact_turns is not None:
            return
        k = line[2]
        mon = st.mon
        prev = ladd(k, lin(-1))
        v = mon.get('valid', ZERO)
        if v == prev and self.status(st, LINE(prev)) == {'cont'}:
            mon['valid'] = k

    # ------------------------------------------------------------ reading the facts
    def status(self, st, line):
        it = self.it
        c = it.known(st, ('complete', line))
        if c is False:
            return {'partial'}
        if c is None:
            return {'partial', 'cont', 'final', 'bad'}
        out = set()
        for j in range(3):
            e = it.known(st, ('lend', line, j))
            if e is True:
                return out | {'bad'}
            if e is None:
                out.add('bad')
            cs = it.charset(st, ('byte', line, j))
            if not cs_inter(cs, DIG[j]):
                return out | {'bad'}
            if cs_minus(cs, DIG[j]):
                out.add('bad')
        e = it.known(st, ('lend', line, 3))
        if e is not False:
            out.add('final')
        if e is not True:
            cs = it.charset(st, ('byte', line, 3))
            if cs_inter(cs, cs_of('-')):
                out.add('cont')
            if cs_inter(cs, cs_of(' ')):
                out.add('final')
            if cs_minus(cs, cs_of('-', ' ')):
                out.add('bad')
        return out

    def text_of(self, st, line):
        if self.it.known(st, ('lend', line, 3)) is True:
            return ()
        return (('T', 'lrest', line, 4),)

    def lines_seen(self, st):
        """indices of the lines about which something is known"""
        ks = set()
        for k in st.facts:
            if k[0] == 'b' and k[1][0] == 'complete':
                ks.add(k[1][1][2])
        return ks

    # ------------------------------------------------------------ verdict on one outcome
    def outcome(self, st, kind, rest, resp):
        """kind: 'ok', 'error' or 'incomplete'"""
        P = 'C18'
        it = self.it
        exact = it.exact_turns is not None
        ks = self.lines_seen(st)
        for r in (R1, R2, R3) if kind == 'ok' else (R5, R4) if kind == 'error' else (R5, R6):
            self.check(P, r)
        self.payload = ()
        if exact:
            n = 0
            while ('b', ('complete', LINE(lin(n)))) in st.facts:
                n += 1
            sts = [self.status(st, LINE(lin(i))) for i in range(n)]
            known = [LINE(lin(i)) for i in range(n)]
            certain = True
        else:
            v = st.mon.get('valid', ZERO)
            # the lines before `valid` are continuation lines
            known = [LINE(v)]
            sts = [self.status(st, LINE(v))]
            nxt = ladd(v, ONE)
            if nxt in ks:
                known.append(LINE(nxt))
                sts.append(self.status(st, LINE(nxt)))
            certain = False

        def viol(rule, msg):
            s = st.copy()
            if not certain:
                s.inexact('widened')
            self.violation(s, P, rule, msg)

        def name(i):
            return 'line %s' % lshow(ladd(known[i][2], ONE))
        if kind == 'ok':
            last = None
            for i, x in enumerate(sts):
                if x == {'cont'}:
                    continue
                if x == {'final'}:
                    last = i
                    break
                viol(R1, 'a reply is accepted although %s may be %s' % (name(i), ' or '.join(sorted(x - {'cont', 'final'}) or sorted(x))))
                return
            if last is None:
                viol(R1, 'a reply is accepted without a final line')
                return
            L = known[last]
            if rest is not None and rest != (('T', 'rest', line_at(L, 1)),):
                viol(R1, 'accepting a reply consumes all but %s' % showpieces(rest))
            self.same_codes(st, L, viol)
            self.content(st, L, resp, viol)
            return
        mism = st.mon.get('mismatch')
        bad = [i for i, x in enumerate(sts) if x == {'bad'}]
        final = [i for i, x in enumerate(sts) if x == {'final'}]
        part = [i for i, x in enumerate(sts) if x == {'partial'}]
        def begun(i):
            """something follows line i"""
            if i + 1 >= len(sts):
                return False
            return 'partial' not in sts[i + 1] or sts[i + 1] == {'partial'} and self.tail_begun(st, known[i + 1])
        if kind == 'error':
            if bad or mism or any(self.tail_begun(st, known[i]) for i in part) or any(begun(i) for i in final):
                return
            if final and all(x == {'cont'} for x in sts[:final[0]]):
                if certain and not self.codes_agree(st, known[:final[0] + 1]):
                    pass
                viol(R5, 'a reply is refused although its lines may be well-formed and its codes equal')
                return
            viol(R4, 'an error is reported although the lines so far may be the beginning of a reply: %s' % ', '.join('%s is %s' % (name(i), '/'.join(sorted(x))) for i, x in enumerate(sts)))
            return
        # incomplete
        if any(self.tail_begun(st, known[i]) for i in part):
            return
        if not part:
            for i, x in enumerate(sts):
                if x != {'cont'}:
                    if 'final' in x:
                        if not mism:
                            viol(R5, 'a reply that may be complete is taken for incomplete')
                        else:
                            viol(R6, 'a reply with different codes is taken for incomplete')
                    else:
                        viol(R6, 'a malformed reply is taken for incomplete')
                    return
            viol(R5, 'a reply is taken for incomplete before its last line is looked at')
            return
        for x in sts[:part[0]]:
            if x != {'cont'}:
                viol(R5 if 'final' in x else R6, 'a reply with a line that may be %s is taken for incomplete' % '/'.join(sorted(x)))
                return

    def tail_begun(self, st, line):
        return self.it.known(st, ('complete', line)) is False and self.it.known(st, ('lend', line, 0)) is False

    def codes_agree(self, st, lines):
        """all columns of all lines known to be equal (exact runs)"""
        it = self.it
        for c in range(3):
            group = {l: l for l in lines}

            def find(x):
                while group[x] != x:
                    x = group[x]
                return x
            for k, v in st.facts.items():
                if k[0] == 'b' and k[1][0] == 'tabeq' and v is True:
                    a, b = k[1][1][1], k[1][2][1]
                    if a[2] == c and b[2] == c and a[1] in group and b[1] in group:
                        group[find(a[1])] = find(b[1])
            one = {}
            for l in lines:
                cs = it.charset(st, ('byte', l, c))
                if cs_size(cs) == 1:
                    k = cs[0][0]
                    if k in one:
                        group[find(one[k])] = find(l)
                    one[k] = l
            if len({find(l) for l in lines}) > 1:
                return c + 1
        return 0

    def same_codes(self, st, L, viol):
        it = self.it
        n = L[2]
        if not n[2]:
            lines = [LINE(lin(i)) for i in range(n[1] + 1)]
            if it.exact_turns is not None or n[1] == 0:
                c = self.codes_agree(st, lines)
                if c:
                    viol(R2, 'a reply is accepted although digit %d of its lines may differ' % c)
                return
        for c in range(3):
            if st.mon.get('first%d' % c) == n:
                continue
            if st.mon.get('ref%d' % c) == n and st.mon.get('refl%d' % c) == n:
                continue
            if it.cmp(st, 'eq', n, ZERO) is True:
                continue
            viol(R2, 'a reply is accepted although digit %d of its lines may differ' % (c + 1))
            return

    def content(self, st, L, resp, viol):
        m = self.m
        resp = self.look(st, resp)
        rty = self.ty('response::Response')
        if resp[0] != 'A':
            viol(R3, 'the reply is %s' % show(resp)[:100])
            return
        names = [f['n'] for f in self.T[rty]['variants'][0]['f']]
        code = self.look(st, resp[3][names.index('code')])
        msg = self.look(st, resp[3][names.index('message')])
        cty = self.ty('response::Code')
        for c, d in enumerate(('severity', 'category', 'detail')):
            fs = self.T[cty]['variants'][0]['f']
            i = [f['n'] for f in fs].index(d)
            if code[0] != 'A':
                viol(R3, 'the code is %s' % show(code)[:100])
                return
            v = self.look(st, code[3][i])
            ety = fs[i]['t']
            want = {ch: k for ch in range(DIG[c][0][0], DIG[c][-1][1] + 1) for k, x in enumerate(self.T[ety]['variants']) if x['d'] == ch - 48}
            ok = False
            cs = self.it.charset(st, ('byte', L, c))
            if v[0] == 'A':
                ok = cs_size(cs) == 1 and want.get(cs[0][0]) == v[2]
            elif v[0] == 'S' and v[1][0] == 'tab':
                # the digit may be read off any line with the same code
                b = v[1][1]
                t = dict(v[1][2])
                same = b == ('byte', L, c) or b[2] == c and self.line_like(st, b[1], L, c)
                ok = same and all(t.get(ch) == want.get(ch) for l, h in cs for ch in range(l, h + 1))
            if not ok:
                viol(R3, 'the %s of the reply is %s' % (d, show(v)[:120]))
                return
        pos = ZERO
        try:
            parts = m.parts(st, msg)
        except Unsupported:
            viol(R3, 'the texts of the reply are %s' % show(msg)[:120])
            return
        n = ladd(L[2], ONE)
        for p in parts:
            self.payload = p
            if p[0] == 'e':
                self.text_at(st, p[1], LINE(pos), viol)
                pos = ladd(pos, ONE)
            elif p[0] == 'G':
                self.text_at(st, p[1], LINE(ladd(pos, param(IDX))), viol)
                pos = ladd(pos, p[2])
            else:
                viol(R3, 'the texts of the reply are %s' % show(p)[:120])
                return
        self.payload = ()
        if pos != n and self.it.cmp(st, 'eq', pos, n) is not True:
            viol(R3, 'the reply has %s texts, the text has %s lines' % (lshow(pos), lshow(n)))

    def line_like(self, st, a, L, c):
        """line a has the same digit in column c as line L, by the comparisons made"""
        if self.it.exact_turns is not None:
            return not self.codes_agree(st, [a, L])
        return st.mon.get('first%d' % c) == L[2] and a[2] == ZERO or (st.mon.get('ref%d' % c) == L[2] and st.mon.get('refl%d' % c) == L[2])

    def text_at(self, st, v, line, viol):
        v = self.look(st, v)
        try:
            ps = self.m.pieces(st, v)
        except Unsupported:
            viol(R3, '%s is stored as a text' % show(v)[:100])
            return
        want = self.text_of(st, line)
        if ps != want and not (ps == () and self.it.known(st, ('lend', line, 4)) is True):
            viol(R3, 'the text of line %s is %s' % (lshow(ladd(line[2], ONE)), showpieces(ps)))

    # ------------------------------------------------------------ single digits
    def summary(self, r, ety):
        """parser of one byte into a fieldless enum: a table"""
        N = self.m.nom
        path = r['path']
        body = self.p.body(r['key'])
        state = {'table': None, 'busy': False}

        def table():
            line = ('idx', ('probe',), ZERO)
            st = State()
            st.facts[('b', ('complete', line))] = True
            st.facts[('b', ('lend', line, 0))] = False
            b = ('byte', line, 0)
            st.facts[('cs', b)] = U8
            ps = (('T', 'lrest', line, 0), ('L', b'\r\n'), ('T', 'rest', line_at(line, 1)))
            rest = (('T', 'lrest', line, 1),) + ps[1:]
            tab = {}
            kinds = set()
            for s, v in self.it.exec_fn(st, body, [cref(('s', ps))]):
                o = N.decode(s, v)
                wide = ('cs', ('wide', line, 0))
                if [k for k in s.facts if k not in st.facts and k != ('cs', b) and k != wide]:
                    return None
                if s.approx and (o[0] == 'ok' or set(s.approx) != {'unknown text'} or wide not in s.facts):
                    return None
                cs = s.facts[('cs', b)]
                if o[0] == 'ok':
                    x = self.look(s, o[2])
                    if o[1] != rest or x[0] != 'A' or x[3]:
                        return None
                    for l, h in cs:
                        for c in range(l, h + 1):
                            if tab.get(c, x[2]) != x[2]:
                                return None
                            tab[c] = x[2]
                else:
                    kinds.add(o[1])
            if len(kinds) > 1 or not tab:
                return None
            return tuple(sorted(tab.items())), (kinds or {'Error'}).pop()

        def f(st, c, args, dty):
            if state['busy']:
                return None
            if state['table'] is None:
                state['busy'] = True
                try:
                    state['table'] = table() or False
                except (Unsupported, Budget, Split):
                    state['table'] = False
                finally:
                    state['busy'] = False
            if state['table'] is False:
                return None
            tab, kind = state['table']
            ps0 = self.m.pieces(st, args[0])
            out = []

            def leaf(c):
                ps = N.unfold(c, ps0)
                if not ps or not nomlib.is_opaque(ps[0]) or ps[0][1] == 'rest' or N.ended(c, ps[0]):
                    return [(c, None)]
                p = ps[0]
                b = ('byte', p[2], p[3])
                if self.it.branch(c, ('ins', b, cs_of(*[x for x, _ in tab]))):
                    rest = (('T', p[1], p[2], p[3] + 1),) + ps[1:]
                    return [(c, ('ok', rest, ('S', ('tab', b, tab), ety)))]
                return [(c, N.bad(kind, 'Tag', ps0))]
            for s, o in self.m.trysplit(st, leaf):
                if o is None:
                    state['busy'] = True
                    try:
                        out.extend(self.it.exec_fn(s, body, list(args)))
                    finally:
                        state['busy'] = False
                else:
                    out.append((s, N.encode(s, o, dty)))
            return out
        return path, f

    def parse_roots(self):
        """functions turning a text into a reply; parsers of single digits are summarised as tables"""
        it = self.it
        resp = self.ty('response::Response')
        roots = []
        for r in self.p.roots:
            if r.get('kind') not in ('Fn', 'AssocFn') or len(r.get('inputs') or ()) != 1 or self.p.body(r['key']) is None:
                continue
            if self.T[self.it.strip_refs(r['inputs'][0])]['k'] != 'str':
                continue
            o = self.T[r['output']]
            if o.get('path') != 'core::result::Result':
                continue
            ok = self.T[o['args'][0]]
            if o['args'][0] == resp:
                roots.append((r, False))
            elif ok['k'] == 'tuple' and len(ok['fields']) == 2:
                t = self.T[ok['fields'][1]]
                if ok['fields'][1] == resp:
                    roots.append((r, True))
                elif t.get('kind') == 'enum' and all(not v['f'] for v in t['variants']):
                    k, f = self.summary(r, ok['fields'][1])
                    it.overrides[k] = f
        return roots

    def parse_mode(self):
        self.parsing = True
        self.it.delay = 3
        self.m.nom.unfolded = self.progress

    def an_parse(self):
        it = self.it
        self.parse_mode()
        roots = self.parse_roots()
        if not roots:
            raise Unsupported('no function parsing replies')
        for r, raw in roots:
            it.where = r['path']

            def go():
                st = State()
                st.mon['valid'] = ZERO
                for s, v in self.run(st, r['path'], [cref(('s', (('T', 'rest', LINE(ZERO)),)))]):
                    it.where = r['path']
                    for s2, good, x in self.result(s, v):
                        x = self.look(s2, x)
                        if good:
                            if raw:
                                self.outcome(s2, 'ok', self.m.pieces(s2, x[3][0]), x[3][1])
                            else:
                                self.outcome(s2, 'ok', None, x)
                        elif raw:
                            for s3, var, fs in self.cases(s2, x):
                                n = self.T[x[1]]['variants'][var]['n']
                                self.outcome(s3, 'incomplete' if n == 'Incomplete' else 'error', None, None)
                        else:
                            for s3, inc in self.kind_of_error(s2, x):
                                self.outcome(s3, 'incomplete' if inc else 'error', None, None)
            self.guard(go)

    def kind_of_error(self, st, x):
        """does the error of Response::from_str say that the reply is incomplete?"""
        out = []
        for s, var, fs in self.cases(st, x):
            n = self.T[x[1] if x[0] == 'A' else x[2]]['variants'][var]['n']
            inc = False
            if n == 'Parsing':
                for s2, v2, _ in self.cases(s, fs[0]):
                    inc = self.T[fs[0][1] if fs[0][0] == 'A' else fs[0][2]]['variants'][v2]['n'] == 'Complete'
                    out.append((s2, inc))
            else:
                self.violation(s, 'C18', R6, 'refusing a reply gives %s' % n)
        return out
