"""C21: the extensions recognised in an EHLO reply."""
from vals import *
from interp import *

R_SOUND = 'an extension is recognised only if a line of the reply names it'
R_FULL = 'every extension named by a line of the reply is recognised'
R_NAME = 'the server name is the first word of the first line'
R_NONE = 'only a reply without a first word is rejected'
R_ASK = 'support queries answer by membership in the recognised extensions'
R_EQ = 'extensions are told apart'

KEYWORDS = {'Pipelining': b'PIPELINING', 'EightBitMime': b'8BITMIME', 'SmtpUtfEight': b'SMTPUTF8', 'StartTls': b'STARTTLS'}
MECHS = {'Plain': b'PLAIN', 'Login': b'LOGIN', 'Xoauth2': b'XOAUTH2'}
SPLITS = ('words', 'awords')


class Ehlo:
    """mixed into Pure"""

    def an_ehlo(self):
        self.ehlo_target = None
        self.ehlo_setup()
        self.it.delay = 3
        self.ehlo_on = True
        for v in self.ehlo_all:
            self.guard(lambda: self.ehlo_sound(v))
            self.guard(lambda: self.ehlo_full(v))
        self.guard(self.ehlo_name)
        self.guard(self.ehlo_ask)
        self.guard(self.ehlo_equal)

    def ehlo_setup(self):
        self.EXT = self.ty('extension::Extension')
        self.MECH = self.ty('authentication::Mechanism')
        vs = self.T[self.EXT]['variants']
        ms = self.T[self.MECH]['variants']
        self.ehlo_all = []          # (value, keyword, mechanism name or None, label)
        for i, v in enumerate(vs):
            if v['n'] in KEYWORDS:
                self.ehlo_all.append((('A', self.EXT, i, ()), KEYWORDS[v['n']], None, KEYWORDS[v['n']].decode()))
            elif v['n'] == 'Authentication':
                for j, w in enumerate(ms):
                    if w['n'] in MECHS:
                        self.ehlo_all.append((('A', self.EXT, i, (('A', self.MECH, j, ()),)), b'AUTH', MECHS[w['n']], 'AUTH ' + MECHS[w['n']].decode()))
        if len(self.ehlo_all) != 7:
            raise Unsupported('extensions known: %d' % len(self.ehlo_all))

    def tracks(self, v):
        return v == self.ehlo_target

    ehlo_target = None
    ehlo_watch = False
    ehlo_on = False

    def ehlo_odd(self, k):
        """a fact about the named line other than which keywords its words are"""
        if self.mentions(k, ('arg', 'line')):
            return True
        for w in (('arg', 'w0'), ('arg', 'wj')):
            if self.mentions(k, w):
                t = k[1]
                if isinstance(t, tuple) and t[0] in ('upper', 'lower'):
                    t = t[1]
                if k[0] != 'str' or t != w:
                    return True
        return False

    def ehlo_keep(self, st, k):
        """facts about the first word of a line still in use"""
        if k[0] == 'str' and self.ehlo_watch:
            w = self.word_of(k[1])
            if w is None or w[2] != ZERO:
                return False
            if st.facts[k][0] != 'eq' or st.facts[k][1].upper() != self.ehlo_watch[1]:
                return False
            if any(v is not None and self.mentions(v, w[0]) for v in st.mem.values()):
                return True
            f = st.facts[k]
            if f[0] == 'eq':
                kw = f[1].upper()
                if kw == self.ehlo_watch[1] and not self.ehlo_watch[2]:
                    st.mon['heads'] = frozenset(st.mon.get('heads', ())) | {kw}
        return False

    def ehlo_other(self, st):
        return st.mon.get('other') or any(self.ehlo_odd(k) for k in st.facts)

    # ------------------------------------------------------------ soundness
    def word_of(self, t):
        """(line, split, index) of a word, whatever its letter case"""
        while isinstance(t, tuple) and t[0] in ('upper', 'lower'):
            t = t[1]
        if isinstance(t, tuple) and t[0] == 'idx' and isinstance(t[1], tuple) and t[1][0] in SPLITS:
            line = t[1][1]
            while isinstance(line, tuple) and line[0] in ('upper', 'lower'):
                line = line[1]
            return line, t[1][0], t[2]
        return None

    def is_line(self, t):
        return isinstance(t, tuple) and len(t) == 3 and t[0] == 'idx' and t[1] == self.ehlo_msg

    def other_view(self, st):
        """what is known about the lines of the reply goes beyond what their words are, and no words are found
        that would satisfy it without naming the extension"""
        _, kw, mech, _ = self.ehlo_watch
        words = {}
        for k, x in st.facts.items():
            if not self.mentions(k, self.ehlo_msg):
                continue
            t = k[1] if len(k) > 1 else None
            if k[0] == 'str' and self.word_of(t):
                words.setdefault(self.word_of(t), {}).setdefault(t, []).append(('str', x))
            elif k[0] == 'cs' and isinstance(t, tuple) and t[0] in ('idx', 'ch') and self.word_of(t[1]) and not t[2][2]:
                words.setdefault(self.word_of(t[1]), {}).setdefault(t[1], []).append((t[2][1], x))
            elif k[0] == 'b' and t[0] == 'contains' and x is True and not mech and isinstance(t[1], tuple) and t[1][0] == 'v' and len(t[1][1]) == 1 \
                    and t[1][1][0][0] == 'S' and t[1][1][0][1][0] in SPLITS and t[1][1][0][3] == ZERO:
                pass            # some later word may be it
            else:
                return True
        for w, forms in words.items():
            if len(forms) != 1:
                return True
            (t, known), = forms.items()
            if not self.model_word(st, t, known, kw, mech):
                return True
        return False

    def model_word(self, st, t, known, kw, mech):
        """is there a word that fits and is neither the keyword nor the mechanism?"""
        eq = [x[1] for k, x in known if k == 'str' and x[0] == 'eq']
        if eq:
            return len(known) == 1
        ne = {y for k, x in known if k == 'str' for y in x[1]}
        at = {k: x for k, x in known if k != 'str'}
        n = st.nums.get(('len', t))
        least = 1 if n is None else n[1]
        if n is not None and any(c < 0 for _, c in n[2]):
            return False
        for extra in range(4):
            if extra and n is not None and not any(c == 1 for _, c in n[2]):
                break
            k = max(least, max(at, default=0) + 1, 1) + extra
            if n is not None and not n[2] and k != n[1]:
                continue
            out = []
            for i in range(k):
                cs = at.get(i, ((88, 88),))
                g = [c for lo, hi in cs for c in range(max(lo, 33), min(hi, 126) + 1)][:1]
                out += g
            if len(out) < k:
                continue
            out = bytes(out)
            if out.upper() not in (kw, mech) and out not in ne:
                return True
        return False

    def on_insert(self, st, set_, v):
        if not self.ehlo_watch:
            return
        if isinstance(v, tuple) and v[0] == 'removed':
            if v[1] == 'clear':
                return
            st.mon['removed'] = 1
            return
        if not (isinstance(v, tuple) and v[0] == 'A' and v[1] == self.EXT):
            raise Unsupported('insertion of %s' % show(v)[:80])
        hit = [x for x in self.ehlo_all if x[0] == v]
        if not hit:
            raise Unsupported('insertion of %s' % show(v)[:80])
        if hit[0] != self.ehlo_watch:
            return
        _, kw, mech, label = hit[0]
        heads, rest = set(), {}
        for k, x in st.facts.items():
            if k[0] == 'str' and isinstance(x, tuple) and x[0] == 'eq':
                w = self.word_of(k[1])
                if w is None:
                    continue
                text = x[1].upper()
                if text == kw and w[2] == ZERO:
                    heads.add(w[:2])
                if mech and text == mech and w[2] != ZERO and self.it.cmp(st, 'eq', w[2], ZERO) is False:
                    rest.setdefault(w[:2], 1)
        if kw in st.mon.get('heads', ()):
            heads.add(None)
        ok = bool(heads) and (mech is None or any(h in heads for h in rest))
        s2 = st
        if not ok and self.other_view(st):
            s2 = st.copy()
            s2.inexact('lines are also examined otherwise')
        self.payload = ()
        self.require(s2, 'C21', R_SOUND, ok, lambda: 'recognises %s although no line of the reply is known to name it%s' % (label, self.ehlo_known(st)))

    def ehlo_known(self, st):
        l = ['%s = %s' % (show(k[1]), x[1].decode('latin1')) for k, x in st.facts.items() if k[0] == 'str' and isinstance(x, tuple) and x[0] == 'eq']
        return ' (known: %s)' % '; '.join(l)[:200] if l else ''

    def response(self, st, parts):
        """a reply with these lines"""
        b = self.fn('extension::ServerInfo::from_response')
        rty = self.T[b.locals[1]]['elem']
        t = self.T[rty]
        v = self.it.expand(st, self.arg('resp', rty))
        fs = list(v[3])
        n = 0
        for i, f in enumerate(t['variants'][0]['f']):
            if self.T[f['t']].get('path') == 'alloc::vec::Vec':
                fs[i] = ('v', tuple(parts))
                self.ehlo_lty = self.T[f['t']]['args'][0]
                n += 1
        if n != 1:
            raise Unsupported('shape of Response')
        return cref(('A', v[1], v[2], tuple(fs)))

    def line_ty(self):
        b = self.fn('extension::ServerInfo::from_response')
        rty = self.T[b.locals[1]]['elem']
        for f in self.T[rty]['variants'][0]['f']:
            if self.T[f['t']].get('path') == 'alloc::vec::Vec':
                return self.T[f['t']]['args'][0]
        raise Unsupported('shape of Response')

    def ehlo_sound(self, want):
        self.ehlo_watch = want
        mine = []
        self.ehlo_target = None
        st = State()
        term = ('arg', 'lines')
        self.ehlo_msg = term
        try:
            r = self.response(st, [('S', term, self.line_ty(), ZERO, self.it.num(st, ('len', term)))])
            mine = self.special(lambda s: [], None)
            self.run(st, 'extension::ServerInfo::from_response', [r])
        finally:
            for p in mine:
                self.it.overrides.pop(p, None)
            self.ehlo_watch = False

    # ------------------------------------------------------------ completeness
    def special(self, words, some):
        """splitting the line ('arg', 'line') yields these words"""
        it, m = self.it, self.m
        L = ('arg', 'line')
        paths = [c['path'] for c in (t.get('callee') for t in self.T) if c and c['path'] in
                 ('core::str::<impl str>::split_whitespace', 'core::str::<impl str>::split_ascii_whitespace')]
        tab = m.std

        def f(st, c, args, dty):
            ps = m.pieces(st, args[0])
            t = tab.text_term(st, ps)
            case = []
            while isinstance(t, tuple) and t[0] in ('upper', 'lower'):
                case.append(t[0])
                t = t[1]
            if t != L:
                # the words of any other line: arbitrary texts
                t = tab.text_term(st, ps)
                if self.mentions(t, L):
                    st.mon['other'] = 1
                nm = 'words' if c['name'] == 'split_whitespace' else 'awords'
                return [(st, ('it', 'seq', (('S', (nm, t), tab.strref(), ZERO, st.newp()),), False))]
            st.mon['split'] = 1
            out = []
            for w in words(st):
                if case and w[0] == 'e':
                    w = ('e', cref(tab.upper(st, w[1], case[0])))
                out.append(w)
            return [(st, ('it', 'seq', tuple(out), False))]
        for p in paths:
            it.overrides[p] = f

        def g(st, c, args, dty):
            # any other look at the line
            try:
                if any(self.mentions(x, L) for x in m.pieces(st, args[0])):
                    st.mon['other'] = 1
            except Unsupported:
                pass
        plain = ('is_empty', 'len', 'to_uppercase', 'to_lowercase', 'to_ascii_uppercase', 'to_ascii_lowercase', 'to_string', 'to_owned')
        more = {c['path'] for c in (t.get('callee') for t in self.T) if c and (c['path'].startswith('core::str::<impl str>::') or c['path'].startswith('alloc::str::<impl str>::'))
                and c['path'].rsplit('::', 1)[1] not in plain} - set(paths)
        for p in more:
            it.overrides[p] = g
        return paths + sorted(more)

    def text(self, term, n):
        return cref(('s', (('S', term, ZERO, n),)))

    def ehlo_full(self, want):
        value, kw, mech, label = want
        it = self.it
        sty = self.m.std.strref()
        lty = self.line_ty()
        P = 'extension::ServerInfo::from_response'
        self.ehlo_target = value
        for first in (True, False):
            st = State()

            def sym_text(term):
                n = it.num(st, ('len', term))
                n = ladd(n, ONE)
                st.nums[('len', term)] = n
                return n
            sym_text(('arg', 'line'))
            st.facts[('str', ('upper', ('arg', 'w0')))] = ('eq', kw)
            st.facts[('str', ('lower', ('arg', 'w0')))] = ('eq', kw.lower())
            st.nums[('len', ('arg', 'w0'))] = st.nums[('len', ('upper', ('arg', 'w0')))] = lin(len(kw))
            if mech:
                st.facts[('str', ('upper', ('arg', 'wj')))] = ('eq', mech)
                st.facts[('str', ('lower', ('arg', 'wj')))] = ('eq', mech.lower())
                st.nums[('len', ('arg', 'wj'))] = st.nums[('len', ('upper', ('arg', 'wj')))] = lin(len(mech))

            def words(s):
                out = [('e', self.text(('arg', 'w0'), s.nums[('len', ('arg', 'w0'))]))]

                def some(nm):
                    t = ('words', ('arg', nm))
                    return ('S', t, sty, ZERO, s.newp())
                if mech:
                    return out + [some('before'), ('e', self.text(('arg', 'wj'), s.nums[('len', ('arg', 'wj'))])), some('after')]
                return out + [some('after')]
            mine = self.special(words, None)
            try:
                post = ('arg', 'post')
                line = ('e', ('s', (('S', ('arg', 'line'), ZERO, st.nums[('len', ('arg', 'line'))]),)))
                parts = [line, ('S', post, lty, ZERO, st.newp())]
                if not first:
                    pre = ('arg', 'pre')
                    parts.insert(0, ('S', pre, lty, ZERO, st.newp()))
                for s, v in self.run(st, P, [self.response(st, parts)]):
                    for s2, ok, x in self.result(s, v):
                        it.where = P
                        self.payload = ()
                        if not ok:
                            if first:
                                if self.ehlo_other(s2):
                                    s2.inexact('lines are also examined otherwise')
                                self.require(s2, 'C21', R_NONE, False, lambda: 'an EHLO reply whose first line has words is rejected')
                            continue
                        sets = [self.look(s2, y) for y in (x[3] if x[0] == 'A' else ())]
                        sets = [y for y in sets if isinstance(y, tuple) and y[0] == 'hs']
                        got = len(sets) == 1 and value in sets[0][1]
                        if not got and self.ehlo_other(s2):
                            s2.inexact('lines are also examined otherwise')
                        if not got and len(sets) != 1:
                            s2.inexact('the set is not followed')
                        self.require(s2, 'C21', R_FULL, got, lambda: '%s is not recognised although a line names it' % label)
            finally:
                for p in mine:
                    it.overrides.pop(p, None)
        self.ehlo_target = None

    def mentions(self, k, t):
        return k == t or isinstance(k, tuple) and any(self.mentions(x, t) for x in k)

    # ------------------------------------------------------------ name
    def ehlo_name(self):
        it = self.it
        P = 'extension::ServerInfo::from_response'
        self.ehlo_target = None
        sty = self.m.std.strref()
        for case in ('none', 'empty', 'words'):
            st = State()
            n = it.num(st, ('len', ('arg', 'line')))
            w0 = ('arg', 'w0')
            if case == 'words':
                st.nums[('len', ('arg', 'line'))] = n = ladd(n, ONE)
                st.nums[('len', w0)] = ladd(it.num(st, ('len', w0)), ONE)

            def words(s):
                if case != 'words':
                    return []
                t = ('words', ('arg', 'after'))
                return [('e', self.text(w0, s.nums[('len', w0)])), ('S', t, sty, ZERO, it.num(s, ('len', t)))]
            mine = self.special(words, None)
            try:
                parts = [] if case == 'none' else [('e', ('s', (('S', ('arg', 'line'), ZERO, n),))),
                                                   ('S', ('arg', 'post'), self.line_ty(), ZERO, it.num(st, ('len', ('arg', 'post'))))]
                for s, v in self.run(st, P, [self.response(st, parts)]):
                    for s2, ok, x in self.result(s, v):
                        it.where = P
                        self.payload = ()
                        if case != 'none' and self.ehlo_other(s2):
                            s2.inexact('lines are also examined otherwise')
                        if case != 'words':
                            self.require(s2, 'C21', R_NAME, not ok, lambda: 'a reply without a first word (%s) is accepted as naming the server' % ('no line' if case == 'none' else 'blank first line'))
                            continue
                        self.require(s2, 'C21', R_NONE, ok, lambda: 'an EHLO reply whose first line has words is rejected')
                        if ok:
                            name = [self.look(s2, y) for y in x[3]]
                            name = [y for y in name if isinstance(y, tuple) and self.textual(y)]
                            self.require(s2, 'C21', R_NAME, len(name) == 1 and self.same(s2, name[0], self.text(w0, s2.nums[('len', w0)])),
                                         lambda: 'the server name is not the first word of the reply but %s' % (show(name[0]) if name else 'nothing'))
            finally:
                for p in mine:
                    it.overrides.pop(p, None)

    # ------------------------------------------------------------ queries
    def ehlo_ask(self):
        it = self.it
        for path, wrap in (('extension::ServerInfo::supports_feature', False), ('extension::ServerInfo::supports_auth_mechanism', True)):
            b = self.fn(path)
            auth = [i for i, v in enumerate(self.T[self.EXT]['variants']) if v['n'] == 'Authentication'][0]
            for i in range(len(self.T[b.locals[2]]['variants'])):
                ity = self.T[b.locals[1]]['elem']
                if not wrap and i == auth:
                    kws = [('A', self.EXT, i, (('A', self.MECH, j, ()),)) for j in range(len(self.T[self.MECH]['variants']))]
                else:
                    kws = [('A', b.locals[2], i, ())]
                for kw in kws:
                    st = State()
                    info = it.expand(st, self.arg('info', ity))
                    want = kw if not wrap else ('A', self.EXT, auth, (kw,))
                    sets = [x for x in info[3] if isinstance(x, tuple) and x[0] == 'S' and self.T[x[2]].get('path') == 'std::collections::hash::set::HashSet']
                    if len(sets) != 1:
                        raise Unsupported('shape of ServerInfo')
                    t = ('contains', sets[0], want)
                    for s, v in self.run(st, path, [cref(info), kw]):
                        for s2, val in self.truth(s, self.look(s, v)):
                            it.where = path
                            self.payload = ()
                            k = it.known(s2, t)
                            if k is None and any(self.mentions(f, sets[0][1]) and not (f[0] == 'b' and f[1][0] == 'contains' and f[1][1] == sets[0]) for f in s2.facts):
                                s2.inexact('the set is examined otherwise')
                            self.require(s2, 'C21', R_ASK, k is val, lambda: '%s answers %s for %s %s' % (
                                path, val, show(want), 'whatever the server offers' if k is None else 'although the opposite is the case'))

    def ehlo_equal(self):
        for tn in ('extension::Extension', 'authentication::Mechanism'):
            p = self.impl('core::cmp::PartialEq', tn, 'eq')
            if p is None:
                raise Unsupported('%s has no equality' % tn)
            ty = self.ty(tn)
            vals = []
            for i, v in enumerate(self.T[ty]['variants']):
                if v['f']:
                    vals += [('A', ty, i, (('A', self.MECH, j, ()),)) for j in range(len(self.T[self.MECH]['variants']))]
                else:
                    vals.append(('A', ty, i, ()))
            for a in vals:
                for b in vals:
                    for s, v in self.run(State(), p, [cref(a), cref(b)]):
                        for s2, val in self.truth(s, self.look(s, v)):
                            self.it.where = p
                            self.payload = ()
                            self.require(s2, 'C21', R_EQ, val is (a == b), lambda: '%s and %s compare as %s' % (show(a), show(b), 'equal' if val else 'different'))
