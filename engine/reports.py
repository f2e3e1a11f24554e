"""C33: what replies and errors tell the caller about the server's words."""
from vals import *
from interp import *

P = 'C33'
R_LINE = 'first_line is the text of the first line'
R_WORD = 'first_word is the first word of the first line'
R_TEXT = 'the text of a rejection error holds all lines of the reply, in order'
R_KEEP = 'a reply keeps the code and lines it was made of'
SEP = b'; '


class Reports:
    """mixed into Pure"""

    def an_reports(self):
        for f in (self.rep_line, self.rep_word, self.rep_text, self.rep_make):
            self.guard(f)

    def rep_response(self, st, parts):
        """(reply with these lines, type)"""
        rty = self.ty('response::Response')
        v = self.it.expand(st, self.arg('resp', rty))
        fs = list(v[3])
        idx = [i for i, f in enumerate(self.T[rty]['variants'][0]['f']) if self.T[f['t']].get('path') == 'alloc::vec::Vec']
        if len(idx) != 1:
            raise Unsupported('shape of Response')
        fs[idx[0]] = ('v', tuple(parts))
        return ('A', v[1], v[2], tuple(fs))

    def rep_lty(self):
        for f in self.T[self.ty('response::Response')]['variants'][0]['f']:
            if self.T[f['t']].get('path') == 'alloc::vec::Vec':
                return self.T[f['t']]['args'][0]
        raise Unsupported('shape of Response')

    def rep_line(self):
        p = 'response::Response::first_line'
        it = self.it
        for some in (False, True):
            st = State()
            lty = self.rep_lty()
            n = it.num(st, ('len', ('arg', 'line')))
            line = ('s', (('S', ('arg', 'line'), ZERO, n),))
            parts = [('e', line), ('S', ('arg', 'post'), lty, ZERO, it.num(st, ('len', ('arg', 'post'))))] if some else []
            for s, v in self.run(st, p, [cref(self.rep_response(st, parts))]):
                for s2, var, fs in self.cases(s, v):
                    it.where = p
                    self.payload = fs
                    ok = (var == 1) == some and (not some or self.same(s2, fs[0], line))
                    self.require(s2, P, R_LINE, ok, lambda: 'first_line of a reply %s is %s' % ('whose first line is any text' if some else 'without lines', show(fs[0])[:150] if var == 1 else 'None'))

    def rep_word(self):
        p = 'response::Response::first_word'
        it = self.it
        sty = self.m.std.strref()
        for case in ('none', 'blank', 'words'):
            st = State()
            n = it.num(st, ('len', ('arg', 'line')))
            w0 = ('arg', 'w0')
            if case == 'words':
                st.nums[('len', ('arg', 'line'))] = n = ladd(n, ONE)
                st.nums[('len', w0)] = ladd(it.num(st, ('len', w0)), ONE)

            def words(s):
                if case != 'words':
                    return []
                t = ('words', ('arg', 'after'))
                return [('e', self.text(w0, s.nums[('len', w0)])), ('S', t, sty, ZERO, it.num(s, ('len', t)))]
            mine = self.special(words, None)
            try:
                parts = [] if case == 'none' else [('e', ('s', (('S', ('arg', 'line'), ZERO, n),))),
                                                   ('S', ('arg', 'post'), self.rep_lty(), ZERO, it.num(st, ('len', ('arg', 'post'))))]
                for s, v in self.run(st, p, [cref(self.rep_response(st, parts))]):
                    for s2, var, fs in self.cases(s, v):
                        it.where = p
                        self.payload = fs
                        if case != 'none' and (self.ehlo_other(s2) or not s2.mon.get('split')) and not (var == 1 and self.same(s2, fs[0], parts[0][1])):
                            s2.inexact('lines are also examined otherwise')
                        if case == 'words':
                            self.require(s2, P, R_WORD, var == 1 and self.same(s2, fs[0], self.text(w0, s2.nums[('len', w0)])),
                                         lambda: 'first_word is %s instead of the first word of the first line' % (show(fs[0])[:150] if var == 1 else 'None'))
                        else:
                            self.require(s2, P, R_WORD, var == 0, lambda: 'first_word is %s for a reply %s' % (show(fs[0])[:150] if var == 1 else 'None', 'without lines' if case == 'none' else 'with a blank first line'))
            finally:
                for x in mine:
                    it.overrides.pop(x, None)

    # ------------------------------------------------------------ text of errors
    def rep_text(self):
        p = self.impl('core::fmt::Display', 'error::Error', 'fmt')
        if p is None:
            raise Unsupported('Error does not implement Display')
        it, m = self.it, self.m
        ety = self.ty('error::Error')
        lty = self.rep_lty()
        T = ('arg', 'lines')
        for name in ('Transient', 'Permanent'):
            vi = [i for i, v in enumerate(self.T[ety]['variants']) if v['n'] == name]
            if len(vi) != 1:
                raise Unsupported('shape of Error')
            st = State()
            n = it.num(st, ('len', T))
            lines = ('S', T, lty, ZERO, n)
            e = ('A', ety, vi[0], (self.rep_response(st, [lines]),))
            st.mon['seen'] = ZERO
            st.mon['sep'] = 1           # a line may start here

            def emit(s, ps):
                mon = s.mon
                for x in ps:
                    it.where = p
                    self.payload = (x,)
                    bad = None
                    if x[0] == 'S' and isinstance(x[1], tuple) and x[1][0] == 'join' and len(x[1]) == 3:
                        whole = self.rep_whole(s, x[1][1], T)
                        sep = self.rep_lit(s, x[1][2])
                        if not it_zero(mon['seen']) or whole is not True:
                            bad = 'the error text joins something else than the lines of the reply: %s' % show(x[1])[:150]
                        elif not sep:
                            bad = 'the lines of the reply run into one another'
                        mon['seen'] = it.num(s, ('len', T))
                        mon['sep'] = 0
                    elif x[0] == 'S' and isinstance(x[1], tuple) and x[1][0] == 'idx' and x[1][1] == T:
                        k = x[1][2]
                        while it.cmp(s, 'lt', mon['seen'], k) is True and it.cmp(s, 'eq', it.num(s, ('len', ('idx', T, mon['seen']))), ZERO) is True:
                            mon['seen'] = ladd(mon['seen'], ONE)     # empty lines are written with or without separators
                        if it.cmp(s, 'eq', k, mon['seen']) is not True:
                            bad = 'line %s of the reply is written where line %s is due' % (lshow(k), lshow(mon['seen']))
                        elif x[2] != ZERO or it.cmp(s, 'eq', x[3], it.num(s, ('len', x[1]))) is not True:
                            bad = 'a line of the reply is not written completely'
                        elif not mon['sep']:
                            bad = 'the lines of the reply run into one another'
                        mon['seen'] = ladd(k, ONE)
                        mon['sep'] = int(it.cmp(s, 'eq', x[3], ZERO) is True)
                    elif x[0] == 'L':
                        if x[1]:
                            mon['sep'] = 1
                    elif x[0] == 'S' and self.mentions(x[1], T) or x[0] == 'T' and self.mentions(x, T):
                        bad = 'the error text holds %s, not the lines of the reply' % showpieces((x,))[:150]
                        mon['seen'] = it.num(s, ('len', T))
                    self.require(s, P, R_TEXT, bad is None, bad)
            self.emit = emit
            try:
                st.mem[('m', 'fm')] = ('fm', ('sink', 'o'))
                for s, v in self.run(st, p, [cref(e), ('R', ('m', 'fm'), ())]):
                    for s2, ok, _ in self.result(s, v):
                        it.where = p
                        self.payload = ()
                        if ok:
                            self.require(s2, P, R_TEXT, it.cmp(s2, 'eq', s2.mon['seen'], it.num(s2, ('len', T))) is True,
                                         'the text of a %s error does not hold all lines of the reply' % name.lower())
                        else:
                            self.require(s2, P, R_TEXT, False, 'the text of a %s error cannot be written' % name.lower())
            finally:
                self.emit = None

    def rep_whole(self, s, v, term):
        try:
            ps = self.m.parts(s, v)
        except Unsupported:
            return None
        return len(ps) == 1 and ps[0][0] == 'S' and ps[0][1] == term and ps[0][3] == ZERO and self.it.cmp(s, 'eq', ps[0][4], self.it.num(s, ('len', term))) is True

    def rep_lit(self, s, v):
        try:
            ps = self.m.pieces(s, v)
            return self.m.is_lit(ps) and bool(self.m.lit_bytes(ps))
        except Unsupported:
            return None

    # ------------------------------------------------------------ constructor
    def rep_make(self):
        p = 'response::Response::new'
        b = self.fn(p)
        st = State()
        args = [('S', ('arg', 'a%d' % i), b.locals[i + 1]) for i in range(b.argc)]
        rty = self.ty('response::Response')
        for s, v in self.run(st, p, args):
            v = self.look(s, v)
            self.it.where = p
            self.payload = ()
            fs = v[3] if v[0] == 'A' else ()
            for a in args:
                i = [k for k, f in enumerate(self.T[rty]['variants'][0]['f']) if f['t'] == a[2]]
                if len(i) != 1:
                    raise Unsupported('shape of Response')
                self.require(s, P, R_KEEP, bool(fs) and self.rep_same(s, fs[i[0]], a), lambda: 'Response::new keeps %s' % show(fs[i[0]])[:150] if fs else '')


    def rep_same(self, s, v, want):
        """v equals want, perhaps as a vector rebuilt from its elements"""
        if self.same(s, v, want):
            return True
        it, m = self.it, self.m
        try:
            v, want = self.look(s, v), self.look(s, want)
            if v[0] != 'v' and want[0] != 'v':
                return False
            pos = ZERO
            for x in m.parts(s, v):
                if x[0] == 'e':
                    if not self.same(s, x[1], m.at(s, want, pos)):
                        return False
                    pos = ladd(pos, ONE)
                elif x[0] == 'G':
                    # the template is linear in its index: two elements decide all of them
                    if it.cmp(s, 'lt', ONE, x[2]) is not True:
                        raise Unsupported('elements')
                    for i in (0, 1):
                        e = map_lins(x[1], lambda l: lsubst(l, IDX, lin(i)))
                        if not self.same(s, e, m.at(s, want, ladd(pos, lin(i)))):
                            return False
                    pos = ladd(pos, x[2])
                elif x[0] == 'S' and want[0] == 'S' and x[1] == want[1] and it.cmp(s, 'eq', x[3], pos) is True:
                    pos = x[4]
                else:
                    return False
            return it.cmp(s, 'eq', pos, m.seq_len(s, want)) is True
        except Unsupported:
            s.inexact('unknown call')
            return False


def it_zero(l):
    return l == ZERO
