"""Models of the library functions the crate calls (core, alloc, std, log, base64, futures,
tokio / async-std I/O).  Everything else external is an uninterpreted function of its arguments."""
import re
from vals import *
from interp import Split, Infeasible, Unsupported, walk, LoopHead, Budget, map_lins, dedupe, State

OK, ERR = 0, 1
NONE, SOME = 0, 1

_gen = re.compile(r'::<[^<>]*>(?=::|$)')


def norm(p):
    # drop generic argument segments such as Vec::<T, A>::push
    if '::<impl ' in p or p.startswith('<'):
        return p
    q = None
    while q != p:
        q = p
        p = _gen.sub('', p)
    return p


def unit():
    return ('A', 't', 0, ())


# library functions that panic for some arguments
PANICKY = frozenset('''remove insert split_at split_at_mut swap copy_from_slice clone_from_slice copy_within drain split_off swap_remove
chunks chunks_exact rchunks windows step_by replace_range rotate_left rotate_right fill truncate insert_str split_to
unwrap expect unwrap_err expect_err index index_mut from_digit is_digit to_digit copy_to_slice advance repeat div rem pow abs neg shl shr
sub add mul unwrap_failed block_on sum product'''.split())


class Models:
    def __init__(self, it):
        self.it = it
        self.T = it.T
        self.p = it.p
        self.cache = {}
        self.loopctr = 0
        import stdlib
        self.table, self.patterns = stdlib.build(self)

    # ------------------------------------------------------------ lookup
    def lookup(self, c):
        k = (c['path'], c.get('rpath'), c.get('inst'))
        r = self.cache.get(k, 0)
        if r != 0:
            return r
        r = None
        for n in (c.get('inst'), c.get('rpath'), c['path']):
            if n is None:
                continue
            r = self.table.get(n) or self.table.get(norm(n))
            if r is not None:
                break
            for pat, f in self.patterns:
                if pat.search(n):
                    r = f
                    break
            if r is not None:
                break
        self.cache[k] = r
        return r

    # ------------------------------------------------------------ constructors
    def mk(self, ty, variant, *fs):
        return ('A', ty, variant, tuple(fs))

    def targ(self, ty, i):
        return self.T[ty]['args'][i]

    def some(self, ty, v):
        return ('A', ty, SOME, (v,))

    def none(self, ty):
        return ('A', ty, NONE, ())

    def ok(self, ty, v):
        return ('A', ty, OK, (v,))

    def err(self, ty, v):
        return ('A', ty, ERR, (v,))

    # ------------------------------------------------------------ text
    def text_len_term(self, st, term):
        return self.it.num(st, ('len', term))

    def pieces(self, st, v):
        """pieces of a text value (any reference to it)"""
        v = self.it.deref_all(st, v)
        if isinstance(v, tuple):
            if v[0] == 's':
                return v[1]
            if v[0] == 'S':
                f = st.facts.get(('str', v[1]))
                if f is not None and f[0] == 'eq':
                    return (('L', f[1]),) if f[1] else ()
                n = self.text_len_term(st, v[1])
                if n == ZERO:
                    return ()
                return (('S', v[1], ZERO, n),)
            if v[0] == 'A' and v[1] != 't':
                p = self.T[v[1]].get('path')
                if p == 'alloc::borrow::Cow':
                    return self.pieces(st, v[3][0])
            if v[0] == 'v':
                out = ()
                for e in v[1]:
                    if e[0] == 'e':
                        out = pieces_cat(out, [self.char_piece(st, e[1])])
                    elif e[0] == 'S':
                        out = pieces_cat(out, [('S', e[1], e[3], e[4])])
                    else:
                        raise Unsupported('bytes of %s' % show(v)[:60])
                return out
        raise Unsupported('text of %s' % show(v)[:80])

    def plen(self, st, p):
        if p[0] == 'L':
            return lin(len(p[1]))
        if p[0] == 'S':
            return lsub(p[3], p[2])
        if p[0] == 'C':
            return lin(1)
        if p[:2] == ('T', 'part'):
            return lsub(p[4], p[3])
        if p[0] == 'T' and p[1] in ('rest', 'lrest', 'tail'):
            st.inexact('unknown text')
        return self.it.num(st, ('len', p))

    def text_len(self, st, v):
        n = ZERO
        for p in self.pieces(st, v):
            n = ladd(n, self.plen(st, p))
        return n

    def char_term(self, v):
        """term a symbolic char/u8 value is a value of"""
        return v[1]

    def char_piece(self, st, v):
        if isinstance(v, int):
            return ('L', chr(v).encode('utf8')) if v > 255 else ('L', bytes([v]))
        if v[0] == 'S':
            t = v[1]
            cs = self.it.charset(st, t)
            if cs_size(cs) == 1 and (t[0] != 'idx' or self.it.hooks is None or self.it.hooks.by_value(st, t)):
                return ('L', chr(cs[0][0]).encode('utf8') if t[0] == 'ch' else bytes([cs[0][0]]))
            if t[0] == 'idx':
                return ('S', t[1], t[2], ladd(t[2], ONE))
            if t[0] == 'ch' and cs[-1][1] < 128:
                return ('S', t[1], t[2], ladd(t[2], ONE))
            return ('T', 'char', v)
        raise Unsupported('char %s' % show(v)[:50])

    def is_lit(self, ps):
        return len(ps) == 0 or (len(ps) == 1 and ps[0][0] == 'L')

    def lit_bytes(self, ps):
        return ps[0][1] if ps else b''

    def slice_pieces(self, st, ps, lo, hi):
        """sub-range of a text; None if the cut points fall inside something opaque"""
        it = self.it
        out = []
        pos = ZERO
        for p in ps:
            n = self.plen(st, p)
            end = ladd(pos, n)
            # [pos, end) against [lo, hi)
            if pos == hi or it.cmp(st, 'lt', pos, hi) is False:
                break
            if end != hi and it.cmp(st, 'lt', hi, end) is None and it.cmp(st, 'lt', end, hi) is None:
                pass
            a = self._max(st, lo, pos)
            b = self._min(st, hi, end)
            if a is None or b is None:
                return None
            r = it.cmp(st, 'lt', a, b)
            if r is True or (r is None and p[0] == 'S'):
                a2, b2 = lsub(a, pos), lsub(b, pos)
                if p[0] == 'L':
                    if a2[2] or b2[2]:
                        out.append(('T', 'part', p, a2, b2))
                    else:
                        out.append(('L', p[1][a2[1]:b2[1]]))
                elif p[0] == 'S':
                    out.append(('S', p[1], ladd(p[2], a2), ladd(p[2], b2)))
                elif a == pos and b == end:
                    out.append(p)
                else:
                    out.append(('T', 'part', p, a2, b2))
            pos = end
        return pieces_cat((), out)

    def _max(self, st, a, b):
        if a == b:
            return a
        r = self.it.cmp(st, 'lt', a, b)
        if r is True:
            return b
        if r is False:
            return a
        d = lsub(b, a)
        if lmin(d) == 0:
            return b
        if lmax(d) == 0:
            return a
        return None

    def _min(self, st, a, b):
        m = self._max(st, a, b)
        if m is None:
            return None
        return b if m == a else a

    # ------------------------------------------------------------ sequences (non-text)
    def parts(self, st, v):
        v = self.it.deref_all(st, v)
        if v[0] == 'v':
            return v[1]
        if v[0] == 'S':
            t = self.T[v[2]]
            if t['k'] in ('slice', 'array'):
                e = t['elem']
            elif t['k'] == 'adt' and t.get('args'):
                e = t['args'][0]
            else:
                raise Unsupported('elements of %s' % show(v)[:60])
            n = lin(t['len']) if 'len' in t and t['k'] == 'array' else self.it.num(st, ('len', v[1]))
            if n == ZERO:
                return ()
            return (('S', v[1], e, ZERO, n),)
        if v[0] == 's':
            out = []
            for p in v[1]:
                if p[0] == 'L':
                    out.extend(('e', b) for b in p[1])
                elif p[0] == 'S':
                    out.append(('S', p[1], self.p.tyname['u8'], p[2], p[3]))
                else:
                    raise Unsupported('bytes of %s' % show(v)[:60])
            return tuple(out)
        if v[0] == 'A' and v[1] != 't' and self.T[v[1]].get('path', '').endswith('Option'):
            return tuple(('e', x) for x in v[3])
        raise Unsupported('elements of %s' % show(v)[:60])

    def part_len(self, p):
        if p[0] == 'e':
            return ONE
        if p[0] == 'S':
            return lsub(p[4], p[3])
        if p[0] == 'M':
            return self.part_len(p[1])
        if p[0] == 'G':
            return p[2]
        raise Unsupported('part')

    def seq_len(self, st, v):
        v = self.it.deref_all(st, v)
        if v[0] == 's' or (v[0] == 'S' and self.it.is_text(v[2])):
            return self.text_len(st, v)
        n = ZERO
        for p in self.parts(st, v):
            n = ladd(n, self.part_len(p))
        return n

    def elem(self, st, part, i):
        """element i (absolute for 'S' parts, relative otherwise) of a part"""
        if part[0] == 'e':
            return part[1]
        if part[0] == 'S':
            return self.it.sym(st, ('idx', part[1], i), part[2])
        if part[0] == 'G':
            return map_lins(part[1], lambda l: lsubst(l, IDX, i))
        raise Unsupported('element')

    def seq_get(self, st, v, i):
        """element i of a sequence value (i known to be in range)"""
        pos = ZERO
        for p in self.parts(st, v):
            n = self.part_len(p)
            end = ladd(pos, n)
            r = self.it.cmp(st, 'lt', i, end)
            if r is None:
                raise Split([lambda s: self.it.assume(s, ('lt', i, end), True), lambda s: self.it.assume(s, ('lt', i, end), False)], 'position', st)
            if r:
                rel = lsub(i, pos)
                if p[0] == 'S':
                    rel = ladd(p[3], rel)
                return self.elem(st, p, rel)
            pos = end
        raise Infeasible()

    def push(self, v, x):
        """sequence with one more element; runs of similar elements are generalised"""
        ps = list(v[1])
        if ps and ps[-1][0] == 'G':
            g = ps[-1]
            nxt = map_lins(g[1], lambda l: lsubst(l, IDX, g[2]))
            if nxt == x:
                ps[-1] = ('G', g[1], ladd(g[2], ONE))
                return ('v', tuple(ps))
        if ps and ps[-1][0] == 'e' and isinstance(x, tuple):
            a = ps[-1][1]
            s1, l1, n1 = walk(a) if isinstance(a, tuple) else (a, (), ())
            s2, l2, n2 = walk(x)
            if s1 == s2 and n1 == n2 and l1 and l1 != l2:
                ds = [lsub(q, p) for p, q in zip(l1, l2)]
                if all(not d[2] for d in ds) and any(d[1] for d in ds):
                    itr = iter(zip(l1, ds))

                    def f(_):
                        p, d = next(itr)
                        return ladd(p, ('#', 0, ((IDX, d[1]),) if d[1] else ()))
                    ps[-1] = ('G', map_lins(a, f), lin(2))
                    return ('v', tuple(ps))
        ps.append(('e', x))
        return ('v', tuple(ps))

    # ------------------------------------------------------------ place projections
    def index(self, st, v, e):
        it = self.it
        if e[0] == 'i':
            i = as_lin(e[1])
            return self.at(st, v, i)
        if e[0] == 'ci':
            off = lin(e[1])
            if e[3]:
                off = lsub(self.seq_len(st, v), lin(e[1]))
            return self.at(st, v, off)
        if e[0] == 'ss':
            lo = lin(e[1])
            hi = lsub(self.seq_len(st, v), lin(e[2])) if e[3] else lin(e[2])
            return self.subseq(st, v, lo, hi)

    def at(self, st, v, i):
        v = self.it.deref_all(st, v) if v[0] in ('R',) else v
        if v[0] == 's' or (v[0] == 'S' and self.it.is_text(v[2])):
            return self.byte_at(st, self.pieces(st, v), i)
        return self.seq_get(st, v, i)

    def byte_at(self, st, ps, i):
        pos = ZERO
        u8 = self.p.tyname['u8']
        for p in ps:
            end = ladd(pos, self.plen(st, p))
            r = self.it.cmp(st, 'lt', i, end)
            if r is None:
                raise Split([lambda s: self.it.assume(s, ('lt', i, end), True), lambda s: self.it.assume(s, ('lt', i, end), False)], 'position', st)
            if r:
                rel = lsub(i, pos)
                if p[0] == 'L':
                    if rel[2]:
                        return ('S', ('idx', ('lit', p[1]), rel), u8)
                    return p[1][rel[1]]
                if p[0] == 'S':
                    return self.byte(st, p[1], ladd(p[2], rel))
                return ('S', ('idx', p, rel), u8)
            pos = end
        raise Infeasible()

    def byte(self, st, term, i):
        if self.it.hooks is not None:
            self.it.hooks.on_byte(st, term, i)
        return ('S', ('idx', term, i), self.p.tyname['u8'])

    def subseq(self, st, v, lo, hi):
        v = self.it.deref_all(st, v)
        if v[0] == 's' or (v[0] == 'S' and self.it.is_text(v[2])):
            r = self.slice_pieces(st, self.pieces(st, v), lo, hi)
            if r is None:
                ps = self.pieces(st, v)
                if len(ps) == 1 and ps[0][:2] == ('T', 'part'):
                    q = ps[0]
                    return ('s', (('T', 'part', q[2], ladd(q[3], lo), ladd(q[3], hi)),))
                return ('s', (('T', 'part', ('s', ps), lo, hi),))
            return ('s', r)
        out = []
        pos = ZERO
        for p in self.parts(st, v):
            n = self.part_len(p)
            end = ladd(pos, n)
            a, b = self._max(st, lo, pos), self._min(st, hi, end)
            if a is None:
                raise Split([lambda s: self.it.assume(s, ('lt', lo, pos), True), lambda s: self.it.assume(s, ('lt', lo, pos), False)], 'subslice', st)
            if b is None:
                raise Split([lambda s: self.it.assume(s, ('lt', hi, end), True), lambda s: self.it.assume(s, ('lt', hi, end), False)], 'subslice', st)
            if self.it.cmp(st, 'lt', a, b) is not False:
                if p[0] == 'e':
                    out.append(p)
                elif p[0] == 'S':
                    out.append(('S', p[1], p[2], ladd(p[3], lsub(a, pos)), ladd(p[3], lsub(b, pos))))
                elif a == pos and b == end:
                    out.append(p)
                elif p[0] == 'G':
                    k = lsub(a, pos)
                    out.append(('G', map_lins(p[1], lambda l: lsubst(l, IDX, ladd(('#', 0, ((IDX, 1),)), k))), lsub(b, a)))
                elif p[0] == 'M':
                    q = p[1]
                    k = lsub(a, pos)
                    out.append(('M', ('S', q[1], q[2], ladd(q[3], k), ladd(q[3], lsub(b, pos))), p[2]))
                else:
                    raise Unsupported('subslice of generated elements')
            pos = end
        return ('v', tuple(out))

    def set_index(self, st, v, e, rest, new):
        it = self.it
        i = as_lin(e[1])
        if v[0] == 's':
            ps = v[1]
            if self.is_lit(ps) and not i[2] and isinstance(new, int) and not rest:
                b = bytearray(self.lit_bytes(ps))
                b[i[1]] = new
                return lit(bytes(b))
            st.note('write into text at unknown position')
            return ('s', (('T', 'overwritten', v, i, new),))
        if v[0] == 'v' and not i[2] and all(p[0] == 'e' for p in v[1]):
            ps = list(v[1])
            ps[i[1]] = ('e', it.setp(st, ps[i[1]][1], rest, new))
            return ('v', tuple(ps))
        st.note('write into collection at unknown position')
        return ('S', ('overwritten', st.fresh()), self.p.tyname.get('()', 0)) if v[0] != 'S' else ('S', ('overwritten', st.fresh()), v[2])

    def field(self, st, v, e):
        if v[0] == 'R' or v[0] == 'B':
            return v
        if v[0] == 'mu':
            return v
        return None

    def set_field(self, st, v, e, path, new):
        if v is None:
            return None
        if v[0] == 'mu':
            # MaybeUninit / ManuallyDrop wrappers: transparent
            rest = [x for x in path if x[0] != 'f']
            return ('mu', new) if not rest else None
        return None

    # ------------------------------------------------------------ operators
    def binop(self, st, op, a, b, dty):
        it = self.it
        B = it.bterm
        if isinstance(a, tuple) and a[0] == 'R' or isinstance(b, tuple) and b[0] == 'R':
            if op in ('Eq', 'Ne'):
                r = (a == b)
                return r if op == 'Eq' else not r
        chk = op.endswith('WithOverflow')
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            t = self.T[dty]
            if t['k'] == 'tuple':
                t = self.T[t['fields'][0]]
            r, ov = self.arith(st, base, a, b, t)
            if chk:
                return ('A', 't', 0, (r, ov))
            return r
        if base in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne', 'Cmp'):
            if base == 'Ne':
                r = self.binop(st, 'Eq', a, b, dty)
                return self.neg(r)
            if base == 'Gt':
                return self.binop(st, 'Lt', b, a, dty)
            if base == 'Ge':
                return self.binop(st, 'Le', b, a, dty)
            if base == 'Cmp':
                raise Unsupported('three way comparison')
            ai, bi = isinstance(a, int), isinstance(b, int)
            if ai and bi:
                return {'Lt': a < b, 'Le': a <= b, 'Eq': a == b}[base]
            al = isinstance(a, tuple) and a[0] == '#'
            bl = isinstance(b, tuple) and b[0] == '#'
            if (al or ai) and (bl or bi):
                a, b = as_lin(a), as_lin(b)
                if base == 'Le':
                    r = self.binop(st, 'Lt', b, a, dty)
                    return self.neg(r)
                r = it.cmp(st, base.lower(), a, b)
                if r is None:
                    r = self.char_cmp(st, base, a, b)
                return r if r is not None else B((base.lower(), a, b))
            # one side symbolic small
            if isinstance(a, tuple) and a[0] == 'S' and (bi or bl):
                return self.sym_cmp(st, base, a, b, False)
            if isinstance(b, tuple) and b[0] == 'S' and (ai or al):
                return self.sym_cmp(st, base, b, a, True)
            if base == 'Eq' and a == b:
                return True
            if all(isinstance(x, tuple) and x[0] == 'S' and x[1][0] == 'discr' for x in (a, b)):
                p, q = a[1][1], b[1][1]
                if base == 'Eq' and p[0] == q[0] == 'tab' and p[2] == q[2]:
                    # with a one-to-one table: equal exactly if the two bytes are
                    t = ('tabeq' if len({v for _, v in p[2]}) == len(p[2]) else 'tabsame',) + tuple(sorted((p, q), key=repr))
                    r = it.known(st, t)
                    return r if r is not None else B(t)
                x, y = (self.T[v[1][2]]['variants'][it.variant(st, ('S', v[1][1], v[1][2]))]['d'] for v in (a, b))
                return self._c(base, x, y, False)
            return B((base.lower(), a, b) if base != 'Eq' else ('veq2', a, b))
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if isinstance(a, bool) and isinstance(b, bool):
                return {'BitAnd': a and b, 'BitOr': a or b, 'BitXor': a != b}[base]
            if isinstance(a, bool) or isinstance(b, bool):
                k, x = (a, b) if isinstance(a, bool) else (b, a)
                if base == 'BitAnd':
                    return x if k else False
                if base == 'BitOr':
                    return True if k else x
                return self.neg(x) if k else x
            if isinstance(a, int) and isinstance(b, int):
                return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
            if self.T[dty]['k'] == 'bool':
                # decide both operands, one after the other
                x = it.decide(st, a)
                y = it.decide(st, b)
                return {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[base]
        if base in ('Div', 'Rem', 'Shl', 'Shr'):
            if isinstance(a, tuple) and a[0] == '#' and not a[2] and b[0] == '#' and not b[2] and b[1]:
                x, y = a[1], b[1]
                return lin({'Div': x // y, 'Rem': x % y, 'Shl': x << y, 'Shr': x >> y}[base])
            if isinstance(a, int) and isinstance(b, int):
                return {'Div': a // b if b else 0, 'Rem': a % b if b else 0, 'Shl': a << b, 'Shr': a >> b}[base]
            if isinstance(a, int) and isinstance(b, tuple) and b[0] == '#' and not b[2]:
                return {'Shl': a << b[1], 'Shr': a >> b[1]}.get(base, 0)
        if base == 'Offset':
            raise Unsupported('pointer arithmetic')
        return it.sym(st, ('op', base, a, b), dty)

    def neg(self, r):
        if isinstance(r, bool):
            return not r
        if r[1][0] == 'not':
            return ('S', r[1][1], r[2])
        return ('S', ('not', r[1]), r[2])

    def sym_cmp(self, st, base, s, n, swapped):
        """comparison of an unknown small value with a constant"""
        it = self.it
        B = it.bterm
        term, ty = s[1], s[2]
        if isinstance(n, tuple):
            if n[2]:
                return B(('cmpsym', base, s, n, swapped))
            n = n[1]
        if term[0] == 'discr':
            vs = self.T[term[2]]['variants']
            poss = st.facts.get(('var', term[1]))
            if poss is None:
                poss = self.p.variants_possible(term[2])
            t = {i for i in poss if self._c(base, vs[i]['d'], n, swapped)}
            if len(t) == len(poss):
                return True
            if not t:
                return False
            if len(t) == 1:
                return B(('deq', term[1], next(iter(t)), term[2]))
            if len(t) == len(poss) - 1:
                return B(('not', ('deq', term[1], next(iter(poss - t)), term[2])))
            self.it.variant(st, ('S', term[1], term[2]))
        if term[0] in ('op', 'cast'):
            r = self.digits_cmp(st, base, s, n, swapped)
            if r is None:
                r = self.char_cmp(st, base, *((n, s) if swapped else (s, n)))
            if r is not None:
                return r
        k = self.T[ty]
        from interp import RANGE
        if k['k'] == 'char' or k.get('name') in RANGE:
            if k['k'] == 'char':
                top = CHAR
            elif term[0] in ('idx', 'ch'):
                top = U8
            else:
                top = (RANGE[k['name']],)
                if ('cs', term) not in st.facts:
                    st.facts[('cs', term)] = (self.interval(st, s),)
            if base == 'Eq':
                rs = ((n, n),)
            elif base == 'Lt':
                rs = ((0, n - 1),) if not swapped else ((n + 1, top[-1][1]),)
            else:
                rs = ((0, n),) if not swapped else ((n, top[-1][1]),)
            t = ('ins', term, cs_inter(cs_norm(rs), top))
            r = it.known(st, t)
            return r if r is not None else B(t)
        if k['k'] == 'bool' and base == 'Eq':
            return s if n else self.neg(s)
        t = ('cmpsym', base, s, n, swapped)
        return B(t)

    def digit_leaves(self, v, out):
        """the enum values a number is computed from; False: from something else too"""
        if isinstance(v, int):
            return True
        if v[0] == '#':
            return not v[2]
        if v[0] != 'S':
            return False
        t = v[1]
        if t[0] == 'discr':
            out[t[1]] = t[2]
            return True
        if t[0] == 'cast' and len(t) == 3:
            return self.digit_leaves(t[2], out)
        if t[0] == 'op' and len(t) == 4 and t[1] in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            return self.digit_leaves(t[2], out) and self.digit_leaves(t[3], out)
        return False

    # ---- numbers computed from a single character or byte
    def char_expr(self, st, v, leaf, inv, depth=0):
        """Python expression, over the code `x` of the character named in leaf, of a number computed from it"""
        if isinstance(v, bool) or depth > 12:
            return None
        if isinstance(v, int):
            return str(v)
        if not isinstance(v, tuple):
            return None
        if v[0] == '#':
            out = [str(v[1])]
            for i, c in v[2]:
                if not inv:
                    inv[None] = None
                    for k, n in st.nums.items():
                        if isinstance(k, tuple) and k and k[0] in ('code', 'op', 'cast') and isinstance(n, tuple) and n[0] == '#' and n[1] == 0 and len(n[2]) == 1 and n[2][0][1] == 1:
                            inv[n[2][0][0]] = k
                k = inv.get(i)
                e = None if k is None else self.char_part(st, k, None, leaf, inv, depth + 1)
                if e is None:
                    return None
                out.append('%d*%s' % (c, e))
            return '(' + '+'.join(out) + ')'
        if v[0] == 'S':
            return self.char_part(st, v[1], v[2], leaf, inv, depth + 1)
        return None

    def char_part(self, st, t, ty, leaf, inv, depth):
        from interp import RANGE
        if t[0] == 'code':
            t = t[1]
        if t[0] in ('ch', 'idx'):
            if t[0] == 'idx' and ty is not None and self.T[ty].get('name') not in (None, 'u8'):
                return None
            if leaf.setdefault('t', t) != t:
                return None
            return 'x'
        if t[0] == 'cast':
            e = self.char_expr(st, t[-1], leaf, inv, depth)
            nm = self.T[ty].get('name') if ty is not None else t[1] if len(t) == 3 else None
            if e is None or nm is None:
                return None
            if nm in RANGE:
                lo, hi = RANGE[nm]
                return '((%s-%d)%%%d+%d)' % (e, lo, hi - lo + 1, lo)
            return e if nm in ('u32', 'u64', 'usize', 'u128') else None
        if t[0] == 'op' and len(t) == 4:
            a, b = (self.char_expr(st, y, leaf, inv, depth) for y in t[2:])
            o = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Div': '//', 'Rem': '%', 'BitAnd': '&', 'BitOr': '|', 'BitXor': '^', 'Shr': '>>', 'Shl': '<<'}.get(t[1])
            if a is None or b is None or o is None:
                return None
            if t[1] in ('Div', 'Rem', 'Shr', 'Shl') and (not b.isdigit() and not (b[0] == '(' and b[1:-1].isdigit()) or int(b.strip('()')) == 0 and t[1] in ('Div', 'Rem') or int(b.strip('()')) > 31):
                return None
            e = '(%s%s%s)' % (a, o, b)
            nm = self.T[ty].get('name') if ty is not None else None
            if nm in RANGE:
                lo, hi = RANGE[nm]
                return '((%s-%d)%%%d+%d)' % (e, lo, hi - lo + 1, lo)
            return None if t[1] in ('Shl', 'Sub') else e
        return None

    def char_cmp(self, st, base, a, b):
        """such a number compared: a statement about the character"""
        leaf, inv = {}, {}
        x, y = self.char_expr(st, a, leaf, inv), self.char_expr(st, b, leaf, inv)
        if x is None or y is None or 't' not in leaf:
            return None
        term = leaf['t']
        top = U8 if term[0] == 'idx' else CHAR
        key = (x, y, base, top)
        cs = self.char_sets.get(key)
        if cs is None:
            f = eval('lambda x: %s %s %s' % (x, {'Lt': '<', 'Le': '<=', 'Eq': '=='}[base], y))
            out = []
            for lo, hi in top:
                on = None
                for c in range(lo, hi + 1):
                    if f(c):
                        if on is None:
                            on = c
                    elif on is not None:
                        out.append((on, c - 1))
                        on = None
                if on is not None:
                    out.append((on, hi))
            cs = self.char_sets[key] = cs_norm(tuple(out))
        if not cs:
            return False
        t = ('ins', term, cs)
        r = self.it.known(st, t)
        return r if r is not None else self.it.bterm(t)

    char_sets = {}

    def digit_value(self, v, env):
        if isinstance(v, int):
            return int(v)
        if v[0] == '#':
            return v[1]
        t = v[1]
        if t[0] == 'discr':
            r = self.T[t[2]]['variants'][env[t[1]]]['d']
        elif t[0] == 'cast':
            r = self.digit_value(t[2], env)
        else:
            x, y = self.digit_value(t[2], env), self.digit_value(t[3], env)
            if t[1] in ('Div', 'Rem') and (y <= 0 or x < 0):
                raise Unsupported('division')
            r = {'Add': x + y, 'Sub': x - y, 'Mul': x * y}[t[1]] if t[1] in ('Add', 'Sub', 'Mul') else x // y if t[1] == 'Div' else x % y
        from interp import RANGE
        rg = RANGE.get(self.T[v[2]].get('name'))
        if rg:
            lo, hi = rg
            r = (r - lo) % (hi - lo + 1) + lo
        return r

    def digits_cmp(self, st, base, s, n, swapped):
        """a number computed from enum values, compared with a constant"""
        out = {}
        if not self.digit_leaves(s, out) or not out:
            return None
        poss = {}
        for t, ty in out.items():
            vs = st.facts.get(('var', t))
            if vs is None:
                vs = self.p.variants_possible(ty)
            if vs is None:
                return None
            poss[t] = sorted(vs)
        k = 1
        for vs in poss.values():
            k *= len(vs)
        if k > 20000:
            return None
        names = list(poss)
        import itertools
        truth = {}
        for combo in itertools.product(*(poss[t] for t in names)):
            truth[combo] = self._c(base, self.digit_value(s, dict(zip(names, combo))), n, swapped)
        rs = set(truth.values())
        if len(rs) == 1:
            return rs.pop()
        for i, t in enumerate(names):
            if len(poss[t]) == 1:
                continue
            groups = {True: [], False: [], None: []}
            for x in poss[t]:
                g = {r for c, r in truth.items() if c[i] == x}
                groups[g.pop() if len(g) == 1 else None].append(x)
            alts = [g for g in (groups[True], groups[False]) if g] + [[x] for x in groups[None]]
            if len(alts) > 1:
                from interp import Split
                it = self.it

                def mk(xs):
                    def f(q):
                        old = q.facts.get(('var', t))
                        new = frozenset(xs) if old is None else old & frozenset(xs)
                        if not new:
                            return False
                        from interp import has_unknown
                        if has_unknown(t):
                            q.inexact('unknown call')
                        return it.set_var(q, t, new)
                    return f
                raise Split([mk(xs) for xs in alts], 'digits', st)
        return None

    @staticmethod
    def _c(base, x, n, swapped):
        if swapped:
            x, n = n, x
        return {'Eq': x == n, 'Lt': x < n, 'Le': x <= n}[base]

    def arith(self, st, op, a, b, t):
        it = self.it
        if isinstance(a, int) and isinstance(b, int):
            r = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[op]
            from interp import RANGE
            lo, hi = RANGE.get(t.get('name'), (-(1 << 127), 1 << 128))
            ov = not lo <= r <= hi
            return r, ov
        al = isinstance(a, tuple) and a[0] == '#'
        bl = isinstance(b, tuple) and b[0] == '#'
        if (al or isinstance(a, int)) and (bl or isinstance(b, int)):
            a, b = as_lin(a), as_lin(b)
            if op == 'Add':
                r = ladd(a, b)
            elif op == 'Sub':
                r = lsub(a, b)
            elif not b[2]:
                r = lscale(a, b[1])
            elif not a[2]:
                r = lscale(b, a[1])
            else:
                return it.sym(st, ('op', op, a, b), self.p.tyname[t['s']]), ('S', ('nooverflow?',), self.p.tyname['bool'])
            if t['k'] == 'uint' and op == 'Sub':
                lo, hi = lmin(r), lmax(r)
                if lo is not None and lo >= 0:
                    ov = False
                elif hi is not None and hi < 0:
                    ov = True
                else:
                    ov = it.bterm(('lt', a, b))
            else:
                ov = False       # 32-bit and wider counters of things held in memory do not overflow
            return r, ov
        # small symbolic
        from interp import RANGE
        nm = t.get('name')
        ov = ('S', ('ovf', op, a, b), self.p.tyname['bool'])
        i = self.op_interval(st, op, a, b)
        if i is not None and nm in RANGE:
            lo, hi = RANGE[nm]
            if lo <= i[0] and i[1] <= hi:
                ov = False
            elif i[1] < lo or hi < i[0]:
                ov = True
        return it.sym(st, ('op', op, a, b), self.p.tyname[t['s']]), ov

    def interval(self, st, v):
        """(least, greatest) value of a small integer"""
        from interp import RANGE
        if isinstance(v, int):
            return (int(v), int(v))
        if v[0] == '#':
            return (v[1], v[1]) if not v[2] else None
        if v[0] != 'S':
            return None
        t = v[1]
        full = RANGE.get(self.T[v[2]].get('name'))
        cs = st.facts.get(('cs', t))
        if cs:
            return (cs[0][0], cs[-1][1])
        if t[0] == 'discr':
            vs = st.facts.get(('var', t[1]))
            if vs is None:
                vs = self.p.variants_possible(t[2])
            ds = [self.T[t[2]]['variants'][x]['d'] for x in vs]
            return (min(ds), max(ds))
        if t[0] == 'op' and len(t) == 4 and full:
            i = self.op_interval(st, t[1], t[2], t[3])
            if i is not None and full[0] <= i[0] and i[1] <= full[1]:
                return i
            return full
        if t[0] in ('idx', 'ch'):
            cs = self.it.charset(st, t)
            return (cs[0][0], cs[-1][1])
        if t[0] == 'cast' and full:
            i = self.interval(st, t[2]) if len(t) > 2 else None
            if i is not None and full[0] <= i[0] and i[1] <= full[1]:
                return i
        return full

    def op_interval(self, st, op, a, b):
        x, y = self.interval(st, a), self.interval(st, b)
        if x is None or y is None:
            return None
        if op == 'Add':
            return (x[0] + y[0], x[1] + y[1])
        if op == 'Sub':
            return (x[0] - y[1], x[1] - y[0])
        if op == 'Mul':
            ps = [p * q for p in x for q in y]
            return (min(ps), max(ps))
        if op == 'Div' and x[0] >= 0 and y[0] > 0:
            return (x[0] // y[1], x[1] // y[0])
        if op == 'Rem' and x[0] >= 0 and y[0] > 0:
            return (0, min(x[1], y[1] - 1))
        return None

    def unop(self, st, op, a, dty):
        if op == 'Not':
            if isinstance(a, bool):
                return not a
            if isinstance(a, tuple) and a[0] == 'S' and self.T[dty]['k'] == 'bool':
                return self.neg(a)
            return self.it.sym(st, ('op', 'Not', a), dty)
        if op == 'Neg':
            if isinstance(a, int):
                return -a
            if a[0] == '#':
                return lscale(a, -1)
        if op == 'PtrMetadata':
            return self.seq_len(st, a)
        raise Unsupported('unary %s' % op)

    def cast(self, st, kind, v, ty):
        t = self.T[ty]
        if kind.startswith('PointerCoercion') or kind in ('Transmute', 'PtrToPtr', 'Subtype'):
            if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and self.T[v[1]].get('path', '').endswith('NonNull'):
                return v[3][0]
            return v
        if kind in ('IntToInt',):
            return self.int_cast(st, v, ty)
        if kind in ('FloatToInt', 'IntToFloat', 'FloatToFloat'):
            return self.it.sym(st, ('cast', v), ty)
        return v

    def int_cast(self, st, v, ty):
        it = self.it
        t = self.T[ty]
        from interp import RANGE
        if t['k'] == 'char':
            return v
        nm = t.get('name')
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            if nm in RANGE:
                lo, hi = RANGE[nm]
                n = hi - lo + 1
                return (v - lo) % n + lo
            if nm in ('usize', 'u64', 'u32', 'u128') and v < 0:
                return it.sym(st, ('cast', v), ty)
            return lin(v)
        if v[0] == '#':
            if nm in RANGE:
                if not v[2]:
                    lo, hi = RANGE[nm]
                    n = hi - lo + 1
                    return (v[1] - lo) % n + lo
                return ('S', ('cast', nm, v), ty)
            return v
        if v[0] == 'S':
            term = v[1]
            if nm in RANGE:
                if term[0] == 'discr':
                    return ('S', term, ty)
                if term[0] in ('idx', 'ch'):
                    cs = it.charset(st, term)
                    if cs[-1][1] <= RANGE[nm][1]:
                        return ('S', term, ty)
                return ('S', ('cast', nm, v), ty)
            if term[0] == 'discr':
                it.variant(st, ('S', term[1], term[2]))
                return lin(self.T[term[2]]['variants'][next(iter(st.facts[('var', term[1])]))]['d'])
            if term[0] in ('idx', 'ch'):
                return it.num(st, ('code', term))
            return it.num(st, ('cast', nm, v), t['k'] == 'int')
        return v

    def repeat(self, st, v, dty, r):
        t = self.T[dty]
        n = t.get('len')
        if t.get('elem') is not None and self.T[t['elem']]['s'] == 'u8' and isinstance(v, int) and n is not None:
            if n <= 4096:
                return lit(bytes([v]) * n)
            return ('s', (('T', 'zeros', n, v),))
        if n is not None and n <= 64:
            return ('v', tuple(('e', v) for _ in range(n)))
        raise Unsupported('array repeat')

    def opaque_const(self, st, c):
        t = self.T[c['ty']]
        if c['k'] == 'opaque':
            nm = c.get('name') or c.get('s') or ''
            if t['k'] == 'adt' and t.get('kind') == 'enum' and 'variants' in t:
                last = nm.rsplit('::', 1)[-1]
                for i, v in enumerate(t['variants']):
                    if v['n'] == last and not v['f']:
                        return ('A', c['ty'], i, ())
            # statics of std collections etc stay symbolic, named by their path
            return self.it.sym(st, ('const', nm), c['ty'])
        return None

    # ------------------------------------------------------------ equality
    def eq_text(self, st, a, b):
        ps, qs = self.pieces(st, a), self.pieces(st, b)
        return self.eq_pieces(st, ps, qs)

    def eq_pieces(self, st, ps, qs):
        it = self.it
        if ps == qs:
            return True
        if self.is_lit(ps) and self.is_lit(qs):
            return self.lit_bytes(ps) == self.lit_bytes(qs)
        if self.is_lit(ps):
            ps, qs = qs, ps
        if self.is_lit(qs):
            b = self.lit_bytes(qs)
            if len(ps) == 1 and ps[0][0] == 'S' and ps[0][2] == ZERO:
                term = ps[0][1]
                whole = st.nums.get(('len', term))
                if whole is None or whole == ps[0][3]:
                    t, b2 = self.norm_streq(term, b)
                    if t is None:
                        return False
                    r = it.known(st, ('streq', t, b2))
                    return r if r is not None else it.bterm(('streq', t, b2))
            # decimal digits of enum discriminants against a literal
            if ps and all(p[0] == 'L' or (p[0] == 'T' and p[1] == 'dec' and self.one_digit(st, p[2])) for p in ps):
                n = sum(len(p[1]) if p[0] == 'L' else 1 for p in ps)
                if n != len(b):
                    return False
                i = 0
                for p in ps:
                    if p[0] == 'L':
                        if b[i:i + len(p[1])] != p[1]:
                            return False
                        i += len(p[1])
                    else:
                        ch = b[i:i + 1]
                        i += 1
                        d = p[2][1]
                        if not ch.isdigit():
                            return False
                        ty = d[2]
                        vs = self.T[ty]['variants']
                        hit = [k for k, x in enumerate(vs) if x['d'] == int(ch)]
                        if not hit:
                            return False
                        if not it.branch(st, ('deq', d[1], hit[0], ty)):
                            return False
                return True
            # a number in decimal against a literal
            if len(ps) == 1 and ps[0][0] == 'T' and ps[0][1] == 'dec':
                if not b.isdigit() or (len(b) > 1 and b[:1] == b'0') or len(b) > 18:
                    return False
                v = ps[0][2]
                n = lin(int(b)) if isinstance(v, tuple) and v[0] == '#' else int(b)
                return self.binop(st, 'Eq', v, n, self.p.tyname['bool'])
            if not b:
                n = ZERO
                for p in ps:
                    n = ladd(n, self.plen(st, p))
                r = it.cmp(st, 'eq', n, ZERO)
                return r if r is not None else it.bterm(('eq', n, ZERO))
            # a single known length mismatch decides
            lo = sum(len(p[1]) for p in ps if p[0] == 'L')
            if lo > len(b):
                return False
        return it.bterm(('texteq', ps, qs) if repr(ps) <= repr(qs) else ('texteq', qs, ps))

    def norm_streq(self, term, b):
        """equality of a case-folded text with a literal, in terms of upper case"""
        if isinstance(term, tuple) and term[0] == 'lower':
            if b.lower() != b:
                return None, None
            return ('upper', term[1]), b.upper()
        if isinstance(term, tuple) and term[0] == 'upper' and b.upper() != b:
            return None, None
        return term, b

    def one_digit(self, st, v):
        if isinstance(v, tuple) and v[0] == 'S' and v[1][0] == 'discr':
            return all(0 <= x['d'] <= 9 for x in self.T[v[1][2]]['variants'])
        return False

    def eq(self, st, a, b):
        """structural equality of two values: True/False or a boolean value"""
        it = self.it
        a, b = it.deref_all(st, a), it.deref_all(st, b)
        if a == b:
            return True
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 's' or b[0] == 's' or (a[0] == 'S' and it.is_text(a[2])):
                return self.eq_text(st, a, b)
            if a[0] == '#' and b[0] == '#':
                return self.binop(st, 'Eq', a, b, self.p.tyname['bool'])
            if a[0] == 'A' or b[0] == 'A':
                x, y = (a, b) if a[0] == 'A' else (b, a)
                if y[0] == 'S':
                    t = self.T[y[2]]
                    if t.get('kind') == 'enum':
                        if not it.branch(st, ('deq', y[1], x[2], y[2])):
                            return False
                    y = it.expand(st, y, x[2])
                    if y is None:
                        return it.bterm(('veq2', a, b))
                if y[0] == 'A':
                    if x[2] != y[2]:
                        return False
                    for p, q in zip(x[3], y[3]):
                        r = self.eq(st, p, q)
                        if r is True:
                            continue
                        if not it.decide(st, r):
                            return False
                    return True
            if a[0] == 'v' or b[0] == 'v':
                try:
                    ps, qs = self.parts(st, a), self.parts(st, b)
                except Unsupported:
                    return it.bterm(('veq2', a, b))
                if all(p[0] == 'e' for p in ps) and all(p[0] == 'e' for p in qs):
                    if len(ps) != len(qs):
                        return False
                    for p, q in zip(ps, qs):
                        if not it.decide(st, self.eq(st, p[1], q[1])):
                            return False
                    return True
        if isinstance(a, tuple) and a[0] == 'S' and (isinstance(b, int) or (isinstance(b, tuple) and b[0] == '#')):
            return self.sym_cmp(st, 'Eq', a, b, False)
        if isinstance(b, tuple) and b[0] == 'S' and (isinstance(a, int) or (isinstance(a, tuple) and a[0] == '#')):
            return self.sym_cmp(st, 'Eq', b, a, False)
        if repr(a) > repr(b):
            a, b = b, a
        return it.bterm(('veq2', a, b))

    # ------------------------------------------------------------ unknown functions
    def unknown_call(self, st, c, args, dty):
        it = self.it
        name = c.get('rpath') or c['path']
        it.unknown_calls[name] = it.unknown_calls.get(name, 0) + 1
        it.externals[c['path']] = it.externals.get(c['path'], 0) + 1
        vals = []
        if name.split('::')[-1] in PANICKY and name.lstrip('<').split('::')[0].split(' ')[-1].lstrip('&') in ('core', 'alloc', 'std'):
            s = st.copy()
            s.inexact('unknown call')
            it.panic(s, 'call of %s, which' % c['path'])
        cur, it.cur_mut = it.cur_mut, None
        if cur is not None and cur[0] == len(args):
            for i in cur[1]:
                if isinstance(args[i], tuple) and walk(args[i])[0] is not None and self.has_ref(args[i]):
                    raise Unsupported('effects of %s' % name)
        for a in args:
            v = self.freeze_arg(st, a, c)
            vals.append(v)
        if not self.p.inhabited(dty):
            it.panic(st, 'call of diverging %s' % c['path'])
            return []
        term = ('call', norm(c['path']), tuple(vals))
        if self.T[dty]['s'] == '()':
            return [(st, unit())]
        return [(st, it.sym(st, term, dty))]

    def has_ref(self, v):
        if isinstance(v, tuple):
            if v and v[0] == 'R' and len(v) == 3 and isinstance(v[1], tuple) and v[1] and v[1][0] != 'c':
                return True
            return any(self.has_ref(x) for x in v)
        return False

    def freeze_arg(self, st, a, c):
        it = self.it
        n = 0
        while isinstance(a, tuple) and a and a[0] == 'R' and n < 10:
            if a[1][0] != 'c':
                # may be modified by the callee
                pass
            a = it.read(st, a[1], a[2])
            n += 1
        if isinstance(a, tuple) and walk(a)[0] is not None:
            try:
                a = it.freeze(st, a)
            except Exception:
                a = ('S', ('unk', st.fresh()), self.p.tyname['()'])
        return a

    def call_opaque(self, st, g, args, dty):
        return None

    # ------------------------------------------------------------ loops in models
    def fix(self, st, step, what=''):
        """least fixpoint of step over states: step(state) -> [(state, None | ('done', value))]"""
        it = self.it
        head = LoopHead(it, it.delay, what)
        most = it.exact_turns
        if most is not None and most < 20:
            head.wide = 12
        out = []
        todo = [(st, 0)]
        while todo:
            # when only some turns are followed, the first ones come first
            s, turn = todo.pop() if most is None else todo.pop(0)
            if most is not None and turn > most:
                it.cut[what] = it.cut.get(what, 0) + 1
                continue
            s = head.add(s)
            if s is None:
                continue
            for s2, r in self.trysplit(s, step):
                if r is None:
                    todo.append((s2, turn + 1))
                else:
                    out.append((s2, r[1]))
        return out

    def trysplit(self, st, f):
        """run f on a copy of st, redoing it when it asks for a case split"""
        todo = [(st, 0)]
        out = []
        while todo:
            s, nsp = todo.pop()
            c = s.copy()
            d, stack = self.it.depth, list(self.it.stack)
            try:
                out.extend(f(c))
            except Split as sp:
                self.it.depth = d
                self.it.stack[:] = stack
                sp.sync(s)
                if nsp > 40:
                    raise Unsupported('no progress: %s' % sp.why)
                for j, a in enumerate(sp.alts):
                    for s2 in self.it.refine(s, a):
                        s2.log('%s: %s [%d]' % (self.it.where, sp.why, j))
                        todo.append((s2, nsp + 1))
            except Infeasible:
                self.it.depth = d
                self.it.stack[:] = stack
        return out
