"""Models of library functions: table name -> fn(st, callee, args, result type) -> [(state, value)]"""
import re
from vals import *
from interp import Split, Infeasible, Unsupported, walk, map_lins, has_unknown

OK, ERR = 0, 1
NONE, SOME = 0, 1

ASCII_CTL = ((0, 31), (127, 127))
ASCII_WS = cs_of(9, 10, 12, 13, 32)
WHITE = cs_of((9, 13), 32, 0x85, 0xA0, 0x1680, (0x2000, 0x200A), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)
CTL = ((0, 31), (127, 159))
DIGIT = cs_of((48, 57))
UPPER = cs_of((65, 90))
LOWER = cs_of((97, 122))
ALPHA = cs_union(UPPER, LOWER)
ALNUM = cs_union(ALPHA, DIGIT)
GRAPHIC = cs_of((33, 126))
PUNCT = cs_minus(GRAPHIC, ALNUM)
HEXD = cs_union(DIGIT, cs_of((65, 70), (97, 102)))
CHARSETS = {'is_ascii': ASCII, 'is_ascii_control': ASCII_CTL, 'is_ascii_whitespace': ASCII_WS, 'is_ascii_digit': DIGIT,
            'is_ascii_alphabetic': ALPHA, 'is_ascii_alphanumeric': ALNUM, 'is_ascii_uppercase': UPPER,
            'is_ascii_lowercase': LOWER, 'is_ascii_graphic': GRAPHIC, 'is_ascii_punctuation': PUNCT,
            'is_ascii_hexdigit': HEXD, 'is_whitespace': WHITE, 'is_control': CTL}


def unit():
    return ('A', 't', 0, ())


def build(m):
    it = m.it
    T = m.T
    tab = {}
    pats = []
    S = m.std = Std(m)

    def reg(*names):
        def d(f):
            for n in names:
                tab[n] = f
            return f
        return d

    def pat(*rx):
        def d(f):
            for r in rx:
                pats.append((re.compile(r), f))
            return f
        return d

    def is_opt(ty):
        return T[ty].get('path') == 'core::option::Option'

    # ---------------------------------------------------------------- identity like
    ident = lambda st, c, a, d: [(st, a[0])]
    for n in ['alloc::string::String::as_str', 'alloc::string::String::as_bytes', 'alloc::vec::Vec::as_slice',
              'alloc::vec::Vec::<T, A>::as_slice', 'alloc::vec::Vec::<T, A>::as_mut_slice', 'alloc::string::String::as_mut_str',
              'core::str::<impl str>::as_bytes', 'core::hint::must_use', 'core::hint::black_box',
              'core::convert::identity', 'core::pin::Pin::<Ptr>::new_unchecked', 'core::pin::Pin::<Ptr>::new',
              "core::pin::Pin::<&'a mut T>::get_unchecked_mut", "core::pin::Pin::<&'a mut T>::get_mut",
              "core::pin::Pin::<&'a T>::get_ref", "core::pin::Pin::<&'a mut T>::into_ref", 'core::pin::Pin::<Ptr>::into_inner_unchecked',
              'core::pin::Pin::<Ptr>::into_inner',
              'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str', 'alloc::vec::Vec::<T, A>::into_boxed_slice',
              'alloc::slice::<impl [T]>::into_vec', 'core::mem::ManuallyDrop::new',
              'alloc::str::<impl str>::into_string', 'alloc::str::<impl str>::into_boxed_bytes',
              'alloc::string::String::from_utf8_unchecked',
              'core::future::into_future::IntoFuture::into_future']:
        tab[n] = ident
    pats.append((re.compile(r'thiserror::(aserror::AsDynError::as_dyn_error|display::AsDisplay::as_display)'), ident))

    @reg('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::convert::AsRef::as_ref',
         'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut')
    def deref(st, c, a, d):
        if c.get('inst') is not None:
            if 'OsStr' in T[d]['s'] and it.is_text(it.strip_refs(c['args'][0])):
                return [(st, a[0])]
            return NotImplemented
        rp = c.get('rpath') or ''
        v = it.deref(st, a[0])
        if rp.startswith('<core::pin::Pin'):
            while isinstance(v, tuple) and v[0] == 'R':
                return [(st, v)]
            return [(st, a[0])]
        # references to references, boxes: peel
        if isinstance(v, tuple) and v[0] == 'B' or rp.startswith('<alloc::boxed::Box') and isinstance(a[0], tuple) and a[0][0] == 'R':
            base, path = it.target(st, a[0])
            return [(st, ('R', base, path + (('b',),)))]
        if isinstance(v, tuple) and v[0] == 'R':
            return [(st, v)]
        if T[d]['k'] == 'ref' and (it.is_text(T[d]['elem']) or 'alloc::vec::Vec' in rp or 'Cow' in rp or '[T]' in rp or 'array' in rp
                                   or 'OsStr' in T[d]['s'] or 'MaybeUninit' in rp or 'ManuallyDrop' in rp):
            return [(st, a[0])]
        return NotImplemented

    @reg('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::<impl [T]>::to_vec',
         'alloc::borrow::Cow::into_owned', "alloc::borrow::Cow::<'_, B>::into_owned")
    def clone(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        v = it.deref(st, a[0])
        if T[d]['k'] != 'ref':
            v = it.deref_all(st, v) if it.is_text(d) or T[d].get('path') == 'alloc::vec::Vec' else v
        return [(st, S.retype(st, v, d))]

    @reg('core::convert::Into::into', 'core::convert::From::from', 'core::convert::TryInto::try_into')
    def into(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        rp = c.get('rpath') or ''
        src = c['args'][0] if c['name'] == 'into' else (c['args'][1] if len(c['args']) > 1 else None)
        if rp.startswith('<T as core::convert::From<T>>') or (src is not None and src == d):
            return [(st, a[0])]
        if it.is_text(d) and src is not None and it.is_text(it.strip_refs(src)):
            return [(st, S.copy_text(st, a[0], d))]
        if src is not None and T[src]['k'] == 'char' and it.is_text(d):
            return [(st, ('s', (m.char_piece(st, a[0]),)))]
        if src is not None and T[d]['k'] in ('int', 'uint', 'char') and T[src]['k'] in ('int', 'uint', 'char', 'bool'):
            return [(st, m.int_cast(st, a[0], d))]
        if T[d].get('path') == 'core::option::Option':
            return [(st, m.some(d, a[0]))]
        if T[d].get('path') == 'alloc::vec::Vec' and src is not None:
            try:
                return [(st, ('v', m.parts(st, a[0])))]
            except Unsupported:
                pass
        return NotImplemented

    @reg('core::default::Default::default')
    def default(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        v = S.default(d)
        return [(st, v)] if v is not None else NotImplemented

    @reg('core::mem::replace')
    def mem_replace(st, c, a, d):
        b, p = it.target(st, a[0])
        old = it.read(st, b, p)
        it.write(st, b, p, a[1])
        return [(st, old)]

    @reg('core::mem::take')
    def mem_take(st, c, a, d):
        v = S.default(d)
        if v is None:
            raise Unsupported('mem::take')
        b, p = it.target(st, a[0])
        old = it.read(st, b, p)
        it.write(st, b, p, v)
        return [(st, old)]

    @reg('core::mem::swap')
    def mem_swap(st, c, a, d):
        b, p = it.target(st, a[0])
        b2, p2 = it.target(st, a[1])
        x, y = it.read(st, b, p), it.read(st, b2, p2)
        it.write(st, b, p, y)
        it.write(st, b2, p2, x)
        return [(st, unit())]

    @reg('core::mem::drop', 'core::mem::forget')
    def mem_drop(st, c, a, d):
        return [(st, unit())]

    # ---------------------------------------------------------------- Box, vec![]
    @reg('alloc::boxed::Box::<T>::new', 'alloc::boxed::Box::<T>::pin')
    def box_new(st, c, a, d):
        return [(st, ('B', a[0]))]

    @reg('alloc::boxed::Box::<T>::new_uninit')
    def box_uninit(st, c, a, d):
        return [(st, ('B', ('mu', None)))]

    @reg('alloc::boxed::box_assume_init_into_vec_unsafe')
    def box_vec(st, c, a, d):
        v = a[0]
        while isinstance(v, tuple) and v[0] in ('B', 'mu'):
            v = v[1]
        return [(st, v)]

    # ---------------------------------------------------------------- comparisons
    @reg('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
    def peq(st, c, a, d):
        if c.get('inst') is not None:
            x, y = it.deref_all(st, a[0]), it.deref_all(st, a[1])
            if not ('::partial_eq::<impl' in c['inst'] or 'slice::cmp' in c['inst'] or 'array::equality' in c['inst']
                    or isinstance(x, tuple) and x[0] == 's' or isinstance(y, tuple) and y[0] == 's'
                    or isinstance(x, tuple) and x[0] == 'S' and it.is_text(x[2])):
                return NotImplemented
        r = m.eq(st, a[0], a[1])
        return [(st, m.neg(r) if c['name'] == 'ne' else r)]

    @reg('core::slice::cmp::SlicePartialEq::equal_same_length', 'core::slice::cmp::SlicePartialEq::equal')
    def slice_eq(st, c, a, d):
        return [(st, m.eq(st, a[0], a[1]))]

    pats.append((re.compile(r'core::str::traits::<impl core::cmp::PartialEq for str>::eq'), peq))
    pats.append((re.compile(r'(alloc::vec::partial_eq|core::slice::cmp|core::array::equality)::<impl core::cmp::PartialEq.*>::(eq|ne)$'), peq))

    @reg('core::cmp::Ord::min', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::max')
    def ordmin(st, c, a, d):
        x, y = as_lin(a[0]), as_lin(a[1])
        if x[0] != '#' or y[0] != '#':
            return NotImplemented
        r = it.decide(st, m.binop(st, 'Le', x, y, m.p.tyname['bool']))
        v = (x if r else y) if 'min' in c['name'] else (y if r else x)
        return [(st, v)]

    @reg('core::intrinsics::discriminant_value', 'core::mem::discriminant')
    def discr(st, c, a, d):
        v = it.deref_all(st, a[0])
        if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't':
            return [(st, it.mk_int(d, T[v[1]]['variants'][v[2]]['d']))]
        if isinstance(v, tuple) and v[0] == 'S':
            return [(st, ('S', ('discr', v[1], v[2]), d))]
        return NotImplemented

    # ---------------------------------------------------------------- characters
    @pat(r'^core::char::methods::<impl char>::(\w+)$', r'^core::num::<impl u8>::(\w+)$')
    def charfn(st, c, a, d):
        n = c['name']
        v = it.deref_all(st, a[0])
        if n in CHARSETS:
            cs = CHARSETS[n]
            return [(st, S.in_set(st, v, cs))]
        if n in ('to_ascii_uppercase', 'to_ascii_lowercase'):
            if isinstance(v, int):
                return [(st, ord(chr(v).upper() if n.endswith('upper' + 'case') else chr(v).lower()) if v < 128 else v)]
            cs = it.charset(st, v[1])
            if not cs_inter(cs, LOWER if 'upper' in n else UPPER):
                return [(st, v)]
            return [(st, it.sym(st, (n[9:14], v[1]), v[2]))]
        if n == 'eq_ignore_ascii_case':
            w = it.deref_all(st, a[1])
            if isinstance(v, int) and not isinstance(w, int):
                v, w = w, v
            if isinstance(w, int):
                ws = {w, ord(chr(w).upper()), ord(chr(w).lower())} if w < 128 else {w}
                return [(st, S.in_set(st, v, cs_of(*sorted(ws))))]
        if n == 'len_utf8':
            if isinstance(v, int):
                return [(st, lin(len(chr(v).encode())))]
            if it.charset(st, v[1])[-1][1] < 128:
                return [(st, ONE)]
            return [(st, S.width(st, v[1]))]
        return NotImplemented

    # ---------------------------------------------------------------- text
    @reg('alloc::string::String::new', 'alloc::vec::Vec::<T>::new', 'alloc::string::String::with_capacity',
         'alloc::vec::Vec::<T>::with_capacity', 'alloc::vec::Vec::new')
    def text_new(st, c, a, d):
        return [(st, ('s', ()) if it.is_text(d) else ('v', ()))]

    @reg('core::str::<impl str>::len', 'alloc::string::String::len', 'core::slice::<impl [T]>::len', 'alloc::vec::Vec::<T, A>::len',
         'alloc::vec::Vec::len', 'core::slice::<impl [T]>::len', 'core::iter::traits::exact_size::ExactSizeIterator::len')
    def seqlen(st, c, a, d):
        return [(st, m.seq_len(st, a[0]))]

    @reg('core::str::<impl str>::is_empty', 'alloc::string::String::is_empty', 'core::slice::<impl [T]>::is_empty',
         'alloc::vec::Vec::<T, A>::is_empty', 'alloc::vec::Vec::is_empty')
    def isempty(st, c, a, d):
        n = m.seq_len(st, a[0])
        return [(st, S.boolterm(st, ('eq', n, ZERO)))]

    @reg('alloc::string::String::push_str', 'alloc::vec::Vec::<T, A>::extend_from_slice', 'alloc::vec::Vec::extend_from_slice')
    def push_str(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        w = it.deref_all(st, a[1])
        if S.textual(st, v):
            S.append(st, a[0], m.pieces(st, w))
        else:
            out = ('v', m.parts(st, v))
            for x in m.parts(st, w):
                out = ('v', out[1] + (x,)) if x[0] != 'e' else m.push(out, x[1])
            it.write(st, b, p, out)
        return [(st, unit())]

    @reg('alloc::string::String::push')
    def push_char(st, c, a, d):
        S.append(st, a[0], (m.char_piece(st, a[1]),))
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::push', 'alloc::vec::Vec::push')
    def vpush(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        if S.textual(st, v):
            S.append(st, a[0], (m.char_piece(st, a[1]),))
        else:
            if v[0] != 'v':
                v = ('v', m.parts(st, v))
            it.write(st, b, p, m.push(v, a[1]))
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::pop', 'alloc::vec::Vec::pop')
    def vpop(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n = m.seq_len(st, v)
        if it.branch(st, ('eq', n, ZERO)):
            return [(st, m.none(d))]
        k = lsub(n, ONE)
        e = m.at(st, v, k)
        it.write(st, b, p, m.subseq(st, v, ZERO, k))
        return [(st, m.some(d, e))]

    @reg('alloc::string::String::pop')
    def spop(st, c, a, d):
        b, p = it.target(st, a[0])
        ps = list(m.pieces(st, it.read(st, b, p)))
        while ps:
            q = ps[-1]
            if q[0] == 'L':
                txt = q[1].decode('utf8', 'replace')
                ps[-1:] = [('L', txt[:-1].encode())] if len(txt) > 1 else []
                it.write(st, b, p, ('s', tuple(ps)))
                return [(st, m.some(d, ord(txt[-1])))]
            if q[0] == 'S':
                if it.branch(st, ('eq', m.plen(st, q), ZERO)):
                    ps.pop()
                    continue
                known = S.piece_chars(st, q)
                if known is None or known[-1][1] >= 128:
                    return NotImplemented
                k = lsub(q[3], ONE)
                st.facts[('bnd', q[1], k)] = True
                ps[-1] = ('S', q[1], q[2], k)
                it.write(st, b, p, ('s', tuple(ps)))
                return [(st, m.some(d, ('S', ('ch', q[1], k), m.p.tyname['char'])))]
            return NotImplemented
        return [(st, m.none(d))]

    @reg('alloc::vec::Vec::<T, A>::insert', 'alloc::vec::Vec::insert', 'alloc::string::String::insert', 'alloc::string::String::insert_str')
    def vinsert(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n, i = m.seq_len(st, v), as_lin(a[1])
        it.obligation('insertion out of bounds')
        if it.branch(st, ('lt', n, i)):
            it.panic(st, 'insertion out of bounds')
            return []
        if S.textual(st, v):
            if 'String' in c['path'] and not S.boundary(st, v, i, n):
                it.panic(st.copy(), 'insertion at a position that may not be a character boundary', may=True)
            new = m.pieces(st, a[2]) if c['name'] == 'insert_str' else (m.char_piece(st, a[2]),)
            l, r = m.pieces(st, m.subseq(st, v, ZERO, i)), m.pieces(st, m.subseq(st, v, i, n))
            it.write(st, b, p, ('s', pieces_cat(pieces_cat(l, new), r)))
        else:
            l, r = m.parts(st, m.subseq(st, v, ZERO, i)), m.parts(st, m.subseq(st, v, i, n))
            it.write(st, b, p, ('v', tuple(l) + (('e', a[2]),) + tuple(r)))
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
    def vremove(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n, i = m.seq_len(st, v), as_lin(a[1])
        it.obligation('index or slice out of bounds')
        if not it.branch(st, ('lt', i, n)):
            it.panic(st, 'removal out of bounds')
            return []
        e = m.at(st, v, i)
        nx = ladd(i, ONE)
        if c['name'] == 'swap_remove':
            if not it.branch(st, ('eq', nx, n)):
                return NotImplemented
        l, r = m.subseq(st, v, ZERO, i), m.subseq(st, v, nx, n)
        if S.textual(st, v):
            it.write(st, b, p, ('s', pieces_cat(m.pieces(st, l), m.pieces(st, r))))
        else:
            it.write(st, b, p, ('v', tuple(m.parts(st, l)) + tuple(m.parts(st, r))))
        return [(st, e)]

    @reg('alloc::vec::Vec::<T, A>::split_off', 'alloc::string::String::split_off')
    def split_off(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n, i = m.seq_len(st, v), as_lin(a[1])
        it.obligation('split_off out of bounds')
        if it.branch(st, ('lt', n, i)):
            it.panic(st, 'split_off out of bounds')
            return []
        if 'String' in c['path'] and not S.boundary(st, v, i, n):
            it.panic(st.copy(), 'split_off at a position that may not be a character boundary', may=True)
        l, r = m.subseq(st, v, ZERO, i), m.subseq(st, v, i, n)
        it.write(st, b, p, l)
        return [(st, r)]

    @reg('alloc::vec::Vec::<T, A>::drain', 'alloc::string::String::drain')
    def drain(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n = m.seq_len(st, v)
        lo, hi = S.range_of(st, a[1], n)
        it.obligation('drain out of bounds')
        if it.branch(st, ('lt', hi, lo)) or it.branch(st, ('lt', n, hi)):
            it.panic(st, 'drain out of bounds')
            return []
        if 'String' in c['path']:
            for x in (lo, hi):
                if not S.boundary(st, v, x, n):
                    it.panic(st.copy(), 'drain at a position that may not be a character boundary', may=True)
        l, x, r = m.subseq(st, v, ZERO, lo), m.subseq(st, v, lo, hi), m.subseq(st, v, hi, n)
        if S.textual(st, v):
            it.write(st, b, p, ('s', pieces_cat(m.pieces(st, l), m.pieces(st, r))))
            if 'String' in c['path']:
                return [(st, ('it', 'chars', m.pieces(st, x), False, ZERO, None, (), None))]
            return [(st, ('it', 'bytes', m.pieces(st, x), False))]
        it.write(st, b, p, ('v', tuple(m.parts(st, l)) + tuple(m.parts(st, r))))
        return [(st, ('it', 'seq', m.parts(st, x), False))]

    @reg('alloc::vec::Vec::<T, A>::retain', 'alloc::vec::Vec::<T, A>::retain_mut', 'alloc::string::String::retain')
    def retain(st, c, a, d):
        b, p = it.target(st, a[0])
        if b[0] == 'c':
            return NotImplemented
        v = it.read(st, b, p)
        text = S.textual(st, v)
        char = 'String' in c['path']
        if text:
            q = m.pieces(st, v)
            sets = S.pred_sets(st, a[1], byte=not char, byref=not char) if len(q) == 1 and q[0][0] == 'S' else None
            if sets:
                return S.retain(st, b, p, q[0], sets[1], sets[2], char)
        if char:
            src = ('it', 'chars', m.pieces(st, v), False, ZERO, S.whole(st, m.pieces(st, v)), (), None)
        elif text:
            src = ('it', 'bytes', m.pieces(st, v), False)
        else:
            src = ('it', 'seq', m.parts(st, v), False)
        key = S.push_k(st, ('ref', b, p))

        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', vals[1]))]
            out = []
            arg = item if char else cref(item)
            for s2, r, kv in it.call_keep(s, (vals[0], vals[1], item), vals[0], [arg], m.p.tyname['bool']):
                for s3, ok in S.both(s2, r):
                    acc = kv[1]
                    if ok:
                        if text:
                            acc = ('s', pieces_cat(acc[1], (m.char_piece(s3, kv[2]),)))
                            if len(acc[1]) > 12:
                                raise Unsupported('filtered text')
                        else:
                            acc = m.push(acc, kv[2])
                    out.append((s3, (kv[0], acc), None))
            return out
        out = []
        for s, acc in S.loop(st, src, (a[1], ('s', ()) if text else ('v', ())), step):
            _, b2, p2 = S.pop_k(s, key)
            it.write(s, b2, p2, acc)
            out.append((s, unit()))
        return out

    @reg('alloc::vec::Vec::<T, A>::dedup')
    def dedup(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        if b[0] == 'c' or S.textual(st, v):
            return NotImplemented
        key = S.push_k(st, ('ref', b, p))

        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', vals[1]))]
            if vals[0] is None:
                return [(s, (item, m.push(vals[1], item)), None)]
            if it.decide(s, m.eq(s, vals[0], item)):
                return [(s, vals, None)]
            return [(s, (item, m.push(vals[1], item)), None)]
        out = []
        for s, acc in S.loop(st, ('it', 'seq', m.parts(st, v), False), (None, ('v', ())), step):
            _, b2, p2 = S.pop_k(s, key)
            it.write(s, b2, p2, acc)
            out.append((s, unit()))
        return out

    @reg('core::slice::<impl [T]>::reverse')
    def sreverse(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        if b[0] == 'c':
            return NotImplemented
        if S.textual(st, v):
            ps = m.pieces(st, v)
            if not m.is_lit(ps):
                return NotImplemented
            it.write(st, b, p, lit(m.lit_bytes(ps)[::-1]))
            return [(st, unit())]
        out = []
        for s, acc in S.loop(st, ('it', 'rev', ('it', 'seq', m.parts(st, v), False)), (('v', ()),),
                             lambda s, vals, item: [(s, None, ('done', vals[0]))] if item is None else [(s, (m.push(vals[0], item),), None)]):
            it.write(s, b, p, acc)
            out.append((s, unit()))
        return out

    @reg('core::slice::<impl [T]>::chunks', 'core::slice::<impl [T]>::chunks_exact', 'core::slice::<impl [T]>::windows')
    def chunks(st, c, a, d):
        n = as_lin(a[1])
        if n[2] or n == ZERO:
            return NotImplemented
        if n[1] > 64:
            # instead of a large number any number (violation() asks whether it may be this one)
            k = ('size', n[1])
            if k not in st.nums:
                st.nums[k] = ladd(st.newp(), ONE)
            n = st.nums[k]
        return [(st, ('it', c['name'], it.deref_all(st, a[0]), n))]

    @reg('alloc::vec::Vec::<T, A>::clear', 'alloc::vec::Vec::clear', 'alloc::string::String::clear')
    def clear(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        it.write(st, b, p, ('s', ()) if S.textual(st, v) else ('v', ()))
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::truncate', 'alloc::string::String::truncate')
    def truncate(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n = m.seq_len(st, v)
        k = as_lin(a[1])
        if it.decide(st, m.binop(st, 'Lt', k, n, m.p.tyname['bool'])):
            it.write(st, b, p, m.subseq(st, v, ZERO, k))
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::resize', 'alloc::vec::Vec::resize')
    def resize(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        n, k = m.seq_len(st, v), as_lin(a[1])
        if it.decide(st, m.binop(st, 'Le', k, n, m.p.tyname['bool'])):
            it.write(st, b, p, m.subseq(st, v, ZERO, k))
        elif S.textual(st, v):
            S.append(st, a[0], (S.filler(st, a[2], lsub(k, n)),))
        else:
            return NotImplemented
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::reserve', 'alloc::string::String::reserve', 'alloc::vec::Vec::<T, A>::shrink_to_fit',
         'alloc::string::String::shrink_to_fit', 'alloc::vec::Vec::<T, A>::reserve_exact')
    def reserve(st, c, a, d):
        return [(st, unit())]

    @reg('alloc::vec::Vec::<T, A>::append')
    def vappend(st, c, a, d):
        b2, p2 = it.target(st, a[1])
        w = it.read(st, b2, p2)
        r = push_str(st, c, [a[0], cref(w)], d)
        it.write(st, b2, p2, ('s', ()) if S.textual(st, w) else ('v', ()))
        return r

    @reg('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut',
         'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut', 'core::str::<impl str>::get')
    def sget(st, c, a, d):
        n = m.seq_len(st, a[0])
        nm = c['name']
        if nm.startswith('get') and not is_int(a[1]):
            lo, hi = S.range_of(st, a[1], n)
            ok = it.branch(st, ('not', ('lt', hi, lo))) and it.branch(st, ('not', ('lt', n, hi)))
            if not ok:
                return [(st, m.none(d))]
            if 'impl str' in c['path']:
                return NotImplemented
            return [(st, m.some(d, cref(m.subseq(st, a[0], lo, hi))))]
        i = {'first': ZERO, 'last': lsub(n, ONE)}.get(nm.replace('_mut', ''))
        if i is None:
            i = as_lin(a[1])
            ok = it.branch(st, ('lt', i, n))
        else:
            ok = not it.branch(st, ('eq', n, ZERO))
        if not ok:
            return [(st, m.none(d))]
        if nm.endswith('_mut'):
            b, p = it.target(st, a[0])
            return [(st, m.some(d, ('R', b, p + (('i', i),))))]
        return [(st, m.some(d, S.elem_ref(st, a[0], i)))]

    @reg('core::slice::<impl [T]>::contains')
    def scontains(st, c, a, d):
        ps = m.parts(st, a[0])
        x = it.deref(st, a[1])
        for p in ps:
            if p[0] != 'e':
                return [(st, it.bterm(('contains', m.freeze_arg(st, a[0], c), m.freeze_arg(st, x, c))))]
        for p in ps:
            if it.decide(st, m.eq(st, p[1], x)):
                return [(st, True)]
        return [(st, False)]

    @reg('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
    def index(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        n = m.seq_len(st, a[0])
        i = a[1]
        it.obligation('index or slice out of bounds')
        if is_int(i):
            i = as_lin(i)
            if not it.branch(st, ('lt', i, n)):
                it.panic(st, 'index out of bounds')
                return []
            if c['name'] == 'index_mut':
                b, p = it.target(st, a[0])
                return [(st, ('R', b, p + (('i', i),)))]
            return [(st, S.elem_ref(st, a[0], i))]
        lo, hi = S.range_of(st, i, n)
        if it.branch(st, ('lt', hi, lo)) or it.branch(st, ('lt', n, hi)):
            it.panic(st, 'slice out of bounds')
            return []
        if T[it.strip_refs(c['args'][0])]['k'] == 'str' or T[it.strip_refs(c['args'][0])].get('path') == 'alloc::string::String':
            for x in (lo, hi):
                if not S.boundary(st, a[0], x, n):
                    it.panic(st.copy(), 'string slice at a position that may not be a character boundary', may=True)
        if c['name'] == 'index_mut':
            b, p = it.target(st, a[0])
            return [(st, ('R', b, p + (('rng', lo, hi),)))]
        if lo == ZERO and hi == n:
            return [(st, a[0])]
        return [(st, cref(m.subseq(st, a[0], lo, hi)))]

    @reg('core::str::<impl str>::split_at', 'core::slice::<impl [T]>::split_at')
    def split_at(st, c, a, d):
        n = m.seq_len(st, a[0])
        i = as_lin(a[1])
        it.obligation('split_at out of bounds')
        if it.branch(st, ('lt', n, i)):
            it.panic(st, 'split_at out of bounds')
            return []
        if 'str' in c['path'].split('::')[1] and not S.boundary(st, a[0], i, n):
            it.panic(st.copy(), 'split_at at a position that may not be a character boundary', may=True)
        return [(st, ('A', 't', 0, (cref(m.subseq(st, a[0], ZERO, i)), cref(m.subseq(st, a[0], i, n)))))]

    @reg('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
    def split_first(st, c, a, d):
        n = m.seq_len(st, a[0])
        if it.branch(st, ('eq', n, ZERO)):
            return [(st, m.none(d))]
        if c['name'] == 'split_first':
            e, r = S.elem_ref(st, a[0], ZERO), m.subseq(st, a[0], ONE, n)
        else:
            k = lsub(n, ONE)
            e, r = S.elem_ref(st, a[0], k), m.subseq(st, a[0], ZERO, k)
        return [(st, m.some(d, ('A', 't', 0, (e, cref(r)))))]

    @reg('core::str::<impl str>::starts_with', 'core::slice::<impl [T]>::starts_with', 'core::str::<impl str>::strip_prefix',
         'core::slice::<impl [T]>::strip_prefix')
    def starts(st, c, a, d):
        ps = m.pieces(st, a[0])
        k = S.starts(st, ps, a[1])
        if c['name'] == 'starts_with':
            return [(st, k is not None)]
        if k is None:
            return [(st, m.none(d))]
        return [(st, m.some(d, cref(m.subseq(st, a[0], k, m.text_len(st, a[0])))))]

    @reg('core::str::<impl str>::ends_with', 'core::slice::<impl [T]>::ends_with', 'core::str::<impl str>::strip_suffix')
    def ends(st, c, a, d):
        ps = m.pieces(st, a[0])
        k = S.ends(st, ps, a[1])
        if c['name'] == 'ends_with':
            return [(st, k is not None)]
        if k is None:
            return [(st, m.none(d))]
        n = m.text_len(st, a[0])
        return [(st, m.some(d, cref(m.subseq(st, a[0], ZERO, lsub(n, k)))))]

    @reg('core::str::<impl str>::rfind', 'core::str::<impl str>::rsplit_once')
    def srfind(st, c, a, d):
        out = []
        for s, hit in S.rfind(st, a[0], a[1]):
            if hit is None:
                out.append((s, m.none(d)))
            elif c['name'] == 'rfind':
                out.append((s, m.some(d, hit[0])))
            else:
                k, n = hit
                tot = m.seq_len(s, a[0])
                l, r = cref(m.subseq(s, a[0], ZERO, k)), cref(m.subseq(s, a[0], ladd(k, n), tot))
                out.append((s, m.some(d, ('A', 't', 0, (l, r)))))
        return out

    @reg('core::str::<impl str>::find', 'core::str::<impl str>::contains', 'core::str::<impl str>::split_once')
    def find(st, c, a, d):
        out = []
        if c['name'] == 'contains':
            ps, x = m.pieces(st, a[0]), it.deref_all(st, a[1])
            if isinstance(x, tuple) and x[0] == 'S' and T[x[2]]['k'] == 'char' and m.is_lit(ps):
                cs = cs_norm([(ord(ch), ord(ch)) for ch in m.lit_bytes(ps).decode('utf8', 'replace')])
                t = ('ins', m.char_term(x), cs)
                r = it.known(st, t) if cs else False
                return [(st, it.bterm(t) if r is None else r)]
        k0 = S.push_k(st, a[0])
        for s, r in S.find(st, a[0], a[1]):
            text = S.pop_k(s, k0)
            if c['name'] == 'contains':
                out.append((s, r is not None))
            elif c['name'] == 'find':
                out.append((s, m.none(d) if r is None else m.some(d, r[0])))
            elif r is None:
                out.append((s, m.none(d)))
            else:
                n = m.text_len(s, text)
                out.append((s, m.some(d, ('A', 't', 0, (cref(m.subseq(s, text, ZERO, r[0])), cref(m.subseq(s, text, ladd(r[0], r[1]), n)))))))
        return out

    @reg('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
    def eqi(st, c, a, d):
        return [(st, m.eq_text(st, S.upper(st, a[0]), S.upper(st, a[1])))]

    @reg('alloc::str::<impl str>::to_ascii_uppercase', 'alloc::slice::<impl [u8]>::to_ascii_uppercase')
    def upper(st, c, a, d):
        return [(st, S.retype(st, S.upper(st, a[0]), d))]

    @reg('alloc::str::<impl str>::to_ascii_lowercase', 'alloc::slice::<impl [u8]>::to_ascii_lowercase')
    def lower(st, c, a, d):
        return [(st, S.retype(st, S.upper(st, a[0], 'lower'), d))]

    @reg('alloc::str::<impl str>::to_uppercase', 'alloc::str::<impl str>::to_lowercase')
    def uupper(st, c, a, d):
        return [(st, S.derived(st, c['name'], a[0]))]

    @reg('core::str::<impl str>::make_ascii_uppercase', 'core::str::<impl str>::make_ascii_lowercase')
    def mupper(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        it.write(st, b, p, S.upper(st, cref(v), c['name'][11:16]))
        return [(st, unit())]

    @reg('core::str::<impl str>::trim', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end',
         'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches',
         'core::str::<impl str>::trim_left', 'core::str::<impl str>::trim_right')
    def trim(st, c, a, d):
        ps = m.pieces(st, a[0])
        if m.is_lit(ps) and len(a) == 1:
            b = m.lit_bytes(ps).decode('utf8', 'replace')
            f = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip}.get(c['name'])
            if f:
                return [(st, cref(lit(f(b))))]
        pt = S.pattern(st, a[1]) if len(a) > 1 else ('set', WHITE, cs_minus(CHAR, WHITE))
        if pt is not None and pt[0] == 'set' and all(p[0] in ('L', 'S') for p in ps):
            rest = ('set', pt[2], pt[1])
            name = c['name']
            sts = [(st, a[0], False)]
            if 'end' not in name and 'right' not in name:
                out = []
                for s, v, _ in sts:
                    k0 = S.push_k(s, v)
                    for s2, hit in S.find(s, v, rest):
                        v2 = S.pop_k(s2, k0)
                        out.append((s2, cref(m.subseq(s2, v2, hit[0], m.text_len(s2, v2))) if hit else None, True))
                sts = out
            if 'start' not in name and 'left' not in name:
                out = []
                for s, v, some in sts:
                    if v is None:
                        out.append((s, v, some))
                        continue
                    k0 = S.push_k(s, v)
                    for s2, hit in S.rfind(s, v, rest):
                        v2 = S.pop_k(s2, k0)
                        if hit or not some:
                            out.append((s2, cref(m.subseq(s2, v2, ZERO, ladd(*hit))) if hit else None, True))
                sts = out
            return [(s, cref(lit('')) if v is None else v) for s, v, _ in sts]
        args = [m.freeze_arg(st, x, c) for x in a[1:]]
        return [(st, cref(S.derived(st, c['name'], a[0], *args)))]

    @reg('alloc::str::<impl str>::replace', 'alloc::str::<impl str>::replacen', 'alloc::str::<impl str>::repeat')
    def replace(st, c, a, d):
        ps = m.pieces(st, a[0])
        args = [m.freeze_arg(st, x, c) for x in a[1:]]
        if c['name'] == 'replace' and len(args) == 2:
            try:
                q, r = m.pieces(st, args[0]), m.pieces(st, args[1])
                if m.is_lit(ps) and m.is_lit(q) and m.is_lit(r):
                    return [(st, lit(m.lit_bytes(ps).replace(m.lit_bytes(q), m.lit_bytes(r))))]
                if m.is_lit(q) and len(m.lit_bytes(q)) == 1 and all(S.excludes(st, p, m.lit_bytes(q)[0]) for p in ps):
                    return [(st, ('s', ps))]
            except Unsupported:
                pass
        return [(st, S.derived(st, c['name'], a[0], *args))]

    @reg('alloc::string::String::from_utf8', 'core::str::converts::from_utf8')
    def from_utf8(st, c, a, d):
        ps = m.pieces(st, a[0])
        ok = None
        if m.is_lit(ps):
            try:
                m.lit_bytes(ps).decode('utf8')
                ok = True
            except UnicodeDecodeError:
                ok = False
        elif all(p[0] == 'L' or p[0] == 'T' and p[1] in ('b64', 'dec', 'hex') for p in ps):
            ok = True
        else:
            ok = it.branch(st, ('utf8ok', ps))
        if ok:
            v = a[0] if c['name'] == 'from_utf8' and T[T[d]['args'][0]]['k'] == 'ref' else ('s', ps)
            return [(st, m.ok(d, v))]
        return [(st, m.err(d, it.sym(st, ('utf8err', ps), T[d]['args'][1])))]

    @reg('alloc::string::String::from_utf8_lossy')
    def lossy(st, c, a, d):
        v = it.deref_all(st, a[0])
        ps = m.pieces(st, v)
        if m.is_lit(ps):
            try:
                m.lit_bytes(ps).decode('utf8')
                return [(st, ('A', d, 0, (a[0],)))]
            except UnicodeDecodeError:
                pass
        return [(st, ('A', d, 0, (cref(('s', (('T', 'lossy', ps),))),)))]

    @reg('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
    def join(st, c, a, d):
        try:
            ps = m.parts(st, a[0])
        except Unsupported:
            ps = None
        if ps is not None and all(p[0] == 'e' for p in ps) and it.is_text(d):
            sep = m.pieces(st, a[1]) if len(a) > 1 else ()
            out = ()
            for i, p in enumerate(ps):
                if i:
                    out = pieces_cat(out, sep)
                out = pieces_cat(out, m.pieces(st, p[1]))
            return [(st, ('s', out))]
        args = [m.freeze_arg(st, x, c) for x in a]
        return [(st, it.sym(st, ('join',) + tuple(args), d))]

    @reg('core::ops::arith::Add::add')
    def add(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        if it.is_text(d):
            return [(st, ('s', pieces_cat(m.pieces(st, a[0]), m.pieces(st, a[1]))))]
        return NotImplemented

    @reg('core::ops::arith::AddAssign::add_assign')
    def addassign(st, c, a, d):
        if 'String' in (c.get('rpath') or ''):
            S.append(st, a[0], m.pieces(st, a[1]))
            return [(st, unit())]
        return NotImplemented

    @reg('core::str::<impl str>::parse', 'core::str::traits::FromStr::from_str')
    def parse(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        ta = T[d]['args'][0]
        if it.is_text(ta):
            return [(st, m.ok(d, S.copy_text(st, a[0], ta)))]
        v = m.freeze_arg(st, a[0], c)
        if it.branch(st, ('parses', ta, v)):
            return [(st, m.ok(d, it.sym(st, ('parsed', ta, v), ta)))]
        return [(st, m.err(d, it.sym(st, ('parseerr', ta, v), T[d]['args'][1])))]

    # ---------------------------------------------------------------- formatting
    @reg("core::fmt::Arguments::<'a>::new")
    def fa_new(st, c, a, d):
        t = m.lit_bytes(m.pieces(st, a[0]))
        args = it.deref_all(st, a[1])
        args = [p[1] for p in m.parts(st, args)]
        return [(st, ('fa', S.decode_template(t, args)))]

    @reg("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
    def fa_str(st, c, a, d):
        ps = m.pieces(st, a[0])
        return [(st, ('fa', (('t', ps),)))]

    @pat(r"^core::fmt::rt::Argument::<'_>::new_(\w+)$")
    def fa_arg(st, c, a, d):
        f = c.get('fmt')
        return [(st, ('fA', c['name'][4:], a[0], f['ty'] if f else -1, f.get('inst') if f else None))]

    @reg("core::fmt::Arguments::<'a>::as_str")
    def fa_asstr(st, c, a, d):
        return NotImplemented

    @reg('alloc::fmt::format', 'alloc::fmt::format::format_inner')
    def fformat(st, c, a, d):
        return S.to_text(st, [('fa', a[0])])

    @reg('alloc::string::ToString::to_string')
    def to_string(st, c, a, d):
        f = c.get('fmt')
        if f is None:
            v = it.deref_all(st, a[0])
            if S.textual(st, v):
                return [(st, S.copy_text(st, a[0], d))]
            return [(st, ('s', (('T', 'display', m.freeze_arg(st, a[0], c)),)))]
        if it.is_text(f['ty']):
            return [(st, S.copy_text(st, a[0], d))]
        return S.to_text(st, [('arg', ('fA', 'display', a[0], f['ty'], f.get('inst')), None)])

    @reg("core::fmt::Formatter::<'a>::write_fmt", 'core::fmt::Write::write_fmt')
    def write_fmt(st, c, a, d):
        return [(s, m.ok(d, unit()) if ok else m.err(d, S.fmterr(d))) for s, ok in S.emit(st, a[0], [('fa', a[1])])]

    @reg("core::fmt::Formatter::<'a>::write_str", 'core::fmt::Write::write_str', "core::fmt::Formatter::<'a>::pad",
         '<core::fmt::Formatter<\'_> as core::fmt::Write>::write_str')
    def write_str(st, c, a, d):
        S.out(st, a[0], m.pieces(st, a[1]))
        return [(st, m.ok(d, unit()))]

    @reg('core::fmt::Write::write_char', "<core::fmt::Formatter<'_> as core::fmt::Write>::write_char")
    def write_char(st, c, a, d):
        S.out(st, a[0], (m.char_piece(st, a[1]),))
        return [(st, m.ok(d, unit()))]

    @pat(r'^core::fmt::(Display|Debug|UpperHex|LowerHex)::fmt$')
    def fmt_direct(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        kind = {'Display': 'display', 'Debug': 'debug', 'UpperHex': 'upper_hex', 'LowerHex': 'lower_hex'}[c['path'].split('::')[2]]
        ty = c['args'][0] if c.get('args') else -1
        return [(s, m.ok(d, unit()) if ok else m.err(d, S.fmterr(d)))
                for s, ok in S.emit(st, a[1], [('arg', ('fA', kind, a[0], it.strip_refs(ty) if ty >= 0 else -1, None), None)])]

    @pat(r"^core::fmt::Formatter::<'a>::debug_", r'^core::fmt::builders::')
    def fmt_debug(st, c, a, d):
        if T[d]['s'].startswith('core::result::Result') and c['name'].startswith('debug_') and a:
            S.out(st, a[0], (('T', 'debug', c['name']),))
            return [(st, m.ok(d, unit()))]
        return NotImplemented

    # ---------------------------------------------------------------- logging
    @reg('log::max_level')
    def max_level(st, c, a, d):
        return [(st, ('S', ('loglevel',), d))]

    @pat(r'^<log::Level as core::cmp::Partial(Ord|Eq)<log::LevelFilter>>::\w+$')
    def loglevel(st, c, a, d):
        if T[d]['k'] == 'bool':
            return [(st.copy(), True), (st, False)]
        return NotImplemented

    @reg('log::__private_api::log')
    def log(st, c, a, d):
        return [(st, unit())]

    @reg('log::__private_api::loc')
    def loc(st, c, a, d):
        return [(st, cref(('S', ('loc',), T[d]['elem'] if T[d]['k'] == 'ref' else d)))]

    @reg('log::__private_api::enabled')
    def lenabled(st, c, a, d):
        return [(st.copy(), True), (st, False)]

    # ---------------------------------------------------------------- I/O errors
    @reg('core::io::error::Error::kind', 'std::io::error::Error::kind')
    def iokind(st, c, a, d):
        v = a[0]
        while isinstance(v, tuple) and v[0] in ('R', 'B'):
            v = it.deref(st, v)
        if v[0] != 'S' or has_unknown(v):
            return NotImplemented
        return [(st, ('S', ('iokind', v[1]), d))]

    @reg('core::task::wake::Waker::wake_by_ref', 'core::task::wake::Waker::wake')
    def wake(st, c, a, d):
        return [(st, ('A', 't', 0, ()))]

    # ---------------------------------------------------------------- base64
    @reg('base64::encode::encode_config', 'base64::encode_config', 'base64::encode::encode', 'base64::encode')
    def b64enc(st, c, a, d):
        cfg = m.freeze_arg(st, a[1], c) if len(a) > 1 else None
        std = cfg is None or 'base64::STANDARD' == S.const_name(cfg)
        ps = m.pieces(st, a[0])
        if std and m.is_lit(ps):
            import base64
            return [(st, lit(base64.b64encode(m.lit_bytes(ps))))]
        return [(st, ('s', (('T', 'b64', ps) if std else ('T', 'b64cfg', ps, cfg),)))]

    @reg('base64::decode::decode', 'base64::decode', 'base64::decode::decode_config', 'base64::decode_config')
    def b64dec(st, c, a, d):
        cfg = m.freeze_arg(st, a[1], c) if len(a) > 1 else None
        std = cfg is None or 'base64::STANDARD' == S.const_name(cfg)
        ps = m.pieces(st, a[0])
        if std and m.is_lit(ps):
            import base64
            try:
                return [(st, m.ok(d, lit(base64.b64decode(m.lit_bytes(ps), validate=True))))]
            except Exception:
                return [(st, m.err(d, it.sym(st, ('b64err', ps), T[d]['args'][1])))]
        tag = 'b64dec' if std else 'b64deccfg'
        if it.branch(st, (tag + 'ok', ps)):
            return [(st, m.ok(d, ('S', (tag, ps), T[d]['args'][0])))]
        return [(st, m.err(d, it.sym(st, (tag + 'err', ps), T[d]['args'][1])))]

    # ---------------------------------------------------------------- sets
    @reg('std::collections::hash::set::HashSet::<T>::new', 'std::collections::hash::set::HashSet::<T>::with_capacity')
    def hsnew(st, c, a, d):
        return [(st, ('hs', ()))]

    def hsput(st, cur, v):
        """add v to a set: only elements the analysis asks for are remembered"""
        if it.hooks is not None:
            it.hooks.on_insert(st, cur, v)
            if isinstance(cur, tuple) and cur[0] == 'hs' and v not in cur[1] and it.hooks.tracks(v):
                return ('hs', tuple(sorted(cur[1] + (v,), key=repr)))
        return cur

    S.hsput = hsput

    @reg('std::collections::hash::set::HashSet::<T, S, A>::insert')
    def hsinsert(st, c, a, d):
        b, p = it.target(st, a[0])
        cur = it.read(st, b, p)
        v = it.freeze(st, a[1])
        if isinstance(cur, tuple) and cur[0] == 'S':
            # a set of the environment: unchanged only if it held the value
            s = st.copy()
            it.write(s, b, p, ('S', ('with', cur[1], v), cur[2]))
            return [(s, True), (st, False)]
        new = hsput(st, cur, v)
        if new != cur:
            it.write(st, b, p, new)
        elif isinstance(cur, tuple) and cur[0] == 'hs' and v in cur[1]:
            return [(st, False)]
        return [(st.copy(), True), (st, False)]

    @reg('std::collections::hash::set::HashSet::<T, S, A>::remove', 'std::collections::hash::set::HashSet::<T, S, A>::clear',
         'std::collections::hash::set::HashSet::<T, S, A>::retain')
    def hsremove(st, c, a, d):
        b, p = it.target(st, a[0])
        cur = it.read(st, b, p)
        if it.hooks is not None:
            it.hooks.on_insert(st, cur, ('removed', c['name']))
        if isinstance(cur, tuple) and cur[0] == 'S':
            if c['name'] != 'remove':
                it.write(st, b, p, ('hs', ()) if c['name'] == 'clear' else ('S', ('without', cur[1], st.fresh()), cur[2]))
                if c['name'] == 'retain':
                    st.inexact('may')
                return [(st, unit())]
            s = st.copy()
            it.write(s, b, p, ('S', ('without', cur[1], it.freeze(st, it.deref_all(st, a[1]))), cur[2]))
            return [(s, True), (st, False)]
        if isinstance(cur, tuple) and cur[0] == 'hs' and cur[1]:
            v = it.freeze(st, it.deref_all(st, a[1])) if c['name'] == 'remove' else None
            if c['name'] == 'retain':
                raise Unsupported('HashSet::retain')
            it.write(st, b, p, ('hs', tuple(x for x in cur[1] if v is not None and x != v)))
        if T[d]['k'] == 'bool':
            return [(st.copy(), True), (st, False)]
        return [(st, unit())]

    @reg('std::collections::hash::set::HashSet::<T, S, A>::contains')
    def hscontains(st, c, a, d):
        v = m.freeze_arg(st, a[0], c)
        x = m.freeze_arg(st, a[1], c)
        return [(st, it.bterm(('contains', v, S.concrete(st, x))))]

    @reg('std::collections::hash::set::HashSet::<T, S, A>::get')
    def hsget(st, c, a, d):
        out = []
        v = m.freeze_arg(st, a[0], c)
        x = S.concrete(st, m.freeze_arg(st, a[1], c))
        for s, q in S.both(st, it.bterm(('contains', v, x))):
            out.append((s, m.some(d, cref(x)) if q else m.none(d)))
        return out

    @reg('std::collections::hash::set::HashSet::<T, S, A>::iter')
    def hsiter(st, c, a, d):
        x = it.deref_all(st, a[0])
        if isinstance(x, tuple) and x[0] == 'S':
            return [(st, ('it', 'opaque', x, True))]
        return NotImplemented

    @reg('anyhow::__private::not')
    def ahnot(st, c, a, d):
        v = it.deref_all(st, a[0])
        if isinstance(v, bool):
            return [(st, not v)]
        if isinstance(v, tuple) and v[0] == 'S' and T[v[2]]['k'] == 'bool':
            return [(st, m.neg(v))]
        return NotImplemented

    @reg('std::collections::hash::set::HashSet::<T, S, A>::is_empty')
    def hsempty(st, c, a, d):
        return [(st, it.bterm(('hsempty', m.freeze_arg(st, a[0], c))))]

    @reg('core::iter::traits::collect::Extend::extend')
    def extend(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        if isinstance(v, tuple) and v[0] == 'hs':
            def step(s, vals, item):
                if item is None:
                    return [(s, None, ('done', unit()))]
                b, p = it.target(s, vals[0])
                cur = it.read(s, b, p)
                new = hsput(s, cur, it.freeze(s, it.deref_all(s, item)))
                if new != cur:
                    it.write(s, b, p, new)
                return [(s, vals, None)]
            return S.loop(st, S.into_iter(st, a[1]), (a[0],), step)

        def step2(s, vals, item):
            if item is None:
                return [(s, None, ('done', unit()))]
            b, p = it.target(s, vals[0])
            w = it.read(s, b, p)
            x = it.deref_all(s, item) if S.textual(s, w) else item
            if S.textual(s, w):
                S.append(s, vals[0], (m.char_piece(s, x),) if isinstance(x, int) or x[0] == 'S' and not it.is_text(x[2]) else m.pieces(s, x))
            else:
                it.write(s, b, p, m.push(('v', m.parts(s, w)), item))
            return [(s, vals, None)]
        return S.loop(st, S.into_iter(st, a[1]), (a[0],), step2)

    # ---------------------------------------------------------------- iterators
    @reg('core::iter::traits::collect::IntoIterator::into_iter')
    def into_iter(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        return [(st, S.into_iter(st, a[0]))]

    @reg('core::slice::<impl [T]>::iter')
    def siter(st, c, a, d):
        return [(st, S.into_iter(st, a[0]))]

    @reg('core::slice::<impl [T]>::iter_mut')
    def siter_mut(st, c, a, d):
        return NotImplemented

    @reg('core::str::<impl str>::chars', 'core::str::<impl str>::char_indices')
    def chars(st, c, a, d):
        ps = m.pieces(st, a[0])
        whole = S.whole(st, ps)
        return [(st, ('it', 'chars', ps, c['name'] == 'char_indices', ZERO, whole, (), None))]

    @reg('core::str::<impl str>::bytes')
    def sbytes(st, c, a, d):
        return [(st, ('it', 'bytes', m.pieces(st, a[0]), False))]

    @reg('core::str::<impl str>::split_whitespace', 'core::str::<impl str>::split_ascii_whitespace')
    def split_ws(st, c, a, d):
        ps = m.pieces(st, a[0])
        sty = S.strref()
        if m.is_lit(ps):
            return [(st, ('it', 'seq', tuple(('e', cref(lit(w))) for w in m.lit_bytes(ps).decode('utf8', 'replace').split()), False))]
        t = S.text_term(st, ps)
        case = None
        if isinstance(t, tuple) and t[0] in ('upper', 'lower'):
            case, t = t
        nm = 'words' if c['name'] == 'split_whitespace' else 'awords'
        n = it.num(st, ('len', (nm, t)))
        part = ('S', (nm, t), sty, ZERO, n)
        if case:
            part = ('M', part, case)
        return [(st, ('it', 'seq', (part,), False))]

    @reg('core::str::<impl str>::lines', 'core::str::<impl str>::split', 'core::str::<impl str>::splitn', 'core::str::<impl str>::rsplit',
         'core::str::<impl str>::split_terminator', 'core::slice::<impl [T]>::split')
    def lines(st, c, a, d):
        ps = m.pieces(st, a[0])
        sty = S.strref()
        args = tuple(m.freeze_arg(st, x, c) for x in a[1:])
        if m.is_lit(ps) and c['name'] == 'split' and len(args) == 1:
            try:
                sep = m.lit_bytes(m.pieces(st, args[0])) if not isinstance(args[0], int) else chr(args[0]).encode()
                return [(st, ('it', 'seq', tuple(('e', cref(lit(w))) for w in m.lit_bytes(ps).split(sep)), False))]
            except Unsupported:
                pass
        t = (c['name'], S.text_term(st, ps)) + args
        n = it.num(st, ('len', t))
        if c['name'].startswith(('split', 'rsplit')) and n[1] == 0 and len(n[2]) == 1 and c['name'] != 'split_terminator':
            # at least one piece
            st.nums[('len', t)] = n = ladd(n, ONE) if ('len1', t) not in st.facts else n
            st.facts[('len1', t)] = True
        return [(st, ('it', 'seq', (('S', t, sty, ZERO, n),), False))]

    def adaptor(kind, nargs):
        def f(st, c, a, d):
            return [(st, ('it', kind, S.into_iter(st, a[0])) + tuple(a[1:1 + nargs]))]
        return f
    IT = 'core::iter::traits::iterator::Iterator::'
    for k in ('map', 'filter', 'filter_map', 'take_while', 'skip_while', 'inspect', 'flat_map', 'map_while'):
        tab[IT + k] = adaptor(k, 1)
    @reg(IT + 'skip')
    def skip(st, c, a, d):
        inner, n = S.into_iter(st, a[0]), as_lin(a[1])
        if n == ZERO:
            return [(st, inner)]
        if inner[0] == 'it' and inner[1] == 'seq' and not n[2] and not any(p[0] in 'MG' for p in inner[2]):
            seq = ('v', inner[2])
            ln = m.seq_len(st, seq)
            if it.branch(st, ('lt', ln, n)):
                return [(st, ('it', 'seq', (), inner[3]))]
            return [(st, ('it', 'seq', m.subseq(st, seq, n, ln)[1], inner[3]))]
        return [(st, ('it', 'skip', inner, n))]

    for k in ('take',):
        tab[IT + k] = lambda st, c, a, d: [(st, ('it', c['name'], S.into_iter(st, a[0]), as_lin(a[1])))]
    tab[IT + 'enumerate'] = lambda st, c, a, d: [(st, ('it', 'enum', S.into_iter(st, a[0]), ZERO))]
    tab[IT + 'zip'] = lambda st, c, a, d: [(st, ('it', 'zip', S.into_iter(st, a[0]), S.into_iter(st, a[1])))]
    tab[IT + 'chain'] = lambda st, c, a, d: [(st, ('it', 'chain', S.into_iter(st, a[0]), S.into_iter(st, a[1])))]
    for k in ('cloned', 'copied'):
        tab[IT + k] = lambda st, c, a, d: [(st, ('it', 'cloned', S.into_iter(st, a[0])))]
    tab[IT + 'flatten'] = lambda st, c, a, d: [(st, ('it', 'flat', S.into_iter(st, a[0]), None, None))]
    tab[IT + 'flat_map'] = lambda st, c, a, d: [(st, ('it', 'flat', S.into_iter(st, a[0]), a[1], None))]

    @reg(IT + 'step_by')
    def step_by(st, c, a, d):
        n = as_lin(a[1])
        if n[2] or n == ZERO:
            return NotImplemented
        return [(st, ('it', 'step', S.into_iter(st, a[0]), ZERO, lsub(n, ONE)))]

    @reg('core::iter::sources::from_fn::from_fn')
    def from_fn(st, c, a, d):
        return [(st, ('it', 'fromfn', a[0]))]

    tab[IT + 'by_ref'] = ident
    tab[IT + 'fuse'] = ident
    tab[IT + 'peekable'] = lambda st, c, a, d: [(st, ('it', 'peek', S.into_iter(st, a[0]), None))]
    tab[IT + 'rev'] = lambda st, c, a, d: [(st, ('it', 'rev', S.into_iter(st, a[0])))]

    @reg('core::iter::sources::once::once')
    def once(st, c, a, d):
        return [(st, ('it', 'seq', (('e', a[0]),), False))]

    @reg('core::iter::sources::empty::empty')
    def empty(st, c, a, d):
        return [(st, ('it', 'seq', (), False))]

    @reg(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
    def inext(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        while isinstance(v, tuple) and v[0] == 'R':
            b, p = v[1], v[2]
            v = it.read(st, b, p)
        if c['name'] == 'next_back':
            v = ('it', 'rev', S.into_iter(st, v))
        key = S.push_k(st, ('ref', b, p) if b[0] != 'c' else None)
        out = []
        for s, v2, item in S.next(st, v):
            S.pop_k(s, key)
            if c['name'] == 'next_back':
                v2 = v2[2]
            it.write(s, b, p, v2)
            out.append((s, m.none(d) if item is None else m.some(d, item)))
        return out

    @reg("core::iter::adapters::peekable::Peekable::<I>::peek")
    def peek(st, c, a, d):
        b, p = it.target(st, a[0])
        v = it.read(st, b, p)
        if v[3] is None:
            out = []
            for s, v2, item in S.next(st, v[2]):
                it.write(s, b, p, ('it', 'peek', v2, ('pk', item)))
                out.append((s, m.none(d) if item is None else m.some(d, cref(item))))
            return out
        return [(st, m.none(d) if v[3][1] is None else m.some(d, cref(v[3][1])))]

    @reg("core::str::iter::Chars::<'a>::as_str", "core::str::iter::CharIndices::<'a>::as_str")
    def chars_as_str(st, c, a, d):
        v = it.deref_all(st, a[0])
        return [(st, cref(('s', v[2])))]

    @reg("core::str::iter::CharIndices::<'a>::offset")
    def ci_off(st, c, a, d):
        return [(st, it.deref_all(st, a[0])[4])]

    def consumer(name):
        def d_(f):
            tab[IT + name] = f
            return f
        return d_

    def take_iter(st, v):
        # iterator passed by value or by reference
        return S.into_iter(st, v)

    @consumer('any')
    def c_any(st, c, a, d):
        return S.any_all(st, a, True)

    @consumer('all')
    def c_all(st, c, a, d):
        return S.any_all(st, a, False)

    def searching(name):
        def f(st, c, a, d):
            def step(s, vals, item):
                if item is None:
                    return [(s, None, ('done', m.none(d)))]
                arg = cref(item) if name == 'find' else item
                out = []
                for s2, r, kv in it.call_keep(s, (vals[0], vals[1], item), vals[0], [arg], m.p.tyname['bool']):
                    if name == 'find_map':
                        if it.variant(s2, r) == SOME:
                            out.append((s2, None, ('done', r)))
                        else:
                            out.append((s2, (kv[0], kv[1]), None))
                        continue
                    for s3, b in S.both(s2, r):
                        if b:
                            out.append((s3, None, ('done', m.some(d, kv[2] if name == 'find' else kv[1]))))
                        else:
                            out.append((s3, (kv[0], ladd(kv[1], ONE)), None))
                return out
            return S.loop(st, S.into_iter(st, a[0]), (a[1], ZERO), step, a[0])
        return f
    for k in ('find', 'position', 'find_map'):
        tab[IT + k] = searching(k)

    @consumer('for_each')
    def c_for_each(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', unit()))]
            return [(s2, (kv[0],), None) for s2, r, kv in it.call_keep(s, (vals[0],), vals[0], [item])]
        return S.loop(st, S.into_iter(st, a[0]), (a[1],), step)

    @consumer('try_for_each')
    def c_try_for_each(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                ty = d
                return [(s, None, ('done', ('A', ty, OK, (unit(),))))]
            out = []
            for s2, r, kv in it.call_keep(s, (vals[0],), vals[0], [item]):
                if it.variant(s2, r) == OK:
                    out.append((s2, (kv[0],), None))
                else:
                    out.append((s2, None, ('done', r)))
            return out
        if T[d].get('path') != 'core::result::Result':
            return NotImplemented
        return S.loop(st, S.into_iter(st, a[0]), (a[1],), step)

    @consumer('fold')
    def c_fold(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', vals[1]))]
            return [(s2, (kv[0], r), None) for s2, r, kv in it.call_keep(s, (vals[0],), vals[0], [vals[1], item])]
        return S.loop(st, S.into_iter(st, a[0]), (a[2], a[1]), step)

    @consumer('count')
    def c_count(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', vals[0]))]
            return [(s, (ladd(vals[0], ONE),), None)]
        return S.loop(st, S.into_iter(st, a[0]), (ZERO,), step)

    @consumer('partition')
    def c_partition(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', ('A', 't', 0, (vals[1], vals[2]))))]
            out = []
            for s2, r, kv in it.call_keep(s, vals + (item,), vals[0], [cref(item)], m.p.tyname['bool']):
                for s3, ok in S.both(s2, r):
                    x = kv[3]
                    out.append((s3, (kv[0], m.push(kv[1], x) if ok else kv[1], kv[2] if ok else m.push(kv[2], x)), None))
            return out
        return S.loop(st, S.into_iter(st, a[0]), (a[1], ('v', ()), ('v', ())), step)

    @consumer('last')
    def c_last(st, c, a, d):
        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', m.none(d) if vals[0] is None else m.some(d, vals[0])))]
            return [(s, (item,), None)]
        return S.loop(st, S.into_iter(st, a[0]), (None,), step)

    @consumer('nth')
    def c_nth(st, c, a, d):
        n = as_lin(a[1])
        if n[2] or n[1] > 16:
            return NotImplemented
        b, p = it.target(st, a[0])
        sts = [(st, it.read(st, b, p), None, False)]
        for _ in range(n[1] + 1):
            nx = []
            for s, v, item, done in sts:
                if done:
                    nx.append((s, v, None, True))
                    continue
                k = None
                r = S.next(s, v)
                for s2, v2, i2 in r:
                    nx.append((s2, v2, i2, i2 is None))
            sts = nx
        out = []
        for s, v, item, done in sts:
            it.write(s, b, p, v)
            out.append((s, m.none(d) if item is None else m.some(d, item)))
        return out

    @consumer('collect')
    def c_collect(st, c, a, d):
        return S.collect(st, S.into_iter(st, a[0]), d)

    @reg('core::iter::traits::collect::FromIterator::from_iter')
    def from_iter(st, c, a, d):
        return S.collect(st, S.into_iter(st, a[0]), d)

    # ---------------------------------------------------------------- calling
    @pat(r'^core::ops::function::Fn(Once|Mut)?::call(_once|_mut)?$')
    def fncall(st, c, a, d):
        if c.get('inst') is not None:
            return NotImplemented
        return it.call_value(st, a[0], list(a[1][3]), d)

    # ---------------------------------------------------------------- futures, I/O
    @reg('core::future::get_context')
    def getcx(st, c, a, d):
        return [(st, cref(('S', ('cx',), T[d]['elem'] if T[d]['k'] == 'ref' else d)))]

    @reg('core::pin::Pin::<Ptr>::as_mut', 'core::pin::Pin::<Ptr>::as_ref', "core::pin::Pin::<&'a mut T>::as_deref_mut")
    def pin_as_mut(st, c, a, d):
        v = it.deref(st, a[0])
        if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and T[v[1]].get('path') == 'core::pin::Pin':
            v = v[3][0]
        if isinstance(v, tuple) and v[0] == 'R':
            return [(st, v)]
        return [(st, a[0])]

    @reg('core::pin::Pin::<Ptr>::set')
    def pin_set(st, c, a, d):
        b, p = it.target(st, it.deref(st, a[0]))
        it.write(st, b, p, a[1])
        return [(st, unit())]

    @reg('core::future::future::Future::poll')
    def poll(st, c, a, d):
        return S.poll(st, a[0], d)

    @pat(r'^(tokio|async_std|futures\w*)::.*(Ext|::WriteExt|::ReadExt|::BufReadExt|::Write|::Read|::BufRead)::'
         r'(write_all|write|flush|read_line|read_to_end|read_to_string|read_exact|read_until|read|shutdown|close|write_u8|write_vectored|write_buf|read_buf|fill_buf|consume|write_fmt)$')
    def iofut(st, c, a, d):
        return [(st, ('fut', c['name']) + tuple(a))]

    @pat(r'^(tokio|async_std|futures\w*)::.*copy(_buf)?(::copy(_buf)?)?$')
    def iocopy(st, c, a, d):
        return [(st, ('fut', 'copy') + tuple(a))]

    @pat(r'^(tokio|async_std|futures\w*)::.*(Ext|::ReadExt|::Read)::take$')
    def iotake(st, c, a, d):
        return [(st, ('tk', a[0], a[1]))]

    @pat(r'^(tokio|async_std|futures\w*)::.*::BufReader::<R>::(new|with_capacity)$')
    def bufreader(st, c, a, d):
        return [(st, ('rd', a[-1]))]

    @pat(r'^(tokio|async_std|futures\w*)::.*::Buf(Reader|Writer|Stream)::<\w+>::(get_mut|get_ref|into_inner)$')
    def bufinner(st, c, a, d):
        return NotImplemented

    @pat(r'^(core|std|async_std|futures\w*)::.*::?Cursor::<T>::(new)$')
    def cursor(st, c, a, d):
        return [(st, ('cur', a[0], ZERO))]

    @pat(r'^(core|std|async_std|futures\w*)::.*::?Cursor::<T>::(into_inner|get_ref|get_mut|position|set_position)$')
    def cursorops(st, c, a, d):
        n = c['name']
        v = it.deref_all(st, a[0])
        if isinstance(v, tuple) and v[0] == 'cur':
            if n == 'into_inner':
                return [(st, v[1])]
            if n == 'get_ref':
                return [(st, cref(v[1]))]
            if n == 'position':
                return [(st, v[2])]
            if n == 'set_position':
                b, p = it.target(st, a[0])
                it.write(st, b, p, ('cur', v[1], as_lin(a[1])))
                return [(st, unit())]
        return NotImplemented

    import nomlib
    nomlib.register(m, tab, pats, reg)
    return tab, pats


class Std:
    def __init__(self, m):
        self.m = m
        self.it = m.it
        self.T = m.T
        self.nest = 0

    # ---- stash values in memory while nested calls run
    def push_k(self, st, v):
        n = len(st.mem)
        while ('k', 100 + self.it.depth, n) in st.mem:
            n += 1
        key = ('k', 100 + self.it.depth, n)
        st.mem[key] = ('kept', v)
        return key

    def pop_k(self, st, key):
        return st.mem.pop(key)[1]

    def boolterm(self, st, term):
        r = self.it.known(st, term)
        return r if r is not None else self.it.bterm(term)

    def both(self, st, v):
        """[(state, True/False)] for a boolean value"""
        if isinstance(v, bool) or isinstance(v, int):
            return [(st, bool(v))]
        r = self.it.known(st, v[1])
        if r is not None:
            return [(st, r)]
        out = []
        s2 = st.copy()
        if self.it.assume(s2, v[1], True):
            out.append((s2, True))
        if self.it.assume(st, v[1], False):
            out.append((st, False))
        return out

    def textual(self, st, v):
        return isinstance(v, tuple) and (v[0] == 's' or v[0] == 'S' and self.it.is_text(v[2]))

    def retype(self, st, v, d):
        if isinstance(v, tuple) and v[0] == 'S' and v[2] != d and self.T[d]['k'] != 'ref':
            return ('S', v[1], d)
        return v

    def copy_text(self, st, v, d):
        w = self.it.deref_all(st, v)
        if isinstance(w, tuple) and w[0] == 'S' and self.it.is_text(w[2]):
            return ('S', w[1], d)
        return ('s', self.m.pieces(st, w))

    def default(self, d):
        t = self.T[d]
        if self.it.is_text(d):
            return ('s', ())
        p = t.get('path')
        if p == 'alloc::vec::Vec':
            return ('v', ())
        if p == 'core::option::Option':
            return ('A', d, NONE, ())
        if p == 'std::collections::hash::set::HashSet':
            return ('hs', ())
        if t['k'] == 'bool':
            return False
        if t['k'] in ('int', 'uint'):
            return self.it.mk_int(d, 0)
        if t['k'] == 'tuple':
            fs = [self.default(f) for f in t['fields']]
            return None if any(f is None for f in fs) else ('A', 't', 0, tuple(fs))
        if t['k'] == 'ref' and self.T[t['elem']]['k'] == 'str':
            return cref(lit(b''))
        return None

    def strref(self):
        for n in ('&str', "&'static str"):
            if n in self.m.p.tyname:
                return self.m.p.tyname[n]
        raise Unsupported('no &str type')

    def const_name(self, v):
        v2 = v
        while isinstance(v2, tuple) and v2 and v2[0] == 'R':
            v2 = v2[1][1]
        if isinstance(v2, tuple) and v2[0] == 'S' and v2[1][0] == 'const':
            return v2[1][1]
        return None

    def concrete(self, st, v):
        """enum values with a known variant are shown as that variant"""
        if isinstance(v, tuple) and v[0] == 'S':
            vs = st.facts.get(('var', v[1]))
            if vs is not None and len(vs) == 1:
                e = self.it.expand(st, v, next(iter(vs)))
                if e is not None:
                    return e
        if isinstance(v, tuple) and v[0] == 'A':
            return ('A', v[1], v[2], tuple(self.concrete(st, x) for x in v[3]))
        if isinstance(v, tuple) and v[0] == 'R' and v[1][0] == 'c':
            return ('R', ('c', self.concrete(st, v[1][1])), v[2])
        return v

    def in_set(self, st, v, cs):
        if isinstance(v, int):
            return any(l <= v <= h for l, h in cs)
        cs = cs_inter(cs, CHAR if self.T[v[2]]['k'] == 'char' else U8)
        return self.boolterm(st, ('ins', v[1], cs))

    def whole(self, st, ps):
        """the term whose complete text these pieces are"""
        if len(ps) == 1 and ps[0][0] == 'S' and ps[0][2] == ZERO:
            n = st.nums.get(('len', ps[0][1]))
            if n == ps[0][3]:
                return ps[0][1]
        return None

    def text_term(self, st, ps):
        t = self.whole(st, ps)
        return t if t is not None else ('text', ps)

    def derived(self, st, fn, v, *args):
        ps = self.m.pieces(st, v)
        return ('s', (('T', fn, ps) + args,))

    def upper(self, st, v, how='upper'):
        ps = self.m.pieces(st, v)
        w = self.whole(st, ps)
        if w is not None:
            if isinstance(w, tuple) and w[0] in ('upper', 'lower'):
                w = w[1]
            t = (how, w)
            st.nums.setdefault(('len', t), ps[0][3])
            u = self.it.deref_all(st, v)
            return ('S', t, u[2] if u[0] == 'S' else self.m.p.tyname['alloc::string::String'])
        out = []
        for p in ps:
            if p[0] == 'L':
                out.append(('L', p[1].upper() if how == 'upper' else p[1].lower()))
            else:
                out.append(('T', how, p))
        return ('s', tuple(out))

    def excludes(self, st, p, b):
        """does the piece certainly not contain byte b (< 128)?"""
        if p[0] == 'L':
            return b not in p[1]
        if p[0] == 'S':
            cs = self.piece_chars(st, p)
            return cs is not None and not any(l <= b <= h for l, h in cs)
        return False

    def piece_chars(self, st, p):
        for k in (('chars', ('part', p[1], p[2], p[3])), ('chars', p[1])):
            cs = st.facts.get(k)
            if cs is not None:
                return cs
        if len(p) == 4 and ladd(p[2], ONE) == p[3]:
            for t in (('ch', p[1], p[2]), ('idx', p[1], p[2])):
                cs = st.facts.get(('cs', t))
                if cs is not None:
                    return cs
        return None

    def filler(self, st, v, n):
        return ('T', 'fill', v, n)

    def append(self, st, ref, ps):
        it = self.it
        b, p = it.target(st, ref)
        v = it.read(st, b, p)
        while isinstance(v, tuple) and v[0] == 'R':
            b, p = v[1], v[2]
            v = it.read(st, b, p)
        it.write(st, b, p, ('s', pieces_cat(self.m.pieces(st, v), ps)))

    def range_of(self, st, r, n):
        if r[0] == 'A' and r[1] != 't':
            p = self.T[r[1]]['path'].rsplit('::', 1)[1]
            f = [as_lin(x) for x in r[3]]
            if p == 'Range':
                return f[0], f[1]
            if p == 'RangeFrom':
                return f[0], n
            if p == 'RangeTo':
                return ZERO, f[0]
            if p == 'RangeFull':
                return ZERO, n
            if p == 'RangeInclusive':
                return f[0], ladd(f[1], ONE)
            if p == 'RangeToInclusive':
                return ZERO, ladd(f[0], ONE)
        raise Unsupported('range %s' % show(r)[:50])

    def elem_ref(self, st, v, i):
        w = v
        it = self.it
        if isinstance(w, tuple) and w[0] == 'R' and w[1][0] != 'c':
            x = it.deref(st, w)
            while isinstance(x, tuple) and x[0] == 'R':
                w = x
                x = it.deref(st, w)
            if isinstance(x, tuple) and x[0] == 'v' and not i[2] and all(p[0] == 'e' for p in x[1]) and w[1][0] != 'c':
                return ('R', w[1], w[2] + (('i', i),))
        e = self.m.at(st, it.deref_all(st, v), i)
        if isinstance(e, tuple) and e[0] == 'S' and self.T[e[2]]['k'] == 'ref':
            return cref(e)
        return cref(e)

    def boundary(self, st, v, x, n):
        if x == ZERO or x == n:
            return True
        m = self.m
        pos = ZERO
        for p in m.pieces(st, v):
            ln = m.plen(st, p)
            end = ladd(pos, ln)
            if x == pos or x == end:
                return True
            if p[0] == 'L' and not lsub(x, pos)[2]:
                k = lsub(x, pos)[1]
                if 0 <= k <= len(p[1]):
                    return k == len(p[1]) or (p[1][k] & 0xC0) != 0x80
            if p[0] == 'S':
                r = self.it.cmp(st, 'lt', x, end)
                if r is not False:
                    off = ladd(p[2], lsub(x, pos))
                    if st.facts.get(('bnd', p[1], off)):
                        return True
                    cs = st.facts.get(('chars', p[1]))
                    if cs is not None and cs[-1][1] < 128:
                        return True
                    prev = ladd(off, lin(-1))
                    for t in (('ch', p[1], prev), ('idx', p[1], prev)):
                        cs = st.facts.get(('cs', t))
                        if cs is not None and cs[-1][1] < 128:
                            return True
                    for t in (('idx', p[1], off), ('ch', p[1], off)):
                        cs = st.facts.get(('cs', t))
                        if cs is not None and cs[-1][1] < 128:
                            return True
                    return False
            pos = end
        return False

    # ---- patterns
    def pattern(self, st, pt):
        """('lit', bytes) | ('set', true set, false set) | None"""
        it = self.it
        if isinstance(pt, int):
            c = ((pt, pt),)
            return ('set', c, cs_minus(CHAR, c))
        if isinstance(pt, tuple) and pt[0] == 'set' and len(pt) == 3:
            return pt
        v = it.deref_all(st, pt)
        if isinstance(v, int):
            c = ((v, v),)
            return ('set', c, cs_minus(CHAR, c))
        if isinstance(v, tuple) and v[0] == 's':
            if self.m.is_lit(v[1]):
                b = self.m.lit_bytes(v[1])
                if len(b) == 1:
                    c = ((b[0], b[0]),)
                    return ('set', c, cs_minus(CHAR, c))
                return ('lit', b)
            return None
        if isinstance(v, tuple) and v[0] == 'v' and all(p[0] == 'e' and isinstance(p[1], int) for p in v[1]):
            c = cs_of(*[p[1] for p in v[1]])
            return ('set', c, cs_minus(CHAR, c))
        if isinstance(v, tuple) and v[0] in ('A', 'F'):
            return self.pred_sets(st, pt if v[0] == 'A' else v)
        return None

    def pred_sets(self, st, f, byte=False, byref=False):
        """sets of characters for which a predicate is true / false"""
        it = self.it
        ty = self.m.p.tyname['u8' if byte else 'char']
        s = st.copy()
        probe = ('idx', ('probe',), ZERO) if byte else ('ch', ('probe',), ZERO)
        v = ('S', probe, ty)
        arg = cref(v) if byref else v
        t, fl = (), ()
        nfacts = {k: x for k, x in st.facts.items()}
        key = self.push_k(s, v)
        try:
            for s2, r in it.call_value(s, f, [arg], self.m.p.tyname['bool']):
                for s3, b in self.both(s2, r):
                    for k, x in s3.facts.items():
                        if k != ('cs', probe) and nfacts.get(k) != x:
                            return None
                    cs = it.charset(s3, probe)
                    if b:
                        t = cs_union(t, cs)
                    else:
                        fl = cs_union(fl, cs)
        except Unsupported:
            return None
        if cs_inter(t, fl):
            return None
        return ('set', t, fl)

    def retain(self, st, b, p, q, keep, drop, char):
        """keep only some characters of the text q found at (b, p)"""
        it, m = self.it, self.m

        def chars(cs):
            if char or not cs or cs[-1][1] < 128:
                return cs
            return cs_union(cs_inter(cs, ASCII), cs_minus(CHAR, ASCII))
        out = []
        n = m.plen(st, q)
        known = self.piece_chars(st, q)
        if known is not None:
            keep, drop = cs_inter(keep, known), cs_inter(drop, known)
        if drop and n != ZERO:
            s = st.copy()
            k = s.newp()
            key = self.push_k(s, ('v', (q, b, p, k)))
            for s in self.where_(s, ('lt', k, n)):
                q2, b2, p2, k = self.pop_k(s, key)[1]
                off = ladd(q2[2], k)
                w = ONE if not char or drop[-1][1] < 128 else self.width(s, ('ch', q2[1], off))
                s.facts[('chars', ('part', q2[1], q2[2], off))] = chars(keep)
                s.facts[('cs', ('ch' if char else 'idx', q2[1], off))] = drop
                a, z = ('S', q2[1], q2[2], off), ('S', q2[1], ladd(off, w), q2[3])
                more = s.copy()
                it.write(more, b2, p2, ('s', pieces_cat((), (a, ('T', 'filtered', z)))))
                out.append((more, unit()))
                if keep:
                    s.facts[('chars', ('part', q2[1], z[2], z[3]))] = chars(keep)
                for s in [s] if keep else self.where_(s, ('eq', z[2], z[3])):
                    it.write(s, b2, p2, ('s', pieces_cat((), (a, z))))
                    out.append((s, unit()))
        if keep or n == ZERO:
            if n != ZERO:
                st.facts[('chars', ('part', q[1], q[2], q[3]))] = chars(keep)
                w = self.whole(st, (q,))
                if w is not None:
                    st.facts[('chars', w)] = chars(keep)
            out.append((st, unit()))
        elif it.assume(st, ('eq', n, ZERO), True):
            out.append((st, unit()))
        return out

    def starts(self, st, ps, pt):
        """length of the prefix matching the pattern, or None"""
        it, m = self.it, self.m
        p = self.pattern(st, pt)
        if p is None:
            q = m.pieces(st, pt)
            if ps[:len(q)] == q:
                n = ZERO
                for x in q:
                    n = ladd(n, m.plen(st, x))
                return n
            if it.branch(st, ('starts', ps, q)):
                n = ZERO
                for x in q:
                    n = ladd(n, m.plen(st, x))
                return n
            return None
        if p[0] == 'set':
            for q in ps:
                if q[0] == 'L':
                    c = q[1].decode('utf8', 'replace')[0]
                    return lin(len(c.encode())) if any(l <= ord(c) <= h for l, h in p[1]) else None
                if q[0] == 'S':
                    if it.branch(st, ('eq', m.plen(st, q), ZERO)):
                        continue
                    ch = ('ch', q[1], q[2])
                    if it.branch(st, ('ins', ch, p[1])):
                        return ONE if it.charset(st, ch)[-1][1] < 128 else self.width(st, ch)
                    return None
                return lin(1) if it.branch(st, ('starts', ps, p)) else None
            return None
        b = p[1]
        left = b
        for q in ps:
            if not left:
                break
            if q[0] == 'L':
                k = min(len(left), len(q[1]))
                if q[1][:k] != left[:k]:
                    return None
                left = left[k:]
                continue
            if q[0] == 'S' and len(left) <= 8:
                n = m.plen(st, q)
                i = 0
                while left:
                    if it.branch(st, ('eq', n, lin(i))):
                        break
                    if not it.branch(st, ('ins', ('idx', q[1], ladd(q[2], lin(i))), ((left[0], left[0]),))):
                        return None
                    left = left[1:]
                    i += 1
                continue
            return lin(len(b)) if it.branch(st, ('starts', ps, b)) else None
        return lin(len(b)) if not left else None

    def ends(self, st, ps, pt):
        it, m = self.it, self.m
        p = self.pattern(st, pt)
        if p is not None:
            b = p[1] if p[0] == 'lit' else (bytes([p[1][0][0]]) if cs_size(p[1]) == 1 and p[1][0][0] < 128 else None)
            if b is not None:
                left = b
                for q in reversed(ps):
                    if not left:
                        break
                    if q[0] == 'L':
                        k = min(len(left), len(q[1]))
                        if q[1][-k:] != left[-k:]:
                            return None
                        left = left[:-k]
                        continue
                    if q[0] == 'S' and len(left) <= 8:
                        n = m.plen(st, q)
                        i = 0
                        while left:
                            if it.branch(st, ('eq', n, lin(i))):
                                break
                            if not it.branch(st, ('ins', ('idx', q[1], ladd(q[3], lin(-1 - i))), ((left[-1], left[-1]),))):
                                return None
                            left = left[:-1]
                            i += 1
                        continue
                    return lin(len(b)) if it.branch(st, ('ends', ps, b)) else None
                return lin(len(b)) if not left else None
        return ONE if it.branch(st, ('ends', ps, m.freeze_arg(st, pt, None))) else None

    def width(self, st, ch):
        cs = self.it.charset(st, ch)
        if cs[-1][1] < 128:
            return ONE
        n = st.nums.get(('w', ch))
        if n is None:
            n = ladd(ONE, st.newp())
            st.nums[('w', ch)] = n
        return n

    def find(self, st, v, pt):
        """first match: [(state, None | (offset, length))]"""
        it, m = self.it, self.m
        p = self.pattern(st, pt)
        ps = m.pieces(st, v)
        if p is None:
            return [(st.copy(), None), (st, (st.newp(), ONE))] if False else self.find_opaque(st, ps, pt)
        if p[0] == 'lit':
            return self.find_lit(st, ps, p[1])
        out = []
        pos = ZERO
        cur = st
        for q in ps:
            if q[0] == 'L':
                txt = q[1].decode('utf8', 'replace')
                k = 0
                for c in txt:
                    if any(l <= ord(c) <= h for l, h in p[1]):
                        out.append((cur, (ladd(pos, lin(k)), lin(len(c.encode())))))
                        return out
                    k += len(c.encode())
                pos = ladd(pos, lin(len(q[1])))
            elif q[0] == 'S':
                n = m.plen(cur, q)
                known = self.piece_chars(cur, q)
                t = p[1] if known is None else cs_inter(p[1], known)
                if t and n != ZERO:
                    s2 = cur.copy()
                    k = s2.newp()
                    key = self.push_k(s2, ('v', (q, pos, k)))
                    # position lo + k < hi
                    for s2 in self.where_(s2, ('lt', k, n)):
                        q2, pos2, k2 = self.pop_k(s2, key)[1]
                        off = ladd(q2[2], k2)
                        s2.facts[('chars', ('part', q2[1], q2[2], off))] = p[2] if known is None else cs_inter(p[2], known)
                        s2.facts[('cs', ('ch', q2[1], off))] = t
                        s2.facts[('bnd', q2[1], off)] = True
                        w = ONE if t[-1][1] < 128 else self.width(s2, ('ch', q2[1], off))
                        out.append((s2, (ladd(pos2, k2), w)))
                f = p[2] if known is None else cs_inter(p[2], known)
                if n != ZERO:
                    if not f:
                        cur = cur.copy()
                        if not it.assume(cur, ('eq', n, ZERO), True):
                            return out
                    else:
                        cur.facts[('chars', ('part', q[1], q[2], q[3]))] = f
                        w = self.whole(cur, (q,))
                        if w is not None:
                            cur.facts[('chars', w)] = f
                pos = ladd(pos, n)
            else:
                # opaque derived text
                out.append((cur.copy(), (ladd(pos, cur.newp()), ONE)))
                pos = ladd(pos, m.plen(cur, q))
        out.append((cur, None))
        return out

    def rfind(self, st, v, pt):
        """last match of a character or of a fixed text: [(state, None | (offset, length))]"""
        it, m = self.it, self.m
        p = self.pattern(st, pt)
        ps = m.pieces(st, v)
        if p is None or p[0] == 'lit' and not m.is_lit(ps):
            return self.find_opaque(st, ps, pt)
        if p[0] == 'lit':
            i = m.lit_bytes(ps).rfind(p[1])
            return [(st, None if i < 0 else (lin(i), lin(len(p[1]))))]
        out = []
        cur = st
        starts = []
        pos = ZERO
        for q in ps:
            starts.append(pos)
            pos = ladd(pos, m.plen(st, q))
        for q, pos in reversed(list(zip(ps, starts))):
            if q[0] == 'L':
                txt = q[1].decode('utf8', 'replace')
                k = len(q[1])
                for ch in reversed(txt):
                    w = len(ch.encode())
                    k -= w
                    if any(l <= ord(ch) <= h for l, h in p[1]):
                        out.append((cur, (ladd(pos, lin(k)), lin(w))))
                        return out
            elif q[0] == 'S':
                n = m.plen(cur, q)
                known = self.piece_chars(cur, q)
                t = p[1] if known is None else cs_inter(p[1], known)
                if t and n != ZERO:
                    s2 = cur.copy()
                    key = self.push_k(s2, ('v', (q, pos)))
                    k = s2.newp()
                    w = ONE
                    if t[-1][1] >= 128:
                        w = ladd(ONE, s2.newp())
                    kk = self.push_k(s2, ('v', (k, w)))
                    for s2 in self.where_(s2, ('lt', ladd(k, lsub(w, ONE)), n)):
                        k, w = self.pop_k(s2, kk)[1]
                        q2, pos2 = self.pop_k(s2, key)[1]
                        off = ladd(q2[2], k)
                        nx = ladd(off, w)
                        if w != ONE:
                            s2.nums[('w', ('ch', q2[1], off))] = w
                        s2.facts[('chars', ('part', q2[1], nx, q2[3]))] = p[2] if known is None else cs_inter(p[2], known)
                        s2.facts[('cs', ('ch', q2[1], off))] = t
                        s2.facts[('bnd', q2[1], off)] = True
                        s2.facts[('bnd', q2[1], nx)] = True
                        out.append((s2, (ladd(pos2, k), w)))
                f = p[2] if known is None else cs_inter(p[2], known)
                if n != ZERO:
                    if not f:
                        cur = cur.copy()
                        if not it.assume(cur, ('eq', n, ZERO), True):
                            return out
                    else:
                        cur.facts[('chars', ('part', q[1], q[2], q[3]))] = f
                        w = self.whole(cur, (q,))
                        if w is not None:
                            cur.facts[('chars', w)] = f
            else:
                return self.find_opaque(st, ps, pt)
        out.append((cur, None))
        return out

    def where_(self, st, term, val=True):
        """the states in which term has this value: choices about numbers that are new are made here, not by redoing
        the statement (which would ask about other new numbers)"""
        return self.it.refine(st, lambda s: self.it.assume(s, term, val))

    def find_lit(self, st, ps, b):
        it, m = self.it, self.m
        if m.is_lit(ps):
            i = m.lit_bytes(ps).find(b)
            return [(st, None if i < 0 else (lin(i), lin(len(b))))]
        if len(ps) == 1 and ps[0][0] == 'S':
            q = ps[0]
            out = []
            n = m.plen(st, q)
            s2 = st.copy()
            k = s2.newp()
            key = self.push_k(s2, ('v', (q, k)))
            # k + len(b) <= n
            for s2 in self.where_(s2, ('lt', ladd(k, lin(len(b) - 1)), n)):
                q2, k = self.pop_k(s2, key)[1]
                off = ladd(q2[2], k)
                ok = True
                for j in range(len(b)):
                    t = ('idx', q2[1], ladd(off, lin(j)))
                    cs = cs_inter(it.charset(s2, t), ((b[j], b[j]),))
                    if not cs:
                        ok = False
                        break
                    s2.facts[('cs', t)] = cs
                if ok:
                    s2.facts[('nofind', ('part', q2[1], q2[2], off), b)] = True
                    s2.facts[('bnd', q2[1], off)] = True
                    out.append((s2, (k, lin(len(b)))))
            st.facts[('nofind', ('part', q[1], q[2], q[3]), b)] = True
            out.append((st, None))
            return out
        return self.find_opaque(st, ps, b)

    def find_opaque(self, st, ps, pt):
        m = self.m
        s2 = st.copy()
        n = ZERO
        for p in ps:
            n = ladd(n, m.plen(st, p))
        k = s2.newp()
        out = []
        key = self.push_k(s2, ('v', (k,)))
        for s2 in self.where_(s2, ('lt', k, n)):
            out.append((s2, (self.pop_k(s2, key)[1][0], ONE)))
        out.append((st, None))
        return out

    # ---- formatting
    def decode_template(self, t, args):
        out = []
        i = 0
        nxt = 0
        while i < len(t):
            b = t[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(('t', (('L', t[i:i + b]),)))
                i += b
            elif b == 0x80:
                n = t[i] | t[i + 1] << 8
                i += 2
                out.append(('t', (('L', t[i:i + n]),)))
                i += n
            else:
                flags = width = prec = None
                if b & 1:
                    flags = int.from_bytes(t[i:i + 4], 'little')
                    i += 4
                if b & 2:
                    width = int.from_bytes(t[i:i + 2], 'little')
                    i += 2
                if b & 4:
                    prec = int.from_bytes(t[i:i + 2], 'little')
                    i += 2
                if b & 8:
                    nxt = int.from_bytes(t[i:i + 2], 'little')
                    i += 2
                if b & 16 and width is not None:
                    width = ('arg', width)
                if b & 32 and prec is not None:
                    prec = ('arg', prec)
                spec = None if (flags, width, prec) == (None, None, None) else (flags, width, prec)
                out.append(('arg', args[nxt], spec))
                nxt += 1
        return tuple(out)

    def fmterr(self, d):
        return ('A', self.T[d]['args'][1], 0, ())

    def to_text(self, st, items):
        """format into a new string"""
        self.nest += 1
        sc, fc = ('m', 'str%d' % self.nest), ('m', 'fm%d' % self.nest)
        st.mem[sc] = ('s', ())
        st.mem[fc] = ('fm', ('R', sc, ()))
        try:
            out = []
            for s, ok in self.emit(st, ('R', fc, ()), items):
                v = s.mem.pop(sc)
                s.mem.pop(fc)
                if not ok:
                    self.it.panic(s, 'a Display implementation returned an error unexpectedly')
                    continue
                out.append((s, v))
            return out
        finally:
            self.nest -= 1

    def sink(self, st, fm):
        """where a formatter (or fmt::Write) value writes to"""
        it = self.it
        v = fm
        n = 0
        while n < 20:
            n += 1
            if isinstance(v, tuple) and v[0] == 'R':
                w = it.read(st, v[1], v[2])
                if isinstance(w, tuple) and (w[0] == 's' or w[0] == 'S' and it.is_text(w[2])):
                    return v
                v = w
                continue
            if isinstance(v, tuple) and v[0] == 'fm':
                v = v[1]
                continue
            if isinstance(v, tuple) and v[0] == 'sink':
                return v
            break
        raise Unsupported('formatter %s' % show(v)[:60])

    def out(self, st, fm, ps):
        k = self.sink(st, fm)
        if k[0] == 'sink':
            if ps:
                self.it.hooks.on_emit(st, k[1], ps)
        else:
            self.append(st, k, ps)

    def emit(self, st, fm, items):
        """write items to a formatter: [(state, ok)]"""
        it, m = self.it, self.m
        self.nest += 1
        key = ('k', 200 + self.nest, it.depth)
        try:
            flat = []
            for x in items:
                if x[0] == 'fa':
                    v = it.deref_all(st, x[1])
                    if v[0] != 'fa':
                        flat.append(('t', (('T', 'display', m.freeze_arg(st, v, None)),)))
                    else:
                        flat.extend(v[1])
                else:
                    flat.append(x)
            todo = [(st, fm, tuple(flat))]
            out = []
            while todo:
                s, fm, items = todo.pop()
                if not items:
                    out.append((s, True))
                    continue
                x, rest = items[0], items[1:]
                if x[0] == 't':
                    self.out(s, fm, x[1])
                    todo.append((s, fm, rest))
                    continue
                _, arg, spec = x
                if isinstance(arg, tuple) and arg[0] == 'R':
                    arg = it.deref_all(s, arg)
                kind, ref, ty, inst = arg[1], arg[2], arg[3], arg[4]
                if kind in ('display', 'debug') and inst is not None and it.p.body(inst) is not None and (kind == 'display' or it.p.body(inst).local):
                    if kind == 'debug':
                        self.out(s, fm, (('T', 'debug', m.freeze_arg(s, ref, None)),))
                        todo.append((s, fm, rest))
                        continue
                    s.mem[key] = ('kept', fm, rest)
                    w = ref
                    # the argument may be behind further references
                    want = it.strip_refs(it.p.body(inst).locals[1])
                    w = self.peel(s, w, want)
                    body = it.p.body(inst)
                    tgt = fm
                    tmp = None
                    if spec is not None:
                        tmp = ('m', 'pad%d' % self.nest)
                        s.mem[tmp] = ('s', ())
                        tgt = ('R', tmp, ())
                        fcell = ('m', 'padf%d' % self.nest)
                        s.mem[fcell] = ('fm', tgt)
                        tgt = ('R', fcell, ())
                    for s2, r in it.exec_fn(s, body, [w, tgt]):
                        kv = s2.mem.pop(key)
                        if spec is not None:
                            v = s2.mem.pop(tmp)
                            s2.mem.pop(fcell)
                            self.out(s2, kv[1], (('T', 'pad', spec, v[1]),))
                        for s3, var in self.variants(s2, r):
                            if var == ERR:
                                out.append((s3, False))
                            else:
                                todo.append((s3, kv[1], kv[2]))
                    continue
                self.out(s, fm, self.fmt_value(s, kind, ref, ty, spec))
                todo.append((s, fm, rest))
            return out
        finally:
            self.nest -= 1

    def variants(self, st, r):
        if isinstance(r, tuple) and r[0] == 'A':
            return [(st, r[2])]
        vs = st.facts.get(('var', r[1])) or self.it.p.variants_possible(r[2])
        out = []
        for x in sorted(vs):
            s2 = st.copy()
            if len(vs) > 1 and has_unknown(r[1]):
                s2.inexact('unknown call')
            if self.it.set_var(s2, r[1], frozenset([x])):
                out.append((s2, x))
        return out

    def peel(self, st, w, want):
        it = self.it
        n = 0
        while n < 10:
            n += 1
            v = it.deref(st, w)
            if isinstance(v, tuple) and v[0] == 'R':
                w = v
                continue
            if isinstance(v, tuple) and v[0] == 'S' and it.tk(v[2]) == 'ref' and v[2] != want:
                w = cref(it.sym(st, v[1], self.T[v[2]]['elem']))
                continue
            if isinstance(v, tuple) and v[0] == 'B':
                w = cref(v[1])
                continue
            break
        return w

    def fmt_value(self, st, kind, ref, ty, spec):
        it, m = self.it, self.m
        v = it.deref_all(st, ref)
        if kind == 'display':
            if self.textual(st, v) or (isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and self.T[v[1]].get('path') == 'alloc::borrow::Cow'):
                ps = m.pieces(st, v)
                if spec is None:
                    return ps
                return (('T', 'pad', spec, ps),)
            if isinstance(v, tuple) and v[0] == 'fa' and spec is None:
                ps = ()
                for x in v[1]:
                    if x[0] == 't':
                        ps = pieces_cat(ps, x[1])
                    else:
                        ps = pieces_cat(ps, self.fmt_value(st, x[1][1], x[1][2], x[1][3], x[2]))
                return ps
            t = self.T[ty] if ty >= 0 else {'k': '?'}
            if t['k'] == 'char':
                ps = (m.char_piece(st, v),)
                return ps if spec is None else (('T', 'pad', spec, ps),)
            if t['k'] == 'bool' and isinstance(v, bool) and spec is None:
                return (('L', b'true' if v else b'false'),)
            if t['k'] in ('int', 'uint'):
                if spec is None:
                    if isinstance(v, int) and not isinstance(v, bool):
                        return (('L', str(v).encode()),)
                    if v[0] == '#' and not v[2]:
                        return (('L', str(v[1]).encode()),)
                    if v[0] == 'S' and v[1][0] == 'discr':
                        vs = st.facts.get(('var', v[1][1]))
                        if vs is not None and len(vs) == 1:
                            return (('L', str(self.T[v[1][2]]['variants'][next(iter(vs))]['d']).encode()),)
                    return (('T', 'dec', v),)
                return (('T', 'decpad', spec, v),)
            if spec is None:
                return (('T', 'display', m.freeze_arg(st, v, None)),)
            return (('T', 'pad', spec, m.freeze_arg(st, v, None)),)
        if kind in ('upper_hex', 'lower_hex'):
            width = spec[1] if spec else None
            zero = bool(spec and spec[0] is not None and spec[0] & (1 << 24))
            alt = bool(spec and spec[0] is not None and spec[0] & (1 << 23))
            x = v
            if isinstance(x, tuple) and x[0] == '#' and not x[2]:
                x = x[1]
            if isinstance(x, int) and not alt and not isinstance(width, tuple):
                h = ('%X' if kind == 'upper_hex' else '%x') % x
                h = h.rjust(width or 0, '0' if zero else ' ')
                return (('L', h.encode()),)
            return (('T', 'hex', kind, width, zero, alt, v),)
        return (('T', kind, spec, m.freeze_arg(st, v, None)),)

    # ---- iterators
    def into_iter(self, st, v):
        it, m = self.it, self.m
        if isinstance(v, tuple) and v[0] == 'it':
            return v
        if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't':
            p = self.T[v[1]].get('path', '')
            if p.startswith('core::ops::range::'):
                return v
            if p == 'core::option::Option':
                return ('it', 'seq', tuple(('e', x) for x in v[3]), False)
        if isinstance(v, tuple) and v[0] == 'R':
            w = it.deref(st, v)
            if isinstance(w, tuple) and w[0] == 'it':
                return v
            if isinstance(w, tuple) and w[0] == 'A' and w[1] != 't' and self.T[w[1]].get('path', '').startswith('core::ops::range'):
                return v
            x = it.deref_all(st, v)
            if isinstance(x, tuple) and x[0] == 'it':
                return w
            if self.textual(st, x):
                return ('it', 'bytes', m.pieces(st, x), True)
            if isinstance(x, tuple) and x[0] == 'A' and x[1] != 't' and self.T[x[1]].get('path') == 'core::option::Option':
                return ('it', 'seq', tuple(('e', y) for y in x[3]), True)
            if isinstance(x, tuple) and x[0] == 'S' and self.T[x[2]].get('path') == 'core::option::Option':
                var = it.variant(st, x)
                if var == NONE:
                    return ('it', 'seq', (), True)
                return ('it', 'seq', (('e', it.expand(st, x, SOME)[3][0]),), True)
            if isinstance(x, tuple) and x[0] == 'S' and self.T[x[2]].get('path') == 'std::collections::hash::set::HashSet':
                return ('it', 'opaque', x, True)
            return ('it', 'seq', m.parts(st, x), True)
        if self.textual(st, v):
            return ('it', 'bytes', m.pieces(st, v), False)
        if isinstance(v, tuple) and v[0] == 'S' and self.T[v[2]]['k'] == 'ref':
            return self.into_iter(st, cref(it.deref(st, v)))
        if isinstance(v, tuple) and v[0] == 'S' and self.T[v[2]].get('path') == 'core::option::Option':
            var = it.variant(st, v)
            if var == NONE:
                return ('it', 'seq', (), False)
            return ('it', 'seq', (('e', it.expand(st, v, SOME)[3][0]),), False)
        if isinstance(v, tuple) and v[0] in ('v', 'S'):
            return ('it', 'seq', m.parts(st, v), False)
        raise Unsupported('iteration over %s' % show(v)[:60])

    def upper_elem(self, st, e, how):
        it = self.it
        if isinstance(e, tuple) and e[0] == 'S':
            t = e[1]
            ty = e[2]
            n = it.num(st, ('len', t))
            st.nums[('len', (how, t))] = n
            return ('S', (how, t), ty)
        return cref(self.upper(st, e, how))

    def next(self, st, v):
        """[(state, iterator, item | None)]"""
        it, m = self.it, self.m
        if v[0] == 'R':
            # iterator behind a reference
            b, p = v[1], v[2]
            out = []
            for s, v2, item in self.next(st, it.read(st, b, p)):
                it.write(s, b, p, v2)
                out.append((s, v, item))
            return out
        if v[0] == 'A' and v[1] != 't':
            p = self.T[v[1]]['path'].rsplit('::', 1)[1]
            if p == 'Range':
                lo, hi = as_lin(v[3][0]), as_lin(v[3][1])
                if it.branch(st, ('lt', lo, hi)):
                    small = isinstance(v[3][0], int)
                    nx = ladd(lo, ONE)
                    return [(st, ('A', v[1], 0, (nx[1] if small else nx, v[3][1])), v[3][0])]
                return [(st, v, None)]
            if p == 'RangeFrom':
                return [(st, ('A', v[1], 0, (ladd(as_lin(v[3][0]), ONE),)), v[3][0])]
            if p == 'RangeInclusive':
                lo, hi = as_lin(v[3][0]), as_lin(v[3][1])
                if it.branch(st, ('lt', hi, lo)):
                    return [(st, v, None)]
                return [(st, ('A', v[1], 0, (ladd(lo, ONE), v[3][1]) + v[3][2:]), v[3][0])]
            raise Unsupported('iterator %s' % p)
        k = v[1]
        if k == 'seq':
            ps = list(v[2])
            byref = v[3]
            while ps:
                p = ps[0]
                q, how = p, None
                if p[0] == 'M':
                    q, how = p[1], p[2]
                if q[0] == 'e':
                    rest = tuple(ps[1:])
                    e = q[1]
                else:
                    n = m.part_len(q)
                    if it.branch(st, ('eq', n, ZERO)):
                        ps.pop(0)
                        continue
                    if q[0] == 'S':
                        e = m.elem(st, q, q[3])
                        q2 = ('S', q[1], q[2], ladd(q[3], ONE), q[4])
                    elif q[0] == 'G':
                        e = m.elem(st, q, ZERO)
                        q2 = ('G', map_lins(q[1], lambda l: lsubst(l, IDX, ladd(('#', 0, ((IDX, 1),)), ONE))), lsub(q[2], ONE))
                    else:
                        raise Unsupported('iterator part')
                    if how:
                        q2 = ('M', q2, how)
                    rest = (q2,) + tuple(ps[1:])
                if how:
                    e = self.upper_elem(st, e, how)
                return [(st, ('it', 'seq', rest, byref), cref(e) if byref else e)]
            return [(st, ('it', 'seq', (), byref), None)]
        if k == 'bytes':
            ps = list(v[2])
            byref = v[3]
            while ps:
                p = ps[0]
                if p[0] == 'L':
                    e = p[1][0]
                    rest = ((('L', p[1][1:]),) if len(p[1]) > 1 else ()) + tuple(ps[1:])
                elif p[0] == 'S':
                    if it.branch(st, ('eq', m.plen(st, p), ZERO)):
                        ps.pop(0)
                        continue
                    e = m.byte(st, p[1], p[2])
                    rest = (('S', p[1], ladd(p[2], ONE), p[3]),) + tuple(ps[1:])
                else:
                    raise Unsupported('bytes of derived text %s' % show(p)[:100])
                return [(st, ('it', 'bytes', rest, byref), cref(e) if byref else e)]
            return [(st, ('it', 'bytes', (), byref), None)]
        if k == 'chars':
            return self.next_char(st, v)
        if k == 'enum':
            key = self.push_k(st, ('v', (v[3],)))
            out = []
            for s, v2, item in self.next(st, v[2]):
                cnt = self.pop_k(s, key)[1][0]
                out.append((s, ('it', 'enum', v2, ladd(cnt, ONE)), None if item is None else ('A', 't', 0, (cnt, item))))
            return out
        if k in ('map', 'filter', 'filter_map', 'take_while', 'inspect', 'map_while', 'skip_while'):
            out = []
            key = self.push_k(st, v[3])
            for s, v2, item in self.next(st, v[2]):
                f = self.pop_k(s, key)
                if item is None:
                    out.append((s, ('it', k, v2, f) + v[4:], None))
                    continue
                if k == 'skip_while' and len(v) > 4:
                    out.append((s, ('it', k, v2, f, True), item))
                    continue
                arg = item if k in ('map', 'filter_map', 'map_while') else cref(item)
                if k in ('map', 'filter_map', 'map_while') and isinstance(f, tuple) and f[0] == 'A':
                    # the closure may be called again: keep it in memory while it runs
                    pass
                n = len(s.mem)
                while ('k', 300 + it.depth, n) in s.mem:
                    n += 1
                cell = ('k', 300 + it.depth, n)
                s.mem[cell] = f
                fr = ('R', cell, ()) if isinstance(f, tuple) and f[0] == 'A' else f
                for s2, r, kv in it.call_keep(s, (v2, item), fr, [arg]):
                    f2 = s2.mem.pop(cell)
                    v3, item2 = kv
                    if k == 'map':
                        out.append((s2, ('it', k, v3, f2), r))
                    elif k == 'inspect':
                        out.append((s2, ('it', k, v3, f2), item2))
                    elif k in ('filter', 'skip_while'):
                        for s3, b in self.both(s2, r):
                            if b == (k == 'filter'):
                                out.append((s3, ('it', k, v3, f2) + ((True,) if k == 'skip_while' else ()), item2))
                            else:
                                out.append((s3, ('it', k, v3, f2), ('again',)))
                    elif k == 'take_while':
                        for s3, b in self.both(s2, r):
                            if b:
                                out.append((s3, ('it', k, v3, f2), item2))
                            else:
                                out.append((s3, ('it', 'seq', (), False), None))
                    else:
                        for s3, var in self.variants(s2, r):
                            if var == SOME:
                                x = r[3][0] if r[0] == 'A' else it.expand(s3, r, SOME)[3][0]
                                out.append((s3, ('it', k, v3, f2), x))
                            elif k == 'filter_map':
                                out.append((s3, ('it', k, v3, f2), ('again',)))
                            else:
                                out.append((s3, ('it', 'seq', (), False), None))
            if any(x[2] == ('again',) for x in out):
                return self.settle(out)
            return out
        if k == 'cloned':
            return [(s, ('it', k, v2), None if item is None else it.deref(s, item)) for s, v2, item in self.next(st, v[2])]
        if k == 'take':
            n = v[3]
            if it.branch(st, ('eq', n, ZERO)):
                return [(st, v, None)]
            key = self.push_k(st, ('v', (n,)))
            out = []
            for s, v2, item in self.next(st, v[2]):
                n2 = self.pop_k(s, key)[1][0]
                out.append((s, ('it', 'take', v2, lsub(n2, ONE)), item))
            return out
        if k == 'skip':
            n = v[3]
            if n == ZERO:
                return self.next(st, v[2])
            if n[2] or n[1] > 16:
                raise Unsupported('skip')
            inner = v[2]
            if inner[0] == 'it' and inner[1] in ('seq', 'bytes'):
                seq = ('v', inner[2]) if inner[1] == 'seq' else ('s', inner[2])
                ln = m.seq_len(st, seq)
                if it.branch(st, ('lt', ln, n)):
                    return [(st, ('it', inner[1], (), inner[3]), None)]
                if inner[1] == 'seq' and any(p[0] in 'MG' for p in inner[2]):
                    pass
                else:
                    r = m.subseq(st, seq, n, ln)
                    return self.next(st, ('it', inner[1], r[1], inner[3]))
            out = []
            for s, v2, item in self.next(st, inner):
                if item is None:
                    out.append((s, v2, None))
                else:
                    left = lsub(n, ONE)
                    out.append((s, v2 if left == ZERO else ('it', 'skip', v2, left), ('again',)))
            return self.settle(out)
        if k == 'chain':
            key = self.push_k(st, v[3])
            out = []
            for s, v2, item in self.next(st, v[2]):
                w = self.pop_k(s, key)
                if item is None:
                    out.extend(self.next(s, w))
                else:
                    out.append((s, ('it', 'chain', v2, w), item))
            return out
        if k in ('chunks', 'chunks_exact', 'windows'):
            seq, n = v[2], v[3]
            ln = m.seq_len(st, seq)
            if it.branch(st, ('eq', ln, ZERO)):
                return [(st, v, None)]
            if it.branch(st, ('lt', ln, n)):
                if k != 'chunks':
                    return [(st, v, None)]
                return [(st, ('it', k, m.subseq(st, seq, ZERO, ZERO), n), cref(seq))]
            rest = m.subseq(st, seq, ONE if k == 'windows' else n, ln)
            return [(st, ('it', k, rest, n), cref(m.subseq(st, seq, ZERO, n)))]
        if k == 'fromfn':
            f = v[2]
            out = []
            # the closure's captured state lives on in the iterator
            n = len(st.mem)
            while ('k', 320 + it.depth, n) in st.mem:
                n += 1
            c2 = ('k', 320 + it.depth, n)
            st.mem[c2] = f
            for s2, r in it.call_value(st, ('R', c2, ()) if isinstance(f, tuple) and f[0] == 'A' else f, []):
                f2 = s2.mem.pop(c2)
                for s3, var in self.variants(s2, r):
                    if var == SOME:
                        x = r[3][0] if r[0] == 'A' else it.expand(s3, r, SOME)[3][0]
                        out.append((s3, ('it', k, f2), x))
                    else:
                        out.append((s3, ('it', k, f2), None))
            return out
        if k == 'step':
            # v[3] elements to leave out before the next one
            if v[3] == ZERO:
                key = self.push_k(st, ('v', (v[4],)))
                out = []
                for s, v2, item in self.next(st, v[2]):
                    n = self.pop_k(s, key)[1][0]
                    out.append((s, ('it', 'step', v2, n, n), item))
                return out
            out = []
            for s, v2, item in self.next(st, ('it', 'skip', v[2], v[3])):
                if isinstance(v2, tuple) and v2[0] == 'it' and v2[1] == 'skip':
                    v2 = v2[2]
                out.append((s, ('it', 'step', v2, v[4], v[4]), item))
            return out
        if k == 'flat':
            out = []
            if v[4] is not None:
                key = self.push_k(st, ('v', (v[2], v[3])))
                for s, v2, item in self.next(st, v[4]):
                    inner, f = self.pop_k(s, key)[1]
                    if item is None:
                        out.append((s, ('it', 'flat', inner, f, None), ('again',)))
                    else:
                        out.append((s, ('it', 'flat', inner, f, v2), item))
                return self.settle(out)
            src = v[2] if v[3] is None else ('it', 'map', v[2], v[3])
            for s, v2, item in self.next(st, src):
                inner, f = (v2, None) if v[3] is None else (v2[2], v2[3])
                if item is None:
                    out.append((s, ('it', 'flat', inner, f, None), None))
                    continue
                x = item
                if isinstance(x, tuple) and x[0] == 'S' and self.T[x[2]].get('path') in ('core::option::Option', 'core::result::Result'):
                    good = SOME if self.T[x[2]]['path'].endswith('Option') else OK
                    key = self.push_k(s, ('v', (inner, f, x)))
                    for s2, var in self.variants(s, x):
                        inner2, f2, x2 = self.pop_k(s2, key)[1]
                        cur = ('it', 'seq', (('e', it.expand(s2, x2, good)[3][0]),) if var == good else (), False)
                        out.append((s2, ('it', 'flat', inner2, f2, cur), ('again',)))
                    continue
                if isinstance(x, tuple) and x[0] == 'A' and x[1] != 't' and self.T[x[1]].get('path') in ('core::option::Option', 'core::result::Result'):
                    good = SOME if self.T[x[1]]['path'].endswith('Option') else OK
                    cur = ('it', 'seq', (('e', x[3][0]),) if x[2] == good else (), False)
                else:
                    cur = self.into_iter(s, x)
                out.append((s, ('it', 'flat', inner, f, cur), ('again',)))
            return self.settle(out) if any(x[2] == ('again',) for x in out) else out
        if k == 'zip':
            key = self.push_k(st, v[3])
            out = []
            for s, v2, item in self.next(st, v[2]):
                w = self.pop_k(s, key)
                if item is None:
                    out.append((s, ('it', 'zip', v2, w), None))
                    continue
                key2 = self.push_k(s, ('v', (v2, item)))
                for s2, w2, item2 in self.next(s, w):
                    v3, item3 = self.pop_k(s2, key2)[1]
                    out.append((s2, ('it', 'zip', v3, w2), None if item2 is None else ('A', 't', 0, (item3, item2))))
            return out
        if k == 'peek':
            if v[3] is not None:
                return [(st, ('it', 'peek', v[2], None), v[3][1])]
            return [(s, ('it', 'peek', v2, None), item) for s, v2, item in self.next(st, v[2])]
        if k == 'rev':
            inner = v[2]
            if inner[0] == 'it' and inner[1] == 'seq' and all(p[0] == 'e' for p in inner[2]):
                if not inner[2]:
                    return [(st, v, None)]
                e = inner[2][-1][1]
                return [(st, ('it', 'rev', ('it', 'seq', inner[2][:-1], inner[3])), cref(e) if inner[3] else e)]
            if inner[0] == 'it' and inner[1] == 'seq' and len(inner[2]) == 1 and inner[2][0][0] == 'S':
                q = inner[2][0]
                if it.branch(st, ('eq', m.part_len(q), ZERO)):
                    return [(st, v, None)]
                hi = lsub(q[4], ONE)
                e = m.elem(st, q, hi)
                q2 = ('S', q[1], q[2], q[3], hi)
                return [(st, ('it', 'rev', ('it', 'seq', (q2,), inner[3])), cref(e) if inner[3] else e)]
            raise Unsupported('reverse iteration')
        raise Unsupported('iterator %s' % k)

    def settle(self, rs):
        """iterate results marked 'again' until every one has an item"""
        m = self.m
        done = [x for x in rs if x[2] != ('again',)]
        todo = [x for x in rs if x[2] == ('again',)]
        if not todo:
            return done
        out = list(done)
        for s, v, _ in todo:
            key = ('k', 400 + self.it.depth, 0)
            s.mem[key] = ('kept', v)

            def step(s2):
                v2 = s2.mem[key][1]
                res = []
                for s3, v3, item in self.next1(s2, v2):
                    if item == ('again',):
                        s3.mem[key] = ('kept', v3)
                        res.append((s3, None))
                    else:
                        s3.mem.pop(key, None)
                        res.append((s3, ('done', (v3, item))))
                return res
            for s2, (v2, item) in m.fix(s, step, 'filter'):
                out.append((s2, v2, item))
        return out

    def next1(self, st, v):
        """one step of next(), 'again' results included"""
        old = self.settle
        self.settle = lambda rs: rs
        try:
            return self.next(st, v)
        finally:
            self.settle = old

    def next_char(self, st, v):
        it, m = self.it, self.m
        _, _, ps, idx, pos, whole, seen, prev = v
        ps = list(ps)
        if prev is not None:
            seen = cs_union(seen, it.charset(st, prev))
            prev = None
        cty = m.p.tyname['char']
        while ps:
            p = ps[0]
            if p[0] == 'L':
                c = p[1].decode('utf8', 'replace')[0]
                n = len(c.encode())
                rest = ((('L', p[1][n:]),) if len(p[1]) > n else ()) + tuple(ps[1:])
                e = ord(c)
                w = lin(n)
            elif p[0] == 'S':
                if it.branch(st, ('eq', m.plen(st, p), ZERO)):
                    ps.pop(0)
                    continue
                ch = ('ch', p[1], p[2])
                known = self.piece_chars(st, p)
                if known is not None and ('cs', ch) not in st.facts:
                    st.facts[('cs', ch)] = known
                w = self.width(st, ch)
                key = self.push_k(st, ('v', (p, pos, w, ch)))
                if not it.assume(st, ('lt', p[3], ladd(p[2], w)), False):
                    raise Infeasible()
                p, pos, w, ch = self.pop_k(st, key)[1]
                ps[0] = p
                nx = ladd(p[2], w)
                st.facts[('bnd', p[1], nx)] = True
                rest = (('S', p[1], nx, p[3]),) + tuple(ps[1:])
                e = ('S', ch, cty)
                prev = ch
            else:
                raise Unsupported('characters of derived text')
            item = ('A', 't', 0, (pos, e)) if idx else e
            return [(st, ('it', 'chars', rest, idx, ladd(pos, w), whole, seen, prev), item)]
        if whole is not None:
            old = st.facts.get(('chars', whole), CHAR)
            st.facts[('chars', whole)] = cs_inter(old, seen) if seen else old
        return [(st, ('it', 'chars', (), idx, pos, None, (), None), None)]

    def loop(self, st, itv, vals, step, ref=None):
        """drive an iterator: step(state, vals, item) -> [(state, vals, None) | (state, None, ('done', v))]"""
        m = self.m
        self.nest += 1
        key = ('k', 500 + self.nest, self.it.depth)
        isref = ref is not None and isinstance(ref, tuple) and ref[0] == 'R' and isinstance(self.it.deref(st, ref), tuple) and self.it.deref(st, ref)[0] == 'it'
        if isref:
            itv = ref
        st.mem[key] = ('loop', itv) + tuple(vals)

        def one(s):
            cell = s.mem[key]
            res = []
            for s2, v2, item in self.next(s, cell[1]):
                c2 = s2.mem[key]
                s2.mem[key] = ('loop', v2) + c2[2:]
                for s3, vals3, done in step(s2, c2[2:], item):
                    if done is not None:
                        s3.mem.pop(key, None)
                        res.append((s3, done))
                    else:
                        c3 = s3.mem[key]
                        s3.mem[key] = ('loop', c3[1]) + tuple(vals3)
                        res.append((s3, None))
            return res
        try:
            return m.fix(st, one, 'iterator')
        finally:
            self.nest -= 1

    def any_all(self, st, a, want):
        it, m = self.it, self.m
        v = self.into_iter(st, a[0])
        w = v
        if w[0] == 'R':
            w = it.deref_all(st, w)
        if w[0] == 'it' and w[1] == 'chars' and not w[3]:
            p = self.pred_sets(st, a[1])
            if p is not None:
                t, f = (p[1], p[2]) if want else (p[2], p[1])
                # does some character lie in t?
                return self.some_char(st, w[2], t, f, want)
        if w[0] == 'it' and w[1] == 'bytes':
            p = self.pred_sets(st, a[1], True, w[3])
            if p is not None and all(q[0] != 'S' for q in w[2]):
                pass
            elif p is not None:
                # bytes of a text: non-ASCII characters have bytes >= 128 only
                t, f = (p[1], p[2]) if want else (p[2], p[1])
                hi = ((128, 255),)
                full = lambda s: cs_union(cs_inter(s, ASCII), ((128, 0xD7FF), (0xE000, 0x10FFFF)) if cs_inter(s, hi) else ())
                if not cs_inter(t, hi) or cs_inter(t, hi) == hi:
                    return self.some_char(st, w[2], full(t), full(f), want)

        member = None
        if w[0] == 'it' and w[1] == 'opaque':
            member = w[2]
            v = ('it', 'seq', tuple(('e', e) for e in self.values(m.T[member[2]]['args'][0])), w[3])

        def step(s, vals, item):
            if item is None:
                return [(s, None, ('done', not want))]
            out = []
            e = it.deref_all(s, item) if member is not None else None
            for s2, r, kv in it.call_keep(s, vals, vals[0], [item], m.p.tyname['bool']):
                for s3, b in self.both(s2, r):
                    if b == want and member is not None:
                        # only the members of the set count
                        key = self.push_k(s3, ('v', tuple(('e', x) for x in kv)))
                        for s4, q in self.both(s3, it.bterm(('contains', member, e))):
                            kv4 = tuple(x[1] for x in self.pop_k(s4, key)[1])
                            out.append((s4, None, ('done', want)) if q else (s4, kv4, None))
                    elif b == want:
                        out.append((s3, None, ('done', want)))
                    else:
                        out.append((s3, tuple(kv), None))
            return out
        return self.loop(st, v, (a[1],), step)

    def members(self, st, w):
        """the elements of a set (in some order)"""
        it = self.it
        x = w[2]
        got = []
        for e in self.values(self.T[x[2]]['args'][0]):
            if it.branch(st, ('contains', x, e)):
                got.append(('e', e))
        return ('it', 'seq', tuple(got), w[3])

    def values(self, ty):
        """all values of an enum"""
        t = self.T[ty]
        if t['k'] != 'adt' or t.get('kind') != 'enum':
            raise Unsupported('elements of a set')
        out = []
        for i, var in enumerate(t['variants']):
            fs = [()]
            for f in var['f']:
                fs = [y + (z,) for y in fs for z in self.values(f['t'])]
            out += [('A', ty, i, y) for y in fs]
        return out

    def some_char(self, st, ps, t, f, want):
        it, m = self.it, self.m
        terms = []
        for q in ps:
            if q[0] == 'L':
                for c in q[1].decode('utf8', 'replace'):
                    if any(l <= ord(c) <= h for l, h in t):
                        return [(st, want)]
            elif q[0] == 'S':
                terms.append(q)
            else:
                raise Unsupported('characters of derived text')
        out = []
        s0 = st
        for q in terms:
            known = self.piece_chars(s0, q)
            tt = t if known is None else cs_inter(t, known)
            ff = f if known is None else cs_inter(f, known)
            whole = self.whole(s0, (q,))
            if tt:
                s2 = s0.copy()
                n = m.plen(s2, q)
                if not ff:
                    if it.assume(s2, ('eq', n, ZERO), False):
                        out.append((s2, want))
                    s0 = s0.copy()
                    if not it.assume(s0, ('eq', m.plen(s0, q), ZERO), True):
                        return out
                    continue
                if it.assume(s2, ('eq', n, ZERO), False):
                    s2.facts[('b', ('somechar', whole if whole is not None else ('part', q[1], q[2], q[3]), tt))] = True
                    out.append((s2, want))
                s0 = s0.copy()
                if whole is not None:
                    s0.facts[('chars', whole)] = ff
                else:
                    s0.facts[('chars', ('part', q[1], q[2], q[3]))] = ff
        out.append((s0, not want))
        return out

    def collect(self, st, itv, d):
        it, m = self.it, self.m
        t = self.T[d]
        p = t.get('path')
        if it.is_text(d):
            if itv[0] == 'it' and itv[1] == 'chars' and not itv[3]:
                return [(st, ('s', itv[2]))]
            if itv[0] == 'it' and itv[1] == 'bytes':
                return [(st, ('s', itv[2]))]

            def step(s, vals, item):
                if item is None:
                    return [(s, None, ('done', vals[0]))]
                x = it.deref_all(s, item)
                ps = m.pieces(s, x) if self.textual(s, x) or (isinstance(x, tuple) and x[0] == 'A') else (m.char_piece(s, x),)
                v = pieces_cat(vals[0][1], ps)
                if len(v) > 12:
                    raise Unsupported('collected text')
                return [(s, (('s', v),), None)]
            return self.loop(st, itv, (('s', ()),), step)
        if p == 'alloc::vec::Vec' or t['k'] == 'slice' or p == 'alloc::boxed::Box':
            if itv[0] == 'it' and itv[1] == 'seq' and not itv[3] and all(q[0] != 'M' for q in itv[2]):
                return [(st, ('v', itv[2]))]

            def step(s, vals, item):
                if item is None:
                    return [(s, None, ('done', vals[0]))]
                return [(s, (m.push(vals[0], item),), None)]
            return self.loop(st, itv, (('v', ()),), step)
        if p == 'std::collections::hash::set::HashSet':
            def step(s, vals, item):
                if item is None:
                    return [(s, None, ('done', vals[0]))]
                return [(s, (self.hsput(s, vals[0], it.freeze(s, item)),), None)]
            return self.loop(st, itv, (('hs', ()),), step)
        if p in ('core::result::Result', 'core::option::Option'):
            good = OK if p.endswith('Result') else SOME
            inner = t['args'][0]

            def step(s, vals, item):
                if item is None:
                    v = vals[0]
                    if it.is_text(inner):
                        raise Unsupported('collect into text')
                    return [(s, None, ('done', ('A', d, good, (v,))))]
                out = []
                for s2, var in self.variants(s, item):
                    e = item[3] if item[0] == 'A' else it.expand(s2, item, var)[3]
                    if var == good:
                        out.append((s2, (m.push(vals[0], e[0]),), None))
                    else:
                        out.append((s2, None, ('done', ('A', d, var, e))))
                return out
            return self.loop(st, itv, (('v', ()),), step)
        raise Unsupported('collect into %s' % t['s'][:40])

    # ---- futures
    def poll(self, st, pin, d):
        it, m = self.it, self.m
        b, p = it.target(st, pin)
        v = it.read(st, b, p)
        while isinstance(v, tuple) and v[0] in ('R', 'B'):
            if v[0] == 'R':
                b, p = v[1], v[2]
            else:
                p = p + (('b',),)
            v = it.read(st, b, p)
        if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and self.T[v[1]]['k'] == 'coroutine':
            body = it.p.body(self.T[v[1]]['body'])
            if body is None:
                raise Unsupported('coroutine body')
            if b[0] != 'c':
                it.write(st, b, p, ('polled',))
            out = []
            for s, r in it.exec_fn(st, body, [v, ('S', ('resume',), body.locals[2])]):
                out.append((s, ('A', d, 0, (r,))))
            return out
        if isinstance(v, tuple) and v[0] == 'fut':
            out = []
            if it.hooks is None:
                raise Unsupported('I/O')
            for s, r in it.hooks.io(st, v[1], list(v[2:]), self.T[d]['args'][0]):
                out.append((s, ('A', d, 0, (r,))))
            return out
        if isinstance(v, tuple) and v[0] == 'ready':
            return [(st, ('A', d, 0, (v[1],)))]
        raise Unsupported('poll of %s' % show(v)[:60])
