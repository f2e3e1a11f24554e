"""Abstract values.

Every value is a nested tuple (hashable, compared structurally):

  int/bool           constants of bool, char, 8- and 16-bit integer type, and enum discriminants
  ('#', c, terms)    integers of 32 bits and more: c + sum(coef * param), every param >= 0
                     (a negative param id stands for an integer of unknown sign)
  ('A', ty, v, fs)   struct / tuple / enum variant / closure / coroutine
  ('S', term, ty)    unknown value; `term` says where it comes from
  ('R', base, path)  reference; base = ('l', frame, local) | ('m', name) | ('c', value)
  ('B', v)           Box
  ('s', pieces)      text or bytes (String, str, Vec<u8>, [u8])
  ('v', parts)       Vec<T>, [T], [T; N]
  ('F', ty)          function item
  ('it', ...)        iterators, ('fut', ...) futures, ('fa', ...) fmt::Arguments, ...
  None               uninitialised / moved out

pieces:  ('L', bytes)            literal
         ('S', term, lo, hi)     part lo..hi of the unknown text `term`
         ('T', fn, args...)      derived text (decimal, hex, base64, ...)
parts:   ('e', value)            one element
         ('S', term, ety, lo, hi) elements lo..hi of the unknown collection `term`
         ('M', part, f)          the same, each mapped with the pure closure f
         ('G', template, n)      n elements, element i is template with param IDX := i
"""

ZERO = ('#', 0, ())
ONE = ('#', 1, ())
IDX = 'i'          # bound index of ('G', ..) templates


def lin(c, terms=()):
    return ('#', c, terms)


def param(p):
    return ('#', 0, ((p, 1),))


def as_lin(v):
    if isinstance(v, bool):
        return ('#', int(v), ())
    if isinstance(v, int):
        return ('#', v, ())
    return v


def is_int(v):
    return isinstance(v, int) or (isinstance(v, tuple) and v and v[0] == '#')


def _norm(d, c):
    return ('#', c, tuple(sorted(((p, k) for p, k in d.items() if k), key=lambda x: (isinstance(x[0], str), x[0]))))


def ladd(a, b):
    if not b[2]:
        return ('#', a[1] + b[1], a[2])
    if not a[2]:
        return ('#', a[1] + b[1], b[2])
    d = dict(a[2])
    for p, k in b[2]:
        d[p] = d.get(p, 0) + k
    return _norm(d, a[1] + b[1])


def lscale(a, n):
    if n == 0:
        return ZERO
    return ('#', a[1] * n, tuple((p, k * n) for p, k in a[2]))


def lsub(a, b):
    return ladd(a, lscale(b, -1))


def lsubst(a, p, e):
    """a with param p replaced by the linear expression e"""
    for q, k in a[2]:
        if q == p:
            rest = ('#', a[1], tuple(x for x in a[2] if x[0] != p))
            return ladd(rest, lscale(e, k))
    return a


def lmin(a):
    """greatest known lower bound, or None"""
    for p, k in a[2]:
        if k < 0 or (not isinstance(p, str) and p < 0):
            return None
    return a[1]


def lmax(a):
    for p, k in a[2]:
        if k > 0 or (not isinstance(p, str) and p < 0):
            return None
    return a[1]


def lshow(a):
    if isinstance(a, int):
        return str(a)
    s = [str(a[1])] if a[1] or not a[2] else []
    for p, k in a[2]:
        n = 'n%s' % p
        s.append(n if k == 1 else '%d*%s' % (k, n))
    return '+'.join(s)


# ---- char sets: sorted tuple of disjoint (lo, hi) inclusive ranges

def cs_norm(rs):
    out = []
    for lo, hi in sorted(rs):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_of(*items):
    return cs_norm([(ord(x), ord(x)) if isinstance(x, str) else ((x, x) if isinstance(x, int) else x) for x in items])


def cs_inter(a, b):
    return cs_norm([(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b if max(x[0], y[0]) <= min(x[1], y[1])])


def cs_union(a, b):
    return cs_norm(list(a) + list(b))


def cs_minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for l2, h2 in b:
            if h2 < cur or l2 > hi:
                continue
            if l2 > cur:
                out.append((cur, l2 - 1))
            cur = max(cur, h2 + 1)
        if cur <= hi:
            out.append((cur, hi))
    return cs_norm(out)


def cs_size(a):
    return sum(h - l + 1 for l, h in a)


U8 = ((0, 255),)
CHAR = ((0, 0xD7FF), (0xE000, 0x10FFFF))
ASCII = ((0, 127),)


def cs_show(a):
    def c(n):
        return repr(chr(n)) if 32 < n < 127 else 'U+%02X' % n
    return '{' + ', '.join(c(l) if l == h else '%s-%s' % (c(l), c(h)) for l, h in a) + '}'


# ---- text pieces

def pieces_cat(ps, qs):
    out = list(ps)
    for q in qs:
        if q[0] == 'L':
            if not q[1]:
                continue
            if out and out[-1][0] == 'L':
                out[-1] = ('L', out[-1][1] + q[1])
                continue
        elif q[0] == 'S':
            if q[2] == q[3]:
                continue
            if out and out[-1][0] == 'S' and out[-1][1] == q[1] and out[-1][3] == q[2]:
                out[-1] = ('S', q[1], out[-1][2], q[3])
                continue
        out.append(q)
    return tuple(out)


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return ('s', (('L', b),) if b else ())


def cref(v):
    return ('R', ('c', v), ())


def show(v, depth=6):
    if v is None:
        return '_'
    if isinstance(v, bool) or isinstance(v, int) or isinstance(v, str):
        return str(v)
    if isinstance(v, bytes):
        return repr(v)[1:]
    if not isinstance(v, tuple) or not v:
        return str(v)
    if depth <= 0:
        return '..'
    d = depth - 1
    k = v[0]
    if k == '#':
        return lshow(v)
    if k == 'A':
        return '%s{%s}' % (v[2] if v[1] != 't' else '', ', '.join(show(x, d) for x in v[3]))
    if k == 'S' and len(v) == 3:
        return showterm(v[1], d)
    if k == 'R':
        return '&' + (show(v[1][1], d) if v[1][0] == 'c' else '%s' % (v[1],)) + ''.join('.%s' % (x[1] if len(x) > 1 else x[0],) for x in v[2])
    if k == 's':
        return showpieces(v[1], d)
    return '(' + ' '.join(show(x, d) for x in v) + ')'


def showpieces(ps, d=6):
    out = []
    for p in ps:
        if p[0] == 'L':
            out.append(repr(p[1])[1:])
        elif p[0] == 'S':
            if p[2] == ZERO:
                out.append('%s[..%s]' % (showterm(p[1], d), lshow(p[3])))
            else:
                out.append('%s[%s..%s]' % (showterm(p[1], d), lshow(p[2]), lshow(p[3])))
        else:
            out.append('%s(%s)' % (p[1], ', '.join(show(x, d) for x in p[2:])))
    return '<' + ' '.join(out) + '>'


def showterm(t, d=6):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == 'arg':
        return str(t[1])
    if t[0] == 'f':
        return '%s.%s' % (showterm(t[1], d), t[2])
    if t[0] == 'as':
        return '%s@%s' % (showterm(t[1], d), t[2])
    if t[0] == 'idx':
        return '%s[%s]' % (showterm(t[1], d), show(t[2], d))
    return show(t, d)
