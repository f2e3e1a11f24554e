"""Abstract interpreter over the dumped MIR.

It explores every path through a function and everything it calls (callees are entered in the
caller's abstract state), merging states at loop heads with a fixpoint computation: integers are
kept as affine families base + sum(n_i * ray_i), n_i >= 0, and everything else has to agree.
Branches on unknown data are followed both ways and the outcome is recorded as a fact.  Nothing is
executed, no path is handed to a solver, and loops are never cut off by a bound.
"""
import math, heapq
import json
import os
import sys
import time
from vals import *

sys.setrecursionlimit(100000)

BIG = {'usize', 'isize', 'u32', 'i32', 'u64', 'i64', 'u128', 'i128'}
RANGE = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767)}


import os
TRACE = os.environ.get('VERIF_TRACE')


class Split(Exception):
    """the current statement depends on something unknown: redo it in each of these refinements"""
    def __init__(self, alts, why='', st=None):
        self.alts = alts
        self.why = why
        self.st = st        # the state the question came up in: may be a successor of the one to refine

    def sync(self, st):
        """carry names given to unknown integers since `st` over to it"""
        s = self.st
        if s is None or s is st:
            return
        st.np = max(st.np, s.np)
        st.nn = max(st.nn, s.nn)
        for k, v in s.nums.items():
            if k not in st.nums:
                st.nums[k] = v


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Timeout(Exception):
    pass


class Body:
    __slots__ = ('key', 'path', 'argc', 'spread', 'locals', 'blocks', 'rpo', 'heads', 'npred', 'live', 'borrowed',
                 'local', 'span', 'kind', 'root', 'names', 'nblocks')

    def __init__(self, j):
        self.key = j['key']
        self.path = j['path']
        self.argc = j['argc']
        self.spread = j['spread']
        self.locals = j['locals']
        self.local = j['local']
        self.span = j['span']
        self.kind = j['kind']
        self.root = j['root']
        self.names = j['names']
        self.blocks = [None if b is None else (b['s'], b['t']) for b in j['blocks']]
        self.analyse()

    def succs(self, bb):
        t = self.blocks[bb][1]
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            return [x[1] for x in t[3]] + [t[4]]
        if k == 'drop':
            return [t[1]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[4]]
        if k == 'yield':
            return [t[2]]
        return []

    def analyse(self):
        n = len(self.blocks)
        color = [0] * n
        post = []
        self.heads = set()
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if self.blocks[s] is None:
                    continue
                if color[s] == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succs(s))))
                    break
                elif color[s] == 1:
                    self.heads.add(s)
            else:
                color[b] = 2
                post.append(b)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(post))}
        self.npred = {}
        for b in post:
            for s in self.succs(b):
                self.npred[s] = self.npred.get(s, 0) + 1
        self.nblocks = len(post)
        # locals whose address is taken are never dropped early
        bor = set()
        uses = {}

        def place_uses(p, acc):
            acc.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    acc.add(e[1])

        def op_uses(o, acc):
            if o[0] in 'cm':
                place_uses(o[1], acc)
        gen, kill = {}, {}
        for b in post:
            g, k = set(), set()

            def use(f):
                acc = set()
                f(acc)
                g.update(acc - k)
            for s in self.blocks[b][0]:
                if s[0] == '=':
                    r = s[2]
                    kk = r[0]
                    if kk in ('use',):
                        use(lambda a: op_uses(r[1], a))
                    elif kk in ('ref', 'rawptr', 'reborrow'):
                        if not (r[2][1] and r[2][1][0][0] == '*'):
                            bor.add(r[2][0])
                        use(lambda a: place_uses(r[2], a))
                    elif kk == 'repeat':
                        use(lambda a: op_uses(r[1], a))
                    elif kk == 'cast':
                        use(lambda a: op_uses(r[2], a))
                    elif kk == 'bin':
                        use(lambda a: (op_uses(r[2], a), op_uses(r[3], a)))
                    elif kk == 'un':
                        use(lambda a: op_uses(r[2], a))
                    elif kk == 'discr':
                        use(lambda a: place_uses(r[1], a))
                    elif kk == 'agg':
                        for o in r[2]:
                            use(lambda a: op_uses(o, a))
                    if s[1][1]:
                        use(lambda a: place_uses(s[1], a))
                    else:
                        k.add(s[1][0])
                elif s[0] == 'sd':
                    use(lambda a: place_uses(s[1], a))
                elif s[0] in ('live', 'dead'):
                    k.add(s[1])
            t = self.blocks[b][1]
            if t[0] == 'switch':
                use(lambda a: op_uses(t[1], a))
            elif t[0] == 'drop':
                use(lambda a: place_uses(t[2], a))
            elif t[0] == 'call':
                use(lambda a: op_uses(t[1], a))
                for o in t[2]:
                    use(lambda a: op_uses(o, a))
                if t[3][1]:
                    use(lambda a: place_uses(t[3], a))
                else:
                    k.add(t[3][0])
            elif t[0] == 'assert':
                use(lambda a: op_uses(t[1], a))
                for o in t[3][1:]:
                    if isinstance(o, list):
                        use(lambda a: op_uses(o, a))
            elif t[0] == 'yield':
                use(lambda a: op_uses(t[1], a))
            elif t[0] == 'return':
                use(lambda a: a.add(0))
            gen[b], kill[b] = g, k
        live = {b: set() for b in post}
        changed = True
        while changed:
            changed = False
            for b in post:
                o = set()
                for s in self.succs(b):
                    o |= live.get(s, set())
                i = gen[b] | (o - kill[b])
                if i != live[b]:
                    live[b] = i
                    changed = True
        self.live = live
        self.borrowed = bor


class Prog:
    def __init__(self, dump, rt=''):
        self.d = dump
        self.rt = rt
        self.T = dump['types']
        self.raw = {b['key']: b for b in dump['bodies']}
        self.cache = {}
        self.roots = dump['roots']
        self.adts = {a['path']: a for a in dump['adts']}
        self.tyname = {}
        for i, t in enumerate(self.T):
            self.tyname.setdefault(t['s'], i)
        self._inh = {}

    @staticmethod
    def load(path, rt=''):
        with open(path) as f:
            return Prog(json.load(f), rt)

    def body(self, key):
        b = self.cache.get(key)
        if b is None:
            j = self.raw.get(key)
            if j is None:
                return None
            b = self.cache[key] = Body(j)
        return b

    def root(self, path):
        for r in self.roots:
            if r['path'] == path:
                return r
        return None

    def inhabited(self, ty):
        r = self._inh.get(ty)
        if r is None:
            self._inh[ty] = True
            t = self.T[ty]
            k = t['k']
            if k == 'never':
                r = False
            elif k == 'tuple':
                r = all(self.inhabited(f) for f in t['fields'])
            elif k == 'adt' and t.get('kind') == 'enum' and 'variants' in t:
                r = any(all(self.inhabited(f['t']) for f in v['f']) for v in t['variants'])
            else:
                r = True
            self._inh[ty] = r
        return r

    def variants_possible(self, ty):
        t = self.T[ty]
        if t['k'] == 'adt' and t.get('kind') == 'enum' and 'variants' in t:
            return frozenset(i for i, v in enumerate(t['variants']) if all(self.inhabited(f['t']) for f in v['f']))
        return None


class State:
    __slots__ = ('mem', 'facts', 'nums', 'mon', 'trace', 'np', 'nn', 'notes', 'approx', 'back')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.nums = {}
        self.mon = {}
        self.trace = None
        self.np = 0
        self.nn = 0
        self.notes = ()
        self.back = False     # arrived over a back edge
        self.approx = ()      # why not every run this state stands for need be possible

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.nums = dict(self.nums)
        s.mon = dict(self.mon)
        s.trace = self.trace
        s.np = self.np
        s.nn = self.nn
        s.notes = self.notes
        s.approx = self.approx
        s.back = self.back
        return s

    def inexact(self, why):
        if why not in self.approx:
            self.approx = self.approx + (why,)

    def note(self, n):
        if n not in self.notes:
            self.notes = self.notes + (n,)

    def log(self, item):
        self.trace = (self.trace, item)

    def path(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    def newp(self):
        self.np += 1
        return param(self.np - 1)

    def fresh(self):
        self.nn += 1
        return ('n', self.nn - 1)


# ------------------------------------------------------------------ canonical form
_walk = {}


def walk(v):
    """(skeleton, [Lin...], [fresh id...]) of a value"""
    if not isinstance(v, tuple):
        return v, (), ()
    r = _walk.get(v)
    if r is not None:
        return r
    if len(v) == 3 and v[0] == '#':
        k = [x for x in v[2] if x[0] == IDX]
        if k:
            r = (('#', k[0][1]), (('#', v[1], tuple(x for x in v[2] if x[0] != IDX)),), ())
        else:
            r = (('#',), (v,), ())
    elif len(v) == 2 and v[0] == 'n':
        r = (v, (), (v[1],))
    else:
        sk, ls, ns = [], [], []
        for x in v:
            if isinstance(x, tuple):
                a, b, c = walk(x)
                sk.append(a)
                ls.extend(b)
                ns.extend(c)
            else:
                sk.append(x)
        if not ls:
            r = (v, (), tuple(ns))
        else:
            r = (tuple(sk), tuple(ls), tuple(ns))
    if len(_walk) > 3000000:
        _walk.clear()
    _walk[v] = r
    return r


def map_lins(v, f):
    if not isinstance(v, tuple) or not walk(v)[1]:
        return v
    if len(v) == 3 and v[0] == '#':
        return f(v)
    return tuple(map_lins(x, f) if isinstance(x, tuple) else x for x in v)


def map_fresh(v, m):
    if not isinstance(v, tuple) or not walk(v)[2]:
        return v
    if len(v) == 2 and v[0] == 'n':
        return ('n', m[v[1]])
    return tuple(map_fresh(x, m) if isinstance(x, tuple) else x for x in v)


_vol = {}


def volatile(v):
    """set of volatile subterms (element of a collection at some index, result of some call)"""
    if not isinstance(v, tuple):
        return frozenset()
    r = _vol.get(v)
    if r is not None:
        return r
    _, ls, ns = walk(v)
    if not ls and not ns:
        r = frozenset()
    else:
        acc = set()
        for x in v:
            if isinstance(x, tuple):
                acc |= volatile(x)
        if v and v[0] in ('idx', 'ch', 'part'):
            acc.add(v)
        elif len(v) == 4 and v[0] == 'S':
            acc.add(('part', v[1], v[2], v[3]))
        elif len(v) == 2 and v[0] == 'n':
            acc.add(v)
        r = frozenset(acc)
    if len(_vol) > 3000000:
        _vol.clear()
    _vol[v] = r
    return r


_unk = {}
UNKNOWN_TAGS = frozenset(['call', 'unk', 'display', 'debug', 'overwritten', 'part2', 'zeros'])


def has_unknown(v):
    """does the value depend on a function the analysis does not interpret?"""
    if not isinstance(v, tuple) or not v:
        return False
    r = _unk.get(v)
    if r is None:
        h = v[0]
        r = (isinstance(h, str) and (h in ('call', 'unk') or h == 'T' and len(v) > 1 and v[1] in ('display', 'debug', 'overwritten', 'part', 'zeros'))) or any(has_unknown(x) for x in v)
        if len(_unk) > 2000000:
            _unk.clear()
        _unk[v] = r
    return r


class Canon:
    """skeleton and numeric slots of a whole state"""
    __slots__ = ('skel', 'slots', 'order')


def canon(st, rename=True):
    items = []
    for k in sorted(st.mem, key=_memkey):
        v = st.mem[k]
        if v is not None:
            items.append((0, k, v))
    for k in sorted(st.mon):
        items.append((1, k, st.mon[k]))
    fs = []
    first = None
    for k, v in st.facts.items():
        sk, ls, _ = walk(k)
        if k[0] == 'bnd':
            # what the place is for: a number of the innermost call that equals it
            if first is None:
                first = {}
                top = max((x[1][0] for x in items if x[0] == 0 and isinstance(x[1][0], int)), default=None)
                for tag, mk, x in items:
                    if tag == 0 and mk[0] == top:
                        for n, l in enumerate(walk(x)[1]):
                            first.setdefault(l, mk[1] * 100 + n)
            al = first.get(k[2], -1)
            fs.append((repr(sk), '%06d' % al + repr(ls), k, v, al))
        else:
            fs.append((repr(sk), repr(ls), k, v, None))
    fs.sort(key=lambda x: x[:2])
    for _, _, k, v, al in fs:
        items.append((2, k, v))
    aligned = tuple(x[4] for x in fs if x[4] is not None)
    fs = []
    for k, v in st.nums.items():
        sk, ls, _ = walk(k)
        fs.append((repr(sk), repr(ls), k, v))
    fs.sort(key=lambda x: x[:2])
    for _, _, k, v in fs:
        items.append((3, k, v))
    slots = []
    skel = []
    fresh = {}
    for tag, k, v in items:
        if tag >= 2:
            a, b, c = walk(k)
            for n in c:
                if n not in fresh:
                    fresh[n] = len(fresh)
            if c:
                a = walk(map_fresh(k, fresh))[0]
            slots.extend(b)
            k2 = a
        else:
            k2 = k
        a, b, c = walk(v)
        for n in c:
            if n not in fresh:
                fresh[n] = len(fresh)
        if c:
            a = walk(map_fresh(v, fresh))[0]
        slots.extend(b)
        skel.append((tag, k2, a))
    c = Canon()
    c.skel = (tuple(skel), st.notes, aligned) if aligned else (tuple(skel), st.notes)
    c.slots = slots
    c.order = (items, fresh)
    return c


def _memkey(k):
    return (str(type(k[0])), k) if False else tuple((0, x, '') if isinstance(x, int) else (1, 0, str(x)) for x in k)


def rebuild(st, c, newslots, np):
    """state like st with the slots of its canonical form replaced"""
    it = iter(newslots)
    items, fresh = c.order

    def f(l):
        x = next(it)
        for p, k in l[2]:
            if p == IDX:
                return ladd(x, ('#', 0, ((IDX, k),)))
        return x

    def g(v):
        v = map_lins(v, f)
        return map_fresh(v, fresh) if fresh else v
    out = State()
    for tag, k, v in items:
        if tag == 0:
            out.mem[k] = g(v)
        elif tag == 1:
            out.mon[k] = g(v)
        elif tag == 2:
            k2 = g(k)
            out.facts[k2] = g(v)
        else:
            k2 = g(k)
            out.nums[k2] = g(v)
    out.trace = st.trace
    out.notes = st.notes
    out.approx = st.approx
    out.np = np
    out.nn = len(fresh)
    return out


def norm_slots(slots):
    """rename params by first occurrence (for exact comparison)"""
    m = {}
    out = []
    for _, c, ts in slots:
        o = []
        for p, k in sorted(ts, key=lambda x: (m.get(x[0], 1 << 30), str(x[0]))):
            if isinstance(p, str):
                o.append((p, k))
                continue
            if p not in m:
                m[p] = len(m)
            o.append(((m[p] if p >= 0 else -1 - m[p]), k))
        out.append((c, tuple(o)))
    return tuple(out)


def family(slots):
    """(base vector, rays, lines)"""
    base = tuple(s[1] for s in slots)
    cols = {}
    for i, s in enumerate(slots):
        for p, k in s[2]:
            cols.setdefault(p, {})[i] = k
    rays, lines = [], []
    n = len(slots)
    for p, c in cols.items():
        v = tuple(sorted(c.items()))
        if isinstance(p, str):
            continue
        (rays if p >= 0 else lines).append(v)
    return base, rays, lines


def _dict(v):
    return dict(v)


def in_cone(v, rays, lines, depth=10, left=None):
    """is the sparse vector v (dict) a nonnegative integer combination of rays (and any of lines)?
    (False also when the search takes too long)"""
    if not v:
        return True
    if left is None:
        left = [3000]
    left[0] -= 1
    if depth <= 0 or left[0] < 0:
        return False
    # pick the slot fewest generators touch
    best = None
    for s in v:
        c = [r for r in rays if any(i == s for i, _ in r)]
        l = [r for r in lines if any(i == s for i, _ in r)]
        n = len(c) + len(l)
        if n == 0:
            return False
        if best is None or n < best[0]:
            best = (n, s, c, l)
    _, s, c, l = best
    want = v[s]
    for r in c:
        k = dict(r)[s]
        if (k > 0) == (want > 0):
            w = dict(v)
            for i, x in r:
                y = w.get(i, 0) - x
                if y:
                    w[i] = y
                else:
                    w.pop(i, None)
            if in_cone(w, rays, lines, depth - 1, left):
                return True
    for r in l:
        k = dict(r)[s]
        if want % k == 0:
            q = want // k
            w = dict(v)
            for i, x in r:
                y = w.get(i, 0) - q * x
                if y:
                    w[i] = y
                else:
                    w.pop(i, None)
            if in_cone(w, rays, [x for x in lines if x != r], depth - 1, left):
                return True
    return False


def subsumed(f2, f1):
    b1, r1, l1 = f1
    b2, r2, l2 = f2
    d = {i: y - x for i, (x, y) in enumerate(zip(b1, b2)) if x != y}
    if not in_cone(d, r1, l1):
        return False
    for r in r2:
        if r not in r1 and not in_cone(dict(r), r1, l1):
            return False
    for r in l2:
        if r not in l1 and not (in_cone(dict(r), r1, l1) and in_cone({i: -x for i, x in r}, r1, l1)):
            return False
    return True


def join(f1, f2, cap=10):
    b1, r1, l1 = f1
    b2, r2, l2 = f2
    rays, lines = list(r1), list(l1)
    for r in r2:
        if r not in rays and not in_cone(dict(r), rays, lines):
            rays.append(r)
    for r in l2:
        if r not in lines:
            lines.append(r)
    d = {i: y - x for i, (x, y) in enumerate(zip(b1, b2)) if x != y}
    if d and all(x < 0 for x in d.values()) and all(b2[i] >= 0 for i in d) and not in_cone(d, rays, lines):
        # the later family starts lower: count up from there
        b1, d = b2, {i: -x for i, x in d.items()}
    if d and not in_cone(d, rays, lines):
        # one counter goes down while another goes up (what remains / what is done): move along a ray of
        # the family instead, so that what remains is still known not to be negative
        neg = [i for i in d if d[i] < 0]
        if neg and len(neg) < len(d):
            for r in r1:
                rd = dict(r)
                if not all(rd.get(i, 0) > 0 for i in neg) or any(k < 0 for k in rd.values()):
                    continue
                k = max(-(d[i] // rd[i]) for i in neg)
                e = dict(d)
                for i, x in r:
                    e[i] = e.get(i, 0) + k * x
                    if not e[i]:
                        del e[i]
                if any(x < 0 for x in e.values()):
                    continue
                b1 = list(b1)
                for i, x in r:
                    b1[i] -= k * x
                b1 = tuple(b1)
                d = e
                break
        if d:
            rays.append(tuple(sorted(d.items())))
    # drop redundant rays
    i = 0
    while i < len(rays):
        rest = rays[:i] + rays[i + 1:]
        if in_cone(dict(rays[i]), rest, lines):
            rays = rest
        else:
            i += 1
    if len(rays) > cap or any(abs(k) > 1 for i, k in d.items()) and len(set(d.values())) > 1:
        h = hull(f1, f2)
        if h is not None:
            return h
    if len(rays) > cap:
        touched = sorted({i for r in rays for i, _ in r})
        lines = list(lines) + [((i, 1),) for i in touched]
        rays = []
    return b1, rays, lines


def hull(f1, f2):
    """forest of order relations that hold in both families: x_j = x_parent + c + n, n >= 0"""
    b1, r1, l1 = f1
    b2, r2, l2 = f2
    if l1 or l2:
        return None
    n = len(b1)
    V = sorted({i for r in r1 for i, _ in r} | {i for r in r2 for i, _ in r} | {i for i in range(n) if b1[i] != b2[i]})
    D1, D2 = [dict(r) for r in r1], [dict(r) for r in r2]

    def lb(i, j):
        """greatest c with x_j - x_i >= c in both; i None: x_j >= c"""
        best = None
        for b, D in ((b1, D1), (b2, D2)):
            for r in D:
                if r.get(j, 0) < (r.get(i, 0) if i is not None else 0):
                    return None
            c = b[j] - (b[i] if i is not None else 0)
            best = c if best is None else min(best, c)
        return best
    # slots that move together
    cls = []
    for i in V:
        for g in cls:
            j = g[0]
            a, b = lb(j, i), lb(i, j)
            if a is not None and b is not None and a == -b:
                g.append(i)
                break
        else:
            cls.append([i])
    reps = [g[0] for g in cls]
    c = {(i, j): lb(i, j) for i in reps for j in reps if i != j}
    below = {j: [i for i in reps if i != j and c[i, j] is not None] for j in reps}
    # break two-sided bounds by a fixed order
    for i in reps:
        for j in reps:
            if i < j and c[i, j] is not None and c[j, i] is not None:
                # i below j when that is the tighter side at 0
                if c[i, j] >= 0 or c[j, i] < 0:
                    if j in below[i]:
                        below[i].remove(j)
                elif i in below[j]:
                    below[j].remove(i)
    base = list(b1)
    expr = {}
    rays = []

    def solve(j, stack):
        if j in expr:
            return True
        if j in stack:
            return False
        r = lb(None, j)
        cand = [i for i in below[j] if i not in stack and (c[i, j] >= 0 or r is None)]
        # closest predecessor: the one most of the others are below
        cand = sorted(cand, key=lambda i: (-sum(1 for k in cand if k != i and k in below[i]), -c[i, j], i))
        for i in cand:
            if solve(i, stack | {j}):
                expr[j] = (expr[i][0] + c[i, j], expr[i][1] | {j})
                return True
        if r is None:
            return False
        expr[j] = (r, frozenset([j]))
        return True
    for j in reps:
        if not solve(j, frozenset()):
            return None
    for g in cls:
        for i in g:
            base[i] = expr[g[0]][0] + (b1[i] - b1[g[0]])
    for j in reps:
        v = {}
        for g in cls:
            if j in expr[g[0]][1]:
                for i in g:
                    v[i] = 1
        rays.append(tuple(sorted(v.items())))
    f = (tuple(base), rays, [])
    if not subsumed(f1, f) or not subsumed(f2, f):
        return None
    return f


def reduce_rays(f):
    b, rays, lines = f
    i = 0
    rays = list(rays)
    while i < len(rays):
        rest = rays[:i] + rays[i + 1:]
        if in_cone(dict(rays[i]), rest, lines):
            rays = rest
        else:
            i += 1
    return b, rays, lines


def slots_of(f):
    base, rays, lines = f
    n = len(base)
    terms = [[] for _ in range(n)]
    for j, r in enumerate(sorted(rays)):
        for i, k in r:
            terms[i].append((j, k))
    for j, r in enumerate(sorted(lines)):
        for i, k in r:
            terms[i].append((-1 - j, k))
    return [('#', base[i], tuple(sorted(terms[i]))) for i in range(n)], len(rays)


def holds(v, x):
    if v == x:
        return True
    for y in v:
        if isinstance(y, tuple) and holds(y, x):
            return True
    return False


def plain_numbers(v, acc):
    """the numbers a value holds, other than as bounds of texts and sequences"""
    if v and v[0] == '#':
        acc.add(v)
    elif v and v[0] not in ('S', 'T', 'L'):
        for y in v:
            if isinstance(y, tuple):
                plain_numbers(y, acc)


def most_pieces(v):
    """number of pieces of the longest text or sequence in a value"""
    if not isinstance(v, tuple):
        return 0
    if len(v) == 2 and v[0] in ('s', 'v') and isinstance(v[1], tuple):
        # (a stretch of an unknown sequence weighs more)
        return max([len(v[1]) if v[0] == 's' else sum(3 if x and x[0] == 'S' else 1 for x in v[1] if isinstance(x, tuple))] + [most_pieces(x) for x in v[1] if isinstance(x, tuple)])
    return max([most_pieces(x) for x in v if isinstance(x, tuple)] or [0])


class LoopHead:
    """fixpoint bookkeeping of one loop head in one activation"""
    def __init__(self, interp, delay, what=''):
        self.i = interp
        self.seen = {}
        self.sym = {}
        self.delay = delay
        self.n = 0
        self.what = what
        self.wide = 1

    def shorten(self, st, v, most):
        if not isinstance(v, tuple) or most_pieces(v) <= most:
            return v
        if len(v) == 2 and v[0] == 's' and isinstance(v[1], tuple) and len(v[1]) > most:
            n = self.i.models.text_len(st, v)
            t = st.fresh()
            st.nums[('len', t)] = n
            return ('s', (('S', t, ZERO, n),))
        if len(v) == 2 and v[0] == 'v' and isinstance(v[1], tuple) and most_pieces(v) > most:
            tys = {x[2] if x[0] == 'S' else x[1][1] if x[0] == 'e' and isinstance(x[1], tuple) and x[1][0] == 'A' else
                   x[1][2] if x[0] == 'e' and isinstance(x[1], tuple) and x[1][0] == 'S' else None for x in v[1]}
            if len(tys) == 1 and None not in tys and 't' not in tys:
                n = ZERO
                for x in v[1]:
                    n = ladd(n, self.i.models.part_len(x))
                t = st.fresh()
                st.nums[('len', t)] = n
                return ('v', (('S', t, tys.pop(), ZERO, n),))
        return tuple(self.shorten(st, x, most) for x in v)

    @staticmethod
    def keep_apart(f, g):
        if set(f[1]) != set(g[1]) or set(f[2]) != set(g[2]):
            return False
        touched = {i for r in f[1] for i, _ in r} | {i for r in f[2] for i, _ in r}
        return not any(x != y and i in touched for i, (x, y) in enumerate(zip(f[0], g[0])))

    def add(self, st, back=True):
        self.i.prune(st)
        c = canon(st)
        fams = self.seen.get(c.skel)
        if self.n == 0:
            self.pieces = max([most_pieces(v) for v in st.mem.values()] or [0])
            self.facts = len(st.facts)
        elif self.i.exact_turns is not None and len(st.facts) > self.facts + self.i.exact_turns + 1:
            # looking for violations only: every turn adds something to what is known of the input
            self.i.cut[self.what] = self.i.cut.get(self.what, 0) + 1
            return None
        elif fams is None and self.n > 8:
            turns = self.i.exact_turns
            most = self.pieces + (12 if turns is None else 2 * turns + 2)
            long = [k for k, v in st.mem.items() if most_pieces(v) > most]
            if long and turns is not None:
                self.i.cut[self.what] = self.i.cut.get(self.what, 0) + 1
                return None
            if long:
                # a text or sequence that grows with every turn: only its length is followed from here on
                for k in long:
                    st.mem[k] = self.shorten(st, st.mem[k], most)
                st.inexact('unknown text')
                self.i.prune(st)
                c = canon(st)
                fams = self.seen.get(c.skel)
        f = family(c.slots)
        self.n += 1
        if self.n > self.i.head_budget:
            raise Budget('loop head %s' % self.what)
        if fams is None:
            f = reduce_rays(f)
            self.seen[c.skel] = [f]
            return rebuild(st, c, *slots_of(f))
        for g in fams:
            if subsumed(f, g):
                return None
        if self.i.exact_turns is not None:
            # looking for violations only: no generalisation, later turns are not followed
            if len(fams) >= self.i.exact_turns * (self.wide if back else 4):
                self.i.cut[self.what] = self.i.cut.get(self.what, 0) + 1
                return None
            fams.append(f)
            return rebuild(st, c, *slots_of(f))
        if len(fams) < self.delay and all(self.keep_apart(f, g) for g in fams):
            # plain counters that do not move together with anything symbolic are told apart for a while
            fams.append(f)
            return rebuild(st, c, *slots_of(f))
        if self.sym.get(c.skel, 0) < self.i.symdelay:
            # the first turn often differs from the others: start generalising after it
            self.sym[c.skel] = self.sym.get(c.skel, 0) + 1
            f = reduce_rays(f)
            fams.append(f)
            return rebuild(st, c, *slots_of(f))
        # widen: into the family closest to it
        best = min(range(len(fams)), key=lambda k: (sum(1 for x, y in zip(fams[k][0], f[0]) if x != y),
                                                    sum(abs(x - y) for x, y in zip(fams[k][0], f[0])), -k))
        g = join(fams[best], f)
        for _ in range(3):
            for k in range(len(fams) - 1, -1, -1):
                if k != best and subsumed(fams[k], g):
                    del fams[k]
                    if k < best:
                        best -= 1
        fams[best] = g
        out = rebuild(st, c, *slots_of(g))
        out.inexact('widened')
        return out


def dedupe(sts, T=None):
    """drop duplicates from a list of (state, extra) pairs, and join states that differ in one fact only when
    the join is exact: boolean term true/false, variant sets, character sets"""
    if len(sts) < 2:
        return sts
    groups = {}
    out = []
    for s, x in sts:
        s.mem[('k', 9999)] = x if isinstance(x, tuple) else ('x', x)
        c = canon(s)
        del s.mem[('k', 9999)]
        items, fresh = c.order
        sk = []
        fd = {}
        for (tag, k, v), e in zip(items, c.skel[0]):
            if tag == 2 and k[0] in ('var', 'b', 'cs') and not walk(k)[1] and not (isinstance(v, tuple) and walk(v)[1]):
                fd[e[1]] = (k, v)
            else:
                sk.append(e)
        key = (tuple(sk), c.skel[1], norm_slots(c.slots))
        g = groups.get(key)
        if g is None:
            g = groups[key] = []
            out.append(g)
        g.append([s, x, fd])
    res = []
    for g in out:
        if len(g) > 1:
            g = merge_facts(g)
        res.extend((s, x) for s, x, _ in g)
    return res


def merge_facts(g):
    # exact duplicates
    seen = {}
    g = sorted(g, key=lambda e: len(e[0].approx))
    for e in g:
        seen.setdefault(frozenset((k, v[1]) for k, v in e[2].items()), e)
    g = list(seen.values())
    while len(g) > 1:
        keys = sorted({k for e in g for k in e[2]}, key=repr)
        n0 = len(g)
        for k in keys:
            by = {}
            for e in g:
                r = frozenset((a, v[1]) for a, v in e[2].items() if a != k)
                by.setdefault(r, []).append(e)
            if len(by) == len(g):
                continue
            ng = []
            for r, es in by.items():
                e = es[0]
                if len(es) > 1:
                    for x in es[1:]:
                        for t in x[0].approx:
                            e[0].inexact(t)
                if len(es) > 1:
                    vals = [x[2][k][1] if k in x[2] else None for x in es]
                    if any(v is None for v in vals):
                        new = None
                    elif k[0] == 'b':
                        new = None if len(set(vals)) > 1 else vals[0]
                    elif k[0] == 'var':
                        new = frozenset().union(*vals)
                    else:
                        new = tuple(sorted(set().union(*[set(v) for v in vals]))) if False else 'keep'
                    if new == 'keep':
                        u = []
                        for x in es:
                            if not any(x[2][k][1] == y[2][k][1] for y in u):
                                u.append(x)
                        ng.extend(u)
                        continue
                    ak = e[2][k][0] if k in e[2] else None
                    e = [e[0], e[1], dict(e[2])]
                    if new is None:
                        if ak is not None:
                            e[0].facts.pop(ak, None)
                            del e[2][k]
                    else:
                        e[0].facts[ak] = new
                        e[2][k] = (ak, new)
                ng.append(e)
            g = ng
        if len(g) == n0:
            break
    return g


# ------------------------------------------------------------------ interpreter
class Interp:
    def __init__(self, prog, hooks=None):
        self.p = prog
        self.T = prog.T
        self.hooks = hooks
        self.overrides = {}
        self.refining = False
        self.const_keys = set()
        self.depth = 0
        self.steps = 0
        self.max_steps = 20000000
        self.head_budget = 4000
        self.cover_fn = {}       # body key -> set of blocks
        self.callsites = set()
        self.externals = {}
        self.unknown_calls = {}
        self.panics = {}         # (file:line, what) -> trace  : possible panics
        self.panic_obl = {}      # (file:line, what) -> count   : examined panic sites
        self.delay = 18
        self.symdelay = 1
        self.where = ''
        self.cur_mut = None
        self.stack = []
        self.lookback = 0
        self.tolerant = False    # give up single paths instead of the whole analysis
        self.lost = {}           # reason -> number of paths given up
        self.deadline = None
        self.exact_turns = None  # None: prove (generalise over loops); n: follow n turns exactly
        self.cut = {}
        import models
        self.models = models.Models(self)

    def lose(self, st, e):
        if TRACE:
            import traceback
            traceback.print_exception(e)
        k = '%s: %s [at %s]' % (type(e).__name__, str(e)[:200], self.where)
        self.lost[k] = self.lost.get(k, 0) + 1
        if sum(self.lost.values()) > 3000:
            raise Timeout('too many paths the analysis cannot follow')

    # ---- facts ---------------------------------------------------------------
    def prune(self, st):
        roots = set()
        for v in st.mem.values():
            if isinstance(v, tuple):
                roots |= volatile(v)
        for v in st.mon.values():
            if isinstance(v, tuple):
                roots |= volatile(v)
        keep = self.hooks.keep_fact if self.hooks is not None else None
        ge0 = [k for k in st.facts if k[0] == 'ge0']
        if ge0:
            ls = set()
            if any(len(k) > 2 for k in ge0):
                for v in st.mem.values():
                    if isinstance(v, tuple):
                        plain_numbers(v, ls)
            for k in ge0:
                if len(k) < 3 or k[2] not in ls:
                    del st.facts[k]
        bnds = [k for k in st.facts if k[0] == 'bnd']
        if bnds:
            ls = set()
            los = {}
            for d in (st.mem, st.mon):
                for v in d.values():
                    if isinstance(v, tuple):
                        ls.update(walk(v)[1])
            for r in roots:
                if r[0] == 'part':
                    los.setdefault(r[1], set()).add(r[2])
            for k in bnds:
                if k[2] in ls or any(lsub(k[2], x) in ls for x in los.get(k[1], ())):
                    continue
                del st.facts[k]
        ls = None
        for k in [k for k in st.facts if k[0] == 'cs' and k[1][0] == 'ch' and st.facts[k][-1][1] < 128]:
            vs = volatile(k)
            if not vs <= roots:
                # the place after a one-byte character is still a boundary
                nx = ('bnd', k[1][1], ladd(k[1][2], ONE))
                if nx not in st.facts:
                    if ls is None:
                        ls = set()
                        for d in (st.mem, st.mon):
                            for v in d.values():
                                if isinstance(v, tuple):
                                    ls.update(walk(v)[1])
                    if nx[2] in ls:
                        st.facts[nx] = True
        region = self.hooks.region if self.hooks is not None else None
        stay = self.regions(st, region, roots) if region is not None else ()
        for d in (st.facts, st.nums):
            for k in list(d):
                vs = volatile(k)
                if vs and not vs <= roots and k not in stay:
                    if keep is not None and keep(st, k):
                        continue
                    del d[k]

    def regions(self, st, t, roots):
        """what is known about consecutive characters of text t, one by one, becomes known about the stretch they form,
        as long as something in memory marks where it starts and ends"""
        ls = set()
        for d in (st.mem, st.mon):
            for v in d.values():
                if isinstance(v, tuple):
                    ls.update(walk(v)[1])
        going = [k for k in st.facts if k[0] == 'cs' and k[1][0] in ('ch', 'idx') and k[1][1] == t and not volatile(k) <= roots]
        going.sort(key=lambda k: k[1][2][1])
        stay = set(k for k in st.facts if k[0] == 'chars' and k[1][0] == 'part' and k[1][1] == t and k[1][2] in ls and k[1][3] in ls)
        lost = []
        for k in going:
            i, cs = k[1][2], st.facts[k]
            if k[1][0] == 'idx' and cs[-1][1] >= 128:
                cs = cs_union(cs_inter(cs, ASCII), cs_minus(CHAR, ASCII))
            w = ONE if cs[-1][1] < 128 or k[1][0] == 'idx' else st.nums.get(('w', k[1]))
            if w is None:
                lost.append(k)
                continue
            end = ladd(i, w)
            new = {}
            for r in st.facts:
                if r[0] == 'chars' and r[1][0] == 'part' and r[1][1] == t and r[1][3] == i and r[1][2] in ls:
                    new['chars', ('part', t, r[1][2], end)] = cs_union(st.facts[r], cs)
            if i in ls:
                new['chars', ('part', t, i, end)] = cs
            st.facts.update(new)
            stay.update(x for x in new if x[1][3] in ls)
            if not new:
                lost.append(k)
        if lost:
            self.hooks.region_lost(st, lost)
        return stay

    def known(self, st, term):
        """True/False/None for a boolean term"""
        k = term[0]
        if k == 'not':
            r = self.known(st, term[1])
            return None if r is None else not r
        if k == 'ins':
            cs = self.charset(st, term[1])
            i = cs_inter(cs, term[2])
            if not i:
                return False
            if i == cs:
                return True
            return None
        if k == 'deq':
            vs = st.facts.get(('var', term[1]))
            if vs is not None:
                if term[2] not in vs:
                    return False
                if len(vs) == 1:
                    return True
            return None
        if k == 'lt' and isinstance(term[1], tuple) and term[1][0] == '#' and isinstance(term[2], tuple) and term[2][0] == '#':
            d = lsub(term[2], term[1])
            if self.bounded(st, ladd(d, lin(-1))):
                return True
            if self.bounded(st, lscale(d, -1)):
                return False
        if k == 'eq' and isinstance(term[1], tuple) and term[1][0] == '#' and isinstance(term[2], tuple) and term[2][0] == '#':
            d = lsub(term[1], term[2])
            if ('eq0', d) in st.nums or ('eq0', lscale(d, -1)) in st.nums:
                return True
            if self.bounded(st, ladd(d, lin(-1))) or self.bounded(st, ladd(lscale(d, -1), lin(-1))):
                return False
        if k in ('lt', 'eq'):
            return self.cmp(st, k, term[1], term[2])
        if k == 'streq':
            return self.known_streq(st, term[1], term[2])
        return st.facts.get(('b', term))

    def known_streq(self, st, term, b):
        f = st.facts.get(('str', term))
        if f is not None:
            if f[0] == 'eq':
                return f[1] == b
            if b in f[1]:
                return False
        cs = st.facts.get(('chars', term))
        if cs is not None:
            try:
                t = b.decode('utf8')
            except UnicodeDecodeError:
                t = b.decode('latin1')
            if any(not any(l <= ord(c) <= h for l, h in cs) for c in t):
                return False
        n = st.nums.get(('len', term))
        if n is not None:
            if self.cmp(st, 'eq', n, lin(len(b))) is False:
                return False
        return None

    def whole_(self, raw, rest):
        """carry out an assumption. A choice it asks for only covers states in which it holds: where the statement
        as a whole is redone for each alternative, the states in which it does not hold have to be among them"""
        if self.refining:
            return raw()
        self.refining = True
        try:
            return raw()
        except Infeasible:
            return False
        except Split as sp:
            sp.alts = list(sp.alts) + rest
            raise
        finally:
            self.refining = False

    def assume(self, st, term, val):
        """record that term has the given value; False if impossible"""
        return self.whole_(lambda: self._assume(st, term, val), [lambda s: self.assume(s, term, not val)])

    def assume_ge0(self, st, d):
        return self.whole_(lambda: self._assume_ge0(st, d), [lambda s: self.assume_ge0(s, ladd(lscale(d, -1), lin(-1)))])

    def assume_eq(self, st, a, b):
        return self.whole_(lambda: self._assume_eq(st, a, b), [lambda s: self.assume_ge0(s, ladd(lsub(a, b), lin(-1))),
                                                              lambda s: self.assume_ge0(s, ladd(lsub(b, a), lin(-1)))])

    def assume_ne(self, st, a, b):
        return self.whole_(lambda: self._assume_ne(st, a, b), [lambda s: self.assume_eq(s, a, b)])

    def _assume(self, st, term, val):
        r = self.known(st, term)
        if r is not None:
            return r == val
        if has_unknown(term):
            st.inexact('unknown call')
        k = term[0]
        if k == 'not':
            return self.assume(st, term[1], not val)
        if k == 'ins':
            cs = self.charset(st, term[1])
            n = cs_inter(cs, term[2]) if val else cs_minus(cs, term[2])
            if not n:
                return False
            return self.set_charset(st, term[1], n)
        if k == 'deq':
            vs = st.facts.get(('var', term[1]))
            if vs is None:
                vs = self.variants_of_term(term[1], term[3] if len(term) > 3 else None)
            if vs is None:
                st.facts[('b', term)] = val
                return True
            vs = frozenset([term[2]]) if val else vs - {term[2]}
            if not vs:
                return False
            return self.set_var(st, term[1], vs)
        if k == 'lt':
            if val:
                return self.assume_ge0(st, ladd(lsub(term[2], term[1]), lin(-1)))
            return self.assume_ge0(st, lsub(term[1], term[2]))
        if k == 'eq':
            if val:
                return self.assume_eq(st, term[1], term[2])
            return self.assume_ne(st, term[1], term[2])
        if k == 'streq':
            f = st.facts.get(('str', term[1]))
            if val:
                st.facts[('str', term[1])] = ('eq', term[2])
                n = st.nums.get(('len', term[1]))
                if n is not None:
                    return self.assume_eq(st, n, lin(len(term[2])))
                st.nums[('len', term[1])] = lin(len(term[2]))
            else:
                ne = f[1] if f else ()
                st.facts[('str', term[1])] = ('ne', tuple(sorted(set(ne) | {term[2]})))
            return True
        if k == 'ovf':
            st.inexact('may')
        st.facts[('b', term)] = val
        if self.hooks is not None and self.hooks.on_fact(st, term, val) is False:
            return False
        return True

    def variants_of_term(self, term, ty):
        if ty is None:
            return None
        return self.p.variants_possible(ty)

    def charset(self, st, ct):
        """possible values of a character/byte term"""
        cs = st.facts.get(('cs', ct))
        if cs is not None:
            return cs
        if ct[0] == 'idx':
            c2 = st.facts.get(('chars', ct[1]))
            if c2 is not None:
                return c2 if c2[-1][1] < 128 else cs_union(cs_inter(c2, ASCII), ((128, 255),))
            d = self.hooks.charset(st, ct) if self.hooks is not None else None
            if d is not None:
                return d
        if ct[0] == 'ch':
            c2 = st.facts.get(('chars', ct[1]))
            if c2 is not None:
                return c2
        return U8 if ct[0] in ('idx', 'byte') else CHAR

    def is_byte(self, ct):
        return ct[0] == 'idx'

    def set_charset(self, st, ct, cs):
        if ct[0] == 'op' and cs != st.facts.get(('cs', ct)):
            st.inexact('may')           # the operands are not narrowed along
        st.facts[('cs', ct)] = cs
        if has_unknown(ct):
            st.inexact('unknown call')
        w = st.nums.get(('w', ct))
        if w is not None and cs and w[2]:
            # the number of bytes the character takes
            lo, hi = (1 + sum(cs[i][i and 1] >= b for b in (0x80, 0x800, 0x10000)) for i in (0, -1))
            if lo == hi:
                return self.assume_eq(st, w, lin(lo))
            if lo > 1:
                return self.assume_ge0(st, ladd(w, lin(-lo)))
        return True

    # ---- numbers -------------------------------------------------------------
    def cmp(self, st, op, a, b):
        d = lsub(b, a)
        lo, hi = lmin(d), lmax(d)
        if op == 'lt':      # a < b
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
            return None
        if not d[2]:
            return d[1] == 0
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        g = 0
        from math import gcd
        for _, k in d[2]:
            g = gcd(g, abs(k))
        if g > 1 and d[1] % g:
            return False
        return None

    def subst(self, st, p, e):
        def f(l):
            return lsubst(l, p, e)
        for d in (st.mem, st.mon):
            for k, v in list(d.items()):
                if isinstance(v, tuple) and walk(v)[1]:
                    d[k] = map_lins(v, f)
        for d in (st.facts, st.nums):
            for k, v in list(d.items()):
                k2, v2 = map_lins(k, f), map_lins(v, f)
                if k2 is not k or v2 is not v:
                    del d[k]
                    d[k2] = v2

    def setparam(self, p, e):
        """a case split: parameter p stands for e, where None stands for a new number"""
        def g(s):
            t = ladd(lin(e[1]), ZERO)
            for x, k in e[2]:
                t = ladd(t, lscale(s.newp() if x is None else param(x), k))
            self.subst(s, p, t)
            return True
        return g

    def unreferenced(self, st, fr, l):
        """nothing refers to this local any more"""
        if not isinstance(st.mem[(fr, l)], tuple):
            return False
        base = ('l', fr, l)
        return not any(holds(v, base) for k, v in st.mem.items() if k != (fr, l) and isinstance(v, tuple)) and \
            not any(holds(v, base) for v in st.mon.values() if isinstance(v, tuple))

    def noted(self, st, d):
        """a bound that the numbers themselves do not express: kept until the next loop head"""
        st.facts[('ge0', d)] = True
        st.inexact('bound not kept')

    def bounded(self, st, d):
        """is d >= 0 among the bounds noted?"""
        for k in st.facts:
            if k[0] == 'ge0':
                e = lsub(d, k[1])
                if not e[2] and e[1] >= 0:
                    return True
        return False

    def _assume_ge0(self, st, d):
        lo, hi = lmin(d), lmax(d)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if d[2]:
            g = math.gcd(*(k for _, k in d[2]))
            if g > 1:
                d = ('#', d[1] // g, tuple((p, k // g) for p, k in d[2]))
        # d = rest + k*p >= 0 with k = 1 and rest <= 0 everywhere: p := p' - rest
        for p, k in d[2]:
            if k == 1:
                rest = ('#', d[1], tuple(x for x in d[2] if x[0] != p))
                neg = lscale(rest, -1)
                m = lmin(neg)
                if isinstance(p, int) and p < 0:
                    self.subst(st, p, ladd(neg, st.newp()))
                    return True
                if m is not None and m >= 0:
                    self.subst(st, p, ladd(neg, st.newp()))
                    return True
        # d = c - k*p >= 0 with c small: p <= c//k
        if len(d[2]) == 1:
            p, k = d[2][0]
            if k < 0 and d[1] >= 0 and p >= 0:
                m = d[1] // -k
                if m == 0:
                    self.subst(st, p, ZERO)
                elif m <= 8:
                    def mk(v):
                        def g(s):
                            self.subst(s, p, lin(v))
                            return True
                        return g
                    raise Split([mk(v) for v in range(m + 1)], 'bounded number', st)
                else:
                    self.noted(st, d)
            else:
                self.noted(st, d)
            return True
        # c + a*p - b*q >= 0
        if len(d[2]) == 2 and all(isinstance(p, int) and p >= 0 for p, _ in d[2]):
            (p, a), (q, b) = sorted(d[2], key=lambda x: -x[1])
            b, c = -b, d[1]
            if 1 < a <= 4 and b > 0:
                # q = a*q' + j: then p >= b*q' + ...
                raise Split([self.setparam(q, ('#', j, ((None, a),))) for j in range(a)], 'remainder', st)
            if a == 1 and b > 1 and 0 < c and c // b <= 8:
                raise Split([self.setparam(q, lin(v)) for v in range(c // b + 1)] + [self.setparam(q, ('#', c // b + 1, ((None, 1),)))], 'bounded number', st)
        # c + sum(p_i) - sum(q_j) >= 0: Riesz decomposition
        ps = [p for p, k in d[2] if k == 1 and isinstance(p, int) and p >= 0]
        qs = [p for p, k in d[2] if k == -1 and isinstance(p, int) and p >= 0]
        if len(ps) + len(qs) == len(d[2]) and ps and qs and len(ps) * len(qs) <= 6:
            c = d[1]
            if c == 0:
                tot = {}
                for p in ps:
                    for q in qs:
                        tot[p, q] = st.newp()
                for q in qs:
                    e = ZERO
                    for p in ps:
                        e = ladd(e, tot[p, q])
                    self.subst(st, q, e)
                for p in ps:
                    e = st.newp()
                    for q in qs:
                        e = ladd(e, tot[p, q])
                    self.subst(st, p, e)
                return True
            if -3 <= c < 0:
                def mkp(p):
                    def g(s):
                        self.subst(s, p, ladd(s.newp(), ONE))
                        return True
                    return g
                raise Split([mkp(p) for p in ps], 'unequal numbers', st)
            if 0 < c <= 3:
                def zero(s):
                    return self.assume_ge0(s, ('#', 0, d[2]))

                def exact(j):
                    # sum(p) - sum(q) = -j: q_last := sum(p) + j - other qs only when there is one q
                    def g(s):
                        e = lin(j)
                        for p in ps:
                            e = ladd(e, param(p))
                        self.subst(s, qs[0], e)
                        return True
                    return g
                if len(qs) == 1:
                    raise Split([zero] + [exact(j) for j in range(1, c + 1)], 'unequal numbers', st)
        self.noted(st, d)
        return True

    def _assume_eq(self, st, a, b):
        d = lsub(a, b)
        if not d[2]:
            return d[1] == 0
        lo, hi = lmin(d), lmax(d)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        if lo == 0 or hi == 0:
            for p, k in d[2]:
                self.subst(st, p, ZERO)
            return True
        g = math.gcd(*(k for _, k in d[2]))
        if g > 1:
            if d[1] % g:
                return False
            d = ('#', d[1] // g, tuple((p, k // g) for p, k in d[2]))
        for sign in (1, -1):
            e = lscale(d, sign)
            for p, k in e[2]:
                if k == 1:
                    rest = lscale(('#', e[1], tuple(x for x in e[2] if x[0] != p)), -1)
                    m = lmin(rest)
                    if p < 0 or (m is not None and m >= 0):
                        self.subst(st, p, rest)
                        return True
        if all(isinstance(p, int) for p, _ in d[2]):
            if len(d[2]) == 2 and all(p >= 0 for p, _ in d[2]):
                # c + a*p = b*q: the smallest solution plus multiples of (b, a)
                (p, a), (q, b) = sorted(d[2], key=lambda x: -x[1])
                b, c = -b, d[1]
                if a > 0 and b > 0 and a * b <= 100 and abs(c) <= 1000:
                    x = max(0, -(c // a)) if c < 0 else 0
                    while (c + a * x) % b or c + a * x < 0:
                        x += 1
                    t = st.newp()
                    self.subst(st, p, ladd(lin(x), lscale(t, b)))
                    self.subst(st, q, ladd(lin((c + a * x) // b), lscale(t, a)))
                    return True
        # c + sum(p_i) = sum(q_j)
        ps = [p for p, k in d[2] if k == 1 and isinstance(p, int) and p >= 0]
        qs = [p for p, k in d[2] if k == -1 and isinstance(p, int) and p >= 0]
        if len(ps) + len(qs) == len(d[2]) and ps and qs and len(ps) * len(qs) <= 6:
            if d[1] == 0:
                tot = {(p, q): st.newp() for p in ps for q in qs}
                for p in ps:
                    e = ZERO
                    for q in qs:
                        e = ladd(e, tot[p, q])
                    self.subst(st, p, e)
                for q in qs:
                    e = ZERO
                    for p in ps:
                        e = ladd(e, tot[p, q])
                    self.subst(st, q, e)
                return True
            if abs(d[1]) <= 4:
                raise Split([self.setparam(p, ('#', 1, ((None, 1),))) for p in (ps if d[1] < 0 else qs)], 'equal sums', st)
        st.nums[('eq0', d)] = ZERO
        st.inexact('bound not kept')
        return True

    def _assume_ne(self, st, a, b):
        d = lsub(a, b)
        if not d[2]:
            return d[1] != 0
        if lmin(d) == 0:
            return self.assume_ge0(st, ladd(d, lin(-1)))
        if lmax(d) == 0:
            return self.assume_ge0(st, ladd(lscale(d, -1), lin(-1)))
        if len(d[2]) <= 2:
            raise Split([lambda s: self.assume_ge0(s, ladd(d, lin(-1))), lambda s: self.assume_ge0(s, ladd(lscale(d, -1), lin(-1)))], 'unequal', st)
        st.inexact('bound not kept')
        return True

    def num(self, st, term, signed=False):
        """the integer an unknown integer term stands for"""
        n = st.nums.get(term)
        if n is None:
            if has_unknown(term):
                st.inexact('unknown call')
            if signed:
                st.np += 1
                n = ('#', 0, ((-st.np, 1),))
            else:
                n = st.newp()
            st.nums[term] = n
        return n

    # ---- types ---------------------------------------------------------------
    def tk(self, ty):
        return self.T[ty]['k']

    def is_big(self, ty):
        t = self.T[ty]
        return t['k'] in ('int', 'uint') and t['name'] in BIG

    def mk_int(self, ty, v):
        return lin(v) if self.is_big(ty) else v

    def strip_refs(self, ty):
        while self.T[ty]['k'] in ('ref', 'ptr'):
            ty = self.T[ty]['elem']
        return ty

    def is_text(self, ty):
        t = self.T[ty]
        k = t['k']
        if k == 'str':
            return True
        if k in ('slice', 'array'):
            return self.T[t['elem']]['s'] == 'u8'
        if k == 'adt':
            if t['path'] in ('alloc::string::String',):
                return True
            if t['path'] == 'alloc::vec::Vec':
                return self.T[t['args'][0]]['s'] == 'u8'
            if t['path'] == 'alloc::borrow::Cow':
                return self.is_text(t['args'][0])
        return False

    # ---- memory --------------------------------------------------------------
    def sym(self, st, term, ty):
        """unknown value of a type, in the representation its type calls for"""
        t = self.T[ty]
        k = t['k']
        if k in ('int', 'uint') and t['name'] in BIG:
            return self.num(st, term, k == 'int')
        if k == 'tuple':
            return ('A', 't', 0, tuple(self.sym(st, ('f', term, i), f) for i, f in enumerate(t['fields'])))
        return ('S', term, ty)

    def expand(self, st, v, variant=0):
        """an unknown struct as an aggregate of unknown fields"""
        t = self.T[v[2]]
        if t['k'] == 'adt' and 'variants' in t:
            base = v[1] if t['kind'] == 'struct' else ('as', v[1], variant)
            return ('A', v[2], variant, tuple(self.sym(st, ('f', base, i), f['t']) for i, f in enumerate(t['variants'][variant]['f'])))
        return None

    def base_get(self, st, base):
        if base[0] == 'c':
            return base[1]
        if base[0] == 'l':
            return st.mem.get((base[1], base[2]))
        return st.mem.get(base)

    def base_set(self, st, base, v):
        if base[0] == 'c':
            st.note('write through an unknown reference')
            return
        if base[0] == 'l':
            st.mem[(base[1], base[2])] = v
        else:
            st.mem[base] = v

    def proj(self, st, v, e):
        k = e[0]
        if v is None:
            raise Unsupported('read of uninitialised value')
        vk = v[0] if isinstance(v, tuple) else None
        if k == 'f':
            if vk == 'A':
                return v[3][e[1]]
            if vk == 'S':
                return self.sym(st, ('f', v[1], e[1]), e[2]) if e[2] is not None else None
            if vk == 'B':       # Box internals
                return v
            r = self.models.field(st, v, e)
            if r is not None:
                return r
            raise Unsupported('field of %s' % show(v)[:80])
        if k == 'd':
            if vk == 'A':
                if v[2] != e[1]:
                    raise Infeasible()
                return v
            if vk == 'S':
                vs = st.facts.get(('var', v[1]))
                if vs is not None and e[1] not in vs:
                    raise Infeasible()
                return ('S', ('as', v[1], e[1]), v[2])
            raise Unsupported('downcast of %s' % show(v)[:80])
        if k == 'b':
            if vk == 'B':
                return v[1]
            if vk == 'S':
                return ('S', ('box', v[1]), self.T[v[2]]['args'][0])
            raise Unsupported('box deref of %s' % show(v)[:80])
        if k in ('i', 'ci', 'ss'):
            return self.models.index(st, v, e)
        raise Unsupported('projection %s' % k)

    def read(self, st, base, path):
        v = self.base_get(st, base)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def setp(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        k = e[0]
        vk = v[0] if isinstance(v, tuple) else None
        if k == 'f':
            if vk == 'S':
                x = self.expand(st, v)
                if x is None:
                    st.note('write into opaque value')
                    return v
                v, vk = x, 'A'
            if vk == 'A':
                fs = list(v[3])
                fs[e[1]] = self.setp(st, fs[e[1]], path[1:], new)
                return ('A', v[1], v[2], tuple(fs))
            if vk == 'B':
                return self.setp(st, v, path[1:], new)
            r = self.models.set_field(st, v, e, path, new)
            if r is not None:
                return r
        if k == 'd':
            if vk == 'S':
                x = self.expand(st, v, e[1])
                if x is not None:
                    v, vk = x, 'A'
            return self.setp(st, v, path[1:], new)
        if k == 'b':
            if vk == 'B':
                return ('B', self.setp(st, v[1], path[1:], new))
        if k in ('i', 'ci'):
            return self.models.set_index(st, v, e, path[1:], new)
        if vk is None and v is None:
            raise Unsupported('write into uninitialised value')
        raise Unsupported('write through %s of %s' % (k, show(v)[:60]))

    def write(self, st, base, path, v):
        if not path:
            self.base_set(st, base, v)
            return
        if base[0] == 'c':
            self.base_set(st, base, None)
            return
        self.base_set(st, base, self.setp(st, self.base_get(st, base), path, v))

    def deref(self, st, v):
        """value behind a reference/box value"""
        while isinstance(v, tuple) and v and v[0] == 'R':
            v = self.read(st, v[1], v[2])
            return v
        if isinstance(v, tuple) and v and v[0] == 'B':
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'S' and self.tk(v[2]) in ('ref', 'ptr'):
            return self.sym(st, v[1], self.T[v[2]]['elem'])
        if isinstance(v, tuple) and v and v[0] == 'A' and v[1] != 't' and self.T[v[1]].get('path') == 'core::pin::Pin':
            return self.deref(st, v[3][0])
        if isinstance(v, tuple) and v and v[0] == 'S' and self.T[v[2]].get('path') == 'core::pin::Pin':
            return self.deref(st, ('S', ('pin', v[1]), self.T[v[2]]['args'][0]))
        return v

    def deref_all(self, st, v):
        n = 0
        while n < 20:
            w = self.deref(st, v)
            if w is v or w == v:
                return w
            v = w
            n += 1
        return v

    def target(self, st, v):
        """(base, path) a reference value points to"""
        if isinstance(v, tuple) and v[0] == 'R':
            return v[1], v[2]
        if isinstance(v, tuple) and v[0] == 'S' and self.tk(v[2]) in ('ref', 'ptr'):
            return ('c', self.sym(st, v[1], self.T[v[2]]['elem'])), ()
        if isinstance(v, tuple) and v[0] == 'A' and v[1] != 't' and self.T[v[1]].get('path') == 'core::pin::Pin':
            return self.target(st, v[3][0])
        if isinstance(v, tuple) and v[0] == 'S' and self.T[v[2]].get('path') == 'core::pin::Pin':
            return self.target(st, ('S', ('pin', v[1]), self.T[v[2]]['args'][0]))
        raise Unsupported('deref of %s' % show(v)[:100])

    def place(self, st, fr, p):
        base, path = ('l', fr, p[0]), ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, base, path)
                if isinstance(v, tuple) and v and v[0] == 'B':
                    path = path + (('b',),)
                elif isinstance(v, tuple) and v and v[0] == 'S' and self.T[v[2]].get('box'):
                    path = path + (('b',),)
                else:
                    base, path = self.target(st, v)
            elif k == 'f':
                path = path + (('f', e[1], e[2]),)
            elif k == 'd':
                path = path + (('d', e[1]),)
            elif k == 'i':
                path = path + (('i', st.mem[(fr, e[1])]),)
            elif k == 'ci':
                path = path + (('ci', e[1], e[2], e[3]),)
            elif k == 'ss':
                path = path + (('ss', e[1], e[2], e[3]),)
            else:
                raise Unsupported('place %s' % (e,))
        return base, path

    # ---- operands ------------------------------------------------------------
    def const(self, st, c):
        k = c['k']
        if k == 'int':
            t = self.T[c['ty']]
            if t['k'] == 'bool':
                return bool(c['v'])
            return self.mk_int(c['ty'], c['v'])
        if k == 'str':
            return cref(lit(c['v']))
        if k == 'bytes':
            b = bytes(c['v'])
            return cref(lit(b))
        if k == 'fn':
            return ('F', c['ty'])
        if k == 'zst':
            t = self.T[c['ty']]
            if t['k'] == 'tuple':
                return ('A', 't', 0, ())
            if t['k'] in ('array',):
                return ('v', ()) if not self.is_text(c['ty']) else ('s', ())
            if t['k'] == 'fndef':
                return ('F', c['ty'])
            return ('A', c['ty'], 0, ())
        if k == 'body':
            return self.eval_const(c['key'])
        r = self.models.opaque_const(st, c)
        if r is not None:
            return r
        return ('S', ('const', c.get('name') or c.get('s')), c['ty'])

    def eval_const(self, key):
        b = self.p.body(key)
        if b is None:
            raise Unsupported('const body %s' % key)
        r = self._consts.get(key) if hasattr(self, '_consts') else None
        if r is not None:
            return r
        if not hasattr(self, '_consts'):
            self._consts = {}
        self.const_keys.add(b.key)
        outs = self.exec_fn(State(), b, [])
        if len(outs) != 1:
            raise Unsupported('const %s' % key)
        v = outs[0][1]
        self._consts[key] = v
        return v

    def freeze(self, st, v):
        """copy of a value without references into memory"""
        if isinstance(v, tuple):
            if v and v[0] == 'R':
                return cref(self.freeze(st, self.read(st, v[1], v[2])))
            return tuple(self.freeze(st, x) for x in v)
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'k':
            return self.const(st, o[1])
        if k in 'cm':
            p = o[1]
            if not p[1]:
                v = st.mem.get((fr, p[0]))
                if v is None:
                    raise Unsupported('use of uninitialised _%d in %s' % (p[0], self.where))
                return v
            base, path = self.place(st, fr, p)
            return self.read(st, base, path)
        if k == 'rc':
            return False
        raise Unsupported('operand %s' % k)

    def variant(self, st, v):
        """variant index of an enum value (splits if unknown)"""
        if isinstance(v, tuple) and v and v[0] == 'A':
            return v[2]
        if isinstance(v, tuple) and v and v[0] == 'S':
            vs = st.facts.get(('var', v[1]))
            if vs is None:
                vs = self.p.variants_possible(v[2])
                if vs is None:
                    raise Unsupported('variants of %s' % self.T[v[2]]['s'])
            if len(vs) == 1:
                return next(iter(vs))
            raise Split([self._setvar(v[1], x) for x in sorted(vs)], 'variant of %s' % showterm(v[1]), st)
        raise Unsupported('variant of %s' % show(v)[:80])

    def _setvar(self, term, x):
        def f(s):
            vs = s.facts.get(('var', term))
            if vs is not None and x not in vs:
                return False
            if has_unknown(term):
                s.inexact('unknown call')
            return self.set_var(s, term, frozenset([x]))
        return f

    def set_var(self, st, term, vs):
        st.facts[('var', term)] = vs
        if isinstance(term, tuple) and term[0] == 'tab':
            # the variant is read off a byte of the text
            cs = cs_inter(self.charset(st, term[1]), cs_of(*[c for c, v in term[2] if v in vs]))
            if not cs:
                return False
            return self.set_charset(st, term[1], cs)
        return True

    def decide(self, st, v, why=''):
        """truth of a boolean value (splits if unknown)"""
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, tuple) and v[0] == 'S':
            r = self.known(st, v[1])
            if r is not None:
                return r
            t = v[1]
            raise Split([lambda s: self.assume(s, t, True), lambda s: self.assume(s, t, False)], why or showterm(t), st)
        raise Unsupported('bool %s' % show(v)[:80])

    def branch(self, st, term):
        return self.decide(st, ('S', term, self.p.tyname['bool']))

    def bterm(self, term):
        return ('S', term, self.p.tyname['bool'])

    # ---- rvalues -------------------------------------------------------------
    def rvalue(self, st, fr, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'reborrow', 'rawptr'):
            base, path = self.place(st, fr, r[2])
            return ('R', base, path)
        if k == 'agg':
            fs = tuple(self.operand(st, fr, o) for o in r[2])
            a = r[1]
            if a[0] == 'tuple':
                return ('A', 't', 0, fs)
            if a[0] == 'array':
                if self.T[a[1]]['s'] == 'u8':
                    if all(isinstance(x, int) for x in fs):
                        return lit(bytes(fs))
                    return ('s', pieces_cat((), [self.models.char_piece(st, x) for x in fs]))
                return ('v', tuple(('e', x) for x in fs))
            if a[0] == 'adt':
                return ('A', a[1], a[2], fs)
            if a[0] in ('closure', 'coroutine'):
                return ('A', a[1], 0, fs)
            raise Unsupported('aggregate %s' % a[0])
        if k == 'discr':
            base, path = self.place(st, fr, r[1])
            v = self.read(st, base, path)
            return self.discr(st, v)
        if k == 'bin':
            return self.models.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), dty)
        if k == 'un':
            return self.models.unop(st, r[1], self.operand(st, fr, r[2]), dty)
        if k == 'cast':
            return self.models.cast(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            return self.models.repeat(st, v, dty, r)
        raise Unsupported('rvalue %s' % (r[0:2],))

    def discr(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'A':
            t = self.T[v[1]] if v[1] != 't' else None
            if t and 'variants' in t:
                return t['variants'][v[2]]['d']
            return v[2]
        if isinstance(v, tuple) and v and v[0] == 'S':
            vs = st.facts.get(('var', v[1]))
            t = self.T[v[2]]
            if vs is None:
                vs = self.p.variants_possible(v[2])
            if vs is not None and len(vs) == 1:
                return t['variants'][next(iter(vs))]['d']
            return ('S', ('discr', v[1], v[2]), v[2])
        raise Unsupported('discriminant of %s' % show(v)[:80])

    def local_ty(self, body, p):
        ty = body.locals[p[0]]
        for e in p[1]:
            if e[0] == 'f':
                ty = e[2]
            elif e[0] == '*':
                t = self.T[ty]
                ty = t['elem'] if 'elem' in t else t['args'][0]
            elif e[0] in ('i', 'ci'):
                ty = self.T[ty].get('elem', ty)
        return ty

    # ---- control -------------------------------------------------------------
    def panic(self, st, what, span=None, may=False):
        k = (span or self.where, what, self.stack[-1] if self.stack else '')
        if k not in self.panics:
            self.panics[k] = True
        save = self.where, st.approx
        self.where = k[0]
        if may:
            st.inexact('may')
        try:
            self.hooks.panicked(st, what, k[2])
        finally:
            self.where = save[0]
            st.approx = save[1]

    def obligation(self, what, span=None):
        k = (span or self.where, what, self.stack[-1] if self.stack else '')
        self.panic_obl[k] = self.panic_obl.get(k, 0) + 1

    def run_block(self, st0, body, fr, bb):
        """execute one block; returns [(succ or 'ret', state)]"""
        out = []
        todo = [(st0, 0, 0)]
        stmts, term = body.blocks[bb]
        n = len(stmts)
        while todo:
            st, i, nsp = todo.pop()
            try:
                while i < n:
                    s = stmts[i]
                    k = s[0]
                    if k == '=':
                        self.where = s[3]
                        r = s[2]
                        v = self.rvalue(st, fr, r, self.local_ty(body, s[1]))
                        if r[0] == 'use' and r[1][0] == 'm' and not r[1][1][1]:
                            st.mem[(fr, r[1][1][0])] = None
                        elif r[0] == 'agg':
                            for o in r[2]:
                                if o[0] == 'm' and not o[1][1]:
                                    st.mem[(fr, o[1][0])] = None
                        p = s[1]
                        if not p[1]:
                            st.mem[(fr, p[0])] = v
                        else:
                            base, path = self.place(st, fr, p)
                            self.write(st, base, path, v)
                    elif k == 'dead' or k == 'live':
                        st.mem.pop((fr, s[1]), None)
                    elif k == 'sd':
                        base, path = self.place(st, fr, s[1])
                        v = self.read(st, base, path)
                        if isinstance(v, tuple) and v[0] == 'A':
                            self.write(st, base, path, ('A', v[1], s[2], v[3]))
                        else:
                            raise Unsupported('set discriminant')
                    i += 1
                self.where = term[-1]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Timeout('steps')
                if self.deadline is not None and not self.steps & 255 and time.time() > self.deadline:
                    raise Timeout('out of time')
                out.extend(self.terminator(st, body, fr, term))
            except Split as sp:
                w = self.where
                alts = sp.alts
                sp.sync(st)
                if nsp > 40:
                    e = Unsupported('no progress at %s: %s' % (w, sp.why))
                    if not self.tolerant:
                        raise e
                    self.lose(st, e)
                    continue
                for j, a in enumerate(alts):
                    try:
                        refined = self.refine(st, a)
                    except Unsupported as e:
                        if not self.tolerant:
                            raise
                        self.lose(st, e)
                        continue
                    for s2 in refined:
                        s2.log('%s: %s [%d]' % (w, sp.why, j))
                        todo.append((s2, i, nsp + 1))
            except Infeasible:
                pass
            except Timeout:
                raise
            except Exception as e:
                if not self.tolerant:
                    raise
                self.lose(st, e)
        return out

    def refine(self, st, a, depth=0):
        """the states st becomes when the refinement a is applied (which may itself need choices)"""
        c = st.copy()
        was, self.refining = self.refining, True
        try:
            return [c] if a(c) else []
        except Infeasible:
            return []
        except Split as sp:
            if depth > 8:
                raise Unsupported('nested choice: %s' % sp.why)
            out = []
            for h in sp.alts:
                c = st.copy()
                sp.sync(c)
                # `a` is decided when the statement is redone
                out.extend(self.refine(c, h, depth + 1))
            return out
        finally:
            self.refining = was

    def terminator(self, st, body, fr, t):
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            if isinstance(v, int):
                for val, bb in t[3]:
                    if val == int(v):
                        return [(bb, st)]
                return [(t[4], st)]
            if v[0] == '#':
                if not v[2]:
                    for val, bb in t[3]:
                        if val == v[1]:
                            return [(bb, st)]
                    return [(t[4], st)]
                out = []
                cur = st
                for val, bb in t[3]:
                    r = self.cmp(cur, 'eq', v, lin(val))
                    if r is False:
                        continue
                    s2 = cur.copy()
                    if self.assume_eq(s2, v, lin(val)):
                        s2.log('%s: %s == %d' % (t[-1], lshow(v), val))
                        out.append((bb, s2))
                    if r is True:
                        return out
                    if not self.assume_ne(cur, v, lin(val)):
                        return out
                out.append((t[4], cur))
                return out
            if v[0] == 'S':
                term = v[1]
                if term[0] == 'discr':
                    ty = term[2]
                    ds = [x['d'] for x in self.T[ty]['variants']]
                    vs = st.facts.get(('var', term[1]))
                    if vs is None:
                        vs = self.p.variants_possible(ty)
                    out = []
                    rest = set(vs)
                    for val, bb in t[3]:
                        hit = {x for x in rest if ds[x] == val}
                        rest -= hit
                        if hit:
                            s2 = st.copy()
                            if not self.set_var(s2, term[1], frozenset(hit)):
                                continue
                            if has_unknown(term[1]):
                                s2.inexact('unknown call')
                            s2.log('%s: %s is %s' % (t[-1], showterm(term[1]), self.T[ty]['variants'][min(hit)]['n']))
                            out.append((bb, s2))
                    if rest and self.set_var(st, term[1], frozenset(rest)):
                        if has_unknown(term[1]):
                            st.inexact('unknown call')
                        if len(out):
                            st.log('%s: %s is %s' % (t[-1], showterm(term[1]), '/'.join(self.T[ty]['variants'][x]['n'] for x in sorted(rest))))
                        out.append((t[4], st))
                    return out
                tt = self.T[t[2]]
                if tt['k'] == 'bool':
                    r = self.known(st, term)
                    out = []
                    for val, want in ((False, 0), (True, 1)):
                        if r is not None and r != val:
                            continue
                        s2 = st.copy()
                        if not self.assume(s2, term, val):
                            continue
                        if r is None:
                            s2.log('%s: %s%s' % (t[-1], '' if val else 'not ', showterm(term)))
                        for v2, bb in t[3]:
                            if v2 == want:
                                out.append((bb, s2))
                                break
                        else:
                            out.append((t[4], s2))
                    return out
                # character or byte
                if tt['k'] == 'char' or tt.get('name') in RANGE:
                    if term[0] in ('op', 'cast'):
                        for val, bb in t[3]:
                            r = self.models.digits_cmp(st, 'Eq', v, val, False)
                            if r is None:
                                break
                            if r:
                                return [(bb, st)]
                        else:
                            return [(t[4], st)]
                    out = []
                    ct = self.models.char_term(v)
                    if ('cs', ct) not in st.facts and tt['k'] != 'char' and ct[0] not in ('idx', 'ch'):
                        st.facts[('cs', ct)] = (self.models.interval(st, v),)
                    cs = self.charset(st, ct)
                    rest = cs
                    for val, bb in t[3]:
                        one = ((val, val),)
                        if cs_inter(rest, one):
                            s2 = st.copy()
                            if self.set_charset(s2, ct, one):
                                s2.log('%s: %s == %s' % (t[-1], showterm(term), cs_show(one)))
                                out.append((bb, s2))
                            rest = cs_minus(rest, one)
                    if rest and self.set_charset(st, ct, rest):
                        out.append((t[4], st))
                    return out
                # unknown small integer: follow everything
                out = []
                for val, bb in t[3]:
                    s2 = st.copy()
                    if self.assume(s2, ('veq', term, val), True):
                        out.append((bb, s2))
                out.append((t[4], st))
                return out
            raise Unsupported('switch on %s' % show(v)[:80])
        if k == 'return':
            return [('ret', st)]
        if k == 'drop':
            p = t[2]
            if not p[1]:
                st.mem[(fr, p[0])] = None
            return [(t[1], st)]
        if k == 'call':
            return self.call_term(st, body, fr, t)
        if k == 'assert':
            return self.assert_term(st, body, fr, t)
        if k == 'unreachable':
            return []
        if k == 'yield':
            st.mem[(fr, t[3][0])] = ('S', ('resume',), body.locals[t[3][0]])
            return [(t[2], st)]
        if k == 'resume':
            return []
        raise Unsupported('terminator %s' % k)

    def assert_term(self, st, body, fr, t):
        msg = t[3]
        if msg[0] == 'bounds':
            ln = as_lin(self.operand(st, fr, msg[1]))
            ix = as_lin(self.operand(st, fr, msg[2]))
            self.obligation('index out of bounds')
            if ln[0] == '#' and ix[0] == '#':
                r = self.cmp(st, 'lt', ix, ln)
                if r is None:
                    s2 = st.copy()
                    if self.assume(s2, ('lt', ix, ln), False) and self.cmp(s2, 'lt', ix, ln) is not True:
                        self.panic(s2, 'index out of bounds')
                    if not self.assume(st, ('lt', ix, ln), True):
                        return []
                elif r is False:
                    self.panic(st, 'index out of bounds')
                    return []
            else:
                self.panic(st, 'index out of bounds')
            return [(t[4], st)]
        v = self.operand(st, fr, t[1])
        what = {'overflow': 'arithmetic overflow', 'divzero': 'division by zero', 'negoverflow': 'arithmetic overflow'}.get(msg[0], 'assertion')
        self.obligation(what)
        if isinstance(v, tuple) and v[0] == 'S' and v[1] == ('nooverflow?',):
            return [(t[4], st)]
        if isinstance(v, bool) or isinstance(v, int):
            if bool(v) == t[2]:
                return [(t[4], st)]
            self.panic(st, what)
            return []
        term = v[1]
        out = []
        r = self.known(st, term)
        for val in (True, False):
            if r is not None and r != val:
                continue
            s2 = st.copy()
            if not self.assume(s2, term, val):
                continue
            if val == t[2]:
                out.append((t[4], s2))
            else:
                self.panic(s2, what)
        return out

    def call_term(self, st, body, fr, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, o) for o in t[2]]
        where = self.where
        s = st.copy()
        for o in t[2]:
            if o[0] == 'm' and not o[1][1]:
                s.mem[(fr, o[1][0])] = None
        self.callsites.add((where, self.T[f[1]]['callee']['path'] if f[0] == 'F' else 'closure'))
        self.cur_mut = (len(args), [i for i, o in enumerate(t[2]) if o[0] in ('c', 'm') and '&mut ' in self.T[self.local_ty(body, o[1])]['s']])
        res = self.call(s, f, args, t[5])
        out = []
        for s2, v in res:
            if t[4] is None:
                continue
            self.where = where
            p = t[3]
            if not p[1]:
                s2.mem[(fr, p[0])] = v
            else:
                base, path = self.place(s2, fr, p)
                self.write(s2, base, path, v)
            out.append((t[4], s2))
        return out

    def call(self, st, f, args, dty):
        """call a function value; returns [(state, result)]"""
        if f[0] == 'F':
            return self.call_item(st, self.T[f[1]]['callee'], args, dty)
        return self.call_value(st, f, args, dty)

    def call_item(self, st, c, args, dty):
        if c.get('ctor'):
            return [(st, ('A', c['ctor_ty'], c['ctor_variant'], tuple(args)))]
        name = c.get('rpath') or c['path']
        cur, self.cur_mut = self.cur_mut, None
        if dty is None and c.get('inst') is not None:
            b = self.p.body(c['inst'])
            if b is not None:
                dty = b.locals[0]
        if dty is None:
            dty = c.get('out')
        if self.overrides:
            o = self.overrides.get(name) or self.overrides.get(c['path'])
            if o is not None:
                r = o(st, c, args, dty)
                if r is not None:
                    return r
        m = self.models.lookup(c)
        if m is not None:
            r = m(st, c, args, dty)
            if r is not NotImplemented:
                self.externals[c['path']] = self.externals.get(c['path'], 0) + 1
                return r
        if c.get('inst') is not None:
            b = self.p.body(c['inst'])
            if b is not None:
                return self.exec_fn(st, b, self.adjust(st, c, b, args))
        self.cur_mut = cur
        return self.models.unknown_call(st, c, args, dty)

    def adjust(self, st, c, b, args):
        # closures called through Fn* traits pass their arguments as one tuple
        if b.kind == 'Closure' and c.get('trait', '').startswith('core::ops::function::Fn') and len(args) == 2:
            return self.closure_args(st, b, args[0], list(args[1][3]))
        return args

    def closure_args(self, st, b, f, args):
        want_ref = self.T[b.locals[1]]['k'] == 'ref'
        if want_ref and not (isinstance(f, tuple) and f[0] == 'R'):
            cell = ('m', 'clo%d' % self.depth)
            st.mem[cell] = f
            f = ('R', cell, ())
        elif not want_ref:
            while isinstance(f, tuple) and f[0] == 'R':
                f = self.read(st, f[1], f[2])
        return [f] + args

    def call_value(self, st, f, args, dty=None):
        """call a closure / fn item value with untupled arguments"""
        g = f
        while isinstance(g, tuple) and g[0] in ('R', 'B'):
            g = self.deref(st, g)
            if isinstance(g, tuple) and g[0] == 'R':
                f = g
        if g[0] == 'F':
            return self.call_item(st, self.T[g[1]]['callee'], args, dty)
        if g[0] == 'py':
            return g[1](st, args, dty)
        if g[0] == 'nomp':
            return self.models.nom.entry(st, g, args, dty)
        if g[0] == 'A' and g[1] != 't' and self.T[g[1]]['k'] == 'closure':
            b = self.p.body(self.T[g[1]]['body'])
            if b is None:
                raise Unsupported('closure body')
            return self.exec_fn(st, b, self.closure_args(st, b, f if f[0] == 'R' else g, list(args)))
        r = self.models.call_opaque(st, g, args, dty)
        if r is not None:
            return r
        raise Unsupported('call of %s' % show(g)[:80])

    def call_keep(self, st, keep, f, args, dty=None):
        """call a closure while Python code holds values: [(state, result, values)]"""
        n = len(st.mem)
        while ('k', self.depth, n) in st.mem:
            n += 1
        key = ('k', self.depth, n)
        st.mem[key] = ('kept',) + tuple(keep)
        out = []
        for s, v in self.call_value(st, f, args, dty):
            kv = s.mem.pop(key)
            out.append((s, v, list(kv[1:])))
        return out

    def exec_fn(self, st, body, args):
        if self.overrides:
            o = self.overrides.get(body.path)
            if o is not None:
                r = o(st, None, args, body.locals[0])
                if r is not None:
                    return r
        self.depth += 1
        fr = self.depth
        if fr > 150:
            raise Unsupported('recursion')
        where = self.where
        self.stack.append(body.path)
        try:
            return self._exec_fn(st, body, args, fr)
        except (Unsupported, Budget) as e:
            if not hasattr(e, 'at'):
                e.at = '%s in %s' % (self.where, ' > '.join(self.stack[-4:]))
                e.args = (str(e.args[0]) + ' [at %s]' % e.at,)
            raise
        finally:
            self.stack.pop()
            self.depth -= 1
            self.where = where

    def _exec_fn(self, st, body, args, fr):
        if body.argc != len(args):
            if body.spread is not None or True:
                raise Unsupported('argument count of %s: %d != %d' % (body.key, len(args), body.argc))
        for i, a in enumerate(args):
            st.mem[(fr, i + 1)] = a
        st.mem.setdefault((fr, 0), ('A', 't', 0, ()) if self.T[body.locals[0]]['s'] == '()' else None)
        cov = self.cover_fn.setdefault(body.key, set())
        buckets = {0: [st]}
        st.back = False
        rpo = body.rpo
        heap = [(0, 0)]
        heads = {}
        outs = []
        while heap:
            _, bb = heapq.heappop(heap)
            sts = buckets.pop(bb, None)
            if not sts:
                continue
            cov.add(bb)
            if body.npred.get(bb, 0) > 1 or bb in body.heads:
                live = body.live[bb]
                bor = body.borrowed
                for s in sts:
                    for l in range(len(body.locals)):
                        if l not in live and (fr, l) in s.mem and (l not in bor or bb in body.heads and self.unreferenced(s, fr, l)):
                            del s.mem[(fr, l)]
            if bb in body.heads:
                h = heads.get(bb)
                if h is None:
                    h = heads[bb] = LoopHead(self, self.delay, '%s bb%d' % (body.key, bb))
                try:
                    sts = [x for x in (h.add(s, s.back) for s in sts) if x is not None]
                except Budget as e:
                    if not self.tolerant:
                        raise
                    self.lose(sts[0], e)
                    continue
            elif len(sts) > 1 and body.npred.get(bb, 0) > 1:
                for s in sts:
                    self.prune(s)
                sts = [x for x, _ in dedupe([(s, 0) for s in sts])]
            for s in sts:
                for succ, s2 in self.run_block(s, body, fr, bb):
                    if succ == 'ret':
                        outs.append(s2)
                    else:
                        if succ not in buckets:
                            buckets[succ] = []
                            heapq.heappush(heap, (rpo[succ], succ))
                        s2.back = rpo[succ] <= rpo[bb]
                        buckets[succ].append(s2)
        res = []
        nl = len(body.locals)
        for s in outs:
            v = s.mem.get((fr, 0))
            if body.key in self.const_keys:
                v = self.freeze(s, v)       # a constant outlives the frame computing it
            for l in range(nl):
                s.mem.pop((fr, l), None)
            res.append((s, v))
        if len(res) > 1:
            for s, v in res:
                s.mem[('k', 9998)] = v if isinstance(v, tuple) else None
                self.prune(s)
                del s.mem[('k', 9998)]
            res = dedupe(res)
        return res
