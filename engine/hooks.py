"""What the abstract interpreter reports to: a base with neutral behaviour."""
from vals import *
from interp import Unsupported, has_unknown


class Hooks:
    """collects violations; subclasses watch the events of one analysis"""
    def __init__(self):
        self.violations = {}
        self.it = None
        self.payload = ()
        self.rules = {}          # property -> rule -> times checked

    # --- events of the interpreter
    region = None

    def region_lost(self, st, ks):
        pass

    def keep_fact(self, st, k):
        return False

    def charset(self, st, ct):
        return None

    def by_value(self, st, ct):
        """may a byte whose value is known stand for itself?"""
        return True

    def on_byte(self, st, term, i):
        pass

    def on_fact(self, st, term, val):
        pass

    def on_emit(self, st, name, pieces):
        raise Unsupported('output')

    def on_insert(self, st, set_, v):
        pass

    def tracks(self, v):
        return False

    def io(self, st, op, args, ty):
        raise Unsupported('I/O %s' % op)

    def panicked(self, st, what, fn):
        self.violation(st, 'C26', 'no panic', '%s may be reached in %s' % (what, fn))

    # --- verdicts
    def check(self, prop, rule, n=1):
        d = self.rules.setdefault(prop, {})
        d[rule] = d.get(rule, 0) + n

    def violation(self, st, prop, rule, msg):
        where = self.it.where
        stack = [x for x in self.it.stack]
        k = (prop, rule, where)
        why = st.approx
        for x, l in st.nums.items():
            if x[0] == 'size' and not (l[1] <= x[1] and (any(c == 1 for _, c in l[2]) or l[1] == x[1])):
                why = why + ('bound not kept',)
        if has_unknown(self.payload):
            why = why + ('unknown text',)
        rec = dict(property=prop, rule=rule, message=msg, at=where, stack=stack, op=st.mon.get('op'),
                   approx=list(why), path=st.trace)
        l = self.violations.setdefault(k, [])
        if len(l) < 40 and not any(set(x['approx']) <= set(why) for x in l):
            l.append(rec)

    def verdicts(self):
        """[(record, definite?)], one per violated rule and place"""
        out = []
        for k, l in self.violations.items():
            sure = [r for r in l if not r['approx']]
            r = dict((sure or l)[0])
            p, t = [], r['path']
            while t is not None and len(p) < 150:
                p.append(t[1])
                t = t[0]
            r['path'] = p[::-1]
            out.append((r, bool(sure)))
        return out

    def require(self, st, prop, rule, cond, msg):
        self.check(prop, rule)
        if not cond:
            self.violation(st, prop, rule, msg() if callable(msg) else msg)
        return cond
