"""Intervals of scalar terms.

Every term gets an interval that contains its value for all inputs of the given roles (real
arithmetic, closed ends).  `robust` marks intervals that also hold for the rounded value: they
come from clip, minimum/maximum, sines and cosines, inverse functions, quotients by a norm or
inputs, and not from an identity between separately rounded numbers.
"""
import math

from . import scalar as sc

INF = float('inf')
FULL = (-INF, INF)
PI = math.pi


def _mul(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def add(p, q):
    lo, hi = p[0] + q[0], p[1] + q[1]
    return (lo if lo == lo else -INF, hi if hi == hi else INF)


def scale(c, p):
    v = (_mul(c, p[0]), _mul(c, p[1]))
    return (min(v), max(v))


def times(p, q):
    v = [_mul(a, b) for a in p for b in q]
    return (min(v), max(v))


def hull(p, q):
    return (min(p[0], q[0]), max(p[1], q[1]))


def meet(p, q):
    lo, hi = max(p[0], q[0]), min(p[1], q[1])
    return (lo, hi) if lo <= hi else p


def inside(p, lo, hi, tol=1e-12):
    return p[0] >= lo - tol * max(1, abs(lo) if lo != -INF else 1) and p[1] <= hi + tol * max(1, abs(hi) if hi != INF else 1)


def number(s):
    if s.op == 'const' and not isinstance(s.attr, (str, tuple)):
        return s.attr
    return None


def power(p, e):
    if e == int(e) and e > 0:
        e = int(e)
        if e % 2 == 0:
            m = max(abs(p[0]), abs(p[1]))
            lo = 0.0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1]))
            return (lo ** e, m ** e)
        return (p[0] ** e, p[1] ** e)
    if e > 0:
        lo, hi = max(p[0], 0.0), max(p[1], 0.0)
        return (lo ** e, hi ** e)
    # negative exponents
    if e == int(e) and int(e) % 2 == 0 and p[0] < 0:
        p = (0.0, max(abs(p[0]), abs(p[1])))
    if p[0] >= 0 or e != int(e):
        lo, hi = max(p[0], 0.0), max(p[1], 0.0)
        return ((0.0 if hi == INF else hi ** e) if hi > 0 else INF, lo ** e if lo > 0 else INF)
    if p[1] <= 0:
        q = power((-p[1], -p[0]), e)
        return q if int(e) % 2 == 0 else (-q[1], -q[0])
    return FULL


class Ranges(object):
    def __init__(self, leaf):
        """leaf(term) -> interval of an input component"""
        self.leaf = leaf
        self.memo = {}

    def of(self, s, facts=()):
        r = self.memo.get(s.id) if not facts else None
        if r is not None:
            return r
        for x in sc.topo(s):
            if x.id not in self.memo:
                self.memo[x.id] = FULL        # cycles cannot occur; a placeholder for safety
                v = self.calc(x)
                self.memo[x.id] = v
        return self.memo[s.id]

    def calc(self, s):
        op, a = s.op, s.args
        R = lambda x: self.memo.get(x.id) or self.of(x)
        if op == 'const':
            v = number(s)
            return (float(v), float(v)) if v is not None and v == v else FULL
        if op == 'leaf':
            return self.leaf(s) or FULL
        if op == 'add':
            c0, cs = s.attr
            out = (float(c0), float(c0)) if not isinstance(c0, str) else FULL
            for c, x in zip(cs, a):
                out = add(out, scale(float(c), R(x)))
            m = self.modulo(s)
            return meet(out, m) if m else out
        if op == 'mul':
            return meet(self.product(s), self.quotient(s))
        if op in ('sqrt',):
            return power(R(a[0]), 0.5)
        if op == 'square':
            return power(R(a[0]), 2)
        if op in ('sin', 'cos'):
            return (-1.0, 1.0)
        if op == 'tanh':
            return (-1.0, 1.0)
        if op == 'arcsin':
            return (-PI / 2, PI / 2)
        if op == 'arccos':
            return (0.0, PI)
        if op == 'arctan':
            p = R(a[0])
            return (math.atan(p[0]), math.atan(p[1]))
        if op == 'arctan2':
            y, x = R(a[0]), R(a[1])
            lo, hi = -PI, PI
            if y[0] >= 0:
                lo = 0.0
            if y[1] <= 0 and y[0] < 0:
                hi = 0.0 if y[1] < 0 else PI
            if x[0] >= 0:
                lo, hi = max(lo, -PI / 2), min(hi, PI / 2)
            return (lo, hi)
        if op in ('abs', 'fabs'):
            p = R(a[0])
            return (0.0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1])), max(abs(p[0]), abs(p[1])))
        if op == 'hypot':
            return (0.0, INF)
        if op == 'maximum':
            p, q = R(a[0]), R(a[1])
            return (max(p[0], q[0]), max(p[1], q[1]))
        if op == 'minimum':
            p, q = R(a[0]), R(a[1])
            return (min(p[0], q[0]), min(p[1], q[1]))
        if op == 'clip':
            return self.clip(s)
        if op == 'mod':
            m = R(a[1]) if len(a) > 1 else FULL
            if m[0] > 0:
                return (0.0, m[1])
            return FULL
        if op == 'fmod':
            m = R(a[1]) if len(a) > 1 else FULL
            k = max(abs(m[0]), abs(m[1]))
            return (-k, k)
        if op == 'sign':
            return (-1.0, 1.0)
        if op == 'exp':
            return (0.0, INF)
        if op in ('eq', 'ne', 'lt', 'le', 'and', 'or', 'not', 'isnan', 'isinf', 'isfinite'):
            return (0.0, 1.0)
        if op == 'where':
            return hull(self.under(a[1], a[0], True), self.under(a[2], a[0], False))
        if op == 'over':
            if s.attr[0] in ('max', 'min'):
                return R(a[0])
            if s.attr[0] == 'sum':
                p = R(a[0])
                return (0.0 if p[0] >= 0 else -INF, 0.0 if p[1] <= 0 else INF)
            return FULL
        if op == 'pow' and len(a) == 2:
            e = number(a[1])
            return power(R(a[0]), e) if e is not None else FULL
        if op == 'interp':
            return FULL
        if op == 'ext':
            return self.leaf(s) or FULL
        return FULL

    def clip(self, s):
        a = s.args
        if len(a) == 3:
            lo, hi = self.memo[a[1].id], self.memo[a[2].id]
            p = self.memo[a[0].id]
            return (min(max(p[0], lo[0]), hi[1]), max(min(p[1], hi[1]), lo[0]))
        if s.attr and len(s.attr) == 2:
            lo = -INF if s.attr[0] is None else float(s.attr[0])
            hi = INF if s.attr[1] is None else float(s.attr[1])
            p = self.memo[a[0].id]
            return (min(max(p[0], lo), hi), min(max(p[1], lo), hi))
        return FULL

    def under(self, x, cond, truth, known=None, depth=0):
        """interval of x when cond has the given truth value"""
        known = dict(known or {})
        for c, t in conjuncts(cond, truth):
            if c.op in ('lt', 'le') and len(c.args) == 2:
                l, r = c.args
                if not t:
                    l, r = r, l
                self.learn(known, l, (-INF, self.at(r)[1]))
                self.learn(known, r, (self.at(l)[0], INF))
        return self.given(x, known, depth)

    def at(self, x):
        return self.memo.get(x.id) or self.of(x)

    def learn(self, known, x, p):
        """x lies in p; the same for what x is made of"""
        known[x.id] = meet(known.get(x.id, FULL), p)
        if x.op in ('abs', 'fabs') and p[1] < INF:
            self.learn(known, x.args[0], (-p[1], p[1]))
        elif x.op == 'add' and len(x.args) == 1 and not isinstance(x.attr[0], str):
            c = float(x.attr[1][0])
            self.learn(known, x.args[0], scale(1 / c, add(p, (-float(x.attr[0]),) * 2)))
        elif x.op == 'mul' and len(x.args) == 1 and x.attr[1][0] == 1 and not isinstance(x.attr[0], str):
            self.learn(known, x.args[0], scale(1 / float(x.attr[0]), p))
        elif (x.op == 'square' or x.op == 'mul' and x.attr == (1, (2,))) and 0 <= p[1] < INF:
            self.learn(known, x.args[0], (-math.sqrt(p[1]), math.sqrt(p[1])))

    def given(self, x, known, depth):
        p = meet(self.at(x), known.get(x.id, FULL))
        if depth < 8:
            if x.op == 'where':
                p = meet(p, hull(self.under(x.args[1], x.args[0], True, known, depth + 1), self.under(x.args[2], x.args[0], False, known, depth + 1)))
            elif x.op == 'add' and len(x.args) <= 4 and not isinstance(x.attr[0], str):
                out = (float(x.attr[0]), float(x.attr[0]))
                for c, y in zip(x.attr[1], x.args):
                    out = add(out, scale(float(c), self.given(y, known, depth + 1)))
                p = meet(p, out)
            elif x.op == 'mul' and len(x.args) == 1 and not isinstance(x.attr[0], str):
                p = meet(p, scale(float(x.attr[0]), power(self.given(x.args[0], known, depth + 1), float(x.attr[1][0]))))
        return p

    def product(self, s):
        k, es = s.attr
        if isinstance(k, str):
            return FULL
        out = (1.0, 1.0)
        for e, x in zip(es, s.args):
            out = times(out, power(self.memo[x.id], float(e)))
            if out[0] != out[0] or out[1] != out[1]:
                return FULL
        return scale(float(k), out)

    def quotient(self, s):
        """x / sqrt(x^2 + ...) and products of it with bounded factors"""
        k, es = s.attr
        if isinstance(k, str):
            return FULL
        num = [(e, x) for e, x in zip(es, s.args)]
        out = (1.0, 1.0)
        used = set()
        for i, (e, d) in enumerate(num):
            sq = radicand(d, e)
            if sq is None:
                continue
            for j, (e2, x) in enumerate(num):
                if j != i and j not in used and e2 == 1 and self.part_of(x, sq):
                    used |= {i, j}
                    out = times(out, (-1.0, 1.0))
                    break
        if not used:
            return FULL
        for i, (e, x) in enumerate(num):
            if i not in used:
                out = times(out, power(self.memo[x.id], float(e)))
        return scale(float(k), out)

    def part_of(self, x, sq):
        """sq = x^2 + something not negative"""
        if sq.op == 'mul' and sq.attr == (1, (2,)) and sq.args[0] is x or sq.op == 'square' and sq.args[0] is x:
            return True
        if sq.op != 'add':
            return False
        c0, cs = sq.attr
        hit = False
        rest = (float(c0), float(c0)) if not isinstance(c0, str) else FULL
        for c, t in zip(cs, sq.args):
            if not hit and c >= 1 and (t.op == 'mul' and t.attr == (1, (2,)) and t.args[0] is x or t.op == 'square' and t.args[0] is x):
                hit = True
                continue
            rest = add(rest, scale(float(c), self.memo.get(t.id) or self.of(t)))
        return hit and rest[0] >= 0

    def modulo(self, s):
        """x - y*floor(x/y) and the like are left alone"""
        return None


def radicand(d, e):
    """e-th power of d is 1/sqrt(q): q, or None"""
    if d.op == 'sqrt' and e == -1:
        return d.args[0]
    if d.op in ('add',) and float(e) == -0.5:
        return d
    if d.op == 'pow' and e == -1 and len(d.args) == 2 and number(d.args[1]) == 0.5:
        return d.args[0]
    if d.op == 'mul' and e == -1 and d.attr[0] == 1 and len(d.args) == 1 and float(d.attr[1][0]) == 0.5:
        return d.args[0]
    return None


def conjuncts(c, truth):
    if c.op == 'not':
        return conjuncts(c.args[0], not truth)
    if c.op == 'and' and truth or c.op == 'or' and not truth:
        return [x for a in c.args for x in conjuncts(a, truth)]
    return [(c, truth)]


def geodesic(s):
    """documented ranges of the results of geographiclib"""
    if not (isinstance(s.attr, tuple) and len(s.attr) == 3):
        return None
    name, field, mask = s.attr
    if field == 's12':
        return (0.0, INF) if name == 'Inverse' else None
    if field in ('azi1', 'azi2'):
        return (-180.0, 180.0)
    if field in ('lat1', 'lat2'):
        return (-90.0, 90.0)
    if field in ('lon1', 'lon2') and set(mask or ()) <= {'STANDARD'}:
        return (-180.0, 180.0)
    return None


def leaf_ranges(R, roles=()):
    """intervals of the inputs of a run"""
    by = dict(roles)
    ROLE = {'nvec': (-1.0, 1.0), 'nvec1': (-1.0, 1.0), 'lat': (-PI / 2, PI / 2), 'latd': (-90.0, 90.0), 'a': (0.0, INF), 'f': (0.0, 1.0), 'R_Ee': (-1.0, 1.0), 'R': (-1.0, 1.0),
            'R_EX': (-1.0, 1.0)}

    def leaf(s):
        if s.op == 'ext':
            return geodesic(s)
        name = s.attr[0]
        if name == 'rad/deg':
            return (PI / 180, PI / 180)
        if name == 'pi':
            return (PI, PI)
        r = by.get(name)
        if r in ('radius', 'tolerance'):
            return (0.0, INF)
        if r == 'acute':
            return (-PI / 2, PI / 2)
        if r == 'arc':
            return (0.0, PI)
        n = R.W.names.get(name)
        ro = R.W.roles.get(n) if n is not None else None
        return ROLE.get(ro.kind) if ro is not None else None
    return leaf
