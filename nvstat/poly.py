"""Algebraic normal form of scalar terms.

A term of the component graph is rewritten into a Laurent polynomial with rational exponents
over atoms (input components, uninterpreted function terms, roots of polynomials).  Two terms
with the same normal form are the same real function wherever both are defined.  Nothing is
evaluated: the rewriting uses ring laws, sin^2+cos^2 = 1, addition theorems, the unit length
of n-vectors and sin/cos of inverse functions.
"""
from fractions import Fraction as Fr
import copy
import math
import time

from . import decmath as dm
from . import floatcode
from . import scalar as sc


class TooBig(Exception):
    pass


LIMIT = 2000
WORK = 400000           # elementary steps per attempt
TOTAL = [0, 12000000]  # steps of all attempts of a run, and their bound
PI = ('pi',)


def frac(v):
    if isinstance(v, Fr):
        return v
    if isinstance(v, bool):
        return Fr(int(v))
    if isinstance(v, int):
        return Fr(v)
    f = Fr(v).limit_denominator(10 ** 6)
    if abs(float(f) - v) <= 4e-16 * abs(v):
        return f
    return Fr(v)


class Algebra(object):
    """unit: names of input vectors of length one; ident: matrices taken as the identity; orth: matrices with columns of length one"""

    def __init__(self, unit=(), ident=(), positive=(), subst=None, orth=(), cut=None, acute=(), half=(), below_one=(), tolerance=()):
        self.cut, self.was_cut, self.work = cut, False, 0
        self.unit, self.ident, self.positive = set(unit), set(ident), set(positive)
        self.orth = set(orth)
        self.atoms = {}
        self.info = []
        self.memo = {}
        self.pos_atoms = set()
        self.subst = subst or {}
        self.acute, self.half = set(acute), set(half)    # angles in (-90, 90) and in (0, 180) degrees
        self.below_one = set(below_one)
        self.landmarks = []
        self.small = []
        self.tolerance = sorted(tolerance)

    # ------------------------------------------------------------ atoms
    def atom(self, key):
        i = self.atoms.get(key)
        if i is None:
            i = self.atoms[key] = len(self.info)
            self.info.append(key)
        return i

    def key(self, p):
        return tuple(sorted(p.items()))

    def const(self, v):
        v = frac(v)
        return {(): v} if v else {}

    def var(self, key, e=Fr(1)):
        return {((self.atom(key), Fr(e)),): Fr(1)}

    def base(self, polykey, e):
        return {((self.atom(('pow', polykey)), Fr(e)),): Fr(1)}

    # ------------------------------------------------------------ ring
    def spend(self, n):
        self.work += n
        if self.work > WORK:
            raise TooBig()

    def addp(self, *ps):
        out = {}
        for p in ps:
            self.spend(len(p))
            for m, c in p.items():
                v = out.get(m, 0) + c
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        return out

    def scale(self, p, k):
        return {m: c * k for m, c in p.items()} if k else {}

    def sub(self, a, b):
        return self.addp(a, self.scale(b, -1))

    @staticmethod
    def mono_mul(a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for x, e in b:
            v = d.get(x, 0) + e
            if v:
                d[x] = v
            else:
                d.pop(x, None)
        return tuple(sorted(d.items()))

    def mulp(self, a, b):
        if len(a) * len(b) > LIMIT * 4:
            raise TooBig()
        self.spend(3 * len(a) * len(b))
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = self.mono_mul(m, n)
                v = out.get(k, 0) + c * d
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return self.reduce(out)

    def reducible(self, m):
        """(atom, exponent to take out, replacement polynomial) for one reducible factor of m"""
        for x, e in m:
            k = self.info[x]
            if k[0] == 'leaf' and k[1] in self.unit and k[2][0] == 2 and e >= 2:
                one = self.const(1)
                u0 = self.var(('leaf', k[1], (0,) + k[2][1:]), 2)
                u1 = self.var(('leaf', k[1], (1,) + k[2][1:]), 2)
                return x, Fr(2), self.addp(one, self.scale(u0, -1), self.scale(u1, -1))
            if k[0] == 'leaf' and k[1] in self.orth and len(k[2]) >= 2 and k[2][0] == 2 and e >= 2:
                u = [self.var(('leaf', k[1], (i,) + k[2][1:]), 2) for i in (0, 1)]
                return x, Fr(2), self.addp(self.const(1), self.scale(u[0], -1), self.scale(u[1], -1))
            if k[0] == 'fn' and k[1] == 'sin' and e >= 2:
                return x, Fr(2), self.sub(self.const(1), self.var(('fn', 'cos') + k[2:], 2))
            if k[0] == 'fn' and k[1] == 'abs' and e >= 2:
                p = self.unkey(k[2][0])
                return x, Fr(2), self.mulp(p, p)
            if k[0] == 'fn' and k[1] == 'abs' and e <= -2:
                p = self.unkey(k[2][0])
                return x, Fr(-2), self.power(self.mulp(p, p), -1)
            if k[0] == 'fn' and k[1] == 'sign' and e >= 2:
                return x, Fr(2), self.const(1)
            if k[0] == 'pow' and e >= 1:
                return x, Fr(1), self.unkey(k[1])
            if k[0] == 'rpow' and e >= 1:
                return x, Fr(1), self.const(k[1])
        return None

    def unkey(self, k):
        return dict(k)

    def reduce(self, p):
        out = {}
        todo = [p]
        steps = 0
        while todo:
            q = todo.pop()
            for m, c in q.items():
                r = self.reducible(m)
                if r is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                steps += 1
                if steps > LIMIT * 4 or len(out) > LIMIT:
                    raise TooBig()
                x, e, rep = r
                rest = tuple((y, f) if y != x else (y, f - e) for y, f in m if y != x or f != e)
                nq = {}
                for n, d in rep.items():
                    k = self.mono_mul(rest, n)
                    v = nq.get(k, 0) + c * d
                    if v:
                        nq[k] = v
                    else:
                        nq.pop(k, None)
                todo.append(nq)
        if len(out) > LIMIT:
            raise TooBig()
        return out

    # ------------------------------------------------------------ powers
    def is_pos(self, x):
        k = self.info[x]
        if x in self.pos_atoms or k[0] in ('pi', 'rpow'):
            return True
        if k[0] == 'leaf' and (k[1] in self.positive or k[1][:2] == '1-'):
            return True
        if k[0] == 'fn' and k[1] in ('sin', 'cos') and len(k[2][0]) == 1:
            (m, c), = k[2][0]
            q = self.info[m[0][0]] if len(m) == 1 and m[0][1] == 1 and c == 1 else (None,)
            if q[0] == 'leaf' and q[1] in (self.acute if k[1] == 'cos' else self.half):
                return True
        if k[0] == 'fn' and k[1] in ('abs', 'exp', 'sqrt'):
            return True
        if k[0] == 'fn' and k[1] == 'maximum' and any(self.pos_poly(self.unkey(q)) for q in k[2]):
            return True
        if k in self.positive:
            return True
        if k[0] in ('cut', 'pow') and self.pos_poly(dict(k[1])):
            return True
        return False

    def pos_poly(self, p):
        """manifestly positive: positive coefficients and even or positive factors only"""
        if not p:
            return False
        if len(p) in (2, 3) and self.complement(p):
            return True
        for m, c in p.items():
            if c <= 0:
                return False
            for x, e in m:
                if self.is_pos(x):
                    continue
                if e.denominator == 1 and e % 2 == 0:
                    continue
                if self.info[x][0] == 'pow' and e.denominator != 1:
                    continue
                return False
        return True

    def complement(self, p):
        """k*(1 - u^2 [- v^2]) with components u, v of one unit vector, or k*(1 - cos^2)"""
        k = p.get(())
        if k is None or k <= 0:
            return False
        seen = set()
        for m, c in p.items():
            if not m:
                continue
            if c != -k or len(m) != 1 or m[0][1] != 2:
                return False
            q = self.info[m[0][0]]
            if q[0] == 'leaf' and q[1] in self.unit:
                seen.add((q[1], True) + q[2][1:])
            elif q[0] == 'fn' and q[1] in ('cos', 'sin') and len(p) == 2:
                seen.add(q)
            else:
                return False
        return len(seen) == 1

    def complements(self, p):
        """atoms x for which 1 - x^2 is known not to be negative, among the factors of p"""
        out = set()
        for m in p:
            for x, e in m:
                q = self.info[x]
                if e >= 2 and e.denominator == 1 and ((q[0] == 'leaf' and q[1] in self.unit) or (q[0] == 'fn' and q[1] == 'cos')):
                    out.add(x)
        return sorted(out)

    def divide(self, p, x):
        """p / (1 - x^2) when that is a polynomial"""
        quo = {}
        work = dict(p)
        self.spend(len(p))
        while True:
            top = [m for m in work if dict(m).get(x, 0) >= 2]
            if not top:
                break
            m = max(top, key=lambda q: dict(q)[x])
            c = work.pop(m)
            n = self.mono_mul(m, ((x, Fr(-2)),))
            for d, k, v in ((quo, n, -c), (work, n, c)):
                v = d.get(k, 0) + v
                if v:
                    d[k] = v
                else:
                    d.pop(k, None)
            self.spend(3)
            if len(quo) > LIMIT:
                raise TooBig()
        return quo if not work else None

    def quotient(self, p, q):
        """p / q when that is a polynomial"""
        order = sorted(set(x for d in (p, q) for m in d for x, e in m))
        deg = lambda m: (sum(e for x, e in m),) + tuple(dict(m).get(x, 0) for x in order)
        top = max(q, key=deg)
        inv = tuple((x, -e) for x, e in top)
        rest, out = dict(p), {}
        for _ in range(2 * len(p) + 4):
            if not rest:
                return out
            m = max(rest, key=deg)
            n = self.mono_mul(m, inv)
            if n in out:
                return None
            out[n] = c = rest[m] / q[top]
            self.spend(len(q))
            for k, v in q.items():
                k = self.mono_mul(n, k)
                w = rest.get(k, 0) - c * v
                rest[k] = w
                if not w:
                    del rest[k]
        return None

    def cancel(self, p):
        """cancel numerators against whole powers of sums in denominators"""
        if len(p) > 40:
            return p
        for _ in range(6):
            for x in sorted(set(x for m in p for x, e in m if e <= -1 and self.info[x][0] == 'pow')):
                hit = [m for m in p if dict(m).get(x, 0) <= -1]
                q = self.unkey(self.info[x][1])
                if len(hit) < 2 or len(q) < 2 or len(hit) < len(q) - 1:
                    continue
                r = self.quotient({m: p[m] for m in hit}, q)
                if r is not None:
                    new = {self.mono_mul(m, ((x, Fr(1)),)): c for m, c in r.items()}
                    p = self.addp({m: c for m, c in p.items() if m not in set(hit)}, self.reduce(new))
                    break
            else:
                return p
        return p

    def rpow(self, c, e):
        """c**e for a rational c"""
        if e.denominator == 1:
            return self.const(c ** int(e))
        if c > 0:
            q = e.denominator
            try:
                n, d = (math.isqrt(v) if q == 2 else round(v ** (1.0 / q)) for v in (c.numerator, c.denominator))
            except OverflowError:
                n = d = 0
            if n ** q == c.numerator and d ** q == c.denominator:
                return self.const(Fr(n, d) ** e.numerator)
            # c**e = c**floor * rpow(c)**frac
            fl = e.numerator // e.denominator
            fr = e - fl
            out = {((self.atom(('rpow', c)), fr),): c ** fl}
            return out
        return None

    def power(self, p, e):
        e = Fr(e)
        if e == 1:
            return p
        if not p:
            if e > 0:
                return {}
            return self.var(('fn', 'infinite', (self.key(p),), None))
        if e == 0:
            return self.const(1)
        if len(p) == 1:
            (m, c), = p.items()
            if e.denominator == 1:
                return self.reduce({tuple((x, f * e) for x, f in m): c ** int(e)}) if True else None
            r = self.rpow(c, e)
            if r is not None:
                out = r
                rest = []
                for x, f in m:
                    if self.is_pos(x) or (self.info[x][0] == 'pow' and f.denominator != 1):
                        out = self.mulp(out, self.reduce({((x, f * e),): Fr(1)}))
                    elif f.denominator == 1 and f % 2 == 0:
                        ab = self.fn('abs', [{((x, Fr(1)),): Fr(1)}])
                        out = self.mulp(out, self.power(ab, f * e))
                    elif self.info[x][0] == 'pow' and f.denominator == 1 and self.pos_poly(self.unkey(self.info[x][1])):
                        out = self.mulp(out, self.reduce({((x, f * e),): Fr(1)}))
                    else:
                        rest.append((x, f))
                if len(rest) == 1 and rest[0][1].denominator == 1 and e.denominator == 2:
                    # an odd power under the root: the factor is not negative where the root is defined
                    out = self.mulp(out, self.reduce({((rest[0][0], rest[0][1] * e),): Fr(1)}))
                elif rest:
                    out = self.mulp(out, self.base((((tuple(rest)), Fr(1)),), e))
                return out
            return self.base(self.key(p), e)
        if e.denominator == 1 and e > 0:
            out = self.const(1)
            b, k = p, int(e)
            while k:
                if k & 1:
                    out = self.mulp(out, b)
                k >>= 1
                if k:
                    b = self.mulp(b, b)
            return out
        # several terms: normalise the base
        out = self.const(1)
        common = self.common(p)
        if common:
            ok = []
            for x, f in common:
                if e.denominator == 1 or self.is_pos(x):
                    ok.append((x, f))
                elif f.denominator == 1 and f % 2 == 0:
                    ok.append((x, f))
                elif self.info[x][0] == 'pow':
                    ok.append((x, f))
            if ok:
                inv = tuple((x, -f) for x, f in ok)
                p = self.reduce({self.mono_mul(m, inv): c for m, c in p.items()})
                out = self.power({tuple(sorted(ok)): Fr(1)}, e)
        if len(p) > 1 and e.denominator == 2:
            if not self.complement(p):
                for x in self.complements(p):
                    q = self.divide(p, x)
                    if q is not None:
                        one = self.sub(self.const(1), {((x, Fr(2)),): Fr(1)})
                        return self.mulp(out, self.mulp(self.power(one, e), self.power(q, e)))
            elif len(p) == 2:
                m, = [m for m in p if m]
                q = self.info[m[0][0]]
                if q[0] == 'fn' and q[1] == 'cos':
                    out = self.mulp(out, self.power(self.const(p[()]), e))
                    return self.mulp(out, self.power(self.fn('abs', [self.var(('fn', 'sin') + q[2:])]), e * 2))
            r = self.square_root(p)
            if r is not None:
                return self.mulp(out, self.power(self.fn('abs', [r]), e * 2))
        if len(p) > 1:
            lead = p[max(p)]
            if e.denominator == 1:
                k = lead
            else:
                k = abs(lead)
            p = self.scale(p, 1 / k)
            r = self.rpow(k, e)
            out = self.mulp(out, r)
            fl = e.numerator // e.denominator
            if fl >= 1:
                out = self.mulp(out, self.power(p, fl))
                e = e - fl
            if e:
                out = self.mulp(out, self.base(self.key(p), e))
            return out
        return self.mulp(out, self.power(p, e))

    def square_root(self, p):
        """r with r*r == p: long division, leading term first"""
        r = self.square_root3(p)
        if r is not None or len(p) < 4 or len(p) > 60:
            return r
        if any(e.denominator != 1 or e < 0 for m in p for x, e in m):
            return None
        order = sorted(set(x for m in p for x, e in m))
        deg = lambda m: (sum(e for x, e in m),) + tuple(dict(m).get(x, 0) for x in order)
        top = max(p, key=deg)
        c = self.rpow(p[top], Fr(1, 2)) if p[top] > 0 else None
        if not c or list(c) != [()] or any(e % 2 for x, e in top):
            return None
        half, lead = tuple((x, e / 2) for x, e in top), c[()]
        r = {half: lead}
        rest = {m: v for m, v in p.items() if m != top}
        inv = tuple((x, -e) for x, e in half)
        for _ in range(30):
            if not rest:
                return r
            m = max(rest, key=deg)
            q = self.mono_mul(m, inv)
            if any(e < 0 for x, e in q) or deg(q) >= deg(half):
                return None
            t = {q: rest[m] / (2 * lead)}
            # rest -= t*(2r + t)
            for n, v in list(r.items()):
                k = self.mono_mul(q, n)
                w = rest.get(k, 0) - 2 * t[q] * v
                rest[k] = w
                if not w:
                    del rest[k]
            k = self.mono_mul(q, q)
            w = rest.get(k, 0) - t[q] ** 2
            rest[k] = w
            if not w:
                del rest[k]
            if q in r:
                return None
            r[q] = t[q]
        return None

    def square_root3(self, p):
        """the shape a^2 + 2ab + b^2, rational exponents included"""
        if len(p) != 3:
            return None
        ms = list(p.items())
        for i in range(3):
            for j in range(i):
                (ma, ca), (mb, cb) = ms[i], ms[j]
                ra, rb = self.rpow(ca, Fr(1, 2)) if ca > 0 else None, self.rpow(cb, Fr(1, 2)) if cb > 0 else None
                if not ra or not rb or list(ra) != [()] or list(rb) != [()]:
                    continue
                if any((f / 2).denominator != 1 and self.info[x][0] != 'pow' for x, f in ma + mb):
                    continue
                a = {tuple((x, f / 2) for x, f in ma): ra[()]}
                b = {tuple((x, f / 2) for x, f in mb): rb[()]}
                for s in (1, -1):
                    r = self.addp(a, self.scale(b, s))
                    if self.mulp(r, r) == p:
                        return r
        return None

    def common(self, p):
        """factors shared by all terms"""
        acc = None
        for m in p:
            d = dict(m)
            if acc is None:
                acc = d
                continue
            for x in list(acc):
                e = d.get(x, Fr(0))
                f = min(acc[x], e) if not (acc[x] > 0) != (not (e > 0)) else Fr(0)
                if acc[x] < 0 and e < 0:
                    f = max(acc[x], e) if False else min(acc[x], e)
                if acc[x] > 0 and e > 0:
                    f = min(acc[x], e)
                if not ((acc[x] > 0 and e > 0) or (acc[x] < 0 and e < 0)):
                    # a negative exponent anywhere is still a common factor of the cleared form
                    f = min(acc[x], e) if min(acc[x], e) < 0 else Fr(0)
                if f:
                    acc[x] = f
                else:
                    del acc[x]
            for x, e in d.items():
                if e < 0 and x not in acc:
                    acc[x] = e
        return tuple(sorted((acc or {}).items()))

    # ------------------------------------------------------------ functions
    def sign_of(self, p):
        """+1/-1: canonical sign of a polynomial"""
        if not p:
            return 1
        return 1 if p[max(p)] > 0 else -1

    def fn(self, op, args, attr=None):
        if op == 'pi':
            return self.var(PI)
        if op in ('sin', 'cos'):
            return self.trig(op, args[0])
        if op == 'tan':
            return self.mulp(self.trig('sin', args[0]), self.power(self.trig('cos', args[0]), -1))
        if op in ('abs',):
            p = args[0]
            if not p:
                return {}
            if self.pos_poly(p):
                return p
            if len(p) == 1:
                (m, c), = p.items()
                if not m:
                    return self.const(abs(c))
                out = self.const(abs(c))
                for x, e in m:
                    if self.is_pos(x) or (e.denominator == 1 and e % 2 == 0) or (self.info[x][0] == 'pow' and e.denominator != 1):
                        out = self.mulp(out, {((x, e),): Fr(1)})
                    elif e.denominator == 1:
                        out = self.mulp(out, self.power(self.var(('fn', 'abs', (self.key({((x, Fr(1)),): Fr(1)}),), None)), e))
                    else:
                        return self.var(('fn', 'abs', (self.key(self.scale(p, self.sign_of(p))),), None))
                return out
            return self.var(('fn', 'abs', (self.key(self.scale(p, self.sign_of(p))),), None))
        if op == 'arctan2':
            return self.arctan2(*args)
        if op in ('arcsin', 'arctan', 'sinh', 'tanh', 'cbrt', 'sign'):
            p = args[0]
            if not p:
                return {}
            s = self.sign_of(p)
            if op == 'arcsin':
                p = self.unclip(p)
                s = self.sign_of(p)
                q = self.fold_arcsin(self.scale(p, s))
                if q is not None:
                    return self.scale(q, s)
            return self.scale(self.var(('fn', op, (self.key(self.scale(p, s)),), attr)), s)
        if op == 'arccos':
            args = [self.unclip(args[0])]
            return self.sub(self.scale(self.var(PI), Fr(1, 2)), self.fn('arcsin', args))
        if op == 'over' and args[0] in (self.var(('bool', True)), self.var(('bool', False))):
            return args[0]
        if op == 'ext' and attr[:2] == ('Inverse', 's12') and len(args) == 6 and self.key(args[4]) + self.key(args[5]) < self.key(args[2]) + self.key(args[3]):
            # as far one way as the other
            args = args[:2] + args[4:] + args[2:4]
        if op == 'cosh':
            return self.var(('fn', op, (self.key(self.scale(args[0], self.sign_of(args[0]))),), attr))
        if op in ('eq', 'ne') and len(args) == 2:
            d = self.sub(args[0], args[1])
            return self.var(('fn', op, (self.key(self.scale(d, self.sign_of(d))),), attr))
        if op in ('lt', 'le') and len(args) == 2:
            d = self.sub(args[0], args[1])
            if not d:
                return self.var(('bool', op == 'le'))
            if self.pos_poly(d):
                return self.var(('bool', False))
            if self.pos_poly(self.scale(d, -1)):
                return self.var(('bool', True))
        if op == 'not' and len(args) == 1:
            for v in (True, False):
                if args[0] == self.var(('bool', v)):
                    return self.var(('bool', not v))
        if op == 'over' and attr and attr[0] in ('all', 'any'):
            q = self.single(args[0])
            if q and q[0] == 'fn' and q[1] == ('and' if attr[0] == 'all' else 'or'):
                return self.fn(q[1], [self.fn('over', [self.unkey(k)], attr) for k in q[2]])
        if op in ('lt', 'le') and len(args) == 2:
            d = self.strip_pos(self.slack(self.sub(args[0], args[1])))
            return self.var(('fn', op, (self.key(d),), attr))
        if op == 'isclose' and len(args) >= 4:
            # for numbers: |a - b| <= atol + rtol*|b|
            a, b, rtol, atol = args[:4]
            lim = self.addp(atol, self.mulp(rtol, self.fn('abs', [b])))
            return self.fn('le', [self.fn('abs', [self.sub(a, b)]), lim])
        if op == 'closeto' and len(args) == 4:
            a, b, rtol, atol = args
            lim = self.fn('maximum', [atol, self.mulp(rtol, self.fn('maximum', [self.fn('abs', [a]), self.fn('abs', [b])]))])
            return self.fn('le', [self.fn('abs', [self.sub(a, b)]), lim])
        if op == 'mod' and len(args) == 2:
            if not args[0]:
                return {}
            if self.sign_of(args[0]) < 0 and self.pos_poly(args[1]):
                # not a multiple of the modulus
                return self.sub(args[1], self.fn(op, [self.scale(args[0], -1), args[1]], attr))
        if op in ('and', 'or', 'maximum', 'minimum'):
            yes, no = self.key(self.var(('bool', True))), self.key(self.var(('bool', False)))
            if op in ('and', 'or'):
                unit, zero = (yes, no) if op == 'and' else (no, yes)
                ks = set(self.key(a) for a in args) - {unit}
                if zero in ks:
                    return self.unkey(zero)
                if not ks:
                    return self.unkey(unit)
                if len(ks) == 1:
                    return self.unkey(ks.pop())
                flat = set()
                for k in ks:
                    q = self.single(self.unkey(k))
                    flat |= set(q[2]) if q and q[0] == 'fn' and q[1] == op else {k}
                return self.var(('fn', op, tuple(sorted(flat)), attr))
            flat, consts = set(), []
            for a in args:
                q = self.single(a)
                for k in (q[2] if q and q[0] == 'fn' and q[1] == op else [self.key(a)]):
                    d = self.unkey(k)
                    if not d or list(d) == [()]:
                        consts.append(d.get((), Fr(0)))
                    else:
                        flat.add(k)
            if consts:
                c = (max if op == 'maximum' else min)(consts)
                if not flat:
                    return self.const(c)
                if not (op == 'maximum' and c <= 0 and any(self.pos_poly(self.unkey(k)) for k in flat)):
                    flat.add(self.key(self.const(c)))
            if len(flat) == 1:
                return self.unkey(flat.pop())
            return self.var(('fn', op, tuple(sorted(flat)), attr))
        return self.var(('fn', op, tuple(self.key(a) for a in args), attr))

    def slack(self, d):
        """in X <= max(T, c*X) with X, T >= 0 and c < 1 the second limit never decides"""
        for m, k in list(d.items()):
            if k >= 0 or len(m) != 1 or m[0][1] != 1:
                continue
            f = self.info[m[0][0]]
            if f[0] != 'fn' or f[1] != 'maximum':
                continue
            rest = self.scale({q: c for q, c in d.items() if q != m}, -1 / k)
            if not self.pos_poly(rest):
                continue
            members = [self.unkey(q) for q in f[2]]
            q0, c0 = next(iter(rest.items()))
            keep = [q for q in members if not (set(q) == set(rest) and q[q0] / c0 < 1 and q == self.scale(rest, q[q0] / c0))]
            if len(keep) < len(members) and any(self.pos_poly(q) for q in keep):
                lim = keep[0] if len(keep) == 1 else self.fn('maximum', keep)
                return self.scale(self.sub(rest, lim), -k)
        return d

    def unclip(self, p):
        """limiting the argument to [-1, 1] changes nothing where the inverse function is defined"""
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
                k = self.info[m[0][0]]
                one = self.key(self.const(1)), self.key(self.const(-1))
                if k[0] == 'fn' and k[1] == 'clip' and k[3] and tuple(k[3]) == (-1, 1):
                    return self.scale(self.unkey(k[2][0]), c)
                if k[0] == 'fn' and k[1] in ('minimum', 'maximum') and len(k[2]) == 2:
                    lim = one[0] if k[1] == 'minimum' else one[1]
                    if lim in k[2]:
                        rest = [q for q in k[2] if q != lim]
                        if rest:
                            inner = self.unkey(rest[0])
                            return self.scale(self.unclip(inner), c)
        return p

    def single(self, p):
        """the atom a polynomial consists of"""
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return self.info[m[0][0]]
        return None

    def strip_pos(self, p):
        """divide by a manifestly positive common factor"""
        if not p:
            return p
        cm = [(x, e) for x, e in self.common(p) if self.is_pos(x) or (self.info[x][0] == 'pow' and e.denominator != 1)]
        if cm:
            inv = tuple(sorted((x, -e) for x, e in cm))
            p = self.reduce({self.mono_mul(m, inv): c for m, c in p.items()})
        k = abs(p[max(p)]) if p else 1
        return self.scale(p, 1 / k)

    def fold_arcsin(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                k = self.info[m[0][0]]
                if k[0] == 'fn' and k[1] == 'sin' and ('principal', k[2][0]) in self.positive:
                    return self.unkey(k[2][0])
        return None

    def arctan2(self, y, x):
        if not y and x and self.pos_poly(x):
            return {}
        s = self.sign_of(y)
        if y:
            y = self.scale(y, s)
        else:
            s = 1
        # common positive factors
        if y and x:
            cy, cx = dict(self.common(y)), dict(self.common(x))
            inv = []
            for a in set(cy) | set(cx):
                e = cy.get(a, Fr(0)), cx.get(a, Fr(0))
                f = min(e) if min(e) > 0 else (max(e) if max(e) < 0 else Fr(0))
                if min(e) < 0:
                    f = min(e)
                okp = self.is_pos(a) or (self.info[a][0] == 'pow' and (f.denominator != 1 or self.pos_poly(self.unkey(self.info[a][1])))) or \
                    (f.denominator == 1 and f % 2 == 0)
                if f and okp:
                    inv.append((a, -f))
            if inv:
                iv = tuple(sorted(inv))
                y = self.reduce({self.mono_mul(m, iv): c for m, c in y.items()})
                x = self.reduce({self.mono_mul(m, iv): c for m, c in x.items()})
                s2 = self.sign_of(y)
                if s2 < 0:
                    y, s = self.scale(y, -1), -s
            k = abs(y[max(y)])
            y, x = self.scale(y, 1 / k), self.scale(x, 1 / k)
        # arctan2(sin u, cos u)
        if len(y) == 1 and len(x) == 1:
            (my, cy), = y.items()
            (mx, cx), = x.items()
            if len(my) == 1 and len(mx) == 1 and my[0][1] == 1 and mx[0][1] == 1 and cy == cx == 1:
                ky, kx = self.info[my[0][0]], self.info[mx[0][0]]
                if ky[0] == kx[0] == 'fn' and ky[1] == 'sin' and kx[1] == 'cos' and ky[2] == kx[2]:
                    return self.scale(self.unkey(ky[2][0]), s)
        return self.scale(self.var(('fn', 'arctan2', (self.key(y), self.key(x)), None)), s)

    def trig(self, op, p):
        """sin/cos of a polynomial argument"""
        if not p:
            return self.const(1 if op == 'cos' else 0)
        for m, c in p.items():
            if c.denominator == 1 and len(m) == 1 and m[0][1] == 1:
                k = self.info[m[0][0]]
                if k[0] == 'fn' and k[1] in ('mod', 'fmod') and len(k[2]) == 2 and \
                        k[2][1] == self.key(self.scale(self.var(PI), 2)):
                    # whole turns do not matter
                    q = self.addp({n: d for n, d in p.items() if n != m}, self.scale(self.unkey(k[2][0]), c))
                    return self.trig(op, q)
        if len(p) > 1:
            items = sorted(p.items())
            if len(items) > 4:
                s = self.sign_of(p)
                t = self.var(('fn', op, (self.key(self.scale(p, s)),), None))
                return t if op == 'cos' else self.scale(t, s)
            a, b = dict([items[0]]), dict(items[1:])
            sa, ca, sb, cb = self.trig('sin', a), self.trig('cos', a), self.trig('sin', b), self.trig('cos', b)
            if op == 'sin':
                return self.addp(self.mulp(sa, cb), self.mulp(ca, sb))
            return self.sub(self.mulp(ca, cb), self.mulp(sa, sb))
        (m, c), = p.items()
        if m == ((self.atom(PI), Fr(1)),):
            q = c % 2
            for k, (sn, cs) in {Fr(0): (0, 1), Fr(1, 2): (1, 0), Fr(1): (0, -1), Fr(3, 2): (-1, 0)}.items():
                if q == k:
                    return self.const(sn if op == 'sin' else cs)
        if c < 0:
            t = self.trig(op, {m: -c})
            return t if op == 'cos' else self.scale(t, -1)
        if c.denominator == 1 and 2 <= c <= 4:
            a, b = {m: Fr(1)}, {m: c - 1}
            sa, ca, sb, cb = self.trig('sin', a), self.trig('cos', a), self.trig('sin', b), self.trig('cos', b)
            if op == 'sin':
                return self.addp(self.mulp(sa, cb), self.mulp(ca, sb))
            return self.sub(self.mulp(ca, cb), self.mulp(sa, sb))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            k = self.info[m[0][0]]
            if k[0] == 'fn' and k[1] == 'arcsin':
                u = self.unkey(k[2][0])
                return u if op == 'sin' else self.power(self.sub(self.const(1), self.mulp(u, u)), Fr(1, 2))
            if k[0] == 'fn' and k[1] == 'arctan2' and any(k[2]):
                y, x = self.unkey(k[2][0]), self.unkey(k[2][1])
                r = self.power(self.addp(self.mulp(y, y), self.mulp(x, x)), Fr(-1, 2))
                return self.mulp(y if op == 'sin' else x, r)
            if k[0] == 'fn' and k[1] == 'arctan':
                y = self.unkey(k[2][0])
                r = self.power(self.addp(self.mulp(y, y), self.const(1)), Fr(-1, 2))
                return self.mulp(y, r) if op == 'sin' else r
        return self.var(('fn', op, (self.key(p),), None))

    # ------------------------------------------------------------ terms
    def leaf(self, s):
        name, ix = s.attr
        ix = tuple(i for i in ix if i not in (0,) or True)
        if (name, ix) in self.subst:
            return self.subst[(name, ix)]
        if name in self.below_one:
            return self.sub(self.const(1), self.var(('leaf', '1-' + name, ix)))
        if name in self.ident and len(ix) == 2 and all(isinstance(i, int) for i in ix):
            return self.const(1 if ix[0] == ix[1] else 0)
        if name in self.unit:
            # last axis is the position axis; only a running column of a reduction matters
            ix = ix[:1] + tuple(i for i in ix[1:] if str(i)[:1] == '#')
        return self.var(('leaf', name, ix))

    def nf(self, s):
        """normal form; polynomials of more than `cut` terms are given a name"""
        for x in sc.topo(s):
            if x.id not in self.memo:
                p = self.cancel(self.step(x))
                if self.cut is not None and len(p) > self.cut:
                    k = p[max(p)]
                    p = {((self.atom(('cut', self.key(self.scale(p, 1 / k)))), Fr(1)),): k}
                    self.was_cut = True
                self.memo[x.id] = p
        return self.memo[s.id]

    def step(self, x):
        op = x.op
        if op == 'leaf':
            return self.leaf(x)
        if op == 'const':
            v = x.attr
            if v == 'nan':
                return self.var(('nan',))
            if isinstance(v, tuple):
                return self.var(('bool', v[1])) if v[1] in (True, False) else self.var(('konst',) + v)
            if isinstance(v, str):
                return self.var(('str', v))
            if isinstance(v, bool):
                return self.var(('bool', v))
            if isinstance(v, float):
                if math.isinf(v):
                    return self.var(('inf', v > 0))
                q = frac(v / math.pi)
                if v and q.denominator <= 360 and abs(q.numerator) <= 3600 and abs(float(q) * math.pi - v) <= 4e-16 * abs(v):
                    return self.scale(self.var(PI), q)
            return self.const(v)
        if op == 'add':
            c0, cs = x.attr
            out = self.number(c0)
            ps = [self.mulp(self.number(c), self.memo[a.id]) for c, a in zip(cs, x.args)]
            return self.addp(out, *ps)
        if op == 'mul':
            k, es = x.attr
            out = self.number(k)
            for e, a in zip(es, x.args):
                if not isinstance(e, (int, Fr)):
                    e = frac(e)
                out = self.mulp(out, self.power(self.memo[a.id], e))
            return out
        if op == 'where':
            c, a, b = [self.memo[y.id] for y in x.args]
            if a == b:
                return a
            return self.var(('fn', 'where', (self.key(c), self.key(a), self.key(b)), None))
        if op == 'clip' and False:
            pass
        return self.fn(op, [self.memo[a.id] for a in x.args], x.attr)

    def number(self, v):
        if isinstance(v, float) and v and math.isfinite(v):
            q = frac(v / math.pi)
            if q.denominator <= 360 and abs(q.numerator) <= 3600 and abs(float(q) * math.pi - v) <= 4e-16 * abs(v):
                return self.scale(self.var(PI), q)
        if isinstance(v, float) and not math.isfinite(v):
            return self.var(('inf', v > 0)) if v == v else self.var(('nan',))
        return self.const(v)

    # ------------------------------------------------------------ zero test
    def clear(self, p, unfold=True):
        """multiply by the negative powers of polynomial atoms; replace names by what they stand for,
        the most recent first"""
        for _ in range(400):
            low = {}
            for m in p:
                for x, e in m:
                    if e < 0 and self.info[x][0] in ('pow', 'cut'):
                        low[x] = min(low.get(x, 0), e)
            if low:
                x = max(low)
                f = ((x, -low[x]),)
                p = self.reduce({self.mono_mul(m, f): c for m, c in p.items()})
                continue
            named = [x for m in p for x, e in m if e >= 1 and self.info[x][0] == 'cut']
            if not named or not unfold:
                return p
            x = max(named)
            body = self.unkey(self.info[x][1])
            out, powers = {}, {}
            for m, c in p.items():
                e = dict(m).get(x, Fr(0))
                k = e.numerator // e.denominator
                if k < 1:
                    out = self.addp(out, {m: c})
                    continue
                if k not in powers:
                    powers[k] = self.power(body, k)
                rest = self.mono_mul(m, ((x, Fr(-k)),))
                out = self.addp(out, self.mulp({rest: c}, powers[k]))
                if len(out) > LIMIT:
                    raise TooBig()
            p = out
        raise TooBig()

    def is_zero(self, p):
        if not p:
            return True
        return not self.clear(p)

    def same(self, a, b):
        if a == b:
            return True
        return self.is_zero(self.sub(a, b))

    def show(self, p, n=6):
        if not p:
            return '0'
        out = []
        for m, c in sorted(p.items())[:n]:
            t = '*'.join([str(c)] * (c != 1 or not m) + [self.show_atom(x) + ('' if e == 1 else '^%s' % e) for x, e in m])
            out.append(t)
        return ' + '.join(out) + (' + ..(%d terms)' % len(p) if len(p) > n else '')

    def show_atom(self, x):
        k = self.info[x]
        if k[0] == 'leaf':
            return k[1] + (str(list(k[2])) if k[2] else '')
        if k[0] == 'pow':
            return '(%s)' % self.show(dict(k[1]), 4)
        if k[0] == 'fn':
            return '%s(%s)' % (k[1], ', '.join(self.show(dict(q), 3) for q in k[2]))
        return str(k)


    # ------------------------------------------------------------ separation
    def value(self, p, env, memo):
        """(value, size of the terms) of a polynomial at a point of the atoms' domain"""
        v, size = dm.D(0), dm.D(0)
        for m, c in p.items():
            t = dm.ratio(c)
            for x, e in m:
                t *= dm.power(self.atom_value(x, env, memo), e)
            if not t.is_finite():
                raise ValueError('not a number')
            v += t
            size += abs(t)
        return v, size

    def atom_value(self, x, env, memo):
        if x in memo:
            return memo[x]
        k = self.info[x]
        val = lambda q: self.value(dict(q), env, memo)[0]
        if k[0] == 'pi':
            v = dm.PI
        elif k[0] == 'rpow':
            v = dm.ratio(k[1])
        elif k[0] == 'leaf':
            v = env.leaf(self, k[1], k[2])
        elif k[0] in ('pow', 'cut'):
            v = val(k[1])
        elif k[0] == 'fn' and k[1] == 'clip' and k[3] and len(k[2]) == 1:
            v = min(max(val(k[2][0]), dm.ratio(k[3][0])), dm.ratio(k[3][1]))
        elif k[0] == 'bool':
            v = dm.D(int(k[1]))
        elif k[0] == 'fn' and k[1] in dm.FUNCTIONS:
            v = dm.FUNCTIONS[k[1]](*[val(q) for q in k[2]])
        elif k[0] == 'fn' and is_geodesic(k[1], k[3], k[2]):
            v = dm.geodesic(k[3], [val(q) for q in k[2]])
        elif k[0] == 'fn' and k[1] == 'over' and reducible_over(k[3]):
            def body(e):
                m = {}
                v = self.value(dict(k[2][0]), e, m)[0]
                EVALUATIONS[0] += len(m)
                return v
            v = env.over(k[3], body)
        elif k[0] == 'fn':
            # any function of these arguments
            import zlib
            w = dm.D(zlib.crc32(repr((k[1], k[3])).encode()) % 1000) / 159
            v = dm.sin(w + sum((dm.D(i) + dm.D('1.3')) * val(q) for i, q in enumerate(k[2])))
        else:
            raise KeyError(k[0])
        memo[x] = v
        return v


COLUMNS = (3, 5000, 2, 10 ** 7)      # numbers of columns


def reducible_over(attr):
    return attr and attr[0] in ('sum', 'prod', 'max', 'min', 'any', 'all', 'median') and len(attr[1]) == 1 and isinstance(attr[1][0], str)


THRESHOLD = ('lt', 'le', 'maximum', 'minimum', 'clip')


def landmarks(A, terms=()):
    """sizes that the terms compare something with"""
    out = set()
    for k in A.info:
        if k[0] == 'fn' and k[1] in THRESHOLD:
            for q in k[2]:
                d = dict(q)
                c = d.pop((), 0)
                if c:
                    out.update(abs(float(c / e)) for m, e in d.items() if len(m) == 1)
                    out.add(abs(float(c)))
    for x in sc.topo(*terms):
        if x.op in THRESHOLD:
            for y in x.args:
                if y.op == 'const' and isinstance(y.attr, (int, float, Fr)):
                    out.add(abs(float(y.attr)))
                elif y.op == 'add' and not isinstance(y.attr[0], str):
                    out.update(abs(float(y.attr[0]) / float(c)) for c in y.attr[1])
    A.landmarks = sorted(v for v in out if 1e-12 < v < 1e12)
    A.small = sorted(v for v in out if 1e-18 < v < 1e-3)


class Point(object):
    """a point of the parameter space that satisfies the known constraints (unit length, signs, ranges)

    k: number of the point; near: many inputs of a kind coincide almost; jitter: number of a tiny displacement
    """

    def __init__(self, k, near=False, jitter=0):
        self.k, self.near, self.jitter = k, near, jitter
        self.kind = k % 4            # 1: small values, 2: angles of more than half a turn, 3: all orders of magnitude
        self.many = COLUMNS[k // 4 % len(COLUMNS)]
        self.seen, self.columns, self.small = {}, {}, None
        # inputs near special places: 1: axes and whole quarter turns, 2: at right angles or opposite to each other
        self.place = 0 if near else k // 4 % 3
        if k >= 1000:               # 3: all directions in one plane, almost
            self.place = k // 4 % 4
        # near: how many inputs coincide, and how many of those are displaced
        self.share, self.moved = ((0.6, 0.5), (0.97, 0.15))[k // 2 % 2]
        if k >= 1000 and k % 5 > 1:
            self.moved = 0.07
        # sorts: inputs of some sorts (latitudes, depths, ...) coincide exactly, those of other sorts are unrelated
        self.sorts = near and k >= 1000 and k % 6 == 3

    def rng(self, *key):
        import random
        import zlib
        return random.Random(zlib.crc32(repr(key).encode()) * 4096 + self.k)

    def over(self, attr, body):
        """a reduction over the columns: three different ones, the others are like the current one"""
        name, (dim,) = attr
        n = min(self.many, 3)
        vals = []
        for j in range(n):
            env = copy.copy(self)
            env.columns = dict(self.columns)
            env.columns['#0'] = '@' + dim if j == 0 else '~%d' % j
            vals.append(body(env))
        first = self.many - n + 1
        if name == 'sum':
            return first * vals[0] + sum(vals[1:])
        if name == 'prod':
            v = dm.power(vals[0], Fr(first))
            for w in vals[1:]:
                v *= w
            return v
        if name == 'median':
            at = sorted([(v, 1) for v in vals[1:]] + [(vals[0], first)])
            return (self.ranked(at, (self.many - 1) // 2) + self.ranked(at, self.many // 2)) / 2
        if name in ('any', 'all'):
            return dm.D(int((any if name == 'any' else all)(bool(v) for v in vals)))
        return (max if name == 'max' else min)(vals)

    def ranked(self, values, k):
        for v, n in values:
            if k < n:
                return v
            k -= n

    def leaf(self, A, name, ix):
        if name[:4] == 'dim:':
            return dm.D(self.many)
        vec = name in A.unit or name in A.orth
        if self.columns:
            ix = tuple(self.columns.get(i, i) for i in ix)
        if name in A.unit:
            key = (name, tuple(i for i in ix[1:] if str(i)[:1] == '~'))
        else:
            key = (name, ix[-1:] if name in A.orth and len(ix) > 2 else ()) if vec else (name, ix)
        if key not in self.seen:
            if self.small is None:
                self.small = A.small + [float(self.number(A, nm, (nm, ()))) for nm in A.tolerance]
            self.seen[key] = self.axes_of(key) if vec else self.number(A, name, key)
        m = self.seen[key]
        if not vec:
            return m
        return m[0][ix[0]] if name in A.unit else m[ix[1]][ix[0]]

    def nudge(self, rnd):
        if rnd.random() >= self.moved:
            return 0
        size = 10 ** rnd.uniform(-15.5, -3.0)
        if self.small and self.k // 8 % 2:
            size = rnd.choice(self.small) * 10 ** rnd.uniform(-0.5, 0.5)
        return rnd.choice((1, -1)) * size

    def close(self, name, rnd):
        """does an input coincide almost with others?"""
        u = rnd.random()
        if self.sorts:
            return self.rng('sort', name.rsplit('_', 1)[0]).random() < 0.5 and u < 0.97
        return self.near and u < self.share

    def base(self, key, *kind):
        """what inputs that coincide almost coincide with: the same in a column"""
        return self.rng(*kind + tuple(i for i in key[1] if str(i)[:1] == '~'))

    def slight(self, rnd):
        return 10 ** (rnd.uniform(-9.0, -5.0) if rnd.random() < 0.25 else rnd.uniform(-5.0, -0.5))

    def special(self, rnd):
        """a direction in which something special may happen"""
        if self.place == 1:
            i, s = rnd.randrange(3), rnd.choice((1, -1))
            return [s * (i == j) for j in range(3)]
        base = self.rng('corner')
        v, w = ([base.gauss(0, 1) for _ in range(3)] for _ in range(2))
        u = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
        v, w, u = ([a / math.sqrt(sum(b * b for b in y)) for a in y] for y in (v, w, u))
        s = rnd.choice((1, 1, -1))
        return [s * a for a in rnd.choice((v, w, u))]

    def axes_of(self, key):
        """three orthonormal vectors"""
        rnd = self.rng('vec', key)
        eps = 0
        if self.place == 3:
            base, angle = self.rng('corner'), rnd.uniform(-1.2, 1.2) if self.k // 16 % 2 else rnd.uniform(-3.2, 3.2)
            v, w = ([base.gauss(0, 1) for _ in range(3)] for _ in range(2))
            u = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
            eps = self.nudge(rnd)
            v = [a + angle * b + eps * c for a, b, c in zip(v, w, u)]
            w = [rnd.gauss(0, 1) for _ in range(3)]
        elif self.close(key[0], rnd) if self.near else False:
            eps = 0 if self.sorts else self.nudge(rnd)
            base = self.base(key, 'base')
            v, w = ([base.gauss(0, 1) for _ in range(3)] for _ in range(2))
            v, w = ([a + eps * rnd.gauss(0, 1) for a in y] for y in (v, w))
        else:
            v, w = ([rnd.gauss(0, 1) for _ in range(3)] for _ in range(2))
            if self.place and rnd.random() < (0.5, 0.9)[self.place - 1]:
                eps = self.slight(rnd)
                y = self.special(rnd)
                v = [a + eps * b for a, b in zip(y, v)]
        v, w = ([dm.D(a) for a in y] for y in (v, w))
        if self.jitter:
            j = self.rng('jitter', key, self.jitter)
            v, w = ([a + dm.D(j.gauss(0, 1)) * dm.D('1e-20') for a in y] for y in (v, w))
        n = sum(a * a for a in v).sqrt()
        v = [a / n for a in v]
        d = sum(a * b for a, b in zip(v, w))
        w = [b - d * a for a, b in zip(v, w)]
        n = sum(a * a for a in w).sqrt()
        w = [a / n for a in w]
        u = [v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]]
        return v, w, u

    def number(self, A, name, key):
        rnd = self.rng(key)
        if name[:1] == '@':          # a change of unit
            return dm.D(10 ** rnd.uniform(-9.0, 9.0))
        if name in A.tolerance:
            return dm.D(10 ** rnd.uniform(-14.0, 0.5 if self.k % 7 < 3 else -8.0) if self.k % 3 else rnd.uniform(0.5, 2.0))
        kind = 'half' if name in A.half else 'acute' if name in A.acute else '1-' if name[:2] == '1-' else \
            'positive' if name in A.positive else 'any'
        close = self.close(name, rnd) if self.near else False
        v = self.draw(kind, self.base(key, kind) if close else rnd)
        if close:
            v *= 1 + (0 if self.sorts else self.nudge(rnd))
            if kind == 'any' and rnd.random() < 0.2:
                v = -v
        v = dm.D(v)
        if A.landmarks and kind in ('any', 'positive') and self.k % 3 == 2 and not close and rnd.random() < 0.4:
            v = dm.D(rnd.choice(A.landmarks) * 10 ** rnd.uniform(-0.3, 1.0))
            if kind == 'any' and rnd.random() < 0.5:
                v = -v
        if self.place == 1 and kind in ('acute', 'any') and rnd.random() < 0.5:
            v = rnd.choice((0, 1, -1, 2, -2)) if kind == 'any' else rnd.choice((0, 1, -1))
            e = self.slight(rnd)
            v = (v * dm.PI / 2 + dm.D(rnd.choice((e, -e)) if kind == 'any' or not v else -v * e))
            if kind == 'any' and rnd.random() < 0.3:
                v *= 180 / dm.PI
        if self.jitter:
            v *= 1 + dm.D(self.rng('jitter', key, self.jitter).gauss(0, 1)) * dm.D('1e-20')
        return v

    def draw(self, kind, rnd):
        u = rnd.uniform
        if kind == 'half':
            return u(0.1, 3.0)
        if kind == 'acute':
            return u(-1.5, 1.5)
        if kind == '1-':
            return u(0.7, 0.99)
        if kind == 'positive':
            return 10 ** u(-1.0, 1.0) if self.kind == 3 else u(0.5, 2.0)
        if self.kind == 3:
            return u(-1.0, 1.0) * 10 ** u(-2.0, 1.0)
        w = (3.0, 0.6, 8.0)[self.kind]
        return u(-w, w)


NO_VALUE = (ValueError, ZeroDivisionError, OverflowError, TypeError, ArithmeticError)


def satisfies(A, facts, k, near=False):
    """does the point lie on the branch?  (tests that cannot be evaluated are free)"""
    for c, v in facts:
        try:
            if bool(evaluate(A, c, Point(k, near))) != v:
                return False
        except KeyError:
            pass
        except NO_VALUE:
            return False
    return True


VERDICTS = ('lt', 'le', 'eq', 'ne', 'and', 'or', 'not')


def is_geodesic(op, attr, args):
    return op == 'ext' and attr[0] in ('Inverse', 'Direct') and len(args) == 6


def is_verdict(op, attr):
    return op in VERDICTS + ('isclose', 'closeto') or (op == 'over' and attr and attr[0] in ('any', 'all'))


EVALUATIONS = [0, 4000]      # evaluated atoms (thousands) of a run, and their bound


def separated(A, p, sides=(), points=60, turns=False, facts=()):
    """is there a point at which the residual p of an identity is not zero?  None when no point can be judged

    sides: the two sides of the identity; a difference below their rounding does not count
    turns: whole turns (in radians or degrees) do not count either
    facts: the tests that hold (or not) on the branch
    """
    verdict = any(A.info[x][0] == 'fn' and is_verdict(A.info[x][1], A.info[x][3]) for m in p for x, _e in m)
    if verdict:
        points = 8 * points         # most points are not on any path
    spent = 0
    start = EVALUATIONS[0]
    landmarks(A, [c for c, _v in facts])
    with dm.decimal.localcontext(dm.CTX):
        judged = 0
        for k in range(points if not facts else 10 * points):
            if judged == points or spent + EVALUATIONS[0] - start > 400000 or EVALUATIONS[0] > 1000 * EVALUATIONS[1]:
                break
            near = verdict and k % 2 == 1
            if not satisfies(A, facts, k, near):
                spent += 100
                continue
            memo = {}
            try:
                v, size = A.value(p, Point(k, near), memo)
            except KeyError:
                return None
            except NO_VALUE:
                continue
            finally:
                spent += len(memo) + len(p)
                EVALUATIONS[0] += len(memo) + len(p)
            judged += 1
            limit = 1e-9
            if sides:
                try:
                    limit = max([abs(A.value(q, Point(k, near), {})[0]) for q in sides] + [1e-6]) * dm.D('1e-13')
                except NO_VALUE + (KeyError,):
                    pass
            if turns and any(abs(v / u - round(v / u)) < 1e-9 for u in (2 * dm.PI, dm.D(360))):
                continue
            if abs(v) > dm.D('1e-13') * size and abs(v) > limit:
                if not verdict or stays(A, p, k, near, v):
                    return True
        return False if judged or facts else None


def terms_separated(A, s, t, turns=False, facts=(), points=60):
    """the same for two terms as they stand; True or None"""
    verdict = is_verdict(s.op, s.attr) or is_verdict(t.op, t.attr)
    size = len(sc.topo(s, t))
    spent = 0
    landmarks(A, [s, t] + [c for c, _v in facts])

    def gap(k, near, j):
        v, w = evaluate(A, s, Point(k, near, j)), evaluate(A, t, Point(k, near, j))
        d = abs(dm.D(v) - dm.D(w))
        if turns and any(abs(d / u - round(d / u)) < 1e-9 for u in (2 * dm.PI, dm.D(360))):
            return False
        return d > dm.D('1e-12') * max(abs(dm.D(v)), abs(dm.D(w)), dm.D('1e-3'))
    with dm.decimal.localcontext(dm.CTX):
        start = EVALUATIONS[0]
        for k in range(points * (8 if verdict or facts else 1)):
            spent += size
            if spent + EVALUATIONS[0] - start > 400000 or EVALUATIONS[0] > 1000 * EVALUATIONS[1]:
                break
            near = verdict and k % 2 == 1
            try:
                if satisfies(A, facts, k, near) and all(gap(k, near, j) for j in range(4)):
                    return True
            except KeyError:
                return None
            except NO_VALUE:
                continue
        for k, near in candidates(A, s, t, turns, facts, verdict):
            try:
                if satisfies(A, facts, k, near) and all(gap(k, near, j) for j in range(4)):
                    return True
            except NO_VALUE + (KeyError,):
                continue
    return None


SEARCH = [0.0, 60.0, 4.0, 12000]    # seconds of a run, their bound, and the bounds of one search (seconds and points)


def candidates(A, s, t, turns, facts, verdict):
    """points at which two terms seem to differ, judged in floats"""
    known = []
    for c, v in facts:
        try:
            floatcode.Program(A, [c], reducible_over)
            known.append((c, v))
        except (KeyError, SyntaxError, RecursionError, MemoryError, OverflowError):
            pass

    def differ(v):
        if any(bool(x) != want for x, (_c, want) in zip(v[2:], known)):
            return False
        d = abs(v[0] - v[1])
        if turns and any(abs(d / u - round(d / u)) < 1e-9 for u in (2 * math.pi, 360) if d < 1e300):
            return False
        return d > 1e-9 * max(abs(v[0]), abs(v[1]), 1e-3)
    return search(A, [s, t] + [c for c, _v in known], differ, verdict or bool(facts))


def search(A, terms, test, near, start=1000, most=12):
    """points at which the values of some terms, in floats, pass a test"""
    try:
        run = floatcode.Program(A, terms, reducible_over).run
    except (KeyError, SyntaxError, RecursionError, MemoryError, OverflowError):
        return
    t0, found = time.perf_counter(), 0
    for k in range(start, start + SEARCH[3]):
        if found == most or time.perf_counter() - t0 > SEARCH[2] or SEARCH[0] > SEARCH[1]:
            break
        close = near and k % 2 == 1
        try:
            if not test(run(Point(k, close))):
                continue
        except NO_VALUE + (KeyError,):
            continue
        found += 1
        yield k, close
    SEARCH[0] += time.perf_counter() - t0


def stays(A, p, k, near, v):
    """a verdict differs at all points close by (and not only on the boundary of a test)"""
    for j in range(1, 5):
        try:
            if abs(A.value(p, Point(k, near, j), {})[0] - v) > 1e-9:
                return False
        except NO_VALUE + (KeyError,):
            return False
    return True


def evaluate(A, t, env):
    """the value of a term at a point; KeyError when it contains something that is not known"""
    memo = {}
    order = sc.topo(t)
    EVALUATIONS[0] += len(order)
    for x in order:
        a = [memo[y.id] for y in x.args]
        if any(v is None for v in a) and x.op != 'where':
            memo[x.id] = None
            continue
        try:
            memo[x.id] = evaluate_step(A, x, a, env)
        except NO_VALUE:
            memo[x.id] = None
    if memo[t.id] is None:
        raise ValueError('no value')
    return memo[t.id]


def evaluate_step(A, x, a, env):
    op = x.op
    if op == 'const':
        v = x.attr
        if isinstance(v, tuple):
            v = v[1]
        if isinstance(v, str) or v is None:
            raise KeyError(v)
        return dm.D(int(v)) if isinstance(v, bool) else dm.ratio(v)
    if op == 'leaf':
        name, ix = x.attr
        if name == 'rad/deg':
            return dm.PI / 180
        if name == 'pi':
            return dm.PI
        if name in A.below_one:
            return 1 - env.leaf(A, '1-' + name, ix)
        if name in A.ident and len(ix) == 2:
            return dm.D(1 if ix[0] == ix[1] else 0)
        return env.leaf(A, name, ix)
    if op == 'add':
        c0, cs = x.attr
        v = dm.ratio(c0)
        for c, y in zip(cs, a):
            v += dm.ratio(c) * y
        return v
    if op == 'mul':
        k, es = x.attr
        v = dm.ratio(k)
        for e, y in zip(es, a):
            v *= dm.power(y, e if isinstance(e, Fr) else Fr(e))
        return v
    if op == 'where':
        if a[0] is None:
            return None
        return a[1] if a[0] else a[2]
    if op == 'over' and reducible_over(x.attr):
        return env.over(x.attr, lambda e: evaluate(A, x.args[0], e))
    if op == 'square':
        return a[0] * a[0]
    if op == 'clip':
        if len(a) == 3:
            return min(max(a[0], a[1]), a[2])
        v = a[0]
        if x.attr[0] is not None:
            v = max(v, dm.ratio(x.attr[0]))
        if x.attr[1] is not None:
            v = min(v, dm.ratio(x.attr[1]))
        return v
    if op == 'arccos':
        return dm.PI / 2 - dm.arcsin(a[0])
    if is_geodesic(op, x.attr, a):
        return dm.geodesic(x.attr, a)
    return dm.FUNCTIONS[op](*a)


# ---------------------------------------------------------------- control
def atomic_conds(c):
    """the tests a condition is made of"""
    if c.op in ('and', 'or', 'not'):
        for a in c.args:
            for x in atomic_conds(a):
                yield x
    elif c.op != 'const':
        yield c


def assume(roots, fixed, generic=None):
    """rebuild the terms with the given tests fixed (id -> bool)"""
    memo = {}
    out = []
    for r in roots:
        for x in sc.topo(r):
            if x.id in memo:
                continue
            if x.id in fixed:
                memo[x.id] = sc.const(fixed[x.id])
                continue
            args = [memo[a.id] for a in x.args]
            y = x if all(a is b for a, b in zip(args, x.args)) else sc.smk(x.op, args, x.attr, x.src)
            if y.id in fixed:
                y = sc.const(fixed[y.id])
            elif generic is not None:
                v = generic(y)
                if v is not None:
                    y = v if not isinstance(v, bool) else sc.const(v)
            memo[x.id] = y
        out.append(memo[r.id])
    return out


def generic_test(y):
    """exact equality of computed quantities is resolved to 'different'; values are numbers"""
    if y.op == 'isnan' or y.op == 'isinf':
        return False
    if y.op == 'isfinite':
        return True
    if y.op in ('eq', 'ne') and any(a.op != 'const' for a in y.args):
        lv = [x for x in sc.leaves(*y.args)]
        if lv and all(numeric_leaf(x) for x in lv):
            return (y.op == 'eq') == (y.args[0] is y.args[1])
    return None


def exact_test(make, cut=14):
    """like generic_test, but comparisons the algebra can decide are decided"""
    memo = {}

    def test(y):
        if y.op not in ('eq', 'ne', 'lt', 'le') or len(y.args) != 2 or not all(numeric_leaf(x) for x in sc.leaves(*y.args)):
            return generic_test(y)
        if y.id not in memo:
            memo[y.id] = None
            A = make(cut)
            A.work = WORK - 60000       # a quick look
            try:
                d = A.clear(A.sub(A.nf(y.args[0]), A.nf(y.args[1])))
                if y.op in ('eq', 'ne'):
                    if not d:
                        memo[y.id] = y.op == 'eq'
                    elif not A.was_cut or set(d) == {()}:
                        memo[y.id] = generic_test(y)
                else:
                    q = A.fn(y.op, [d, {}])
                    for v in (True, False):
                        if q == A.var(('bool', v)):
                            memo[y.id] = v
            except TooBig:
                pass
            TOTAL[0] += A.work - WORK + 60000
            if memo[y.id] is None:
                memo[y.id] = generic_test(y)
        return memo[y.id]
    return test


def numeric_leaf(x):
    n = x.attr[0]
    return not n.startswith('axes') and not n.startswith('i:')


def paths(roots, limit=64, generic=generic_test):
    """every combination of outcomes of the tests that select values: [([(test, outcome)], terms)]"""
    todo = [((), assume(roots, {}, generic))]
    out = []
    while todo:
        facts, ts = todo.pop()
        c = None
        for x in sc.topo(*ts):
            if x.op == 'where':
                c = next(iter(atomic_conds(x.args[0])), None)
                if c is not None:
                    break
        if c is None:
            out.append((facts, ts))
            if len(out) > limit:
                raise TooBig()
            continue
        for v in (True, False):
            todo.append((facts + ((c, v),), assume(ts, {c.id: v}, generic)))
    return out


CUTS = (3, 14, 60)


def deepen():
    """larger bounds, for a thorough run"""
    global CUTS, WORK, LIMIT
    CUTS = CUTS + (240,)
    WORK, LIMIT = 4 * WORK, 2 * LIMIT
    TOTAL[1] *= 5
    EVALUATIONS[1] *= 5
    SEARCH[1:] = [240.0, 20.0, 100000]


def unify_tests(roots, make, cuts=CUTS):
    """rewrite comparisons that are the same (or opposite) after normalisation into one test"""
    conds, seen = [], set()
    for x in sc.topo(*roots):
        if x.op == 'where':
            for c in atomic_conds(x.args[0]):
                if c.op in ('lt', 'le') and len(c.args) == 2 and c.id not in seen:
                    seen.add(c.id)
                    conds.append(c)
    if len(conds) < 2:
        return roots
    same = {}
    for cut in cuts:
        A, first = make(cut), {}
        for c in conds:
            if c.id in same:
                continue
            try:
                d = A.strip_pos(A.sub(A.nf(c.args[0]), A.nf(c.args[1])))
            except TooBig:
                break
            k, n = A.key(d), A.key(A.scale(d, -1))
            if k in first:
                same[c.id] = (first[k], True)
            elif n in first:
                same[c.id] = (first[n], False)
            else:
                first[k] = c
        TOTAL[0] += A.work
    if not same:
        return roots

    def find(c):
        pos = True
        while c.id in same:
            c, p = same[c.id]
            pos = pos == p
        return c, pos
    memo = {}
    out = []
    for r in roots:
        for x in sc.topo(r):
            if x.id in memo:
                continue
            if x.id in same:
                c, pos = find(x)
                # generic: the compared quantities differ
                memo[x.id] = c if pos else sc.smk('not', [c], None, x.src)
                continue
            args = [memo[a.id] for a in x.args]
            memo[x.id] = x if all(a is b for a, b in zip(args, x.args)) else sc.smk(x.op, args, x.attr, x.src)
        out.append(memo[r.id])
    return out


def show_term(s, t):
    return 'the values of the two terms (%s, %s)' % (s.op, t.op)


def prove(make, goal, cuts=None, sides=None, facts=(), terms=None, turns=False):
    """goal(algebra) -> polynomial that should vanish.

    Returns ('holds', None), ('fails', polynomial text) or ('unknown', reason).  The goal is first
    tried with large subterms named (sound for 'holds').  'fails' is only reported when the normal
    forms differ and a point on the branch, satisfying what is known about the inputs, tells them apart.
    """
    why = 'terms too large'
    named = []
    cuts = cuts or CUTS
    for cut in cuts:
        if TOTAL[0] > TOTAL[1]:
            return 'unknown', 'the work limit of the run is used up'
        A = make(cut)
        try:
            p = goal(A)
            ps = p if isinstance(p, list) else [p]
            rest = [q for q in ps if not A.is_zero(q)]
            if not rest:
                return 'holds', None
            if not A.was_cut:
                if all(separated(A, q, sides(A) if sides else (), facts=facts) is False for q in rest):
                    if terms is not None and terms_separated(make(None), terms[0], terms[1], turns, facts):
                        return 'fails', A.show(A.clear(rest[0]))
                    return 'unknown', 'normal forms differ, no separating point: %s' % A.show(A.clear(rest[0]))
                return 'fails', A.show(A.clear(rest[0]))
            why = 'normal forms differ with subterms named'
            named.append((A, rest))
        except TooBig:
            why = 'terms too large'
        finally:
            TOTAL[0] += A.work
        if terms is not None and cut == cuts[0] and terms_separated(make(None), terms[0], terms[1], turns, facts):
            return 'fails', A.show(rest[0]) if named else show_term(terms[0], terms[1])
    for A, rest in named:
        try:
            if any(separated(A, q, sides(A) if sides else (), facts=facts) for q in rest):
                return 'fails', A.show(rest[0])
        except TooBig:
            pass
    return 'unknown', why
