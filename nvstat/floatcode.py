"""Fast evaluation of terms in floats: finds the points that are worth judging beyond rounding."""
import math

from . import decmath as dm
from . import scalar as sc

NAN = float('nan')


def guarded(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, ZeroDivisionError, OverflowError, TypeError, ArithmeticError):
            return NAN
    return g


def power(b, e):
    if b < 0 and e != int(e):
        return NAN
    try:
        return b ** e
    except (ZeroDivisionError, OverflowError):
        return NAN


def slow(f):
    def g(*a):
        for x in a:
            if x != x or x in (math.inf, -math.inf):
                return NAN
        return float(f(*[dm.D(x) for x in a]))
    return guarded(g)


FAST = {'sin': math.sin, 'cos': math.cos, 'arctan': math.atan, 'arctan2': math.atan2, 'arcsin': math.asin, 'arccos': math.acos, 'sqrt': math.sqrt, 'abs': abs,
        'exp': math.exp, 'log': math.log, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'tan': math.tan, 'hypot': math.hypot,
        'lt': lambda a, b=0: float(a < b), 'le': lambda a, b=0: float(a <= b), 'maximum': lambda *a: max(a), 'minimum': lambda *a: min(a),
        'mod': lambda a, b: a % b, 'fmod': math.fmod, 'floor': math.floor, 'ceil': math.ceil, 'not': lambda a: float(not a),
        'and': lambda *a: float(all(a)), 'or': lambda *a: float(any(a)), 'eq': lambda a, b=0: float(a == b), 'ne': lambda a, b=0: float(a != b),
        'square': lambda a: a * a, 'sign': lambda v: float((v > 0) - (v < 0)), 'isnan': lambda v: 0.0, 'isinf': lambda v: 0.0, 'isfinite': lambda v: 1.0,
        'isclose': lambda a, b, r, t, *e: float(abs(a - b) <= t + r * abs(b)),
        'closeto': lambda a, b, r, t: float(abs(a - b) <= max(t, r * max(abs(a), abs(b)))),
        'copysign': math.copysign, 'trunc': math.trunc, 'rint': round}


class Program(object):
    """python code for some terms; KeyError when they contain something that has no value"""

    def __init__(self, A, roots, reducible):
        self.A, self.reducible, self.n = A, reducible, 0
        self.env = {'nan': NAN, 'power': power}
        self.run = self.function(roots)

    def bind(self, v):
        self.n += 1
        name = 'c%d' % self.n
        self.env[name] = v
        return name

    def function(self, roots):
        A = self.A
        names, lines = {}, []
        order = sc.topo(*roots)
        for x in order:
            names[x.id] = 'v%d' % len(names)
            lines.append('    %s = %s' % (names[x.id], self.step(x, [names[y.id] for y in x.args])))
        code = 'def body(L):\n%s\n    return (%s,)\n' % ('\n'.join(lines), ', '.join(names[r.id] for r in roots))
        env = dict(self.env)
        exec(compile(code, '<terms>', 'exec'), env)
        return env['body']

    def leaf(self, name, ix):
        A = self.A

        def read(L):
            return float(L.leaf(A, name, ix))
        return '%s(L)' % self.bind(read)

    def step(self, x, a):
        A, op = self.A, x.op
        if op == 'const':
            v = x.attr
            if isinstance(v, tuple):
                v = v[1]
            if isinstance(v, str) or v is None:
                raise KeyError(v)
            return self.bind(float(v))
        if op == 'leaf':
            name, ix = x.attr
            if name == 'rad/deg':
                return self.bind(math.pi / 180)
            if name == 'pi':
                return self.bind(math.pi)
            if name in A.below_one:
                return '1 - ' + self.leaf('1-' + name, ix)
            if name in A.ident and len(ix) == 2:
                return '1.0' if ix[0] == ix[1] else '0.0'
            return self.leaf(name, ix)
        if op == 'add':
            c0, cs = x.attr
            return ' + '.join([self.bind(float(c0))] + [y if c == 1 else '%s * %s' % (self.bind(float(c)), y) for c, y in zip(cs, a)])
        if op == 'mul':
            k, es = x.attr
            return ' * '.join([self.bind(float(k))] + [y if e == 1 else '%s * %s' % (y, y) if e == 2 else 'power(%s, %r)' % (y, int(e) if e == int(e) else float(e))
                                                       for e, y in zip(es, a)])
        if op == 'where':
            return '%s if %s else %s' % (a[1], a[0], a[2])
        if op == 'over':
            if not self.reducible(x.attr):
                raise KeyError(op)
            sub, attr = self.function(x.args), x.attr

            def over(L):
                if attr[0] == 'prod':
                    return float(L.over(attr, lambda e: dm.D(sub(e)[0])))
                return float(L.over(attr, lambda e: sub(e)[0]))
            return '%s(L)' % self.bind(guarded(over))
        if op == 'clip':
            if len(a) == 3:
                return 'min(max(%s, %s), %s)' % tuple(a)
            s = a[0]
            if x.attr[0] is not None:
                s = 'max(%s, %s)' % (s, self.bind(float(x.attr[0])))
            if x.attr[1] is not None:
                s = 'min(%s, %s)' % (s, self.bind(float(x.attr[1])))
            return s
        if op == 'ext' and x.attr[0] in ('Inverse', 'Direct') and len(a) == 6:
            return '%s(%s)' % (self.bind(guarded(lambda *v: dm.geodesic(x.attr, v, dm.Floats))), ', '.join(a))
        f = guarded(FAST[op]) if op in FAST else slow(dm.FUNCTIONS[op])
        return '%s(%s)' % (self.bind(f), ', '.join(a))
