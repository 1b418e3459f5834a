"""Hash-consed value graph (global value numbering) with shape inference.

Every array/number that the abstract interpreter meets is a Node.  Nodes are built only
through the constructors below, which put them in a canonical form (operand order, signs,
numeric coefficients, component extraction, axis permutations), so that two program
fragments which compute the same value by a different spelling mostly share one Node.

Dimensions are ints or symbols (strings).  A symbol stands for any extent >= 2, so an
operation that is legal for every extent is accepted and one that would be legal only for
a particular extent is a ShapeErr.
"""
from fractions import Fraction
import math


class ShapeErr(Exception):
    pass


class Node(object):
    __slots__ = ('id', 'op', 'args', 'attr', 'shape', 'loc', 'deps_', 'key')

    def __repr__(self):
        return 'N%d:%s' % (self.id, show(self, 3))


def show(n, depth=4):
    if n.op == 'leaf':
        return n.attr
    if n.op == 'const':
        return cshow(n)
    if depth <= 0:
        return '..'
    if n.op == 'add':
        c, coefs = n.attr
        parts = ['%s%s' % ('' if k == 1 else '%g*' % k, show(a, depth - 1)) for k, a in zip(coefs, n.args)]
        if c:
            parts.append('%g' % c)
        return '(' + ' + '.join(parts) + ')'
    if n.op == 'mul':
        c, exps = n.attr
        parts = ['%s%s' % (show(a, depth - 1), '' if e == 1 else '^%s' % e) for e, a in zip(exps, n.args)]
        if c != 1:
            parts.insert(0, '%g' % c)
        return '*'.join(parts)
    at = '' if n.attr is None else '<%s>' % (str(n.attr)[:60],)
    return '%s%s(%s)' % (n.op, at, ', '.join(show(a, depth - 1) for a in n.args))


def cshow(n):
    d = n.attr
    if d[0] == 'splat':
        return '%r' % (d[1],)
    return 'C%s' % (d[1],)


TABLE = {}
_COUNT = [0]
LOC = [None]


MEMO = {}


def memo(f):
    """remember the result of a pure graph construction"""
    name = f.__name__

    def g_(n, arg):
        try:
            key = (name, n.id, arg if type(arg) is not list else tuple(arg))
            r = MEMO.get(key)
        except TypeError:
            return f(n, arg)
        if r is None:
            r = MEMO[key] = f(n, arg)
        return r
    g_.__name__ = name
    return g_


def reset():
    TABLE.clear()
    MEMO.clear()
    _COUNT[0] = 0


def mk(op, args, attr, shape):
    key = (op, tuple(a.id for a in args), attr, shape)
    n = TABLE.get(key)
    if n is None:
        n = Node()
        n.id = _COUNT[0] = _COUNT[0] + 1
        n.op, n.args, n.attr, n.shape = op, tuple(args), attr, shape
        n.loc = LOC[0]
        n.deps_ = None
        n.key = key
        TABLE[key] = n
    return n


# ---------------------------------------------------------------- dims and shapes
def dim_mul(a, b):
    if a == 1:
        return b
    if b == 1:
        return a
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return '%s*%s' % (a, b)


def shape_size(shape):
    out = 1
    for d in shape:
        out = dim_mul(out, d)
    return out


def bdim(a, b):
    if a == b:
        return a
    if a == 1:
        return b
    if b == 1:
        return a
    raise ShapeErr('operands with extents %s and %s do not broadcast' % (a, b))


def broadcast(*shapes):
    if any(s is None for s in shapes):
        return None
    nd = max(len(s) for s in shapes) if shapes else 0
    out = [1] * nd
    for s in shapes:
        off = nd - len(s)
        for i, d in enumerate(s):
            out[off + i] = bdim(out[off + i], d)
    return tuple(out)


# ---------------------------------------------------------------- leaves and constants
def leaf(name, shape=()):
    return mk('leaf', (), name, tuple(shape))


def _num(v):
    if isinstance(v, bool):
        return v
    if isinstance(v, Fraction):
        return float(v) if v.denominator != 1 else int(v)
    if isinstance(v, float) and v == 0:
        return 0
    if isinstance(v, float) and v == int(v) if isinstance(v, float) and math.isfinite(v) and abs(v) < 1e15 else False:
        return int(v)
    return v


def _nkey(v):
    """hashable form; nan is normalised"""
    if isinstance(v, float) and v != v:
        return 'nan'
    return v


def const(v, shape=()):
    """splat constant"""
    v = _nkey(_num(v)) if not isinstance(v, str) or v == 'nan' else v
    if isinstance(v, bool):
        return mk('const', (), ('splatb', v), tuple(shape))
    return mk('const', (), ('splat', v), tuple(shape))


def cval(n):
    """numeric (or bool/str) value of a splat constant, or None"""
    if n.op == 'const' and n.attr[0] in ('splat', 'splatb'):
        v = n.attr[1]
        return float('nan') if v == 'nan' else v
    return None


def is_const(n):
    return n.op == 'const'


def const_array(flat, shape):
    flat = [_nkey(_num(v)) for v in flat]
    shape = tuple(shape)
    if all(isinstance(d, int) for d in shape) and flat and all(v == flat[0] and isinstance(v, bool) == isinstance(flat[0], bool) for v in flat):
        return const(flat[0] if flat[0] != 'nan' else float('nan'), shape)
    return mk('const', (), ('arr', tuple(flat)), shape)


def const_flat(n):
    """list of values of a const with concrete shape"""
    if n.attr[0] in ('splat', 'splatb'):
        v = cval(n)
        size = shape_size(n.shape)
        if not isinstance(size, int):
            return None
        return [v] * size
    return [float('nan') if v == 'nan' else v for v in n.attr[1]]


def num(x):
    """lift python number"""
    return x if isinstance(x, Node) else const(x)


# ---------------------------------------------------------------- add / mul
def bcast(n, shape):
    """node equal to n but with (bigger) shape"""
    shape = tuple(shape)
    if n.shape == shape:
        return n
    if n.shape is None:
        return mk('bcast', (n,), None, shape)
    res = broadcast(n.shape, shape)
    if res != shape:
        raise ShapeErr('cannot broadcast %s to %s' % (n.shape, shape))
    if n.op == 'const':
        if n.attr[0] in ('splat', 'splatb'):
            return const(cval(n), shape)
        if all(isinstance(d, int) for d in shape):
            return _const_bcast(n, shape)
    if n.op in ('add', 'mul'):
        return mk(n.op, n.args, n.attr, shape)
    if n.op == 'bcast':
        return mk('bcast', n.args, None, shape)
    return mk('bcast', (n,), None, shape)


def _const_bcast(n, shape):
    flat = const_flat(n)
    src = n.shape
    off = len(shape) - len(src)
    out = []
    for idx in _indices(shape):
        k = 0
        for i, d in enumerate(src):
            k = k * d + (0 if d == 1 else idx[off + i])
        out.append(flat[k])
    return const_array(out, shape)


def _indices(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in _indices(shape[1:]):
            yield (i,) + r


def strip_bcast(n):
    while n.op == 'bcast':
        n = n.args[0]
    return n


def strip_arg(n):
    """argument of a broadcasting operator: leading axes of extent one carry no information"""
    n = strip_bcast(n)
    while n.shape and n.shape[0] == 1:
        n = strip_bcast(axes(n, tuple(range(1, len(n.shape)))))
    return n


def _safe(v):
    return not (isinstance(v, float) and not math.isfinite(v))


TINY_LIMIT = 1e-300
ROLL = True


def add(*terms, **kw):
    """sum of (coef, node) pairs or nodes"""
    shape = kw.get('shape')
    items = []
    for t in terms:
        c, n = t if isinstance(t, tuple) else (1, t)
        items.append((c, num(n)))
    if shape is None:
        shape = broadcast(*[n.shape for _c, n in items])
    # constant arrays: fold when every term is constant
    if shape is not None and all(n.op == 'const' for _c, n in items) and all(isinstance(d, int) for d in shape):
        if not all(n.attr[0] != 'arr' for _c, n in items):
            tot = None
            for c, n in items:
                f = [c * v for v in const_flat(bcast(n, shape))]
                tot = f if tot is None else [a + b for a, b in zip(tot, f)]
            return const_array(tot, shape)
    acc = {}
    order = []
    const_part = 0

    def put(c, n):
        nonlocal const_part
        n = strip_arg(n)
        v = cval(n)
        if v is not None and not isinstance(v, str):
            const_part = const_part + c * v
            return
        if n.op == 'add' and _safe(c):
            const_part = const_part + c * n.attr[0]
            for k, a in zip(n.attr[1], n.args):
                put(c * k, a)
            return
        if n.op == 'mul' and n.attr[0] != 1:
            k = n.attr[0]
            put(c * k, mk('mul', n.args, (1, n.attr[1]), n.shape) if not (len(n.args) == 1 and n.attr[1][0] == 1) else _as_shape(n.args[0], n.shape))
            return
        if isinstance(c, float) and degree_factor(c)[1]:
            k, ex = degree_factor(c)
            n = mul((1, n), (ex, leaf('rad/deg')))
            c = k
            if n.op == 'mul' and n.attr[0] != 1:
                c, n = c * n.attr[0], mk('mul', n.args, (1, n.attr[1]), n.shape)
        if n.id in acc:
            acc[n.id] = (acc[n.id][0] + c, n)
        else:
            acc[n.id] = (c, n)
    for c, n in items:
        put(c, n)
    out = [(_num(c), n) for c, n in acc.values() if c != 0]
    out.sort(key=lambda t: t[1].id)
    if isinstance(const_part, float) and const_part != 0 and abs(const_part) < TINY_LIMIT and out:
        # additive underflow guard (smallest normal number): arithmetically absorbed
        const_part = 0
    if not out:
        return const(const_part, shape if shape is not None else ()) if shape is not None else const(const_part)
    if const_part == 0 and len(out) == 1:
        c, n = out[0]
        return mul((1, n), coef=c, shape=shape)
    if len(out) >= 3 and ROLL:
        r = _roll_sum(out)
        if r is not None:
            return add((1, const(const_part)), *r, shape=shape)
    const_part = _nkey(_num(const_part))
    return mk('add', [n for _c, n in out], (const_part, tuple(c for c, _n in out)), shape)


def _as_shape(n, shape):
    return n if n.shape == shape or shape is None else bcast(n, shape)


def _exp(e):
    if isinstance(e, float):
        if e == int(e):
            return int(e)
        fr = Fraction(e).limit_denominator(64)
        if abs(float(fr) - e) < 1e-15:
            return fr
        return e
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


def lead_neg(n):
    """true if n is a sum whose canonical leading coefficient is negative"""
    return n.op == 'add' and n.args and n.attr[1][0] < 0


def mul(*facs, **kw):
    """product of (exponent, node) or nodes"""
    coef = kw.get('coef', 1)
    shape = kw.get('shape')
    items = []
    for t in facs:
        e, n = t if isinstance(t, tuple) else (1, t)
        items.append((_exp(e), num(n)))
    if shape is None:
        shape = broadcast(*[n.shape for _e, n in items])
    if (shape is not None and all(n.op == 'const' for _e, n in items) and all(isinstance(d, int) for d in shape)
            and any(n.attr[0] == 'arr' for _e, n in items)):
        tot = [coef] * shape_size(shape)
        try:
            for e, n in items:
                f = const_flat(bcast(n, shape))
                tot = [a * _pow(v, e) for a, v in zip(tot, f)]
            return const_array(tot, shape)
        except (ZeroDivisionError, ValueError, OverflowError):
            pass
    acc = {}

    def put(e, n):
        nonlocal coef
        n = strip_arg(n)
        v = cval(n)
        if v is not None and not isinstance(v, str):
            try:
                coef = coef * _pow(v, e)
            except (ZeroDivisionError, ValueError, OverflowError):
                n2 = const(v)
                acc[n2.id] = (acc.get(n2.id, (0, n2))[0] + e, n2)
            return
        if n.op == 'mul':
            k, exps = n.attr
            inte = isinstance(e, int)
            if inte:  # integral powers distribute over products
                try:
                    kk = _pow(k, e)
                except (ZeroDivisionError, ValueError, OverflowError):
                    kk = None
                if kk is not None:
                    coef = coef * kk
                    for e2, a in zip(exps, n.args):
                        put(_exp(e2 * e), a)
                    return
            # fractional power of a product: pull out positive numeric coefficient and even powers
            if k > 0 if not isinstance(k, (bool,)) else False:
                try:
                    coef = coef * _pow(k, e)
                    rest = []
                    for e2, a in zip(exps, n.args):
                        if _nonneg(a) or (isinstance(e2, int) and e2 % 2 == 0):
                            if _nonneg(a):
                                put(_exp(e2 * e), a)
                            else:
                                put(_exp(e2 * e), fn('abs', a))
                        else:
                            rest.append((e2, a))
                    if rest:
                        base = mul(*rest)
                        base = strip_arg(base)
                        if base.op == 'mul' and len(base.args) > 1 or base.op != 'mul':
                            acc[base.id] = (_exp(acc.get(base.id, (0, base))[0] + e), base)
                        else:
                            # single base with exponent
                            acc[base.id] = (_exp(acc.get(base.id, (0, base))[0] + e), base)
                    return
                except (ValueError, ZeroDivisionError, OverflowError):
                    pass
        if lead_neg(n) and isinstance(e, int):
            if e % 2:
                coef = -coef
            n = strip_arg(add((-1, n)))
        acc[n.id] = (_exp(acc.get(n.id, (0, n))[0] + e), n)
    for e, n in items:
        put(e, n)
    # abs(x)^2k -> x^2k
    for i in list(acc):
        e, n = acc[i]
        if n.op == 'abs' and isinstance(e, int) and e % 2 == 0 and e:
            del acc[i]
            a = n.args[0]
            acc[a.id] = (_exp(acc.get(a.id, (0, a))[0] + e), a)
    if isinstance(coef, float):
        k, ex = degree_factor(coef)
        if ex:
            coef = k
            n2 = leaf('rad/deg')
            acc[n2.id] = (_exp(acc.get(n2.id, (0, n2))[0] + ex), n2)
    out = [(e, n) for e, n in acc.values() if e != 0]
    coef = _num(coef)
    if coef == 0 and not isinstance(coef, bool):
        return const(0, shape) if shape is not None else const(0)
    out.sort(key=lambda t: (t[1].id, str(t[0])))
    if not out:
        return const(coef, shape if shape is not None else ())
    if len(out) == 1 and out[0][0] == 1:
        n = out[0][1]
        if coef == 1:
            return _as_shape(n, shape)
        if n.op == 'add' and _safe(coef):
            return mk('add', n.args, (_nkey(_num(n.attr[0] * coef)), tuple(_num(c * coef) for c in n.attr[1])), shape)
    if isinstance(coef, float) and coef != coef:
        coef = 'nan'
    if coef == 'nan':
        return const(float('nan'), shape if shape is not None else ())
    return mk('mul', [n for _e, n in out], (coef, tuple(e for e, _n in out)), shape)


def degree_factor(c):
    """(k, +1) if c == k*pi/180, (k, -1) if c == k*180/pi for a simple k"""
    for unit_, ex in ((math.pi / 180, 1), (180 / math.pi, -1)):
        r = abs(c) / unit_
        for k in (1, 2, 0.5, 4, 0.25):
            if abs(r / k - 1) < 4e-15:
                return (k if c > 0 else -k), ex
    return c, 0


def _pow(v, e):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(e, Fraction):
        e = float(e)
    if isinstance(e, int) and e < 0 and v != 0:
        return float(v) ** e
    r = v ** e
    if isinstance(r, complex):
        raise ValueError('complex')
    return r


NONNEG_OPS = {'abs', 'exp', 'hypot'}


def _nonneg(n):
    if n.op in NONNEG_OPS:
        return True
    if n.op == 'mul':
        return n.attr[0] > 0 and all(isinstance(e, Fraction) or (isinstance(e, int) and e % 2 == 0) or _nonneg(a)
                                     for e, a in zip(n.attr[1], n.args))
    if n.op == 'reduce' and n.attr[0] == 'sum':
        return _nonneg(n.args[0])
    if n.op == 'axes' or n.op == 'index' or n.op == 'bcast':
        return _nonneg(n.args[0])
    if n.op == 'add':
        return n.attr[0] >= 0 and all(c > 0 and _nonneg(a) for c, a in zip(n.attr[1], n.args))
    if n.op == 'const':
        v = cval(n)
        return v is not None and not isinstance(v, str) and v >= 0
    return False


def neg(n):
    return mul(n, coef=-1)


def sub(a, b):
    return add(a, (-1, b))


def div(a, b):
    return mul((1, a), (-1, b))


def power(a, b):
    b = num(b)
    v = cval(b)
    if v is not None and not isinstance(v, str):
        return mul((v, a), shape=broadcast(num(a).shape, b.shape))
    return fn('power', a, b)


# ---------------------------------------------------------------- pointwise functions
ODD = {'sin', 'tan', 'arcsin', 'arctan', 'sign', 'sinh', 'tanh', 'arcsinh', 'cbrt', 'arctanh'}
EVEN = {'cos', 'abs', 'cosh'}
COMM = {'minimum', 'maximum', 'hypot', 'and', 'or', 'eq', 'fmax', 'fmin', 'bitand', 'bitor', 'isclose_'}

def _exact(f):
    """sine and cosine of multiples of a right angle are meant to be exact"""
    def g(v):
        w = f(v)
        return float(round(w)) if abs(v) < 100 and abs(w - round(w)) < 4e-15 and abs(v) > 0.1 else w
    return g


_MATH = {'sin': _exact(math.sin), 'cos': _exact(math.cos), 'tan': math.tan, 'arcsin': math.asin, 'arccos': math.acos,
         'arctan': math.atan, 'arctan2': math.atan2, 'abs': abs, 'exp': math.exp, 'log': math.log,
         'floor': math.floor, 'ceil': math.ceil, 'minimum': min, 'maximum': max, 'hypot': math.hypot,
         'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b,
         'sign': lambda a: (a > 0) - (a < 0),
         'isnan': lambda a: a != a, 'isfinite': lambda a: math.isfinite(a),
         'mod': lambda a, b: a % b}

POINTWISE = set(['add', 'mul', 'where', 'bcast', 'ext', 'not']) | ODD | EVEN | COMM | set(_MATH) | set([
    'arctan2', 'power', 'mod', 'fmod', 'floordiv', 'round', 'rint', 'trunc', 'copysign', 'log10', 'log2', 'arccosh',
    'isclose', 'closeto', 'isinf', 'nan_to_num', 'clip', 'astype_int', 'signbit', 'heaviside', 'bits', 'deg2rad_', 'popaque'])


def neg_form(n):
    """(True, -n) if n is canonically negative"""
    n0 = strip_bcast(n)
    if n0.op == 'mul' and isinstance(n0.attr[0], (int, float)) and n0.attr[0] < 0:
        return True
    if n0.op == 'const':
        v = cval(n0)
        return v is not None and not isinstance(v, (str, bool)) and v < 0
    return lead_neg(n0)


def fn(op, *args, **kw):
    attr = kw.get('attr')
    args = [num(a) for a in args]
    shape = kw.get('shape')
    if shape is None:
        shape = broadcast(*[a.shape for a in args]) if args else ()
    sargs = [strip_arg(a) for a in args]
    vals = [cval(a) for a in sargs]
    if attr is None and op in _MATH and vals and all(v is not None and not isinstance(v, str) for v in vals):
        try:
            return const(_MATH[op](*vals), shape if shape is not None else ())
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    if op in ('lt', 'le', 'eq') and sargs[0] is sargs[1] and False:
        pass
    if op in ODD and neg_form(sargs[0]):
        return mul(fn(op, neg(sargs[0]), shape=shape), coef=-1)
    if op in EVEN and neg_form(sargs[0]):
        return fn(op, neg(sargs[0]), shape=shape)
    if op == 'abs':
        a = sargs[0]
        if _nonneg(a):
            return _as_shape(a, shape)
        if a.op == 'mul':
            if isinstance(a.attr[0], (int, float)) and abs(a.attr[0]) != 1:
                return mul(fn('abs', mk('mul', a.args, (1, a.attr[1]), a.shape)), coef=abs(a.attr[0]), shape=shape)
    if op == 'arctan2':
        y, x = sargs
        if neg_form(y):
            return mul(fn('arctan2', neg(y), x, shape=shape), coef=-1)
    if op == 'eq':
        d = sargs
        if any(v is not None and isinstance(v, str) for v in vals) and all(v is not None for v in vals):
            return const(vals[0] == vals[1])
    if op == 'not':
        a = sargs[0]
        if a.op == 'not':
            return _as_shape(a.args[0], shape)
        if cval(a) is not None:
            return const(not cval(a), shape)
    if op in ('and', 'or'):
        unit_ = op == 'and'
        flat = []
        for a in sargs:
            for b in (a.args if a.op == op else (a,)):
                if b not in flat:
                    flat.append(b)
        out = []
        for a in flat:
            v = cval(a)
            if v is not None:
                if bool(v) == unit_:
                    continue
                return const(not unit_, shape)
            out.append(a)
        for a in out:
            if any(b.op == 'not' and b.args[0] is a for b in out):
                return const(not unit_, shape)
        if not out:
            return const(unit_, shape)
        if len(out) == 1:
            return _as_shape(out[0], shape)
        sargs = out
    if op == 'where':
        c, a, b = sargs
        v = cval(c)
        if v is not None:
            return _as_shape(a if v else b, shape)
        if a is b:
            return _as_shape(a, shape)
        if c.op == 'not':
            return fn('where', c.args[0], b, a, shape=shape)
        va, vb = cval(a), cval(b)
        if isinstance(va, bool) and isinstance(vb, bool):
            return _as_shape(c if va else fn('not', c), shape)
        if b is c:
            return fn('and', c, a, shape=shape)
        if a is c:
            return fn('or', c, b, shape=shape)
        if isinstance(va, bool):
            return fn('or', c, b, shape=shape) if va else fn('and', fn('not', c), b, shape=shape)
        if isinstance(vb, bool):
            return fn('or', fn('not', c), a, shape=shape) if vb else fn('and', c, a, shape=shape)
    if op in ('minimum', 'maximum', 'fmin', 'fmax') and len(sargs) == 2:
        # clip: minimum(hi, maximum(lo, x)) and maximum(lo, minimum(hi, x)) are the same for lo <= hi
        other = 'maximum' if op in ('minimum', 'fmin') else 'minimum'
        for c, x in ((0, 1), (1, 0)):
            v, inner = vals[c], sargs[x]
            if v is None or isinstance(v, str) or inner.op not in (other, 'f' + other[:3]) or len(inner.args) != 2:
                continue
            for i in (0, 1):
                w = cval(inner.args[i])
                if w is not None and not isinstance(w, str):
                    lo, hi = (w, v) if other == 'maximum' else (v, w)
                    if lo <= hi:
                        return fn('clip', inner.args[1 - i], attr=(_nkey(lo), _nkey(hi)), shape=shape)
    if op == 'clip' and attr and attr[0] == -attr[1] and neg_form(sargs[0]):
        return mul(fn('clip', neg(sargs[0]), attr=attr, shape=shape), coef=-1)
    if op in COMM:
        sargs = sorted(sargs, key=lambda n: n.id)
    if op == 'closeto':
        sargs = sorted(sargs[:2], key=lambda n: n.id) + list(sargs[2:])
    # keep implicit broadcasting explicit only through the result shape
    return mk(op, sargs, attr, shape)


# ---------------------------------------------------------------- structure
@memo
def axes(n, perm):
    """permute / insert (None) / drop (size one) axes"""
    perm = tuple(perm)
    if perm == tuple(range(len(n.shape))):
        return n
    for i, d in enumerate(n.shape):
        if i not in perm and d != 1:
            raise ShapeErr('cannot drop axis of extent %s' % (d,))
    shape = tuple(1 if p is None else n.shape[p] for p in perm)
    if n.op == 'axes':
        inner = n.attr
        return axes(n.args[0], tuple(None if p is None else inner[p] for p in perm))
    if n.op == 'const':
        if n.attr[0] != 'arr':
            return const(cval(n), shape)
        if all(isinstance(d, int) for d in shape):
            flat = const_flat(n)
            out = []
            src = n.shape
            for idx in _indices(shape):
                pos = [0] * len(src)
                for i, p in enumerate(perm):
                    if p is not None:
                        pos[p] = idx[i]
                k = 0
                for i, d in enumerate(src):
                    k = k * d + pos[i]
                out.append(flat[k])
            return const_array(out, shape)
    if not shape and n.op not in ('leaf', 'index', 'concat') and n.op in POINTWISE:
        pass
    kept = [p for p in perm if p is not None]
    if n.op in POINTWISE and kept == sorted(kept) and n.op != 'bcast':
        # axis insertion/removal without reordering commutes with pointwise operators
        nd = len(n.shape)
        ok = True
        new = []
        for a in n.args:
            off = nd - len(a.shape)
            p2 = []
            for p in perm:
                if p is None or p < off:
                    p2.append(None)
                else:
                    p2.append(p - off)
            while p2 and p2[0] is None:
                p2.pop(0)
            if any(a.shape[i] != 1 for i in range(len(a.shape)) if i not in p2):
                ok = False
                break
            new.append(axes(a, p2))
        if ok:
            return rebuild(n, new, shape)
    if n.op == 'bcast':
        a = n.args[0]
        if a.shape is not None and kept == sorted(kept):
            off = len(n.shape) - len(a.shape)
            p2 = [None if (p is None or p < off) else p - off for p in perm]
            while p2 and p2[0] is None:
                p2.pop(0)
            if not any(a.shape[i] != 1 for i in range(len(a.shape)) if i not in p2):
                return bcast(axes(a, p2), shape)
    if n.op == 'concat':
        ax = n.attr
        if ax in perm:
            return concat([axes(a, perm) for a in n.args], perm.index(ax))
    if n.op == 'cross' and n.attr in kept and kept == sorted(kept):
        return cross(axes(n.args[0], perm) if len(n.args[0].shape) == len(n.shape) else n.args[0],
                     axes(n.args[1], perm) if len(n.args[1].shape) == len(n.shape) else n.args[1],
                     perm.index(n.attr)) if all(len(a.shape) == len(n.shape) for a in n.args) else mk('axes', (n,), perm, shape)
    return mk('axes', (n,), perm, shape)


def rebuild(n, args, shape=None):
    """rebuild n with new arguments (same arity) through the canonical constructors"""
    op = n.op
    if shape is None and n.shape is not None and op in POINTWISE and not any(a.shape is None for a in args):
        try:
            shape = broadcast(n.shape, *[a.shape for a in args])
        except ShapeErr:
            pass
    if op == 'add':
        c = n.attr[0]
        c = float('nan') if c == 'nan' else c
        return add(const(c), *[(k, a) for k, a in zip(n.attr[1], args)], **({'shape': shape} if shape is not None else {}))
    if op == 'mul':
        return mul(*[(e, a) for e, a in zip(n.attr[1], args)], **dict({'coef': n.attr[0]}, **({'shape': shape} if shape is not None else {})))
    if op == 'bcast':
        return bcast(args[0], shape if shape is not None else n.shape)
    if op in POINTWISE:
        return fn(op, *args, attr=n.attr, **({'shape': shape} if shape is not None else {}))
    if op == 'axes':
        return axes(args[0], n.attr)
    if op == 'index':
        return index(args[0], n.attr)
    if op == 'concat':
        return concat(args, n.attr)
    if op == 'reduce':
        return reduce_(n.attr[0], args[0], n.attr[1])
    if op == 'cross':
        return cross(args[0], args[1], n.attr)
    if op == 'merge':
        return merge_axes(args[0], n.attr)
    return mk(op, args, n.attr, n.shape if shape is None else shape)


def norm_slice(sl, d):
    """normalise slice triple against int extent -> (start, stop, step) or ':'"""
    start, stop, step = sl
    if isinstance(d, int):
        s = slice(start, stop, step).indices(d)
        if s == (0, d, 1):
            return ':'
        return ('s',) + s
    if start in (None, 0) and stop is None and step in (None, 1):
        return ':'
    return ('s', start, stop, step)


def slice_len(sp, d):
    if sp == ':':
        return d
    _s, a, b, c = sp
    if isinstance(d, int):
        return len(range(a, b, c))
    return '%s[%s:%s:%s]' % (d, '' if a is None else a, '' if b is None else b, '' if c is None else c)


@memo
def index(n, spec):
    """basic indexing; spec has one entry per axis: int | ':' | ('s',a,b,c)"""
    spec = list(spec)
    shape = n.shape
    out = []
    for i, (sp, d) in enumerate(zip(spec, shape)):
        if isinstance(sp, int):
            if isinstance(d, int):
                if not -d <= sp < d:
                    raise ShapeErr('index %s out of bounds for extent %s' % (sp, d))
                spec[i] = sp % d
        else:
            out.append(slice_len(sp, d))
    spec = tuple(spec)
    out = tuple(out)
    if all(sp == ':' for sp in spec):
        return n
    # integer index on a size-one axis is an axis drop
    if any(isinstance(sp, int) and d == 1 for sp, d in zip(spec, shape)):
        keep = [i for i, (sp, d) in enumerate(zip(spec, shape)) if not (isinstance(sp, int) and d == 1)]
        return index(axes(n, keep), [spec[i] for i in keep])
    # a slice of length one is an integer index with the axis kept
    one = [i for i, (sp, d) in enumerate(zip(spec, shape))
           if not isinstance(sp, int) and sp != ':' and isinstance(d, int) and d > 1 and len(range(*sp[1:])) == 1]
    if one:
        s2 = [sp[1] if i in one else sp for i, sp in enumerate(spec)]
        perm = []
        k = 0
        for i, sp in enumerate(spec):
            if i in one:
                perm.append(None)
            elif not isinstance(sp, int):
                perm.append(k)
                k += 1
        return axes(index(n, s2), perm)
    op = n.op
    if op == 'const':
        if n.attr[0] != 'arr':
            return const(cval(n), out)
        if all(isinstance(d, int) for d in shape):
            flat = const_flat(n)
            ranges = []
            for sp, d in zip(spec, shape):
                ranges.append([sp] if isinstance(sp, int) else (range(d) if sp == ':' else range(*sp[1:])))
            vals = []

            def rec(i, k):
                if i == len(shape):
                    vals.append(flat[k])
                    return
                for r in ranges[i]:
                    rec(i + 1, k * shape[i] + r)
            rec(0, 0)
            return const_array(vals, out)
    if op == 'concat':
        ax = n.attr
        sizes = [a.shape[ax] for a in n.args]
        sp = spec[ax]
        if all(isinstance(s, int) for s in sizes):
            if isinstance(sp, int):
                k = sp
                for a, s in zip(n.args, sizes):
                    if k < s:
                        sub_ = list(spec)
                        sub_[ax] = k
                        return index(a, sub_)
                    k -= s
            elif sp == ':':
                drop = sum(1 for i in range(ax) if isinstance(spec[i], int))
                return concat([index(a, spec) for a in n.args], ax - drop)
            elif sp[3] == 1:
                parts = []
                pos = 0
                for a, s in zip(n.args, sizes):
                    lo, hi = max(sp[1], pos), min(sp[2], pos + s)
                    if lo < hi:
                        sub_ = list(spec)
                        sub_[ax] = norm_slice((lo - pos, hi - pos, 1), s)
                        parts.append(index(a, sub_))
                    pos += s
                drop = sum(1 for i in range(ax) if isinstance(spec[i], int))
                if parts:
                    return concat(parts, ax - drop)
        elif sp == ':':
            drop = sum(1 for i in range(ax) if isinstance(spec[i], int))
            return concat([index(a, spec) for a in n.args], ax - drop)
    if op == 'axes':
        perm = n.attr
        inner = n.args[0]
        ispec = [':'] * len(inner.shape)
        ok = True
        for p, sp in zip(perm, spec):
            if p is None:
                if sp != ':':
                    ok = False
            else:
                ispec[p] = sp
        if ok:
            res = index(inner, ispec)
            # map remaining axes
            remap = {}
            k = 0
            for i, sp in enumerate(ispec):
                if not isinstance(sp, int):
                    remap[i] = k
                    k += 1
            newperm = [None if p is None else remap[p] for p, sp in zip(perm, spec) if p is None or not isinstance(sp, int)]
            return axes(res, newperm)
    if op in POINTWISE:
        nd = len(shape)
        new = []
        for a in n.args:
            off = nd - len(a.shape)
            sub_ = []
            for i, d in enumerate(a.shape):
                sp = spec[off + i]
                if d == 1 and shape[off + i] != 1:
                    sub_.append(0 if isinstance(sp, int) else ':')
                else:
                    sub_.append(sp)
            # dropping leading axes of shorter operands keeps trailing alignment; int specs in the middle
            new.append(index(a, sub_))
        # alignment is preserved because the same axes are dropped from every operand
        return rebuild(n, new, out)
    if op == 'reduce' and n.attr[0] in ('sum', 'max', 'min', 'any', 'all', 'prod'):
        red = n.attr[1]
        inner = n.args[0]
        ispec = []
        k = 0
        for i in range(len(inner.shape)):
            if i in red:
                ispec.append(':')
            else:
                ispec.append(spec[k])
                k += 1
        res = index(inner, ispec)
        newred = []
        k = 0
        for i, sp in enumerate(ispec):
            if i in red:
                newred.append(k)
            if not isinstance(sp, int):
                k += 1
        return reduce_(n.attr[0], res, tuple(newred))
    if op == 'cross':
        ax = n.attr
        a, b = n.args
        sp = spec[ax]
        if all(len(x.shape) == len(shape) for x in (a, b)):
            if sp != ':' and any(q != ':' for i, q in enumerate(spec) if i != ax):
                s2 = list(spec)
                s2[ax] = ':'
                drop = sum(1 for i in range(ax) if isinstance(spec[i], int))
                c = index(n, s2)
                s3 = [':'] * len(c.shape)
                s3[ax - drop] = sp
                return index(c, s3)
            if sp == ':':
                def other(x):
                    s2 = [(0 if isinstance(q, int) else ':') if (x.shape[m] == 1 and shape[m] != 1) else q for m, q in enumerate(spec)]
                    s2[ax] = ':'
                    return index(x, s2)
                drop = sum(1 for i in range(ax) if isinstance(spec[i], int))
                return cross(other(a), other(b), ax - drop)
    if op == 'index':
        inner = n.args[0]
        ispec = list(n.attr)
        k = 0
        ok = True
        for i, sp in enumerate(ispec):
            if isinstance(sp, int):
                continue
            q = spec[k]
            k += 1
            if q == ':':
                continue
            if sp == ':':
                ispec[i] = q
            else:
                d = inner.shape[i]
                if isinstance(d, int):
                    r = range(*sp[1:])
                    if isinstance(q, int):
                        ispec[i] = r[q]
                    else:
                        r2 = r[slice(*q[1:])]
                        ispec[i] = norm_slice((r2.start, r2.stop, r2.step), d) if r2.step > 0 else ('s', r2.start, r2.stop, r2.step)
                else:
                    ok = False
        if ok:
            return index(inner, ispec)
    return mk('index', (n,), spec, out)


def concat(parts, ax):
    parts = list(parts)
    flat = []
    for p in parts:
        if p.op == 'concat' and p.attr == ax:
            flat.extend(p.args)
        else:
            flat.append(p)
    parts = [p for p in flat if p.shape[ax] != 0]
    if not parts:
        return flat[0]
    nd = len(parts[0].shape)
    for p in parts:
        if len(p.shape) != nd:
            raise ShapeErr('concatenation of arrays with different dimensions')
        for i in range(nd):
            if i != ax and p.shape[i] != parts[0].shape[i]:
                raise ShapeErr('concatenation of arrays with extents %s and %s' % (p.shape[i], parts[0].shape[i]))
    if len(parts) == 1:
        return parts[0]
    tot = 0
    for p in parts:
        d = p.shape[ax]
        tot = tot + d if isinstance(tot, int) and isinstance(d, int) else '%s+%s' % (tot, d) if tot != 0 else d
    shape = list(parts[0].shape)
    shape[ax] = tot
    shape = tuple(shape)
    # merge adjacent slices of the same array
    merged = []
    for p in parts:
        if merged:
            m = _merge_slices(merged[-1], p, ax)
            if m is not None:
                merged[-1] = m
                continue
        merged.append(p)
    if len(merged) == 1:
        return merged[0]
    parts = merged
    if all(p.op == 'const' for p in parts) and all(isinstance(d, int) for d in shape):
        if nd == 1:
            vals = []
            for p in parts:
                vals.extend(const_flat(p))
            return const_array(vals, shape)
        pos = []
        for p in parts:
            for k in range(p.shape[ax]):
                pos.append((p, k))
        flats = {p.id: const_flat(p) for p in parts}
        vals = []
        for idx in _indices(shape):
            p, k = pos[idx[ax]]
            q = list(idx)
            q[ax] = k
            kk = 0
            for i, d in enumerate(p.shape):
                kk = kk * d + q[i]
            vals.append(flats[p.id][kk])
        return const_array(vals, shape)
    if isinstance(tot, int) and tot <= 4 and all(p.op != 'concat' for p in parts):
        r = _reroll(parts, ax, shape)
        if r is not None:
            return r
    return mk('concat', parts, ax, shape)


def _reroll(parts, ax, shape):
    """the array whose consecutive slices along ax are `parts`, when they share one form"""
    singles = []
    for p in parts:
        for k in range(p.shape[ax]):
            spec = [':'] * len(p.shape)
            spec[ax] = k
            singles.append(index(p, spec))
    x = stack_form(singles, ax)
    if x is None:
        x = _cross_form(singles, ax)
    if x is None:
        return None
    try:
        return bcast(x, shape)
    except ShapeErr:
        return None


def _nodes_upto(n, depth):
    yield n
    if depth:
        for a in n.args:
            for m in _nodes_upto(a, depth - 1):
                yield m


def stack_form(ps, ax):
    """X with parts X[.., k, ..] == ps[k] along a new axis ax, built without a concat, or None"""
    p0 = ps[0]
    nd = len(p0.shape)
    if all(p is p0 for p in ps):
        return axes(p0, list(range(ax)) + [None] + list(range(ax, nd)))
    if any(len(p.shape) != nd for p in ps):
        return None
    if all(p.op == 'const' for p in ps):
        if all(p.attr[0] in ('splat', 'splatb') for p in ps):
            return const_array([cval(p) for p in ps], (len(ps),) + (1,) * (nd - ax))
        return None
    if any(p.op != p0.op for p in ps):
        return None
    op = p0.op
    if op == 'index':
        base = p0.args[0]
        if any(p.args[0] is not base for p in ps):
            return None
        diff = [j for j in range(len(p0.attr)) if any(p.attr[j] != p0.attr[j] for p in ps)]
        if len(diff) != 1:
            return None
        j = diff[0]
        ks = [p.attr[j] for p in ps]
        if not all(isinstance(k, int) for k in ks) or ks != list(range(ks[0], ks[0] + len(ks))) or not isinstance(base.shape[j], int):
            return None
        spec = list(p0.attr)
        spec[j] = norm_slice((ks[0], ks[-1] + 1, 1), base.shape[j])
        x = index(base, spec)
        pos = sum(1 for q in p0.attr[:j] if not isinstance(q, int))
        rest = [i for i in range(nd + 1) if i != pos]
        return axes(x, rest[:ax] + [pos] + rest[ax:])
    if any(p.attr != p0.attr or len(p.args) != len(p0.args) for p in ps) and op not in ('add', 'mul'):
        return None
    if op in ('add', 'mul'):
        if any(p.attr[0] != p0.attr[0] or sorted(map(str, p.attr[1])) != sorted(map(str, p0.attr[1])) or len(p.args) != len(p0.args) for p in ps):
            return None
        used = [set() for _ in ps]
        out = []
        for i, a in enumerate(p0.args):
            e = p0.attr[1][i]
            row = [a]
            found = None

            def pick(k, row, marks):
                if k == len(ps):
                    x = _stack_arg(row, nd, ax)
                    return (x, marks) if x is not None else None
                order = sorted(range(len(ps[k].args)), key=lambda j: ps[k].args[j] is not a)
                for j in order:
                    if j in used[k] or ps[k].attr[1][j] != e or ps[k].args[j].op != a.op:
                        continue
                    if len(ps[k].args[j].shape) != len(a.shape):
                        continue
                    r = pick(k + 1, row + [ps[k].args[j]], marks + [j])
                    if r is not None:
                        return r
                return None
            found = pick(1, row, [])
            if found is None:
                return None
            for k, j in enumerate(found[1]):
                used[k + 1].add(j)
            out.append((e, found[0]))
        if op == 'add':
            c = p0.attr[0]
            return add(const(float('nan') if c == 'nan' else c), *out)
        return mul(*out, coef=p0.attr[0])
    if op in POINTWISE and op != 'bcast' and op != 'popaque':
        new = []
        for i in range(len(p0.args)):
            x = _stack_arg([p.args[i] for p in ps], nd, ax)
            if x is None:
                return None
            new.append(x)
        return rebuild(p0, new, broadcast(*[x.shape for x in new]))
    if op == 'bcast':
        x = _stack_arg([p.args[0] for p in ps], nd, ax)
        if x is None:
            return None
        return bcast(x, p0.shape[:ax] + (len(ps),) + p0.shape[ax:])
    if op == 'axes':
        x = stack_form([p.args[0] for p in ps], 0)
        if x is None:
            return None
        perm = [None if p is None else p + 1 for p in p0.attr]
        return axes(x, perm[:ax] + [0] + perm[ax:])
    if op == 'reduce':
        x = stack_form([p.args[0] for p in ps], 0)
        if x is None or len(x.shape) != len(p0.args[0].shape) + 1 or x.shape[0] != len(ps):
            return None
        r = reduce_(p0.attr[0], x, tuple(a + 1 for a in p0.attr[1]))
        return axes(r, list(range(1, ax + 1)) + [0] + list(range(ax + 1, nd + 1)))
    if op == 'elem' and False:
        return None
    return None


def _stack_arg(row, nd, ax):
    off = nd - len(row[0].shape)
    if any(len(r.shape) != len(row[0].shape) for r in row):
        return None
    if all(r is row[0] for r in row):
        a = ax - off
        if a <= 0:
            return row[0]
        n = len(row[0].shape)
        return axes(row[0], list(range(a)) + [None] + list(range(a, n)))
    a = ax - off
    if a >= 0:
        return stack_form(row, a)
    x = stack_form(row, 0)
    if x is None:
        return None
    return axes(x, [0] + [None] * (-a) + list(range(1, len(x.shape))))


def _cross_form(ps, ax):
    """cross product written out component by component"""
    if len(ps) != 3 or any(p.op != 'add' or len(p.args) != 2 or p.attr[0] != 0 for p in ps):
        return None
    p0 = ps[0]
    nd = len(p0.shape)
    for s in (0, 1):
        t = p0.args[s]
        c = p0.attr[1][s]
        if t.op != 'mul' or len(t.args) != 2 or t.attr[1] != (1, 1) or p0.attr[1][1 - s] != -c:
            continue
        for f, h in ((0, 1), (1, 0)):
            A = _component_base(t.args[f], 1)
            B = _component_base(t.args[h], 2)
            for a_, ja in A:
                for b_, jb in B:
                    def at(x, j, k, like):
                        q = [like.attr[i] if i != j else k for i in range(len(like.attr))]
                        return index(x, q)
                    la, lb = t.args[f], t.args[h]
                    ca = [at(a_, ja, k, la) for k in range(3)]
                    cb = [at(b_, jb, k, lb) for k in range(3)]
                    try:
                        if all(add((c, mul(ca[(i + 1) % 3], cb[(i + 2) % 3])), (-c, mul(ca[(i + 2) % 3], cb[(i + 1) % 3]))) is ps[i]
                               for i in range(3)):
                            xa = stack_form(ca, ax) if len(ca[0].shape) == nd else None
                            xb = stack_form(cb, ax) if len(cb[0].shape) == nd else None
                            if xa is not None and xb is not None:
                                return mul(cross(xa, xb, ax), coef=c)
                    except ShapeErr:
                        pass
    return None


def _component_base(n, k):
    if n.op != 'index':
        return []
    return [(n.args[0], j) for j, sp in enumerate(n.attr) if sp == k and isinstance(sp, int) and n.args[0].shape[j] == 3]


def _has_component(n):
    for m in _nodes_upto(n, 4):
        if m.op == 'index' and any(isinstance(sp, int) and m.args[0].shape[j] == 3 for j, sp in enumerate(m.attr)):
            return True
    return False


def _roll_sum(items):
    """a0*b0 + a1*b1 + a2*b2 -> sum(a*b): terms over all three components of the same arrays"""
    import itertools
    cand = [(c, n) for c, n in items if n.op in ('mul', 'index') and _has_component(n)]
    if not 3 <= len(cand) <= 6:
        return None
    for tri in itertools.combinations(cand, 3):
        if not (tri[0][0] == tri[1][0] == tri[2][0]):
            continue
        if not (tri[0][1].op == tri[1][1].op == tri[2][1].op and len(tri[0][1].args) == len(tri[1][1].args) == len(tri[2][1].args)
                and tri[0][1].shape == tri[1][1].shape == tri[2][1].shape):
            continue
        for perm in itertools.permutations(tri):
            x = stack_form([n for _c, n in perm], 0)
            if x is None or x.shape[0] != 3 or len(x.shape) != len(tri[0][1].shape) + 1:
                continue
            r = reduce_('sum', x, (0,))
            t = strip_arg(r)
            while t.op == 'mul' and len(t.args) == 1 and t.attr[1][0] == 1:
                t = strip_arg(t.args[0])
            if t.op == 'add':
                continue
            return [it for it in items if not any(it[1] is u[1] for u in tri)] + [(tri[0][0], r)]
    return None


def _slice_of(p, ax):
    """(base, lo, hi, frame) when p is base[lo:hi] along ax (as slice, or as int + inserted axis)"""
    q = p
    if q.op == 'index' and all(sp == ':' or i == ax for i, sp in enumerate(q.attr)):
        sp = q.attr[ax]
        if not isinstance(sp, int) and sp != ':' and sp[3] == 1 and isinstance(q.args[0].shape[ax], int):
            return q.args[0], sp[1], sp[2]
    if q.op == 'axes' and q.args[0].op == 'index':
        inner = q.args[0]
        base = inner.args[0]
        if len(base.shape) == len(p.shape):
            ints = [i for i, sp in enumerate(inner.attr) if isinstance(sp, int)]
            if ints == [ax] and all(sp == ':' for i, sp in enumerate(inner.attr) if i != ax):
                perm = q.attr
                exp = [k if k < ax else k - 1 for k in range(len(p.shape))]
                exp[ax] = None
                if list(perm) == exp:
                    return base, inner.attr[ax], inner.attr[ax] + 1
    return None


def _merge_slices(p, q, ax):
    a, b = _slice_of(p, ax), _slice_of(q, ax)
    if a and b and a[0] is b[0] and a[2] == b[1]:
        base = a[0]
        spec = [':'] * len(base.shape)
        spec[ax] = norm_slice((a[1], b[2], 1), base.shape[ax])
        return index(base, spec)
    return None


def reduce_(name, n, axs, keep=False):
    """reduction over axes"""
    axs = tuple(sorted(a % len(n.shape) if n.shape else 0 for a in axs)) if n.shape else ()
    if not axs:
        return n
    shape = tuple(d for i, d in enumerate(n.shape) if i not in axs)
    if keep:
        r = reduce_(name, n, axs)
        perm = []
        k = 0
        for i in range(len(n.shape)):
            if i in axs:
                perm.append(None)
            else:
                perm.append(k)
                k += 1
        return axes(r, perm)
    ones = [i for i in axs if n.shape[i] == 1]
    if ones and name in ('sum', 'prod', 'max', 'min', 'any', 'all'):
        keepers = [i for i in range(len(n.shape)) if i not in ones]
        rest = [keepers.index(i) for i in axs if i not in ones]
        return reduce_(name, axes(n, keepers), tuple(rest))
    if name == 'sum':
        if n.op == 'const' and n.attr[0] == 'splat':
            size = shape_size([n.shape[i] for i in axs])
            if isinstance(size, int):
                return const(cval(n) * size, shape)
        if n.op == 'mul':
            # factors that do not vary along the reduced axes move out; numeric coefficient too
            inn, outp = [], []
            nd = len(n.shape)
            for e, a in zip(n.attr[1], n.args):
                off = nd - len(a.shape)
                if all(i - off < 0 or a.shape[i - off] == 1 for i in axs):
                    outp.append((e, a, off))
                else:
                    inn.append((e, a))
            if (outp or n.attr[0] != 1) and inn:
                res = []
                for e, a, off in outp:
                    keepers = [i for i in range(len(a.shape)) if (i + off) not in axs]
                    res.append((e, axes(a, keepers)))
                core = mul(*inn, shape=None)
                need = list(core.shape)
                # the inner product must keep the extents of the reduced axes
                full = list(n.shape)
                shp = broadcast(core.shape, tuple(full[i] if i in axs else 1 for i in range(nd)))
                core = bcast(core, shp)
                inner = reduce_('sum', core, tuple(axs))
                return mul((1, inner), *res, coef=n.attr[0], shape=shape)
        if n.op == 'concat' and n.attr in axs and len(axs) == 1:
            return add(*[reduce_('sum', p, axs) for p in n.args], shape=shape)
        if n.op == 'add':
            # linearity of the sum (all terms have, or broadcast to, the full extent)
            nd = len(n.shape)
            terms = []
            ok = True
            for c, a in zip(n.attr[1], n.args):
                b = bcast(a, broadcast(a.shape, tuple(n.shape[i] if i in axs else 1 for i in range(nd))))
                if b.op == 'bcast':
                    ok = False
                    break
                terms.append((c, reduce_('sum', b, axs)))
            size = shape_size([n.shape[i] for i in axs])
            if ok and (n.attr[0] == 0 or isinstance(size, int)) and n.attr[0] != 'nan':
                return add(const(n.attr[0] * size if isinstance(size, int) else 0), *terms, shape=shape)
    if name in ('any', 'all') and n.op == 'const' and cval(n) is not None:
        return const(bool(cval(n)), shape)
    return mk('reduce', (n,), (name, axs), shape)


def cross(a, b, ax):
    a, b = num(a), num(b)
    nd = max(len(a.shape), len(b.shape))

    def lift(x):
        return axes(x, [None] * (nd - len(x.shape)) + list(range(len(x.shape)))) if len(x.shape) < nd else x
    a, b = lift(a), lift(b)
    ax = ax % nd
    shape = broadcast(a.shape, b.shape)
    if a.shape[ax] != 3 or b.shape[ax] != 3:
        raise ShapeErr('cross product axis has extent %s / %s' % (a.shape[ax], b.shape[ax]))
    coef = 1
    # pull scalar factors out
    a, ca, fa = _vec_factor(a, ax)
    b, cb, fb = _vec_factor(b, ax)
    coef = ca * cb
    if a is b:
        return const(0, shape)
    if a.id > b.id:
        a, b = b, a
        coef = -coef
    if a.op == 'const' and b.op == 'const' and all(isinstance(d, int) for d in shape):
        fa_, fb_ = None, None
    base = mk('cross', (a, b), ax, broadcast(a.shape, b.shape))
    return mul((1, base), *(fa + fb), coef=coef, shape=shape)


def _vec_factor(x, ax):
    x0 = strip_bcast(x)
    if x0.shape != x.shape:
        return x, 1, []
    if x.op == 'mul':
        nd = len(x.shape)
        vec, sc = [], []
        for e, a in zip(x.attr[1], x.args):
            off = nd - len(a.shape)
            if ax - off < 0 or a.shape[ax - off] == 1:
                sc.append((e, a))
            else:
                vec.append((e, a))
        if vec:
            core = mul(*vec)
            if len(core.shape) == nd:
                c = x.attr[0]
                return core, c, sc
    if x.op == 'add' and lead_neg(x):
        return add((-1, x)), -1, []
    return x, 1, []


def merge_axes(n, groups):
    """reshape that merges runs of consecutive axes: groups = tuple of tuples of axes"""
    groups = tuple(tuple(g) for g in groups)
    # size-one axes are simply dropped
    keep = [i for i in range(len(n.shape)) if n.shape[i] != 1]
    if all(len([i for i in g if n.shape[i] != 1]) <= 1 for g in groups):
        perm = []
        for g in groups:
            real = [i for i in g if n.shape[i] != 1]
            perm.append(real[0] if real else (g[0] if g else None))
        return axes(n, perm)
    shape = tuple(shape_size([n.shape[i] for i in g]) for g in groups)
    if n.op == 'const' and n.attr[0] != 'arr':
        return const(cval(n), shape)
    if n.op == 'const' and all(isinstance(d, int) for d in n.shape):
        return const_array(const_flat(n), shape)
    return mk('merge', (n,), groups, shape)


def factor_dims(d):
    return d.split('*') if isinstance(d, str) else [d]


def reshape(n, newshape):
    """numpy reshape; newshape may contain one -1"""
    src = n.shape
    newshape = list(newshape)
    if -1 in newshape:
        k = newshape.index(-1)
        # cancel known dims from the source multiset
        srcdims = []
        for d in src:
            srcdims.extend(factor_dims(d))
        ints = 1
        syms = []
        for d in srcdims:
            if isinstance(d, int) or (isinstance(d, str) and d.isdigit()):
                ints *= int(d)
            else:
                syms.append(d)
        for i, d in enumerate(newshape):
            if i == k:
                continue
            for q in factor_dims(d):
                if isinstance(q, int) or q.isdigit():
                    q = int(q)
                    if q == 0 or ints % q:
                        raise ShapeErr('cannot reshape %s into %s' % (src, tuple(newshape)))
                    ints //= q
                else:
                    if q not in syms:
                        raise ShapeErr('cannot reshape %s into %s' % (src, tuple(newshape)))
                    syms.remove(q)
        d = ints if not syms else None
        if d is None:
            d = '*'.join(([str(ints)] if ints != 1 else []) + syms) if (ints != 1 or len(syms) > 1) else syms[0]
        newshape[k] = d
    newshape = tuple(newshape)
    a = [d for d in src if d != 1]
    b = [d for d in newshape if d != 1]
    if a == b:
        # only size-one axes move
        idx = [i for i, d in enumerate(src) if d != 1]
        perm = []
        k = 0
        for d in newshape:
            if d == 1:
                perm.append(None)
            else:
                perm.append(idx[k])
                k += 1
        return axes(n, perm)
    # merging consecutive axes
    groups = []
    i = 0
    ok = True
    for d in newshape:
        if d == 1:
            groups.append(())
            continue
        g = []
        acc = 1
        while i < len(src):
            if acc == d and src[i] != 1:
                break
            g.append(i)
            acc = dim_mul(acc, src[i])
            i += 1
            if acc == d:
                break
        if acc != d:
            ok = False
            break
        groups.append(tuple(g))
    if ok and all(src[j] == 1 for j in range(i, len(src))):
        # re-express () groups as inserted axes afterwards
        real = [g for g in groups if g]
        m = merge_axes(n, real)
        perm = []
        k = 0
        for g in groups:
            if g:
                perm.append(k)
                k += 1
            else:
                perm.append(None)
        return axes(m, perm)
    if n.op == 'const':
        size = shape_size(newshape)
        if n.attr[0] != 'arr':
            return const(cval(n), newshape)
        if isinstance(size, int) and size == shape_size(src):
            return const_array(const_flat(n), newshape)
    if shape_size(src) != shape_size(newshape) and all(isinstance(d, int) for d in tuple(src) + newshape):
        raise ShapeErr('cannot reshape %s into %s' % (src, newshape))
    def canon(s):
        out = []
        for d in s:
            out.extend(str(q) for q in factor_dims(d) if q != 1)
        return sorted(out)
    if n.op == 'merge' and n.args[0].shape == newshape:
        return n.args[0]
    return mk('reshape', (n,), newshape, newshape)


# ---------------------------------------------------------------- loops over an unknown extent
@memo
def elem(n, loop):
    """generic element n[i] of loop (id, dim) along axis 0"""
    if n.shape and n.shape[0] == 1:
        return axes(n, tuple(range(1, len(n.shape))))
    shape = n.shape[1:]
    if n.op == 'const' and n.attr[0] != 'arr':
        return const(cval(n), shape)
    if n.op == 'collect' and n.attr[1] == loop[1]:
        return subst_loop(n.args[0], n.attr[0], loop[0])
    if n.op in POINTWISE:
        nd = len(n.shape)
        new = []
        for a in n.args:
            if len(a.shape) == nd:
                new.append(elem(a, loop))
            else:
                new.append(a)
        return rebuild(n, new, shape)
    if n.op == 'concat' and n.attr != 0:
        return concat([elem(a, loop) for a in n.args], n.attr - 1)
    if n.op == 'axes' and n.attr[0] is not None:
        inner = n.args[0]
        p0 = n.attr[0]
        if p0 == 0:
            return axes(elem(inner, loop), [None if p is None else p - 1 for p in n.attr[1:]])
    return mk('elem', (n,), loop, shape)


def elem_axis(n, ax, loop):
    """n[.., i, ..] along axis ax"""
    perm = [ax] + [i for i in range(len(n.shape)) if i != ax]
    return elem(axes(n, perm), loop)


def subst_loop(n, old, new):
    if old == new:
        return n
    memo = {}

    def go(m):
        if m.id in memo:
            return memo[m.id]
        args = [go(a) for a in m.args]
        if m.op == 'elem' and m.attr[0] == old:
            r = elem(args[0], (new, m.attr[1]))
        elif m.op == 'leaf' and m.attr == 'i:%s' % old:
            r = leaf('i:%s' % new)
        else:
            r = rebuild(m, args, m.shape) if any(a is not b for a, b in zip(args, m.args)) else m
        memo[m.id] = r
        return r
    return go(n)


@memo
def uses_loop(n, lid):
    return (n.op == 'elem' and n.attr[0] == lid) or (n.op == 'leaf' and n.attr == 'i:%s' % lid) \
        or any(uses_loop(a, lid) for a in n.args)


@memo
def collect(body, loop):
    """array [body(i) for i in range(dim)] stacked on a new axis 0"""
    lid, dim = loop
    shape = (dim,) + tuple(body.shape)
    if not uses_loop(body, lid):
        return bcast(axes(body, [None] + list(range(len(body.shape)))), shape)
    if body.op == 'elem' and body.attr[0] == lid:
        return body.args[0] if body.args[0].shape == shape else bcast(body.args[0], shape)
    if body.op in POINTWISE:
        nd = len(body.shape)
        new = []
        for a in body.args:
            off = nd - len(a.shape)
            if uses_loop(a, lid):
                c = collect(a, loop)
                # align: insert axes after the first so trailing axes match
                c = axes(c, [0] + [None] * off + list(range(1, len(c.shape)))) if off else c
                new.append(c)
            else:
                new.append(a)
        return rebuild(body, new, shape)
    if body.op == 'axes':
        inner = collect(body.args[0], loop)
        return axes(inner, [0] + [None if p is None else p + 1 for p in body.attr])
    if body.op == 'concat':
        return concat([collect(a, loop) for a in body.args], body.attr + 1)
    if body.op == 'reduce' and body.attr[0] in ('sum', 'max', 'min', 'any', 'all', 'prod'):
        return reduce_(body.attr[0], collect(body.args[0], loop), tuple(a + 1 for a in body.attr[1]))
    if body.op == 'cross':
        return cross(collect(body.args[0], loop), collect(body.args[1], loop), body.attr + 1)
    if body.op == 'index':
        return index(collect(body.args[0], loop), (':',) + tuple(body.attr))
    return mk('collect', (body,), (lid, dim), shape)


# ---------------------------------------------------------------- utilities
def deps(n):
    """frozenset of leaf names n depends on"""
    if n.deps_ is None:
        stack = [n]
        while stack:
            m = stack[-1]
            if m.deps_ is not None:
                stack.pop()
                continue
            todo = [a for a in m.args if a.deps_ is None]
            if todo:
                stack.extend(todo)
                continue
            s = frozenset([m.attr]) if m.op == 'leaf' else frozenset()
            for a in m.args:
                s = s | a.deps_
            m.deps_ = s
            stack.pop()
    return n.deps_


def walk(*roots):
    seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)


def topo(*roots):
    """arguments before users"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for a in n.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def substitute(n, mapping):
    """replace nodes (by id) and rebuild canonically"""
    memo = {}
    for m in topo(n):
        if m.id in mapping:
            memo[m.id] = mapping[m.id]
            continue
        args = [memo[a.id] for a in m.args]
        if all(a is b for a, b in zip(args, m.args)):
            memo[m.id] = m
        else:
            memo[m.id] = rebuild(m, args)
    return memo[n.id]
