"""Elementary functions of decimal numbers, for judging residuals beyond the rounding of floats."""
import decimal
import math
from decimal import Decimal as D
from fractions import Fraction

CTX = decimal.Context(prec=40, Emax=999999, Emin=-999999)
TINY = D(10) ** -45
PI = D('3.14159265358979323846264338327950288419716939937510582097494459')


def to(v):
    return v if isinstance(v, D) else D(v)


def ratio(c):
    """decimal of a Fraction, int or float"""
    if hasattr(c, 'numerator'):
        return CTX.divide(D(c.numerator), D(c.denominator))
    return D(c)


def _series(x, sine):
    t = x if sine else D(1)
    v, k, x2 = t, 1 if sine else 0, x * x
    while abs(t) > TINY:
        t = -t * x2 / ((k + 1) * (k + 2))
        k += 2
        v += t
    return v


def _reduce(x):
    n = (x / (2 * PI)).to_integral_value()
    return x - n * 2 * PI


def sin(x):
    return _series(_reduce(x), True)


def cos(x):
    return _series(_reduce(x), False)


def sqrt(x):
    if x < 0:
        raise ValueError('root of a negative number')
    return x.sqrt()


def arctan(x):
    k = 0
    while abs(x) > D('0.05'):
        x = x / (1 + (1 + x * x).sqrt())
        k += 1
    t, v, n, x2 = x, x, 1, x * x
    while abs(t) > TINY:
        t = -t * x2
        n += 2
        v += t / n
    return v * 2 ** k


def arctan2(y, x):
    if x > 0:
        return arctan(y / x)
    if x < 0:
        v = arctan(y / x)
        return v + PI if y >= 0 else v - PI
    if y == 0:
        return D(0)
    return PI / 2 if y > 0 else -PI / 2


def arcsin(x):
    if abs(x) > 1:
        raise ValueError('arcsin beyond one')
    return arctan2(x, ((1 - x) * (1 + x)).sqrt())


def sinh(x):
    return (x.exp() - (-x).exp()) / 2


def cosh(x):
    return (x.exp() + (-x).exp()) / 2


def power(b, e):
    """b ** e for a rational exponent e"""
    if e.denominator == 1:
        return b ** int(e)
    if b < 0:
        raise ValueError('root of a negative number')
    if b == 0:
        if e < 0:
            raise ZeroDivisionError()
        return D(0)
    if e.denominator == 2:
        return b.sqrt() ** int(e.numerator)
    return ((b.ln() * e.numerator) / e.denominator).exp()


def sign(v):
    return D((v > 0) - (v < 0))


def truth(v):
    return D(1) if v else D(0)


def floor(v):
    return v.to_integral_value(rounding=decimal.ROUND_FLOOR)


def bits(v, n):
    """v rounded to n binary digits"""
    if not v:
        return v
    k = int((abs(v).ln() / D(2).ln()).to_integral_value(rounding=decimal.ROUND_FLOOR))
    q = D(2) ** (int(n) - 1 - k)
    return (v * q).to_integral_value(rounding=decimal.ROUND_HALF_EVEN) / q


def trunc(v):
    return v.to_integral_value(rounding=decimal.ROUND_DOWN)


def rint(v):
    return v.to_integral_value(rounding=decimal.ROUND_HALF_EVEN)


FUNCTIONS = {'sin': sin, 'cos': cos, 'arctan2': arctan2, 'arcsin': arcsin, 'arctan': arctan, 'abs': abs, 'exp': lambda v: v.exp(),
             'log': lambda v: v.ln(), 'sinh': sinh, 'cosh': cosh, 'tanh': lambda v: sinh(v) / cosh(v), 'sqrt': sqrt, 'sign': sign,
             'lt': lambda a, b=0: truth(a < b), 'le': lambda a, b=0: truth(a <= b), 'maximum': lambda *a: max(a), 'minimum': lambda *a: min(a),
             'mod': lambda a, b: a - b * floor(a / b), 'fmod': lambda a, b: a % b, 'floor': floor, 'ceil': lambda v: -floor(-v),
             'hypot': lambda a, b: (a * a + b * b).sqrt(), 'and': lambda *a: truth(all(a)), 'or': lambda *a: truth(any(a)), 'not': lambda a: truth(not a),
             'eq': lambda a, b=0: truth(a == b), 'ne': lambda a, b=0: truth(a != b), 'where': lambda c, a, b: a if c else b,
             'isclose': lambda a, b, r, t, *e: truth(abs(a - b) <= t + r * abs(b)),
             'closeto': lambda a, b, r, t: truth(abs(a - b) <= max(t, r * max(abs(a), abs(b)))),
             'bits': bits, 'trunc': trunc, 'rint': rint, 'copysign': lambda a, b: abs(a) if b >= 0 else -abs(a),
             'log10': lambda v: v.log10(), 'log2': lambda v: v.ln() / D(2).ln(), 'tan': lambda v: sin(v) / cos(v),
             'arcsinh': lambda v: sign(v) * (abs(v) + sqrt(v * v + 1)).ln() if v else v, 'arccosh': lambda v: (v + sqrt(v * v - 1)).ln(),
             'arctanh': lambda v: ((1 + v) / (1 - v)).ln() / 2,
             'isnan': lambda v: D(0), 'isinf': lambda v: D(0), 'isfinite': lambda v: D(1),
             'cbrt': lambda v: sign(v) * (abs(v).ln() / 3).exp() if v else v}


class Floats(object):
    number, PI = float, math.pi
    sin, cos, sqrt, arctan2, floor = (staticmethod(f) for f in (math.sin, math.cos, math.sqrt, math.atan2, math.floor))


class Decimals(object):
    number, PI = staticmethod(ratio), PI
    sin, cos, sqrt, arctan2, floor = (staticmethod(f) for f in (sin, cos, sqrt, arctan2, floor))


def geodesic(attr, args, m=Decimals):
    """a stand-in for the solutions of the geodesic problems: those of a sphere, which satisfy all that holds on every ellipsoid

    attr: (Inverse or Direct, field, flags); args: a, f, and the four given quantities, with angles in degrees
    """
    name, field, mask = attr
    a, f, lat1, lon1, c, d = args
    radius = a * (1 - f / 3)
    u = m.PI / 180
    if abs(lat1) > 90 or (name == 'Inverse' and abs(c) > 90) or not radius > 0:
        raise ValueError('no geodesic')
    s1, c1 = m.sin(lat1 * u), m.cos(lat1 * u)

    def norm(x):
        return x - 360 * m.floor(x / 360 + m.number(Fraction(1, 2)))
    if name == 'Inverse':
        lat2, dlon = c, (d - lon1) * u
        s2, c2, sd, cd = m.sin(lat2 * u), m.cos(lat2 * u), m.sin(dlon), m.cos(dlon)
        x1, y1 = c1 * s2 - s1 * c2 * cd, c2 * sd
        x2, y2 = -(c2 * s1 - s2 * c1 * cd), c1 * sd
        if not (x1 or y1 or x2 or y2) and cd > 0 and lat1 > 0:      # the same point: a convention of geographiclib
            x1, x2 = -1, -1
            arc = 0
        else:
            arc = m.arctan2(m.sqrt(x1 * x1 + y1 * y1), s1 * s2 + c1 * c2 * cd)
        y1, x1, y2, x2, arc = (m.number(q) for q in (y1, x1, y2, x2, arc))
        out = {'s12': radius * arc, 'a12': arc / u, 'azi1': m.arctan2(y1, x1) / u, 'azi2': m.arctan2(y2, x2) / u,
               'lat1': lat1, 'lat2': lat2, 'lon1': lon1, 'lon2': d}
        return out[field]
    sa, ca = m.sin(c * u), m.cos(c * u)
    arc = d / radius
    ss, cs = m.sin(arc), m.cos(arc)
    x, y, z = c1 * cs - s1 * ca * ss, sa * ss, s1 * cs + c1 * ca * ss
    if field == 'lat2':
        return m.arctan2(z, m.sqrt(x * x + y * y)) / u
    if field == 'azi2':
        return m.arctan2(c1 * sa, c1 * ca * cs - s1 * ss) / u
    if field == 'lon2':
        if 'LONG_UNROLL' not in mask:
            return norm(norm(lon1) + m.arctan2(y, x) / u)
        # follows the path, however often that goes round
        sign = 1 if sa >= 0 else -1
        sig1 = m.arctan2(s1, ca * c1)
        sig2 = sig1 + arc
        wrapped = m.arctan2(m.sin(sig2), m.cos(sig2))
        om1, om2 = (m.arctan2(sign * sa * c1 * m.sin(v), m.cos(v)) for v in (sig1, sig2))
        return lon1 + sign * (arc - (wrapped - sig1) + (om2 - om1)) / u
    return {'lat1': lat1, 'lon1': lon1, 'azi1': c, 's12': d, 'a12': arc / u}[field]
