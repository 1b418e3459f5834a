"""Dimension inference on the component graph (lengths, degrees, input scale factors).

Every term gets a vector of exponents over base units, or FREE when any unit fits (zero, nan,
infinity).  Adding, comparing or selecting between terms of different units, or applying a
transcendental function to a term with a unit, is a conflict.
"""
from fractions import Fraction as Fr

from . import scalar as sc

FREE = 'free'
DIMLESS = ()
TRIG = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'expm1', 'log1p', 'arcsinh',
        'arccosh', 'arctanh', 'log10', 'log2'}
SAME = {'abs', 'bits', 'floor', 'ceil', 'rint', 'round', 'trunc', 'nan_to_num'}
BOOLS = {'and', 'or', 'not', 'isnan', 'isfinite', 'isinf', 'truth', 'signbit'}


def norm(d):
    return tuple(sorted((k, Fr(v)) for k, v in d.items() if v))


def show(t):
    if t == FREE:
        return 'any'
    if not t:
        return 'plain number'
    return '*'.join('%s%s' % (k, '' if v == 1 else '^%s' % v) for k, v in t)


EXT = {
    # geographiclib: argument units after (a, f), result units by field
    'Inverse': (['deg'] * 4, {'s12': 'm', 'azi1': 'deg', 'azi2': 'deg', 'lat1': 'deg', 'lat2': 'deg', 'lon1': 'deg', 'lon2': 'deg', 'a12': 'deg'}),
    'Direct': (['deg', 'deg', 'deg', 'm'], {'lat2': 'deg', 'lon2': 'deg', 'azi2': 'deg', 'azi1': 'deg', 's12': 'm', 'lat1': 'deg', 'lon1': 'deg', 'a12': 'deg'}),
}


class Dims(object):
    def __init__(self, leaf_dim, bases=None, free_tol=False):
        """leaf_dim(scalar leaf) -> exponent dict or FREE; only units in `bases` are tracked"""
        self.leaf_dim = leaf_dim
        self.bases = bases
        self.memo = {}
        self.free_tol = free_tol
        self.conflicts = []
        self.vague = []
        self.n = 0

    def keep(self, d):
        if d == FREE:
            return FREE
        return norm({k: v for k, v in d.items() if self.bases is None or any(k.startswith(b) for b in self.bases)})

    def unit(self, name):
        return self.keep({name: 1})

    def conflict(self, s, msg):
        self.conflicts.append((s, msg))

    def of(self, root):
        for s in sc.topo(root):
            if s.id not in self.memo:
                self.n += 1
                self.memo[s.id] = self.step(s)
        return self.memo[root.id]

    def join(self, s, ts, what, args=()):
        if DEG in ts:
            # 90, 180, 360 ... next to degrees are degrees
            ts = [FREE if a.op == 'const' and turn(a.attr) else t for a, t in zip(args, ts)] + list(ts[len(args):])
        known = [t for t in ts if t != FREE]
        if not known:
            return FREE
        for t in known[1:]:
            if t != known[0]:
                self.conflict(s, '%s a %s and a %s' % (what, show(known[0]), show(t)))
                return FREE
        return known[0]

    def lit(self, s, m):
        """literal tolerances carry the unit of what they are compared with"""
        if not self.free_tol:
            return m
        return [FREE if a.op == 'const' else t for a, t in zip(s.args, m)]

    def step(self, s):
        op = s.op
        m = [self.memo[a.id] for a in s.args]
        if op == 'leaf':
            return self.keep(self.leaf_dim(s)) if self.leaf_dim(s) != FREE else FREE
        if op == 'const':
            v = s.attr
            if isinstance(v, tuple):
                return DIMLESS
            if v == 0 or v == 'nan' or (isinstance(v, float) and (v != v or v in (float('inf'), float('-inf')))):
                return FREE
            if isinstance(v, str):
                return FREE
            return DIMLESS
        if op == 'add':
            c0 = s.attr[0]
            ts = list(m)
            if c0 and c0 != 'nan' and not tiny(c0) and not (turn(c0) and DEG in ts):
                ts.append(DIMLESS)
            return self.join(s, ts, 'adds', s.args)
        if op == 'mul':
            k, es = s.attr
            d = {}
            free = False
            for e, t in zip(es, m):
                if t == FREE:
                    free = True
                    continue
                for b, v in t:
                    d[b] = d.get(b, 0) + v * Fr(e)
            return FREE if free else norm(d)
        if op in TRIG:
            if m[0] not in (FREE, DIMLESS):
                self.conflict(s, 'takes %s of a %s' % (op, show(m[0])))
            return DIMLESS
        if op in ('arctan2', 'hypot', 'minimum', 'maximum', 'fmin', 'fmax', 'copysign', 'mod', 'fmod'):
            t = self.join(s, m[:2], {'arctan2': 'takes arctan2 of'}.get(op, 'combines'), s.args[:2])
            return DIMLESS if op == 'arctan2' else (m[0] if op == 'copysign' else t)
        if op in ('eq', 'ne', 'lt', 'le'):
            self.join(s, self.lit(s, m), 'compares', s.args)
            return DIMLESS
        if op in ('isclose', 'closeto'):
            m = self.lit(s, m)
            self.join(s, m[:2] + m[3:], 'compares within a tolerance', s.args[:2] + s.args[3:])
            return DIMLESS
        if op in BOOLS:
            return DIMLESS
        if op in SAME:
            return m[0]
        if op == 'sign':
            return DIMLESS
        if op == 'cbrt':
            return FREE if m[0] == FREE else norm({b: v / 3 for b, v in m[0]})
        if op == 'clip':
            if s.attr and len(m) == 1:
                if m[0] not in (FREE, DIMLESS) and not (m[0] == DEG and all(turn(v) or not v for v in s.attr)):
                    self.conflict(s, 'clips a %s at plain numbers' % show(m[0]))
                return m[0]
            return self.join(s, m, 'clips', s.args)
        if op == 'where':
            return self.join(s, m[1:], 'selects between', s.args[1:])
        if op == 'over':
            return m[0]
        if op == 'ext' and isinstance(s.attr, tuple) and s.attr and s.attr[0] in EXT:
            name, field = s.attr[0], s.attr[1]
            want, outs = EXT[name]
            units = ['m', None] + want
            for t, u, a in zip(m, units, s.args):
                w = DIMLESS if u is None else self.unit(u)
                if t != FREE and t != w:
                    self.conflict(s, 'passes a %s to %s where a %s is expected' % (show(t), name, show(w)))
            return self.unit(outs[field]) if field in outs else FREE
        if op in ('index',):
            return DIMLESS
        if op == 'interp':
            self.join(s, [m[0], m[2]], 'interpolates at')
            return m[1]
        if op in ('savgol', 'scan'):
            return m[0]
        if op == 'power':
            if m[0] in (FREE, DIMLESS) and m[1] in (FREE, DIMLESS):
                return m[0]
            self.conflict(s, 'raises a %s to a computed power' % show(m[0]))
            return FREE
        if any(t not in (FREE, DIMLESS) for t in m):
            self.vague.append(s)
        return FREE


DEG = norm({'deg': 1})


def turn(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool) and abs(v) in (45, 90, 180, 270, 360, 540, 720)


def tiny(v):
    return isinstance(v, (int, float)) and abs(v) < 1e-300
