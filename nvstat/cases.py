"""The public operations of the package, what their inputs mean and what their results mean.

A case calls one public entry point on symbolic inputs.  Every case is analysed for several
layouts of the inputs (one position, many positions, one against many ...).
"""
from . import graph as g
from .values import *
from .interp import Choice, AnalysisError
from .world import World, Role
from .npmodel import seq_items


class Obs(object):
    """one observable number/array of a result"""

    def __init__(self, label, role, val, node, cond=()):
        self.label, self.role, self.val, self.node, self.cond = label, role, val, node, cond

    @property
    def dt(self):
        return self.val.dt if isinstance(self.val, Arr) else None

    def __repr__(self):
        return '%s:%s' % (self.label, self.role)


class Result(object):
    """outcome of one case in one layout"""
    pass


OBJ = {
    'Nvector': [('normal', 'nvec'), ('z', 'len'), ('frame', 'frame')],
    'GeoPoint': [('latitude', 'lat'), ('longitude', 'lon'), ('z', 'len'), ('frame', 'frame')],
    'ECEFvector': [('pvector', 'pos'), ('frame', 'frame')],
    'Pvector': [('pvector', 'posN'), ('frame', 'any')],
    'FrameE': [('a', 'a'), ('f', 'f'), ('R_Ee', 'R_Ee')],
}


class Ctx(object):
    """builder of the inputs of one case"""

    def __init__(self, W, cfg):
        self.W, self.cfg = W, cfg
        self.inputs = []

    def d(self, name):
        c = self.cfg
        return c.get(name, c.get('*'))

    def leaf(self, name, role, dim=None):
        v = self.W.leaf(name, role, dim if dim is not None else self.d(name))
        self.inputs.append((name, v))
        return v

    def F(self, name='F'):
        return self.W.frame(name)

    def N(self, name, frame=None):
        return self._in(name, self.W.nvector(name, self.d(name), frame or self.F(), self.cfg.get('depths')))

    def P(self, name, frame=None, degrees=False):
        return self._in(name, self.W.geopoint(name, self.d(name), frame or self.F(), degrees, self.cfg.get('depths')))

    def E(self, name, frame=None):
        return self._in(name, self.W.ecef(name, self.d(name), frame or self.F()))

    def K(self, kind, name, frame=None):
        return {'N': self.N, 'P': self.P, 'E': self.E}[kind](name, frame)

    def FN(self, name, point):
        return self._in(name, self.W.framen(name, point))

    def FL(self, name, point):
        return self._in(name, self.W.framel(name, point))

    def FB(self, name, point):
        return self._in(name, self.W.frameb(name, point, 1 if self.d(name) is None else self.d(name)))

    def local(self, kind, name, point):
        return {'N': self.FN, 'L': self.FL, 'B': self.FB}[kind](name, point)

    def PV(self, name, frame):
        return self._in(name, self.W.pvector(name, frame, self.d(name)))

    def path(self, a, b, kind='N', frame=None):
        k = {'N': self.N, 'P': self.P, 'E': self.E}[kind]
        return self._in('path', self.W.path(k(a, frame), k(b, frame)))

    def _in(self, name, v):
        self.inputs.append((name, v))
        return v

    # calls
    def call(self, path, /, *args, **kw):
        return self.W.call('nvector.' + path, list(args), kw)

    def method(self, obj, name, /, *args, **kw):
        return self.W.method(obj, name, args, kw)

    def attr(self, obj, name):
        return self.W.attr(obj, name)


class Case(object):
    def __init__(self, name, run, out, cfgs=('one', 'many'), anchor=None, tags=(), **info):
        self.name, self.run, self.out, self.cfgs = name, run, out, cfgs
        self.anchor, self.tags, self.info = anchor or name, set(tags), info

    def __repr__(self):
        return 'Case(%s)' % self.name


CFG = {
    'one': {'*': 1},
    'many': {'*': 'n'},
    'A1': {'*': 'n', 'A': 1, 'n_EA_E': 1, 'z_EA': 1, 'lat_a': 1, 'lon_a': 1, 'pathA': 1},
    'B1': {'*': 'n', 'B': 1, 'n_EB_E': 1, 'z_EB': 1, 'lat_b': 1, 'lon_b': 1, 'pathB': 1},
    'C1': {'*': 'n', 'C': 1},
    'AB1': {'*': 'n', 'A': 1, 'B': 1, 'pathA': 1, 'pathB': 1},
    'path1': {'*': 'n', 'A': 1, 'B': 1, 'pathA': 1, 'pathB': 1},
}
CASES = []


def case(name, out, run, **kw):
    CASES.append(Case(name, run, out, **kw))


def func(name, params, out, fixed=None, **kw):
    """a module level function called with its documented parameter names"""
    def run(c):
        kws = {}
        for p, role in params:
            if isinstance(role, tuple):
                kws[p] = tuple(c.leaf('%s%s' % (p, 'AB'[i]), r) for i, r in enumerate(role))
            elif role in ('a', 'f', 'R_Ee') or p in ('radius', 'ti'):
                kws[p] = c.leaf(p, role, c.cfg.get(p, 1))
            else:
                kws[p] = c.leaf(p, role)
        kws.update(fixed or {})
        return c.call(name, **kws)
    tag = '' if not fixed else '[%s]' % ','.join('%s=%s' % kv for kv in sorted(fixed.items()))
    case(name + tag, out, run, anchor=kw.pop('anchor', name), kind='function', params=[p for p, _r in params], **kw)


ELL = [('a', 'a'), ('f', 'f'), ('R_Ee', 'R_Ee')]
REE = [('R_Ee', 'R_Ee')]
PAIR = ('one', 'many', 'A1', 'B1')
PAIRF = ('one', 'many')

# ------------------------------------------------------------------ functions: conversions
func('lat_lon2n_E', [('latitude', 'lat'), ('longitude', 'lon')] + REE, 'nvec', tags=['axes', 'conv'])
func('n_E2lat_lon', [('n_E', 'nvec')] + REE, ('lat', 'lon'), tags=['axes', 'conv', 'direction', 'warns'])
func('n_EB_E2p_EB_E', [('n_EB_E', 'nvec'), ('depth', 'len')] + ELL, 'pos', tags=['axes', 'conv', 'direction', 'warns'])
func('p_EB_E2n_EB_E', [('p_EB_E', 'pos')] + ELL, ('nvec', 'len'), tags=['axes', 'conv'])
func('n_EA_E_and_n_EB_E2p_AB_E', [('n_EA_E', 'nvec'), ('n_EB_E', 'nvec'), ('z_EA', 'len'), ('z_EB', 'len')] + ELL,
     'pos', tags=['axes', 'direction', 'warns'], cfgs=PAIR)
func('n_EA_E_and_p_AB_E2n_EB_E', [('n_EA_E', 'nvec'), ('p_AB_E', 'pos'), ('z_EA', 'len')] + ELL, ('nvec', 'len'),
     tags=['axes', 'direction', 'warns'], cfgs=('one', 'many', 'A1'))
# ------------------------------------------------------------------ functions: geometry on the sphere
func('n_EA_E_and_n_EB_E2azimuth', [('n_EA_E', 'nvec'), ('n_EB_E', 'nvec')] + ELL, 'rad',
     tags=['axes', 'direction', 'warns'], cfgs=PAIR)
func('n_EA_E_distance_and_azimuth2n_EB_E', [('n_EA_E', 'nvec'), ('distance_rad', 'rad'), ('azimuth', 'rad')] + REE,
     'nvec', tags=['axes'], cfgs=('one', 'many', 'A1'))
func('interpolate', [('path', ('nvec', 'nvec')), ('ti', 'num')], 'nvec', tags=['axes', 'sphere'], cfgs=('one', 'many', 'A1', 'B1'))
func('great_circle_normal', [('n_EA_E', 'nvec'), ('n_EB_E', 'nvec')], 'axial', tags=['axes', 'sphere', 'direction'], cfgs=PAIR)
func('intersect', [('path_a', ('nvec', 'nvec')), ('path_b', ('nvec', 'nvec'))], 'nvec',
     tags=['axes', 'sphere', 'direction'], cfgs=('one', 'many', 'pa1', 'pb1'))
for _m in ('greatcircle', 'euclidean'):
    func('cross_track_distance', [('path', ('nvec', 'nvec')), ('n_EB_E', 'nvec'), ('radius', 'len')], 'len',
         fixed=dict(method=_m), tags=['axes', 'sphere'], cfgs=('one', 'many', 'path1', 'B1', 'rn'))
func('on_great_circle', [('path', ('nvec', 'nvec')), ('n_EB_E', 'nvec'), ('radius', 'len'), ('atol', 'len1')], 'bool',
     tags=['axes', 'sphere'], cfgs=('one', 'many', 'path1'))
func('on_great_circle_path', [('path', ('nvec', 'nvec')), ('n_EB_E', 'nvec'), ('radius', 'len'), ('atol', 'len1')], 'bool',
     tags=['axes', 'sphere'], cfgs=('one', 'many', 'path1'))
func('closest_point_on_great_circle', [('path', ('nvec', 'nvec')), ('n_EB_E', 'nvec')], 'nvec',
     tags=['axes', 'sphere', 'direction'], cfgs=('one', 'many', 'path1', 'B1'))
func('great_circle_distance', [('n_EA_E', 'nvec'), ('n_EB_E', 'nvec'), ('radius', 'len')], 'len',
     tags=['axes', 'sphere', 'direction'], cfgs=PAIR + ('rn',))
func('euclidean_distance', [('n_EA_E', 'nvec'), ('n_EB_E', 'nvec'), ('radius', 'len')], 'len',
     tags=['axes', 'sphere'], cfgs=PAIR + ('rn',))
func('mean_horizontal_position', [('n_EB_E', 'nvec')], 'nvec1', tags=['axes', 'sphere', 'aggregate'])
func('interp_nvectors', [('t_i', 'ti'), ('t', 't'), ('nvectors', 'nvec')], 'nvecm', cfgs=('interp', 'interp1'),
     tags=['axes', 'sphere', 'aggregate'])
func('interp_nvectors', [('t_i', 'ti'), ('t', 't'), ('nvectors', 'nvec')], 'nvecm', cfgs=('interp', 'interp1'),
     fixed=dict(window_length=4), tags=['axes', 'sphere', 'aggregate'])
# ------------------------------------------------------------------ functions: rotations
func('E_rotation', [], 'R_Ee', fixed=dict(axes='e'), cfgs=('one',))
func('E_rotation', [], 'R_Ee', fixed=dict(axes='E'), cfgs=('one',))
func('n_E2R_EN', [('n_E', 'nvec')] + REE, 'R_EX', tags=['axes', 'direction', 'warns'])
func('n_E_and_wa2R_EL', [('n_E', 'nvec'), ('wander_azimuth', 'rad')] + REE, 'R_EX', tags=['axes', 'direction', 'warns'],
     cfgs=('one', 'many', 'wa1'))
func('R_EL2n_E', [('R_EL', 'R_EX')], 'nvec', tags=['axes'])
func('R_EN2n_E', [('R_EN', 'R_EX')], 'nvec', tags=['axes'])
func('R2xyz', [('R_AB', 'R')], ('rad', 'rad', 'rad'))
func('R2zyx', [('R_AB', 'R')], ('rad', 'rad', 'rad'))
func('xyz2R', [('x', 'rad'), ('y', 'rad'), ('z', 'rad')], 'R', cfgs=('one', 'many', 'y1'))
func('zyx2R', [('z', 'rad'), ('y', 'rad'), ('x', 'rad')], 'R', cfgs=('one', 'many', 'y1'))
# ------------------------------------------------------------------ functions: utilities
case('deg', 'deg', lambda c: c.call('deg', c.leaf('x', 'rad')), kind='function')
case('rad', 'rad', lambda c: c.call('rad', c.leaf('x', 'deg')), kind='function')
case('deg[3]', ('deg', 'deg', 'deg'), lambda c: c.call('deg', *[c.leaf(q, 'rad') for q in 'xyz']), anchor='deg', kind='function')
case('rad[3]', ('rad', 'rad', 'rad'), lambda c: c.call('rad', *[c.leaf(q, 'deg') for q in 'xyz']), anchor='rad', kind='function')
func('unit', [('vector', 'nvec')], 'nvec', tags=['axes', 'direction'])
func('mdot', [('a', 'R'), ('b', 'R')], 'R', cfgs=('one', 'many', 'a1', 'b1'))
func('nthroot', [('x', 'num')], 'num', fixed=dict(n=3))

CFG.update({
    'pa1': {'*': 'n', 'path_aA': 1, 'path_aB': 1},
    'pb1': {'*': 'n', 'path_bA': 1, 'path_bB': 1},
    'rn': {'*': 'n', 'radius': 'n'},
    'wa1': {'*': 'n', 'wander_azimuth': 1},
    'y1': {'*': 'n', 'y': 1},
    'a1': {'*': 'n', 'a': 1},
    'b1': {'*': 'n', 'b': 1},
    'interp': {'*': 'n', 't_i': 'm'},
    'interp1': {'*': 'n', 't_i': 1},
})

# ------------------------------------------------------------------ objects
KINDS = {'P': 'GeoPoint', 'N': 'Nvector', 'E': 'ECEFvector'}
for _k, _cls in KINDS.items():
    case('%s.to_nvector' % _cls, 'Nvector', lambda c, k=_k: c.method(c.K(k, 'A'), 'to_nvector'), tags=['axes', 'obj'])
    case('%s.to_geo_point' % _cls, 'GeoPoint', lambda c, k=_k: c.method(c.K(k, 'A'), 'to_geo_point'), tags=['axes', 'obj'])
    case('%s.to_ecef_vector' % _cls, 'ECEFvector', lambda c, k=_k: c.method(c.K(k, 'A'), 'to_ecef_vector'), tags=['axes', 'obj'])
    case('%s.delta_to' % _cls, 'Pvector', lambda c, k=_k: c.method(c.K(k, 'A'), 'delta_to', c.N('B')), tags=['axes', 'obj', 'frames2'],
         cfgs=PAIR)
    for _f, _o in (('delta_E', 'ECEFvector'), ('delta_N', 'Pvector')):
        case('%s[%s]' % (_f, _cls), _o, lambda c, k=_k, f=_f: c.call(f, c.K(k, 'A'), c.K(k, 'B')), anchor=_f,
             tags=['axes', 'obj', 'frames2'], cfgs=PAIR)
    case('delta_L[%s]' % _cls, 'Pvector', lambda c, k=_k: c.call('delta_L', c.K(k, 'A'), c.K(k, 'B'), wander_azimuth=c.leaf('wa', 'rad', 1)),
         anchor='delta_L', tags=['axes', 'obj', 'frames2'], cfgs=PAIR)
    # paths
    for _m, _o in (('nvectors', ('Nvector', 'Nvector')), ('geo_points', ('GeoPoint', 'GeoPoint')),
                   ('ecef_vectors', ('ECEFvector', 'ECEFvector')), ('nvector_normals', ('nvec', 'nvec'))):
        case('GeoPath.%s[%s]' % (_m, _cls), _o, lambda c, k=_k, m=_m: c.method(c.path('A', 'B', k), m), anchor='GeoPath.' + _m,
             tags=['axes', 'obj'], cfgs=PAIR)
    for _r in ('', ',radius'):
        for _m in ('greatcircle', 'euclidean'):
            case('GeoPath.cross_track_distance[%s,%s%s]' % (_cls, _m, _r), 'len',
                 lambda c, k=_k, m=_m, r=_r: c.method(c.path('A', 'B', k), 'cross_track_distance', c.K(k, 'C'), method=m,
                                                      **({'radius': c.leaf('radius', 'len', 1)} if r else {})),
                 anchor='GeoPath.cross_track_distance', tags=['axes', 'obj'], cfgs=('one', 'path1', 'many', 'C1'))
            case('GeoPath.track_distance[%s,%s%s]' % (_cls, _m, _r), 'len',
                 lambda c, k=_k, m=_m, r=_r: c.method(c.path('A', 'B', k), 'track_distance', method=m,
                                                      **({'radius': c.leaf('radius', 'len', 1)} if r else {})),
                 anchor='GeoPath.track_distance', tags=['axes', 'obj'], cfgs=PAIR)
    for _m in ('ellipsoid', 'exact'):
        case('GeoPath.track_distance[%s,%s]' % (_cls, _m), 'len',
             lambda c, k=_k, m=_m: c.method(c.path('A', 'B', k), 'track_distance', method=m),
             anchor='GeoPath.track_distance', tags=['axes', 'obj', 'geodesic'], cfgs=PAIR)
    case('GeoPath.intersect[%s]' % _cls, 'Nvector', lambda c, k=_k: c.method(c.path('A', 'B', k), 'intersect', c.path('C', 'D', k)),
         anchor='GeoPath.intersect', tags=['axes', 'obj'], cfgs=('one', 'many', 'AB1'))
    case('GeoPath.on_great_circle[%s]' % _cls, 'bool', lambda c, k=_k: c.method(c.path('A', 'B', k), 'on_great_circle', c.K(k, 'C')),
         anchor='GeoPath.on_great_circle', tags=['axes', 'obj', 'tol'], cfgs=('one', 'path1', 'many'))
    for _q in ('on_path', 'on_great_circle'):
        case('GeoPath.%s[%s,atol]' % (_q, _cls), 'bool',
             lambda c, k=_k, q=_q: c.method(c.path('A', 'B', k), q, c.K(k, 'C'), atol=c.leaf('atol', 'len', 1)),
             anchor='GeoPath.' + _q, tags=['axes', 'obj'], cfgs=('one', 'path1', 'many'))
    for _m in ('greatcircle', 'ellipsoid'):
        case('GeoPath.on_path[%s,%s]' % (_cls, _m), 'bool',
             lambda c, k=_k, m=_m: c.method(c.path('A', 'B', k), 'on_path', c.K(k, 'C'), method=m),
             anchor='GeoPath.on_path', tags=['axes', 'obj', 'tol'] + (['geodesic'] if _m == 'ellipsoid' else []), cfgs=('one', 'path1', 'many'))
    case('GeoPath.closest_point_on_great_circle[%s]' % _cls, 'GeoPoint',
         lambda c, k=_k: c.method(c.path('A', 'B', k), 'closest_point_on_great_circle', c.K(k, 'C')),
         anchor='GeoPath.closest_point_on_great_circle', tags=['axes', 'obj'], cfgs=('one', 'path1', 'many'))
    case('GeoPath.closest_point_on_path[%s]' % _cls, 'GeoPoint',
         lambda c, k=_k: c.method(c.path('A', 'B', k), 'closest_point_on_path', c.K(k, 'C')),
         anchor='GeoPath.closest_point_on_path', tags=['axes', 'obj', 'tol'], cfgs=('one',))
    case('GeoPath.interpolate[%s]' % _cls, 'Nvector',
         lambda c, k=_k: c.method(c.path('A', 'B', k), 'interpolate', c.leaf('ti', 'num', 1)),
         anchor='GeoPath.interpolate', tags=['axes', 'obj', 'frames2'], cfgs=PAIR)
    case('GeoPath.interpolate[%s,times]' % _cls, 'Nvector',
         lambda c, k=_k: c.method(c.path('A', 'B', k), 'interpolate', c.leaf('ti', 'num')),
         anchor='GeoPath.interpolate', tags=['axes', 'obj', 'frames2'], cfgs=('one', 'path1', 'many'))
case('interpolate[times]', 'nvec', lambda c: c.call('interpolate', (c.leaf('pathA', 'nvec'), c.leaf('pathB', 'nvec')), c.leaf('ti', 'num')),
     anchor='interpolate', tags=['axes', 'sphere'], cfgs=('one', 'path1', 'many'))

case('GeoPoint[degrees]', 'GeoPoint', lambda c: c.W.call('nvector.GeoPoint', [c.leaf('lat', 'latd'), c.leaf('lon', 'lond'), c.leaf('z', 'len')],
     dict(frame=c.F(), degrees=True)), anchor='GeoPoint', tags=['obj'])
case('GeoPoint', 'GeoPoint', lambda c: c.W.call('nvector.GeoPoint', [c.leaf('lat', 'lat'), c.leaf('lon', 'lon'), c.leaf('z', 'len')],
     dict(frame=c.F())), anchor='GeoPoint', tags=['obj'])
case('FrameE.GeoPoint', 'GeoPoint', lambda c: c.method(c.F(), 'GeoPoint', latitude=c.leaf('lat', 'latd'), longitude=c.leaf('lon', 'lond'),
     z=c.leaf('z', 'len'), degrees=True), tags=['obj'])
case('FrameE.Nvector', 'Nvector', lambda c: c.method(c.F(), 'Nvector', c.leaf('n', 'nvec'), z=c.leaf('z', 'len')), tags=['obj'])
case('FrameE.ECEFvector', 'ECEFvector', lambda c: c.method(c.F(), 'ECEFvector', c.leaf('p', 'pos')), tags=['obj'])
for _a, _o in (('latlon_deg', ('latd', 'lond', 'len')), ('latlon', ('lat', 'lon', 'len')), ('latitude_deg', 'latd'), ('longitude_deg', 'lond')):
    case('GeoPoint.%s' % _a, _o, lambda c, a=_a: c.attr(c.P('A'), a), tags=['obj', 'attr'])
for _dg, _u in ((False, False), (True, False), (False, True), (True, True)):
    _t = (',degrees' if _dg else '') + (',unroll' if _u else '')
    _az = 'deg' if _dg else 'rad'
    _uk = {'long_unroll': True} if _u else {}
    for _m in ('ellipsoid', 'greatcircle'):
        if _u and _m != 'ellipsoid':
            continue
        _g = ['geodesic'] if _m == 'ellipsoid' else []
        case('GeoPoint.displace[%s%s]' % (_m, _t), ('GeoPoint', _az),
             lambda c, m=_m, dg=_dg, uk=_uk: c.method(c.P('A'), 'displace', distance=c.leaf('distance', 'len', c.cfg.get('distance', c.d('A'))),
                                                      azimuth=c.leaf('azimuth', 'deg' if dg else 'rad', c.cfg.get('azimuth', c.d('A'))),
                                                      method=m, degrees=dg, **uk),
             anchor='GeoPoint.displace', tags=['axes', 'obj'] + _g, cfgs=('one', 'many', 'da1'))
        case('GeoPoint.distance_and_azimuth[%s%s]' % (_m, _t), ('len', _az, _az),
             lambda c, m=_m, dg=_dg, uk=_uk: c.method(c.P('A'), 'distance_and_azimuth', c.P('B'), method=m, degrees=dg, **uk),
             anchor='GeoPoint.distance_and_azimuth', tags=['axes', 'obj', 'frames2'] + _g, cfgs=PAIR)
    _tt = _az + (',unroll' if _u else '')
    case('FrameE.inverse[%s]' % _tt, ('len', _az, _az),
         lambda c, dg=_dg, uk=_uk: c.method(c.F(), 'inverse', *[c.leaf(q, r + ('d' if dg else '')) for q, r in
                                                                (('lat_a', 'lat'), ('lon_a', 'lon'), ('lat_b', 'lat'), ('lon_b', 'lon'))],
                                            z=c.leaf('z', 'len'), degrees=dg, **uk),
         anchor='FrameE.inverse', tags=['obj', 'geodesic'], cfgs=PAIR)
    case('FrameE.direct[%s]' % _tt, ('latd', 'lond', 'deg') if _dg else ('lat', 'lon', 'rad'),
         lambda c, dg=_dg, uk=_uk: c.method(c.F(), 'direct', *([c.leaf(q, r + ('d' if dg else '')) for q, r in (('lat_a', 'lat'), ('lon_a', 'lon'))] +
                                                               [c.leaf('azimuth', 'deg' if dg else 'rad'), c.leaf('distance', 'len')]),
                                            z=c.leaf('z', 'len'), degrees=dg, **uk),
         anchor='FrameE.direct', tags=['obj', 'geodesic'], cfgs=('one', 'many', 'A1'))
CFG['da1'] = {'*': 'n', 'distance': 1, 'azimuth': 1}

case('Nvector.interpolate', 'Nvector', lambda c: c.method(c.N('A'), 'interpolate', c.leaf('t_i', 'ti'), c.leaf('t', 't')), cfgs=('interp', 'interp1'),
     tags=['axes', 'obj', 'aggregate'], )
case('Nvector.interpolate[window]', 'Nvector', lambda c: c.method(c.N('A'), 'interpolate', c.leaf('t_i', 'ti'), c.leaf('t', 't'), window_length=4),
     cfgs=('interp', 'interp1'), anchor='Nvector.interpolate', tags=['axes', 'obj', 'aggregate'])
case('Nvector.mean', 'Nvector', lambda c: c.method(c.N('A'), 'mean'), tags=['axes', 'obj', 'aggregate'])


def _unit(c):
    n = c.N('A')
    o = c.method(n, 'unit')
    o.value = n
    return o


case('Nvector.unit', 'Nvector', _unit, tags=['axes', 'obj', 'mutates'])
for _op, _nm in (('Add', '+'), ('Sub', '-')):
    case('Nvector %s Nvector' % _nm, 'Nvector', lambda c, o=_op: c.W.op(o, c.N('A'), c.N('B')), anchor='Nvector', tags=['axes', 'obj', 'frames2', 'arith'], cfgs=PAIR)
    case('ECEFvector %s ECEFvector' % _nm, 'ECEFvector', lambda c, o=_op: c.W.op(o, c.E('A'), c.E('B')), anchor='ECEFvector', tags=['axes', 'obj', 'frames2', 'arith'], cfgs=PAIR)
case('-Nvector', 'Nvector', lambda c: c.W.op('USub', c.N('A'), None), anchor='Nvector', tags=['axes', 'obj', 'arith'])
case('-ECEFvector', 'ECEFvector', lambda c: c.W.op('USub', c.E('A'), None), anchor='ECEFvector', tags=['axes', 'obj', 'arith'])
case('Nvector * number', 'Nvector', lambda c: c.W.op('Mult', c.N('A'), c.leaf('s', 'num', 1)), anchor='Nvector', tags=['axes', 'obj', 'arith'])
case('number * Nvector', 'Nvector', lambda c: c.W.op('Mult', c.leaf('s', 'num', 1), c.N('A')), anchor='Nvector', tags=['axes', 'obj', 'arith', 'rmul'])
case('Nvector / number', 'Nvector', lambda c: c.W.op('Div', c.N('A'), c.leaf('s', 'num', 1)), anchor='Nvector', tags=['axes', 'obj', 'arith'])

for _l in 'NLB':
    case('Frame%s.R_EN' % _l, 'R_EX', lambda c, l=_l: c.attr(c.local(l, 'U', c.N('A')), 'R_EN'), tags=['axes', 'obj', 'local', 'attr'], cfgs=('one', 'many'))
    case('ECEFvector.change_frame[Frame%s]' % _l, 'Pvector', lambda c, l=_l: c.method(c.E('B'), 'change_frame', c.local(l, 'U', c.N('A'))),
         anchor='ECEFvector.change_frame', tags=['axes', 'obj', 'local'], cfgs=PAIR)
    case('Pvector.to_ecef_vector[Frame%s]' % _l, 'ECEFvector', lambda c, l=_l: c.method(c.PV('B', c.local(l, 'U', c.N('A'))), 'to_ecef_vector'),
         anchor='Pvector.to_ecef_vector', tags=['axes', 'obj', 'local'], cfgs=PAIR)
    case('Pvector.to_nvector[Frame%s]' % _l, 'Nvector', lambda c, l=_l: c.method(c.PV('B', c.local(l, 'U', c.N('A'))), 'to_nvector'),
         anchor='Pvector.to_nvector', tags=['axes', 'obj', 'local'], cfgs=PAIR)
    case('Pvector.to_geo_point[Frame%s]' % _l, 'GeoPoint', lambda c, l=_l: c.method(c.PV('B', c.local(l, 'U', c.N('A'))), 'to_geo_point'),
         anchor='Pvector.to_geo_point', tags=['axes', 'obj', 'local'], cfgs=PAIR)
    case('Frame%s.Pvector' % _l, 'Pvector', lambda c, l=_l: c.method(c.local(l, 'U', c.N('A')), 'Pvector', c.leaf('p', 'posN', c.d('B'))),
         tags=['axes', 'obj', 'local'], cfgs=PAIR)
for _a, _o in (('length', 'len'), ('azimuth', 'rad'), ('azimuth_deg', 'deg'), ('elevation', 'rad'), ('elevation_deg', 'deg')):
    case('Pvector.%s' % _a, _o, lambda c, a=_a: c.attr(c.PV('B', c.FN('U', c.N('A'))), a), tags=['axes', 'obj', 'attr'], cfgs=PAIR)
case('ECEFvector.length', 'len', lambda c: c.attr(c.E('A'), 'length'), anchor='Pvector.length', tags=['axes', 'obj', 'attr'])
case('FrameB[degrees]', 'R_EX', lambda c: c.W.attr(c.W.call('nvector.FrameB', [c.N('A')], dict(
    yaw=c.leaf('yaw', 'deg'), pitch=c.leaf('pitch', 'deg'), roll=c.leaf('roll', 'deg'), degrees=True)).value, 'R_EN'), anchor='FrameB',
    tags=['axes', 'obj', 'local'], cfgs=('one', 'many'))
case('FrameB[radians]', 'R_EX', lambda c: c.W.attr(c.W.call('nvector.FrameB', [c.N('A')], dict(
    yaw=c.leaf('yaw', 'rad'), pitch=c.leaf('pitch', 'rad'), roll=c.leaf('roll', 'rad'))).value, 'R_EN'), anchor='FrameB',
    tags=['axes', 'obj', 'local'], cfgs=('one', 'many'))
case('FrameE.R_Ee', 'R_Ee', lambda c: c.attr(c.F(), 'R_Ee'), cfgs=('one',), tags=['obj', 'attr'])


# many horizontal positions at one depth, and one horizontal position at many depths
CFG['z1'] = {'*': 'n', 'depths': 1}
CFG['zn'] = {'*': 1, 'depths': 'n'}
CFG['interpz1'] = {'*': 'n', 't_i': 'm', 'depths': 1}
# one starting point with many distances, directions or local frames
CFG['dn'] = {'*': 'n', 'A': 1, 'distance': 'n', 'azimuth': 'n'}
CFG['d1n'] = {'*': 'n', 'A': 1, 'distance': 1, 'azimuth': 'n'}
# arrays of one position
CFG['a1'] = {'*': '1d'}
for _k in ('A1', 'B1', 'C1', 'path1', 'dn'):
    CFG['a1' + _k] = {k: 1 if v == 1 else '1d' for k, v in CFG[_k].items()}
CFG['Un'] = {'*': 'n', 'A': 1}
for _c in CASES:
    if 'obj' in _c.tags:
        if 'interp' in _c.cfgs:
            _c.cfgs = tuple(_c.cfgs) + ('interpz1',)
        elif 'many' in _c.cfgs and _c.name.split('.')[0] not in ('FrameE', 'GeoPoint[degrees]', 'GeoPoint') and 'ECEF' not in _c.name:
            _c.cfgs = tuple(_c.cfgs) + ('z1', 'zn')
        if _c.anchor == 'GeoPoint.displace':
            _c.cfgs = tuple(_c.cfgs) + ('dn', 'd1n')
    if 'FrameB[' in _c.name and _c.anchor == 'FrameB':
        _c.cfgs = tuple(_c.cfgs) + ('Un',)


# ------------------------------------------------------------------ running and observing
def flatten_choice(v, cond=()):
    if isinstance(v, Choice):
        return flatten_choice(v.a, cond + ((v.cond, True),)) + flatten_choice(v.b, cond + ((v.cond, False),))
    return [(v, cond)]


class Runner(object):
    def __init__(self, root='/repo/src', dt='f', sym_axes=True, close_atom=False):
        self.W = World(root, dt=dt, sym_axes=sym_axes, close_atom=close_atom)
        self.cache = {}

    def run(self, case, cfg):
        key = (id(case), cfg)
        W = self.W
        if key in self.cache:
            r = self.cache[key]
            W.names = r.names
            W.roles.update(r.rolemap)
            return r
        W.reset()
        r = Result()
        r.case, r.cfg = case, cfg
        r.obs, r.problems = [], []
        W.cells = {}
        W.names = {}
        c = Ctx(W, CFG[cfg])
        r.ctx = c
        W.I.effects, W.I.gaps = [], []
        try:
            o = case.run(c)
        except Exception as e:
            if not isinstance(e, AnalysisError):
                e = '%s: %s' % (type(e).__name__, e)
            r.outcome = None
            r.names, r.rolemap, r.roles = W.names, {}, {}
            r.error = str(e)
            r.gaps = ['%s' % e]
            r.effects, r.raises = [], []
            self.cache[key] = r
            return r
        r.error = None
        r.outcome = o
        r.state = W.I.st.copy() if hasattr(W.I.st, 'copy') else None
        r.cells = dict(W.cells)
        r.roles = {nm: W.roles[nd].kind for nm, nd in W.names.items() if nd in W.roles}
        r.names = W.names
        r.rolemap = {nd: W.roles[nd] for nd in W.names.values() if nd in W.roles}
        r.gaps = list(o.gaps)
        r.effects = list(o.effects)
        r.raises = list(o.raises)
        if o.returned:
            if o.state is not None:
                W.I.st = o.state
            self.observe(r, '', case.out, o.value, ())
            r.state = W.I.st.copy()
        self.cache[key] = r
        return r

    def observe(self, r, label, role, v, cond):
        I = self.W.I
        alts = flatten_choice(v)
        if len(alts) > 1:
            for i, (x, cd) in enumerate(alts):
                self.observe(r, label + '|%d' % i, role, x, cond + cd)
            return
        if isinstance(role, tuple):
            items = v
            if isinstance(v, PyList):
                try:
                    items = seq_items(I, v)
                except Exception:
                    items = None
            if not isinstance(items, (tuple, list)) or len(items) != len(role):
                r.problems.append((label, 'expected %d values, found %r' % (len(role), v)))
                return
            for i, (ro, x) in enumerate(zip(role, items)):
                self.observe(r, '%s[%d]' % (label, i), ro, x, cond)
            return
        if role in OBJ:
            if not isinstance(v, Inst):
                r.problems.append((label, 'expected a %s, found %r' % (role, v)))
                return
            if v.cls.name != role:
                r.problems.append((label, 'expected a %s, found a %s' % (role, v.cls.name)))
            r.obs.append(Obs(label, 'object', v, None, cond))
            for a, ro in OBJ[role]:
                try:
                    x = I.getattr(v, a)
                except Exception as e:
                    r.problems.append((label + '.' + a, 'attribute cannot be read: %s' % e))
                    continue
                self.observe(r, label + '.' + a, ro, x, cond)
            return
        if role in ('frame', 'any'):
            r.obs.append(Obs(label, role, v, None, cond))
            return
        n = None
        try:
            n = I.node(v)
        except Exception:
            r.problems.append((label, 'expected a number or array, found %r' % (v,)))
            return
        r.obs.append(Obs(label, role, v, n, cond))

    def all(self, cases=None, cfgs=None):
        for cs in cases if cases is not None else CASES:
            for cfg in cs.cfgs:
                if cfgs is None or cfg in cfgs:
                    yield self.run(cs, cfg)


# the functions called with their required arguments only
OPTIONAL = {'a', 'f', 'R_Ee', 'radius', 'depth', 'z_EA', 'z_EB', 'atol'}
DEFAULT_CASES = []
_n = len(CASES)
for _c in list(CASES):
    _ps = _c.info.get('params') or []
    if _c.info.get('kind') == 'function' and any(q in OPTIONAL for q in _ps) and _c.anchor not in ('mdot',):
        def _run(c, _c=_c):
            # same inputs, optional ones left out
            call = c.call
            try:
                c.call = lambda path, /, *a, **kw: call(path, *a, **{k: v for k, v in kw.items() if k not in OPTIONAL})
                return _c.run(c)
            finally:
                c.call = call
        DEFAULT_CASES.append(Case(_c.name + '()', _run, _c.out, [q for q in _c.cfgs if q in ('one', 'many', 'A1', 'B1')], _c.anchor,
                                  (_c.tags - {'axes'}) | {'defaults'}, **_c.info))
for _cls, _run, _out in (
        ('GeoPoint', lambda c: c.call('GeoPoint', c.leaf('lat', 'lat'), c.leaf('lon', 'lon')), 'GeoPoint'),
        ('Nvector', lambda c: c.call('Nvector', c.leaf('n', 'nvec')), 'Nvector'),
        ('ECEFvector', lambda c: c.call('ECEFvector', c.leaf('p', 'pos')), 'ECEFvector'),
        ('FrameE', lambda c: c.call('FrameE'), 'FrameE'),
        ('FrameE[name]', lambda c: c.call('FrameE', name='WGS72', axes='E'), 'FrameE'),
        ('FrameE[a]', lambda c: c.call('FrameE', a=c.leaf('a', 'a')), 'FrameE'),
        ('FrameB', lambda c: c.W.attr(c.call('FrameB', c.N('A')).value, 'R_EN'), 'R_EX'),
        ('FrameL', lambda c: c.W.attr(c.call('FrameL', c.N('A')).value, 'R_EN'), 'R_EX'),
        ('delta_L', lambda c: c.call('delta_L', c.N('A'), c.N('B')), 'Pvector')):
    DEFAULT_CASES.append(Case(_cls + '()', _run, _out, ('one', 'many') if 'FrameE' not in _cls else ('one',), _cls.split('[')[0], ('obj', 'defaults')))

# utilities and special methods that are not about geometry (effects only)
UTIL_CASES = []


def util(name, run, out='any', cfgs=('one', 'many'), anchor=None):
    UTIL_CASES.append(Case(name, run, out, cfgs, anchor or name.split('[')[0], ('util',)))


def _data(c):
    I = c.W.I
    inner = I.new_dict({'p': c.leaf('p', 'len'), 'q': I.new_list([c.leaf('q', 'len'), 'text'])})
    return I.new_dict({'x': c.leaf('x', 'pos'), 'y': inner, 'z': I.new_list([c.leaf('w', 'len'), (c.leaf('v', 'len'), 3.0)])})


def _tagged(c, v, nm):
    return c.W.tag_objects(v, nm)


util('array_to_list_dict[dict]', lambda c: c.call('util.array_to_list_dict', _tagged(c, _data(c), 'data')))
util('array_to_list_dict[list]', lambda c: c.call('util.array_to_list_dict', _tagged(c, c.W.I.new_list([c.leaf('x', 'len'), (1, c.leaf('y', 'len'))]), 'data')))
util('array_to_list_dict[array]', lambda c: c.call('util.array_to_list_dict', c.leaf('x', 'pos')))
for _f in ('isclose', 'allclose'):
    util('%s' % _f, lambda c, f=_f: c.call('util.' + f, c.leaf('x', 'len'), c.leaf('y', 'len')))
    util('%s[vectors]' % _f, lambda c, f=_f: c.call('util.' + f, c.leaf('x', 'pos'), c.leaf('y', 'pos'), rtol=1e-9, atol=1e-9, equal_nan=True))
util('get_ellipsoid[name]', lambda c: c.call('get_ellipsoid', 'WGS 84'), cfgs=('one',))
util('get_ellipsoid[number]', lambda c: c.call('get_ellipsoid', 3), cfgs=('one',))
util('select_ellipsoid[name]', lambda c: c.call('select_ellipsoid', 'wgs84'), cfgs=('one',))
for _k in 'PNE':
    for _q in ('__repr__', '__str__'):
        util('%s.%s' % (KINDS[_k], _q), lambda c, k=_k, q=_q: c.method(c.K(k, 'A'), q))
    util('%s == %s' % (KINDS[_k], KINDS[_k]), lambda c, k=_k: c.W.op('Eq', c.K(k, 'A'), c.K(k, 'B')))
    util('%s != %s' % (KINDS[_k], KINDS[_k]), lambda c, k=_k: c.W.op('NotEq', c.K(k, 'A'), c.K(k, 'B')))
for _l in 'NLB':
    util('Frame%s.__repr__' % _l, lambda c, l=_l: c.method(c.local(l, 'U', c.N('A')), '__repr__'))
    util('Frame%s == Frame%s' % (_l, _l), lambda c, l=_l: c.W.op('Eq', c.local(l, 'U', c.N('A')), c.local(l, 'V', c.N('B'))))
util('FrameE == FrameE', lambda c: c.W.op('Eq', c.F('F'), c.F('G')), cfgs=('one',))
util('FrameE.__repr__', lambda c: c.method(c.F(), '__repr__'), cfgs=('one',))
util('GeoPath.positionA', lambda c: c.attr(c.path('A', 'B'), 'positionA'), cfgs=('one',))
util('GeoPath.positionB', lambda c: c.attr(c.path('A', 'B'), 'positionB'), cfgs=('one',))
