"""Degrees and radians are never mixed."""
from .common import *

EXPLANATION = ('Unit inference: degrees are a base unit, radians are plain numbers, and the conversion factor pi/180 has the unit '
               'rad/deg wherever it appears in the source. Trigonometric functions must receive plain numbers, geographiclib must '
               'receive degrees, and each angle result must have the documented unit; then the degree and the radian variant of each '
               'operation are compared as terms.')
ASSUMPTIONS = ('geographiclib takes and returns angles in degrees',)
PAIRS = [('GeoPoint[degrees]', 'GeoPoint', ()), ('FrameE.inverse[deg]', 'FrameE.inverse[rad]', (1, 2)),
         ('FrameE.direct[deg]', 'FrameE.direct[rad]', (0, 1, 2)), ('FrameB[degrees]', 'FrameB[radians]', ()),
         ('GeoPoint.latlon_deg', 'GeoPoint.latlon', (0, 1)), ('Pvector.azimuth_deg', 'Pvector.azimuth', (0,)),
         ('Pvector.elevation_deg', 'Pvector.elevation', (0,))]
PAIRS += [('FrameE.inverse[deg,unroll]', 'FrameE.inverse[rad,unroll]', ()), ('FrameE.direct[deg,unroll]', 'FrameE.direct[rad,unroll]', ()),
          ('GeoPoint.displace[ellipsoid,degrees,unroll]', 'GeoPoint.displace[ellipsoid,unroll]', ()),
          ('GeoPoint.distance_and_azimuth[ellipsoid,degrees,unroll]', 'GeoPoint.distance_and_azimuth[ellipsoid,unroll]', ())]
for _m in ('ellipsoid', 'greatcircle'):
    PAIRS += [('GeoPoint.displace[%s,degrees]' % _m, 'GeoPoint.displace[%s]' % _m, (-1,)),
              ('GeoPoint.distance_and_azimuth[%s,degrees]' % _m, 'GeoPoint.distance_and_azimuth[%s]' % _m, (1, 2))]


def check(rep, root):
    rep.rule('angle-units', 'inferred degree exponent exists (no conflict) and equals the documented one')
    rep.rule('degree-variant', 'the degree variant of an operation is the radian variant with converted inputs and outputs')
    R = runner(root, close_atom=True)
    got = {}
    for r in sweep(rep, R, CASES + DEFAULT_CASES):
        check_units(rep, R, r, 'angle-units', ('deg',), 'degrees and radians are mixed')
        got[r.case.name, r.cfg] = r
    rho = None
    for d, q, conv in PAIRS:
        for cfg in ('one', 'many'):
            a, b = got.get((d, cfg)), got.get((q, cfg))
            if a is None or b is None:
                rep.undecide('degree-variant', None, d, 'not analysed')
                continue
            variant(rep, R, a, b, conv)
    return functions(R)


def variant(rep, R, a, b, conv):
    rule = 'degree-variant'
    sc.fresh()
    rho = sc.mk('leaf', (), ('rad/deg', ()))
    kinds = {}

    def conv_leaf(x):
        nm = x.attr[0]
        ro = roles.get(nm)
        if ro in ('latd', 'lond', 'deg'):
            return sc.smk('mul', [x, rho], (1, (1, -1)), x.src)
        return x
    oa = [o for o in a.obs if o.node is not None]
    ob = [o for o in b.obs if o.node is not None]
    if len(oa) != len(ob):
        rep.undecide(rule, None, label(a), 'the variants return different structures')
        return
    roles = a.roles
    R.run(a.case, a.cfg)
    fxs = [terms(x, R, {}) for x in oa]
    R.run(b.case, b.cfg)
    fys = [terms(y, R, {}) for y in ob]
    for x, y, fx, fy in zip(oa, ob, fxs, fys):
        for (ix, s), (iy, t) in zip(fx, fy):
            s, = rebuild([s], conv_leaf)
            if x.role in ('deg', 'latd', 'lond') and y.role in ('rad', 'lat', 'lon'):
                s = sc.smk('mul', [s, rho], (1, (1, 1)), s.src)
            v, why = same_term(t, s)
            where = '%s%s' % (oblabel(a, x), list(ix) if ix else '')
            d = differs(t, s)
            if v == 'holds':
                rep.ob(rule, True, construct='%s = %s' % (where, oblabel(b, y)))
            elif v == 'fails':
                rep.ob(rule, False, (d.loc if d is not None else None) or x.node.loc, where,
                       'differs from the radian variant %s with converted angles' % oblabel(b, y))
            else:
                rep.undecide(rule, d.loc if d is not None else x.node.loc, where, why)
