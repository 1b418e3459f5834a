"""The documented ellipsoids, and the defaults of arguments left out."""
import warnings
import numpy as np
import nvector as nv


# ------------------------------------------------------------------ catalogue
TABLE = {
    1: (6377563.396, 299.3249646, ('Airy 1858',)),
    2: (6377340.189, 299.3249646, ('Airy Modified',)),
    3: (6378160.0, 298.25, ('Australian National',)),
    4: (6377397.155, 299.1528128, ('Bessel 1841', 'Bessel')),
    5: (6378249.145, 293.465, ('Clarke 1880',)),
    6: (6377276.345, 300.8017, ('Everest 1830',)),
    7: (6377304.063, 300.8017, ('Everest Modified',)),
    8: (6378166.0, 298.3, ('Fisher 1960',)),
    9: (6378150.0, 298.3, ('Fisher 1968',)),
    10: (6378270.0, 297.0, ('Hough 1956', 'Hough')),
    11: (6378388.0, 297.0, ('International', 'Hayford', 'ED50')),
    12: (6378245.0, 298.3, ('Krassovsky 1938', 'Krassovsky')),
    13: (6378145.0, 298.25, ('NWL-9D', 'WGS 66')),
    14: (6378160.0, 298.25, ('South American 1969', 'SAD69')),
    15: (6378136.0, 298.257, ('Soviet Geod. System 1985',)),
    16: (6378135.0, 298.26, ('WGS 72',)),
    17: (6378206.4, 294.9786982138, ('Clarke 1866', 'NAD27')),
    18: (6378137.0, 298.257223563, ('GRS80', 'WGS84', 'NAD83')),
    19: (6378137.0, 298.257222101, ('ETRS89',)),
}
FULL = {1: 'Airy 1858', 2: 'Airy Modified', 3: 'Australian National', 4: 'Bessel 1841', 5: 'Clarke 1880', 6: 'Everest 1830', 7: 'Everest Modified',
        8: 'Fisher 1960', 9: 'Fisher 1968', 10: 'Hough 1956', 12: 'Krassovsky 1938', 16: 'WGS 72', 18: 'GRS80 / WGS84  (NAD83)', 19: 'ETRS89'}


def law_numbers(one: 'once'):
    """every documented number selects its ellipsoid"""
    out = []
    for k in TABLE:
        e = nv.get_ellipsoid(k)
        out += [('eq', e.a, TABLE[k][0]), ('eq', e.f, 1 / TABLE[k][1])]
    return out


def law_names(one: 'once'):
    """every documented name selects its ellipsoid, whatever its case and spaces"""
    out = []
    for k in TABLE:
        for name in TABLE[k][2]:
            for spelled in (name, name.lower(), name.upper(), name.replace(' ', '')):
                e = nv.get_ellipsoid(spelled)
                out += [('eq', e.a, TABLE[k][0]), ('eq', e.f, 1 / TABLE[k][1])]
    return out


def law_full_names(one: 'once'):
    """the ellipsoid says which one it is"""
    return [('flag', nv.get_ellipsoid(k).name == FULL[k], True) for k in FULL]


def law_tuple(one: 'once'):
    """an ellipsoid is the tuple of its semi-major axis, flattening and name"""
    a, f, name = nv.get_ellipsoid('WGS 72')
    return [('eq', a, 6378135.0), ('eq', f, 1 / 298.26), ('flag', name == 'WGS 72', True)]


def refused(name):
    try:
        nv.get_ellipsoid(name)
    except (KeyError, ValueError, TypeError, IndexError):
        return True
    return False


def law_unknown(one: 'once'):
    """names and numbers not documented are refused"""
    return [('flag', refused('nosuchellipsoid'), True), ('flag', refused(0), True), ('flag', refused(20), True), ('flag', refused(''), True)]


def law_frames(one: 'once'):
    """a frame named after an ellipsoid has its parameters"""
    out = []
    for k in TABLE:
        F, G = nv.FrameE(name=TABLE[k][2][0]), nv.FrameE(name=k)
        out += [('eq', F.a, TABLE[k][0]), ('eq', F.f, 1 / TABLE[k][1]), ('eq', G.a, TABLE[k][0]), ('eq', G.f, 1 / TABLE[k][1])]
    return out


def law_frame_parameters(x: 'a', y: 'f'):
    """parameters given to a frame replace those of the ellipsoid named"""
    F, G, H, K = nv.FrameE(a=x), nv.FrameE(f=y), nv.FrameE(a=x, f=y), nv.FrameE(x, name='WGS72')
    return [('eq', F.a, x), ('eq', F.f, 1 / 298.257223563), ('eq', G.a, 6378137.0), ('eq', G.f, y), ('eq', H.a, x), ('eq', H.f, y),
            ('eq', K.a, x), ('eq', K.f, 1 / 298.26)]


def law_sphere(x: 'a'):
    """flattening zero is kept: a spherical Earth"""
    F = nv.FrameE(a=x, f=0)
    return [('eq', F.a, x), ('eq', F.f, 0), ('eq', nv.FrameE(f=0).f, 0)]


# ------------------------------------------------------------------ defaults
A0, F0, R0 = 6378137.0, 1 / 298.257223563, 6371009.0
ZAXIS = np.array([[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [-1.0, 0.0, 0.0]])


def law_frame_default(one: 'once'):
    """the default frame is WGS84 with the z axis to the north pole"""
    F, G = nv.FrameE(), nv.FrameE(axes='E')
    return [('eq', F.a, A0), ('eq', F.f, F0), ('eq', F.R_Ee, ZAXIS), ('eq', G.R_Ee, np.eye(3)), ('eq', F == nv.FrameE(name='wgs84'), True)]


def law_point_default(n: 'nvec', p: 'pos', lat: 'lat', lon: 'lon'):
    """without a frame or a depth a position is at depth zero in WGS84"""
    out = []
    for x in (nv.Nvector(n), nv.GeoPoint(lat, lon), nv.ECEFvector(p)):
        out += [('eq', x.frame.a, A0), ('eq', x.frame.f, F0), ('eq', x.frame.R_Ee, ZAXIS)]
    return out + [('eq', nv.Nvector(n).z, 0), ('eq', nv.GeoPoint(lat, lon).z, 0)]


def law_frame_factories(F: 'FrameE', n: 'nvec', p: 'pos', lat: 'lat', lon: 'lon', z: 'depth'):
    """a frame makes positions in itself, at depth zero unless told otherwise"""
    out = []
    for x in (F.Nvector(n), F.GeoPoint(lat, lon), F.ECEFvector(p), F.Nvector(n, z), F.GeoPoint(lat, lon, z)):
        out += [('eq', x.frame.a, F.a), ('eq', x.frame.f, F.f), ('eq', x.frame.R_Ee, F.R_Ee)]
    return out + [('eq', F.Nvector(n).z, 0), ('eq', F.GeoPoint(lat, lon).z, 0), ('eq', F.Nvector(n, z).z, z), ('eq', F.GeoPoint(lat, lon, z).z, z),
                  ('eq', F.GeoPoint(lat, lon, z=z).latitude, lat), ('eq', F.GeoPoint(lat, lon, z).longitude, lon)]


def law_lat_lon2n_E(lat: 'lat', lon: 'lon'):
    """default axes of lat_lon2n_E"""
    return [('eq', nv.lat_lon2n_E(lat, lon), nv.lat_lon2n_E(lat, lon, ZAXIS))]


def law_n_E2lat_lon(n: 'nvec'):
    """default axes of n_E2lat_lon"""
    a, b = nv.n_E2lat_lon(n), nv.n_E2lat_lon(n, ZAXIS)
    return [('eq', a[0], b[0]), ('eq', a[1], b[1])]


def law_n_E2R_EN(n: 'nvec'):
    """default axes of n_E2R_EN"""
    return [('eq', nv.n_E2R_EN(n), nv.n_E2R_EN(n, ZAXIS))]


def law_n_E_and_wa2R_EL(n: 'nvec', wa: 'rad'):
    """default axes of n_E_and_wa2R_EL"""
    return [('eq', nv.n_E_and_wa2R_EL(n, wa), nv.n_E_and_wa2R_EL(n, wa, ZAXIS))]


def law_E_rotation(one: 'once'):
    """default axes of E_rotation"""
    return [('eq', nv.E_rotation(), ZAXIS), ('eq', nv.E_rotation('e'), ZAXIS), ('eq', nv.E_rotation('E'), np.eye(3))]


def law_n_EB_E2p_EB_E(n: 'nvec', z: 'depth', a: 'a', f: 'f'):
    """defaults of n_EB_E2p_EB_E"""
    return [('eq', nv.n_EB_E2p_EB_E(n), nv.n_EB_E2p_EB_E(n, 0, A0, F0, ZAXIS)), ('eq', nv.n_EB_E2p_EB_E(n, z), nv.n_EB_E2p_EB_E(n, z, A0, F0, ZAXIS)),
            ('eq', nv.n_EB_E2p_EB_E(n, z, a), nv.n_EB_E2p_EB_E(n, z, a, F0, ZAXIS)), ('eq', nv.n_EB_E2p_EB_E(n, z, a, f), nv.n_EB_E2p_EB_E(n, z, a, f, ZAXIS))]


def law_p_EB_E2n_EB_E(p: 'pos'):
    """defaults of p_EB_E2n_EB_E"""
    a, b = nv.p_EB_E2n_EB_E(p), nv.p_EB_E2n_EB_E(p, A0, F0, ZAXIS)
    return [('eq', a[0], b[0]), ('eq', a[1], b[1])]


def law_n_EA_E_and_n_EB_E2p_AB_E(n: 'nvec', m: 'nvec', z: 'depth', w: 'depth'):
    """defaults of n_EA_E_and_n_EB_E2p_AB_E"""
    f = nv.n_EA_E_and_n_EB_E2p_AB_E
    return [('eq', f(n, m), f(n, m, 0, 0, A0, F0, ZAXIS)), ('eq', f(n, m, z), f(n, m, z, 0, A0, F0, ZAXIS)), ('eq', f(n, m, z, w), f(n, m, z, w, A0, F0, ZAXIS))]


def law_n_EA_E_and_p_AB_E2n_EB_E(n: 'nvec', p: 'pos', z: 'depth'):
    """defaults of n_EA_E_and_p_AB_E2n_EB_E"""
    f = nv.n_EA_E_and_p_AB_E2n_EB_E
    a, b, c, d = f(n, p), f(n, p, 0, A0, F0, ZAXIS), f(n, p, z), f(n, p, z, A0, F0, ZAXIS)
    return [('eq', a[0], b[0]), ('eq', a[1], b[1]), ('eq', c[0], d[0]), ('eq', c[1], d[1])]


def law_azimuth(n: 'nvec', m: 'nvec'):
    """defaults of n_EA_E_and_n_EB_E2azimuth"""
    return [('eq', nv.n_EA_E_and_n_EB_E2azimuth(n, m), nv.n_EA_E_and_n_EB_E2azimuth(n, m, A0, F0, ZAXIS))]


def law_displacement(n: 'nvec', d: 'rad', az: 'rad'):
    """default axes of n_EA_E_distance_and_azimuth2n_EB_E"""
    return [('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az), nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, ZAXIS))]


def law_radius(n: 'nvec', m: 'nvec', k: 'nvec'):
    """the default radius is the mean radius of the Earth, the default method the great circle"""
    return [('eq', nv.great_circle_distance(n, m), nv.great_circle_distance(n, m, R0)), ('eq', nv.euclidean_distance(n, m), nv.euclidean_distance(n, m, R0)),
            ('eq', nv.cross_track_distance((n, m), k), nv.cross_track_distance((n, m), k, 'greatcircle', R0)),
            ('eq', nv.cross_track_distance((n, m), k, 'euclidean'), nv.cross_track_distance((n, m), k, 'euclidean', R0))]


def law_on_circle(n: 'nvec', m: 'nvec', k: 'nvec'):
    """the default tolerance is 1e-8 m on the mean sphere"""
    return [('eq', nv.on_great_circle((n, m), k), nv.on_great_circle((n, m), k, R0, 1e-8)),
            ('eq', nv.on_great_circle_path((n, m), k), nv.on_great_circle_path((n, m), k, R0, 1e-8))]


def law_frame_l(A: 'Nvector', B: 'Nvector'):
    """the default wander azimuth is zero: the axes point north, east and down"""
    p, q = nv.delta_L(A, B).pvector, nv.delta_N(A, B).pvector
    return [('eq', nv.FrameL(A).R_EN, nv.FrameN(A).R_EN), ('eq', p, q)]


def law_frame_b(A: 'Nvector', y: 'rad', p: 'rad'):
    """angles of FrameB are zero by default and in radians"""
    return [('eq', nv.FrameB(A).R_EN, nv.FrameN(A).R_EN), ('eq', nv.FrameB(A, y).R_EN, nv.FrameB(A, y, 0, 0).R_EN), ('eq', nv.FrameB(A, y, p).R_EN, nv.FrameB(A, y, p, 0).R_EN),
            ('eq', nv.FrameB(A, yaw=y, pitch=p).R_EN, nv.FrameB(A, y, p, 0, False).R_EN)]


def law_displace(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displacements follow the ellipsoid, in radians and without unrolling, by default"""
    B, q = A.displace(d, az)
    C, r = A.displace(d, az, False, False, 'ellipsoid')
    return [('eq', B.latitude, C.latitude), ('eq', B.longitude, C.longitude), ('eq', B.z, C.z), ('eq', q, r)]


def law_distance_and_azimuth(A: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth'):
    """distances follow the ellipsoid, in radians and without unrolling, by default"""
    B = A.frame.GeoPoint(lat, lon, z)
    s, p, q = A.distance_and_azimuth(B)
    t, m, n = A.distance_and_azimuth(B, False, False, 'ellipsoid')
    return [('eq', s, t), ('eq', p, m), ('eq', q, n)]


def law_path_defaults(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """paths follow the great circle by default"""
    P = nv.GeoPath(A, B)
    return [('eq', P.track_distance(), P.track_distance('greatcircle')), ('eq', P.cross_track_distance(C), P.cross_track_distance(C, 'greatcircle')),
            ('eq', P.on_path(C), P.on_path(C, 'greatcircle', 1e-6, 1e-8)), ('eq', P.on_great_circle(C), P.on_great_circle(C, 1e-8))]


def law_path_radius(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """the default radius of a path is the mean distance of its ends from the centre"""
    P = nv.GeoPath(A, B)
    r = (A.to_ecef_vector().length + B.to_ecef_vector().length) / 2
    return [('eq', P.track_distance(), P.track_distance(radius=r)), ('eq', P.cross_track_distance(C), P.cross_track_distance(C, radius=r)),
            ('eq', P.track_distance('euclidean'), P.track_distance('euclidean', r)), ('eq', P.cross_track_distance(C, 'euclidean'), P.cross_track_distance(C, 'euclidean', r))]


def law_path_radius_single(lat: 'lat', lon: 'lon', z: 'depth', y: 'lat', u: 'lon', w: 'depth', F: 'FrameE', one: 'once'):
    """the default radius of a path between two single points"""
    A, B = F.GeoPoint(lat, lon, z), F.GeoPoint(y, u, w)
    P = nv.GeoPath(A, B)
    r = (A.to_ecef_vector().length + B.to_ecef_vector().length) / 2
    return [('eq', P.track_distance(), nv.great_circle_distance(A.to_nvector().normal, B.to_nvector().normal, r)[0])]


def law_track(ti: 'ti', t: 't', n: 'nvec'):
    """tracks are interpolated linearly by default"""
    return [('eq', nv.interp_nvectors(ti, t, n), nv.interp_nvectors(ti, t, n, 'linear', 0, 2, 'interp', 0.0))]


def law_unit(p: 'pos'):
    """zero vectors become vectors along x by default"""
    return [('eq', nv.unit(p), nv.unit(p, 1))]
