"""The kind of a position and the spelling of a method do not matter."""
import numpy as np
import nvector as nv


# ------------------------------------------------------------------ conversions
def law_own_kind(P: 'GeoPoint', N: 'Nvector', E: 'ECEFvector'):
    """converting a position to its own kind changes nothing"""
    p, n, e = P.to_geo_point(), N.to_nvector(), E.to_ecef_vector()
    return [('eq', p.latitude, P.latitude), ('eq', p.longitude, P.longitude), ('eq', p.z, P.z), ('eq', n.normal, N.normal), ('eq', n.z, N.z), ('eq', e.pvector, E.pvector)]


def law_geo_point_chain(P: 'GeoPoint'):
    """all ways to the ECEF vector of a GeoPoint agree"""
    return [('eq', P.to_ecef_vector().pvector, P.to_nvector().to_ecef_vector().pvector),
            ('eq', P.to_ecef_vector().pvector, P.to_nvector().to_geo_point().to_ecef_vector().pvector)]


def law_ecef_chain(E: 'ECEFvector'):
    """all ways to the latitude, longitude and depth of an ECEF vector agree"""
    p, q = E.to_geo_point(), E.to_nvector().to_geo_point()
    return [('eq', p.latitude, q.latitude), ('eq', p.longitude, q.longitude), ('eq', p.z, q.z)]


def law_pvector_chain(n: 'nvec', z: 'depth', F: 'FrameE', p: 'pos', wa: 'rad'):
    """all ways from a vector in a local frame to positions agree"""
    V = nv.FrameL(F.Nvector(n, z), wa).Pvector(p)
    a, b = V.to_nvector(), V.to_ecef_vector().to_nvector()
    c, d = V.to_geo_point(), V.to_ecef_vector().to_geo_point()
    return [('eq', a.normal, b.normal), ('eq', a.z, b.z), ('eq', c.latitude, d.latitude), ('eq', c.longitude, d.longitude), ('eq', c.z, d.z)]


# ------------------------------------------------------------------ vectors between positions
def law_delta_E(P: 'GeoPoint', N: 'Nvector', p: 'pos'):
    """delta_E takes positions of every kind"""
    Q = nv.Nvector(N.normal, N.z, P.frame)
    E = P.frame.ECEFvector(p)
    d = nv.delta_E(P, Q).pvector
    return [('eq', nv.delta_E(P.to_nvector(), Q).pvector, d), ('eq', nv.delta_E(P.to_ecef_vector(), Q).pvector, d), ('eq', nv.delta_E(P, Q.to_geo_point()).pvector, d),
            ('eq', nv.delta_E(P, Q.to_ecef_vector()).pvector, d), ('eq', nv.delta_E(P, E).pvector, nv.delta_E(P.to_ecef_vector(), E).pvector),
            ('eq', nv.delta_E(E, Q).pvector, nv.delta_E(E, Q.to_ecef_vector()).pvector)]


def law_delta_N(P: 'GeoPoint', N: 'Nvector', p: 'pos'):
    """delta_N and delta_to take positions of every kind"""
    Q = nv.Nvector(N.normal, N.z, P.frame)
    E = P.frame.ECEFvector(p)
    d = nv.delta_N(P, Q).pvector
    e = nv.delta_N(P, E).pvector
    return [('eq', nv.delta_N(P.to_nvector(), Q).pvector, d), ('eq', nv.delta_N(P, Q.to_geo_point()).pvector, d), ('eq', nv.delta_N(P, Q.to_ecef_vector()).pvector, d),
            ('eq', P.delta_to(Q).pvector, d), ('eq', P.to_nvector().delta_to(Q).pvector, d), ('eq', P.delta_to(Q.to_ecef_vector()).pvector, d),
            ('eq', P.delta_to(E).pvector, e), ('eq', P.to_nvector().delta_to(E).pvector, e), ('eq', E.delta_to(Q).pvector, nv.delta_N(E, Q).pvector)]


def law_delta_L(P: 'GeoPoint', N: 'Nvector', wa: 'rad'):
    """delta_L takes positions of every kind"""
    Q = nv.Nvector(N.normal, N.z, P.frame)
    d = nv.delta_L(P, Q, wa).pvector
    return [('eq', nv.delta_L(P.to_nvector(), Q, wa).pvector, d), ('eq', nv.delta_L(P, Q.to_geo_point(), wa).pvector, d), ('eq', nv.delta_L(P, Q.to_ecef_vector(), wa).pvector, d)]


# ------------------------------------------------------------------ local frames
def law_frames(P: 'GeoPoint', E: 'ECEFvector', wa: 'rad', y: 'rad', p: 'rad', r: 'rad'):
    """local frames can be put at positions of every kind"""
    out = []
    for A in (P, E):
        B = A.to_nvector()
        out += [('eq', nv.FrameN(A).R_EN, nv.FrameN(B).R_EN), ('eq', nv.FrameL(A, wa).R_EN, nv.FrameL(B, wa).R_EN), ('eq', nv.FrameB(A, y, p, r).R_EN, nv.FrameB(B, y, p, r).R_EN)]
    return out


# ------------------------------------------------------------------ paths
def law_path_ends(P: 'GeoPoint', E: 'ECEFvector', Q: 'Nvector'):
    """a path may start at positions of every kind"""
    out = []
    for A in (P, E):
        B = nv.Nvector(Q.normal, Q.z, A.frame)
        p, q = nv.GeoPath(A, B), nv.GeoPath(A.to_nvector(), B)
        n, m = p.nvectors(), q.nvectors()
        g, h = p.geo_points(), q.geo_points()
        out += [('eq', n[0].normal, m[0].normal), ('eq', n[0].z, m[0].z), ('eq', n[1].normal, m[1].normal), ('eq', n[1].z, m[1].z),
                ('eq', g[0].latitude, h[0].latitude), ('eq', g[0].longitude, h[0].longitude), ('eq', g[0].z, h[0].z),
                ('eq', p.nvector_normals()[0], q.nvector_normals()[0]), ('eq', p.nvector_normals()[1], q.nvector_normals()[1])]
    p = nv.GeoPath(P, nv.Nvector(Q.normal, Q.z, P.frame)).ecef_vectors()
    return out + [('eq', p[0].pvector, P.to_ecef_vector().pvector), ('eq', p[1].pvector, nv.Nvector(Q.normal, Q.z, P.frame).to_ecef_vector().pvector)]


def law_track_distance(P: 'GeoPoint', Q: 'Nvector', r: 'radius'):
    """the length of a path does not depend on the kind of its ends"""
    B = nv.Nvector(Q.normal, Q.z, P.frame)
    p, q = nv.GeoPath(P, B), nv.GeoPath(P.to_nvector(), B)
    return [('eq', p.track_distance(), q.track_distance()), ('eq', p.track_distance('euclidean'), q.track_distance('euclidean')),
            ('eq', p.track_distance('greatcircle', r), q.track_distance('greatcircle', r)), ('eq', p.track_distance('ellipsoidal'), q.track_distance('ellipsoidal'))]


def law_cross_track(A: 'Nvector', B: 'Nvector', P: 'GeoPoint', E: 'ECEFvector', r: 'radius'):
    """cross track distances can be measured to positions of every kind"""
    p = nv.GeoPath(A, B)
    out = []
    for C in (P, E):
        D = C.to_nvector()
        out += [('eq', p.cross_track_distance(C), p.cross_track_distance(D)), ('eq', p.cross_track_distance(C, 'euclidean', r), p.cross_track_distance(D, 'euclidean', r))]
    return out


def law_on_path(A: 'Nvector', B: 'Nvector', P: 'GeoPoint', E: 'ECEFvector'):
    """the verdict on a position does not depend on its kind"""
    p = nv.GeoPath(A, B)
    out = []
    for C in (P, E):
        D = C.to_nvector()
        out += [('eq', p.on_path(C), p.on_path(D)), ('eq', p.on_great_circle(C), p.on_great_circle(D))]
    return out


def law_on_ellipsoid_path(P: 'GeoPoint', b: 'nvec', z: 'depth', c: 'nvec', w: 'depth', one: 'once'):
    """the verdict about the path on the ellipsoid does not depend on the kind of the position"""
    A, B, C = P.to_nvector(), P.frame.Nvector(b, z), P.frame.Nvector(c, w)
    return [('eq', nv.GeoPath(A, B).on_path(C, 'ellipsoid'), nv.GeoPath(A, B).on_path(C.to_geo_point(), 'ellipsoid'))]


def law_closest(A: 'Nvector', B: 'Nvector', P: 'GeoPoint', E: 'ECEFvector'):
    """the closest point does not depend on the kind of the position"""
    p = nv.GeoPath(A, B)
    out = []
    for C in (P, E):
        c, d = p.closest_point_on_great_circle(C), p.closest_point_on_great_circle(C.to_nvector())
        out += [('eq', c.latitude, d.latitude), ('eq', c.longitude, d.longitude), ('eq', c.z, d.z)]
    return out


def law_intersect(P: 'GeoPoint', B: 'Nvector', C: 'Nvector', D: 'Nvector'):
    """the intersection does not depend on the kind of the ends"""
    p, q, r = nv.GeoPath(P, B), nv.GeoPath(P.to_nvector(), B), nv.GeoPath(C, D)
    return [('eq', p.intersect(r).normal, q.intersect(r).normal), ('eq', p.intersect(r).z, q.intersect(r).z), ('eq', r.intersect(p).normal, r.intersect(q).normal)]


def law_interpolate(P: 'GeoPoint', Q: 'Nvector', E: 'ECEFvector', t: 'scalar'):
    """points along the path do not depend on the kind of the ends"""
    out = []
    for A in (P, E):
        B = nv.Nvector(Q.normal, Q.z, A.frame)
        p, q = nv.GeoPath(A, B).interpolate(t), nv.GeoPath(A.to_nvector(), B).interpolate(t)
        out += [('eq', p.normal, q.normal), ('eq', p.z, q.z)]
    return out


# ------------------------------------------------------------------ distances
def law_distance(P: 'GeoPoint', Q: 'Nvector', p: 'pos'):
    """distance and azimuth to a position do not depend on its kind"""
    out = []
    E = P.frame.ECEFvector(p)
    N = nv.Nvector(Q.normal, Q.z, P.frame)
    for X, Y in ((N, N.to_geo_point()), (E, E.to_nvector()), (E, E.to_geo_point())):
        a, b = P.distance_and_azimuth(X), P.distance_and_azimuth(Y)
        out += [('eq', a[0], b[0]), ('eq', a[1], b[1]), ('eq', a[2], b[2])]
    return out


def law_distance_greatcircle(P: 'GeoPoint', Q: 'Nvector'):
    """great circle distance and azimuth to a position do not depend on its kind"""
    N = nv.Nvector(Q.normal, Q.z, P.frame)
    a, b = P.distance_and_azimuth(N, method='greatcircle'), P.distance_and_azimuth(N.to_geo_point(), method='greatcircle')
    return [('eq', a[0], b[0]), ('eq', a[1], b[1]), ('eq', a[2], b[2])]


# ------------------------------------------------------------------ methods
def law_method_cross_track(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius'):
    """great circle and euclidean cross track distances"""
    s = np.sum(nv.unit(np.cross(a, b, axis=0)) * c, axis=0)
    return [('eq', nv.cross_track_distance((a, b), c, 'greatcircle', r), -np.arcsin(s) * r), ('eq', nv.cross_track_distance((a, b), c, 'euclidean', r), -s * r)]


def law_method_track(P: 'GeoPoint', B: 'Nvector', r: 'radius'):
    """great circle, euclidean and ellipsoidal track distances"""
    Q = nv.Nvector(B.normal, B.z, P.frame)
    p, n, m = nv.GeoPath(P, Q), P.to_nvector().normal, B.normal
    return [('eq', p.track_distance('greatcircle', r), nv.great_circle_distance(n, m, r)), ('eq', p.track_distance('euclidean', r), nv.euclidean_distance(n, m, r)),
            ('eq', p.track_distance('ellipsoidal'), P.distance_and_azimuth(Q)[0]), ('eq', p.track_distance('exact'), P.distance_and_azimuth(Q)[0])]


def law_method_on_path(P: 'GeoPoint', b: 'nvec', z: 'depth', c: 'nvec', w: 'depth', one: 'once'):
    """paths on the great circle and on the ellipsoid"""
    B, C = P.frame.Nvector(b, z), P.frame.Nvector(c, w)
    p = nv.GeoPath(P, B)
    return [('eq', p.on_path(C, 'ellipsoid'), p.on_path(C, 'exact'))]


def law_method_distance(P: 'GeoPoint', B: 'Nvector'):
    """great circle and ellipsoidal distances"""
    Q = nv.Nvector(B.normal, B.z, P.frame)
    r = (P.to_ecef_vector().length + Q.to_ecef_vector().length) / 2
    d = P.distance_and_azimuth(Q, method='greatcircle')
    e = P.distance_and_azimuth(Q, method='ellipsoid')
    f = P.frame.inverse(P.latitude, P.longitude, Q.to_geo_point().latitude, Q.to_geo_point().longitude, (P.z + Q.z) / 2)
    return [('eq', d[0], nv.great_circle_distance(P.to_nvector().normal, Q.normal, r)), ('eq', e[0], f[0]), ('eq', e[1], f[1]), ('eq', e[2], f[2])]


def law_method_displace(P: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displacements along great circles and on the ellipsoid"""
    A, q = P.displace(d, az, method='ellipsoid')
    lat, lon, zb = P.frame.direct(P.latitude, P.longitude, az, d, P.z)
    B, r = P.displace(d, az, method='greatcircle')
    n = nv.n_EA_E_distance_and_azimuth2n_EB_E(P.to_nvector().normal, d / P.to_ecef_vector().length, az, P.frame.R_Ee)
    return [('eq', A.latitude, lat), ('eq', A.longitude, lon), ('eq', q, zb), ('eq', B.to_nvector().normal, n)]
