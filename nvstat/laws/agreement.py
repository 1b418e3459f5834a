"""Objects do what the functions, and the geodesic solver, do."""
import numpy as np
import nvector as nv
from nvector.util import isclose
from geographiclib.geodesic import Geodesic

D = 180 / np.pi


# ------------------------------------------------------------------ geodesics
def law_inverse(F: 'FrameE', x: 'lat', u: 'lon', y: 'lat', w: 'lon', z: 'scalar'):
    """FrameE.inverse is the geodesic between the positions on the ellipsoid lowered by the depth"""
    s, p, q = F.inverse(x, u, y, w, z)
    r = Geodesic(F.a - z, F.f).Inverse(x * D, u * D, y * D, w * D, Geodesic.STANDARD)
    sd, pd, qd = F.inverse(x * D, u * D, y * D, w * D, z, degrees=True)
    return [('eq', s, r['s12']), ('eq', p * D, r['azi1']), ('eq', q * D, r['azi2']), ('eq', sd, r['s12']), ('eq', pd, r['azi1']), ('eq', qd, r['azi2'])]


def law_inverse_unroll(F: 'FrameE', x: 'lat', u: 'lon', y: 'lat', w: 'lon', z: 'scalar'):
    """FrameE.inverse unrolls longitudes on request"""
    s, p, q = F.inverse(x, u, y, w, z, True)
    r = Geodesic(F.a - z, F.f).Inverse(x * D, u * D, y * D, w * D, Geodesic.STANDARD | Geodesic.LONG_UNROLL)
    return [('eq', s, r['s12']), ('eq', p * D, r['azi1']), ('eq', q * D, r['azi2'])]


def law_inverse_default(F: 'FrameE', x: 'lat', u: 'lon', y: 'lat', w: 'lon'):
    """without a depth FrameE.inverse is the geodesic on the ellipsoid"""
    s, p, q = F.inverse(x, u, y, w)
    t, m, n = F.inverse(x, u, y, w, 0, False, False)
    return [('eq', s, t), ('eq', p, m), ('eq', q, n)]


def law_direct(F: 'FrameE', x: 'lat', u: 'lon', az: 'rad', d: 'scalar', z: 'scalar'):
    """FrameE.direct is the end of the geodesic on the ellipsoid lowered by the depth"""
    y, w, q = F.direct(x, u, az, d, z)
    r = Geodesic(F.a - z, F.f).Direct(x * D, u * D, az * D, d, Geodesic.STANDARD)
    yd, wd, qd = F.direct(x * D, u * D, az * D, d, z, degrees=True)
    return [('eq', y * D, r['lat2']), ('eq', w * D, r['lon2']), ('eq', q * D, r['azi2']), ('eq', yd, r['lat2']), ('eq', wd, r['lon2']), ('eq', qd, r['azi2'])]


def law_direct_unroll(F: 'FrameE', x: 'lat', u: 'lon', az: 'rad', d: 'scalar', z: 'scalar'):
    """FrameE.direct unrolls longitudes on request"""
    y, w, q = F.direct(x, u, az, d, z, True)
    r = Geodesic(F.a - z, F.f).Direct(x * D, u * D, az * D, d, Geodesic.STANDARD | Geodesic.LONG_UNROLL)
    return [('eq', y * D, r['lat2']), ('eq', w * D, r['lon2']), ('eq', q * D, r['azi2'])]


def law_displace(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displacing a point along the ellipsoid is the direct problem of its frame at its depth"""
    lat, lon, zb = A.frame.direct(A.latitude, A.longitude, az, d, A.z)
    B, q = A.displace(d, az)
    C, r = A.displace(d, az * D, degrees=True)
    return [('eq', B.latitude, lat), ('eq', B.longitude, lon), ('eq', B.z, A.z), ('eq', q, zb),
            ('eq', C.latitude, lat), ('eq', C.longitude, lon), ('eq', C.z, A.z), ('eq', r, zb * D)]


def law_displace_unroll(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displacing a point unrolls longitudes on request"""
    lat, lon, zb = A.frame.direct(A.latitude, A.longitude, az, d, A.z, True)
    B, q = A.displace(d, az, True)
    C, r = A.displace(d, az * D, long_unroll=True, degrees=True)
    return [('eq', B.longitude, lon), ('eq', C.longitude, lon), ('eq', q, zb), ('eq', r, zb * D)]


def law_distance_and_azimuth(A: 'GeoPoint', B: 'GeoPoint'):
    """distance and azimuths between points are the inverse problem of their frame at their average depth"""
    z = (A.z + B.z) / 2
    s, p, q = A.frame.inverse(A.latitude, A.longitude, B.latitude, B.longitude, z)
    r, m, n = A.distance_and_azimuth(B)
    t, v, w = A.distance_and_azimuth(B, degrees=True)
    return [('eq', r, s), ('eq', m, p), ('eq', n, q), ('eq', t, s), ('eq', v, p * D), ('eq', w, q * D)]


def law_distance_unroll(A: 'GeoPoint', B: 'GeoPoint'):
    """distance and azimuths unroll longitudes on request"""
    z = (A.z + B.z) / 2
    s, p, q = A.frame.inverse(A.latitude, A.longitude, B.latitude, B.longitude, z, True)
    r, m, n = A.distance_and_azimuth(B, True)
    return [('eq', r, s), ('eq', m, p), ('eq', n, q)]


def law_path_geodesic(A: 'GeoPoint', B: 'GeoPoint'):
    """ellipsoidal and exact track distances are the geodesic distance of the ends"""
    p = nv.GeoPath(A, B)
    s = A.distance_and_azimuth(B)[0]
    return [('eq', p.track_distance(method='ellipsoid'), s), ('eq', p.track_distance(method='exact'), s)]


# ------------------------------------------------------------------ paths
def law_on_great_circle(A: 'Nvector', B: 'Nvector', C: 'Nvector', tol: 'tolerance'):
    """a point is on the great circle of a path if its cross track distance is within the tolerance"""
    p = nv.GeoPath(A, B)
    return [('eq', p.on_great_circle(C, tol), abs(p.cross_track_distance(C)) <= tol),
            ('eq', p.on_great_circle(C), abs(p.cross_track_distance(C)) <= 1e-8)]


def law_on_path(A: 'Nvector', B: 'Nvector', C: 'Nvector', rtol: 'tolerance', atol: 'tolerance'):
    """a point is on a path if it is on the great circle path at the average depth"""
    p = nv.GeoPath(A, B)
    r = (A.to_ecef_vector().length + B.to_ecef_vector().length) / 2
    on = nv.on_great_circle_path((A.normal, B.normal), C.normal, r, atol)
    return [('eq', p.on_path(C, 'greatcircle', rtol, atol), on & isclose(C.z, (A.z + B.z) / 2, rtol, atol)),
            ('eq', p.on_path(C), p.on_path(C, 'greatcircle', 1e-6, 1e-8))]


def law_on_ellipsoid_path(A: 'GeoPoint', B: 'GeoPoint', C: 'GeoPoint', rtol: 'tolerance', atol: 'tolerance'):
    """a point is on an ellipsoidal path if it is at the average depth, no farther than the end, and in the direction of the end (or is the start)"""
    p = nv.GeoPath(A, B)
    s, az, _ = A.distance_and_azimuth(B)
    t, ac, _ = A.distance_and_azimuth(C)
    return [('eq', p.on_path(C, 'ellipsoid', rtol, atol),
             isclose(C.z, (A.z + B.z) / 2, rtol, atol) & (isclose(t, 0, 1e-9, atol) | ((t <= s) & isclose(ac, az, rtol, atol))))]


def law_closest_on_path(A: 'Nvector', B: 'Nvector', C: 'Nvector', one: 'once'):
    """the closest point on a path is the one on its great circle if that is on the path, or else the nearer end"""
    p = nv.GeoPath(A, B)
    n = (A.normal, B.normal)
    q = nv.Nvector(nv.closest_point_on_great_circle(n, C.normal), (A.z + B.z) / 2, A.frame)
    on = p.on_path(q)
    r = (A.to_ecef_vector().length + B.to_ecef_vector().length) / 2
    da, db = nv.great_circle_distance(A.normal, C.normal, r), nv.great_circle_distance(B.normal, C.normal, r)
    got = p.closest_point_on_path(C)
    if on:
        want = q
    elif da < db:
        want = A
    else:
        want = B
    want = want.to_geo_point()
    return [('eq', got.z, want.z), ('eq', got.latitude, want.latitude), ('eq', got.longitude, want.longitude)]


# ------------------------------------------------------------------ interpolation of tracks
def law_track(A: 'Nvector', t: 't', ti: 'ti'):
    """interpolating an n-vector object interpolates its n-vectors"""
    return [('eq', A.interpolate(ti, t).normal, nv.interp_nvectors(ti, t, A.normal)),
            ('eq', A.interpolate(ti, t, 'cubic').normal, nv.interp_nvectors(ti, t, A.normal, 'cubic')),
            ('eq', A.interpolate(ti, t, 'cubic', 5, 3, 'nearest').normal, nv.interp_nvectors(ti, t, A.normal, 'cubic', 5, 3, 'nearest')),
            ('eq', A.interpolate(ti, t, 'linear', 5, 2, 'constant', 1.0).normal, nv.interp_nvectors(ti, t, A.normal, 'linear', 5, 2, 'constant', 1.0))]


# ------------------------------------------------------------------ constructors and attributes
def law_factories(F: 'FrameE', lat: 'lat', lon: 'lon', z: 'depth', n: 'nvec', p: 'pos'):
    """the positions made by a frame are positions of that frame"""
    A, B, C = F.GeoPoint(lat, lon, z), F.Nvector(n, z), F.ECEFvector(p)
    return [('eq', A.latitude, lat), ('eq', A.longitude, lon), ('eq', A.z, z), ('eq', B.normal, n), ('eq', B.z, z), ('eq', C.pvector, p),
            ('flag', A.frame is F, True), ('flag', B.frame is F, True), ('flag', C.frame is F, True)]


def law_degrees(F: 'FrameE', lat: 'lat', lon: 'lon', z: 'depth'):
    """geographical points made from degrees hold radians"""
    A = F.GeoPoint(lat * D, lon * D, z, degrees=True)
    return [('eq', A.latitude, lat), ('eq', A.longitude, lon), ('eq', A.z, z)]


def law_latlon(A: 'GeoPoint'):
    """latitude, longitude and depth are available in radians and degrees"""
    a, b = A.latlon, A.latlon_deg
    return [('eq', a[0], A.latitude), ('eq', a[1], A.longitude), ('eq', a[2], A.z), ('eq', b[0], A.latitude * D), ('eq', b[1], A.longitude * D), ('eq', b[2], A.z),
            ('eq', A.latitude_deg, A.latitude * D), ('eq', A.longitude_deg, A.longitude * D)]


def law_local_pvector(A: 'Nvector', p: 'pos', wa: 'scalar'):
    """vectors made by a local frame are vectors of that frame"""
    N, L, B = nv.FrameN(A), nv.FrameL(A, wa), nv.FrameB(A)
    return [('eq', N.Pvector(p).pvector, p), ('eq', L.Pvector(p).pvector, p), ('eq', B.Pvector(p).pvector, p),
            ('flag', N.Pvector(p).frame is N, True), ('flag', L.Pvector(p).frame is L, True), ('flag', B.Pvector(p).frame is B, True)]


def law_polar_degrees(A: 'Nvector', B: 'ECEFvector'):
    """azimuth and elevation are available in radians and degrees"""
    v = B.change_frame(nv.FrameN(A))
    return [('eq', v.azimuth_deg, v.azimuth * D), ('eq', v.elevation_deg, v.elevation * D), ('eq', B.azimuth_deg, B.azimuth * D), ('eq', B.elevation_deg, B.elevation * D)]


def law_path_points(A: 'GeoPoint', B: 'Nvector'):
    """a path hands out its ends as n-vectors, points and position vectors"""
    p = nv.GeoPath(A, B)
    n, g, e, v = p.nvectors(), p.geo_points(), p.ecef_vectors(), p.nvector_normals()
    return [('eq', n[0].normal, A.to_nvector().normal), ('eq', n[1].normal, B.normal), ('eq', n[0].z, A.z), ('eq', n[1].z, B.z),
            ('eq', g[0].latitude, A.latitude), ('eq', g[1].longitude, B.to_geo_point().longitude), ('eq', g[1].z, B.z),
            ('eq', e[0].pvector, A.to_ecef_vector().pvector), ('eq', e[1].pvector, B.to_ecef_vector().pvector),
            ('eq', v[0], A.to_nvector().normal), ('eq', v[1], B.normal)]
