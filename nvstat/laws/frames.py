"""Positions given in different frames are not combined."""
import nvector as nv
from nvector.util import allclose


def accepted(op):
    """the operation does not raise ValueError"""
    try:
        op()
    except ValueError:
        return False
    return True


def close(x, y):
    return allclose(x, y, rtol=1e-12, atol=1e-14)


def same(F, G):
    """the frames have the same ellipsoid and axes"""
    return close(F.a, G.a) & close(F.f, G.f) & close(F.R_Ee, G.R_Ee)


def law_delta_E(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE'):
    """delta_E needs positions of one frame"""
    B = nv.Nvector(n, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: nv.delta_E(A, B)), ok), ('eq', accepted(lambda: nv.delta_E(B, A)), ok)]


def law_delta_E_kinds(A: 'GeoPoint', n: 'nvec', z: 'depth', p: 'pos', G: 'FrameE'):
    """delta_E of positions of different kinds needs one frame"""
    B, C = nv.Nvector(n, z, G), nv.ECEFvector(p, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: nv.delta_E(A, B)), ok), ('eq', accepted(lambda: nv.delta_E(B, A)), ok), ('eq', accepted(lambda: nv.delta_E(A, C)), ok),
            ('eq', accepted(lambda: nv.delta_E(C, A)), ok)]


def law_delta_N(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE'):
    """delta_N needs positions of one frame"""
    B = nv.Nvector(n, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: nv.delta_N(A, B)), ok), ('eq', accepted(lambda: nv.delta_N(B, A)), ok)]


def law_delta_L(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE', wa: 'rad'):
    """delta_L needs positions of one frame"""
    B = nv.Nvector(n, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: nv.delta_L(A, B, wa)), ok), ('eq', accepted(lambda: nv.delta_L(B, A)), ok)]


def law_delta_to_Nvector(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE'):
    """delta_to of an n-vector needs positions of one frame"""
    B = nv.Nvector(n, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.delta_to(B)), ok), ('eq', accepted(lambda: B.delta_to(A)), ok)]


def law_delta_to_GeoPoint(A: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth', G: 'FrameE'):
    """delta_to of a point needs positions of one frame"""
    B = nv.GeoPoint(lat, lon, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.delta_to(B)), ok), ('eq', accepted(lambda: B.delta_to(A)), ok)]


def law_delta_to_ECEFvector(A: 'ECEFvector', p: 'pos', G: 'FrameE'):
    """delta_to of a position vector needs positions of one frame"""
    B = nv.ECEFvector(p, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.delta_to(B)), ok), ('eq', accepted(lambda: B.delta_to(A)), ok)]


def law_distance(A: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth', G: 'FrameE'):
    """distance and azimuth on the ellipsoid need positions of one frame"""
    B = nv.GeoPoint(lat, lon, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.distance_and_azimuth(B)), ok), ('eq', accepted(lambda: A.distance_and_azimuth(B, degrees=True)), ok)]


def law_distance_greatcircle(A: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth', G: 'FrameE'):
    """distance and azimuth on the great circle need positions of one frame"""
    B = nv.GeoPoint(lat, lon, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.distance_and_azimuth(B, method='greatcircle')), ok),
            ('eq', accepted(lambda: B.distance_and_azimuth(A, method='greatcircle', degrees=True)), ok)]


def law_Nvector_arithmetic(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE'):
    """n-vectors are added and subtracted in one frame only"""
    B = nv.Nvector(n, z, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A + B), ok), ('eq', accepted(lambda: A - B), ok), ('eq', accepted(lambda: B + A), ok), ('eq', accepted(lambda: B - A), ok)]


def law_ECEFvector_arithmetic(A: 'ECEFvector', p: 'pos', G: 'FrameE'):
    """position vectors are added and subtracted in one frame only"""
    B = nv.ECEFvector(p, G)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A + B), ok), ('eq', accepted(lambda: A - B), ok), ('eq', accepted(lambda: B + A), ok), ('eq', accepted(lambda: B - A), ok)]


def law_change_frame(A: 'ECEFvector', n: 'nvec', G: 'FrameE', wa: 'rad', yaw: 'rad', pitch: 'rad', roll: 'rad'):
    """a position vector changes to local frames of its own frame only"""
    B = nv.Nvector(n, 0, G)
    N, L, Y = nv.FrameN(B), nv.FrameL(B, wa), nv.FrameB(B, yaw, pitch, roll)
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: A.change_frame(N)), ok), ('eq', accepted(lambda: A.change_frame(L)), ok), ('eq', accepted(lambda: A.change_frame(Y)), ok)]


def law_path_interpolate(A: 'Nvector', n: 'nvec', z: 'depth', G: 'FrameE', t: 'scalar'):
    """interpolation needs a path within one frame"""
    path = nv.GeoPath(A, nv.Nvector(n, z, G))
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: path.interpolate(t)), ok)]


def law_path_distance(A: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth', G: 'FrameE'):
    """distances along the ellipsoid and through the Earth need a path within one frame"""
    path = nv.GeoPath(A, nv.GeoPoint(lat, lon, z, G))
    ok = same(A.frame, G)
    return [('eq', accepted(lambda: path.track_distance(method='ellipsoid')), ok), ('eq', accepted(lambda: path.track_distance(method='exact')), ok)]


def law_on_path(A: 'GeoPoint', B: 'GeoPoint', lat: 'lat', lon: 'lon', z: 'depth', G: 'FrameE'):
    """the ellipsoidal on-path test needs a point of the frame of the path"""
    path = nv.GeoPath(A, B)
    C = nv.GeoPoint(lat, lon, z, G)
    return [('eq', accepted(lambda: path.on_path(C, method='ellipsoid')), same(A.frame, G))]


def law_axes(n: 'nvec', m: 'nvec', z: 'depth', w: 'depth', a: 'a', f: 'f', wa: 'rad'):
    """positions of frames that differ in the axes only are not combined"""
    F, G = nv.FrameE(a, f, axes='e'), nv.FrameE(a, f, axes='E')
    A, B = nv.Nvector(n, z, F), nv.Nvector(m, w, G)
    return [('eq', accepted(lambda: nv.delta_E(A, B)), False), ('eq', accepted(lambda: nv.delta_E(B, A)), False),
            ('eq', accepted(lambda: nv.delta_N(A, B)), False), ('eq', accepted(lambda: nv.delta_L(A, B, wa)), False),
            ('eq', accepted(lambda: A.delta_to(B)), False), ('eq', accepted(lambda: B.delta_to(A)), False),
            ('eq', accepted(lambda: A + B), False), ('eq', accepted(lambda: A - B), False)]


def law_axes_points(lat: 'lat', lon: 'lon', z: 'depth', u: 'lat', v: 'lon', w: 'depth', a: 'a', f: 'f', t: 'scalar', n: 'nvec'):
    """points of frames that differ in the axes only are not combined"""
    F, G = nv.FrameE(a, f, axes='e'), nv.FrameE(a, f, axes='E')
    A, B, C = nv.GeoPoint(lat, lon, z, F), nv.GeoPoint(u, v, w, G), nv.GeoPoint(u, v, w, F)
    path = nv.GeoPath(A, B)
    return [('eq', accepted(lambda: nv.delta_E(A, B)), False), ('eq', accepted(lambda: A.delta_to(B)), False), ('eq', accepted(lambda: B.delta_to(A)), False),
            ('eq', accepted(lambda: A.distance_and_azimuth(B)), False), ('eq', accepted(lambda: A.distance_and_azimuth(B, method='greatcircle')), False),
            ('eq', accepted(lambda: path.interpolate(t)), False), ('eq', accepted(lambda: path.track_distance(method='ellipsoid')), False),
            ('eq', accepted(lambda: path.track_distance(method='exact')), False),
            ('eq', accepted(lambda: nv.GeoPath(A, C).on_path(B, method='ellipsoid')), False),
            ('eq', accepted(lambda: nv.GeoPath(A, C).on_path(C, method='ellipsoid')), True)]


def law_axes_vectors(p: 'pos', q: 'pos', n: 'nvec', a: 'a', f: 'f', wa: 'rad', yaw: 'rad', pitch: 'rad', roll: 'rad'):
    """position vectors of frames that differ in the axes only are not combined"""
    F, G = nv.FrameE(a, f, axes='e'), nv.FrameE(a, f, axes='E')
    A, B, C = nv.ECEFvector(p, F), nv.ECEFvector(q, G), nv.Nvector(n, 0, G)
    return [('eq', accepted(lambda: nv.delta_E(A, B)), False), ('eq', accepted(lambda: A.delta_to(B)), False), ('eq', accepted(lambda: A + B), False),
            ('eq', accepted(lambda: A - B), False), ('eq', accepted(lambda: A.change_frame(nv.FrameN(C))), False),
            ('eq', accepted(lambda: A.change_frame(nv.FrameL(C, wa))), False), ('eq', accepted(lambda: A.change_frame(nv.FrameB(C, yaw, pitch, roll))), False)]


def law_one_frame(n: 'nvec', m: 'nvec', z: 'depth', w: 'depth', a: 'a', f: 'f', t: 'scalar'):
    """positions of equal frames are combined, one object or two, and whatever their names"""
    F, G = nv.FrameE(a, f, name='one', axes='E'), nv.FrameE(a, f, name='two', axes='E')
    A, B = nv.Nvector(n, z, F), nv.Nvector(m, w, G)
    P, Q = A.to_geo_point(), B.to_geo_point()
    return [('eq', accepted(lambda: nv.delta_E(A, B)), True), ('eq', accepted(lambda: A + B), True), ('eq', accepted(lambda: A - B), True),
            ('eq', accepted(lambda: P.distance_and_azimuth(Q)), True), ('eq', accepted(lambda: nv.GeoPath(P, Q).interpolate(t)), True),
            ('eq', accepted(lambda: nv.GeoPath(P, Q).track_distance(method='ellipsoid')), True),
            ('eq', accepted(lambda: A.to_ecef_vector() + B.to_ecef_vector()), True)]
