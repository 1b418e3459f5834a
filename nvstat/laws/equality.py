"""What equality of points, vectors and frames means."""
import numpy as np
import nvector as nv
from nvector.util import allclose


def close(x, y):
    return allclose(x, y, rtol=1e-12, atol=1e-14)


def law_reflexive(A: 'Nvector', B: 'GeoPoint', C: 'ECEFvector', F: 'FrameE'):
    """every object equals itself"""
    return [('flag', A == A, True), ('flag', B == B, True), ('flag', C == C, True), ('flag', F == F, True),
            ('flag', A != A, False), ('flag', B != B, False), ('flag', C != C, False), ('flag', F != F, False)]


def law_kinds(A: 'Nvector', B: 'GeoPoint', C: 'ECEFvector', F: 'FrameE'):
    """objects of different kinds are not equal"""
    N = nv.FrameN(A)
    return [('flag', A == B, False), ('flag', B == A, False), ('flag', A == C, False), ('flag', C == A, False), ('flag', B == C, False), ('flag', C == B, False),
            ('flag', A == F, False), ('flag', F == A, False), ('flag', N == F, False), ('flag', F == N, False), ('flag', A == 1, False), ('flag', F == 'x', False),
            ('flag', A != B, True), ('flag', B != A, True), ('flag', C != B, True), ('flag', F != A, True)]


def law_local_kinds(A: 'Nvector', wa: 'scalar', yaw: 'scalar', pitch: 'scalar', roll: 'scalar'):
    """a body frame equals no level frame"""
    N, L, B = nv.FrameN(A), nv.FrameL(A, wa), nv.FrameB(A, yaw, pitch, roll)
    return [('flag', N == B, False), ('flag', B == N, False), ('flag', L == B, False), ('flag', B == L, False)]


def law_GeoPoint(A: 'GeoPoint', z: 'depth'):
    """points that differ in depth only are equal when the depths are close"""
    return [('eq', A == nv.GeoPoint(A.latitude, A.longitude, z, A.frame), close(A.z, z))]


def gap(x, y):
    """angle between two directions, whole turns aside"""
    d = (x - y) % (2 * np.pi)
    return np.where(d > np.pi, 2 * np.pi - d, d)


def law_GeoPoint_latitude(A: 'GeoPoint', lat: 'lat'):
    """points that differ in latitude only are equal when the latitudes are close"""
    return [('eq', A == nv.GeoPoint(lat, A.longitude, A.z, A.frame), close(gap(A.latitude, lat), 0))]


def law_GeoPoint_longitude(A: 'GeoPoint', lon: 'lon'):
    """points that differ in longitude only are equal when the longitudes are close, whole turns aside"""
    return [('eq', A == nv.GeoPoint(A.latitude, lon, A.z, A.frame), close(gap(A.longitude, lon), 0)),
            ('eq', A == nv.GeoPoint(A.latitude, A.longitude + 2 * np.pi, A.z, A.frame), True)]


def law_GeoPoint_frame(A: 'GeoPoint', F: 'FrameE'):
    """points that differ in the frame only are equal when the frames are"""
    return [('eq', A == nv.GeoPoint(A.latitude, A.longitude, A.z, F), A.frame == F)]


def law_GeoPoint_symmetric(A: 'GeoPoint', B: 'GeoPoint'):
    """equality of points is symmetric and != is its negation"""
    return [('eq', A == B, B == A), ('eq', A != B, np.logical_not(A == B))]


def law_Nvector(A: 'Nvector', n: 'nvec', z: 'depth', F: 'FrameE'):
    """n-vector objects that differ in one respect are equal when that is close"""
    return [('eq', A == nv.Nvector(n, A.z, A.frame), close(A.normal, n)), ('eq', A == nv.Nvector(A.normal, z, A.frame), close(A.z, z)),
            ('eq', A == nv.Nvector(A.normal, A.z, F), A.frame == F)]


def law_Nvector_symmetric(A: 'Nvector', B: 'Nvector'):
    """equality of n-vector objects is symmetric and != is its negation"""
    return [('eq', A == B, B == A), ('eq', A != B, np.logical_not(A == B))]


def law_ECEFvector(A: 'ECEFvector', p: 'pos', F: 'FrameE'):
    """position vectors that differ in one respect are equal when that is close"""
    return [('eq', A == nv.ECEFvector(p, A.frame), close(A.pvector, p)), ('eq', A == nv.ECEFvector(A.pvector, F), A.frame == F)]


def law_ECEFvector_symmetric(A: 'ECEFvector', B: 'ECEFvector'):
    """equality of position vectors is symmetric and != is its negation"""
    return [('eq', A == B, B == A), ('eq', A != B, np.logical_not(A == B))]


def law_FrameE(F: 'FrameE', a: 'a', f: 'f'):
    """frames that differ in one respect are equal when that is close"""
    G, H, J, K = nv.FrameE(a, f, axes='e'), nv.FrameE(a, f, axes='E'), nv.FrameE(F.a, f, axes='e'), nv.FrameE(a, F.f, axes='e')
    L = nv.FrameE(a, f, 'GRS80', 'e')
    return [('eq', G == H, False), ('eq', G == L, True), ('eq', G == J, close(a, F.a)), ('eq', G == K, close(f, F.f))]


def law_FrameE_symmetric(F: 'FrameE', G: 'FrameE'):
    """equality of frames is symmetric and != is its negation"""
    return [('eq', F == G, G == F), ('eq', F != G, np.logical_not(F == G))]


def law_FrameB(A: 'Nvector', yaw: 'rad', pitch: 'rad', roll: 'rad', x: 'rad'):
    """body frames at one position are equal when their angles and matrices are"""
    F = nv.FrameB(A, yaw, pitch, roll)
    G, H, J = nv.FrameB(A, x, pitch, roll), nv.FrameB(A, yaw, x, roll), nv.FrameB(A, yaw, pitch, x)
    return [('eq', F == F, True), ('eq', F == G, close(yaw, x) & close(F.R_EN, G.R_EN)), ('eq', F == H, close(pitch, x) & close(F.R_EN, H.R_EN)),
            ('eq', F == J, close(roll, x) & close(F.R_EN, J.R_EN)), ('eq', F == G, G == F)]


def law_FrameB_position(A: 'Nvector', B: 'Nvector', yaw: 'rad', pitch: 'rad', roll: 'rad'):
    """body frames of the same orientation are equal when their positions are"""
    F, G = nv.FrameB(A, yaw, pitch, roll), nv.FrameB(B, yaw, pitch, roll)
    return [('eq', F == G, close(F.R_EN, G.R_EN) & (A == B))]


def law_FrameN(A: 'Nvector', B: 'Nvector'):
    """level frames are equal when their horizontal positions and matrices are"""
    F, G = nv.FrameN(A), nv.FrameN(B)
    same = nv.Nvector(A.normal, 0, A.frame) == nv.Nvector(B.normal, 0, B.frame)
    return [('eq', F == F, True), ('eq', F == G, close(F.R_EN, G.R_EN) & same), ('eq', F == G, G == F), ('eq', F != G, np.logical_not(F == G))]


def law_FrameL(A: 'Nvector', u: 'rad', w: 'rad'):
    """wander azimuth frames at one position are equal when their matrices are"""
    F, G = nv.FrameL(A, u), nv.FrameL(A, w)
    return [('eq', F == F, True), ('eq', F == G, close(F.R_EN, G.R_EN)), ('eq', F == G, G == F)]


def law_isclose(x: 'scalar', y: 'scalar', r: 'tolerance', t: 'tolerance'):
    """closeness is within the larger of the absolute and the relative tolerance, and symmetric"""
    from nvector.util import isclose
    return [('eq', isclose(x, y, r, t), abs(x - y) <= np.maximum(t, r * np.maximum(abs(x), abs(y)))), ('eq', isclose(x, y, r, t), isclose(y, x, r, t)),
            ('eq', allclose(x, y, r, t), np.all(isclose(x, y, r, t)))]


def law_isclose_default(x: 'scalar', y: 'scalar'):
    """closeness is relative (1e-9, for allclose 1e-7) by default, and absolute (1e-14) for allclose only"""
    from nvector.util import isclose
    return [('eq', isclose(x, y), abs(x - y) <= 1e-9 * np.maximum(abs(x), abs(y))),
            ('eq', allclose(x, y), np.all(abs(x - y) <= np.maximum(1e-14, 1e-7 * np.maximum(abs(x), abs(y)))))]
