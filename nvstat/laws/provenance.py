"""Results belong to the frame of the positions they are made from, at the documented depth."""
import numpy as np
import nvector as nv


def framed(x, F):
    """x is given in a frame with the ellipsoid and axes of F"""
    return [('eq', x.frame.a, F.a), ('eq', x.frame.f, F.f), ('eq', x.frame.R_Ee, F.R_Ee)]


def local(V, L):
    """V is given in the local frame L"""
    return [('eq', V.frame.R_EN, L.R_EN), ('eq', V.frame.nvector.normal, L.nvector.normal), ('eq', V.frame.nvector.z, L.nvector.z)] + framed(V.frame.nvector, L.nvector.frame)


def at(A, n, z):
    """another position in the frame of A"""
    return nv.Nvector(n, z, A.frame)


# ------------------------------------------------------------------ conversions
def law_GeoPoint(P: 'GeoPoint'):
    """conversions of a GeoPoint stay in its frame, at its depth"""
    return framed(P.to_nvector(), P.frame) + framed(P.to_ecef_vector(), P.frame) + framed(P.to_geo_point(), P.frame) + [('eq', P.to_nvector().z, P.z)]


def law_Nvector(N: 'Nvector'):
    """conversions of an n-vector stay in its frame, at its depth"""
    return framed(N.to_nvector(), N.frame) + framed(N.to_ecef_vector(), N.frame) + framed(N.to_geo_point(), N.frame) + [('eq', N.to_geo_point().z, N.z)]


def law_ECEFvector(E: 'ECEFvector'):
    """conversions of an ECEF vector stay in its frame"""
    return framed(E.to_nvector(), E.frame) + framed(E.to_ecef_vector(), E.frame) + framed(E.to_geo_point(), E.frame)


def law_Pvector(N: 'Nvector', p: 'pos', wa: 'rad'):
    """conversions of a vector in a local frame lead to the Earth frame of its origin"""
    out = []
    for L in (nv.FrameN(N), nv.FrameL(N, wa), nv.FrameB(N, wa)):
        V = L.Pvector(p)
        out += framed(V.to_ecef_vector(), N.frame) + framed(V.to_nvector(), N.frame) + framed(V.to_geo_point(), N.frame) + local(V, L)
    return out


def law_change_frame(N: 'Nvector', p: 'pos', wa: 'rad'):
    """change_frame leads to the frame given"""
    E = N.frame.ECEFvector(p)
    return local(E.change_frame(nv.FrameN(N)), nv.FrameN(N)) + local(E.change_frame(nv.FrameL(N, wa)), nv.FrameL(N, wa)) + local(E.change_frame(nv.FrameB(N, wa)), nv.FrameB(N, wa))


def law_local_origin(P: 'GeoPoint', wa: 'rad', y: 'rad', p: 'rad', r: 'rad'):
    """the origin of N and L is on the surface below the position, that of B the position"""
    N = P.to_nvector()
    out = []
    for L in (nv.FrameN(P), nv.FrameL(P, wa)):
        out += [('eq', L.nvector.normal, N.normal), ('eq', L.nvector.z, 0)] + framed(L.nvector, P.frame)
    B, D = nv.FrameB(P, y, p, r), nv.FrameB(P, nv.deg(y), nv.deg(p), nv.deg(r), degrees=True)
    return out + framed(B.nvector, P.frame) + [
        ('eq', B.nvector.normal, N.normal), ('eq', B.nvector.z, P.z), ('eq', nv.FrameL(P, wa).wander_azimuth, wa),
        ('eq', B.yaw, y), ('eq', B.pitch, p), ('eq', B.roll, r), ('eq', D.yaw, y), ('eq', D.pitch, p), ('eq', D.roll, r)]


def law_local_origin_ecef(E: 'ECEFvector', wa: 'rad'):
    """local frames at an ECEF vector have its n-vector"""
    N = E.to_nvector()
    B = nv.FrameB(E, wa)
    return [('eq', nv.FrameN(E).nvector.normal, N.normal), ('eq', nv.FrameL(E, wa).nvector.normal, N.normal), ('eq', B.nvector.normal, N.normal), ('eq', B.nvector.z, N.z),
            ('eq', nv.FrameN(E).nvector.z, 0), ('eq', nv.FrameL(E, wa).nvector.z, 0)] + framed(B.nvector, E.frame)


# ------------------------------------------------------------------ vectors between positions
def law_delta_E(A: 'Nvector', n: 'nvec', z: 'depth'):
    """the vector between two positions is given in their frame"""
    B = at(A, n, z)
    return framed(nv.delta_E(A, B), A.frame) + framed(nv.delta_E(A.to_ecef_vector(), B), A.frame)


def law_delta_N(A: 'Nvector', n: 'nvec', z: 'depth'):
    """delta_N is given in the local frame at the first position"""
    B = at(A, n, z)
    return local(nv.delta_N(A, B), nv.FrameN(A)) + local(A.delta_to(B), nv.FrameN(A)) + local(A.to_geo_point().delta_to(B), nv.FrameN(A))


def law_delta_L(A: 'Nvector', n: 'nvec', z: 'depth', wa: 'rad'):
    """delta_L is given in the local frame at the first position turned by the wander azimuth"""
    V = nv.delta_L(A, at(A, n, z), wa)
    return local(V, nv.FrameL(A, wa)) + [('eq', V.frame.wander_azimuth, wa)]


# ------------------------------------------------------------------ arithmetic
def law_Nvector_arithmetic(A: 'Nvector', n: 'nvec', z: 'depth', k: 'scalar'):
    """sums, differences and multiples of n-vectors act on components and depth alike, in the same frame"""
    B = at(A, n, z)
    s, d, m, p, q, t = A + B, A - B, -A, A * k, k * A, A / k
    out = [('eq', s.normal, A.normal + n), ('eq', s.z, A.z + z), ('eq', d.normal, A.normal - n), ('eq', d.z, A.z - z), ('eq', m.normal, -A.normal), ('eq', m.z, -A.z),
           ('eq', p.normal, A.normal * k), ('eq', p.z, A.z * k), ('eq', q.normal, A.normal * k), ('eq', q.z, A.z * k), ('eq', t.normal, A.normal / k), ('eq', t.z, A.z / k)]
    for x in (s, d, m, p, q, t):
        out += framed(x, A.frame)
    return out


def law_ECEF_arithmetic(E: 'ECEFvector', p: 'pos'):
    """sums and differences of ECEF vectors act on components, in the same frame"""
    D = E.frame.ECEFvector(p)
    s, d, m = E + D, E - D, -E
    return [('eq', s.pvector, E.pvector + p), ('eq', d.pvector, E.pvector - p), ('eq', m.pvector, -E.pvector)] + framed(s, E.frame) + framed(d, E.frame) + framed(m, E.frame)


def law_mean(A: 'Nvector'):
    """the mean of n-vectors has the mean depth"""
    return framed(A.mean(), A.frame) + [('eq', A.mean().z, np.mean(A.z))]


def law_unit(A: 'Nvector'):
    """normalising an n-vector keeps its depth and frame"""
    n, z, F = A.normal, A.z, A.frame
    A.unit()
    return framed(A, F) + [('eq', A.z, z), ('eq', A.normal, nv.unit(n))]


def law_track(A: 'Nvector', ti: 'ti', t: 't'):
    """a track interpolated stays in its frame"""
    return framed(A.interpolate(ti, t), A.frame)


# ------------------------------------------------------------------ displacement
def law_displace(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displaced points stay in the frame and at the depth of the point"""
    out = []
    for method in ('ellipsoid', 'greatcircle'):
        B, q = A.displace(d, az, method=method)
        out += framed(B, A.frame) + [('eq', B.z, A.z)]
    return out


# ------------------------------------------------------------------ paths
def law_interpolate(A: 'Nvector', n: 'nvec', z: 'depth', t: 'scalar'):
    """along a path the depth changes linearly"""
    B = at(A, n, z)
    C = nv.GeoPath(A, B).interpolate(t)
    return framed(C, A.frame) + [('eq', C.z, A.z + (z - A.z) * t)]


def law_intersect(A: 'Nvector', n: 'nvec', z: 'depth', m: 'nvec', w: 'depth', k: 'nvec', u: 'depth'):
    """the intersection is at the average depth of the four ends"""
    X = nv.GeoPath(A, at(A, n, z)).intersect(nv.GeoPath(at(A, m, w), at(A, k, u)))
    return framed(X, A.frame) + [('eq', X.z, (A.z + z + w + u) / 4)]


def law_closest_on_circle(A: 'Nvector', n: 'nvec', z: 'depth', m: 'nvec', w: 'depth'):
    """the closest point on the great circle is at the average depth of the path"""
    X = nv.GeoPath(A, at(A, n, z)).closest_point_on_great_circle(at(A, m, w))
    return framed(X, A.frame) + [('eq', X.z, (A.z + z) / 2)]


def law_closest_on_path(A: 'Nvector', n: 'nvec', z: 'depth', m: 'nvec', w: 'depth', one: 'once'):
    """the closest point on the path is in the frame of the path"""
    X = nv.GeoPath(A, at(A, n, z)).closest_point_on_path(at(A, m, w))
    return framed(X, A.frame)


def law_views(A: 'GeoPoint', n: 'nvec', z: 'depth'):
    """the ends of a path keep frame and depth in every representation"""
    B = at(A, n, z)
    P = nv.GeoPath(A, B)
    x, y = P.nvectors()
    g, h = P.geo_points()
    e, f = P.ecef_vectors()
    out = [('eq', x.z, A.z), ('eq', y.z, z), ('eq', g.z, A.z), ('eq', h.z, z), ('eq', y.normal, n), ('eq', g.latitude, A.latitude), ('eq', g.longitude, A.longitude)]
    for v in (x, y, g, h, e, f):
        out += framed(v, A.frame)
    return out
