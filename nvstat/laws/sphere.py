"""Geometry of the sphere: what distances, cross track distances, intersections ... are by definition."""
import numpy as np
import nvector as nv


def dot(a, b):
    return np.einsum('i...,i...->...', a, b)


def cross(a, b):
    return np.cross(a, b, axis=0)


def length(a):
    return np.sqrt(dot(a, a))


def triple(a, b, c):
    return dot(cross(a, b), c)


def law_great_circle_distance(a: 'nvec', b: 'nvec', r: 'radius'):
    """the great circle distance is radius times the angle between the n-vectors"""
    t = nv.great_circle_distance(a, b, r) / r
    return [('eq', np.cos(t), dot(a, b)), ('eq', np.sin(t), length(cross(a, b)))]


def law_great_circle_distance_default(a: 'nvec', b: 'nvec'):
    """the default radius is the mean Earth radius"""
    return [('eq', nv.great_circle_distance(a, b), nv.great_circle_distance(a, b, 6371009.0)),
            ('eq', nv.euclidean_distance(a, b), nv.euclidean_distance(a, b, 6371009.0))]


def law_euclidean_distance(a: 'nvec', b: 'nvec', r: 'radius'):
    """the euclidean distance is radius times the chord"""
    return [('eq', nv.euclidean_distance(a, b, r), r * length(a - b))]


def law_normal(a: 'nvec', b: 'nvec'):
    """the normal of a great circle is the unit vector along the cross product"""
    return [('eq', nv.great_circle_normal(a, b), cross(a, b) / length(cross(a, b)))]


def law_cross_track(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius'):
    """the cross track distance is positive to the right of the path"""
    s = -triple(a, b, c) / length(cross(a, b))
    return [('eq', np.sin(nv.cross_track_distance((a, b), c, radius=r) / r), s),
            ('eq', nv.cross_track_distance((a, b), c, method='greatcircle', radius=r), np.arcsin(s) * r),
            ('eq', nv.cross_track_distance((a, b), c, method='euclidean', radius=r), s * r)]


def law_cross_track_default(a: 'nvec', b: 'nvec', c: 'nvec'):
    """the default radius of cross track distances is the mean Earth radius"""
    return [('eq', nv.cross_track_distance((a, b), c), nv.cross_track_distance((a, b), c, 'greatcircle', 6371009.0))]


def law_interpolate(a: 'nvec', b: 'nvec', t: 'scalar'):
    """interpolation goes along the chord and is lifted back to the sphere"""
    v = a + t * (b - a)
    return [('eq', nv.interpolate((a, b), t), v / length(v))]


def law_interpolate_ends(a: 'nvec', b: 'nvec'):
    """interpolation starts at A for t = 0 and ends at B for t = 1"""
    return [('eq', nv.interpolate((a, b), 0), a), ('eq', nv.interpolate((a, b), 1), b)]


def towards(v, a):
    """the direction of v or its opposite, whichever is nearer to a"""
    u = nv.unit(v)
    return np.where(dot(u, a) < 0, -u, u)


def law_intersect(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec'):
    """the intersection lies on both great circles"""
    p = nv.intersect((a, b), (c, d))
    return [('eq', triple(a, b, p), 0), ('eq', triple(c, d, p), 0), ('eq', dot(p, p), 1),
            ('eq', p, towards(cross(cross(a, b), cross(c, d)), a), 'on the side of the first end')]


def law_closest(a: 'nvec', b: 'nvec', c: 'nvec'):
    """the closest point lies on the great circle, and the way to it is at right angles"""
    p, m = nv.closest_point_on_great_circle((a, b), c), nv.unit(cross(a, b))
    return [('eq', triple(a, b, p), 0), ('eq', dot(cross(cross(a, b), c), p), 0), ('eq', dot(p, p), 1),
            ('eq', p, towards(cross(m, cross(c, m)), c), 'on the side of the position')]


def law_direct(n: 'nvec', d: 'rad', az: 'rad', R_Ee: 'R_Ee'):
    """displacing goes by the given angle in the direction given by north and east"""
    m = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee)
    R = nv.n_E2R_EN(n, R_Ee)
    north, east = R[:, 0], R[:, 1]
    flat = np.reshape(m, np.shape(north))
    return [('eq', dot(m, n), np.cos(d)), ('eq', dot(north, flat), np.sin(d) * np.cos(az)), ('eq', dot(east, flat), np.sin(d) * np.sin(az))]


def law_mean(n: 'nvec'):
    """the mean position is along the sum of the n-vectors"""
    s = np.sum(n, axis=1, keepdims=True)
    return [('eq', nv.mean_horizontal_position(n), s / length(s))]


def law_azimuth_zero(a: 'nvec', b: 'nvec', r: 'a', R_Ee: 'R_Ee'):
    """the azimuth on a sphere is measured from north towards east"""
    z = nv.n_EA_E_and_n_EB_E2azimuth(a, b, r, 0, R_Ee)
    R = nv.n_E2R_EN(a, R_Ee)
    m = np.reshape(b, np.shape(R[:, 0]))
    n, e = dot(R[:, 0], m), dot(R[:, 1], m)
    h = np.sqrt(n * n + e * e)
    return [('eq', np.cos(z), n / h), ('eq', np.sin(z), e / h)]


def law_track_distance(A: 'Nvector', B: 'Nvector', r: 'radius'):
    """the track distance of a path on a sphere of given radius"""
    p = nv.GeoPath(A, B)
    return [('eq', p.track_distance(radius=r), nv.great_circle_distance(A.normal, B.normal, r)),
            ('eq', p.track_distance('greatcircle', r), nv.great_circle_distance(A.normal, B.normal, r)),
            ('eq', p.track_distance(method='euclidean', radius=r), nv.euclidean_distance(A.normal, B.normal, r))]


def law_path_cross_track(A: 'Nvector', B: 'Nvector', C: 'Nvector', r: 'radius'):
    """the cross track distance of a point from a path on a sphere of given radius"""
    p = nv.GeoPath(A, B)
    n = (A.normal, B.normal)
    return [('eq', p.cross_track_distance(C, radius=r), nv.cross_track_distance(n, C.normal, radius=r)),
            ('eq', p.cross_track_distance(C, 'euclidean', r), nv.cross_track_distance(n, C.normal, 'euclidean', r))]


def law_path_radius(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """by default paths use the mean of the distances of their end points from the centre of the Earth"""
    p = nv.GeoPath(A, B)
    r = (A.to_ecef_vector().length + B.to_ecef_vector().length) / 2
    return [('eq', p.track_distance(), p.track_distance(radius=r)),
            ('eq', p.track_distance('euclidean'), p.track_distance('euclidean', radius=r)),
            ('eq', p.cross_track_distance(C), p.cross_track_distance(C, radius=r))]


def law_path_intersect(A: 'Nvector', B: 'Nvector', C: 'Nvector', D: 'Nvector'):
    """paths intersect where their great circles do, at the average depth"""
    q = nv.GeoPath(A, B).intersect(nv.GeoPath(C, D))
    return [('eq', q.normal, nv.intersect((A.normal, B.normal), (C.normal, D.normal))),
            ('eq', q.z, (A.z + B.z + C.z + D.z) / 4)]


def law_path_closest(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """the closest point on the great circle of a path is at the average depth of the path"""
    q = nv.GeoPath(A, B).closest_point_on_great_circle(C)
    p = q.to_nvector()
    return [('eq', p.normal, nv.closest_point_on_great_circle((A.normal, B.normal), C.normal)), ('eq', q.z, (A.z + B.z) / 2)]


def law_path_interpolate(A: 'Nvector', B: 'Nvector', t: 'scalar'):
    """interpolation along a path is linear in depth and along the chord of the n-vectors"""
    q = nv.GeoPath(A, B).interpolate(t)
    return [('eq', q.normal, nv.interpolate((A.normal, B.normal), t)), ('eq', q.z, A.z + t * (B.z - A.z))]


def law_mean_object(A: 'Nvector'):
    """the mean of an n-vector object is the mean horizontal position at the mean depth"""
    m = A.mean()
    return [('eq', m.normal, nv.mean_horizontal_position(A.normal)), ('eq', m.z, np.mean(A.z))]


def law_displace(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """displacing along a great circle uses the distance of the start from the centre of the Earth"""
    B = A.displace(d, az, method='greatcircle')[0].to_nvector()
    N = A.to_nvector()
    r = length(N.to_ecef_vector().pvector)
    return [('eq', B.normal, nv.n_EA_E_distance_and_azimuth2n_EB_E(N.normal, d / r, az, A.frame.R_Ee)), ('eq', B.z, A.z)]


def law_distance_and_azimuth(A: 'GeoPoint', B: 'GeoPoint'):
    """great circle distance and azimuths of geographical points"""
    s, za, zb = A.distance_and_azimuth(B, method='greatcircle')
    p, q = A.to_nvector(), B.to_nvector()
    R = A.frame.R_Ee
    r = (p.to_ecef_vector().length + q.to_ecef_vector().length) / 2
    return [('eq', s, nv.great_circle_distance(p.normal, q.normal, r))]


def law_end_azimuths(A: 'GeoPoint', B: 'GeoPoint'):
    """the azimuths at both ends point along the way from A to B"""
    s, za, zb = A.distance_and_azimuth(B, method='greatcircle')
    p, q = A.to_nvector().to_ecef_vector(), B.to_nvector().to_ecef_vector()
    return [('angle', za, nv.delta_N(p, q).azimuth), ('angle', zb, nv.delta_N(q, p).azimuth + np.pi)]


def law_displace_azimuth(A: 'GeoPoint', d: 'scalar', az: 'rad'):
    """the azimuth returned for the end of a displacement points away from its start"""
    B, zb = A.displace(d, az, method='greatcircle')
    return [('angle', zb, nv.delta_N(B, A.to_nvector().to_ecef_vector()).azimuth + np.pi)]


def law_on_great_circle(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius', tol: 'tolerance'):
    """a point is on the great circle if its cross track distance is within the tolerance"""
    return [('eq', nv.on_great_circle((a, b), c, r, tol), abs(nv.cross_track_distance((a, b), c, radius=r)) <= tol)]


def law_on_great_circle_path(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius', tol: 'tolerance'):
    """a point is on the path if it is on the great circle and no farther from the ends than they are from each other"""
    far = (length(c - a) <= length(b - a)) & (length(c - b) <= length(b - a))
    return [('eq', nv.on_great_circle_path((a, b), c, r, tol), far & (abs(nv.cross_track_distance((a, b), c, radius=r)) <= tol))]
