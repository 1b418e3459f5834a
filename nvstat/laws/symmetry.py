"""What happens to results when the roles of the arguments are exchanged."""
import numpy as np
import nvector as nv


def law_great_circle_distance(a: 'nvec', b: 'nvec', r: 'radius'):
    """the great circle distance is symmetric and zero for equal positions"""
    return [('eq', nv.great_circle_distance(a, b, r), nv.great_circle_distance(b, a, r)), ('eq', nv.great_circle_distance(a, a, r), 0)]


def law_euclidean_distance(a: 'nvec', b: 'nvec', r: 'radius'):
    """the euclidean distance is symmetric and zero for equal positions"""
    return [('eq', nv.euclidean_distance(a, b, r), nv.euclidean_distance(b, a, r)), ('eq', nv.euclidean_distance(a, a, r), 0)]


def law_antipode(a: 'nvec', b: 'nvec', r: 'radius'):
    """opposite positions are half the circumference away, and distances to opposite positions add up to it"""
    return [('eq', nv.euclidean_distance(a, -a, r), 2 * r), ('eq', np.cos(nv.great_circle_distance(a, b, r) / r), -np.cos(nv.great_circle_distance(a, -b, r) / r))]


def law_great_circle_normal(a: 'nvec', b: 'nvec'):
    """reversing a great circle reverses its normal"""
    return [('eq', nv.great_circle_normal(a, b), -nv.great_circle_normal(b, a))]


def law_cross_track(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius'):
    """reversing a path changes the sign of cross track distances"""
    return [('eq', nv.cross_track_distance((a, b), c, radius=r), -nv.cross_track_distance((b, a), c, radius=r)),
            ('eq', nv.cross_track_distance((a, b), c, 'euclidean', r), -nv.cross_track_distance((b, a), c, 'euclidean', r)),
            ('eq', nv.cross_track_distance((a, b), a, 'euclidean', r), 0), ('eq', nv.cross_track_distance((a, b), b, 'euclidean', r), 0)]


def law_on_great_circle(a: 'nvec', b: 'nvec', c: 'nvec', r: 'radius', tol: 'tolerance'):
    """being on a great circle does not depend on the direction of the path"""
    return [('eq', nv.on_great_circle((a, b), c, r, tol), nv.on_great_circle((b, a), c, r, tol)),
            ('eq', nv.on_great_circle_path((a, b), c, r, tol), nv.on_great_circle_path((b, a), c, r, tol))]


def law_closest(a: 'nvec', b: 'nvec', c: 'nvec'):
    """the closest point does not depend on the direction of the path"""
    return [('eq', nv.closest_point_on_great_circle((a, b), c), nv.closest_point_on_great_circle((b, a), c))]


def law_interpolate(a: 'nvec', b: 'nvec', t: 'scalar'):
    """interpolating backwards"""
    return [('eq', nv.interpolate((a, b), t), nv.interpolate((b, a), 1 - t))]


def law_delta_E(A: 'Nvector', B: 'Nvector'):
    """delta_E changes sign when its arguments are exchanged"""
    return [('eq', nv.delta_E(A, B).pvector, -nv.delta_E(B, A).pvector), ('eq', nv.delta_E(A, A).pvector, 0)]


def law_delta_E_sum(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """deltas add up along a polygon"""
    return [('eq', (nv.delta_E(A, B) + nv.delta_E(B, C)).pvector, nv.delta_E(A, C).pvector)]


def law_p_AB_E(a: 'nvec', b: 'nvec', za: 'depth', zb: 'depth', r: 'a', f: 'f', R_Ee: 'R_Ee'):
    """the vector from B to A is opposite to the vector from A to B"""
    return [('eq', nv.n_EA_E_and_n_EB_E2p_AB_E(a, b, za, zb, r, f, R_Ee), -nv.n_EA_E_and_n_EB_E2p_AB_E(b, a, zb, za, r, f, R_Ee)),
            ('eq', nv.n_EA_E_and_n_EB_E2p_AB_E(a, a, za, za, r, f, R_Ee), 0)]


def law_track_distance(A: 'Nvector', B: 'Nvector'):
    """a path is as long as its reverse"""
    p, q = nv.GeoPath(A, B), nv.GeoPath(B, A)
    return [('eq', p.track_distance(), q.track_distance()), ('eq', p.track_distance('euclidean'), q.track_distance('euclidean')),
            ('eq', p.track_distance('exact'), q.track_distance('exact'))]


def law_geodesic_distance(A: 'GeoPoint', B: 'GeoPoint'):
    """the geodesic distance between points is symmetric"""
    return [('eq', A.distance_and_azimuth(B)[0], B.distance_and_azimuth(A)[0])]


def law_path_cross_track(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """reversing a path object changes the sign of cross track distances"""
    p, q = nv.GeoPath(A, B), nv.GeoPath(B, A)
    return [('eq', p.cross_track_distance(C), -q.cross_track_distance(C)), ('eq', p.cross_track_distance(C, 'euclidean'), -q.cross_track_distance(C, 'euclidean'))]


def law_path_interpolate(A: 'Nvector', B: 'Nvector', t: 'scalar'):
    """interpolating a path object backwards"""
    p, q = nv.GeoPath(A, B).interpolate(t), nv.GeoPath(B, A).interpolate(1 - t)
    return [('eq', p.normal, q.normal), ('eq', p.z, q.z)]


def law_path_closest(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """the closest point of a path object does not depend on its direction"""
    p, q = nv.GeoPath(A, B).closest_point_on_great_circle(C), nv.GeoPath(B, A).closest_point_on_great_circle(C)
    return [('eq', p.latitude, q.latitude), ('angle', p.longitude, q.longitude), ('eq', p.z, q.z)]


def law_path_intersect(A: 'Nvector', B: 'Nvector', C: 'Nvector', D: 'Nvector'):
    """reversing the second path changes neither the intersection nor its depth"""
    p, q = nv.GeoPath(A, B).intersect(nv.GeoPath(C, D)), nv.GeoPath(A, B).intersect(nv.GeoPath(D, C))
    return [('eq', p.normal, q.normal), ('eq', p.z, q.z)]


def law_intersect(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec'):
    """reversing the second path does not change the intersection"""
    return [('eq', nv.intersect((a, b), (c, d)), nv.intersect((a, b), (d, c)))]


def law_distance(A: 'GeoPoint', B: 'GeoPoint'):
    """the great circle distance between geographical points is symmetric"""
    return [('eq', A.distance_and_azimuth(B, method='greatcircle')[0], B.distance_and_azimuth(A, method='greatcircle')[0])]


def law_azimuths(A: 'GeoPoint', B: 'GeoPoint'):
    """the way back leaves in the direction opposite to the arrival"""
    s, za, zb = A.distance_and_azimuth(B, method='greatcircle')
    r, yb, ya = B.distance_and_azimuth(A, method='greatcircle')
    return [('angle', yb, zb + np.pi), ('angle', ya, za + np.pi)]


def law_direct_back(n: 'nvec', d: 'rad', az: 'rad', R_Ee: 'R_Ee'):
    """a negative distance goes in the opposite direction, a whole turn leads back"""
    return [('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(n, -d, az, R_Ee), nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az + np.pi, R_Ee)),
            ('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(n, 0, az, R_Ee), n),
            ('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d + 2 * np.pi, az, R_Ee), nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee)),
            ('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az + 2 * np.pi, R_Ee), nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee))]


def law_longitude_turns(lat: 'lat', lon: 'lon', R_Ee: 'R_Ee'):
    """longitudes a whole turn apart are the same position"""
    return [('eq', nv.lat_lon2n_E(lat, lon + 2 * np.pi, R_Ee), nv.lat_lon2n_E(lat, lon, R_Ee))]


def law_mirror(lat: 'lat', lon: 'lon', R_Ee: 'R_Ee'):
    """the antipode has the opposite latitude and a longitude half a turn away"""
    return [('eq', nv.lat_lon2n_E(-lat, lon + np.pi, R_Ee), -nv.lat_lon2n_E(lat, lon, R_Ee))]


def law_arithmetic(A: 'Nvector', B: 'Nvector', k: 'radius'):
    """the arithmetic of n-vector objects is that of their components and depths"""
    s, d, m, q, n = A + B, A - B, A * k, A / k, -A
    return [('eq', s.normal, A.normal + B.normal), ('eq', s.z, A.z + B.z), ('eq', d.normal, A.normal - B.normal), ('eq', d.z, A.z - B.z),
            ('eq', m.normal, A.normal * k), ('eq', m.z, A.z * k), ('eq', q.normal, A.normal / k), ('eq', q.z, A.z / k),
            ('eq', n.normal, -A.normal), ('eq', n.z, -A.z)]


def law_ecef_arithmetic(A: 'ECEFvector', B: 'ECEFvector'):
    """the arithmetic of position vectors is that of their components"""
    return [('eq', (A + B).pvector, A.pvector + B.pvector), ('eq', (A - B).pvector, A.pvector - B.pvector), ('eq', (-A).pvector, -A.pvector)]
