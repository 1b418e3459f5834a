"""Documented ranges of results."""
import numpy as np
import nvector as nv

PI = np.pi


# ------------------------------------------------------------------ latitudes and longitudes
def law_n_E2lat_lon(n: 'nvec', R_Ee: 'R_Ee'):
    """latitudes are at most a quarter turn, longitudes at most half a turn"""
    lat, lon = nv.n_E2lat_lon(n, R_Ee)
    return [('range', lat, -PI / 2, PI / 2), ('range', lon, -PI, PI)]


def law_geo_point(N: 'Nvector', E: 'ECEFvector'):
    """latitudes and longitudes of converted positions"""
    p, q = N.to_geo_point(), E.to_geo_point()
    return [('range', p.latitude, -PI / 2, PI / 2), ('range', p.longitude, -PI, PI), ('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI),
            ('range', p.latitude_deg, -90, 90), ('range', p.longitude_deg, -180, 180), ('range', q.latlon_deg[0], -90, 90), ('range', q.latlon_deg[1], -180, 180)]


def law_local_geo_point(n: 'nvec', z: 'depth', F: 'FrameE', p: 'pos'):
    """latitudes and longitudes of positions in a local frame"""
    q = nv.FrameN(F.Nvector(n, z)).Pvector(p).to_geo_point()
    return [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI)]


def law_displace(P: 'GeoPoint', s: 'radius', azi: 'rad'):
    """the end of a displacement"""
    out = []
    q, az = P.displace(s, azi, method='greatcircle')
    out += [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI), ('range', az, -PI, PI)]
    q, az = P.displace(s, azi, method='greatcircle', degrees=True)
    out += [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI), ('range', az, -180, 180)]
    q, az = P.displace(s, azi)
    out += [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI), ('range', az, -PI, PI)]
    q, az = P.displace(s, azi, degrees=True)
    out += [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI), ('range', az, -180, 180)]
    return out


def law_direct(F: 'FrameE', lat: 'lat', lon: 'lon', azi: 'rad', s: 'radius'):
    """the solution of the direct problem, in radians and degrees"""
    a = F.direct(lat, lon, azi, s)
    b = F.direct(lat, lon, azi, s, degrees=True)
    return [('range', a[0], -PI / 2, PI / 2), ('range', a[1], -PI, PI), ('range', a[2], -PI, PI), ('range', b[0], -90, 90), ('range', b[1], -180, 180), ('range', b[2], -180, 180)]


def law_closest(A: 'Nvector', B: 'Nvector', C: 'Nvector'):
    """the position on a great circle that is closest"""
    q = nv.GeoPath(A, B).closest_point_on_great_circle(C)
    return [('range', q.latitude, -PI / 2, PI / 2), ('range', q.longitude, -PI, PI)]


# ------------------------------------------------------------------ azimuths and other angles
def law_azimuth(n: 'nvec', m: 'nvec', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """azimuths are at most half a turn"""
    return [('range', nv.n_EA_E_and_n_EB_E2azimuth(n, m, a, f, R_Ee), -PI, PI)]


def law_distance_and_azimuth(A: 'GeoPoint', B: 'GeoPoint'):
    """distances are not negative, azimuths are at most half a turn"""
    Q = nv.GeoPoint(B.latitude, B.longitude, B.z, A.frame)
    out = []
    for method in ('greatcircle', 'ellipsoid'):
        s, a, b = A.distance_and_azimuth(Q, method=method)
        out += [('range', s, 0, None), ('range', a, -PI, PI), ('range', b, -PI, PI)]
        s, a, b = A.distance_and_azimuth(Q, method=method, degrees=True)
        out += [('range', s, 0, None), ('range', a, -180, 180), ('range', b, -180, 180)]
    return out


def law_inverse(F: 'FrameE', lat: 'lat', lon: 'lon', lat2: 'lat', lon2: 'lon'):
    """the solution of the inverse problem, in radians and degrees"""
    out = []
    s, a, b = F.inverse(lat, lon, lat2, lon2)
    t, c, d = F.inverse(lat, lon, lat2, lon2, degrees=True)
    return [('range', s, 0, None), ('range', a, -PI, PI), ('range', b, -PI, PI), ('range', t, 0, None), ('range', c, -180, 180), ('range', d, -180, 180)]


def law_euler(R: 'R'):
    """Euler angles are at most half a turn, the middle one at most a quarter turn"""
    x, y, z = nv.R2xyz(R)
    a, b, c = nv.R2zyx(R)
    return [('range', x, -PI, PI), ('range', y, -PI / 2, PI / 2), ('range', z, -PI, PI), ('range', a, -PI, PI), ('range', b, -PI / 2, PI / 2), ('range', c, -PI, PI)]


def law_pvector(n: 'nvec', z: 'depth', F: 'FrameE', p: 'pos'):
    """length, azimuth and elevation of a vector"""
    v = nv.FrameN(F.Nvector(n, z)).Pvector(p)
    return [('range', v.length, 0, None), ('range', v.azimuth, -PI, PI), ('range', v.elevation, -PI / 2, PI / 2), ('range', v.azimuth_deg, -180, 180), ('range', v.elevation_deg, -90, 90)]


def law_ecef_length(E: 'ECEFvector'):
    """lengths are not negative"""
    return [('range', E.length, 0, None)]


# ------------------------------------------------------------------ distances
def law_distances(n: 'nvec', m: 'nvec', r: 'radius'):
    """a great circle distance is at most half the circumference, no distance is negative"""
    d = nv.great_circle_distance(n, m, r)
    return [('range', d, 0, None), ('range', d / r, 0, PI), ('range', nv.euclidean_distance(n, m, r), 0, None)]


def law_cross_track(n: 'nvec', m: 'nvec', c: 'nvec', r: 'radius'):
    """a distance from a great circle is at most a quarter of the circumference"""
    return [('range', nv.cross_track_distance((n, m), c, radius=r) / r, -PI / 2, PI / 2)]


def law_path_cross_track(A: 'Nvector', B: 'Nvector', C: 'Nvector', r: 'radius'):
    """a distance from a great circle is at most a quarter of the circumference"""
    return [('range', nv.GeoPath(A, B).cross_track_distance(C, radius=r) / r, -PI / 2, PI / 2)]


def law_track(A: 'GeoPoint', B: 'GeoPoint', r: 'radius'):
    """no path has a negative length"""
    path = nv.GeoPath(A, nv.GeoPoint(B.latitude, B.longitude, B.z, A.frame))
    d = path.track_distance('greatcircle', r)
    return [('range', d, 0, None), ('range', d / r, 0, PI), ('range', path.track_distance('euclidean', r), 0, None), ('range', path.track_distance('exact'), 0, None),
            ('range', path.track_distance('ellipsoid'), 0, None)]


# ------------------------------------------------------------------ unit vectors
def law_unit(x: 'pos'):
    """no component of a unit vector exceeds one"""
    return [('range', nv.unit(x), -1, 1)]


def law_unit_results(n: 'nvec', m: 'nvec'):
    """no component of a result that is made a unit vector exceeds one"""
    return [('range', nv.interpolate((n, m), 0.3), -1, 1), ('range', nv.mean_horizontal_position(n), -1, 1)]
