"""Degenerate geometry: poles, coinciding and opposite positions, zero vectors, right angles."""
import numpy as np
import nvector as nv

NAN = np.array([[np.nan], [np.nan], [np.nan]])


def col(x, y, z):
    return np.array([[x], [y], [z]])


def pole(R_Ee, s=1.0):
    """the n-vector of the pole: the x axis of the axes used internally"""
    return np.dot(R_Ee.T, col(s, 0.0, 0.0))


def dot(a, b):
    return np.sum(a * b, axis=0)


# ------------------------------------------------------------------ zero vectors
def law_unit_zero(x: 'pos', one: 'once'):
    """unit makes the unit vector along x, or NaN, of a zero vector"""
    z = x - x
    return [('eq', nv.unit(z), col(1.0, 0.0, 0.0)), ('eq', nv.unit(z, norm_zero_vector=np.nan), NAN)]


# ------------------------------------------------------------------ great circles through one position only
def law_normal(n: 'nvec', one: 'once'):
    """the great circle through one position, or two opposite ones, has no normal"""
    return [('eq', nv.great_circle_normal(n, n), NAN), ('eq', nv.great_circle_normal(n, -n), NAN)]


def law_cross_track(n: 'nvec', m: 'nvec', one: 'once'):
    """nothing has a distance from the great circle through one position"""
    return [('eq', nv.cross_track_distance((n, n), m), np.array([np.nan])), ('eq', nv.cross_track_distance((n, n), m, method='euclidean'), np.array([np.nan]))]


def law_interpolate(n: 'nvec', one: 'once'):
    """half way between opposite positions is undefined"""
    return [('eq', nv.interpolate((n, -n), 0.5), NAN)]


def law_interpolate_path(A: 'Nvector', one: 'once'):
    """half way between opposite positions is undefined, but its depth is known"""
    B = nv.Nvector(-A.normal, A.z, A.frame)
    q = nv.GeoPath(A, B).interpolate(0.5)
    return [('eq', q.normal, NAN), ('eq', q.z, A.z)]


def law_intersect_same(a: 'nvec', b: 'nvec', one: 'once'):
    """a great circle does not intersect itself in a point"""
    return [('eq', nv.intersect((a, b), (a, b)), NAN), ('eq', nv.intersect((a, b), (b, a)), NAN)]


def law_intersect_warning(a: 'nvec', b: 'nvec', one: 'once'):
    """the undefined intersection gives a warning"""
    nv.intersect((a, b), (a, b))
    return [('warns', True)]


def law_intersect_quiet(one: 'once'):
    """a proper intersection gives no warning"""
    x, y, z = col(1.0, 0.0, 0.0), col(0.0, 1.0, 0.0), col(0.0, 0.0, 1.0)
    nv.intersect((x, y), (y, z))
    return [('warns', False)]


# ------------------------------------------------------------------ special positions
def law_distance(n: 'nvec', r: 'radius', one: 'once'):
    """a position is at distance zero from itself and at half the circumference from the opposite one"""
    return [('eq', nv.great_circle_distance(n, n, r), 0), ('eq', nv.great_circle_distance(n, -n, r), np.pi * r),
            ('eq', nv.euclidean_distance(n, n, r), 0), ('eq', nv.euclidean_distance(n, -n, r), 2 * r)]


def law_cross_track_pole(r: 'radius', one: 'once'):
    """the pole of a great circle is a quarter circle away from it"""
    x, y, z = col(1.0, 0.0, 0.0), col(0.0, 1.0, 0.0), col(0.0, 0.0, 1.0)
    return [('eq', nv.cross_track_distance((x, y), z, radius=r), -r * np.pi / 2), ('eq', nv.cross_track_distance((y, x), z, radius=r), r * np.pi / 2),
            ('eq', nv.cross_track_distance((x, y), z, 'euclidean', r), -r)]


# ------------------------------------------------------------------ poles
def law_pole_matrix(R_Ee: 'R_Ee', one: 'once'):
    """at the poles east is the y axis, and down points to the centre"""
    y = np.dot(R_Ee.T, col(0.0, 1.0, 0.0))
    out = []
    for s in (1.0, -1.0):
        n = pole(R_Ee, s)
        R = nv.n_E2R_EN(n, R_Ee)
        out += [('eq', R[:, 1], y[:, 0]), ('eq', R[:, 2], -n[:, 0]), ('eq', np.dot(R.T, R), np.eye(3))]
    return out


def law_pole_wander(R_Ee: 'R_Ee', wa: 'rad', one: 'once'):
    """the wander azimuth matrix at the poles is a rotation whose z axis points down"""
    out = []
    for s in (1.0, -1.0):
        n = pole(R_Ee, s)
        R = nv.n_E_and_wa2R_EL(n, wa, R_Ee)
        out += [('eq', R[:, 2], -n[:, 0]), ('eq', np.dot(R.T, R), np.eye(3))]
    return out


def law_pole_lat_lon(R_Ee: 'R_Ee', one: 'once'):
    """the poles have latitude 90 and -90 degrees"""
    return [('eq', nv.n_E2lat_lon(pole(R_Ee), R_Ee)[0], np.pi / 2), ('eq', nv.n_E2lat_lon(pole(R_Ee, -1.0), R_Ee)[0], -np.pi / 2)]


def law_lat_lon_pole(R_Ee: 'R_Ee', lon: 'lon', one: 'once'):
    """latitude 90 and -90 degrees are the poles whatever the longitude is"""
    return [('eq', nv.lat_lon2n_E(np.pi / 2, lon, R_Ee), pole(R_Ee)), ('eq', nv.lat_lon2n_E(-np.pi / 2, lon, R_Ee), pole(R_Ee, -1.0))]


def law_pole_position(z: 'depth', a: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """the poles are at the semi-minor axis"""
    return [('eq', nv.n_EB_E2p_EB_E(pole(R_Ee), z, a, f, R_Ee), pole(R_Ee) * (a * (1 - f) - z)),
            ('eq', nv.n_EB_E2p_EB_E(pole(R_Ee, -1.0), z, a, f, R_Ee), pole(R_Ee, -1.0) * (a * (1 - f) - z))]


def law_pole_direct(R_Ee: 'R_Ee', d: 'rad', az: 'rad', one: 'once'):
    """starting at a pole the azimuth is measured from the north axis of the matrix at the pole"""
    out = []
    for s in (1.0, -1.0):
        n = pole(R_Ee, s)
        R = nv.n_E2R_EN(n, R_Ee)
        m = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee)
        want = n * np.cos(d) + (R[:, :1] * np.cos(az) + R[:, 1:2] * np.sin(az)) * np.sin(d)
        out += [('eq', dot(m, n), np.cos(d)), ('eq', m, want)]
    return out


# ------------------------------------------------------------------ right angles about y
def law_lock_xyz(s: 'rad', one: 'once'):
    """the angles found for a rotation by a right angle about y reproduce the matrix"""
    c, d = np.cos(s), np.sin(s)
    R = np.array([[0.0, 0.0, 1.0], [d, c, 0.0], [-c, d, 0.0]])
    S = np.array([[0.0, 0.0, -1.0], [-d, c, 0.0], [c, d, 0.0]])
    out = []
    for T in (R, S):
        x, y, z = nv.R2xyz(T)
        out += [('eq', nv.xyz2R(x, y, z), T)]
        z, y, x = nv.R2zyx(T.T)
        out += [('eq', nv.zyx2R(z, y, x), T.T)]
    return out


# ------------------------------------------------------------------ degenerate positions among others
def law_unit_among(x: 'pos', n: 'nvec', one: 'once'):
    """a zero vector does not matter to the vectors beside it"""
    z = x - x
    a, b = nv.unit(np.hstack((z, n, z, n))), nv.unit(np.hstack((n, n, z)), norm_zero_vector=np.nan)
    return [('eq', a[:, :1], col(1.0, 0.0, 0.0)), ('eq', a[:, 1:2], n), ('eq', a[:, 2:3], col(1.0, 0.0, 0.0)), ('eq', a[:, 3:], n),
            ('eq', b[:, :1], n), ('eq', b[:, 1:2], n), ('eq', b[:, 2:], NAN)]


def law_normal_many(n: 'nvec'):
    """none of many great circles through one position each has a normal"""
    return [('eq', nv.great_circle_normal(n, n), NAN), ('eq', nv.great_circle_normal(n, -n), NAN)]


def law_normal_among(n: 'nvec', m: 'nvec', k: 'nvec', one: 'once'):
    """the great circle through one position has no normal, those beside it have one"""
    c = nv.great_circle_normal(np.hstack((n, n, n, m)), np.hstack((n, m, -n, k)))
    return [('eq', c[:, :1], NAN), ('eq', c[:, 1:2], nv.great_circle_normal(n, m)), ('eq', c[:, 2:3], NAN), ('eq', c[:, 3:], nv.great_circle_normal(m, k))]


def law_cross_track_many(n: 'nvec', m: 'nvec'):
    """nothing has a distance from the great circles through one position each"""
    return [('eq', nv.cross_track_distance((n, n), m), np.array([np.nan])), ('eq', nv.cross_track_distance((n, n), m, method='euclidean'), np.array([np.nan]))]


def law_cross_track_among(n: 'nvec', m: 'nvec', k: 'nvec', r: 'radius', one: 'once'):
    """a path without length does not matter to the paths beside it"""
    out = []
    for method in ('greatcircle', 'euclidean'):
        d = nv.cross_track_distance((np.hstack((n, n, n)), np.hstack((m, n, k))), np.hstack((k, k, m)), method, r)
        out += [('eq', d[:1], nv.cross_track_distance((n, m), k, method, r)), ('eq', d[1:2], np.array([np.nan])),
                ('eq', d[2:], nv.cross_track_distance((n, k), m, method, r))]
    return out


def law_interpolate_many(n: 'nvec'):
    """half way between many pairs of opposite positions is undefined"""
    return [('eq', nv.interpolate((n, -n), 0.5), NAN)]


def law_interpolate_among(n: 'nvec', m: 'nvec', one: 'once'):
    """half way between opposite positions is undefined, but not between those beside them"""
    c = nv.interpolate((np.hstack((n, n, m)), np.hstack((m, -n, n))), 0.5)
    d = nv.interpolate((n, -n), np.array([0.0, 0.5, 1.0]))
    return [('eq', c[:, :1], nv.interpolate((n, m), 0.5)), ('eq', c[:, 1:2], NAN), ('eq', c[:, 2:], nv.interpolate((m, n), 0.5)),
            ('eq', d[:, :1], n), ('eq', d[:, 1:2], NAN), ('eq', d[:, 2:], -n)]


def law_intersect_many(a: 'nvec', b: 'nvec'):
    """none of many great circles intersects itself in a point"""
    return [('eq', nv.intersect((a, b), (a, b)), NAN), ('eq', nv.intersect((a, b), (b, a)), NAN)]


def law_intersect_among(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', one: 'once'):
    """an undefined intersection does not matter to those beside it"""
    x = nv.intersect((np.hstack((a, a, c)), np.hstack((b, b, d))), (np.hstack((c, b, a)), np.hstack((d, a, b))))
    return [('eq', x[:, :1], nv.intersect((a, b), (c, d))), ('eq', x[:, 1:2], NAN), ('eq', x[:, 2:], nv.intersect((c, d), (a, b)))]


def law_intersect_among_warning(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', one: 'once'):
    """one undefined intersection among others gives the warning"""
    nv.intersect((np.hstack((a, a)), np.hstack((b, b))), (np.hstack((c, b)), np.hstack((d, a))))
    return [('warns', True)]


def law_distance_many(n: 'nvec', r: 'radius'):
    """positions are at distance zero from themselves and at half the circumference from the opposite ones"""
    return [('eq', nv.great_circle_distance(n, n, r), 0), ('eq', nv.great_circle_distance(n, -n, r), np.pi * r),
            ('eq', nv.euclidean_distance(n, n, r), 0), ('eq', nv.euclidean_distance(n, -n, r), 2 * r)]


def law_distance_among(n: 'nvec', m: 'nvec', r: 'radius', one: 'once'):
    """distances of equal and opposite positions beside each other"""
    d = nv.great_circle_distance(np.hstack((n, n, n, m)), np.hstack((n, m, -n, n)), r)
    return [('eq', d[:1], 0), ('eq', d[1:2], nv.great_circle_distance(n, m, r)), ('eq', d[2:3], np.pi * r), ('eq', d[3:], nv.great_circle_distance(m, n, r))]


def law_pole_matrix_among(n: 'nvec', R_Ee: 'R_Ee', one: 'once'):
    """the matrices at both poles beside those of other positions"""
    north, south = pole(R_Ee), pole(R_Ee, -1.0)
    R = nv.n_E2R_EN(np.hstack((n, north, south, n)), R_Ee)
    one_, n_, s_ = nv.n_E2R_EN(n, R_Ee), nv.n_E2R_EN(north, R_Ee), nv.n_E2R_EN(south, R_Ee)
    return [('eq', R[:, :, 0], one_), ('eq', R[:, :, 1], n_), ('eq', R[:, :, 2], s_), ('eq', R[:, :, 3], one_)]


def law_pole_wander_among(n: 'nvec', R_Ee: 'R_Ee', wa: 'rad', one: 'once'):
    """the wander azimuth matrices at both poles beside those of other positions"""
    north, south = pole(R_Ee), pole(R_Ee, -1.0)
    R = nv.n_E_and_wa2R_EL(np.hstack((north, n, south)), wa, R_Ee)
    return [('eq', R[:, :, k], nv.n_E_and_wa2R_EL(q, wa, R_Ee)) for k, q in enumerate((north, n, south))]


def law_pole_lat_lon_among(n: 'nvec', R_Ee: 'R_Ee', one: 'once'):
    """latitudes of the poles beside those of other positions"""
    lat, lon = nv.n_E2lat_lon(np.hstack((n, pole(R_Ee), n, pole(R_Ee, -1.0))), R_Ee)
    la, lo = nv.n_E2lat_lon(n, R_Ee)
    return [('eq', lat[:1], la), ('eq', lon[:1], lo), ('eq', lat[1:2], np.pi / 2), ('eq', lat[2:3], la), ('eq', lon[2:3], lo), ('eq', lat[3:], -np.pi / 2)]


def law_pole_direct_among(n: 'nvec', R_Ee: 'R_Ee', d: 'rad', az: 'rad', one: 'once'):
    """displacements from the poles beside those from other positions"""
    north, south = pole(R_Ee), pole(R_Ee, -1.0)
    m = nv.n_EA_E_distance_and_azimuth2n_EB_E(np.hstack((north, n, south)), d, az, R_Ee)
    return [('eq', m[:, k:k + 1], nv.n_EA_E_distance_and_azimuth2n_EB_E(q, d, az, R_Ee)) for k, q in enumerate((north, n, south))]


def law_pole_position_among(n: 'nvec', z: 'depth', a: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """poles beside other positions"""
    p = nv.n_EB_E2p_EB_E(np.hstack((pole(R_Ee), n, pole(R_Ee, -1.0))), z, a, f, R_Ee)
    return [('eq', p[:, :1], pole(R_Ee) * (a * (1 - f) - z)), ('eq', p[:, 1:2], nv.n_EB_E2p_EB_E(n, z, a, f, R_Ee)),
            ('eq', p[:, 2:], pole(R_Ee, -1.0) * (a * (1 - f) - z))]


def law_lock_among(s: 'rad', x: 'rad', y: 'acute', one: 'once'):
    """right angles about y beside other angles"""
    c, d = np.cos(s), np.sin(s)
    T, Q, S = np.array([[0.0, 0.0, 1.0], [d, c, 0.0], [-c, d, 0.0]]), nv.xyz2R(x, y, s), np.array([[0.0, 0.0, -1.0], [-d, c, 0.0], [c, d, 0.0]])
    out = []
    u, v, w = nv.R2xyz(np.stack((T, Q, S), axis=-1))
    P = nv.xyz2R(u, v, w)
    out += [('eq', P[:, :, 0], T), ('eq', P[:, :, 1], Q), ('eq', P[:, :, 2], S)]
    w, v, u = nv.R2zyx(np.stack((T.T, Q.T, S.T), axis=-1))
    P = nv.zyx2R(w, v, u)
    return out + [('eq', P[:, :, 0], T.T), ('eq', P[:, :, 1], Q.T), ('eq', P[:, :, 2], S.T)]


# ------------------------------------------------------------------ n-vectors of wrong length
def bad(n):
    return abs(np.sqrt(n[0, 0] ** 2 + n[1, 0] ** 2 + n[2, 0] ** 2) - 1) > 0.1


def law_warn_n_E2lat_lon(n: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_E2lat_lon(n)
    return [('warns', bad(n))]


def law_warn_n_E2R_EN(n: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_E2R_EN(n)
    return [('warns', bad(n))]


def law_warn_n_EB_E2p_EB_E(n: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_EB_E2p_EB_E(n)
    return [('warns', bad(n))]


def law_warn_n_E_and_wa2R_EL(n: 'pos', wa: 'rad'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_E_and_wa2R_EL(n, wa)
    return [('warns', bad(n))]


def law_warn_delta(m: 'pos', n: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_EA_E_and_n_EB_E2p_AB_E(m, n)
    return [('warns', bad(m) | bad(n))]


def law_warn_azimuth(m: 'pos', n: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_EA_E_and_n_EB_E2azimuth(m, n)
    return [('warns', bad(m) | bad(n))]


def law_warn_displaced(m: 'pos', p: 'pos'):
    """an n-vector whose length is not near one gives a warning"""
    nv.n_EA_E_and_p_AB_E2n_EB_E(m, p)
    return [('warns', bad(m))]
