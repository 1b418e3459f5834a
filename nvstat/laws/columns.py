"""A few positions in one call give what each of them gives alone, whatever their number is."""
import numpy as np
import nvector as nv

SIZES = (2, 3, 4)
METHODS = ('greatcircle', 'euclidean')


def first(values, k, start=0):
    """k values side by side, beginning at one of them"""
    return np.hstack([values[(start + i) % len(values)] for i in range(k)])


def mats(values, k):
    return np.stack([values[i % len(values)] for i in range(k)], axis=-1)


def same(many, k, alone):
    """each column of the result for many is the result for one, and there are k of them"""
    return [('flag', many.shape == (3, k), True)] + [('eq', many[:, i:i + 1], alone(i)) for i in range(k)]


def same_numbers(many, k, alone):
    return [('flag', many.shape == (k,), True)] + [('eq', many[i:i + 1], alone(i)) for i in range(k)]


def same_matrices(many, k, alone):
    return [('flag', many.shape == (3, 3, k), True)] + [('eq', many[:, :, i], alone(i)) for i in range(k)]


# ------------------------------------------------------------------ conversions
def law_lat_lon(x: 'lat', y: 'lat', z: 'lat', u: 'lon', v: 'lon', w: 'lon', R_Ee: 'R_Ee', one: 'once'):
    """latitudes and longitudes to n-vectors"""
    la, lo, out = (x, y, z), (u, v, w), []
    for k in SIZES:
        out += same(nv.lat_lon2n_E(first(la, k), first(lo, k), R_Ee), k, lambda i: nv.lat_lon2n_E(la[i % 3], lo[i % 3], R_Ee))
        out += same(nv.lat_lon2n_E(first(la, k), u, R_Ee), k, lambda i: nv.lat_lon2n_E(la[i % 3], u, R_Ee))
    return out


def law_n_E(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', R_Ee: 'R_Ee', one: 'once'):
    """n-vectors to latitudes and longitudes"""
    n, out = (a, b, c, d), []
    for k in SIZES:
        lat, lon = nv.n_E2lat_lon(first(n, k), R_Ee)
        out += same_numbers(lat, k, lambda i: nv.n_E2lat_lon(n[i], R_Ee)[0]) + same_numbers(lon, k, lambda i: nv.n_E2lat_lon(n[i], R_Ee)[1])
    return out


def law_to_ecef(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', x: 'depth', y: 'depth', z: 'depth', A: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """n-vectors to ECEF vectors"""
    n, h, out = (a, b, c, d), (x, y, z), []
    for k in SIZES:
        out += same(nv.n_EB_E2p_EB_E(first(n, k), first(h, k), A, f, R_Ee), k, lambda i: nv.n_EB_E2p_EB_E(n[i], h[i % 3], A, f, R_Ee))
        out += same(nv.n_EB_E2p_EB_E(first(n, k), x, A, f, R_Ee), k, lambda i: nv.n_EB_E2p_EB_E(n[i], x, A, f, R_Ee))
        out += same(nv.n_EB_E2p_EB_E(a, first(h, k), A, f, R_Ee), k, lambda i: nv.n_EB_E2p_EB_E(a, h[i % 3], A, f, R_Ee))
    return out


def law_from_ecef(a: 'pos', b: 'pos', c: 'pos', d: 'pos', A: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """ECEF vectors to n-vectors"""
    p, out = (a, b, c, d), []
    for k in SIZES:
        n, z = nv.p_EB_E2n_EB_E(first(p, k), A, f, R_Ee)
        out += same(n, k, lambda i: nv.p_EB_E2n_EB_E(p[i], A, f, R_Ee)[0]) + same_numbers(z, k, lambda i: nv.p_EB_E2n_EB_E(p[i], A, f, R_Ee)[1])
    return out


def law_delta(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', x: 'depth', y: 'depth', z: 'depth', A: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """vectors between positions, and azimuths"""
    n, h, out = (a, b, c, d), (x, y, z), []
    for k in SIZES:
        m, g = first(n, k, 1), first(h, k, 1)
        out += same(nv.n_EA_E_and_n_EB_E2p_AB_E(first(n, k), m, first(h, k), g, A, f, R_Ee), k,
                    lambda i: nv.n_EA_E_and_n_EB_E2p_AB_E(n[i], n[(i + 1) % 4], h[i % 3], h[(i + 1) % 3], A, f, R_Ee))
        out += same(nv.n_EA_E_and_n_EB_E2p_AB_E(d, first(n, k), x, first(h, k), A, f, R_Ee), k,
                    lambda i: nv.n_EA_E_and_n_EB_E2p_AB_E(d, n[i], x, h[i % 3], A, f, R_Ee))
        out += same(nv.n_EA_E_and_n_EB_E2p_AB_E(first(n, k), d, first(h, k), x, A, f, R_Ee), k,
                    lambda i: nv.n_EA_E_and_n_EB_E2p_AB_E(n[i], d, h[i % 3], x, A, f, R_Ee))
        out += same_numbers(nv.n_EA_E_and_n_EB_E2azimuth(first(n, k), m, A, f, R_Ee), k,
                            lambda i: nv.n_EA_E_and_n_EB_E2azimuth(n[i], n[(i + 1) % 4], A, f, R_Ee))
        out += same_numbers(nv.n_EA_E_and_n_EB_E2azimuth(first((a, b, c), k), d, A, f, R_Ee), k,
                            lambda i: nv.n_EA_E_and_n_EB_E2azimuth(n[i % 3], d, A, f, R_Ee))
        out += same_numbers(nv.n_EA_E_and_n_EB_E2azimuth(d, first((a, b, c), k), A, f, R_Ee), k,
                            lambda i: nv.n_EA_E_and_n_EB_E2azimuth(d, n[i % 3], A, f, R_Ee))
    return out


def law_add(a: 'nvec', b: 'nvec', c: 'nvec', p: 'pos', q: 'pos', s: 'pos', x: 'depth', y: 'depth', z: 'depth', A: 'a', f: 'f', R_Ee: 'R_Ee', one: 'once'):
    """positions a vector away"""
    n, v, h, out = (a, b, c), (p, q, s), (x, y, z), []
    for k in SIZES:
        m, g = nv.n_EA_E_and_p_AB_E2n_EB_E(first(n, k), first(v, k), first(h, k), A, f, R_Ee)
        one_ = lambda i: nv.n_EA_E_and_p_AB_E2n_EB_E(n[i % 3], v[i % 3], h[i % 3], A, f, R_Ee)
        out += same(m, k, lambda i: one_(i)[0]) + same_numbers(g, k, lambda i: one_(i)[1])
        m, g = nv.n_EA_E_and_p_AB_E2n_EB_E(a, first(v, k), x, A, f, R_Ee)
        two = lambda i: nv.n_EA_E_and_p_AB_E2n_EB_E(a, v[i % 3], x, A, f, R_Ee)
        out += same(m, k, lambda i: two(i)[0]) + same_numbers(g, k, lambda i: two(i)[1])
    return out


# ------------------------------------------------------------------ geometry on the sphere
def law_sphere(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', r: 'radius', one: 'once'):
    """distances, normals, and mean positions of several pairs"""
    n, out = (a, b, c, d), []
    for k in SIZES:
        N, M = first(n, k), first(n, k, 1)
        nxt = lambda i: n[(i + 1) % 4]
        out += same_numbers(nv.great_circle_distance(N, M, r), k, lambda i: nv.great_circle_distance(n[i], nxt(i), r))
        out += same_numbers(nv.euclidean_distance(N, M, r), k, lambda i: nv.euclidean_distance(n[i], nxt(i), r))
        out += same(nv.great_circle_normal(N, M), k, lambda i: nv.great_circle_normal(n[i], nxt(i)))
        out += same(nv.unit(N), k, lambda i: nv.unit(n[i]))
        O = first((a, b, c), k)
        out += same_numbers(nv.great_circle_distance(d, O, r), k, lambda i: nv.great_circle_distance(d, n[i % 3], r))
        out += same_numbers(nv.great_circle_distance(O, d, r), k, lambda i: nv.great_circle_distance(n[i % 3], d, r))
        out += same_numbers(nv.euclidean_distance(d, O, r), k, lambda i: nv.euclidean_distance(d, n[i % 3], r))
        out += same_numbers(nv.euclidean_distance(O, d, r), k, lambda i: nv.euclidean_distance(n[i % 3], d, r))
        out += same(nv.great_circle_normal(d, O), k, lambda i: nv.great_circle_normal(d, n[i % 3]))
    return out


def law_paths(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', e: 'nvec', r: 'radius', one: 'once'):
    """cross track distances, verdicts and closest points for several positions or paths"""
    n, out = (a, b, c, d, e), []
    for k in SIZES:
        N, M, O = first(n, k), first(n, k, 1), first(n, k, 2)
        at = lambda i: n[i % 5]
        for method in METHODS:
            out += same_numbers(nv.cross_track_distance((N, M), O, method, r), k, lambda i: nv.cross_track_distance((at(i), at(i + 1)), at(i + 2), method, r))
            out += same_numbers(nv.cross_track_distance((d, e), first((a, b, c), k), method, r), k, lambda i: nv.cross_track_distance((d, e), n[i % 3], method, r))
            out += same_numbers(nv.cross_track_distance((N, M), e, method, r), k, lambda i: nv.cross_track_distance((at(i), at(i + 1)), e, method, r))
        out += same(nv.closest_point_on_great_circle((N, M), O), k, lambda i: nv.closest_point_on_great_circle((at(i), at(i + 1)), at(i + 2)))
        out += same(nv.closest_point_on_great_circle((d, e), first((a, b, c), k)), k, lambda i: nv.closest_point_on_great_circle((d, e), n[i % 3]))
        for test in (nv.on_great_circle, nv.on_great_circle_path):
            out += same_numbers(test((N, M), O, r), k, lambda i: test((at(i), at(i + 1)), at(i + 2), r))
            out += same_numbers(test((d, e), first((a, b, c), k), r), k, lambda i: test((d, e), n[i % 3], r))
    return out


def law_intersect(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', e: 'nvec', one: 'once'):
    """intersections of several pairs of paths"""
    n, out = (a, b, c, d, e), []
    at = lambda i: n[i % 5]
    for k in SIZES:
        A, B, C, D = [first(n, k, j) for j in range(4)]
        out += same(nv.intersect((A, B), (C, D)), k, lambda i: nv.intersect((at(i), at(i + 1)), (at(i + 2), at(i + 3))))
        P = first((a, b, c), k)
        out += same(nv.intersect((d, e), (P, first((b, c, a), k))), k, lambda i: nv.intersect((d, e), (n[i % 3], n[(i + 1) % 3])))
        out += same(nv.intersect((P, first((b, c, a), k)), (d, e)), k, lambda i: nv.intersect((n[i % 3], n[(i + 1) % 3]), (d, e)))
    return out


def law_interpolate(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', x: 'scalar', y: 'scalar', z: 'scalar', w: 'scalar', one: 'once'):
    """interpolation at several times or along several paths"""
    n, t, out = (a, b, c, d), (x, y, z, w), []
    at = lambda i: n[i % 4]
    for k in SIZES:
        N, M = first(n, k), first(n, k, 1)
        out += same(nv.interpolate((N, M), x), k, lambda i: nv.interpolate((at(i), at(i + 1)), x))
        out += same(nv.interpolate((a, b), first(t, k)), k, lambda i: nv.interpolate((a, b), t[i]))
        out += same(nv.interpolate((N, M), first(t, k)), k, lambda i: nv.interpolate((at(i), at(i + 1)), t[i]))
    return out


def law_direct(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', x: 'rad', y: 'rad', u: 'rad', v: 'rad', R_Ee: 'R_Ee', one: 'once'):
    """displacements of several positions, by several distances and azimuths"""
    n, s, z, out = (a, b, c, d), (x, y), (u, v), []
    go = lambda p, q, w: nv.n_EA_E_distance_and_azimuth2n_EB_E(p, q, w, R_Ee)
    for k in SIZES:
        N = first(n, k)
        out += same(go(N, first(s, k), first(z, k)), k, lambda i: go(n[i], s[i % 2], z[i % 2]))
        out += same(go(N, x, u), k, lambda i: go(n[i], x, u))
        out += same(go(a, first(s, k), u), k, lambda i: go(a, s[i % 2], u))
        out += same(go(a, x, first(z, k)), k, lambda i: go(a, x, z[i % 2]))
        out += same(go(N, x, first(z, k)), k, lambda i: go(n[i], x, z[i % 2]))
    return out


# ------------------------------------------------------------------ rotations
def law_frames(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', x: 'rad', y: 'rad', z: 'rad', R_Ee: 'R_Ee', one: 'once'):
    """matrices of local frames at several positions, and back"""
    n, w, out = (a, b, c, d), (x, y, z), []
    for k in SIZES:
        N = first(n, k)
        R, L = nv.n_E2R_EN(N, R_Ee), nv.n_E_and_wa2R_EL(N, first(w, k), R_Ee)
        out += same_matrices(R, k, lambda i: nv.n_E2R_EN(n[i], R_Ee)) + same(nv.R_EN2n_E(R), k, lambda i: nv.R_EN2n_E(nv.n_E2R_EN(n[i], R_Ee)))
        out += same_matrices(L, k, lambda i: nv.n_E_and_wa2R_EL(n[i], w[i % 3], R_Ee))
        out += same_matrices(nv.n_E_and_wa2R_EL(N, x, R_Ee), k, lambda i: nv.n_E_and_wa2R_EL(n[i], x, R_Ee))
        out += same_matrices(nv.n_E_and_wa2R_EL(a, first(w, k), R_Ee), k, lambda i: nv.n_E_and_wa2R_EL(a, w[i % 3], R_Ee))
    return out


def law_R_EL(P: 'R', Q: 'R', S: 'R', one: 'once'):
    """n-vectors of several matrices"""
    r, out = (P, Q, S), []
    for k in SIZES:
        out += same(nv.R_EL2n_E(mats(r, k)), k, lambda i: nv.R_EL2n_E(r[i % 3])) + same(nv.R_EN2n_E(mats(r, k)), k, lambda i: nv.R_EN2n_E(r[i % 3]))
    return out


def law_angles(x: 'rad', y: 'rad', z: 'rad', u: 'rad', v: 'rad', w: 'rad', one: 'once'):
    """matrices of several rotations"""
    s, out = (x, y, z, u, v, w), []
    at = lambda i: s[i % 6]
    for k in SIZES:
        X, Y, Z = first(s, k), first(s, k, 2), first(s, k, 4)
        for make in (nv.xyz2R, nv.zyx2R):
            out += same_matrices(make(X, Y, Z), k, lambda i: make(at(i), at(i + 2), at(i + 4)))
            out += same_matrices(make(X, y, Z), k, lambda i: make(at(i), y, at(i + 4)))
            out += same_matrices(make(x, y, Z), k, lambda i: make(x, y, at(i + 4)))
    return out


def law_matrix_angles(P: 'R', Q: 'R', S: 'R', one: 'once'):
    """angles of several matrices"""
    r, out = (P, Q, S), []
    for k in SIZES:
        for angles in (nv.R2xyz, nv.R2zyx):
            all_ = angles(mats(r, k))
            for j in range(3):
                out += same_numbers(all_[j], k, lambda i: angles(r[i % 3])[j])
    return out


def law_mdot(P: 'R', Q: 'R', S: 'R', a: 'nvec', one: 'once'):
    """products of several matrices with several, with one, and with a vector"""
    r, out = (P, Q, S), []
    for k in SIZES:
        out += same_matrices(nv.mdot(mats(r, k), mats((Q, S, P), k)), k, lambda i: nv.mdot(r[i % 3], r[(i + 1) % 3]))
        out += same_matrices(nv.mdot(P, mats(r, k)), k, lambda i: nv.mdot(P, r[i % 3]))
        out += same_matrices(nv.mdot(mats(r, k), P), k, lambda i: nv.mdot(r[i % 3], P))
    return out


# ------------------------------------------------------------------ objects
def points(F, la, lo, z, k):
    return F.GeoPoint(first(la, k), first(lo, k), first(z, k))


def law_geo_point(x: 'lat', y: 'lat', z: 'lat', u: 'lon', v: 'lon', w: 'lon', g: 'depth', h: 'depth', F: 'FrameE', one: 'once'):
    """conversions of several geographical points"""
    la, lo, de, out = (x, y, z), (u, v, w), (g, h), []
    for k in SIZES:
        P = points(F, la, lo, de, k)
        at = lambda i: F.GeoPoint(la[i % 3], lo[i % 3], de[i % 2])
        out += same(P.to_nvector().normal, k, lambda i: at(i).to_nvector().normal) + same_numbers(np.hstack([P.to_nvector().z]), k, lambda i: at(i).z)
        out += same(P.to_ecef_vector().pvector, k, lambda i: at(i).to_ecef_vector().pvector)
        D = P.to_nvector().to_geo_point()
        out += same_numbers(D.latitude, k, lambda i: at(i).to_nvector().to_geo_point().latitude)
        out += same_numbers(D.longitude, k, lambda i: at(i).to_nvector().to_geo_point().longitude)
    return out


def law_objects_delta(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', g: 'depth', h: 'depth', F: 'FrameE', one: 'once'):
    """vectors between several positions of a frame, also from one or to one"""
    n, de, out = (a, b, c, d), (g, h), []
    for k in SIZES:
        A, B = F.Nvector(first(n, k), first(de, k)), F.Nvector(first(n, k, 1), first(de, k, 1))
        one_ = F.Nvector(d, g)
        at = lambda i: F.Nvector(n[i % 4], de[i % 2])
        to = lambda i: F.Nvector(n[(i + 1) % 4], de[(i + 1) % 2])
        C, ct = F.Nvector(first((a, b, c), k), first(de, k)), lambda i: F.Nvector(n[i % 3], de[i % 2])
        for delta in (nv.delta_E, nv.delta_N):
            out += same(delta(A, B).pvector, k, lambda i: delta(at(i), to(i)).pvector)
            out += same(delta(one_, C).pvector, k, lambda i: delta(one_, ct(i)).pvector)
            out += same(delta(C, one_).pvector, k, lambda i: delta(ct(i), one_).pvector)
        V = A.delta_to(B)
        out += same_numbers(V.length, k, lambda i: at(i).delta_to(to(i)).length) + same_numbers(V.azimuth, k, lambda i: at(i).delta_to(to(i)).azimuth)
        out += same_numbers(V.elevation, k, lambda i: at(i).delta_to(to(i)).elevation)
    return out


def law_local(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', p: 'pos', q: 'pos', g: 'depth', F: 'FrameE', wa: 'rad', one: 'once'):
    """vectors in local frames of several positions"""
    n, v, out = (a, b, c, d), (p, q), []
    for k in SIZES:
        A = F.Nvector(first(n, k), g)
        at = lambda i: F.Nvector(n[i], g)
        P = F.ECEFvector(first(v, k))
        for make in (lambda x: nv.FrameN(x), lambda x: nv.FrameL(x, wa), lambda x: nv.FrameB(x, wa, wa, wa)):
            out += same_matrices(make(A).R_EN, k, lambda i: make(at(i)).R_EN)
            out += same(P.change_frame(make(A)).pvector, k, lambda i: F.ECEFvector(v[i % 2]).change_frame(make(at(i))).pvector)
            V = make(A).Pvector(first(v, k))
            out += same(V.to_ecef_vector().pvector, k, lambda i: make(at(i)).Pvector(v[i % 2]).to_ecef_vector().pvector)
    return out


def law_geo_path(a: 'nvec', b: 'nvec', c: 'nvec', d: 'nvec', g: 'depth', h: 'depth', F: 'FrameE', t: 'scalar', one: 'once'):
    """paths between several positions, and one path for several positions"""
    n, de, out = (a, b, c, d), (g, h), []
    at = lambda i: F.Nvector(n[i % 4], de[i % 2])
    for k in SIZES:
        A, B, C = [F.Nvector(first(n, k, j), first(de, k, j)) for j in range(3)]
        path = nv.GeoPath(A, B)
        alone = lambda i: nv.GeoPath(at(i), F.Nvector(n[(i + 1) % 4], de[(i + 1) % 2]))
        third = lambda i: F.Nvector(n[(i + 2) % 4], de[(i + 2) % 2])
        for method in METHODS:
            out += same_numbers(path.track_distance(method), k, lambda i: alone(i).track_distance(method))
            out += same_numbers(path.cross_track_distance(C, method), k, lambda i: alone(i).cross_track_distance(third(i), method))
            out += same_numbers(alone(0).cross_track_distance(C, method), k, lambda i: alone(0).cross_track_distance(third(i), method))
        for j in ('latitude', 'longitude', 'z'):
            out += same_numbers(getattr(path.closest_point_on_great_circle(C), j), k, lambda i: getattr(alone(i).closest_point_on_great_circle(third(i)), j))
        out += same(path.interpolate(t).normal, k, lambda i: alone(i).interpolate(t).normal)
        out += same_numbers(path.interpolate(t).z, k, lambda i: alone(i).interpolate(t).z)
        out += same_numbers(path.on_great_circle(C), k, lambda i: alone(i).on_great_circle(third(i)))
        out += same_numbers(path.on_path(C), k, lambda i: alone(i).on_path(third(i)))
    return out


def law_displace(x: 'lat', y: 'lat', z: 'lat', u: 'lon', v: 'lon', w: 'lon', g: 'depth', h: 'depth', F: 'FrameE', s: 'len', az: 'rad', one: 'once'):
    """displacements of, and distances between, several points"""
    la, lo, de, out = (x, y, z), (u, v, w), (g, h), []
    at = lambda i: F.GeoPoint(la[i % 3], lo[i % 3], de[i % 2])
    for k in SIZES:
        P, Q = points(F, la, lo, de, k), F.GeoPoint(first(la, k, 1), first(lo, k, 1), first(de, k, 1))
        to = lambda i: F.GeoPoint(la[(i + 1) % 3], lo[(i + 1) % 3], de[(i + 1) % 2])
        for how in METHODS[:1] + ('ellipsoid',):
            B, az_b = P.displace(s, az, method=how)
            out += same_numbers(B.latitude, k, lambda i: at(i).displace(s, az, method=how)[0].latitude)
            out += same_numbers(B.longitude, k, lambda i: at(i).displace(s, az, method=how)[0].longitude)
            out += same_numbers(az_b, k, lambda i: at(i).displace(s, az, method=how)[1])
            for j in range(3):
                out += same_numbers(P.distance_and_azimuth(Q, method=how)[j], k, lambda i: at(i).distance_and_azimuth(to(i), method=how)[j])
    return out
