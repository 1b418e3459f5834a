"""Conversions and their inverses."""
import numpy as np
import nvector as nv


def law_latlon(lat: 'lat', lon: 'lon', R_Ee: 'R_Ee'):
    """n_E2lat_lon undoes lat_lon2n_E"""
    la, lo = nv.n_E2lat_lon(nv.lat_lon2n_E(lat, lon, R_Ee), R_Ee)
    return [('eq', la, lat), ('angle', lo, lon)]


def law_latlon_default(lat: 'lat', lon: 'lon'):
    """n_E2lat_lon undoes lat_lon2n_E with the default axes"""
    la, lo = nv.n_E2lat_lon(nv.lat_lon2n_E(lat, lon))
    return [('eq', la, lat), ('angle', lo, lon)]


def law_nvector(n: 'nvec', R_Ee: 'R_Ee'):
    """lat_lon2n_E undoes n_E2lat_lon"""
    la, lo = nv.n_E2lat_lon(n, R_Ee)
    return [('eq', nv.lat_lon2n_E(la, lo, R_Ee), n)]


def law_nvector_default(n: 'nvec'):
    """lat_lon2n_E undoes n_E2lat_lon with the default axes"""
    la, lo = nv.n_E2lat_lon(n)
    return [('eq', nv.lat_lon2n_E(la, lo), n)]


def law_xyz_angles(x: 'rad', y: 'acute', z: 'rad'):
    """R2xyz undoes xyz2R"""
    p, q, r = nv.R2xyz(nv.xyz2R(x, y, z))
    return [('angle', p, x), ('eq', q, y), ('angle', r, z)]


def law_zyx_angles(x: 'rad', y: 'acute', z: 'rad'):
    """R2zyx undoes zyx2R"""
    r, q, p = nv.R2zyx(nv.zyx2R(z, y, x))
    return [('angle', p, x), ('eq', q, y), ('angle', r, z)]


def law_xyz_matrix(x: 'rad', y: 'rad', z: 'rad'):
    """xyz2R undoes R2xyz, whatever angles the rotation was made from"""
    R = nv.xyz2R(x, y, z)
    return [('eq', nv.xyz2R(*nv.R2xyz(R)), R)]


def law_zyx_matrix(x: 'rad', y: 'rad', z: 'rad'):
    """zyx2R undoes R2zyx, whatever angles the rotation was made from"""
    R = nv.zyx2R(z, y, x)
    return [('eq', nv.zyx2R(*nv.R2zyx(R)), R)]


def law_R_EN(n: 'nvec', R_Ee: 'R_Ee'):
    """R_EN2n_E undoes n_E2R_EN"""
    return [('eq', nv.R_EN2n_E(nv.n_E2R_EN(n, R_Ee)), n)]


def law_R_EL(n: 'nvec', wa: 'rad', R_Ee: 'R_Ee'):
    """R_EL2n_E undoes n_E_and_wa2R_EL for every wander azimuth"""
    return [('eq', nv.R_EL2n_E(nv.n_E_and_wa2R_EL(n, wa, R_Ee)), n)]


def law_R_EN_default(n: 'nvec'):
    """R_EN2n_E undoes n_E2R_EN with the default axes"""
    return [('eq', nv.R_EN2n_E(nv.n_E2R_EN(n)), n)]


def law_R_EL_default(n: 'nvec', wa: 'rad'):
    """R_EL2n_E undoes n_E_and_wa2R_EL with the default axes"""
    return [('eq', nv.R_EL2n_E(nv.n_E_and_wa2R_EL(n, wa)), n)]


def law_degrees(x: 'rad'):
    """deg and rad undo each other"""
    return [('eq', nv.rad(nv.deg(x)), x), ('eq', nv.deg(nv.rad(x)), x)]


def law_GeoPoint(A: 'GeoPoint'):
    """a geographical point survives the conversion to an n-vector"""
    B = A.to_nvector().to_geo_point()
    return [('eq', B.latitude, A.latitude), ('angle', B.longitude, A.longitude), ('eq', B.z, A.z)]


def law_Nvector(A: 'Nvector'):
    """an n-vector survives the conversion to a geographical point"""
    B = A.to_geo_point().to_nvector()
    return [('eq', B.normal, A.normal), ('eq', B.z, A.z)]


def law_change_frame_N(A: 'Nvector', B: 'ECEFvector'):
    """Pvector.to_ecef_vector undoes change_frame for a FrameN"""
    return [('eq', B.change_frame(nv.FrameN(A)).to_ecef_vector().pvector, B.pvector)]


def law_change_frame_L(A: 'Nvector', B: 'ECEFvector', wa: 'scalar'):
    """Pvector.to_ecef_vector undoes change_frame for a FrameL"""
    return [('eq', B.change_frame(nv.FrameL(A, wander_azimuth=wa)).to_ecef_vector().pvector, B.pvector)]


def law_change_frame_B(A: 'Nvector', B: 'ECEFvector', yaw: 'scalar', pitch: 'scalar', roll: 'scalar'):
    """Pvector.to_ecef_vector undoes change_frame for a FrameB"""
    return [('eq', B.change_frame(nv.FrameB(A, yaw=yaw, pitch=pitch, roll=roll)).to_ecef_vector().pvector, B.pvector)]


def law_sphere_p(p: 'pos', a: 'a', R_Ee: 'R_Ee'):
    """n_EB_E2p_EB_E undoes p_EB_E2n_EB_E on a sphere"""
    n, z = nv.p_EB_E2n_EB_E(p, a, 0, R_Ee)
    return [('eq', nv.n_EB_E2p_EB_E(n, z, a, 0, R_Ee), p)]


def law_sphere_n(n: 'nvec', h: 'radius', a: 'a', R_Ee: 'R_Ee'):
    """p_EB_E2n_EB_E undoes n_EB_E2p_EB_E on a sphere"""
    m, z = nv.p_EB_E2n_EB_E(nv.n_EB_E2p_EB_E(n, -h, a, 0, R_Ee), a, 0, R_Ee)
    return [('eq', m, n), ('eq', z, -h)]


def law_direct_distance(n: 'nvec', d: 'arc', az: 'rad', R_Ee: 'R_Ee'):
    """the great circle distance to a displaced position is the displacement"""
    m = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee)
    return [('eq', nv.great_circle_distance(n, m, 1), d)]


def law_direct_azimuth(n: 'nvec', d: 'arc', az: 'rad', a: 'a', R_Ee: 'R_Ee'):
    """the azimuth of a displaced position, on a sphere, is the azimuth of the displacement"""
    m = nv.n_EA_E_distance_and_azimuth2n_EB_E(n, d, az, R_Ee)
    return [('angle', nv.n_EA_E_and_n_EB_E2azimuth(n, m, a, 0, R_Ee), az)]


def law_unit(v: 'pos'):
    """a normalised vector stays as it is"""
    u = nv.unit(v)
    return [('eq', nv.unit(u), u)]


def law_nthroot(x: 'radius'):
    """the n-th power undoes nthroot"""
    return [('eq', nv.nthroot(x, 3)**3, x)]


def law_equator(lon: 'lon', h: 'radius', a: 'a', R_Ee: 'R_Ee'):
    """ECEF vector and n-vector on the equator of an oblate ellipsoid"""
    f = 0.5
    n = nv.lat_lon2n_E(0 * lon, lon, R_Ee)
    m, z = nv.p_EB_E2n_EB_E((a + h) * n, a, f, R_Ee)
    return [('eq', nv.n_EB_E2p_EB_E(n, -h, a, f, R_Ee), (a + h) * n), ('eq', m, n), ('eq', z, -h)]


def law_axis(h: 'radius', a: 'a', R_Ee: 'R_Ee'):
    """ECEF vector and n-vector on the axis of an oblate ellipsoid"""
    f = 0.5
    n = np.dot(R_Ee.T, np.vstack((1 + 0 * h, 0 * h, 0 * h)))
    p = (a * (1 - f) + h) * n
    m, z = nv.p_EB_E2n_EB_E(p, a, f, R_Ee)
    return [('eq', nv.n_EB_E2p_EB_E(n, -h, a, f, R_Ee), p), ('eq', m, n), ('eq', z, -h)]
