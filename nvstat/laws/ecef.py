"""Positions in space: ellipsoid, depth, differences of positions, local frames."""
import numpy as np
import nvector as nv


def dot(a, b):
    return np.einsum('i...,i...->...', a, b)


def cross(a, b):
    return np.cross(a, b, axis=0)


def tr(R):
    return np.swapaxes(R, 0, 1)


def times(R, v):
    return np.einsum('ij...,j...->i...', R, v)


def law_surface(n: 'nvec', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """a position at depth zero is on the ellipsoid"""
    p = np.dot(R_Ee, nv.n_EB_E2p_EB_E(n, 0, a, f, R_Ee))
    b = a * (1 - f)
    return [('eq', p[0]**2 / b**2 + (p[1]**2 + p[2]**2) / a**2, 1)]


def law_surface_normal(n: 'nvec', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """the n-vector is at right angles to the ellipsoid at its position"""
    p = np.dot(R_Ee, nv.n_EB_E2p_EB_E(n, 0, a, f, R_Ee))
    m = np.dot(R_Ee, n)
    b = a * (1 - f)
    g = np.vstack((p[0] / b**2, p[1] / a**2, p[2] / a**2))
    return [('eq', cross(g, m), 0)]


def law_outward(n: 'nvec', a: 'a', R_Ee: 'R_Ee'):
    """on a sphere the position is radius times the n-vector"""
    return [('eq', nv.n_EB_E2p_EB_E(n, 0, a, 0, R_Ee), a * n)]


def law_depth(n: 'nvec', z: 'depth', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """depth is measured against the direction of the n-vector"""
    return [('eq', nv.n_EB_E2p_EB_E(n, z, a, f, R_Ee), nv.n_EB_E2p_EB_E(n, 0, a, f, R_Ee) - z * n)]


def law_defaults(n: 'nvec', z: 'depth'):
    """the default ellipsoid is WGS84, the default depth zero, the default axes e"""
    R = nv.E_rotation('e')
    return [('eq', nv.n_EB_E2p_EB_E(n, z), nv.n_EB_E2p_EB_E(n, z, 6378137, 1.0 / 298.257223563, R)), ('eq', nv.n_EB_E2p_EB_E(n), nv.n_EB_E2p_EB_E(n, 0))]


def law_delta(m: 'nvec', n: 'nvec', y: 'depth', z: 'depth', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """the vector between two positions is the difference of their ECEF vectors"""
    return [('eq', nv.n_EA_E_and_n_EB_E2p_AB_E(m, n, y, z, a, f, R_Ee), nv.n_EB_E2p_EB_E(n, z, a, f, R_Ee) - nv.n_EB_E2p_EB_E(m, y, a, f, R_Ee))]


def law_displaced(m: 'nvec', v: 'pos', y: 'depth', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """a position plus a vector is the position of the sum of the ECEF vectors"""
    n, z = nv.n_EA_E_and_p_AB_E2n_EB_E(m, v, y, a, f, R_Ee)
    k, w = nv.p_EB_E2n_EB_E(nv.n_EB_E2p_EB_E(m, y, a, f, R_Ee) + v, a, f, R_Ee)
    return [('eq', n, k), ('eq', z, w)]


def law_sphere_position(p: 'pos', a: 'a', R_Ee: 'R_Ee'):
    """on a sphere the n-vector is the direction of the position and the depth what is missing to the radius"""
    n, z = nv.p_EB_E2n_EB_E(p, a, 0, R_Ee)
    r = np.sqrt(dot(p, p))
    return [('eq', n, p / r), ('eq', z, a - r)]


def law_azimuth(m: 'nvec', n: 'nvec', a: 'a', f: 'f', R_Ee: 'R_Ee'):
    """the azimuth is the direction of the vector between the positions, seen in the local frame"""
    v = nv.n_EA_E_and_n_EB_E2p_AB_E(m, n, 0, 0, a, f, R_Ee)
    R = nv.n_E2R_EN(m, R_Ee)
    v = np.reshape(v, np.shape(R[:, 0]))
    return [('angle', nv.n_EA_E_and_n_EB_E2azimuth(m, n, a, f, R_Ee), np.arctan2(dot(R[:, 1], v), dot(R[:, 0], v)))]


def law_Nvector(A: 'Nvector'):
    """the ECEF vector of an n-vector object"""
    F = A.frame
    return [('eq', A.to_ecef_vector().pvector, nv.n_EB_E2p_EB_E(A.normal, A.z, F.a, F.f, F.R_Ee))]


def law_GeoPoint(A: 'GeoPoint'):
    """the ECEF vector of a geographical point"""
    F = A.frame
    n = nv.lat_lon2n_E(A.latitude, A.longitude, F.R_Ee)
    return [('eq', A.to_nvector().normal, n), ('eq', A.to_nvector().z, A.z), ('eq', A.to_ecef_vector().pvector, nv.n_EB_E2p_EB_E(n, A.z, F.a, F.f, F.R_Ee))]


def law_ECEFvector(A: 'ECEFvector'):
    """the n-vector of an ECEF vector object"""
    F = A.frame
    n, z = nv.p_EB_E2n_EB_E(A.pvector, F.a, F.f, F.R_Ee)
    B = A.to_nvector()
    return [('eq', B.normal, n), ('eq', B.z, z)]


def law_delta_E(A: 'Nvector', B: 'Nvector'):
    """delta_E is the vector from A to B"""
    return [('eq', nv.delta_E(A, B).pvector, B.to_ecef_vector().pvector - A.to_ecef_vector().pvector)]


def law_delta_points(A: 'GeoPoint', B: 'GeoPoint'):
    """delta_E of geographical points"""
    return [('eq', nv.delta_E(A, B).pvector, B.to_ecef_vector().pvector - A.to_ecef_vector().pvector)]


def law_delta_N(A: 'Nvector', B: 'Nvector'):
    """delta_N is the vector from A to B in the axes of the local frame at A"""
    d = nv.delta_E(A, B).pvector
    R = nv.n_E2R_EN(A.normal, A.frame.R_Ee)
    d = np.reshape(d, np.shape(R[:, 0]))
    return [('eq', np.squeeze(nv.delta_N(A, B).pvector), np.squeeze(times(tr(R), d))), ('eq', nv.delta_N(A, B).pvector, A.delta_to(B).pvector)]


def law_delta_L(A: 'Nvector', B: 'Nvector', wa: 'scalar'):
    """delta_L is the vector from A to B in the wander azimuth frame at A"""
    d = nv.delta_E(A, B).pvector
    R = nv.n_E_and_wa2R_EL(A.normal, wa, A.frame.R_Ee)
    d = np.reshape(d, np.shape(R[:, 0]))
    return [('eq', np.squeeze(nv.delta_L(A, B, wa).pvector), np.squeeze(times(tr(R), d)))]


def law_rotation_length(A: 'Nvector', B: 'ECEFvector', yaw: 'scalar'):
    """the length of a vector is the same in every frame"""
    r = B.length
    return [('eq', B.change_frame(nv.FrameN(A)).length, r), ('eq', B.change_frame(nv.FrameL(A, yaw)).length, r)]


def law_pvector(A: 'Nvector', B: 'ECEFvector'):
    """length, azimuth and elevation of a vector in a local frame"""
    P = B.change_frame(nv.FrameN(A))
    x, y, z = P.pvector
    h = np.sqrt(x * x + y * y)
    return [('eq', np.cos(P.azimuth) * h, x), ('eq', np.sin(P.azimuth) * h, y), ('eq', np.sin(P.elevation) * P.length, z),
            ('eq', np.cos(P.elevation) * P.length, h), ('eq', P.length * P.length, x * x + y * y + z * z)]


def law_change_frame(A: 'Nvector', B: 'ECEFvector', yaw: 'scalar', pitch: 'scalar', roll: 'scalar'):
    """changing to a body frame applies the inverse of its rotation"""
    F = nv.FrameB(A, yaw, pitch, roll)
    v = np.reshape(B.pvector, np.shape(F.R_EN[:, 0]))
    return [('eq', np.squeeze(B.change_frame(F).pvector), np.squeeze(times(tr(F.R_EN), v)))]
