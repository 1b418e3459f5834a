"""Rotation matrices and orientation conventions."""
import numpy as np
import nvector as nv


def tr(R):
    return np.swapaxes(R, 0, 1)


def mul(A, B):
    return np.einsum('ij...,jk...->ik...', A, B)


def col(R, k):
    return R[:, k]


def dot(a, b):
    return np.einsum('i...,i...->...', a, b)


def cross(a, b):
    return np.cross(a, b, axis=0)


def Rx(t):
    c, s = np.cos(t), np.sin(t)
    one, zero = 1 + 0 * t, 0 * t
    return np.array([[one, zero, zero], [zero, c, -s], [zero, s, c]])


def Ry(t):
    c, s = np.cos(t), np.sin(t)
    one, zero = 1 + 0 * t, 0 * t
    return np.array([[c, zero, s], [zero, one, zero], [-s, zero, c]])


def Rz(t):
    c, s = np.cos(t), np.sin(t)
    one, zero = 1 + 0 * t, 0 * t
    return np.array([[c, -s, zero], [s, c, zero], [zero, zero, one]])


def proper(R):
    """orthonormal columns forming a right-handed system"""
    return [('eq', dot(col(R, i), col(R, j)), 1 if i == j else 0) for i in range(3) for j in range(i + 1)] + \
        [('eq', cross(col(R, 0), col(R, 1)), col(R, 2))]


def law_xyz2R(x: 'rad', y: 'rad', z: 'rad'):
    """xyz2R is the rotation about x, then the new y, then the newest z axis"""
    return [('eq', nv.xyz2R(x, y, z), mul(mul(Rx(x), Ry(y)), Rz(z)))]


def law_zyx2R(x: 'rad', y: 'rad', z: 'rad'):
    """zyx2R is the rotation about z, then the new y, then the newest x axis"""
    return [('eq', nv.zyx2R(z, y, x), mul(mul(Rz(z), Ry(y)), Rx(x)))]


def law_xyz_proper(x: 'rad', y: 'rad', z: 'rad'):
    """xyz2R is a proper rotation"""
    return proper(nv.xyz2R(x, y, z))


def law_zyx_proper(x: 'rad', y: 'rad', z: 'rad'):
    """zyx2R is a proper rotation"""
    return proper(nv.zyx2R(z, y, x))


def law_R_EN_proper(n_E: 'nvec', R_Ee: 'R_Ee'):
    """n_E2R_EN is a proper rotation"""
    return proper(nv.n_E2R_EN(n_E, R_Ee))


def law_R_EL_proper(n_E: 'nvec', wa: 'rad', R_Ee: 'R_Ee'):
    """n_E_and_wa2R_EL is a proper rotation"""
    return proper(nv.n_E_and_wa2R_EL(n_E, wa, R_Ee))


def law_frame_N(n_E: 'nvec', R_Ee: 'R_Ee'):
    """the axes of N point north, east and down"""
    R = nv.n_E2R_EN(n_E, R_Ee)
    pole = np.array([[1], [0], [0]])
    east = cross(pole, n_E)
    east = east / np.sqrt(dot(east, east))
    return [('eq', col(R, 2), -np.squeeze(n_E)), ('eq', col(R, 1), np.squeeze(east)),
            ('eq', col(R, 0), np.squeeze(cross(n_E, east)))]


def law_frame_L(n_E: 'nvec', wa: 'rad', R_Ee: 'R_Ee'):
    """L is N turned by the wander azimuth about the down axis"""
    return [('eq', nv.n_E_and_wa2R_EL(n_E, wa, R_Ee), mul(nv.n_E2R_EN(n_E, R_Ee), Rz(wa)))]


def law_FrameN(A: 'Nvector'):
    """the matrix of a FrameN is that of its position"""
    R = nv.FrameN(A).R_EN
    return proper(R) + [('eq', R, nv.n_E2R_EN(A.normal, A.frame.R_Ee))]


def law_FrameL(A: 'Nvector', wa: 'rad'):
    """the matrix of a FrameL is that of its position and wander azimuth"""
    R = nv.FrameL(A, wander_azimuth=wa).R_EN
    return proper(R) + [('eq', R, mul(nv.n_E2R_EN(A.normal, A.frame.R_Ee), Rz(wa)))]


def law_FrameB(A: 'Nvector', yaw: 'rad', pitch: 'rad', roll: 'rad'):
    """the matrix of a FrameB is N turned by yaw, pitch and roll"""
    R = nv.FrameB(A, yaw=yaw, pitch=pitch, roll=roll).R_EN
    return [('eq', R, mul(nv.n_E2R_EN(A.normal, A.frame.R_Ee), mul(mul(Rz(yaw), Ry(pitch)), Rx(roll))))]


def law_FrameB_proper(A: 'Nvector', yaw: 'rad', pitch: 'rad', roll: 'rad'):
    """the matrix of a FrameB is a proper rotation"""
    return proper(nv.FrameB(A, yaw=yaw, pitch=pitch, roll=roll).R_EN)


def law_E_axes():
    """the two conventions for the axes of E are the documented ones"""
    e = nv.E_rotation('e')
    return [('eq', e, np.array([[0, 0, 1], [0, 1, 0], [-1, 0, 0]])),
            ('eq', nv.E_rotation(axes='E'), np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]])),
            ('eq', nv.E_rotation(), e)]
