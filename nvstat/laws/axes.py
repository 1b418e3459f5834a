"""Change of axes: every operation commutes with it, at the poles too."""
import numpy as np
import nvector as nv


def col(x, y, z):
    return np.array([[x], [y], [z]])


def turn(R_Ee, v):
    """the vector with these coordinates along the axes 'e' in the axes R_Ee"""
    return np.dot(R_Ee.T, v)


def axes():
    """the two named axes and two other right-handed ones"""
    return (nv.E_rotation('e'), nv.E_rotation('E'), np.array([[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]]),
            np.array([[0.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [0.0, 0.0, 1.0]]))


# ------------------------------------------------------------------ poles: 'e' is the reference
def law_pole_matrix(one: 'once'):
    """the north, east, down axes at the poles are the same directions for all axes"""
    out = []
    for R_Ee, s in [(R, s) for R in axes() for s in (1.0, -1.0)]:
        p = col(s, 0.0, 0.0)
        out += [('eq', nv.n_E2R_EN(turn(R_Ee, p), R_Ee), turn(R_Ee, nv.n_E2R_EN(p, np.eye(3))))]
    return out


def law_pole_lat_lon(one: 'once'):
    """the latitude of the poles does not depend on the axes"""
    out = []
    for R_Ee, s in [(R, s) for R in axes() for s in (1.0, -1.0)]:
        p = col(s, 0.0, 0.0)
        got = nv.n_E2lat_lon(turn(R_Ee, p), R_Ee)
        want = nv.n_E2lat_lon(p, np.eye(3))
        out += [('eq', got[0], want[0])]
    return out


def law_pole_direct(d: 'rad', az: 'rad', one: 'once'):
    """the position reached from a pole does not depend on the axes"""
    out = []
    for R_Ee, s in [(R, s) for R in axes() for s in (1.0, -1.0)]:
        p = col(s, 0.0, 0.0)
        out += [('eq', nv.n_EA_E_distance_and_azimuth2n_EB_E(turn(R_Ee, p), d, az, R_Ee),
                 turn(R_Ee, nv.n_EA_E_distance_and_azimuth2n_EB_E(p, d, az, np.eye(3))))]
    return out


def law_pole_azimuth(lat: 'acute', lon: 'lon', one: 'once'):
    """the azimuth from a pole does not depend on the axes"""
    out = []
    m = nv.lat_lon2n_E(lat, lon, np.eye(3))
    for R_Ee, s in [(R, s) for R in axes() for s in (1.0, -1.0)]:
        p = col(s, 0.0, 0.0)
        out += [('angle', nv.n_EA_E_and_n_EB_E2azimuth(turn(R_Ee, p), turn(R_Ee, m), R_Ee=R_Ee),
                 nv.n_EA_E_and_n_EB_E2azimuth(p, m, R_Ee=np.eye(3)))]
    return out


def law_pole_position(z: 'depth', a: 'a', f: 'f', one: 'once'):
    """the position vector of a pole is the same for all axes, and so is the n-vector found for it"""
    out = []
    for R_Ee, s in [(R, s) for R in axes() for s in (1.0, -1.0)]:
        p = col(s, 0.0, 0.0)
        out += [('eq', nv.n_EB_E2p_EB_E(turn(R_Ee, p), z, a, f, R_Ee), turn(R_Ee, nv.n_EB_E2p_EB_E(p, z, a, f, np.eye(3))))]
    return out


def law_lat_lon_pole(lon: 'lon', one: 'once'):
    """the n-vector of the poles is the same direction for all axes"""
    return [('eq', nv.lat_lon2n_E(s * np.pi / 2, lon, R_Ee), turn(R_Ee, nv.lat_lon2n_E(s * np.pi / 2, lon, np.eye(3)))) for R_Ee in axes() for s in (1.0, -1.0)]
