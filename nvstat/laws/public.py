"""The documented names exist, and the deprecated ones still work."""
import warnings

import nvector as nv

NAMES = ['delta_E', 'delta_N', 'delta_L', 'diff_positions', 'ECEFvector', 'FrameB', 'FrameE', 'FrameN', 'FrameL', 'GeoPath', 'GeoPoint', 'Nvector', 'Pvector',
         'closest_point_on_great_circle', 'cross_track_distance', 'euclidean_distance', 'great_circle_distance', 'great_circle_normal', 'interp_nvectors',
         'interpolate', 'intersect', 'lat_lon2n_E', 'mean_horizontal_position', 'n_E2lat_lon', 'n_EB_E2p_EB_E', 'p_EB_E2n_EB_E', 'n_EA_E_and_n_EB_E2p_AB_E',
         'n_EA_E_and_p_AB_E2n_EB_E', 'n_EA_E_and_n_EB_E2azimuth', 'n_EA_E_distance_and_azimuth2n_EB_E', 'on_great_circle', 'on_great_circle_path', 'E_rotation',
         'n_E2R_EN', 'n_E_and_wa2R_EL', 'R_EL2n_E', 'R_EN2n_E', 'R2xyz', 'R2zyx', 'xyz2R', 'zyx2R', 'deg', 'mdot', 'nthroot', 'rad', 'get_ellipsoid',
         'select_ellipsoid', 'unit']


def law_names(one: 'once'):
    """every documented name is available in the package"""
    return [('flag', hasattr(nv, name), True, name) for name in NAMES]


def law_methods(P: 'GeoPoint', N: 'Nvector', E: 'ECEFvector', n: 'nvec', F: 'FrameE', one: 'once'):
    """every documented method and attribute is available"""
    V = nv.FrameN(N).Pvector(n)
    path = nv.GeoPath(P, N)
    want = [(P, ['latitude', 'longitude', 'latitude_deg', 'longitude_deg', 'latlon', 'latlon_deg', 'z', 'frame', 'scalar', 'to_ecef_vector', 'to_geo_point', 'to_nvector',
                 'delta_to', 'displace', 'distance_and_azimuth']),
            (N, ['normal', 'z', 'frame', 'scalar', 'interpolate', 'to_ecef_vector', 'to_geo_point', 'to_nvector', 'delta_to', 'unit', 'mean', 'mean_horizontal_position']),
            (V, ['pvector', 'frame', 'scalar', 'to_ecef_vector', 'to_geo_point', 'to_nvector', 'delta_to', 'length', 'azimuth', 'azimuth_deg', 'elevation', 'elevation_deg']),
            (E, ['pvector', 'frame', 'scalar', 'change_frame', 'to_ecef_vector', 'to_geo_point', 'to_nvector', 'delta_to', 'length', 'azimuth', 'azimuth_deg', 'elevation',
                 'elevation_deg']),
            (path, ['point_a', 'point_b', 'positionA', 'positionB', 'nvectors', 'geo_points', 'ecef_vectors', 'nvector_normals', 'cross_track_distance', 'track_distance',
                    'intersect', 'intersection', 'on_great_circle', 'on_path', 'closest_point_on_great_circle', 'closest_point_on_path', 'interpolate']),
            (F, ['a', 'f', 'name', 'R_Ee', 'inverse', 'direct', 'GeoPoint', 'Nvector', 'ECEFvector']),
            (nv.FrameN(N), ['R_EN', 'nvector', 'Pvector']), (nv.FrameL(N), ['R_EN', 'nvector', 'wander_azimuth', 'Pvector']),
            (nv.FrameB(N), ['R_EN', 'nvector', 'yaw', 'pitch', 'roll', 'Pvector'])]
    return [('flag', hasattr(x, name), True, name) for x, names in want for name in names]


# ------------------------------------------------------------------ deprecated names
def law_diff_positions(A: 'Nvector', n: 'nvec', z: 'depth'):
    """diff_positions is delta_E"""
    B = nv.Nvector(n, z, A.frame)
    return [('eq', nv.diff_positions(A, B).pvector, nv.delta_E(A, B).pvector), ('deprecated', True)]


def law_select_ellipsoid(one: 'once'):
    """select_ellipsoid is get_ellipsoid"""
    out = []
    for name in ('WGS84', 'wgs 72', 'Airy 1858', 5, 11):
        x, y = nv.select_ellipsoid(name), nv.get_ellipsoid(name)
        out += [('eq', x.a, y.a), ('eq', x.f, y.f), ('flag', x.name == y.name, True)]
    return out + [('deprecated', True)]


def law_mean(A: 'Nvector'):
    """Nvector.mean_horizontal_position is Nvector.mean"""
    p, q = A.mean_horizontal_position(), A.mean()
    return [('eq', p.normal, q.normal), ('eq', p.z, q.z), ('deprecated', True)]


def law_intersection(A: 'Nvector', B: 'Nvector', C: 'Nvector', D: 'Nvector'):
    """GeoPath.intersection is GeoPath.intersect"""
    p, q = nv.GeoPath(A, B), nv.GeoPath(C, D)
    return [('eq', p.intersection(q).normal, p.intersect(q).normal), ('eq', p.intersection(q).z, p.intersect(q).z), ('deprecated', True)]


def law_position_a(A: 'Nvector', B: 'Nvector'):
    """positionA is point_a"""
    p = nv.GeoPath(A, B)
    return [('eq', p.positionA.normal, A.normal), ('eq', p.positionA.z, A.z), ('deprecated', True)]


def law_position_b(A: 'Nvector', B: 'Nvector'):
    """positionB is point_b"""
    p = nv.GeoPath(A, B)
    return [('eq', p.positionB.normal, B.normal), ('eq', p.positionB.z, B.z), ('deprecated', True)]


def law_position_a_again(A: 'Nvector', B: 'Nvector'):
    """positionA warns every time"""
    p = nv.GeoPath(A, B)
    p.positionA, p.positionB
    warnings.warn('again')
    return [('eq', p.positionA.normal, A.normal), ('deprecated', True)]


def law_position_b_again(A: 'Nvector', B: 'Nvector'):
    """positionB warns every time"""
    p = nv.GeoPath(A, B)
    p.positionA, p.positionB
    warnings.warn('again')
    return [('eq', p.positionB.normal, B.normal), ('deprecated', True)]


def law_mean_again(A: 'Nvector'):
    """mean_horizontal_position warns every time"""
    A.mean_horizontal_position()
    warnings.warn('again')
    return [('eq', A.mean_horizontal_position().normal, A.mean().normal), ('deprecated', True)]


def law_intersection_again(A: 'Nvector', B: 'Nvector', C: 'Nvector', D: 'Nvector'):
    """intersection warns every time"""
    p, q = nv.GeoPath(A, B), nv.GeoPath(C, D)
    p.intersection(q)
    warnings.warn('again')
    return [('eq', p.intersection(q).normal, p.intersect(q).normal), ('deprecated', True)]


def law_select_again(one: 'once'):
    """select_ellipsoid warns every time"""
    nv.select_ellipsoid('WGS84')
    warnings.warn('again')
    return [('eq', nv.select_ellipsoid('WGS84').a, nv.get_ellipsoid('WGS84').a), ('deprecated', True)]


def law_diff_again(A: 'Nvector', B: 'Nvector'):
    """diff_positions warns every time"""
    C = nv.Nvector(B.normal, B.z, A.frame)
    nv.diff_positions(A, C)
    warnings.warn('again')
    return [('eq', nv.diff_positions(A, C).pvector, nv.delta_E(A, C).pvector), ('deprecated', True)]


def law_current_names(A: 'Nvector', B: 'Nvector'):
    """the names that replace them do not warn"""
    p = nv.GeoPath(A, B)
    nv.get_ellipsoid('wgs84')
    nv.delta_E(A, nv.Nvector(B.normal, B.z, A.frame))
    A.mean()
    p.intersect(nv.GeoPath(B, A))
    return [('eq', p.point_a.normal, A.normal), ('eq', p.point_b.normal, B.normal), ('deprecated', False)]
