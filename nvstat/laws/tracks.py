"""Sampled tracks are smoothed and interpolated as asked."""
import numpy as np
import nvector as nv
from scipy.interpolate import interp1d
from scipy.signal import savgol_filter

KINDS = ('linear', 'nearest', 'zero', 'slinear', 'quadratic', 'cubic', 3)


def track(ti, t, y, kind='linear', window=0, order=2, mode='interp', cval=0.0):
    """the samples y, filtered and interpolated; NaN beyond the sampled times"""
    if window > 0:
        y = savgol_filter(y, window, order, axis=1, mode=mode, cval=cval)
    return interp1d(t, y, kind=kind, axis=1, bounds_error=False)(ti).reshape(y.shape[0], -1)


def unit(v):
    return v / np.sqrt(np.sum(v * v, axis=0))


def law_kind(n: 'nvec', ti: 'ti', t: 't'):
    """n-vectors are interpolated component by component with the method asked for, then made unit vectors"""
    return [('eq', nv.interp_nvectors(ti, t, n), unit(track(ti, t, n)))] + [
        ('eq', nv.interp_nvectors(ti, t, n, kind=k), unit(track(ti, t, n, k))) for k in KINDS]


def law_window(n: 'nvec', ti: 'ti', t: 't'):
    """a window smooths the components before they are interpolated; even lengths are rounded up"""
    out = []
    for window, odd in ((3, 3), (4, 5), (5, 5), (6, 7), (7, 7), (10, 11), (101, 101)):
        out.append(('eq', nv.interp_nvectors(ti, t, n, window_length=window), unit(track(ti, t, n, 'linear', odd))))
    return out


def law_window_order(n: 'nvec', ti: 'ti', t: 't'):
    """every positive window smooths, also the shortest for a polynomial order and very long ones"""
    out = [('eq', nv.interp_nvectors(ti, t, n, window_length=0, polyorder=p), unit(track(ti, t, n))) for p in (0, 1, 3)]
    for window, odd in ((1, 1), (2, 3), (3, 3), (4, 5), (5, 5), (8, 9), (9, 9), (12, 13), (21, 21), (50, 51), (1000, 1001)):
        for p in (0, 1, 2, 3, 4, 5):
            if p < odd:
                out.append(('eq', nv.interp_nvectors(ti, t, n, 'nearest', window, p), unit(track(ti, t, n, 'nearest', odd, p))))
    return out


def law_object_window(A: 'Nvector', ti: 'ti', t: 't'):
    """objects and their depths are smoothed by windows of every length"""
    depths = np.broadcast_to(A.z, A.normal.shape)
    out = []
    for window, odd, p in ((1, 1, 0), (2, 3, 1), (2, 3, 2), (3, 3, 0), (8, 9, 5), (11, 11, 2), (12, 13, 2), (21, 21, 3), (101, 101, 2), (1000, 1001, 4)):
        B = A.interpolate(ti, t, window_length=window, polyorder=p)
        out += [('eq', B.normal, unit(track(ti, t, A.normal, 'linear', odd, p))), ('eq', B.z, track(ti, t, depths, 'linear', odd, p)[0])]
    return out


def law_mode(n: 'nvec', ti: 'ti', t: 't', c: 'scalar'):
    """order of the polynomial, extension beyond the ends and its value are those asked for"""
    return [('eq', nv.interp_nvectors(ti, t, n, 'cubic', 7, 3, mode, c), unit(track(ti, t, n, 'cubic', 7, 3, mode, c)))
            for mode in ('mirror', 'constant', 'nearest', 'wrap', 'interp')] + [
        ('eq', nv.interp_nvectors(ti, t, n, window_length=5, polyorder=p), unit(track(ti, t, n, 'linear', 5, p))) for p in (1, 2, 3, 4)]


def law_object(A: 'Nvector', ti: 'ti', t: 't', c: 'scalar'):
    """objects are interpolated like their n-vectors, and depths like one more component"""
    out = []
    for kind in KINDS:
        B = A.interpolate(ti, t, kind)
        out += [('eq', B.normal, unit(track(ti, t, A.normal, kind))), ('eq', B.z, track(ti, t, np.broadcast_to(A.z, A.normal.shape), kind)[0])]
    for window, odd in ((4, 5), (7, 7)):
        for mode in ('mirror', 'constant', 'nearest', 'wrap', 'interp'):
            B = A.interpolate(ti, t, 'cubic', window, 3, mode, c)
            out += [('eq', B.normal, unit(track(ti, t, A.normal, 'cubic', odd, 3, mode, c))),
                    ('eq', B.z, track(ti, t, np.broadcast_to(A.z, A.normal.shape), 'cubic', odd, 3, mode, c)[0])]
    return out


def law_object_default(A: 'Nvector', ti: 'ti', t: 't'):
    """objects are interpolated linearly and without smoothing unless asked for"""
    B, C = A.interpolate(ti, t), A.interpolate(ti, t, window_length=5)
    return [('eq', B.normal, unit(track(ti, t, A.normal))), ('eq', B.z, track(ti, t, np.broadcast_to(A.z, A.normal.shape))[0]),
            ('eq', C.normal, unit(track(ti, t, A.normal, 'linear', 5))), ('eq', C.z, track(ti, t, np.broadcast_to(A.z, A.normal.shape), 'linear', 5)[0])]
