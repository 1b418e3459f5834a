"""Sampled tracks are smoothed and interpolated as asked."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('scipy.interpolate.interp1d and scipy.signal.savgol_filter are functions of their arguments that do what they document',
               'inputs are finite numbers; real arithmetic')


def check(rep, root):
    rep.rule('track', 'interpolated tracks are the documented composition of smoothing, interpolation and normalisation, whatever the options')
    R = runner(root)
    lawcheck.run(rep, R, 'tracks.py', 'track')
    return functions(R)
