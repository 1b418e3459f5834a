"""Positions of different frames are not combined."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic',)


def check(rep, root):
    rep.rule('frames', 'on every branch the operation raises ValueError if and only if the frames of the positions differ in ellipsoid or axes')
    R = runner(root)
    lawcheck.run(rep, R, 'frames.py', 'frames')
    return functions(R)
