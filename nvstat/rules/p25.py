"""Positions in space follow the geometry of the ellipsoid and of the frames."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('n-vectors have length one; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('space', 'both sides of every equation about positions in space have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'ecef.py', 'space')
    return functions(R)
