"""Objects do what the functions and the geodesic solver do."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic', 'geographiclib is a function of the ellipsoid, the angles in degrees, the distance and the output mask')


def check(rep, root):
    rep.rule('agreement', 'the result of the method and of the function (or solver call) it stands for have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'agreement.py', 'agreement')
    return functions(R)
