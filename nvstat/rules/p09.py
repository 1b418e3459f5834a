"""Results belong to the frame of their positions, at the documented depth."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic',)


def check(rep, root):
    rep.rule('provenance', 'ellipsoid, axes, local frame and depth of every returned object equal, as terms, those documented')
    R = runner(root)
    lawcheck.run(rep, R, 'provenance.py', 'provenance')
    return functions(R)
