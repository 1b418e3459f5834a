"""Operations on the sphere compute what spherical geometry defines."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('n-vectors have length one; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('sphere', 'both sides of every defining equation of spherical geometry have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'sphere.py', 'sphere')
    return functions(R)
