"""Rotation matrices are proper and follow the documented conventions."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('n-vectors have length one; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('rotation', 'both sides of every law about rotation matrices have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'rotation.py', 'rotation')
    return functions(R)
