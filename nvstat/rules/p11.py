"""Exchanging the roles of positions changes results the way geometry says."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('n-vectors have length one; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('symmetry', 'both sides of every symmetry law have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'symmetry.py', 'symmetry')
    return functions(R)
