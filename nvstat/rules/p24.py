"""Conversions and their inverses undo each other."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('n-vectors have length one; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('inverse', 'both sides of every law about conversions and their inverses have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'inverses.py', 'inverse')
    return functions(R)
