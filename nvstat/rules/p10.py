"""Equality compares what the objects stand for."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic', 'exact comparisons of computed quantities with zero come out as different')


def check(rep, root):
    rep.rule('equality', 'both sides of every law about == and != have the same normal form')
    R = runner(root)
    lawcheck.run(rep, R, 'equality.py', 'equality')
    return functions(R)
