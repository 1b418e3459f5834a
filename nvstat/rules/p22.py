"""Degenerate geometry has the documented results."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic; multiples of a right angle are exact',)


def check(rep, root):
    rep.rule('degenerate', 'at a pole, for coinciding and for opposite positions, zero vectors and right angles every branch gives the documented result')
    R = runner(root)
    lawcheck.run(rep, R, 'degenerate.py', 'degenerate', exact=True)
    return functions(R)
