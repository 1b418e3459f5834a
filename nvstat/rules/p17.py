"""Documented ellipsoids and defaults."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic; published parameters of the ellipsoids as in nvstat/laws/catalogue.py',)


def check(rep, root):
    rep.rule('documented', 'every number and name of the catalogue selects the published parameters; a call with an argument left out equals the call with the documented default')
    R = runner(root)
    lawcheck.run(rep, R, 'catalogue.py', 'documented')
    return functions(R)
