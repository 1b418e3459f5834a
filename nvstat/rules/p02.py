"""Lengths scale: the results do not depend on the unit of length."""
from .common import *

EXPLANATION = ('Dimension inference: every term of every result gets an exponent of length; adding, comparing or selecting between '
               'terms of different dimension, or a transcendental function of a length, is a conflict, and the dimension of each '
               'result must be the documented one. By Buckingham homogeneity this is equivalent to: rescaling every length input '
               'rescales every length output by the same factor and leaves angles, n-vectors and verdicts unchanged.')
ASSUMPTIONS = ('geographiclib: lengths in and out are homogeneous in (a, s12)', 'documented absolute default tolerances are lengths')


def check(rep, root):
    rep.rule('length-homogeneous', 'inferred length exponent exists (no conflict) and equals the documented one')
    R = runner(root, close_atom=True)
    for r in sweep(rep, R):
        check_units(rep, R, r, 'length-homogeneous', ('m',), 'the result depends on the unit of length')
    return functions(R)
