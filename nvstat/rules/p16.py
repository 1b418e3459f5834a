"""The kind of a position and the spelling of a method do not matter."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('inputs are finite numbers; real arithmetic',)


def check(rep, root):
    rep.rule('kinds', 'an operation given a position of one kind equals the operation given the position converted to another kind; each documented method selects its formula')
    R = runner(root)
    lawcheck.run(rep, R, 'kinds.py', 'kinds')
    return functions(R)
