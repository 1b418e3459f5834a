"""Documented names exist and deprecated names still work."""
from .common import *
from .. import lawcheck

EXPLANATION = lawcheck.__doc__
ASSUMPTIONS = ('documented names as listed in nvstat/laws/public.py',)


def check(rep, root):
    rep.rule('public', 'every documented name resolves in the package; a deprecated name warns and equals its replacement')
    R = runner(root)
    lawcheck.run(rep, R, 'public.py', 'public')
    return functions(R)
