"""Every n-vector the package computes has length one."""
from .common import *
from .. import poly

EXPLANATION = ('The three components of each returned n-vector are put into algebraic normal form on every branch (ring laws, addition '
               'theorems, sines and cosines of inverse functions, unit length of the n-vectors passed in) and the sum of their squares is '
               'reduced; it must come out as the constant one. Nothing is evaluated at sample inputs.')
ASSUMPTIONS = ('n-vectors passed in have length one; rotation matrices passed in have columns of length one',
               'exact comparisons of computed quantities with zero come out as different')
ROLES = ('nvec', 'nvec1', 'nvecm')


def check(rep, root):
    rep.rule('unit-length', 'the squared components of a returned n-vector add up to one')
    R = runner(root)
    cases = [c for c in CASES + DEFAULT_CASES if 'arith' not in c.tags and has_nvec(c)]
    for r in sweep(rep, R, cases):
        sc.fresh()
        memo = {}
        for o in r.obs:
            if o.node is not None and o.role in ROLES:
                judge(rep, R, r, o, memo)
    return functions(R)


def has_nvec(c):
    out = c.out if isinstance(c.out, tuple) else (c.out,)
    return any(x in ROLES or x == 'Nvector' for x in out)




def judge(rep, R, r, o, memo):
    comps = [s for _i, s in terms(o, R, memo)]
    where = oblabel(r, o)
    orth = [nm for nm, nd in R.W.names.items() if R.W.roles[nd].kind in ('R', 'R_EX')]
    try:
        cases = poly.paths(comps)
    except poly.TooBig:
        rep.undecide('unit-length', o.node.loc, where, 'too many branches')
        return
    for facts, ts in cases:
        def goal(A):
            ps = [A.nf(x) for x in ts]
            return A.sub(A.addp(*[A.mulp(p, p) for p in ps]), A.const(1))
        v, why = poly.prove(lambda cut: poly.Algebra(unit=units(R), ident=idents(R), orth=orth, cut=cut), goal, facts=facts)
        if v == 'fails' and opaque_in(*ts, known=('interp', 'savgol')):
            v = 'unknown'
        if v == 'holds':
            rep.ob('unit-length', True, construct=where)
        elif v == 'fails':
            rep.ob('unit-length', False, o.node.loc, where, 'the squared length minus one is %s' % why)
        else:
            rep.undecide('unit-length', o.node.loc, where, why)
