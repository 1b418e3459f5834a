"""The value graph away from exactly-degenerate inputs.

An exact comparison `x == 0` (or `x != 0`) of a computed, non-constant quantity singles out a
set of inputs of measure zero; the analyses of the ordinary behaviour are carried out with
these tests resolved to 'not equal'.  The degenerate branches themselves are judged by the
rules about degenerate inputs.
"""
from . import graph as g


def float_like(n, W):
    """quantities for which exact equality is a degenerate event"""
    for m in g.walk(n):
        if m.op == 'leaf':
            r = W.roles.get(m)
            if r is not None and r.kind in ('nvec', 'pos', 'posN', 'len', 'R', 'rad', 'deg', 'lat', 'lon', 'latd',
                                            'lond', 'R_Ee'):
                return True
    return False


def degenerate_tests(roots, W):
    """the exact equality tests of computed quantities in the graph"""
    out = []
    for n in g.walk(*roots):
        if n.op in ('eq', 'ne') and any(a.op != 'const' for a in n.args) and any(float_like(a, W) for a in n.args):
            out.append(n)
    return out


def generic(root, W, memo=None):
    memo = {} if memo is None else memo
    for m in g.topo(root):
        if m.id in memo:
            continue
        if m.op in ('eq', 'ne') and any(a.op != 'const' for a in m.args) and any(float_like(a, W) for a in m.args):
            memo[m.id] = g.const(m.op == 'ne', m.shape)
            continue
        args = [memo[a.id] for a in m.args]
        if all(a is b for a, b in zip(args, m.args)):
            memo[m.id] = m
        else:
            try:
                memo[m.id] = g.rebuild(m, args)
            except g.ShapeErr:
                memo[m.id] = g.mk(m.op, args, m.attr, m.shape)
    return memo[root.id]
