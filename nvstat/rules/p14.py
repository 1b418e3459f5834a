"""Results lie in their documented ranges, and no rounding error turns a result into NaN."""
from .common import *
from .. import lawcheck, poly, ranges

EXPLANATION = 'Interval analysis of every result: ' + ranges.__doc__
ASSUMPTIONS = ('inputs are finite numbers of their documented ranges', 'geographiclib returns latitudes, longitudes and azimuths in its documented ranges')

ONE = {'arcsin': 'arcsin', 'arccos': 'arccos'}


def sane(R):
    """intervals of inputs that hold although the inputs are rounded: components of unit vectors and rotations may exceed one"""
    base = ranges.leaf_ranges(R)

    def leaf(s):
        if s.op == 'leaf':
            ro = role_of(R, s)
            if ro is not None and ro.kind in ('nvec', 'nvec1', 'R', 'R_EX', 'R_Ee'):
                return None
        return base(s)
    return leaf


def explicit(s):
    """nothing in the term is unknown to the analysis"""
    return all(x.op in ('const', 'leaf', 'add', 'mul', 'sin', 'cos', 'where', 'clip', 'sqrt', 'square', 'maximum', 'minimum', 'abs', 'lt', 'le', 'eq', 'ne', 'and', 'or', 'not', 'isnan',
                        'arctan2', 'hypot') for x in sc.topo(s))


def shrinking(x):
    """c - (something not negative), under a root: the argument"""
    if x.op == 'sqrt':
        a = x.args[0]
    elif x.op == 'mul':
        return [y for e, y in zip(x.attr[1], x.args) if float(e) * 2 % 2 == 1 and one_minus(y)]
    elif x.op == 'pow' and len(x.args) == 2 and ranges.number(x.args[1]) in (0.5, -0.5, 1.5):
        a = x.args[0]
    else:
        return []
    return [a] if one_minus(a) else []


def one_minus(a):
    if a.op != 'add' or isinstance(a.attr[0], str) or not float(a.attr[0]) > 0:
        return False
    return all(float(c) < 0 and t.op in ('mul', 'square') for c, t in zip(a.attr[1], a.args))


def check(rep, root):
    rep.rule('range', 'angles, distances, lengths and components of unit vectors lie in their documented ranges')
    rep.rule('domain', 'the argument of every arcsin, arccos and root of a difference from one stays in its domain whatever the rounding errors: it is clipped, a sine, or a quotient by a norm')
    R = runner(root)
    lawcheck.run(rep, R, 'bounds.py', 'range')
    done = set()
    for r in sweep(rep, R):
        sc.fresh()
        L = ranges.Ranges(sane(R))
        for o in r.obs:
            if o.node is None:
                continue
            for i, s in sorted(sc.components(o.node).items()):
                for x in sc.topo(s):
                    if x.op in ONE and x.args:
                        args, dom = [x.args[0]], (-1.0, 1.0)
                    else:
                        args, dom = shrinking(x), (0.0, ranges.INF)
                    for a in args:
                        key = (x.id, a.id, oblabel(r, o))
                        if key in done:
                            continue
                        done.add(key)
                        y, = poly.assume([a], {}, poly.generic_test)
                        p = L.of(y)
                        name = ONE.get(x.op, 'a root')
                        if ranges.inside(p, dom[0], dom[1], 0.0):
                            rep.ob('domain', True, construct='%s: %s' % (oblabel(r, o), name))
                        elif explicit(y):
                            rep.ob('domain', False, x.loc, '%s: %s' % (oblabel(r, o), name),
                                   'NaN when rounding takes its argument beyond the domain: it is only known to lie in [%.4g, %.4g]' % p)
                        else:
                            rep.undecide('domain', x.loc, oblabel(r, o), 'argument of %s: only [%.4g, %.4g] could be shown' % ((name,) + p))
    return functions(R)
