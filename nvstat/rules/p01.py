"""Results do not depend on the choice of the E axes."""
from .common import *
from ..axes import Axes
from ..generic import generic
from .. import lawcheck

EXPLANATION = ('Covariance inference on the array graph: the axes-convention matrix is a symbolic rotation R_Ee whose second index, like '
               'the index of every vector given in E, is an E-index. E-indices may only be contracted pairwise, crossed, scaled, '
               'added and passed on; every vector result must carry exactly one and every angle, length, depth or verdict none. A '
               'well-typed program commutes with every change of axes. A conflict is confirmed by substituting the 90 degree and the '
               'cyclic changes of axes into the terms and comparing normal forms.')
ASSUMPTIONS = ('exact comparisons of computed quantities with zero come out as different (the degenerate inputs have their own property)',)

WANT = {'nvec': 1, 'nvec1': 1, 'nvecm': 1, 'axial': 1, 'pos': 1, 'R_EX': 1}
IN = {'nvec': (1, 0), 'pos': (1, 0), 'R_Ee': (0, 1), 'R_EX': (1, 0, 0)}

# changes of axes: new component i = sign * old component
TURNS = [((1, 1), (2, 1), (0, 1)), ((1, 1), (0, -1), (2, 1)), ((0, 1), (2, 1), (1, -1))]


def check(rep, root):
    rep.rule('covariant', 'vectors transform with the axes, everything else is invariant')
    R = runner(root, close_atom=True)
    for r in sweep(rep, R, [c for c in CASES if 'axes' in c.tags]):
        sc.fresh()
        memo = {}
        for o in r.obs:
            if o.node is not None and o.role not in ('R_Ee', 'a', 'f'):
                judge(rep, R, r, o, memo)
    rep.rule('pole', 'the special branches for the poles give the same directions for all axes')
    lawcheck.run(rep, R, 'axes.py', 'pole', exact=True)
    return functions(R)


def judge(rep, R, r, o, memo):
    def lt(n):
        ro = R.W.roles.get(n)
        k = len(n.shape or ())
        t = IN.get(ro.kind) if ro is not None else None
        return t[:k] if t else (0,) * k
    root = generic(o.node, R.W, memo)
    A = Axes(lt)
    t = A.of(root)
    k = len(root.shape or ())
    want = ((WANT.get(o.role, 0),) + (0,) * (k - 1)) if k else ()
    where = oblabel(r, o)
    bad = A.conflicts[0] if A.conflicts else None
    if bad is None and A.vague:
        rep.undecide('covariant', A.vague[0].loc, where, 'construct %s is not covered by the covariance rules' % A.vague[0].op)
        return
    if bad is None and t != want:
        bad = (root, 'the result carries %s E-indices along its axes where %s is documented' % (list(t), list(want)))
    if bad is None:
        rep.ob('covariant', True, construct='%s: %s' % (where, list(t)))
        return
    v, why = confirm(R, o)
    if v == 'fails':
        rep.ob('covariant', False, bad[0].loc or o.node.loc, where, '%s; the result changes with the choice of axes' % bad[1])
    else:
        rep.undecide('covariant', bad[0].loc, where, '%s, but no change of axes that alters the result was found' % bad[1])


def confirm(R, o):
    """is the result different after one of the elementary changes of axes?"""
    memo = {}
    comps = [(i, s) for i, s in terms(o, R, memo)]
    res = 'holds'
    for turn in TURNS:
        def leaf(x):
            nm, ix = x.attr
            ro = role_of(R, x)
            if nm.startswith('R_Ee') and len(ix) == 2 and all(isinstance(i, int) for i in ix):
                j, sg = turn[ix[1]]
                y = sc.mk('leaf', (), (nm, (ix[0], j)), x.src)
            elif ro is not None and ro.kind in ('nvec', 'pos') and ix and isinstance(ix[0], int):
                j, sg = turn[ix[0]]
                y = sc.mk('leaf', (), (nm, (j,) + ix[1:]), x.src)
            elif ro is not None and ro.kind == 'R_EX' and ix and isinstance(ix[0], int):
                j, sg = turn[ix[0]]
                y = sc.mk('leaf', (), (nm, (j,) + ix[1:]), x.src)
            else:
                return x
            return y if sg == 1 else sc.smk('mul', [y], (-1, (1,)), x.src)
        new = rebuild([s for _i, s in comps], leaf)
        old = dict((i, s) for i, s in comps)
        for (i, s), q in zip(comps, new):
            if WANT.get(o.role):
                j, sg = turn[i[0]]
                w = old[(j,) + i[1:]]
                if sg == -1:
                    w = sc.smk('mul', [w], (-1, (1,)), w.src)
            else:
                w = s
            v, _ = same_term(w, q)
            if v == 'unknown':
                # decide it for the reference axes: a difference there is a difference
                if same_term(w, q, ident=idents(R))[0] == 'fails':
                    v = 'fails'
            if v == 'fails':
                return 'fails', None
            if v == 'unknown':
                res = 'unknown'
    return res, None
