"""Only the direction of an n-vector matters where it is used as a direction."""
from .common import *
from .. import dims
from .. import poly

EXPLANATION = ('Scale inference: every n-vector input gets its own base unit, so that the exponent of each input length is carried '
               'through all terms; a result that may depend on the length of an n-vector has a non-zero exponent or joins terms of '
               'different exponents. A result with exponent zero is unchanged when an input n-vector is scaled.')
ASSUMPTIONS = ('positive scale factors; rounding is ignored',)


def check(rep, root):
    rep.rule('direction-only', 'the inferred exponent of the length of every input n-vector is zero')
    R = runner(root, close_atom=True)
    for r in sweep(rep, R, [c for c in CASES if 'direction' in c.tags]):
        sc.fresh()
        for o in r.obs:
            if o.node is not None:
                judge(rep, R, r, o)
    return functions(R)


def judge(rep, R, r, o):
    def ld(s):
        ro = role_of(R, s)
        return {'S(%s)' % s.attr[0]: 1} if ro is not None and ro.kind == 'nvec' else {}
    for idx, s in sorted(sc.components(o.node).items()):
        s, = poly.assume([s], {}, poly.generic_test)
        D = dims.Dims(ld)
        t = D.of(s)
        where = '%s%s' % (oblabel(r, o), list(idx) if idx else '')
        bad = D.conflicts[0] if D.conflicts else None
        if bad is None and t not in (dims.FREE, dims.DIMLESS):
            bad = (s, 'the result scales as %s' % dims.show(t))
        if bad is None:
            if D.vague:
                rep.undecide('direction-only', D.vague[0].loc, where, 'scale of %s is not known' % D.vague[0].op)
            else:
                rep.ob('direction-only', True, construct=where)
            continue
        v = 'holds'
        for nm in sorted(set(x.attr[0] for x in sc.leaves(s) if ld(x))):
            k = sc.mk('leaf', (), ('@scale', ()))
            q, = rebuild([s], lambda x: sc.smk('mul', [x, k], (1, (1, 1)), x.src) if x.attr[0] == nm else x)
            w, _ = same_term(s, q, positive=['@scale'])
            if w != 'holds':
                v = w
                break
        if v == 'holds':
            rep.ob('direction-only', True, construct=where)
        elif v == 'fails':
            rep.ob('direction-only', False, bad[0].loc or o.node.loc, where, '%s: the result depends on the length of the n-vector' % bad[1])
        else:
            rep.undecide('direction-only', bad[0].loc, where, bad[1])
