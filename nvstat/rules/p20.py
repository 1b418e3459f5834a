"""Integer inputs give the results of the same floating point inputs."""
from .common import *

EXPLANATION = ('Every public operation is interpreted twice, with all numeric inputs floating and with all numeric inputs of integer type. The element type '
               'is propagated through every operation; a floating value stored into an array of integer type, an in-place true division of such an array '
               'and an explicit conversion to integers lose the fraction, and are reported where they happen. The result terms of both runs are compared.')
ASSUMPTIONS = ('integer arrays are wide enough for the values computed in them',)


def check(rep, root):
    rep.rule('no-truncation', 'no floating value is stored with the integer type of an input')
    rep.rule('same-result', 'the result term for integer inputs is the term for floating inputs')
    rep.rule('accepted', 'integer inputs are not rejected where floating inputs are accepted')
    F, R, M = runner(root), runner(root, dt='i'), runner(root, dt=())
    for cases in (CASES, DEFAULT_CASES):
        for case in cases:
            for cfg in case.cfgs:
                one(rep, F, R, case, cfg)
                names = sorted(F.run(case, cfg).names)
                if len(names) > 1:
                    # integers for one of the inputs only
                    for name in names:
                        if F.W.roles[F.W.names[name]].kind not in ('R_Ee', 'f', 'flag'):
                            M.W.dtcase = (name,)
                            M.cache.clear()
                            one(rep, F, M, case, cfg, ' with integer %s' % name)
    return functions(R)


def integral(n):
    """values without a fraction"""
    if n is None:
        return False
    try:
        return all(whole_number(x) for x in sc.components(n).values())
    except Exception:
        return False


def whole_number(x):
    if x.op in ('const', 'num'):
        v = x.attr
        try:
            return float(v) == int(v)
        except (TypeError, ValueError, OverflowError):
            return False
    if x.op in ('trunc', 'floor', 'ceil', 'rint', 'sign'):
        return True
    return x.op in ('neg', 'abs', 'where') and all(whole_number(y) for y in x.args[-2:])


def one(rep, F, R, case, cfg, which=''):
    a, b = F.run(case, cfg), R.run(case, cfg)
    rep.saw(b)
    lab = label(b) + which
    for r in (a, b):
        if r.error or r.gaps:
            rep.undecide('analysis', None, lab, r.error or 'construct not modelled: %s' % (r.gaps[0],))
            return
    if not a.outcome.returned:
        rep.undecide('analysis', a.raises[0][2] if a.raises else None, lab, 'does not return')
        return
    if not b.outcome.returned:
        x = b.raises[0] if b.raises else None
        rep.ob('accepted', False, x[2] if x else None, lab, 'integer inputs always raise %s' % ('%s%s' % (x[0].name, x[0].args) if x else ''))
        return
    rep.ob('accepted', True, construct=lab)
    bad = [e for e in b.effects if e.kind == 'dtype' or e.kind == 'store' and e.info.get('dt') == 'i' and e.info.get('valdt') == 'f' and not integral(e.info.get('val'))]
    for e in bad:
        rep.ob('no-truncation', False, e.loc, lab, e.info.get('what') if e.kind == 'dtype' else
               '%s stores a floating value into an array of integer type' % e.info.get('what'))
    stores = [e for e in b.effects if e.kind == 'store']
    rep.ob('no-truncation', True, construct='%s: %d stores' % (lab, len(stores)), n=max(1, len(stores) - len(bad)))
    if bad:
        return
    for o, p in zip(a.obs, b.obs):
        if o.node is None or p.node is None:
            continue
        where = oblabel(b, p) + which
        if o.node is p.node:
            rep.ob('same-result', True, construct=where)
            continue
        sc.fresh()
        m1, m2 = {}, {}
        s, t = sc.components(o.node), sc.components(p.node)
        if set(s) != set(t):
            rep.undecide('same-result', p.node.loc, where, 'shapes %s and %s' % (o.node.shape, p.node.shape))
            continue
        for i in sorted(s):
            v, why = same_term(s[i], t[i])
            d = differs(s[i], t[i])
            loc = d.loc if d is not None else p.node.loc
            if v == 'holds':
                rep.ob('same-result', True, construct='%s%s' % (where, list(i) if i else ''))
            elif v == 'fails' or lossy(s[i], t[i]):
                rep.ob('same-result', False, loc, where, 'the result for integer inputs differs from the result for floating inputs')
            else:
                rep.undecide('same-result', loc, where, why)


def lossy(s, t):
    """an explicit conversion to integers in one of the terms only"""
    f = lambda x: any(y.op in ('trunc',) for y in sc.topo(x))
    return f(s) != f(t)
