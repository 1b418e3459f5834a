"""Every column of a vectorised call is computed from that column only."""
from .common import *
from .. import lawcheck

EXPLANATION = ('Dependence analysis on the component graph: entry k of every per-position result is expanded, for a generic k, '
               'into the input elements it is computed from; each of them must be entry k of its input (or the single entry of an '
               'input that has only one). Reductions, scans, whole-array tests, masks and indices over the position axis show up as '
               'a dependence on another column.')
ASSUMPTIONS = ('tests that only decide whether a warning is given do not count', 'means and track interpolation are excluded by definition')


def check(rep, root):
    rep.rule('own-column', 'entry k of a result reads entry k of the inputs only')
    rep.rule('same-as-single', 'the term computed for one position of a vectorised call equals the term of the call with that position alone')
    rep.rule('few-columns', 'the results of 2, 3 and 4 positions side by side are those of each position alone')
    R = runner(root, close_atom=True)
    ref, last, failing = {}, None, set()
    for r in sweep(rep, R, CASES + DEFAULT_CASES, None, failing):
        if 'aggregate' in r.case.tags:
            continue
        if r.case is not last:
            sc.fresh()
            ref, last = {}, r.case
        compare(rep, r, R, ref)
        for e in r.effects:
            if e.kind == 'datarange':
                rep.ob('own-column', False, e.loc, label(r), 'the range of positions selected here depends on the values at other positions')
        for o in r.obs:
            if o.node is not None and 'n' in (o.node.shape or ()):
                judge(rep, r, o, R)
            elif o.node is not None and any('n' in (x.shape or ()) for x in g.walk(o.node) if x.op == 'leaf'):
                # a result without position axis that nevertheless reads per-position data
                judge(rep, r, o, R)
    for r in failing:
        x = r.raises[0] if r.raises else None
        rep.ob('same-as-single', False, x[2] if x else None, label(r), 'the vectorised call always raises %s' % (
            '%s%s' % (x[0].name, x[0].args) if x else ''))
    lawcheck.run(rep, runner(root), 'columns.py', 'few-columns', mixed=False)
    return functions(R)


def compare(rep, r, R, ref):
    memo = {}
    for o in r.obs:
        if o.node is None or o.node.shape is None:
            continue
        for k, (idx, s) in enumerate(terms(o, R, memo)):
            key = (o.label, k)
            if r.cfg == 'one':
                ref[key] = s
                continue
            if key not in ref:
                rep.undecide('same-as-single', o.node.loc, oblabel(r, o), 'the result has another structure than for one position')
                continue
            where = '%s%s' % (oblabel(r, o), list(idx) if idx else '')
            v, why = same_term(ref[key], s)
            d = differs(ref[key], s)
            if v == 'holds':
                rep.ob('same-as-single', True, construct=where)
            elif v == 'fails':
                rep.ob('same-as-single', False, d.loc if d is not None else o.node.loc, where,
                       'the value computed for one of several positions differs from the value computed for that position alone')
            else:
                rep.undecide('same-as-single', d.loc if d is not None else o.node.loc, where, why)


def judge(rep, r, o, R):
    try:
        comps = sc.components(o.node)
    except RecursionError:
        rep.undecide('own-column', o.node.loc, oblabel(r, o), 'too deep')
        return
    for idx, s in sorted(comps.items()):
        seen = sc.topo(s)
        bad = None
        vague = None
        for x in seen:
            if x.op == 'leaf':
                name, ix = x.attr
                node = R.W.names.get(name)
                shape = node.shape if node is not None else None
                for k, i in enumerate(ix):
                    if i == '*':
                        if shape is None or (k < len(shape) and shape[k] in PLAIN_DIMS):
                            vague = (x, name)
                    elif shape is not None and k < len(shape) and shape[k] in PLAIN_DIMS and i != '@%s' % shape[k]:
                        bad = (x, name, i)
        where = '%s%s' % (oblabel(r, o), list(idx) if idx else '')
        if any(isinstance(d, str) and '*' in d for d in o.node.shape or ()):
            rep.ob('own-column', False, o.node.loc, where, 'the result pairs every position with every other one (extent %s)' % (o.node.shape,))
        elif bad:
            user = next((y for y in seen if bad[0] in y.args), bad[0])
            culprit = blame(s, bad[0]) or user
            rep.ob('own-column', False, culprit.loc, where,
                   'column k of the result depends on %s of the input %s' % (describe(bad[2]), bad[1]))
        elif vague:
            op = next((y for y in seen if vague[0] in y.args), vague[0])
            node = op.src
            if whole(node):
                rep.ob('own-column', False, node.loc, where, 'column k of the result depends on all columns of the input %s' % vague[1])
            else:
                rep.undecide('own-column', op.loc, where, 'construct %s without an element-wise meaning' % (op.attr,))
        else:
            rep.ob('own-column', True, construct=where)


def whole(node):
    """operations known to combine the entries of the position axis"""
    if node is None:
        return False
    for m in g.walk(node):
        if m.op == 'reduce':
            src = m.args[0]
            if any(src.shape[a] in PLAIN_DIMS for a in m.attr[1]):
                return True
    return False


def blame(root, leaf):
    """the operation which introduces the foreign index"""
    for y in sc.topo(root):
        if y.op in ('over', 'scan', 'savgol', 'interp') and leaf in sc.topo(y):
            return y
    return None


def describe(i):
    if isinstance(i, int):
        return 'entry %d' % i
    if isinstance(i, str) and i.startswith('#'):
        return 'every entry'
    if isinstance(i, tuple) and i and i[0] == 'g':
        return 'the masked entries'
    if isinstance(i, tuple) and i and i[0] == 'v':
        return 'a data-dependent entry'
    return 'entry %s' % (i,)
