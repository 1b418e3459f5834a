"""Shapes of results follow the shapes of the arguments."""
from .common import *

EXPLANATION = ('Shape inference on the array value graph: array extents are symbolic (n stands for any number of positions), '
               'so an operation that only works for a particular extent, mixes up axes or returns the wrong orientation is found '
               'for every n at once; scalar inputs are tracked as zero-dimensional so that the scalar-in scalar-out contract of the '
               'object API is decided per attribute of every result.')
ASSUMPTIONS = ('an extent n >= 2 is treated as incompatible with 3',)

V3 = ('nvec', 'nvec1', 'nvecm', 'axial', 'pos', 'posN')
FLAT = ('len', 'rad', 'deg', 'lat', 'lon', 'latd', 'lond', 'num', 'bool')


def check(rep, root):
    rep.rule('accepts-layout', 'the operation returns for scalar, many, one-against-many and many-against-one inputs')
    rep.rule('result-shape', 'vectors are 3 x N, per-position numbers have N entries, rotation matrices are 3 x 3 (x N)')
    rep.rule('scalar-out', 'an object operation on scalar positions yields plain scalars')
    R = runner(root)
    for r in R.all(CASES + DEFAULT_CASES):
        rep.saw(r)
        if r.error:
            rep.undecide('analysis', None, label(r), r.error)
            continue
        for what, loc in r.gaps:
            rep.undecide('analysis', loc, label(r), 'construct not modelled: %s' % (what,))
        if not r.outcome.returned:
            x = r.raises[0] if r.raises else None
            sh = [e for e in r.effects if e.kind == 'shape']
            if r.gaps:
                continue
            rep.ob('accepts-layout', False, x[2] if x else (sh[0].loc if sh else None), label(r),
                   'always raises %s' % ('%s%s' % (x[0].name, x[0].args) if x else ''))
            continue
        sh = [e for e in r.effects if e.kind == 'shape']
        for e in sh:
            rep.ob('accepts-layout', False, e.loc, label(r), e.info['msg'])
        if not sh:
            rep.ob('accepts-layout', True, construct=label(r))
        for lab, what in r.problems:
            rep.ob('result-shape', False, loc_fn(R, r), '%s%s' % (label(r), lab), what)
        judge(rep, r, R)
    singles(rep, R)
    return functions(R)


def singles(rep, R):
    rep.rule('array-of-one', 'an array of one position (with depths as an array) gives arrays of one entry, not scalars')
    for c in CASES:
        if 'many' not in c.cfgs or 'aggregate' in c.tags or any(x in c.name for x in ('ECEFvector', 'Pvector', 'radius', 'R2xyz', 'R2zyx')):
            continue
        for k in ('a1', 'a1path1') if 'times]' in c.name or ',times' in c.name else ('a1',):
            single(rep, R, R.run(c, k))


def single(rep, R, r):
    rep.saw(r)
    if r.error or r.gaps or not r.outcome.returned:
        rep.undecide('array-of-one', None, label(r), r.error or 'not modelled')
        return
    for o in r.obs:
        s = o.node.shape if o.node is not None else None
        if s is not None and o.role in FLAT:
            rep.ob('array-of-one', s == (1,), o.node.loc, oblabel(r, o), 'the result has shape %s where (1) is documented' % show(s))


def loc_fn(R, r):
    for x in r.obs:
        if x.node is not None and x.node.loc:
            return x.node.loc
    return None


def count(o, R):
    """number of positions the result is computed from"""
    for x in g.walk(o.node):
        if x.op == 'leaf' and 'n' in (x.shape or ()) and x in R.W.roles:
            return 'n'
    return 1


def judge(rep, r, R):
    obj = 'obj' in r.case.tags
    for o in r.obs:
        if o.node is None:
            continue
        s = o.node.shape
        N = count(o, R)
        role = o.role
        if role in V3:
            k = N
            if role == 'nvec1' or r.case.anchor == 'Nvector.mean':
                k = 1
            elif 'aggregate' in r.case.tags:
                k = 'm' if CFG[r.cfg].get('t_i') == 'm' else 1
            want = [(3, k)]
            if r.cfg == 'zn' and k == 1:
                want.append((3, 'n'))   # repeated for every depth
        elif role in ('R', 'R_EX'):
            want = [(3, 3)] if N == 1 else [(3, 3, N)]
            if N == 1:
                want.append((3, 3, 1))
        elif role == 'R_Ee':
            want = [(3, 3)]
        elif role in FLAT:
            k = N
            if 'aggregate' in r.case.tags and obj:
                # depth of the mean / of the interpolated track
                k = None
            if k is None:
                continue
            want = [(k,)] if k != 1 else ([()] if obj else [(), (1,)])
            if k == 1 and any('n' in (x.shape or ()) for x in R.W.names.values()):
                want.append(('n',))     # one value repeated for every position
        else:
            continue
        if s is None:
            rep.undecide('result-shape', o.node.loc, oblabel(r, o), 'shape of the result is not known')
            continue
        rule = 'scalar-out' if want == [()] else 'result-shape'
        rep.ob(rule, s in want, o.node.loc, oblabel(r, o), 'the result has shape %s where %s is documented' % (
            show(s), ' or '.join(show(w) for w in want)))


def show(s):
    return '(%s)' % ', '.join(str(d) for d in s) + ('' if len(s) else '')
