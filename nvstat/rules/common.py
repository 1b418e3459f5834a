"""Helpers shared by the rules."""
from .. import graph as g
from .. import scalar as sc
from ..cases import CASES, DEFAULT_CASES, UTIL_CASES, Runner, CFG
from ..values import *

PLAIN_DIMS = ('n', 'm')


def runner(root, **kw):
    return Runner(root, **kw)


def sweep(rep, R, cases=None, cfgs=None, failing=None):
    """analyse every case; what could not be analysed is listed as undecided"""
    for r in R.all(cases, cfgs):
        rep.saw(r)
        loc = None
        if r.error:
            rep.undecide('analysis', None, label(r), r.error)
            continue
        for what, loc in r.gaps:
            rep.undecide('analysis', loc, label(r), 'construct not modelled: %s' % (what,))
        if not r.outcome.returned:
            if failing is not None and r.cfg != 'one' and not r.gaps and R.run(r.case, r.case.cfgs[0]).outcome.returned:
                failing.add(r)
                continue
            why = '; '.join('%s%s' % (x[0].name, x[0].args) for x in r.raises[:2])
            rep.undecide('analysis', r.raises[0][2] if r.raises else None, label(r), 'does not return: %s' % why)
            continue
        for lab, what in r.problems:
            rep.undecide('analysis', None, '%s%s' % (label(r), lab), what)
        yield r


def label(r):
    return '%s {%s}' % (r.case.name, r.cfg)


def oblabel(r, o):
    return '%s%s {%s}' % (r.case.name, o.label, r.cfg)


def functions(R):
    return sorted(R.W.I.funcs_seen)


def loc_of(n):
    return n.loc if n is not None else None


# ---------------------------------------------------------------- term comparison
def flatten(s, R, memo):
    """the term of one position: the position axis is dropped from every input component
    (except for the running position of a reduction)"""
    for x in sc.topo(s):
        if x.id in memo:
            continue
        if x.op == 'leaf':
            name, ix = x.attr
            node = R.W.names.get(name)
            if node is not None and len(ix) == len(node.shape):
                ix = tuple(i for i, d in zip(ix, node.shape) if d == 3 or str(i)[:1] == '#')
            memo[x.id] = sc.mk('leaf', (), (name, ix), x.src)
        elif x.op == 'index':
            memo[x.id] = sc.mk('index', (), 0, x.src)
        else:
            memo[x.id] = sc.smk(x.op, [memo[a.id] for a in x.args], x.attr, x.src)
    return memo[s.id]


def terms(o, R, memo):
    """[(component index, term of one position)] of an observable"""
    return [(idx, flatten(s, R, memo)) for idx, s in sorted(sc.components(o.node).items())]


OPAQUE = ('opaque', 'truth', 'popaque', 'lookup', 'interp', 'savgol', 'scan')


def opaque_in(*ss, **kw):
    """do the terms contain values nothing is known about?  known: operations that may be taken as any function of their arguments"""
    from ..poly import reducible_over
    return any((x.op in OPAQUE or (x.op == 'over' and not reducible_over(x.attr))) and x.op not in kw.get('known', ()) for x in sc.topo(*ss))


def same_term(a, b, **alg):
    """'holds' / 'fails' / 'unknown' for equality of two terms as real functions"""
    from .. import poly
    if a is b:
        return 'holds', None
    a, b = poly.assume([a, b], {}, poly.generic_test)
    if a is b:
        return 'holds', None
    v, why = poly.prove(lambda cut: poly.Algebra(cut=cut, **alg), lambda A: A.sub(A.nf(a), A.nf(b)), sides=lambda A: [A.nf(a), A.nf(b)], terms=(a, b))
    if v == 'fails' and opaque_in(a, b):
        return 'unknown', why
    return v, why


def units(R):
    return [nm for nm, nd in R.W.names.items() if R.W.roles[nd].kind == 'nvec']


def idents(R):
    return [nd.attr for nd, ro in R.W.roles.items() if ro.kind == 'R_Ee']


def differs(a, b):
    """the first construct at which two terms differ"""
    if a is b:
        return None
    if a.op != b.op or a.attr != b.attr or len(a.args) != len(b.args):
        return b if b.loc else a
    for x, y in zip(a.args, b.args):
        d = differs(x, y)
        if d is not None:
            return d if d.loc else b
    return None


def rebuild(roots, leaf):
    """the terms with every input component x replaced by leaf(x)"""
    memo, out = {}, []
    for r in roots:
        for x in sc.topo(r):
            if x.id in memo:
                continue
            if x.op == 'leaf':
                memo[x.id] = leaf(x)
            else:
                args = [memo[a.id] for a in x.args]
                memo[x.id] = x if all(a is b for a, b in zip(args, x.args)) else sc.smk(x.op, args, x.attr, x.src)
        out.append(memo[r.id])
    return out


def role_of(R, s):
    """role of the input a component belongs to"""
    n = R.W.names.get(s.attr[0])
    return R.W.roles.get(n) if n is not None else None


UNITS = {'latd': {'deg': 1}, 'lond': {'deg': 1}, 'deg': {'deg': 1}, 'len': {'m': 1}, 'pos': {'m': 1}, 'posN': {'m': 1},
         'a': {'m': 1}, 't': {'t': 1}, 'ti': {'t': 1}}


def unit_of(R, s):
    if s.attr[0] == 'rad/deg':
        return {'deg': -1}
    ro = role_of(R, s)
    return UNITS.get(ro.kind, {}) if ro is not None else {}


def check_units(rep, R, r, rule, bases, what):
    """dimension inference over all results of a case; conflicts are confirmed on the normal form"""
    from .. import dims
    from .. import poly
    sc.fresh()
    D = dims.Dims(lambda s: unit_of(R, s), bases, 'tol' in r.case.tags)
    for o in r.obs:
        if o.node is None:
            continue
        for idx, s in sorted(sc.components(o.node).items()):
            s, = poly.assume([s], {}, poly.generic_test)
            k, v = len(D.conflicts), len(D.vague)
            t = D.of(s)
            want = D.keep(UNITS.get(o.role, {}))
            where = '%s%s' % (oblabel(r, o), list(idx) if idx else '')
            bad = None
            if t != dims.FREE and t != want:
                bad = (s, 'the result is a %s where a %s is documented' % (dims.show(t), dims.show(want)))
            hit = [(c, msg) for c, msg in D.conflicts if c.id in set(y.id for y in sc.topo(s))] if D.conflicts else []
            if hit:
                bad = hit[0]
            if bad is None:
                vague = [x for x in D.vague if x.id in set(y.id for y in sc.topo(s))] if D.vague else []
                if vague:
                    rep.undecide(rule, vague[0].loc, where, 'unit of %s is not known' % vague[0].op)
                else:
                    rep.ob(rule, True, construct='%s: %s' % (where, dims.show(t)))
                continue
            if hit and t == dims.FREE or hit:
                v = confirm_units(R, s, bases, want)
            else:
                v = 'fails'
            if v == 'fails':
                rep.ob(rule, False, bad[0].loc or o.node.loc, where, '%s; %s' % (bad[1], what))
            elif v == 'holds':
                rep.ob(rule, True, construct=where)
            else:
                rep.undecide(rule, bad[0].loc, where, bad[1])


def confirm_units(R, s, bases, want):
    """scale the unit symbolically and compare the normal forms"""
    k = {b: sc.mk('leaf', (), ('@' + b, ())) for b in bases}

    def factor(d):
        return [(k[b], e) for b, e in (d.items() if isinstance(d, dict) else d) if b in k]

    def leaf(x):
        f = factor(unit_of(R, x))
        if not f:
            return x
        return sc.smk('mul', [x] + [a for a, _e in f], (1, (1,) + tuple(int(e) for _a, e in f)), x.src)
    t, = rebuild([s], leaf)
    f = factor(want)
    w = s if not f else sc.smk('mul', [s] + [a for a, _e in f], (1, (1,) + tuple(int(e) for _a, e in f)), s.src)
    if any(x.op == 'ext' for x in sc.topo(s)):
        return 'fails'
    atoms = verdict_atoms(s)
    if atoms:
        return confirm_tests(atoms, leaf, ['@' + b for b in bases])
    v, _ = same_term(w, t, positive=['@' + b for b in bases])
    return v


def verdict_atoms(s):
    """the comparisons a verdict is a combination of; nothing when the term is no verdict"""
    out, todo = [], [s]
    while todo:
        x = todo.pop()
        if x.op in ('and', 'or', 'not'):
            todo.extend(x.args)
        elif x.op in ('lt', 'le') and len(x.args) == 2:
            out.append(tuple(x.args))
        elif x.op in ('isclose', 'closeto') and len(x.args) == 4:
            a, b, _rtol, atol = x.args
            out += [(a, b), (a, atol)]
        elif x.op == 'const' or x.op in ('isfinite', 'isnan'):
            pass
        else:
            return []
    return out


def confirm_tests(atoms, leaf, positive):
    """a change of unit must multiply both sides of a comparison of lengths by the same factor"""
    from .. import poly
    res = 'holds'
    for l, r in atoms:
        if any(y.op == 'const' and y.attr == 0 for y in (l, r)):
            continue
        tl, tr = rebuild([l, r], leaf)
        # l : r  and  l' : r'  are the same ratio
        a, b = sc.smk('mul', [l, tr], (1, (1, 1)), l.src), sc.smk('mul', [tl, r], (1, (1, 1)), l.src)
        v, _ = same_term(a, b, positive=positive)
        if v == 'holds':
            continue
        if v == 'fails':
            return 'fails'
        res = v
    return res
