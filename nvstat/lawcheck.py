"""Laws: equations between results of the package, quantified over their parameters.

A law is written as a small function (nvstat/laws/*.py) whose parameters carry the name of
their role.  It is never executed: the interpreter reads it together with the sources of the
package, and the two sides of each equation it returns are compared as algebraic normal forms,
on every branch.
"""
import linecache
import os

from . import graph as g
from . import poly
from . import scalar as sc
from .cases import Ctx, CFG, Result, Case
from .interp import AnalysisError, Choice, conj
from .values import *
from .npmodel import seq_items
from .rules.common import flatten, idents, units, opaque_in, differs

LAWS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'laws')
POSITIVE = ('a', 'radius')
CFG.setdefault('one', {'*': 1})


def make(c, name, role, cfg):
    """the symbolic value of a parameter of a law"""
    if role in ('Nvector', 'GeoPoint', 'ECEFvector'):
        return c.K({'Nvector': 'N', 'GeoPoint': 'P', 'ECEFvector': 'E'}[role], name)
    if role == 'FrameE':
        return c.F(name)
    if role.startswith('='):
        return {'True': True, 'False': False}.get(role[1:], role[1:])
    if role in ('a', 'f'):
        return c.leaf(name, role, 1)
    if role == 'R_Ee':
        return c.leaf(name, role)
    if role in ('scalar', 'once'):
        return c.leaf(name, 'num', 1)
    if role in ('radius', 'tolerance'):
        return c.leaf(name, 'len', 1)
    kind = {'acute': 'rad', 'arc': 'rad', 'depth': 'len'}.get(role, role)
    return c.leaf(name, kind)


def context(R, roles):
    """what the algebra may use about the parameters"""
    kw = dict(unit=units(R), ident=idents(R), positive=[], acute=[], half=[], below_one=[], orth=[], tolerance=[])
    for nm, nd in R.W.names.items():
        k = R.W.roles[nd].kind
        if k == 'lat':
            kw['acute'].append(nm)
        if k == 'a':
            kw['positive'].append(nm)
        if k == 'f':
            kw['below_one'].append(nm)
        if k in ('R', 'R_EX'):
            kw['orth'].append(nm)
    for nm, role in roles:
        if role == 'acute':
            kw['acute'].append(nm)
        if role == 'arc':
            kw['half'].append(nm)
        if role == 'tolerance':
            kw['tolerance'].append(nm)
        if role in ('radius', 'tolerance'):
            kw['positive'].append(nm)
    return kw


def arcs(A, p):
    """p = factor * (integer combination of inverse trigonometric values): (factor, {atom: coefficient}) or None"""
    def is_arc(x):
        k = A.info[x]
        return k[0] == 'pi' or (k[0] == 'fn' and k[1] in ('arctan2', 'arcsin', 'arctan'))
    fac, comb = None, {}
    for m, c in p.items():
        xs = [x for x, e in m if is_arc(x)]
        if len(xs) != 1 or dict(m)[xs[0]] != 1:
            return None
        rest = tuple((x, e) for x, e in m if x != xs[0])
        if fac is None:
            fac = rest
        elif fac != rest:
            return None
        comb[xs[0]] = c
    return fac, comb


def same_angle(A, p):
    """polynomials that vanish when the difference p of two angles is a whole number of turns"""
    return [A.trig('sin', p), A.sub(A.trig('cos', p), A.const(1))]


def apart(mk, s, t, facts):
    """is there a point at which the terms differ by something else than whole turns?"""
    for cut in (None, 3):
        A = mk(cut)
        try:
            p, q = A.nf(s), A.nf(t)
            return poly.separated(A, A.sub(p, q), [p, q], turns=True, facts=facts)
        except poly.TooBig:
            pass
    return None


def compare(kind, s, t, kw, facts=()):
    """'holds' / 'fails' / 'unknown' for two scalar terms"""
    def goal(A):
        if kind == 'angle':
            return same_angle(A, A.sub(A.nf(s), A.nf(t)))
        return A.sub(A.nf(s), A.nf(t))
    mk = lambda cut: poly.Algebra(cut=cut, **kw)
    inverse = any(x.op in ('arctan2', 'arcsin', 'arccos', 'arctan') for x in sc.topo(s, t))
    turns = kind == 'angle' or inverse
    v, why = poly.prove(mk, goal, sides=None if kind == 'angle' else lambda A: [A.nf(s), A.nf(t)], facts=facts, terms=(s, t), turns=turns)
    if v == 'fails' and poly.terms_separated(mk(None), s, t, turns, facts):
        return ('unknown' if opaque_in(s, t, known=('interp', 'savgol')) else 'fails'), why
    if v != 'holds':
        # equal up to the choice of inverse function?
        def goal2(A):
            d = A.clear(A.sub(A.nf(s), A.nf(t)), unfold=False)
            r = arcs(A, d)
            if r is None:
                raise poly.TooBig()
            p = {((x, poly.Fr(1)),): c for x, c in r[1].items()}
            return same_angle(A, p)
        v2, why2 = poly.prove(mk, goal2)
        if v2 == 'holds':
            return 'holds', None
        if v == 'fails' and v2 == 'unknown' and inverse:
            # the two sides use different inverse functions: whole turns between them do not count
            if not apart(mk, s, t, facts):
                return 'unknown', why
    if v == 'fails' and opaque_in(s, t, known=('interp', 'savgol')):
        return 'unknown', why
    return v, why


def source_loc(*nodes):
    """a place in the sources of the package a term comes from"""
    entry = [n for n in nodes if isinstance(n, Entry)]
    nodes = [n for n in nodes if not isinstance(n, Entry)]
    if nodes and nodes[0].op not in ('const', 'leaf') and nodes[0].loc and '/laws/' not in nodes[0].loc[0]:
        return nodes[0].loc
    if entry and entry[0].loc:
        return entry[0].loc
    for n in nodes:
        for m in reversed(g.topo(n)):
            if m.op not in ('const', 'leaf') and m.loc and '/laws/' not in m.loc[0]:
                return m.loc
    return None


class Entry(object):
    """the operation a law is about"""

    def __init__(self, entries):
        pick = [e for e in entries if '.util.' not in e[2] and not e[2].endswith('__init__')] or entries
        self.loc = pick[0] if pick else None


class Mixed(object):
    """a report of a layout in which some inputs are one position and others are many: only
    what is refuted counts, because not every operation accepts such a layout"""

    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, name):
        return getattr(self.rep, name)

    def undecide(self, *args):
        pass


def mixtures(roles):
    """the layouts in which one of the parameters, or the first few, differ from the others"""
    names = [nm for nm, ro in roles if not ro.startswith('=') and ro not in ('once', 'scalar', 'radius', 'tolerance', 'a', 'f', 'R_Ee', 'FrameE')]
    out = []
    if len(names) > 1:
        for nm in names[:4]:
            out.append(('one %s' % nm, {'*': 'n', nm: 1}))
            if len(names) > 2:
                out.append(('many %s' % nm, {'*': 1, nm: 'n'}))
        for k in range(1, len(names)):
            out.append(('one up to %s' % names[k - 1], dict([('*', 'n')] + [(nm, 1) for nm in names[:k]])))
            out.append(('many up to %s' % names[k - 1], dict([('*', 1)] + [(nm, 'n') for nm in names[:k]])))
        seen = []
        for lab, d in out:
            if d not in [x for _l, x in seen]:
                seen.append((lab, d))
        out = seen
    if any(ro in ('Nvector', 'GeoPoint') for _nm, ro in roles):
        out += [('one depth', {'*': 'n', 'depths': 1}), ('many depths', {'*': 1, 'depths': 'n'})]
    return out


def run(rep, R, path, rule, cfgs=('one', 'many'), exact=False, mixed=True):
    """check every law of a file"""
    W = R.W
    for name, fn, roles, doc in W.load_laws(os.path.join(LAWS, path)):
        plan = [(cfg, CFG[cfg], rep) for cfg in cfgs]
        if mixed:
            plan += [(cfg, lay, Mixed(rep)) for cfg, lay in mixtures(roles)]
        for cfg, layout, out in plan:
            if any(ro == 'once' for _n, ro in roles) and cfg != 'one':
                continue
            case = Case('law %s' % name, None, None)
            r = Result()
            r.case, r.cfg = case, cfg
            out.saw(r)
            W.reset()
            W.cells, W.names = {}, {}
            sc.fresh()
            c = Ctx(W, layout)
            where = 'law %s {%s}' % (name, cfg)
            try:
                args = [make(c, nm, ro, cfg) for nm, ro in roles]
                W.I.effects, W.I.gaps, W.I.entries = [], [], []
                o = W.I.run(fn, args)
                if o.gaps:
                    out.undecide(rule, o.gaps[0][1], where, 'construct not modelled: %s' % (o.gaps[0][0],))
                if refused(out, R, rule, where, doc, o, roles, Entry(W.I.entries)):
                    continue
                if not o.returned:
                    why = '; '.join('%s%s' % (x[0].name, x[0].args) for x in o.raises[:2])
                    out.undecide(rule, o.raises[0][2] if o.raises else None, where, 'does not return: %s' % why)
                    continue
                items = o.value if isinstance(o.value, tuple) else seq_items(W.I, o.value)
                for k, it in enumerate(items):
                    it = it if isinstance(it, tuple) else tuple(seq_items(W.I, it))
                    if it[0] == 'warns':
                        it = ('eq', W.I.new_arr(warned(W.I.effects), 'b'), it[1])
                    if it[0] == 'deprecated':
                        it = ('eq', W.I.new_arr(warned(W.I.effects, True), 'b'), it[1])
                    judge(out, R, rule, where, doc, it, roles, Entry(W.I.entries), exact)
            except AnalysisError as e:
                out.undecide(rule, None, where, str(e))
            except Exception as e:
                out.undecide(rule, None, where, 'internal: %s: %s' % (type(e).__name__, e))


def refused(rep, R, rule, where, doc, o, roles, entry):
    """is an exception raised for inputs the law is about?"""
    found = False
    for exc, state, loc in o.raises:
        line = linecache.getline(loc[0], loc[1]).strip() if loc else ''
        if not (line.startswith('raise') or exc.name == 'KeyError') or '/laws/' in loc[0]:
            continue
        if state.pc:
            s, = poly.assume([flatten(sc.components(conj(state.pc))[()], R, {})], {}, poly.generic_test)
            if s.op == 'const' and not s.attr:
                continue
            if not (s.op == 'const' or happens(lambda cut: poly.Algebra(cut=cut, **context(R, roles)), s)):
                rep.undecide(rule, loc, where, 'may raise %s' % exc.name)
                continue
        rep.ob(rule, False, loc, where, '%s -- %s is raised' % (doc.split('\n')[0].strip(), exc.name))
        found = True
    return found


def happens(mk, t, points=300):
    """is there a point at which the condition holds, also close by?"""
    A = mk(None)
    poly.landmarks(A, [t])
    start = poly.EVALUATIONS[0]
    with poly.dm.decimal.localcontext(poly.dm.CTX):
        for k in range(points):
            if poly.EVALUATIONS[0] - start > 400000:
                break
            try:
                if all(poly.evaluate(A, t, poly.Point(k, k % 2 == 1, j)) for j in range(3)):
                    return True
            except KeyError:
                return False
            except poly.NO_VALUE:
                continue
        for k, near in poly.search(A, [t], lambda v: bool(v[0]), True):
            try:
                if all(poly.evaluate(A, t, poly.Point(k, near, j)) for j in range(3)):
                    return True
            except poly.NO_VALUE + (KeyError,):
                continue
    return False


def warned(effects, deprecation=False):
    """the condition under which a warning (about deprecation, or any other) is given"""
    marks = [i for i, e in enumerate(effects) if e.kind == 'warn' and e.info.get('via') == 'warnings.warn' and e.loc and '/laws/' in e.loc[0]]
    if marks:                   # only what happens after the law itself warns
        effects = effects[marks[-1] + 1:]
    conds = [conj(e.pc) for e in effects if e.kind == 'warn' and ('Deprecation' in (e.info.get('category') or '')) == deprecation]
    if not conds:
        return g.const(False)
    return conds[0] if len(conds) == 1 else g.fn('or', *conds)


def nan_term(s):
    """the term is NaN whatever its other inputs are"""
    nan = set()
    for x in sc.topo(s):
        if x.op == 'const':
            if isinstance(x.attr, float) and x.attr != x.attr or x.attr == 'nan':
                nan.add(x.id)
        elif x.op in ('where', 'eq', 'ne', 'lt', 'le', 'and', 'or', 'not', 'leaf', 'isnan', 'power', 'over', 'reduce'):
            pass
        elif x.op == 'pow':
            if x.args[0].id in nan:
                nan.add(x.id)
        elif any(y.id in nan for y in x.args):
            nan.add(x.id)
    return s.id in nan


def alternatives(v):
    if isinstance(v, Choice):
        return alternatives(v.a) + alternatives(v.b)
    return [v]


def judge(rep, R, rule, where, doc, item, roles, entry=None, exact=False):
    entry = entry or Entry([])
    kind, lhs, rhs = item[:3]
    I = R.W.I
    text = doc.split('\n')[0].strip()
    k = 4 if kind == 'range' else 3
    if len(item) > k:
        text = '%s: %s' % (item[k], text)
    if kind == 'flag':
        # a statically known truth value
        ok = lhs if isinstance(lhs, bool) else None
        if ok is None:
            n = I.node(lhs)
            ok = g.cval(n) if n.op == 'const' else None
        if ok is None:
            rep.undecide(rule, None, where, 'not a known truth value')
        else:
            rep.ob(rule, bool(ok) == rhs, entry.loc or (os.path.join('src', 'nvector', '__init__.py'), 1, 'nvector'), where, text)
        return
    if kind == 'range':
        bounds(rep, R, rule, where, text, item, roles, entry)
        return
    ln, rn = I.node(lhs), I.node(rhs)
    memo = {}

    def comps(n):
        return dict((i, flatten(s, R, memo)) for i, s in sorted(sc.components(n).items()))
    a, b = comps(ln), comps(rn)
    if set(a) != set(b):
        if len(b) == 1 and () in b:
            b = {i: b[()] for i in a}
        elif len(a) == 1 and () in a:
            a = {i: a[()] for i in b}
        else:
            rep.undecide(rule, source_loc(ln, entry), where, 'the two sides have shapes %s and %s' % (ln.shape, rn.shape))
            return
    kw = context(R, roles)
    mk = lambda cut: poly.Algebra(cut=cut, **kw)
    decide = poly.exact_test(mk) if exact else poly.generic_test
    todo = []
    for i in sorted(a):
        at = '%s%s' % (where, list(i) if i else '')
        todo.append((i, at, (a[i], b[i]), rep))
        for text_, pair in special(a[i], b[i], R):
            todo.append((i, '%s, %s' % (at, text_), pair, Mixed(rep)))
    for i, at, pair, rep in todo:
        try:
            pair = poly.assume(pair, {}, decide)
            cases = poly.paths(poly.unify_tests(pair, mk), generic=decide)
        except poly.TooBig:
            rep.undecide(rule, source_loc(ln, entry), at, 'too many branches')
            continue
        for facts, (s, t) in cases:
            if s is t:
                rep.ob(rule, True, construct='%s: %s' % (at, text))
                continue
            if nan_term(t) or nan_term(s):
                rep.ob(rule, nan_term(s) and nan_term(t), source_loc(ln, rn, entry), at, '%s -- %s' % (
                    text, 'NaN is documented, a number is computed' if nan_term(t) else 'a number is documented, NaN is computed'))
                continue
            v, why = compare(kind, s, t, kw, facts)
            if v == 'holds':
                rep.ob(rule, True, construct='%s: %s' % (at, text))
            elif v == 'fails':
                rep.ob(rule, False, source_loc(ln, rn, entry), at, '%s -- the two sides differ by %s' % (text, why))
            else:
                rep.undecide(rule, source_loc(ln, rn, entry), at, '%s: %s' % (text, why))


def special(s, t, R, most=6):
    """the terms with an input set to a value it is compared with"""
    out, seen, solved = [], set(), []
    for x in sc.topo(s, t):
        if x.op not in ('eq', 'ne') or len(x.args) != 2:
            continue
        x = bare(*x.args)
        for u, v in (x, x[::-1]):
            if vector_input(u, R) and poly_number(v) and not v.attr:        # the whole vector is zero
                pass
            elif not scalar_input(u, R) or not (scalar_input(v, R) or poly_number(v)) or u is v:
                continue
            name = u.attr[0]
            w = v.attr[0] if v.op == 'leaf' else v.attr
            if (name, w) in seen or (w, name) in seen or len(out) == most:
                continue
            seen.add((name, w))
            out.append(('%s = %s' % (name, w), replace([s, t], name, v)))
            solved.append((name, v))
            break
    if len(set(name for name, _v in solved)) > 1:       # all of them at once
        pair, done = [s, t], {}
        for name, v in solved:
            if name not in done and (v.op != 'leaf' or v.attr[0] not in done):
                done[name] = v
                pair = replace(pair, name, v)
        if len(done) > 1:
            out.append((', '.join('%s = %s' % (name, v.attr[0] if v.op == 'leaf' else v.attr) for name, v in sorted(done.items())), pair))
    return out


def bare(u, v):
    """an equation without what both sides have in common: k*a = k*b, a - b = 0, c*a + d = e, abs(a) = 0"""
    for _ in range(6):
        zero = [i for i in (0, 1) if poly_number((u, v)[i]) and not (u, v)[i].attr]
        if zero and (u, v)[1 - zero[0]].op in ('abs', 'square'):
            u, v = (u, v)[1 - zero[0]].args[0], (u, v)[zero[0]]
            continue
        if u.op == 'mul' and v.op == 'mul' and u.attr[0] == v.attr[0]:
            a, b = (dict((y.id, (y, e)) for y, e in zip(w.args, w.attr[1])) for w in (u, v))
            rest = [[q for i, q in sorted(w.items()) if o.get(i) != q] for w, o in ((a, b), (b, a))]
            if all(len(w) == 1 for w in rest) and rest[0][0][1] == rest[1][0][1] == 1:
                u, v = rest[0][0][0], rest[1][0][0]
                continue
        if zero:
            w, z = (u, v)[1 - zero[0]], (u, v)[zero[0]]
            if w.op == 'mul':
                free = [y for y in w.args if not constant(y)]
                if len(free) == 1:
                    u, v = free[0], z
                    continue
            if w.op == 'add' and not isinstance(w.attr[0], str) and not w.attr[0] and len(w.args) == 2 and sum(w.attr[1]) == 0:
                u, v = w.args
                continue
        for w, z in ((u, v), (v, u)):
            if w.op == 'add' and len(w.args) == 1 and poly_number(z):
                u, v = w.args[0], sc.const((poly.frac(z.attr) - poly.frac(w.attr[0])) / poly.frac(w.attr[1][0]))
                break
        else:
            return u, v
    return u, v


def constant(s):
    return s.op == 'const' or (s.op == 'leaf' and s.attr[0] in ('pi', 'rad/deg'))


def poly_number(s):
    return s.op == 'const' and isinstance(s.attr, (int, float, poly.Fr)) and not isinstance(s.attr, bool) and s.attr == s.attr


def scalar_input(s, R):
    """a number given by the user"""
    if s.op != 'leaf' or s.attr[0] in ('pi', 'rad/deg') or s.attr[0][:4] == 'dim:':
        return False
    n = R.W.names.get(s.attr[0])
    return n is not None and R.W.roles[n].kind not in ('nvec', 'nvec1', 'R', 'R_EX', 'R_Ee', 'flag', 'pos', 'posN')


def vector_input(s, R):
    n = R.W.names.get(s.attr[0]) if s.op == 'leaf' else None
    return n is not None and R.W.roles[n].kind in ('pos', 'posN')


def replace(roots, name, v):
    memo = {}
    for x in sc.topo(*roots):
        if x.op == 'leaf' and x.attr[0] == name:
            memo[x.id] = sc.mk('leaf', (), (v.attr[0], x.attr[1]), x.src) if v.op == 'leaf' else v
        else:
            args = [memo[y.id] for y in x.args]
            memo[x.id] = x if all(p is q for p, q in zip(args, x.args)) else sc.smk(x.op, args, x.attr, x.src)
    return [memo[r.id] for r in roots]


def bounds(rep, R, rule, where, text, item, roles, entry):
    """every value lies between two numbers: by intervals; a point outside them is a violation"""
    from . import ranges
    lo, hi = [float(x) if x is not None else None for x in item[2:4]]
    lo, hi = (-ranges.INF if lo is None else lo), (ranges.INF if hi is None else hi)
    n = R.W.I.node(item[1])
    memo = {}
    kw = context(R, roles)
    L = ranges.Ranges(ranges.leaf_ranges(R, roles))
    for i, s in sorted(sc.components(n).items()):
        at = '%s%s' % (where, list(i) if i else '')
        s, = poly.assume([flatten(s, R, memo)], {}, poly.generic_test)
        if ranges.inside(L.of(s), lo, hi):
            rep.ob(rule, True, construct='%s: %s' % (at, text))
            continue
        v = outside(lambda cut: poly.Algebra(cut=cut, **kw), s, lo, hi)
        if v is not None:
            rep.ob(rule, False, source_loc(n, entry), at, '%s -- takes the value %.6g, which is not in [%.6g, %.6g]' % (text, v, lo, hi))
        else:
            rep.undecide(rule, source_loc(n, entry), at, '%s: only [%.6g, %.6g] could be shown' % ((text,) + L.of(s)))


def outside(mk, t, lo, hi, points=600):
    """a value of the term outside the bounds"""
    eps = 1e-9

    def beyond(v):
        return v < lo - eps * max(1, abs(lo)) or v > hi + eps * max(1, abs(hi))
    A = mk(None)
    poly.landmarks(A, [t])
    with poly.dm.decimal.localcontext(poly.dm.CTX):
        start = poly.EVALUATIONS[0]
        for k in range(points):
            if poly.EVALUATIONS[0] - start > 400000:
                break
            try:
                v = float(poly.evaluate(A, t, poly.Point(k)))
            except KeyError:
                return None
            except poly.NO_VALUE:
                continue
            if beyond(v):
                return v
        for k, near in poly.search(A, [t], lambda v: beyond(v[0]), False):
            try:
                v = float(poly.evaluate(A, t, poly.Point(k, near)))
            except poly.NO_VALUE + (KeyError,):
                continue
            if beyond(v):
                return v
    return None
