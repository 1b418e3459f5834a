"""Results depend on the inputs they should depend on, and on no others."""
import ast
import glob
import os
import re

from .common import *
from .. import liveness, poly

EXPLANATION = ('Information flow from inputs to results over the terms of all public operations, compared with the dependences geometry demands; '
               'strongly live variables of all public functions.  ' + liveness.__doc__)
ASSUMPTIONS = ('inputs are finite numbers',)

ELLIPSOID = {'a_F', 'f_F'}
AXES = {'R_Ee_F', 'axes_F'}


def horizontal(k, x):
    """what the horizontal position of x is made of"""
    return {'P': {'lat_' + x, 'lon_' + x}, 'N': {'n_' + x}, 'E': {'p_' + x} | ELLIPSOID}[k]


def depth(k, x):
    return {'P': {'z_' + x}, 'N': {'z_' + x}, 'E': {'p_' + x} | ELLIPSOID}[k]


def position(k, x):
    return {'P': {'lat_' + x, 'lon_' + x, 'z_' + x} | ELLIPSOID, 'N': {'n_' + x, 'z_' + x} | ELLIPSOID, 'E': {'p_' + x}}[k]


def both(f, k, xs):
    return set().union(*[f(k, x) for x in xs])


KIND = {'GeoPoint': 'P', 'Nvector': 'N', 'ECEFvector': 'E'}
TURN = {'N': set(), 'L': {'wa_U'}, 'B': {'yaw_U', 'pitch_U', 'roll_U'}}


def expected(case, label):
    """(inputs the result has to depend on, further inputs it may depend on), or None"""
    name = case.name
    if case.info.get('kind') == 'function':
        return None
    base, opt = (name[:-1].split('[', 1) + [''])[:2] if name.endswith(']') else (name, '')
    opts = opt.split(',')
    cls, _, meth = base.rpartition('.')
    H, Z, P = horizontal, depth, position
    if cls in KIND and meth in ('to_nvector', 'to_geo_point', 'to_ecef_vector'):
        k = KIND[cls]
        if label == '.z':
            return Z(k, 'A'), AXES if k == 'E' else set()
        if label == '.pvector':
            return P(k, 'A'), AXES if k != 'E' else set()
        if label in ('.normal', '.latitude', '.longitude'):
            if k == 'P' and label != '.normal':
                return {'.latitude': {'lat_A'}, '.longitude': {'lon_A'}}[label], set()
            return H(k, 'A'), AXES
    if meth == 'delta_to' and cls in KIND:
        return P(KIND[cls], 'A') | P('N', 'B') | H(KIND[cls], 'A'), AXES
    if base in ('delta_E', 'delta_N', 'delta_L') and opts[0] in KIND:
        k = KIND[opts[0]]
        m = both(P, k, 'AB') | (H(k, 'A') if base != 'delta_E' else set()) | ({'wa'} if base == 'delta_L' else set())
        return m, (AXES if k != 'E' or base != 'delta_E' else set())
    if cls == 'GeoPath' and opts[0] in KIND:
        k = KIND[opts[0]]
        if meth in ('nvectors', 'geo_points', 'ecef_vectors', 'nvector_normals'):
            x = {'[0]': 'A', '[1]': 'B'}.get(label[:3])
            if x is None:
                return None
            if label.endswith('.z'):
                return Z(k, x), AXES if k == 'E' else set()
            if label.endswith('.pvector'):
                return P(k, x), AXES if k != 'E' else set()
            if k == 'P' and meth == 'geo_points':
                return {'latitude': {'lat_' + x}, 'longitude': {'lon_' + x}}.get(label[4:]), set()
            return H(k, x), AXES
        if meth == 'cross_track_distance':
            return both(H, k, 'ABC') | ({'radius'} if 'radius' in opts else both(P, k, 'AB')), AXES
        if meth == 'track_distance':
            if 'radius' in opts:
                return both(H, k, 'AB') | {'radius'}, AXES
            return both(H, k, 'AB') | both(P, k, 'AB') | ELLIPSOID, AXES
        if meth == 'intersect' and label == '.normal':
            return both(H, k, 'ABCD'), AXES
        if meth == 'on_great_circle':
            return both(H, k, 'ABC') | ({'atol'} if 'atol' in opts else set()), both(P, k, 'AB') | AXES
        if meth == 'on_path':
            return both(H, k, 'ABC') | ({'atol'} if 'atol' in opts else set()), both(P, k, 'ABC') | AXES
        if meth == 'closest_point_on_great_circle' and label in ('.latitude', '.longitude'):
            return both(H, k, 'ABC'), AXES
        if meth == 'interpolate':
            if label == '.normal':
                return both(H, k, 'AB') | {'ti'}, AXES
            if label == '.z':
                return both(Z, k, 'AB') | {'ti'}, AXES if k == 'E' else set()
        return None
    if base in ('GeoPoint', 'FrameE.GeoPoint'):
        return {'.latitude': {'lat'}, '.longitude': {'lon'}, '.z': {'z'}}.get(label), set()
    if base == 'FrameE.Nvector':
        return {'.normal': {'n'}, '.z': {'z'}}.get(label), set()
    if base == 'FrameE.ECEFvector':
        return {'p'}, set()
    if cls == 'GeoPoint' and meth in ('latlon', 'latlon_deg'):
        return {'[0]': {'lat_A'}, '[1]': {'lon_A'}, '[2]': {'z_A'}}.get(label), set()
    if base == 'GeoPoint.latitude_deg':
        return {'lat_A'}, set()
    if base == 'GeoPoint.longitude_deg':
        return {'lon_A'}, set()
    if base == 'GeoPoint.displace':
        if label == '[0].z':
            return {'z_A'}, set()
        m = {'lat_A', 'lon_A', 'z_A', 'azimuth', 'distance'} | ELLIPSOID
        return m, AXES
    if base == 'GeoPoint.distance_and_azimuth':
        h = both(H, 'P', 'AB')
        if opts[0] == 'ellipsoid' or label == '[0]':
            return h | {'z_A', 'z_B'} | ELLIPSOID, AXES
        return h, {'z_A', 'z_B'} | ELLIPSOID | AXES
    if base == 'FrameE.inverse':
        return {'lat_a', 'lon_a', 'lat_b', 'lon_b', 'z'} | ELLIPSOID, AXES
    if base == 'FrameE.direct':
        return {'lat_a', 'lon_a', 'azimuth', 'distance', 'z'} | ELLIPSOID, AXES
    if base == 'Nvector.interpolate':
        return {'.normal': {'n_A', 't', 't_i'}, '.z': {'z_A', 't', 't_i'}}.get(label), set()
    if base in ('Nvector.mean', 'Nvector.unit'):
        return {'.normal': {'n_A'}, '.z': {'z_A'}}.get(label), set()
    m = re.match(r'(\w+) [+-] \1$', name)
    if m:
        return {'.normal': {'n_A', 'n_B'}, '.z': {'z_A', 'z_B'}, '.pvector': {'p_A', 'p_B'}}.get(label), set()
    if name in ('-Nvector', '-ECEFvector'):
        return {'.normal': {'n_A'}, '.z': {'z_A'}, '.pvector': {'p_A'}}.get(label), set()
    if 'number' in name:
        return {'.normal': {'n_A', 's'}, '.z': {'z_A', 's'}}.get(label), set()
    m = re.match(r'Frame([NLB])\.R_EN$', name)
    if m:
        return {'n_A'} | TURN[m.group(1)] | {'R_Ee_F'}, AXES
    m = re.match(r'(ECEFvector|Pvector)\.(\w+)\[Frame([NLB])\]$', name)
    if m:
        t = {'n_A', 'p_B', 'R_Ee_F'} | TURN[m.group(3)]
        return t | (ELLIPSOID if m.group(2) in ('to_nvector', 'to_geo_point') else set()), AXES
    if re.match(r'Frame[NLB]\.Pvector$', name):
        return {'p'}, set()
    if cls == 'Pvector' and meth in ('length', 'azimuth', 'azimuth_deg', 'elevation', 'elevation_deg'):
        return {'p_B'}, set()
    if name == 'ECEFvector.length':
        return {'p_A'}, set()
    if base == 'FrameB':
        return {'n_A', 'yaw', 'pitch', 'roll', 'R_Ee_F'}, AXES
    return None


FREE = {'pi', 'rad/deg'}


def independent(R, s, name):
    """the value of the term is the same for another value of the input"""
    t, = rebuild([s], lambda x: sc.mk('leaf', (), (name + "'", x.attr[1]), x.src) if x.attr[0] == name else x)
    try:
        return same_term(s, t, unit=units(R), ident=idents(R))
    except poly.TooBig:
        return 'unknown', 'too big'


def leaf_names(n):
    from .. import graph as g
    return set(x.attr for x in g.topo(n) if x.op == 'leaf') if hasattr(n, 'op') else set()


def check(rep, root):
    rep.rule('depends', 'a result depends on every input that geometry says it depends on')
    rep.rule('independent', 'a result does not depend on inputs that have nothing to do with it')
    rep.rule('parameter', 'the value of every parameter of a public function or method reaches a result, a condition, an error or an effect')
    R = runner(root)
    for r in sweep(rep, R):
        sc.fresh()
        memo = {}
        function = r.case.info.get('kind') == 'function'
        known = set(r.names)
        groups = {}
        for o in r.obs:
            if o.node is None:
                continue
            comps = [flatten(s, R, memo) for i, s in sorted(sc.components(o.node).items())]
            # alternatives of a result belong together
            groups.setdefault(re.sub(r'\|\d+', '', o.label), []).append((o, poly.assume(comps, {}, poly.generic_test)))
        for lab, alts in sorted(groups.items()):
            o = alts[0][0]
            comps = [s for _o, cs in alts for s in cs]
            conds = set(n for x, _cs in alts for c, _t in x.cond for n in leaf_names(c))
            seen = set(x.attr[0] for x in sc.leaves(*comps)) - FREE
            if function:
                if r.case.anchor in ('deg', 'rad'):
                    continue
                must, may = (known if r.case.info.get('params') else known & seen), set()
            else:
                e = expected(r.case, lab)
                if e is None or e[0] is None:
                    continue
                must, may = e[0] & known, e[1]
            where = '%s%s {%s}' % (r.case.name, lab, r.cfg)
            for n in sorted(must):
                rep.ob('depends', n in seen or n in conds, o.node.loc, where, 'does not depend on %s' % n)
            if function:
                continue
            for n in sorted((seen & known) - must - may):
                for s in comps:
                    if any(x.attr[0] == n for x in sc.leaves(s)):
                        v, why = independent(R, s, n)
                        if v == 'unknown':
                            rep.undecide('independent', o.node.loc, where, 'may depend on %s' % n)
                        elif v == 'fails':
                            rep.ob('independent', False, o.node.loc, where, 'depends on %s' % n)
                            break
            rep.ob('independent', True, construct=where)
    parameters(rep, R)
    return functions(R)


def trivial(fn):
    """declarations: nothing but a docstring, pass or raise"""
    body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, (ast.Pass, ast.Raise)) for s in body)


def parameters(rep, R):
    I = R.W.I
    for path in sorted(glob.glob(os.path.join(I.root, I.package, '*.py'))):
        stem = os.path.basename(path)[:-3]
        if stem in I.OPAQUE_MODULES:
            continue
        tree = I.parse(path)
        mod = I.package if stem == '__init__' else '%s.%s' % (I.package, stem)
        for node in tree.body:
            fns = [(node, None)] if isinstance(node, ast.FunctionDef) else [(f, node) for f in node.body if isinstance(f, ast.FunctionDef)] if isinstance(node, ast.ClassDef) else []
            for fn, cls in fns:
                public = not fn.name.startswith('_') or fn.name in ('__init__', '__call__')
                if not public or cls is not None and cls.name.startswith('_') and fn.name == '__init__' or trivial(fn):
                    continue
                live = liveness.entry(fn)
                for i, p in enumerate(liveness.parameters(fn)):
                    if i == 0 and cls is not None or p.startswith('_'):
                        continue
                    q = '%s.%s%s' % (mod, cls.name + '.' if cls is not None else '', fn.name)
                    rep.ob('parameter', p in live, (path, fn.lineno, q), '%s(%s)' % (q, p), 'the value of %s is never used' % p)
