"""Abstract semantics of the builtins and of the numpy/scipy/geographiclib calls the package may use."""
import ast
from fractions import Fraction
from . import graph as g
from .values import *
from . import interp as _ip
from .interp import Choice, PyRaise, DUNDER

PI = 3.141592653589793


# ---------------------------------------------------------------- helpers
def arrnode(I, v):
    return I.node(v)


def is_arrlike(v):
    return isinstance(v, (Arr, int, float, bool))


def as_array(I, v):
    """Arr (same storage when v already is an array), else a fresh array built from nested sequences"""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (bool, int, float)):
        return I.new_arr(g.const(v), I.dt(v))
    if isinstance(v, (tuple, PyList)):
        items = list(v) if isinstance(v, tuple) else list(I.st.heap[v.id])
        return stack_items(I, items)
    if isinstance(v, SymIter):
        I.loopn += 1
        loop = ('L%d' % I.loopn, v.dim)
        return stack_items(I, [Rep(loop, v.elemfn(loop))])
    if isinstance(v, ExtObj) and v.kind == 'range' and v.info.get('items') is not None:
        return stack_items(I, list(v.info['items']))
    if isinstance(v, ExtObj) and v.kind == 'range':
        return I.new_arr(g.mk('opaque', (), 'range', (v.info['dim'],)), 'i')
    if isinstance(v, Opaque):
        return I.new_arr(I.node(v), '?')
    if v is None:
        return I.new_arr(g.leaf('None'), '?')
    if isinstance(v, Choice):
        return v
    return I.new_arr(I.node(I.opaque('array', v)), '?')


def stack_items(I, items):
    if not items:
        return I.new_arr(g.const(0, (0,)), 'f')
    nodes = []
    dts = []
    # plain number lists become constants directly
    flat = flat_const(I, items)
    if flat is not None:
        vals, shape, dt = flat
        return I.new_arr(g.const_array(vals, shape), dt)
    for it in items:
        if isinstance(it, Rep):
            if it.loop[1] in ('?', 1) and it.loop[0] == 'choice':
                return I.new_arr(g.mk('opaque', tuple(I.deps_nodes(it)), 'list', None), '?')
            a = as_array(I, it.val)
            if isinstance(a, Choice):
                return I.new_arr(g.mk('opaque', tuple(I.deps_nodes(a)), 'list', None), '?')
            n = I.node(a)
            if n.shape is None or it.loop[1] == '?':
                return I.new_arr(g.mk('opaque', (n,), 'list', None), '?')
            nodes.append((g.collect(n, it.loop), True))
            dts.append(a.dt)
        else:
            a = as_array(I, it)
            if isinstance(a, Choice):
                return I.new_arr(g.mk('opaque', tuple(I.deps_nodes(a)), 'list', None), '?')
            n = I.node(a)
            if n.shape is None:
                return I.new_arr(g.mk('opaque', tuple(I.node(as_array(I, x)) for x in items if not isinstance(x, Rep)), 'list', None), '?')
            nodes.append((n, False))
            dts.append(a.dt)
    shapes = set((n.shape[1:] if rep else n.shape) for n, rep in nodes)
    if len(shapes) != 1:
        raise g.ShapeErr('array from sequences of different shape %s' % (sorted(map(str, shapes)),))
    parts = [n if rep else g.axes(n, [None] + list(range(len(n.shape)))) for n, rep in nodes]
    return I.new_arr(g.concat(parts, 0), I.join_dt(*dts))


def flat_const(I, items):
    out = []

    def rec(xs):
        """shape or None"""
        shapes = []
        for x in xs:
            if isinstance(x, (bool, int, float)):
                out.append(x)
                shapes.append(())
            elif isinstance(x, tuple):
                s = rec(x)
                if s is None:
                    return None
                shapes.append(s)
            elif isinstance(x, PyList):
                s = rec(I.st.heap[x.id])
                if s is None:
                    return None
                shapes.append(s)
            else:
                return None
        if not shapes or any(s != shapes[0] for s in shapes):
            return None
        return (len(xs),) + shapes[0]
    s = rec(items)
    if s is None:
        return None
    dt = 'f' if any(isinstance(x, float) for x in out) else ('b' if all(isinstance(x, bool) for x in out) else 'i')
    return out, s, dt


def lift(I, v):
    """(node, dt) of any array-like argument"""
    a = as_array(I, v)
    if isinstance(a, Choice):
        return g.mk('opaque', tuple(I.deps_nodes(a)), 'choice', None), '?'
    return I.node(a), a.dt


def distributing(fn):
    """distribute Choice among the positional/keyword arguments"""
    def wrapped(I, args, kwds):
        for k, a in enumerate(args):
            if isinstance(a, Choice):
                return I.distribute(a, lambda x: wrapped(I, args[:k] + [x] + args[k + 1:], kwds))
        for k, a in kwds.items():
            if isinstance(a, Choice):
                return I.distribute(a, lambda x: wrapped(I, args, dict(kwds, **{k: x})))
        return fn(I, args, kwds)
    return wrapped


FUNCS = {}


def np_(names, sig):
    """register numpy function(s); sig like 'a, axis=None, *rest'"""
    params = []
    for p in [x.strip() for x in sig.split(',') if x.strip()]:
        if '=' in p:
            k, d = p.split('=')
            params.append((k, ast.literal_eval(d)))
        else:
            params.append((p, REQUIRED))

    def deco(f):
        def impl(I, args, kwds):
            vals = {}
            args = list(args)
            star = None
            for k, d in params:
                if k.startswith('*'):
                    star = k[1:]
                    vals[star] = args
                    args = []
                    continue
                if args and star is None:
                    vals[k] = args.pop(0)
                elif k in kwds:
                    vals[k] = kwds.pop(k)
                elif d is REQUIRED:
                    I.raise_('TypeError', '%s missing %s' % (names, k))
                else:
                    vals[k] = d
            for k in list(kwds):
                if k in ('out', 'where', 'dtype', 'order', 'casting', 'copy', 'subok', 'like', 'initial', 'kind', 'keepdims', 'ndmin'):
                    v = kwds.pop(k)
                    if v is None or k in ('order', 'subok', 'like', 'copy', 'casting', 'kind'):
                        continue
                    vals['_' + k] = v
            if kwds or args:
                I.gap('arguments of %s' % names)
            out = vals.pop('_out', None)
            extra = {k: vals.pop(k) for k in list(vals) if k.startswith('_')}
            r = f(I, **vals)
            if '_dtype' in extra:
                r = cast(I, r, extra['_dtype'])
            if '_ndmin' in extra and isinstance(r, Arr) and isinstance(extra['_ndmin'], int):
                n = I.node(r)
                if n.shape is not None and len(n.shape) < extra['_ndmin']:
                    r = I.view(r, ('axes', (None,) * (extra['_ndmin'] - len(n.shape)) + tuple(range(len(n.shape)))))
            if extra and set(extra) - {'_dtype', '_ndmin'}:
                if '_where' in extra and set(extra) <= {'_dtype', '_where'} and isinstance(out, Arr) and _elementwise_where(I, r, out, extra['_where']):
                    r = _elementwise_where(I, r, out, extra['_where'])
                elif '_where' in extra:
                    I.gap('where= argument of %s' % names)
                    r = I.new_arr(g.mk('opaque', tuple(I.deps_nodes([r] + list(extra.values()))), 'where=', None), '?')
                elif '_keepdims' in extra or '_initial' in extra:
                    I.gap('option of %s' % names)
            if out is not None and isinstance(out, Arr):
                n, dt = lift(I, r)
                I.store_all(out, n, dt)
                return out
            return r
        for nm in names.split():
            FUNCS[nm] = distributing(impl)
        return f
    return deco


def _elementwise_where(I, r, out, where):
    """ufunc(..., out=out, where=mask): out keeps its content where the mask is false"""
    if not isinstance(r, (Arr, int, float)) or isinstance(where, (tuple, list, str)):
        return None
    rn, dt = lift(I, r)
    wn, _ = lift(I, where)
    on = I.node(out)
    if rn.shape is None or wn.shape is None or on.shape is None or rn.op in ('reduce', 'scan', 'opaque'):
        return None
    if len(rn.shape) > len(on.shape):
        return None
    return I.new_arr(g.fn('where', wn, rn, on), dt)


class _Req(object):
    pass


REQUIRED = _Req()


def dtype_kind(I, d):
    """'f','i','b','?' of a dtype argument"""
    if isinstance(d, BuiltinType):
        return {'float': 'f', 'int': 'i', 'bool': 'b', 'complex': 'f'}.get(d.name, '?')
    if isinstance(d, ExtRef):
        n = d.path.split('.')[-1]
        if n.startswith(('float', 'double', 'longdouble', 'complex', 'single', 'half')):
            return 'f'
        if n.startswith(('int', 'uint', 'long', 'short', 'byte', 'intp')):
            return 'i'
        if n.startswith('bool'):
            return 'b'
    if isinstance(d, str):
        d = d.lstrip('<>=|')
        if d[:1] in 'fdg' or d.startswith('float') or d.startswith('c'):
            return 'f'
        if d[:1] in 'iul':
            return 'i'
        if d[:1] in 'b?':
            return 'b'
    if isinstance(d, ExtObj) and d.kind == 'dtype':
        return d.info['dt']
    return '?'


NARROW = {'float32': 24, 'single': 24, 'f4': 24, 'f': 24, 'float16': 11, 'half': 11, 'f2': 11}


def narrow(d):
    """the bits kept by a floating type shorter than that of Python, or None"""
    if isinstance(d, ExtRef):
        return NARROW.get(d.path.split('.')[-1])
    return NARROW.get(d.lstrip('<>=|')) if isinstance(d, str) else None


def cast(I, r, d):
    k = dtype_kind(I, d)
    if not isinstance(r, Arr):
        r = as_array(I, r)
    n = I.node(r)
    if narrow(d) and n.shape is not None and r.dt != 'b':
        return I.new_arr(g.fn('bits', n, g.const(narrow(d))), 'f')
    if d is None or (isinstance(d, ExtObj) and d.kind == 'dtype' and d.info['dt'] == r.dt):
        return r
    if k == r.dt and k in 'fib':
        return r          # nothing to convert: the same storage
    if k == 'i' and r.dt == 'f' and n.shape is not None:
        if isinstance(d, ExtObj) and d.kind == 'dtype':
            I.effect('dtype', what='floating values cast to the integer type of the input')
        return I.new_arr(g.fn('trunc', n), 'i')
    if k == 'b' and r.dt != 'b' and n.shape is not None:
        return I.new_arr(g.fn('not', g.fn('eq', n, g.const(0))), 'b')
    return I.new_arr(n, k)


def to_dim(I, v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        I.raise_('TypeError', 'float dimension')
    if isinstance(v, Arr):
        n = I.node(v)
        c = g.cval(n)
        if c is not None:
            return int(c)
        if n.op == 'leaf' and n.attr.startswith('dim:'):
            return n.attr[4:]
        if n.op == 'mul' and n.attr[0] in (1,) or (n.op == 'mul' and isinstance(n.attr[0], int)):
            ds = [n.attr[0]] if n.attr[0] != 1 else []
            for e, a in zip(n.attr[1], n.args):
                if a.op == 'leaf' and a.attr.startswith('dim:') and isinstance(e, int) and e > 0:
                    ds.extend([a.attr[4:]] * e)
                else:
                    return '?%d' % n.id
            r = 1
            for d in ds:
                r = g.dim_mul(r, d)
            return r
        return '?%d' % n.id
    return '?'


def dim_value(I, d):
    if isinstance(d, int):
        return d
    return I.new_arr(g.leaf('dim:%s' % d), 'i', py=True)


def to_shape(I, v):
    if isinstance(v, (int, Arr)) and not isinstance(v, bool):
        if isinstance(v, Arr):
            n = I.node(v)
            if n.shape:
                return None
        return (to_dim(I, v),)
    items = I.to_list(v)
    if items is None:
        return None
    return tuple(to_dim(I, x) for x in items)


def axis_arg(I, axis, nd):
    """tuple of normalised axes, or None when not static"""
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, bool):
        return None
    if isinstance(axis, int):
        if not -nd <= axis < nd:
            raise g.ShapeErr('axis %d is out of bounds for %d dimensions' % (axis, nd))
        return (axis % nd,)
    items = I.to_list(axis) if isinstance(axis, (tuple, PyList)) else None
    if items is None or not all(isinstance(x, int) for x in items):
        return None
    return tuple(x % nd for x in items)


def opq(I, tag, *vals):
    I.gap(tag)
    return I.new_arr(g.mk('opaque', tuple(I.deps_nodes(list(vals))), tag, None), '?')


# ---------------------------------------------------------------- ufuncs
def ufunc1(name, f, dt='f'):
    def impl(I, x):
        n, d = lift(I, x)
        return I.new_arr(f(n), d if dt == 'same' else dt)
    np_(name, 'x')(impl)


for _nm, _op in [('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('arcsin', 'arcsin'), ('asin', 'arcsin'), ('arccos', 'arccos'),
                 ('acos', 'arccos'), ('arctan', 'arctan'), ('atan', 'arctan'), ('exp', 'exp'), ('log', 'log'), ('log10', 'log10'),
                 ('sinh', 'sinh'), ('cosh', 'cosh'), ('tanh', 'tanh'), ('cbrt', 'cbrt'), ('log2', 'log2'),
                 ('arcsinh', 'arcsinh'), ('arccosh', 'arccosh'), ('arctanh', 'arctanh')]:
    ufunc1(_nm, lambda n, op=_op: g.fn(op, n))
for _nm, _op in [('floor', 'floor'), ('ceil', 'ceil'), ('rint', 'rint'), ('trunc', 'trunc'), ('fix', 'trunc')]:
    ufunc1(_nm, lambda n, op=_op: g.fn(op, n), 'same')
for _nm in ('abs', 'absolute', 'fabs'):
    ufunc1(_nm, lambda n: g.fn('abs', n), 'same' if _nm != 'fabs' else 'f')
ufunc1('sign', lambda n: g.fn('sign', n), 'same')
ufunc1('negative', g.neg, 'same')
ufunc1('positive', lambda n: n, 'same')
ufunc1('conj', lambda n: n, 'same')
ufunc1('real', lambda n: n, 'same')
ufunc1('sqrt', lambda n: g.mul((Fraction(1, 2), n)))
ufunc1('square', lambda n: g.mul((2, n)), 'same')
ufunc1('reciprocal', lambda n: g.mul((-1, n)))
ufunc1('isnan', lambda n: g.fn('isnan', n), 'b')
ufunc1('isfinite', lambda n: g.fn('isfinite', n), 'b')
ufunc1('isinf', lambda n: g.fn('isinf', n), 'b')
ufunc1('signbit', lambda n: g.fn('lt', n, g.const(0)), 'b')
ufunc1('logical_not', lambda n: g.fn('not', n), 'b')
ufunc1('invert', lambda n: g.fn('not', n), 'b')
ufunc1('bitwise_not', lambda n: g.fn('not', n), 'b')
RPD = lambda: g.leaf('rad/deg')
for _nm in ('deg2rad', 'radians'):
    ufunc1(_nm, lambda n: g.mul(n, RPD()))
for _nm in ('rad2deg', 'degrees'):
    ufunc1(_nm, lambda n: g.mul((1, n), (-1, RPD())))


def ufunc2(name, f, dt='join'):
    def impl(I, x, y):
        a, da = lift(I, x)
        b, db = lift(I, y)
        return I.new_arr(f(a, b), I.join_dt(da, db) if dt == 'join' else dt)
    np_(name, 'x, y')(impl)


ufunc2('add', lambda a, b: g.add(a, b))
ufunc2('subtract', g.sub)
ufunc2('multiply', lambda a, b: g.mul(a, b))
ufunc2('divide true_divide', g.div, 'f')
ufunc2('arctan2 atan2', lambda a, b: g.fn('arctan2', a, b), 'f')
ufunc2('hypot', lambda a, b: g.mul((Fraction(1, 2), g.add(g.mul((2, a)), g.mul((2, b))))), 'f')
ufunc2('power float_power', lambda a, b: g.power(a, b))
ufunc2('mod remainder', lambda a, b: g.fn('mod', a, b))
ufunc2('fmod', lambda a, b: g.fn('fmod', a, b))
ufunc2('floor_divide', lambda a, b: g.fn('floor', g.div(a, b)))
ufunc2('maximum', lambda a, b: g.fn('maximum', a, b))
ufunc2('minimum', lambda a, b: g.fn('minimum', a, b))
ufunc2('fmax', lambda a, b: g.fn('fmax', a, b))
ufunc2('fmin', lambda a, b: g.fn('fmin', a, b))
ufunc2('copysign', lambda a, b: g.fn('copysign', a, b), 'f')
ufunc2('less', lambda a, b: g.fn('lt', a, b), 'b')
ufunc2('less_equal', lambda a, b: g.fn('le', a, b), 'b')
ufunc2('greater', lambda a, b: g.fn('lt', b, a), 'b')
ufunc2('greater_equal', lambda a, b: g.fn('le', b, a), 'b')
ufunc2('equal', lambda a, b: g.fn('eq', a, b), 'b')
ufunc2('not_equal', lambda a, b: g.fn('not', g.fn('eq', a, b)), 'b')
ufunc2('logical_and bitwise_and', lambda a, b: g.fn('and', a, b), 'b')
ufunc2('logical_or bitwise_or', lambda a, b: g.fn('or', a, b), 'b')
ufunc2('logical_xor bitwise_xor', lambda a, b: g.fn('not', g.fn('eq', a, b)), 'b')


# ---------------------------------------------------------------- creation and conversion
@np_('array', 'a, dtype=None, copy=True')
def _array(I, a, dtype, copy):
    r = as_array(I, a)
    if isinstance(r, Choice):
        return I.distribute(r, lambda x: _array(I, x, dtype, copy))
    if copy is not False:
        r = I.new_arr(I.node(r), r.dt)
    return cast(I, r, dtype) if dtype is not None else r


@np_('asarray asanyarray ascontiguousarray asfarray asarray_chkfinite require', 'a, dtype=None')
def _asarray(I, a, dtype):
    r = as_array(I, a)
    return cast(I, r, dtype) if dtype is not None else Arr(r.cell, r.views, r.dt)


@np_('copy', 'a')
def _copy(I, a):
    r = as_array(I, a)
    return I.new_arr(I.node(r), r.dt)


def _filled(I, shape, val, dt):
    s = to_shape(I, shape)
    if s is None:
        return opq(I, 'full', shape)
    return I.new_arr(g.bcast(g.num(val) if not isinstance(val, g.Node) else val, s), dt)


@np_('zeros empty', 'shape, dtype=None')
def _zeros(I, shape, dtype):
    return _filled(I, shape, 0, 'f' if dtype is None else dtype_kind(I, dtype))


@np_('ones', 'shape, dtype=None')
def _ones(I, shape, dtype):
    return _filled(I, shape, 1, 'f' if dtype is None else dtype_kind(I, dtype))


@np_('full', 'shape, fill_value, dtype=None')
def _full(I, shape, fill_value, dtype):
    n, dt = lift(I, fill_value)
    return _filled(I, shape, n, dt if dtype is None else dtype_kind(I, dtype))


def _like(val):
    def impl(I, a, dtype, shape):
        n, dt = lift(I, a)
        if n.shape is None:
            return opq(I, 'like', a)
        s = n.shape if shape is None else to_shape(I, shape)
        return I.new_arr(g.const(val, s), dt if dtype is None else dtype_kind(I, dtype))
    return impl


np_('zeros_like empty_like', 'a, dtype=None, shape=None')(_like(0))
np_('ones_like', 'a, dtype=None, shape=None')(_like(1))


@np_('full_like', 'a, fill_value, dtype=None, shape=None')
def _full_like(I, a, fill_value, dtype, shape):
    n, dt = lift(I, a)
    v, vdt = lift(I, fill_value)
    if n.shape is None:
        return opq(I, 'like', a)
    if dtype is None and dt == 'i' and vdt == 'f':
        I.effect('dtype', what='floating fill value stored with the integer type of the input')
    return I.new_arr(g.bcast(v, n.shape), dt if dtype is None else dtype_kind(I, dtype))


@np_('eye identity', 'n, M=None, dtype=None')
def _eye(I, n, M, dtype):
    if isinstance(n, int) and (M is None or isinstance(M, int)):
        m = n if M is None else M
        return I.new_arr(g.const_array([1 if i == j else 0 for i in range(n) for j in range(m)], (n, m)), 'f')
    return opq(I, 'eye', n)


@np_('diag', 'v')
def _diag(I, v):
    n, dt = lift(I, v)
    if n.shape == (3,) or (n.shape and len(n.shape) == 1 and isinstance(n.shape[0], int)):
        d = n.shape[0]
        rows = []
        for i in range(d):
            row = [g.axes(g.index(n, (i,)), (None,)) if i == j else g.const(0, (1,)) for j in range(d)]
            rows.append(g.axes(g.concat(row, 0), (None, 0)))
        return I.new_arr(g.concat(rows, 0), dt)
    return opq(I, 'diag', v)


@np_('arange', 'start, stop=None, step=None, dtype=None')
def _arange(I, start, stop, step, dtype):
    if all(x is None or isinstance(x, int) for x in (start, stop, step)):
        r = range(start) if stop is None else range(start, stop, step or 1)
        return I.new_arr(g.const_array(list(r), (len(r),)), 'i')
    if stop is None:
        d = to_dim(I, start)
        return I.new_arr(g.mk('iota', (), d, (d,)), 'i')
    return opq(I, 'arange', start, stop, step)


@np_('linspace', 'start, stop, num=50, endpoint=True')
def _linspace(I, start, stop, num, endpoint):
    return opq(I, 'linspace', start, stop, num)


@np_('atleast_1d', '*arys')
def _atleast_1d(I, arys):
    return _atleast(I, arys, 1)


@np_('atleast_2d', '*arys')
def _atleast_2d(I, arys):
    return _atleast(I, arys, 2)


@np_('atleast_3d', '*arys')
def _atleast_3d(I, arys):
    return _atleast(I, arys, 3)


def _atleast(I, arys, k):
    out = []
    for a in arys:
        r = as_array(I, a)
        n = I.node(r)
        if n.shape is None:
            out.append(r)
            continue
        nd = len(n.shape)
        if nd >= k:
            out.append(Arr(r.cell, r.views, r.dt))
        elif k == 3 and nd == 2:
            out.append(I.view(r, ('axes', (0, 1, None))))
        elif k == 3 and nd == 1:
            out.append(I.view(r, ('axes', (None, 0, None))))
        else:
            out.append(I.view(r, ('axes', (None,) * (k - nd) + tuple(range(nd)))))
    return out[0] if len(out) == 1 else I.new_list(out)


@np_('broadcast_arrays', '*args')
def _broadcast_arrays(I, args):
    arrs = [as_array(I, a) for a in args]
    nodes = [I.node(a) for a in arrs]
    if any(n.shape is None for n in nodes):
        return I.new_list(arrs)
    s = g.broadcast(*[n.shape for n in nodes])
    return I.new_list([I.view(a, ('bcast', s)) if n.shape != s else Arr(a.cell, a.views, a.dt) for a, n in zip(arrs, nodes)])


@np_('broadcast_to', 'array, shape')
def _broadcast_to(I, array, shape):
    a = as_array(I, array)
    s = to_shape(I, shape)
    n = I.node(a)
    if s is None or n.shape is None:
        return opq(I, 'broadcast_to', array)
    g.bcast(n, s)
    return I.view(a, ('bcast', s))


@np_('broadcast_shapes', '*shapes')
def _broadcast_shapes(I, shapes):
    ss = [to_shape(I, s) for s in shapes]
    if any(s is None for s in ss):
        return I.opaque('broadcast_shapes', list(shapes))
    return tuple(dim_value(I, d) for d in g.broadcast(*ss))


@np_('broadcast', '*args')
def _broadcast(I, args):
    nodes = [lift(I, a)[0] for a in args]
    if any(n.shape is None for n in nodes):
        return I.opaque('broadcast', list(args))
    return ExtObj('broadcast', shape=g.broadcast(*[n.shape for n in nodes]))


@np_('result_type promote_types common_type', '*args')
def _result_type(I, args):
    kinds = set()
    for a in args:
        if isinstance(a, (ExtRef, BuiltinType, str)) or isinstance(a, ExtObj) and a.kind == 'dtype':
            kinds.add(dtype_kind(I, a))
        else:
            kinds.add(lift(I, a)[1])
    top = '?' if not kinds or '?' in kinds else 'f' if 'f' in kinds else 'i' if 'i' in kinds else 'b'
    return ExtObj('dtype', dt=top)


@np_('issubdtype', 'd, kind')
def _issubdtype(I, d, kind):
    k = dtype_kind(I, d)
    name = kind.path.split('.')[-1] if isinstance(kind, ExtRef) else kind.name if isinstance(kind, BuiltinType) else ''
    sets = {'integer': 'i', 'signedinteger': 'i', 'int': 'i', 'floating': 'f', 'inexact': 'f', 'float': 'f', 'float64': 'f',
            'number': 'if', 'bool': 'b', 'bool_': 'b', 'int64': 'i'}
    if k == '?' or name not in sets or narrow(d):
        return I.new_arr(g.mk('truth', (), 'issubdtype' + I.locstr(), ()), 'b')
    return k in sets[name]


# ---------------------------------------------------------------- shape manipulation
@np_('reshape', 'a, newshape')
def _reshape(I, a, newshape):
    r = as_array(I, a)
    n = I.node(r)
    s = to_shape(I, newshape)
    if s is None or n.shape is None:
        return opq(I, 'reshape', a)
    m = g.reshape(n, s)
    return I.view(r, ('reshape', tuple(m.shape)))


@np_('ravel', 'a')
def _ravel(I, a):
    return _reshape(I, a, -1)


@np_('squeeze', 'a, axis=None')
def _squeeze(I, a, axis):
    r = as_array(I, a)
    n = I.node(r)
    if n.shape is None:
        return opq(I, 'squeeze', a)
    if axis is None:
        keep = [i for i, d in enumerate(n.shape) if d != 1]
    else:
        ax = axis_arg(I, axis, len(n.shape))
        keep = [i for i in range(len(n.shape)) if i not in ax]
    g.axes(n, keep)
    return I.view(r, ('axes', tuple(keep))) if len(keep) != len(n.shape) else r


@np_('expand_dims', 'a, axis')
def _expand_dims(I, a, axis):
    r = as_array(I, a)
    n = I.node(r)
    if n.shape is None:
        return opq(I, 'expand_dims', a)
    axs = (axis,) if isinstance(axis, int) else tuple(I.to_list(axis))
    nd = len(n.shape) + len(axs)
    axs = [x % nd for x in axs]
    perm = []
    k = 0
    for i in range(nd):
        if i in axs:
            perm.append(None)
        else:
            perm.append(k)
            k += 1
    return I.view(r, ('axes', tuple(perm)))


@np_('transpose', 'a, axes=None')
def _transpose(I, a, axes):
    r = as_array(I, a)
    n = I.node(r)
    if n.shape is None:
        return opq(I, 'transpose', a)
    nd = len(n.shape)
    if axes is None:
        perm = tuple(reversed(range(nd)))
    else:
        perm = tuple(x % nd for x in I.to_list(axes))
    return I.view(r, ('axes', perm))


@np_('swapaxes', 'a, axis1, axis2')
def _swapaxes(I, a, axis1, axis2):
    r = as_array(I, a)
    n = I.node(r)
    if n.shape is None:
        return opq(I, 'swapaxes', a)
    nd = len(n.shape)
    for x in (axis1, axis2):
        if not -nd <= x < nd:
            raise g.ShapeErr('axis %s is out of bounds for %d dimensions' % (x, nd))
    perm = list(range(nd))
    perm[axis1], perm[axis2] = perm[axis2], perm[axis1]
    return I.view(r, ('axes', tuple(perm)))


@np_('moveaxis rollaxis', 'a, source, destination')
def _moveaxis(I, a, source, destination):
    r = as_array(I, a)
    n = I.node(r)
    if n.shape is None or not isinstance(source, int) or not isinstance(destination, int):
        return opq(I, 'moveaxis', a)
    nd = len(n.shape)
    perm = [i for i in range(nd) if i != source % nd]
    perm.insert(destination % nd, source % nd)
    return I.view(r, ('axes', tuple(perm)))


def seq_items(I, v):
    if isinstance(v, PyList) or isinstance(v, tuple):
        items = list(v) if isinstance(v, tuple) else list(I.st.heap[v.id])
        if any(isinstance(x, Rep) for x in items):
            return None
        return items
    if isinstance(v, Arr):
        return I.to_list(v)
    return None


def _stackers(name, prep, axis):
    def impl(I, tup):
        items = seq_items(I, tup)
        if items is None:
            a = as_array(I, tup)
            n = I.node(a)
            return opq(I, name, tup)
        nodes, dts = [], []
        for it in items:
            n, dt = lift(I, it)
            if n.shape is None:
                return opq(I, name, tup)
            nodes.append(prep(n))
            dts.append(dt)
        ax = axis(nodes) if callable(axis) else axis
        return I.new_arr(g.concat(nodes, ax), I.join_dt(*dts))
    np_(name, 'tup')(impl)


def _pad2(n):
    nd = len(n.shape)
    return n if nd >= 2 else g.axes(n, (None,) * (2 - nd) + tuple(range(nd)))


def _pad1(n):
    return n if len(n.shape) >= 1 else g.axes(n, (None,))


def _col2(n):
    nd = len(n.shape)
    if nd >= 2:
        return n
    return g.axes(n, (0, None)) if nd == 1 else g.axes(n, (None, None))


def _pad3(n):
    nd = len(n.shape)
    if nd >= 3:
        return n
    return g.axes(n, {0: (None, None, None), 1: (None, 0, None), 2: (0, 1, None)}[nd])


_stackers('vstack', _pad2, 0)
_stackers('row_stack', _pad2, 0)
_stackers('hstack', _pad1, lambda ns: 0 if len(ns[0].shape) == 1 else 1)
_stackers('column_stack', _col2, 1)
_stackers('dstack', _pad3, 2)


@np_('concatenate', 'arrays, axis=0')
def _concatenate(I, arrays, axis):
    items = seq_items(I, arrays)
    if items is None:
        return opq(I, 'concatenate', arrays)
    ls = [lift(I, x) for x in items]
    if any(n.shape is None for n, _d in ls):
        return opq(I, 'concatenate', arrays)
    if axis is None:
        ls = [(g.reshape(n, (-1,)), d) for n, d in ls]
        axis = 0
    nd = len(ls[0][0].shape)
    return I.new_arr(g.concat([n for n, _d in ls], axis % nd), I.join_dt(*[d for _n, d in ls]))


@np_('stack', 'arrays, axis=0')
def _stack(I, arrays, axis):
    a = as_array(I, arrays)
    n = I.node(a)
    if n.shape is None:
        return opq(I, 'stack', arrays)
    if axis in (0,):
        return I.new_arr(n, a.dt)
    nd = len(n.shape)
    ax = axis % nd
    perm = list(range(1, nd))
    perm.insert(ax, 0)
    return I.new_arr(g.axes(n, perm), a.dt)


@np_('append', 'arr, values, axis=None')
def _append(I, arr, values, axis):
    return _concatenate(I, (arr, values), axis)


@np_('tile', 'A, reps')
def _tile(I, A, reps):
    n, dt = lift(I, A)
    s = to_shape(I, reps)
    if s is None or n.shape is None:
        return opq(I, 'tile', A, reps)
    nd = max(len(s), len(n.shape))
    n = g.axes(n, (None,) * (nd - len(n.shape)) + tuple(range(len(n.shape))))
    s = (1,) * (nd - len(s)) + s
    if all(a == 1 or b == 1 for a, b in zip(n.shape, s)):
        return I.new_arr(g.bcast(n, tuple(g.dim_mul(a, b) for a, b in zip(n.shape, s))), dt)
    return opq(I, 'tile', A, reps)


@np_('repeat', 'a, repeats, axis=None')
def _repeat(I, a, repeats, axis):
    n, dt = lift(I, a)
    if n.shape is not None and isinstance(axis, int) and n.shape[axis] == 1:
        s = list(n.shape)
        s[axis] = to_dim(I, repeats)
        return I.new_arr(g.bcast(n, tuple(s)), dt)
    return opq(I, 'repeat', a, repeats)


@np_('flip fliplr flipud', 'm, axis=None')
def _flip(I, m, axis):
    n, dt = lift(I, m)
    if n.shape is None:
        return opq(I, 'flip', m)
    axs = axis_arg(I, axis, len(n.shape))
    for ax in axs:
        d = n.shape[ax]
        if not isinstance(d, int):
            return I.new_arr(g.mk('permute', (n,), ('flip', ax), n.shape), dt)
        n = g.concat([g.index(n, tuple(('s', i, i + 1, 1) if k == ax else ':' for k in range(len(n.shape)))) if d > 1 else n
                      for i in reversed(range(d))], ax)
    return I.new_arr(n, dt)


@np_('roll', 'a, shift, axis=None')
def _roll(I, a, shift, axis):
    n, dt = lift(I, a)
    if n.shape is not None and isinstance(axis, int) and isinstance(n.shape[axis], int) and isinstance(shift, int):
        d = n.shape[axis]
        ax = axis % len(n.shape)
        idx = [(i - shift) % d for i in range(d)]
        return I.new_arr(take_const(n, idx, ax), dt)
    if n.shape is not None:
        return I.new_arr(g.mk('permute', (n,), ('roll', str(axis), str(shift)), n.shape), dt)
    return opq(I, 'roll', a)


def take_const(n, idx, ax):
    d = n.shape[ax]
    parts = []
    for i in idx:
        if isinstance(d, int):
            i = i % d
            spec = tuple(g.norm_slice((i, i + 1, 1), d) if k == ax else ':' for k in range(len(n.shape)))
            parts.append(g.index(n, spec))
        else:
            spec = tuple(i if k == ax else ':' for k in range(len(n.shape)))
            r = g.index(n, spec)
            parts.append(g.axes(r, tuple(range(ax)) + (None,) + tuple(range(ax, len(r.shape)))))
    return g.concat(parts, ax)


# ---------------------------------------------------------------- reductions
def _reduction(names, op, dt='same'):
    def impl(I, a, axis, keepdims):
        n, d = lift(I, a)
        if n.shape is None:
            return opq(I, op, a)
        axs = axis_arg(I, axis, len(n.shape))
        if axs is None:
            return opq(I, op, a)
        rd = d if dt == 'same' else dt
        if op == 'sum' and d == 'b':
            rd = 'i'
        if op == 'mean':
            r = mean_node(n, axs, keepdims is True)
        elif op in ('var', 'std'):
            m = mean_node(n, axs, True)
            r = mean_node(g.mul((2, g.sub(n, m))), axs, keepdims is True)
            if op == 'std':
                r = g.mul((Fraction(1, 2), r))
        elif op == 'ptp':
            r = g.sub(g.reduce_('max', n, axs, keep=keepdims is True), g.reduce_('min', n, axs, keep=keepdims is True))
        else:
            r = g.reduce_(op, n, axs, keep=keepdims is True)
        return I.new_arr(r, rd)
    np_(names, 'a, axis=None, keepdims=False')(impl)


def mean_node(n, axs, keep):
    s = g.reduce_('sum', n, axs, keep=keep)
    size = g.shape_size([n.shape[i] for i in axs])
    return g.div(s, g.const(size) if isinstance(size, int) else g.leaf('dim:%s' % size))


_reduction('sum nansum', 'sum')
_reduction('prod', 'prod')
_reduction('mean nanmean', 'mean', 'f')
_reduction('max amax nanmax', 'max')
_reduction('min amin nanmin', 'min')
_reduction('any', 'any', 'b')
_reduction('all', 'all', 'b')
_reduction('median nanmedian', 'median', 'f')
_reduction('var', 'var', 'f')
_reduction('std', 'std', 'f')
_reduction('argmax', 'argmax', 'i')
_reduction('argmin', 'argmin', 'i')
_reduction('ptp', 'ptp')
_reduction('count_nonzero', 'count_nonzero', 'i')


def _scan(names, op):
    def impl(I, a, axis):
        n, d = lift(I, a)
        if n.shape is None:
            return opq(I, op, a)
        ax = None if axis is None else axis_arg(I, axis, len(n.shape))[0]
        if ax is None:
            n = g.reshape(n, (-1,))
            ax = 0
        return I.new_arr(g.mk('scan', (n,), (op, ax), n.shape), d)
    np_(names, 'a, axis=None')(impl)


_scan('cumsum', 'cumsum')
_scan('cumprod', 'cumprod')
_scan('unwrap', 'unwrap')


def _ufunc_methods(ufunc, op, scan):
    def reduce_(I, a, axis, keepdims):
        return FUNCS[op](I, [a], dict(axis=axis, keepdims=keepdims))

    def accumulate(I, a, axis):
        n, d = lift(I, a)
        if n.shape is None or not isinstance(axis, int) or isinstance(axis, bool):
            return opq(I, scan, a)
        return I.new_arr(g.mk('scan', (n,), (scan, axis % len(n.shape)), n.shape), d)
    np_(ufunc + '.reduce', 'a, axis=0, keepdims=False')(reduce_)
    np_(ufunc + '.accumulate', 'a, axis=0')(accumulate)


for _u, _o, _s in (('add', 'sum', 'cumsum'), ('multiply', 'prod', 'cumprod'), ('maximum', 'max', 'cummax'), ('minimum', 'min', 'cummin'),
                   ('fmax', 'max', 'cummax'), ('fmin', 'min', 'cummin'), ('logical_and', 'all', 'cumall'), ('logical_or', 'any', 'cumany')):
    _ufunc_methods(_u, _o, _s)


@np_('interp', 'x, xp, fp, left=None, right=None, period=None')
def _interp(I, x, xp, fp, left, right, period):
    """linear interpolation; beyond the samples the first and the last, or the values given"""
    q, t, y = lift(I, x)[0], lift(I, xp)[0], lift(I, fp)[0]
    if q.shape is None or y.shape is None or t.shape is None or len(y.shape) != 1 or period is not None:
        return opq(I, 'np.interp', x, xp, fp)
    ends = [w for w in (left, right)]
    if all(isinstance(w, float) and w != w for w in ends):
        attr = (0, 'bounds_error=False', 'fill=nan')
    else:
        attr = (0, 'bounds_error=False', 'fill=ends' if ends == [None, None] else 'fill=%s' % I.locstr())
    return I.new_arr(g.mk('interp1d', (t, y, q, I.node('linear')), attr, q.shape), 'f')


@np_('sort', 'a, axis=-1')
def _sort(I, a, axis):
    n, d = lift(I, a)
    if n.shape is None:
        return opq(I, 'sort', a)
    return I.new_arr(g.mk('scan', (n,), ('sort', axis % len(n.shape)), n.shape), d)


@np_('diff', 'a, n=1, axis=-1')
def _diff(I, a, n, axis):
    x, d = lift(I, a)
    if x.shape is None:
        return opq(I, 'diff', a)
    ax = axis % len(x.shape)
    dd = x.shape[ax]
    if isinstance(dd, int) and n == 1:
        lo = g.index(x, tuple(g.norm_slice((0, dd - 1, 1), dd) if k == ax else ':' for k in range(len(x.shape))))
        hi = g.index(x, tuple(g.norm_slice((1, dd, 1), dd) if k == ax else ':' for k in range(len(x.shape))))
        return I.new_arr(g.sub(hi, lo), d)
    s = list(x.shape)
    s[ax] = '%s-1' % dd
    return I.new_arr(g.mk('scan', (x,), ('diff', ax), tuple(s)), d)


# ---------------------------------------------------------------- linear algebra
def contract(I, ops, ins, out):
    """einsum over label lists; ops are nodes"""
    dims = {}
    for n, lab in zip(ops, ins):
        if len(lab) != len(n.shape):
            raise g.ShapeErr('einsum subscripts do not match the operand dimensions')
        for l, d in zip(lab, n.shape):
            dims[l] = g.bdim(dims.get(l, 1), d)
    dead = [l for l in dims if dims[l] == 1]
    labs, nodes = [], []
    for n, lab in zip(ops, ins):
        # repeated label in one operand: diagonal (not needed) -> treat as error of the model
        if len(set(lab)) != len(lab):
            return None
        keep = [i for i, l in enumerate(lab) if l not in dead and not (n.shape[i] == 1)]
        nodes.append(g.axes(n, keep))
        labs.append([lab[i] for i in keep])
    order = []
    for lab in labs:
        pos = 0
        for l in lab:
            if l in order:
                pos = order.index(l) + 1
            else:
                order.insert(pos, l)
                pos += 1
    fac = []
    for n, lab in zip(nodes, labs):
        src = sorted(range(len(lab)), key=lambda i: order.index(lab[i]))
        n2 = g.axes(n, src)
        have = [lab[i] for i in src]
        perm = []
        k = 0
        for l in order:
            if l in have:
                perm.append(k)
                k += 1
            else:
                perm.append(None)
        while perm and perm[0] is None:
            perm.pop(0)
        fac.append(g.axes(n2, perm))
    shape = tuple(dims[l] for l in order)
    prod = g.mul(*fac, shape=shape)
    red = tuple(i for i, l in enumerate(order) if l not in out)
    res = g.reduce_('sum', prod, red)
    rest = [l for l in order if l in out]
    perm = [rest.index(l) if l in rest else None for l in out]
    return g.axes(res, perm)


@np_('einsum', 'subscripts, *operands')
def _einsum(I, subscripts, operands):
    if not isinstance(subscripts, str):
        return opq(I, 'einsum', list(operands))
    ls = [lift(I, o) for o in operands]
    nodes = [n for n, _d in ls]
    if any(n.shape is None for n in nodes):
        return opq(I, 'einsum', list(operands))
    spec = subscripts.replace(' ', '')
    if '->' in spec:
        lhs, rhs = spec.split('->')
    else:
        lhs = spec
        labs = [c for c in lhs.replace(',', '').replace('...', '')]
        rhs = ('...' if '...' in lhs else '') + ''.join(sorted(c for c in set(labs) if labs.count(c) == 1))
    terms = lhs.split(',')
    if len(terms) != len(nodes):
        I.raise_('ValueError', 'einsum operand count')
    ins = []
    maxell = 0
    for t, n in zip(terms, nodes):
        if '...' in t:
            k = len(n.shape) - len(t.replace('...', ''))
            if k < 0:
                raise g.ShapeErr('einsum: operand has too few dimensions')
            maxell = max(maxell, k)
    for t, n in zip(terms, nodes):
        if '...' in t:
            k = len(n.shape) - len(t.replace('...', ''))
            ell = ['.%d' % (maxell - k + i) for i in range(k)]
            a, b = t.split('...')
            ins.append(list(a) + ell + list(b))
        else:
            ins.append(list(t))
    out = []
    if '...' in rhs:
        a, b = rhs.split('...')
        out = list(a) + ['.%d' % i for i in range(maxell)] + list(b)
    else:
        out = list(rhs)
    r = contract(I, nodes, ins, out)
    if r is None:
        return opq(I, 'einsum', list(operands))
    return I.new_arr(r, I.join_dt(*[d for _n, d in ls]))


def dot_nodes(I, a, b, matmul=False):
    if not a.shape or not b.shape:
        if matmul:
            raise g.ShapeErr('matmul: scalar operand')
        return g.mul(a, b)
    la = ['a%d' % i for i in range(len(a.shape))]
    lb = ['b%d' % i for i in range(len(b.shape))]
    kb = len(lb) - 2 if len(lb) >= 2 else 0
    if matmul and (len(la) > 2 or len(lb) > 2):
        na, nb = len(la) - 2, len(lb) - 2
        for i in range(min(max(na, 0), max(nb, 0))):
            lb[nb - 1 - i] = la[na - 1 - i]
    if a.shape[-1] != b.shape[kb]:
        raise g.ShapeErr('shapes %s and %s not aligned' % (a.shape, b.shape))
    lb[kb] = la[-1]
    out = la[:-1] + [l for i, l in enumerate(lb) if i != kb and l not in la]
    if matmul and (len(la) > 2 or len(lb) > 2):
        batch = [l for l in la[:-2]] if len(la) >= len(lb) else [l for l in lb[:-2]]
        out = batch + ([la[-2]] if len(la) >= 2 else []) + ([lb[-1]] if len(lb) >= 2 else [])
    return contract(I, [a, b], [la, lb], out)


@np_('dot', 'a, b')
def _dot(I, a, b):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'dot', a, b)
    return I.new_arr(dot_nodes(I, x, y), I.join_dt(dx, dy))


@np_('matmul', 'a, b')
def _matmul(I, a, b):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'matmul', a, b)
    return I.new_arr(dot_nodes(I, x, y, True), I.join_dt(dx, dy))


@np_('inner', 'a, b')
def _inner(I, a, b):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'inner', a, b)
    if not x.shape or not y.shape:
        return I.new_arr(g.mul(x, y), I.join_dt(dx, dy))
    la = ['a%d' % i for i in range(len(x.shape))]
    lb = ['b%d' % i for i in range(len(y.shape))]
    if x.shape[-1] != y.shape[-1]:
        raise g.ShapeErr('shapes not aligned')
    lb[-1] = la[-1]
    return I.new_arr(contract(I, [x, y], [la, lb], la[:-1] + lb[:-1]), I.join_dt(dx, dy))


@np_('vdot', 'a, b')
def _vdot(I, a, b):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'vdot', a, b)
    return I.new_arr(g.reduce_('sum', g.mul(x, y), tuple(range(len(g.broadcast(x.shape, y.shape))))), I.join_dt(dx, dy))


@np_('outer', 'a, b')
def _outer(I, a, b):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'outer', a, b)
    x = g.reshape(x, (-1,))
    y = g.reshape(y, (-1,))
    return I.new_arr(g.mul(g.axes(x, (0, None)), g.axes(y, (None, 0))), I.join_dt(dx, dy))


@np_('tensordot', 'a, b, axes=2')
def _tensordot(I, a, b, axes):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'tensordot', a, b)
    if isinstance(axes, int):
        ax = list(range(len(x.shape) - axes, len(x.shape)))
        bx = list(range(axes))
    else:
        aa = I.to_list(axes)
        ax = [aa[0]] if isinstance(aa[0], int) else I.to_list(aa[0])
        bx = [aa[1]] if isinstance(aa[1], int) else I.to_list(aa[1])
    la = ['a%d' % i for i in range(len(x.shape))]
    lb = ['b%d' % i for i in range(len(y.shape))]
    for i, j in zip(ax, bx):
        lb[j] = la[i]
    out = [l for l in la if l not in lb] + [l for l in lb if l not in la]
    return I.new_arr(contract(I, [x, y], [la, lb], out), I.join_dt(dx, dy))


@np_('cross', 'a, b, axisa=-1, axisb=-1, axisc=-1, axis=None')
def _cross(I, a, b, axisa, axisb, axisc, axis):
    x, dx = lift(I, a)
    y, dy = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'cross', a, b)
    if axis is not None:
        axisa = axisb = axisc = axis
    nx, ny = len(x.shape), len(y.shape)
    for ax, nd in ((axisa, nx), (axisb, ny)):
        if not -nd <= ax < nd:
            raise g.ShapeErr('axis %d is out of bounds for %d dimensions' % (ax, nd))
    axa, axb = axisa % nx, axisb % ny
    if axa == axb and nx == ny and (axisc % nx) == axa:
        return I.new_arr(g.cross(x, y, axa), I.join_dt(dx, dy))
    x2 = g.axes(x, [i for i in range(nx) if i != axa] + [axa])
    y2 = g.axes(y, [i for i in range(ny) if i != axb] + [axb])
    r = g.cross(x2, y2, -1 % max(nx, ny))
    nd = len(r.shape)
    perm = list(range(nd - 1))
    perm.insert(axisc % nd, nd - 1)
    return I.new_arr(g.axes(r, perm), I.join_dt(dx, dy))


@np_('linalg.norm', 'x, ord=None, axis=None, keepdims=False')
def _norm(I, x, ord, axis, keepdims):
    n, d = lift(I, x)
    if n.shape is None:
        return opq(I, 'norm', x)
    axs = axis_arg(I, axis, len(n.shape))
    if axs is None:
        return opq(I, 'norm', x)
    if ord not in (None, 2, 'fro') or (ord == 2 and len(axs) == 2):
        if ord == 1 and len(axs) == 1:
            return I.new_arr(g.reduce_('sum', g.fn('abs', n), axs, keep=keepdims is True), 'f')
        if ord == float('inf') and len(axs) == 1:
            return I.new_arr(g.reduce_('max', g.fn('abs', n), axs, keep=keepdims is True), 'f')
        return I.new_arr(g.mk('opaque', (n,), 'norm-ord', tuple(dd for i, dd in enumerate(n.shape) if i not in axs)), 'f')
    s = g.reduce_('sum', g.mul((2, n)), axs, keep=keepdims is True)
    return I.new_arr(g.mul((Fraction(1, 2), s)), 'f')


@np_('linalg.inv', 'a')
def _inv(I, a):
    n, d = lift(I, a)
    return I.new_arr(g.mk('inv', (n,), None, n.shape), 'f')


@np_('linalg.det', 'a')
def _det(I, a):
    n, d = lift(I, a)
    return I.new_arr(g.mk('det', (n,), None, n.shape[:-2] if n.shape else None), 'f')


@np_('trace', 'a')
def _trace(I, a):
    n, d = lift(I, a)
    if n.shape is not None and n.shape[0] == n.shape[1] == 3:
        return I.new_arr(g.add(*[g.index(n, (i, i) + (':',) * (len(n.shape) - 2)) for i in range(3)]), d)
    return opq(I, 'trace', a)


# ---------------------------------------------------------------- logic, selection
@np_('where', 'condition, x=None, y=None')
def _where(I, condition, x, y):
    c, dc = lift(I, condition)
    if x is None and y is None:
        if c.shape is None:
            return opq(I, 'where', condition)
        if len(c.shape) == 1:
            return (_flatnonzero(I, condition),)
        return (opq(I, 'where', condition),) * len(c.shape)
    a, da = lift(I, x)
    b, db = lift(I, y)
    if c.shape is not None and dc != 'b':
        c = g.fn('not', g.fn('eq', c, g.const(0)))
    return I.new_arr(g.fn('where', c, a, b), I.join_dt(da, db))


@np_('flatnonzero', 'a')
def _flatnonzero(I, a):
    n, d = lift(I, a)
    if n.shape is None:
        return opq(I, 'flatnonzero', a)
    if d != 'b':
        n = g.fn('not', g.fn('eq', n, g.const(0)))
    n = g.reshape(n, (-1,))
    return I.new_arr(g.mk('nonzero', (n,), None, ('k%d' % n.id,)), 'i')


@np_('nonzero', 'a')
def _nonzero(I, a):
    n, d = lift(I, a)
    if n.shape is not None and len(n.shape) == 1:
        return (_flatnonzero(I, a),)
    return opq(I, 'nonzero', a)


@np_('isclose', 'a, b, rtol=1e-05, atol=1e-08, equal_nan=False')
def _isclose(I, a, b, rtol, atol, equal_nan):
    x, _ = lift(I, a)
    y, _ = lift(I, b)
    r, _ = lift(I, rtol)
    t, _ = lift(I, atol)
    return I.new_arr(g.fn('isclose', x, y, r, t), 'b')


@np_('allclose', 'a, b, rtol=1e-05, atol=1e-08, equal_nan=False')
def _allclose(I, a, b, rtol, atol, equal_nan):
    r = _isclose(I, a, b, rtol, atol, equal_nan)
    n = I.node(r)
    if n.shape is None:
        return r
    return I.new_arr(g.reduce_('all', n, tuple(range(len(n.shape)))), 'b')


@np_('array_equal', 'a, b')
def _array_equal(I, a, b):
    x, _ = lift(I, a)
    y, _ = lift(I, b)
    if x.shape is None or y.shape is None:
        return opq(I, 'array_equal', a, b)
    if len(x.shape) != len(y.shape):
        return False
    if x.shape != y.shape:
        if all(isinstance(d, int) for d in x.shape + y.shape):
            return False
        return I.new_arr(g.mk('truth', (x, y), 'array_equal', ()), 'b')
    n = g.fn('eq', x, y)
    return I.new_arr(g.reduce_('all', n, tuple(range(len(n.shape)))), 'b')


@np_('clip', 'a, a_min=None, a_max=None, min=None, max=None')
def _clip(I, a, a_min, a_max, min, max):
    n, d = lift(I, a)
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if lo is not None:
        m, d2 = lift(I, lo)
        n = g.fn('maximum', n, m)
        d = I.join_dt(d, d2)
    if hi is not None:
        m, d2 = lift(I, hi)
        n = g.fn('minimum', n, m)
        d = I.join_dt(d, d2)
    return I.new_arr(n, d)


@np_('nan_to_num', 'x, nan=0.0, posinf=None, neginf=None')
def _nan_to_num(I, x, nan, posinf, neginf):
    n, d = lift(I, x)
    v, _ = lift(I, nan)
    return I.new_arr(g.fn('where', g.fn('isnan', n), v, n), d)


@np_('round around round_', 'a, decimals=0')
def _round(I, a, decimals):
    n, d = lift(I, a)
    if isinstance(decimals, int) and not isinstance(decimals, bool) and abs(decimals) < 16:
        if not decimals or d == 'i' and decimals > 0:
            return I.new_arr(g.fn('rint', n) if d != 'i' else n, d)
        scale = Fraction(10) ** decimals
        return I.new_arr(g.mul((1, g.const(1 / scale)), (1, g.fn('rint', g.mul((1, g.const(scale)), (1, n))))), d)
    return I.new_arr(g.fn('round', n, attr=str(decimals)), d)


@np_('take', 'a, indices, axis=None')
def _take(I, a, indices, axis):
    arr = as_array(I, a)
    n = I.node(arr)
    if n.shape is None or axis is None:
        return opq(I, 'take', a, indices)
    idx = tuple(indices if k == axis % len(n.shape) else slice(None) for k in range(len(n.shape)))
    return arr_getitem(I, arr, idx)


@np_('select', 'condlist, choicelist, default=0')
def _select(I, condlist, choicelist, default):
    cs, xs = I.to_list(condlist), I.to_list(choicelist)
    r, d = lift(I, default)
    for c, x in reversed(list(zip(cs, xs))):
        cn, _ = lift(I, c)
        xn, dx = lift(I, x)
        r = g.fn('where', cn, xn, r)
        d = I.join_dt(d, dx)
    return I.new_arr(r, d)


@np_('copyto', 'dst, src')
def _copyto(I, dst, src):
    n, d = lift(I, src)
    I.store_all(dst, n, d)


@np_('ndim', 'a')
def _ndim(I, a):
    n, _d = lift(I, a)
    return I.opaque('ndim', a) if n.shape is None else len(n.shape)


@np_('size', 'a, axis=None')
def _size(I, a, axis):
    n, _d = lift(I, a)
    if n.shape is None:
        return I.opaque('size', a)
    if isinstance(axis, int):
        return dim_value(I, n.shape[axis])
    return dim_value(I, g.shape_size(n.shape))


@np_('shape', 'a')
def _shape(I, a):
    n, _d = lift(I, a)
    if n.shape is None:
        return I.opaque('shape', a)
    return tuple(dim_value(I, d) for d in n.shape)


@np_('isscalar', 'a')
def _isscalar(I, a):
    if isinstance(a, (int, float, str)):
        return True
    if isinstance(a, Arr):
        n = I.node(a)
        return a.py or (n.shape == () and not a.views)
    return False


@np_('vectorize', 'f, otypes=None, signature=None, excluded=None')
def _vectorize(I, f, otypes, signature, excluded):
    return ExtObj('vectorize', f=f)


@np_('apply_along_axis', 'func1d, axis, arr, *args')
def _apply_along_axis(I, func1d, axis, arr, args):
    a = as_array(I, arr)
    n = I.node(a)
    if n.shape is None or len(n.shape) != 2:
        return opq(I, 'apply_along_axis', arr)
    other = 1 - axis % 2
    I.loopn += 1
    loop = ('L%d' % I.loopn, n.shape[other])
    r = I.call(func1d, [I.view(a, ('elem', (other, loop)))] + list(args), {})
    m, d = lift(I, r)
    if m.shape is None:
        return opq(I, 'apply_along_axis', arr)
    col = g.collect(m, loop)
    if other == 1 and len(col.shape) == 2:
        col = g.axes(col, (1, 0))
    return I.new_arr(col, d)


@np_('finfo', 'dtype')
def _finfo(I, dtype):
    return ExtObj('finfo')


@np_('errstate', '*args')
def _errstate(I, args):
    return ExtObj('errstate')


@np_('deprecate', 'func, old_name=None, new_name=None, message=None')
def _deprecate(I, func, old_name, new_name, message):
    return Deprecated(func, old_name, new_name)


@np_('split array_split', 'ary, indices_or_sections, axis=0')
def _split(I, ary, indices_or_sections, axis):
    a = as_array(I, ary)
    n = I.node(a)
    k = indices_or_sections
    if n.shape is None or not isinstance(k, int) or not isinstance(n.shape[axis], int) or n.shape[axis] % k:
        return opq(I, 'split', ary)
    step = n.shape[axis] // k
    out = []
    for i in range(k):
        spec = tuple(g.norm_slice((i * step, (i + 1) * step, 1), n.shape[axis]) if j == axis % len(n.shape) else ':' for j in range(len(n.shape)))
        out.append(I.view(a, ('index', spec)))
    return I.new_list(out)


@np_('meshgrid', '*xi')
def _meshgrid(I, xi):
    return opq(I, 'meshgrid', list(xi))


@np_('set_printoptions seterr seterrcall', '*a')
def _seterr(I, a):
    I.effect('impure', path='numpy.seterr')
    return None


# ---------------------------------------------------------------- indexing of arrays
def parse_index(I, v, idx):
    """-> ('basic', spec, newaxes) | ('adv', spec, newaxes) where spec entries may be ('mask',m) ('fullmask',m) ('loop',l) ('adv',n) ('list',[ints])"""
    n = I.node(v)
    nd = len(n.shape)
    items = list(idx) if isinstance(idx, tuple) else [idx]
    # count consumed axes
    used = 0
    conv = []
    for it in items:
        if it is None or it is Ellipsis:
            conv.append(it)
        elif isinstance(it, bool):
            conv.append(('opaque',))
        elif isinstance(it, int):
            conv.append(it)
            used += 1
        elif isinstance(it, float):
            I.raise_('IndexError', 'float index')
        elif isinstance(it, slice):
            conv.append(it)
            used += 1
        elif isinstance(it, (PyList, tuple)):
            a = as_array(I, it)
            m = I.node(a)
            if m.op == 'const' and m.shape is not None and len(m.shape) == 1 and a.dt == 'i':
                conv.append(('list', [int(x) for x in g.const_flat(m)]))
                used += 1
            elif a.dt == 'b' and m.shape is not None:
                conv.append(('maskarr', m))
                used += len(m.shape)
            else:
                conv.append(('adv', m))
                used += 1
        elif isinstance(it, Arr):
            m = I.node(it)
            if m.shape == () and m.op == 'leaf' and m.attr.startswith('i:'):
                conv.append(('loop', m.attr[2:]))
                used += 1
            elif m.shape == () and g.cval(m) is not None and it.dt in 'ib':
                conv.append(int(g.cval(m)))
                used += 1
            elif m.op == 'nonzero':
                conv.append(('mask', m.args[0]))
                used += 1
            elif m.op == 'index' and m.args[0].op == 'nonzero' and len(m.attr) == 1 and isinstance(m.attr[0], tuple):
                # some of the marked positions: which ones depends on how many are marked before
                k = m.args[0].args[0]
                conv.append(('mask', g.fn('and', k, g.mk('scan', (k,), ('rank%s' % (m.attr[0],), 0), k.shape))))
                used += 1
            elif m.shape is not None and it.dt == 'b' and m.shape != ():
                conv.append(('maskarr', m))
                used += len(m.shape)
            elif m.op == 'const' and m.shape is not None and len(m.shape) == 1:
                conv.append(('list', [int(x) for x in g.const_flat(m)]))
                used += 1
            else:
                conv.append(('adv', m))
                used += 1
        elif isinstance(it, Opaque):
            conv.append(('adv', I.node(it)))
            used += 1
        else:
            conv.append(('opaque',))
    if any(isinstance(c, tuple) and c[0] == 'opaque' for c in conv):
        return None
    if Ellipsis not in [c for c in conv if not isinstance(c, tuple) and not isinstance(c, slice)]:
        conv.append(Ellipsis)
    if used > nd:
        raise PyRaise(ExcVal('IndexError', ('too many indices for array: %d-dimensional, %d given' % (nd, used),)), I.loc)
    out = []
    seen = False
    for c in conv:
        if c is Ellipsis:
            if seen:
                continue
            seen = True
            out.extend([slice(None)] * (nd - used))
        else:
            out.append(c)
    spec, layout = [], []
    adv = False
    ax = 0
    for c in out:
        if c is None:
            layout.append(None)
            continue
        if isinstance(c, slice):
            vals = []
            for x in (c.start, c.stop, c.step):
                if isinstance(x, Arr):
                    d = to_dim(I, x)
                    if d == n.shape[ax]:
                        x = None
                    elif isinstance(d, int):
                        x = d
                    else:
                        return None
                vals.append(x)
            if not all(x is None or isinstance(x, int) for x in vals):
                return None
            spec.append(g.norm_slice(tuple(vals), n.shape[ax]))
            layout.append(ax)
            ax += 1
        elif isinstance(c, int):
            d = n.shape[ax]
            if isinstance(d, int) and not -d <= c < d:
                raise PyRaise(ExcVal('IndexError', ('index %d is out of bounds for axis of extent %s' % (c, d),)), I.loc)
            spec.append(c % d if isinstance(d, int) else c)
            layout.append(('drop', ax))
            ax += 1
        elif c[0] == 'maskarr':
            m = c[1]
            adv = True
            if len(m.shape) == 1:
                g.bdim(m.shape[0], n.shape[ax])
                spec.append(('mask', m))
                layout.append(ax)
                ax += 1
            else:
                for i in range(len(m.shape)):
                    if m.shape[i] != n.shape[ax + i]:
                        raise PyRaise(ExcVal('IndexError', ('boolean index of shape %s does not match the array' % (m.shape,),)), I.loc)
                    spec.append(('fullmask', m) if i == 0 else ':')
                    layout.append(ax + i)
                ax += len(m.shape)
        elif c[0] == 'loop':
            adv = True
            spec.append(('loop', (c[1], n.shape[ax])))
            layout.append(('drop', ax))
            ax += 1
        else:
            adv = True
            spec.append(c)
            layout.append(ax)
            ax += 1
    return ('adv' if adv else 'basic'), spec, layout


def layout_perm(layout):
    perm = []
    k = 0
    for l in layout:
        if l is None:
            perm.append(None)
        elif isinstance(l, tuple):
            continue
        else:
            perm.append(k)
            k += 1
    return tuple(perm)


def scalar_mask(I, n, idx):
    """boolean scalar used as an index of a 0-d array"""
    if n.shape != ():
        return None
    if isinstance(idx, tuple) and len(idx) == 1:
        idx = idx[0]
    if isinstance(idx, bool):
        return g.const(idx)
    if isinstance(idx, Arr) and I.dt(idx) == 'b':
        m = I.node(idx)
        if m.shape == ():
            return m
    return None


def arr_getitem(I, v, idx):
    n = I.node(v)
    if n.shape is None:
        return I.new_arr(g.mk('opaque', (n,) + tuple(I.deps_nodes([x for x in (idx if isinstance(idx, tuple) else (idx,)) if not isinstance(x, slice)])), 'item', None), '?')
    m0 = scalar_mask(I, n, idx)
    if m0 is not None:
        one = g.axes(n, [None])
        return I.new_arr(g.mk('gather', (one, g.axes(m0, [None])), 0, ('k%d' % m0.id,)), v.dt)
    p = parse_index(I, v, idx)
    if p is None:
        data_range(I, n, idx)
        return opq(I, 'index', v)
    kind, spec, layout = p
    if kind == 'basic':
        r = v
        if any(sp != ':' for sp in spec):
            g.index(n, spec)
            r = I.view(r, ('index', tuple(spec)))
        perm = layout_perm(layout)
        if None in perm:
            r = I.view(r, ('axes', perm))
        return Arr(r.cell, r.views, v.dt)
    # advanced indexing
    cur = n
    loops = [(i, sp[1]) for i, sp in enumerate(spec) if isinstance(sp, tuple) and sp[0] == 'loop']
    others = [sp for sp in spec if isinstance(sp, tuple) and sp[0] in ('mask', 'fullmask', 'adv', 'list')]
    if loops and not others and len(loops) == 1:
        ax, loop = loops[0]
        r = I.view(v, ('elem', (ax, loop)))
        rest = [sp for i, sp in enumerate(spec) if i != ax]
        if any(sp != ':' for sp in rest):
            r = I.view(r, ('index', tuple(rest)))
        perm = layout_perm(layout)
        if None in perm:
            r = I.view(r, ('axes', perm))
        return r
    if len(others) == 1 and not loops:
        k = [i for i, sp in enumerate(spec) if isinstance(sp, tuple) and sp[0] in ('mask', 'fullmask', 'adv', 'list')][0]
        sp = spec[k]
        basic = [s if i != k else ':' for i, s in enumerate(spec)]
        base = g.index(cur, basic)
        kk = k - sum(1 for i in range(k) if isinstance(spec[i], int))
        if sp[0] == 'list':
            for i in sp[1]:
                d = base.shape[kk]
                if isinstance(d, int) and not -d <= i < d:
                    raise PyRaise(ExcVal('IndexError', ('index out of bounds',)), I.loc)
            res = take_const(base, sp[1], kk)
        elif sp[0] == 'mask':
            s = list(base.shape)
            s[kk] = 'k%d' % sp[1].id
            if len(s) == 1:
                res = g.mk('gather', (base, sp[1]), kk, tuple(s))
            else:
                res = g.mk('gather', (base, sp[1]), kk, tuple(s))
        elif sp[0] == 'fullmask':
            m = sp[1]
            res = g.mk('gather', (base, m), 'full', ('k%d' % m.id,) + base.shape[len(m.shape):])
        else:
            m = sp[1]
            if m.shape is None:
                return opq(I, 'index', v, idx)
            s = base.shape[:kk] + m.shape + base.shape[kk + 1:]
            res = g.mk('take', (base, m), kk, s)
        perm = layout_perm(layout)
        if None in perm and len(perm) - perm.count(None) == len(res.shape):
            res = g.axes(res, perm)
        return I.new_arr(res, v.dt)
    return opq(I, 'index', v)


def data_range(I, n, idx):
    """a range of positions whose ends are computed from data"""
    idx = idx if isinstance(idx, tuple) else (idx,)
    if Ellipsis in [x for x in idx if x is Ellipsis] or None in [x for x in idx if x is None]:
        return
    for d, x in zip(n.shape, idx):
        if not isinstance(x, slice) or not isinstance(d, str):
            continue
        ends = [e for e in (x.start, x.stop) if isinstance(e, Arr)]
        nodes = [I.node(e) for e in ends]
        if len(nodes) == 2 and g.sub(nodes[1], nodes[0]) == g.const(1):
            continue
        if any(m.op == 'leaf' and m.shape and any(isinstance(q, str) for q in m.shape) for e in nodes for m in g.walk(e)):
            I.effect('datarange')


def arr_setitem(I, v, idx, val, aug=None):
    n = I.node(v)
    vn, vdt = lift(I, val)
    if n.shape is None:
        I.store_effect(v, 'item assignment', vdt, vn)
        return
    m0 = scalar_mask(I, n, idx)
    if m0 is not None:
        I.store_effect(v, 'item assignment', vdt, vn)
        m1 = g.axes(m0, [None])
        u = I.ungather(vn, m1)
        if u is not None:
            # the selection has one element or none
            u = g.index(u, [0]) if len(u.shape) == 1 else g.reshape(u, ())
            I.put_view(v, g.fn('where', m0, u, n))
        else:
            I.put_view(v, g.mk('opaque', (n, m0, vn), 'masked-store', ()))
        return
    p = parse_index(I, v, idx)
    I.store_effect(v, 'item assignment', vdt, vn)
    if p is None:
        data_range(I, n, idx)
        I.gap('store index')
        I.put_view(v, g.mk('opaque', (n, vn), 'store', n.shape))
        return
    kind, spec, layout = p
    if aug == 'Div' and v.dt == 'i':
        I.effect('dtype', what='in-place true division of an integer array')
    # drop new axes from the value
    perm = layout_perm(layout)
    if None in perm and vn.shape is not None:
        keep = [i for i, p_ in enumerate(perm) if p_ is not None]
        off = len(perm) - len(vn.shape)
        vn = g.axes(vn, [i - off for i in keep if i - off >= 0])
    spec = [('adv', I.node(as_array(I, tuple(sp[1])))) if isinstance(sp, tuple) and sp[0] == 'list' else sp for sp in spec]
    full = [sp for sp in spec if isinstance(sp, tuple) and sp[0] == 'fullmask']
    # one-dimensional boolean mask over a one-dimensional array
    new = I.store_spec(n, spec, vn)
    I.put_view(v, new)


# ---------------------------------------------------------------- operators
OPS = {'Add': lambda a, b: g.add(a, b), 'Sub': g.sub, 'Mult': lambda a, b: g.mul(a, b), 'Div': g.div,
       'Pow': lambda a, b: g.power(a, b), 'Mod': lambda a, b: g.fn('mod', a, b),
       'FloorDiv': lambda a, b: g.fn('floor', g.div(a, b)),
       'BitAnd': lambda a, b: g.fn('and', a, b), 'BitOr': lambda a, b: g.fn('or', a, b),
       'BitXor': lambda a, b: g.fn('not', g.fn('eq', a, b))}


def binop(I, op, a, b):
    import operator
    num = (bool, int, float)
    if isinstance(a, num) and isinstance(b, num):
        f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Div': operator.truediv, 'Mod': operator.mod,
             'Pow': operator.pow, 'FloorDiv': operator.floordiv, 'BitAnd': operator.and_, 'BitOr': operator.or_,
             'BitXor': operator.xor, 'LShift': operator.lshift, 'RShift': operator.rshift}.get(op)
        try:
            r = f(a, b)
            return r if isinstance(r, num) else Opaque('complex')
        except ZeroDivisionError:
            I.raise_('ZeroDivisionError')
        except (OverflowError, TypeError):
            I.raise_('TypeError')
    if isinstance(a, str) and isinstance(b, str) and op == 'Add':
        return a + b
    if isinstance(a, str) and op == 'Mult' and isinstance(b, int):
        return a * b
    if isinstance(b, str) and op == 'Mult' and isinstance(a, int):
        return a * b
    if isinstance(a, str) and op == 'Mod':
        return strfmt(I, a, b)
    if isinstance(a, str) and op == 'Add' and isinstance(b, Opaque) or isinstance(b, str) and isinstance(a, Opaque):
        return I.opaque('str', a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
        return tuple(a) + tuple(b)
    if isinstance(a, tuple) and isinstance(b, int) and op == 'Mult':
        return tuple(a) * b
    if isinstance(b, tuple) and isinstance(a, int) and not isinstance(a, bool) and op == 'Mult':
        return tuple(b) * a
    if isinstance(a, PyList) and isinstance(b, PyList) and op == 'Add':
        return I.new_list(I.st.heap[a.id] + I.st.heap[b.id])
    if isinstance(a, PyList) and isinstance(b, int) and op == 'Mult':
        return I.new_list(I.st.heap[a.id] * b)
    if isinstance(a, (PyList, PyDict)) and isinstance(b, (PyList, PyDict)) and op in ('BitOr', 'BitAnd', 'Sub'):
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op == 'BitOr':
            return I.new_dict(dict(I.st.heap[a.id], **I.st.heap[b.id]))
        return I.opaque('setop', a, b)
    if isinstance(a, (ExtObj, ExtRef)) and isinstance(b, (ExtObj, ExtRef)) and op in ('BitOr', 'Add', 'BitAnd', 'BitXor', 'Sub'):
        fa, fb = ext_flags(a), ext_flags(b)
        if fa is not None and fb is not None:
            if op in ('BitOr',):
                return ExtObj('flags', flags=fa | fb)
            if op == 'BitAnd':
                return ExtObj('flags', flags=fa & fb)
            return ExtObj('flags', flags=frozenset(['%s(%s,%s)' % (op, ','.join(sorted(fa)), ','.join(sorted(fb)))]))
    if a is None or b is None:
        I.raise_('TypeError', 'unsupported operand None for %s' % op)
    if isinstance(a, (Func, Bound, ClassVal)) or isinstance(b, (Func, Bound, ClassVal)):
        I.raise_('TypeError', 'unsupported operand')
    if isinstance(a, (str, PyDict)) or isinstance(b, (str, PyDict)):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return I.opaque('str', a, b)
        I.raise_('TypeError', 'unsupported operand str')
    if op == 'MatMult':
        return FUNCS['matmul'](I, [a, b], {})
    if op in OPS:
        if (isinstance(a, Opaque) or isinstance(b, Opaque)):
            return I.opaque('op:' + op, a, b)
        na, da = lift(I, a)
        nb, db = lift(I, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            dt = I.join_dt(da, db)
        else:
            dt = 'f' if op == 'Div' else I.join_dt(da, db)
            if dt == 'b' and op not in ():
                dt = 'i' if not (da == db == 'b' and op in ('Add', 'Mult')) else 'b'
            if op == 'Pow' and dt == 'i':
                c = g.cval(nb)
                if c is not None and (c < 0 or c != int(c)):
                    dt = 'f'
                    if c < 0 and c == int(c) and da == 'i' and db == 'i' and isinstance(a, Arr) and not a.py:
                        I.effect('dtype', what='negative integer power of an integer array (numpy raises ValueError)')
        py = all((isinstance(x, Arr) and x.py) or isinstance(x, (int, float)) for x in (a, b))
        if op in ('BitAnd', 'BitOr') and dt == 'b':
            return I.new_arr(OPS[op](na, nb), 'b')
        if op in ('Add',) and da == 'b' and db == 'b':
            return I.new_arr(g.fn('or', na, nb), 'b')
        if op in ('Mult',) and da == 'b' and db == 'b':
            return I.new_arr(g.fn('and', na, nb), 'b')
        r = I.new_arr(OPS[op](na, nb), dt, py=py)
        return r
    return I.opaque('op:' + op, a, b)


def ext_flags(v):
    if isinstance(v, ExtObj) and v.kind == 'flags':
        return v.info['flags']
    if isinstance(v, ExtRef) and v.path.startswith('geographiclib'):
        return frozenset([v.path.split('.')[-1]])
    return None


def strfmt(I, a, b):
    o = I.opaque('str', b)
    o.tag = 'str:' + a
    return o


def dim_interval(n):
    """lower bound for dimension leaves"""
    return n.op == 'leaf' and n.attr.startswith('dim:')


def compare(I, op, a, b):
    num = (bool, int, float)
    if isinstance(a, num) and isinstance(b, num) or isinstance(a, str) and isinstance(b, str):
        import operator
        return {'Eq': operator.eq, 'NotEq': operator.ne, 'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt,
                'GtE': operator.ge}[op](a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
        if len(a) != len(b):
            return op == 'NotEq'
        acc = True
        for x, y in zip(a, b):
            t = I.truth(I.compare('Eq', x, y))
            if t is False:
                return op == 'NotEq'
            if t is not True:
                acc = t if acc is True else g.fn('and', acc, t)
        if acc is True:
            return op == 'Eq'
        return I.new_arr(acc if op == 'Eq' else g.fn('not', acc), 'b')
    if isinstance(a, Arr) and isinstance(b, str) or isinstance(b, Arr) and isinstance(a, str):
        na, nb = I.node(a), I.node(b)
        if op in ('Eq', 'NotEq'):
            n = g.fn('eq', na, nb)
            return I.new_arr(n if op == 'Eq' else g.fn('not', n), 'b')
    if (a is None) != (b is None) and op in ('Eq', 'NotEq'):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return I.new_arr(g.mk('truth', tuple(I.deps_nodes([a, b])), 'cmp' + I.locstr(), ()), 'b')
        return op == 'NotEq'
    if a is None and b is None:
        return op == 'Eq'
    if isinstance(a, (Opaque,)) or isinstance(b, (Opaque,)):
        return I.new_arr(g.mk('truth', tuple(I.deps_nodes([a, b])), 'cmp:%s%s' % (op, I.locstr()), ()), 'b')
    if isinstance(a, ExtObj) and a.kind == 'dtype' or isinstance(b, ExtObj) and b.kind == 'dtype':
        ka, kb = dtype_kind(I, a), dtype_kind(I, b)
        wide = [str(getattr(x, 'path', x)) for x in (a, b) if not isinstance(x, (ExtObj, BuiltinType))]
        if op in ('Eq', 'NotEq') and '?' not in (ka, kb) and not any(w[-2:] in ('32', '16') or w[-1:] == '8' for w in wide):
            return (ka == kb) == (op == 'Eq')
        return I.new_arr(g.mk('truth', (), 'cmp' + I.locstr(), ()), 'b')
    if isinstance(a, (str, PyDict, Func, ClassVal, ExtRef, BuiltinType, ModuleVal)) or isinstance(b, (str, PyDict, Func, ClassVal, ExtRef, BuiltinType, ModuleVal)):
        if op == 'Eq':
            return I.is_(a, b) is True
        if op == 'NotEq':
            return I.is_(a, b) is not True
        I.raise_('TypeError', 'not orderable')
    if isinstance(a, PyList) and isinstance(b, PyList) and op in ('Eq', 'NotEq'):
        return compare(I, op, tuple(I.st.heap[a.id]), tuple(I.st.heap[b.id]))
    if isinstance(a, ExtObj) or isinstance(b, ExtObj):
        fa, fb = ext_flags(a), ext_flags(b)
        if fa is not None and fb is not None and op in ('Eq', 'NotEq'):
            return (fa == fb) == (op == 'Eq')
        return I.new_arr(g.mk('truth', (), 'cmp' + I.locstr(), ()), 'b')
    na, _ = lift(I, a)
    nb, _ = lift(I, b)
    # dimensions are at least two
    for x, y, flip in ((na, nb, False), (nb, na, True)):
        if dim_interval(x):
            c = g.cval(y)
            if c is not None and not isinstance(c, str):
                o = op
                if flip:
                    o = {'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}.get(op, op)
                if o in ('Eq', 'NotEq') and c < 2:
                    return o == 'NotEq'
                if o == 'Gt' and c < 2 or o == 'GtE' and c <= 2:
                    return True
                if o == 'Lt' and c <= 2 or o == 'LtE' and c < 2:
                    return False
    if na is nb and dim_interval(na):
        return op in ('Eq', 'LtE', 'GtE')
    if op == 'Eq':
        n = g.fn('eq', na, nb)
    elif op == 'NotEq':
        n = g.fn('not', g.fn('eq', na, nb))
    elif op == 'Lt':
        n = g.fn('lt', na, nb)
    elif op == 'LtE':
        n = g.fn('le', na, nb)
    elif op == 'Gt':
        n = g.fn('lt', nb, na)
    else:
        n = g.fn('le', nb, na)
    c = g.cval(n)
    if c is not None and n.shape == ():
        return bool(c)
    return I.new_arr(n, 'b')


def dict_symbolic(I, v, idx, d):
    """dictionary lookup with a key that is only known symbolically"""
    key = I.node(idx)
    vals = list(d.values())
    nodes = []
    for x in vals:
        if isinstance(x, Arr) or isinstance(x, (int, float)):
            nodes.append(I.node(x))
        else:
            return I.opaque('dict[]', v, idx)
    shapes = set(n.shape for n in nodes)
    if len(shapes) == 1:
        cells = set(x.cell for x in vals if isinstance(x, Arr))
        n = g.mk('lookup', (key,) + tuple(nodes), tuple(str(k) for k in d), list(shapes)[0])
        a = I.new_arr(n, I.join_dt(*[I.dt(x) for x in vals]), label='shared table entry')
        I.alias[a.cell] = set(cells)
        if I.birth.get(v.id) == 'import':
            I.alias[a.cell] |= cells
        return a
    return I.opaque('dict[]', v, idx)


# ---------------------------------------------------------------- attributes of values
def _m(name):
    """method that forwards to the numpy function of the same name"""
    return Builtin('ndarray.' + name, None)


METHODS = {'sum', 'mean', 'max', 'min', 'prod', 'any', 'all', 'cumsum', 'cumprod', 'std', 'var', 'argmax', 'argmin', 'ptp',
           'dot', 'ravel', 'reshape', 'squeeze', 'transpose', 'swapaxes', 'copy', 'clip', 'round', 'take',
           'repeat', 'conj', 'trace', 'nonzero'}
MUTATORS = {'fill', 'sort', 'put', 'resize', 'itemset', 'partition', 'setflags', 'setfield', 'byteswap'}


def value_attr(I, v, name):
    if isinstance(v, (int, float, bool)) and not isinstance(v, str):
        if name in ('real', 'is_integer', 'conjugate', 'imag'):
            return v
        I.raise_('AttributeError', "number has no attribute '%s'" % name)
    if isinstance(v, Arr):
        n = I.node(v)
        if v.py and name not in ('real', 'imag', 'conjugate', 'is_integer'):
            I.raise_('AttributeError', "number has no attribute '%s'" % name)
        if name == 'T':
            return FUNCS['transpose'](I, [v], {})
        if name == 'shape':
            return I.opaque('shape', v) if n.shape is None else tuple(dim_value(I, d) for d in n.shape)
        if name == 'ndim':
            return I.opaque('ndim', v) if n.shape is None else len(n.shape)
        if name == 'size':
            return I.opaque('size', v) if n.shape is None else dim_value(I, g.shape_size(n.shape))
        if name == 'dtype':
            return ExtObj('dtype', dt=v.dt)
        if name in ('real', 'base'):
            return v
        if name == 'flat':
            return FUNCS['ravel'](I, [v], {})
        if name == 'tolist':
            return Builtin('tolist', lambda I, a, k: I.new_arr(I.node(v), v.dt) if n.shape != () else I.new_arr(n, v.dt, py=True))
        if name == 'item':
            return Builtin('item', lambda I, a, k: arr_item(I, v, a))
        if name == 'flatten':
            return Builtin('flatten', lambda I, a, k: I.new_arr(I.node(_reshape(I, v, -1)), v.dt))
        if name == 'astype':
            return Builtin('astype', lambda I, a, k: cast(I, v if k.get('copy') is False else I.new_arr(I.node(v), v.dt), a[0] if a else k.get('dtype')))
        if name == 'view':
            return Builtin('view', lambda I, a, k: Arr(v.cell, v.views, v.dt))
        if name == 'reshape':
            return Builtin('reshape', lambda I, a, k: FUNCS['reshape'](I, [v, a[0] if len(a) == 1 else tuple(a)] if a else [v, k.get('shape')], {}))
        if name == 'transpose':
            return Builtin('transpose', lambda I, a, k: FUNCS['transpose'](I, [v] + ([] if not a else [a[0] if len(a) == 1 else tuple(a)]), {}))
        if name in MUTATORS:
            def mut(I, a, k):
                nn, dt = lift(I, a[0]) if a and is_arrlike(a[0]) else (None, v.dt)
                I.store_effect(v, '.%s()' % name, dt)
                if name == 'fill' and n.shape is not None:
                    I.put_view(v, g.bcast(nn, n.shape))
                elif name == 'sort' and n.shape is not None:
                    I.put_view(v, I.node(FUNCS['sort'](I, [v] + a, k)))
                return None
            return Builtin(name, mut)
        if name in METHODS:
            return Builtin(name, lambda I, a, k: FUNCS[name](I, [v] + a, k))
        if name == '__getitem__':
            return Builtin(name, lambda I, a, k: arr_getitem(I, v, a[0]))
        if name == '__len__':
            return Builtin(name, lambda I, a, k: builtin_len(I, v))
        if name in ('__array__', '__array_interface__', 'flags', 'strides', 'nbytes', 'itemsize', 'data', 'tobytes', 'dumps', 'ctypes'):
            return I.opaque('arr.' + name, v)
        if name.startswith('__') and name.endswith('__'):
            b = {v_: k for k, v_ in DUNDER.items()}.get(name.strip('_'))
            if b:
                return Builtin(name, lambda I, a, k: I.binop(b, v, a[0]))
            if name == '__eq__':
                return Builtin(name, lambda I, a, k: compare(I, 'Eq', v, a[0]))
        I.raise_('AttributeError', "array has no attribute '%s'" % name)
    if isinstance(v, str):
        return str_method(I, v, name)
    if isinstance(v, PyList):
        return list_method(I, v, name)
    if isinstance(v, PyDict):
        return dict_method(I, v, name)
    if isinstance(v, NTuple):
        if name == '_asdict':
            return Builtin(name, lambda I, a, k: I.new_dict(dict(zip(v.fields, v))))
        if name == '_replace':
            return Builtin(name, lambda I, a, k: NTuple.make(v.tname, v.fields, [k.get(f, x) for f, x in zip(v.fields, v)]))
        if name == '_fields':
            return v.fields
    if isinstance(v, tuple):
        if name in ('index', 'count'):
            return Builtin(name, lambda I, a, k: I.opaque('tuple.' + name, v))
        I.raise_('AttributeError', "tuple has no attribute '%s'" % name)
    if isinstance(v, NTGlobals):
        return Builtin('globals.' + name, lambda I, a, k: globals_method(I, v, name, a))
    if isinstance(v, ExtObj):
        return extobj_attr(I, v, name)
    if isinstance(v, BuiltinType):
        if v.name == 'dict' and name == 'fromkeys':
            return Builtin(name, lambda I, a, k: I.new_dict({I.key(x): (a[1] if len(a) > 1 else None) for x in I.to_list(a[0])}))
        if v.name == 'object':
            return Builtin('object.' + name, lambda I, a, k: I.object_method(name, a[0], a[1:], k))
        if name == '__name__':
            return v.name
        if v.name == 'str':
            return Builtin('str.' + name, lambda I, a, k: I.call(str_method(I, a[0], name), a[1:], k) if isinstance(a[0], str) else I.opaque('str'))
        return I.opaque('type.' + name)
    if v is None or isinstance(v, (ExcVal, NTClass)):
        if isinstance(v, ExcVal) and name == 'args':
            return v.args
        if isinstance(v, NTClass) and name == '_fields':
            return tuple(v.fields)
        if isinstance(v, NTClass) and name == '__doc__':
            return None
        I.raise_('AttributeError', "no attribute '%s'" % name)
    if isinstance(v, SymIter):
        return I.opaque('iter.' + name)
    I.raise_('AttributeError', "no attribute '%s'" % name)


def globals_method(I, v, name, a):
    d = I.st.heap[v.module.env]
    if name == 'get':
        return d.get(a[0], a[1] if len(a) > 1 else None) if isinstance(a[0], str) else I.opaque('globals')
    if name == 'setdefault':
        if a[0] not in d:
            I.effect('global', name='%s.%s' % (v.module.name, a[0]), value=a[1] if len(a) > 1 else None)
            I.env_set(v.module.env, a[0], a[1] if len(a) > 1 else None)
        return I.st.heap[v.module.env].get(a[0])
    if name == 'update':
        I.effect('global', name=v.module.name, value=None)
        return None
    if name == 'copy':
        return I.new_dict(dict(d))
    return I.opaque('globals.' + name)


def arr_item(I, v, a):
    n = I.node(v)
    if not a:
        if n.shape is not None and all(d == 1 for d in n.shape):
            return I.new_arr(g.axes(n, ()), v.dt)
        if n.shape is not None:
            I.raise_('ValueError', 'can only convert an array of size 1')
        return I.opaque('item', v)
    return arr_getitem(I, v, tuple(a) if len(a) > 1 else a[0])


def str_method(I, s, name):
    if not hasattr('', name):
        I.raise_('AttributeError', name)

    def impl(I, a, k):
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'split', 'partition',
                    'rpartition', 'title', 'capitalize', 'casefold', 'splitlines', 'isdigit', 'isalpha', 'find', 'count', 'index',
                    'swapcase', 'rsplit', 'isupper', 'islower', 'zfill', 'isalnum', 'removeprefix', 'removesuffix', 'translate'):
            if all(isinstance(x, (str, int, type(None))) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a) and not k:
                try:
                    r = getattr(s, name)(*a)
                except Exception:
                    I.raise_('ValueError', name)
                if isinstance(r, list):
                    return I.new_list(r)
                return r
            return I.opaque('str.' + name, list(a))
        if name == 'join':
            items = I.to_list(a[0])
            if items is not None and all(isinstance(x, str) for x in items):
                return s.join(items)
            return I.opaque('str', a[0])
        if name == 'format':
            if all(isinstance(x, (str, int)) for x in list(a) + list(k.values())):
                try:
                    return s.format(*a, **k)
                except Exception:
                    I.raise_('KeyError')
            o = I.opaque('str', list(a), list(k.values()))
            o.tag = 'str:' + s
            return o
        return I.opaque('str.' + name)
    return Builtin('str.' + name, impl)


def list_method(I, v, name):
    def impl(I, a, k):
        c = I.st.heap[v.id]
        if name in ('append', 'add'):
            I.mutate(v, '.%s()' % name)
            I.st.heap[v.id] = c + (a[0],)
            return None
        if name in ('extend', 'update'):
            I.mutate(v, '.%s()' % name)
            if isinstance(a[0], PyList):
                I.st.heap[v.id] = c + I.st.heap[a[0].id]
            else:
                items = I.to_list(a[0])
                I.st.heap[v.id] = c + (tuple(items) if items is not None else (Rep(('?', '?'), I.opaque('iter', a[0])),))
            return None
        if name == 'insert':
            I.mutate(v, '.insert()')
            cc = list(c)
            cc.insert(a[0] if isinstance(a[0], int) else 0, a[1])
            I.st.heap[v.id] = tuple(cc)
            return None
        if name in ('pop', 'remove', 'clear', 'sort', 'reverse', 'discard'):
            I.mutate(v, '.%s()' % name)
            cc = list(c)
            r = None
            if name == 'pop' and not any(isinstance(x, Rep) for x in c):
                if not cc:
                    I.raise_('IndexError', 'pop')
                r = cc.pop(*[x for x in a if isinstance(x, int)])
            elif name == 'clear':
                cc = []
            elif name == 'reverse' and not any(isinstance(x, Rep) for x in c):
                cc.reverse()
            else:
                r = I.opaque('list.' + name, v)
            I.st.heap[v.id] = tuple(cc)
            return r
        if name == 'copy':
            return I.new_list(c, v.kind)
        if name == '__len__':
            return builtin_len(I, v)
        if name == 'tolist':
            I.raise_('AttributeError', 'tolist')
        return I.opaque('list.' + name, v, list(a))
    if name in ('append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'discard', 'copy',
                'index', 'count', 'union', 'intersection', 'difference', 'issubset', 'issuperset', '__len__', '__iter__',
                '__contains__', '__getitem__', 'isdisjoint', 'symmetric_difference', 'send', 'close', '__next__'):
        return Builtin('list.' + name, impl)
    I.raise_('AttributeError', "'list' object has no attribute '%s'" % name)


def dict_method(I, v, name):
    def impl(I, a, k):
        d = I.st.heap[v.id]
        if name == 'get':
            kk = I.key(a[0])
            if kk in d:
                return d[kk]
            if isinstance(a[0], (Arr, Opaque)) and not (isinstance(a[0], Arr) and g.cval(I.node(a[0])) is not None):
                if isinstance(kk, tuple) and d and not any(isinstance(q, tuple) for q in d):
                    r = I.opaque('dict.get', v, a[0])
                    return r
            return a[1] if len(a) > 1 else k.get('default')
        if name in ('keys', '__iter__'):
            return I.new_list([unkey(q) for q in d])
        if name == 'values':
            return I.new_list(list(d.values()))
        if name == 'items':
            return I.new_list([(unkey(q), x) for q, x in d.items()])
        if name == 'copy':
            return I.new_dict(d)
        if name == 'pop':
            kk = I.key(a[0])
            I.mutate(v, '.pop()')
            if kk in d:
                I.st.heap[v.id] = {q: x for q, x in d.items() if q != kk}
                return d[kk]
            if len(a) > 1:
                return a[1]
            I.raise_('KeyError', str(kk))
        if name == 'update':
            I.mutate(v, '.update()')
            nd = dict(d)
            for x in a:
                if isinstance(x, PyDict):
                    nd.update(I.st.heap[x.id])
                else:
                    items = I.to_list(x)
                    for it in items or []:
                        kv = I.to_list(it)
                        nd[I.key(kv[0])] = kv[1]
            nd.update(k)
            I.st.heap[v.id] = nd
            return None
        if name == 'setdefault':
            kk = I.key(a[0])
            if kk not in d:
                I.mutate(v, '.setdefault()')
                I.st.heap[v.id] = dict(d)
                I.st.heap[v.id][kk] = a[1] if len(a) > 1 else None
            return I.st.heap[v.id][kk]
        if name in ('clear', 'popitem'):
            I.mutate(v, '.%s()' % name)
            I.st.heap[v.id] = {} if name == 'clear' else d
            return I.opaque('dict.' + name)
        if name == '__contains__':
            return I.contains(v, a[0])
        return I.opaque('dict.' + name, v)
    if name in ('get', 'keys', 'values', 'items', 'copy', 'pop', 'update', 'setdefault', 'clear', 'popitem', '__contains__',
                '__iter__', '__getitem__', '__len__'):
        return Builtin('dict.' + name, impl)
    I.raise_('AttributeError', "'dict' object has no attribute '%s'" % name)


def unkey(q):
    return q


# ---------------------------------------------------------------- external modules
EXT_CONST = {'numpy.pi': PI, 'numpy.nan': float('nan'), 'numpy.NaN': float('nan'), 'numpy.NAN': float('nan'),
             'numpy.inf': float('inf'), 'numpy.Inf': float('inf'), 'numpy.newaxis': None, 'numpy.e': 2.718281828459045,
             'math.pi': PI, 'math.e': 2.718281828459045, 'math.inf': float('inf'), 'math.nan': float('nan'), 'math.tau': 2 * PI,
             'numpy.False_': False, 'numpy.True_': True, 'sys.float_info.epsilon': 2.220446049250313e-16,
             'sys.float_info.min': 2.2250738585072014e-308}


def ext_attr(I, ref, name):
    path = ref.path + '.' + name
    if path in EXT_CONST:
        return EXT_CONST[path]
    if path in ('inspect.isclass',):
        return Builtin('isclass', lambda I, a, k: isinstance(a[0], (ClassVal, NTClass)))
    if path == 'inspect.isfunction':
        return Builtin('isfunction', lambda I, a, k: isinstance(a[0], (Func, Deprecated)))
    return ExtRef(path)


def ext_getitem(I, ref, idx):
    if ref.path == 'numpy.r_' or ref.path == 'numpy.c_':
        items = idx if isinstance(idx, tuple) else (idx,)
        if all(not isinstance(x, (slice, str)) for x in items):
            if ref.path == 'numpy.r_':
                parts = []
                for x in items:
                    n, d = lift(I, x)
                    if n.shape is None:
                        return opq(I, 'r_', list(items))
                    parts.append(n if n.shape else g.axes(n, (None,)))
                return I.new_arr(g.concat(parts, 0), 'f')
            return FUNCS['column_stack'](I, [tuple(items)], {})
    if ref.path.startswith('os.environ'):
        I.effect('impure', path='os.environ')
    return I.opaque('ext[]:' + ref.path)


PURE_PREFIX = ('textwrap.', 'inspect.', 'operator.', 'itertools.', 'collections.', 'functools.', 'typing.', 'abc.', 'numbers.',
               'enum.', 'types.', 're.', 'string.', 'contextlib.', 'copy.', 'math.')
IMPURE_PREFIX = ('random.', 'numpy.random', 'time.', 'datetime.', 'os.', 'sys.', 'io.', 'shutil.', 'subprocess.', 'socket.', 'tempfile.',
                 'threading.', 'logging.', 'pathlib.', 'pickle.', 'urllib.', 'uuid.', 'secrets.', 'glob.', 'atexit.', 'gc.', 'locale.',
                 'signal.', 'multiprocessing.', 'numpy.save', 'numpy.load', 'numpy.seterr', 'numpy.set_print', 'json.dump', 'builtins.',
                 'weakref.', 'scipy.random', 'warnings.simplefilter', 'warnings.filterwarnings', 'warnings.resetwarnings')


def ext_call(I, path, args, kwds):
    last = path.split('.')[-1]
    if path == 'warnings.warn':
        cat = kwds.get('category', args[1] if len(args) > 1 else None)
        cname = cat.name if isinstance(cat, ExcClass) else (cat.path.split('.')[-1] if isinstance(cat, ExtRef) else 'UserWarning')
        msg = args[0] if args else kwds.get('message')
        if isinstance(msg, ExcVal):
            cname = msg.name
            msg = msg.args[0] if msg.args else None
        I.effect('warn', category=cname, via='warnings.warn',
                 message=msg if isinstance(msg, str) else (msg.tag if isinstance(msg, Opaque) else None))
        return None
    if path == 'functools.partial':
        return Partial(args[0], args[1:], kwds)
    if path in ('functools.wraps', 'functools.update_wrapper'):
        return Builtin('wraps', lambda I, a, k: a[0])
    if path in ('functools.lru_cache', 'functools.cache', 'functools.cached_property'):
        kind = last
        if args and isinstance(args[0], (Func, Deprecated, Bound, Builtin, ExtRef)):
            if kind == 'cached_property':
                return Property(Memo(args[0], kind))
            return Memo(args[0], kind)
        return Builtin(kind, lambda I, a, k: Memo(a[0], kind))
    if path == 'functools.reduce':
        items = I.to_list(args[1])
        if items is not None:
            acc = args[2] if len(args) > 2 else items.pop(0)
            for x in items:
                acc = I.call(args[0], [acc, x], {})
            return acc
    if path in ('collections.namedtuple', 'typing.NamedTuple'):
        f = args[1]
        if isinstance(f, str):
            fields = f.replace(',', ' ').split()
        else:
            fields = [x if isinstance(x, str) else x[0] for x in I.to_list(f)]
        return NTClass(args[0], fields)
    if path in ('collections.OrderedDict', 'collections.defaultdict', 'types.MappingProxyType', 'collections.Counter', 'weakref.WeakKeyDictionary', 'weakref.WeakValueDictionary'):
        if path.startswith('weakref'):
            return I.new_dict({})
        src = args[0] if args and isinstance(args[0], (PyDict, PyList, tuple)) else None
        r = call_type(I, 'dict', [src] if src is not None else [], kwds)
        return r
    if path in ('copy.copy', 'copy.deepcopy'):
        return deep_copy(I, args[0], path.endswith('deepcopy'))
    if path.startswith('operator.'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div', 'mod': 'Mod', 'pow': 'Pow', 'matmul': 'MatMult', 'and_': 'BitAnd', 'or_': 'BitOr'}.get(last)
        if op:
            return I.binop(op, args[0], args[1])
        cmp_ = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE'}.get(last)
        if cmp_:
            return I.compare(cmp_, args[0], args[1])
        if last == 'neg':
            return I.unary('USub', args[0])
        if last == 'itemgetter':
            keys = list(args)
            return Builtin('itemgetter', lambda I, a, k: I.getitem(a[0], keys[0]) if len(keys) == 1 else tuple(I.getitem(a[0], q) for q in keys))
        if last == 'attrgetter':
            names = list(args)

            def getter(I, a, k):
                out = []
                for nm in names:
                    v = a[0]
                    for part in nm.split('.'):
                        v = I.getattr(v, part)
                    out.append(v)
                return out[0] if len(out) == 1 else tuple(out)
            return Builtin('attrgetter', getter)
        if last == 'methodcaller':
            return Builtin('methodcaller', lambda I, a, k: I.call(I.getattr(a[0], args[0]), args[1:], kwds))
    if path == 'itertools.chain':
        out = []
        for a in args:
            items = I.to_list(a)
            if items is None:
                return I.opaque('chain', list(args))
            out.extend(items)
        return I.new_list(out)
    if path in ('itertools.starmap',):
        items, sym = I.iterate(args[1])
        if items is not None:
            return I.new_list([I.call(args[0], I.to_list(x), {}) for x in items])
        if sym is not None:
            return SymIter(sym.dim, lambda loop: I.call(args[0], I.to_list(sym.elemfn(loop)), {}))
    if path == 'itertools.repeat':
        v = args[0]
        if len(args) > 1 and isinstance(args[1], int):
            return I.new_list([v] * args[1])
        return ExtObj('repeat', v=v)
    if path.startswith(('numpy.', 'math.')):
        short = path.split('.', 1)[1]
        if short.startswith('core.') or short.startswith('lib.'):
            short = short.split('.')[-1]
        if short in FUNCS:
            if path.startswith('math.') and short in ('sqrt', 'sin', 'cos', 'atan2', 'hypot', 'radians', 'degrees', 'atan', 'asin', 'acos', 'fabs', 'floor', 'tan'):
                for a in args:
                    if isinstance(a, Arr):
                        n = I.node(a)
                        if n.shape and g.shape_size(n.shape) != 1:
                            I.raise_('TypeError', 'only size-1 arrays can be converted to python scalars')
                args = [I.new_arr(g.axes(I.node(a), ()), a.dt) if isinstance(a, Arr) and I.node(a).shape else a for a in args]
            return FUNCS[short](I, args, kwds)
        if short in ('float64', 'float_', 'double', 'float32', 'longdouble', 'single', 'float16', 'half'):
            r = as_array(I, args[0])
            if short in NARROW:
                return cast(I, r, ExtRef(path))
            return I.new_arr(I.node(r), 'f')
        if short in ('int64', 'int_', 'int32', 'intp'):
            r = as_array(I, args[0])
            return cast(I, r, BuiltinType('int'))
        if short in ('bool_',):
            return I.new_arr(I.node(as_array(I, args[0])), 'b')
        if short == 'dtype':
            return ExtObj('dtype', dt=dtype_kind(I, args[0]))
        if short in ('ndenumerate', 'nditer', 'ndindex'):
            I.gap(path)
            return I.opaque(path, list(args))
        if short == 'linalg.multi_dot':
            items = I.to_list(args[0])
            acc = items[0]
            for x in items[1:]:
                acc = FUNCS['dot'](I, [acc, x], {})
            return acc
        if short == 'isin':
            return opq(I, 'isin', list(args))
    if path in ('scipy.interpolate.interp1d',):
        return ExtObj('interp1d', args=tuple(args), kwds=dict(kwds))
    if path in ('scipy.signal.savgol_filter',):
        return savgol(I, args, kwds)
    if path.startswith('geographiclib') and last == 'Geodesic':
        return ExtObj('geodesic', a=args[0] if args else kwds.get('a'), f=args[1] if len(args) > 1 else kwds.get('f'))
    if path.startswith('geographiclib') and last in ('Inverse', 'Direct') and 'WGS84' in path:
        return geodesic_call(I, ExtObj('geodesic', a=6378137.0, f=1 / 298.257223563), last, args, kwds)
    if path.startswith('geographiclib'):
        I.gap('ext call ' + path)
        return I.opaque('ext:' + path, list(args), list(kwds.values()))
    if path.startswith('inspect.') or path.startswith('textwrap.') or path.startswith('re.'):
        if path == 'textwrap.dedent' and args and isinstance(args[0], str):
            import textwrap
            return textwrap.dedent(args[0])
        if path == 'textwrap.indent' and all(isinstance(a, str) for a in args):
            import textwrap
            return textwrap.indent(*args)
        return I.opaque('ext:' + path, list(args))
    if path.startswith('contextlib.'):
        return Builtin('ctx', lambda I, a, k: a[0]) if not args else args[0]
    if any(path.startswith(p) for p in IMPURE_PREFIX):
        I.effect('impure', path=path)
        return I.opaque('impure:' + path, list(args), list(kwds.values()))
    if not any(path.startswith(p) for p in PURE_PREFIX) and not path.startswith(('numpy.', 'scipy.', 'math.')):
        I.effect('extcall', path=path)
    I.gap('ext call ' + path)
    return I.opaque('ext:' + path, list(args), list(kwds.values()))


def deep_copy(I, v, deep, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, Arr):
        return I.new_arr(I.node(v), v.dt)
    if isinstance(v, PyList):
        return I.new_list([deep_copy(I, x, deep) if deep and not isinstance(x, Rep) else x for x in I.st.heap[v.id]], v.kind)
    if isinstance(v, PyDict):
        return I.new_dict({k: deep_copy(I, x, deep) if deep else x for k, x in I.st.heap[v.id].items()})
    if isinstance(v, Inst):
        if v.id in memo:
            return memo[v.id]
        i = I.new_id('copy')
        new = Inst(i, v.cls)
        memo[v.id] = new
        I.st.heap[i] = {k: deep_copy(I, x, deep, memo) if deep else x for k, x in I.st.heap[v.id].items()}
        return new
    if isinstance(v, tuple) and deep:
        vals = [deep_copy(I, x, deep, memo) for x in v]
        return NTuple.make(v.tname, v.fields, vals) if isinstance(v, NTuple) else tuple(vals)
    return v


def savgol(I, args, kwds):
    names = ['x', 'window_length', 'polyorder', 'deriv', 'delta', 'axis', 'mode', 'cval']
    vals = dict(zip(names, args))
    vals.update(kwds)
    n, dt = lift(I, vals['x'])
    ax = vals.get('axis', -1)
    opts = []
    for k in ('window_length', 'polyorder', 'mode', 'cval'):
        v = vals.get(k, {'mode': 'interp', 'cval': 0.0}.get(k))
        opts.append(I.node(v))
    extra = tuple(sorted((k, str(vals[k])) for k in vals if k in ('deriv', 'delta') and vals[k] != {'deriv': 0, 'delta': 1.0}[k]))
    if n.shape is None or not isinstance(ax, int):
        return opq(I, 'savgol', list(vals.values()))
    return I.new_arr(g.mk('savgol', (n,) + tuple(opts), (ax % len(n.shape), extra), n.shape), 'f')


def call_extobj(I, o, args, kwds):
    if o.kind == 'interp1d':
        names = ['x', 'y', 'kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted']
        vals = dict(zip(names, o.info['args']))
        vals.update(o.info['kwds'])
        x, _ = lift(I, vals['x'])
        y, _ = lift(I, vals['y'])
        q, _ = lift(I, args[0])
        ax = vals.get('axis', -1)
        kind = vals.get('kind', 'linear')
        if isinstance(kind, (int, str)) and not isinstance(kind, bool):      # names of the same splines
            kind = {0: 'zero', 1: 'linear', 'slinear': 'linear', 2: 'quadratic', 3: 'cubic'}.get(kind, kind)
        fill = vals.get('fill_value', float('nan'))
        if y.shape is None or q.shape is None or not isinstance(ax, int):
            return opq(I, 'interp1d', vals['x'], vals['y'], args[0], kind)
        ax = ax % len(y.shape)
        shape = y.shape[:ax] + q.shape + y.shape[ax + 1:]
        be = vals.get('bounds_error')
        attr = (ax, 'bounds_error=%s' % be, 'fill=%s' % (fill if isinstance(fill, (str, float, int)) else 'x'))
        if vals.get('assume_sorted'):
            attr += ('assume_sorted',)
        if isinstance(fill, float) and fill != fill and be is False:
            attr = (ax, 'bounds_error=False', 'fill=nan') + attr[3:]
        return I.new_arr(g.mk('interp1d', (x, y, q, I.node(kind)), attr, shape), 'f')
    if o.kind == 'vectorize':
        return vectorized(I, o.info['f'], args, kwds)
    if o.kind == 'geomethod':
        return geodesic_call(I, o.info['geo'], o.info['name'], args, kwds)
    return I.opaque('call:' + o.kind, o, list(args))


def vectorized(I, f, args, kwds):
    arrs = [as_array(I, a) for a in args]
    nodes = [I.node(a) for a in arrs]
    if any(n.shape is None for n in nodes):
        return opq(I, 'vectorize', list(args))
    shape = g.broadcast(*[n.shape for n in nodes])
    if len(shape) == 0:
        return I.call(f, args, kwds)
    if len(shape) > 1:
        return opq(I, 'vectorize', list(args))
    I.loopn += 1
    loop = ('L%d' % I.loopn, shape[0])
    if isinstance(shape[0], int):
        els = [I.new_arr(g.axes(n, ()) if n.shape else n, a.dt) for a, n in zip(arrs, nodes)]
        r = I.call(f, els, kwds)
        return _wrap_vec(I, r, lambda n: g.axes(n, (None,)))
    els = [I.new_arr(g.elem(g.bcast(n, shape), loop), a.dt) for a, n in zip(arrs, nodes)]
    r = I.call(f, els, kwds)
    return _wrap_vec(I, r, lambda n: g.collect(n, loop))


def _wrap_vec(I, r, w):
    if isinstance(r, tuple):
        return tuple(_wrap_vec(I, x, w) for x in r)
    n, d = lift(I, r)
    if n.shape is None:
        return opq(I, 'vectorize', r)
    return I.new_arr(w(n), d)


def extobj_attr(I, o, name):
    if o.kind == 'finfo':
        return {'eps': 2.220446049250313e-16, 'tiny': 2.2250738585072014e-308, 'max': 1.7976931348623157e308,
                'smallest_normal': 2.2250738585072014e-308, 'resolution': 1e-15}.get(name, Opaque('finfo'))
    if o.kind == 'geodesic':
        if name in ('Inverse', 'Direct'):
            return ExtObj('geomethod', geo=o, name=name)
        if name in ('a', 'f'):
            return o.info[name]
        if name in ('STANDARD', 'LONG_UNROLL', 'ALL', 'DISTANCE', 'AZIMUTH', 'LATITUDE', 'LONGITUDE'):
            return ExtRef('geographiclib.geodesic.Geodesic.' + name)
        I.gap('geodesic method ' + name)
        return I.opaque('geodesic.' + name, o)
    if o.kind == 'dtype':
        if name in ('kind', 'char', 'name') and o.info['dt'] in 'fib':
            return {'kind': {'f': 'f', 'i': 'i', 'b': 'b'}, 'char': {'f': 'd', 'i': 'l', 'b': '?'},
                    'name': {'f': 'float64', 'i': 'int64', 'b': 'bool'}}[name][o.info['dt']]
        if name == 'kind':
            return 'f'
        if name == 'type':
            return BuiltinType({'f': 'float', 'i': 'int', 'b': 'bool'}.get(o.info['dt'], 'float'))
        return I.opaque('dtype.' + name)
    if o.kind == 'broadcast':
        shape = o.info['shape']
        if name == 'shape':
            return tuple(dim_value(I, d) for d in shape)
        if name in ('ndim', 'nd'):
            return len(shape)
        if name == 'size':
            return dim_value(I, g.shape_size(shape))
    if o.kind == 'vectorize':
        return I.opaque('vectorize.' + name)
    if o.kind == 'interp1d':
        return I.opaque('interp1d.' + name, o)
    if o.kind == 'geores':
        if name == 'get':
            return Builtin('get', lambda I, a, k: extobj_getitem(I, o, a[0]))
        if name in ('keys', 'items', 'values'):
            return Builtin(name, lambda I, a, k: I.opaque('geores.' + name, o))
    return I.opaque('%s.%s' % (o.kind, name), o)


def geodesic_call(I, geo, name, args, kwds):
    names = {'Inverse': ['lat1', 'lon1', 'lat2', 'lon2', 'outmask'], 'Direct': ['lat1', 'lon1', 'azi1', 's12', 'outmask']}[name]
    vals = dict(zip(names, args))
    vals.update(kwds)
    mask = vals.pop('outmask', None)
    fl = ext_flags(mask) if mask is not None else frozenset(['STANDARD'])
    if fl is None and isinstance(mask, Choice):
        fl = frozenset(['choice'])
    nodes = []
    for v in [geo.info['a'], geo.info['f']] + [vals.get(k) for k in names[:4]]:
        n, _ = lift(I, v)
        nodes.append(n)
    return ExtObj('geores', name=name, nodes=tuple(nodes), mask=tuple(sorted(fl)) if fl is not None else ('?',),
                  dep=tuple(I.deps_nodes(mask)))


def extobj_getitem(I, o, idx):
    if o.kind == 'geores' and isinstance(idx, str):
        if any(n.shape is None for n in o.info['nodes']):
            return I.new_arr(g.mk('opaque', o.info['nodes'], 'geodesic', None), 'f')
        return I.new_arr(g.fn('ext', *o.info['nodes'], attr=(o.info['name'], idx, o.info['mask'])), 'f')
    if o.kind == 'range' and isinstance(idx, int) and o.info.get('items') is not None:
        return list(o.info['items'])[idx]
    return I.opaque('item:' + o.kind, o)


# ---------------------------------------------------------------- builtins
def builtin_len(I, v):
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, PyList):
        c = I.st.heap[v.id]
        if any(isinstance(x, Rep) for x in c):
            if len(c) == 1:
                return dim_value(I, c[0].loop[1])
            return I.opaque('len', v)
        return len(c)
    if isinstance(v, PyDict):
        return len(I.st.heap[v.id])
    if isinstance(v, Arr):
        n = I.node(v)
        if n.shape is None:
            return I.opaque('len', v)
        if not n.shape:
            I.raise_('TypeError', 'len() of unsized object')
        return dim_value(I, n.shape[0])
    if isinstance(v, Inst):
        m, _ = v.cls.lookup('__len__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
        I.raise_('TypeError', 'object has no len()')
    if isinstance(v, (int, float)) or v is None:
        I.raise_('TypeError', 'object has no len()')
    return I.opaque('len', v)


def b_range(I, a, k):
    if all(isinstance(x, int) for x in a):
        return ExtObj('range', items=list(range(*a)))
    if len(a) == 1:
        d = to_dim(I, a[0])
        return SymIter(d, lambda loop: I.new_arr(g.leaf('i:%s' % loop[0]), 'i', py=True))
    if len(a) == 2 and a[0] == 0:
        d = to_dim(I, a[1])
        return SymIter(d, lambda loop: I.new_arr(g.leaf('i:%s' % loop[0]), 'i', py=True))
    return I.opaque('range', list(a))


def b_zip(I, a, k):
    seqs = [I.iterate(x) if not (isinstance(x, ExtObj) and x.kind == 'repeat') else ('repeat', x) for x in a]
    conc = [s for s in seqs if s[0] != 'repeat']
    if all(s[0] is not None for s in conc):
        n = min(len(s[0]) for s in conc) if conc else 0
        cols = [s[0][:n] if s[0] != 'repeat' else [s[1].info['v']] * n for s in seqs]
        return I.new_list([tuple(c) for c in zip(*cols)])
    # zip(*list of generic entries) transposes
    if len(a) == 1 and seqs[0][0] is None and seqs[0][1] is None:
        return I.opaque('zip', list(a))
    dims = [s[1].dim for s in conc if s[0] is None and s[1] is not None]
    if any(s[0] is None and s[1] is None for s in conc):
        return I.opaque('zip', list(a))
    if any(s[0] is not None for s in conc):
        lens = [len(s[0]) for s in conc if s[0] is not None]
        if min(lens) <= 1:
            return I.new_list([tuple(I.opaque('zip', x) for x in a)] * min(lens))
        return I.opaque('zip', list(a))
    d = dims[0]
    if any(x != d for x in dims):
        return I.opaque('zip', list(a))
    return SymIter(d, lambda loop: tuple(s[1].elemfn(loop) if s[0] != 'repeat' else s[1].info['v'] for s in seqs))


def b_zip_star(I, items):
    return None


def b_enumerate(I, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    items, sym = I.iterate(a[0])
    if items is not None and isinstance(start, int):
        return I.new_list([(i + start, x) for i, x in enumerate(items)])
    if sym is not None:
        return SymIter(sym.dim, lambda loop: (I.new_arr(g.leaf('i:%s' % loop[0]), 'i', py=True) if start == 0 else I.opaque('enum'), sym.elemfn(loop)))
    return I.opaque('enumerate', a[0])


def b_map(I, a, k):
    if len(a) == 2:
        items, sym = I.iterate(a[1])
        if items is not None:
            return I.new_list([I.call(a[0], [x], {}) for x in items])
        if sym is not None:
            return SymIter(sym.dim, lambda loop: I.call(a[0], [sym.elemfn(loop)], {}))
    else:
        z = b_zip(I, a[1:], {})
        items, sym = I.iterate(z)
        if items is not None:
            return I.new_list([I.call(a[0], list(x), {}) for x in items])
        if sym is not None:
            return SymIter(sym.dim, lambda loop: I.call(a[0], list(sym.elemfn(loop)), {}))
    return I.opaque('map', list(a))


def b_minmax(op):
    def impl(I, a, k):
        if len(a) == 1:
            if isinstance(a[0], Arr):
                n = I.node(a[0])
                if n.shape is not None and len(n.shape) == 1:
                    return FUNCS['max' if op == 'maximum' else 'min'](I, [a[0]], {})
            items = I.to_list(a[0])
        else:
            items = list(a)
        if items is None or k:
            return I.opaque(op, list(a))
        if all(isinstance(x, (int, float, str)) for x in items):
            return max(items) if op == 'maximum' else min(items)
        ns = [lift(I, x) for x in items]
        n = ns[0][0]
        for m, _d in ns[1:]:
            n = g.fn(op, n, m)
        return I.new_arr(n, I.join_dt(*[d for _n, d in ns]))
    return impl


def b_sum(I, a, k):
    items = I.to_list(a[0]) if not isinstance(a[0], Arr) else None
    if isinstance(a[0], Arr):
        n = I.node(a[0])
        if n.shape:
            return FUNCS['sum'](I, [a[0]], {'axis': 0})
    if items is None:
        x = as_array(I, a[0])
        n = I.node(x)
        if n.shape:
            return FUNCS['sum'](I, [x], {'axis': 0})
        return I.opaque('sum', list(a))
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in items:
        acc = I.binop('Add', acc, x)
    return acc


def b_anyall(is_any):
    def impl(I, a, k):
        items = I.to_list(a[0])
        if items is None:
            if isinstance(a[0], (PyList, SymIter)):
                x = as_array(I, a[0])
                n = I.node(x)
                if n.shape is not None:
                    return FUNCS['any' if is_any else 'all'](I, [x], {})
            if isinstance(a[0], Arr):
                return FUNCS['any' if is_any else 'all'](I, [a[0]], {})
            return I.opaque('any', a[0])
        res = not is_any
        acc = None
        for x in items:
            t = I.truth(x)
            if isinstance(t, bool):
                if t == is_any:
                    return is_any
                continue
            acc = t if acc is None else g.fn('or' if is_any else 'and', acc, t)
        return res if acc is None else I.new_arr(acc, 'b')
    return impl


NUMERIC_TYPES = {'numbers.Number', 'numbers.Real', 'numpy.number', 'numpy.floating', 'numpy.generic', 'numpy.float64',
                 'numpy.integer', 'numbers.Integral', 'numpy.int64'}


def b_isinstance(I, a, k):
    v, t = a
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: b_isinstance(I, [x, t], k))
    ts = t if isinstance(t, tuple) else (t,)
    res = False
    for x in ts:
        if isinstance(x, tuple):
            r = b_isinstance(I, [v, x], k)
        else:
            r = isinst1(I, v, x)
        if r is True:
            return True
        if r is None:
            res = None
    if res is None:
        return I.new_arr(g.mk('truth', tuple(I.deps_nodes([v])), 'isinstance' + I.locstr(), ()), 'b')
    return res


def isinst1(I, v, t):
    if isinstance(t, ClassVal):
        return isinstance(v, Inst) and v.cls.subclass_of(t)
    if isinstance(t, NTClass):
        return isinstance(v, NTuple) and v.tname == t.name
    if isinstance(v, Opaque):
        return None
    if isinstance(t, BuiltinType):
        n = t.name
        if n == 'object':
            return True
        if isinstance(v, bool):
            return n in ('bool', 'int')
        if isinstance(v, int):
            return n == 'int'
        if isinstance(v, float):
            return n == 'float'
        if isinstance(v, str):
            return n == 'str'
        if isinstance(v, tuple):
            return n == 'tuple'
        if isinstance(v, PyList):
            return n == v.kind
        if isinstance(v, PyDict):
            return n == 'dict'
        if isinstance(v, Arr):
            nd = I.node(v)
            if nd.op == 'leaf' and nd.attr.startswith('str:'):
                return n == 'str'
            if n in ('float', 'int', 'bool') and nd.shape == ():
                if v.py:
                    return {'f': 'float', 'i': 'int', 'b': 'bool'}.get(v.dt) == n
                return None
            return False
        return False
    if isinstance(t, ExtRef):
        p = t.path
        if p in ('numpy.ndarray',):
            if isinstance(v, Arr):
                nd = I.node(v)
                if v.py:
                    return False
                if nd.shape is None or nd.shape == ():
                    return None
                return True
            return False
        if p in NUMERIC_TYPES:
            if isinstance(v, (int, float)):
                return not p.startswith('numpy')
            if isinstance(v, Arr):
                nd = I.node(v)
                if nd.shape == ():
                    return True if v.py and p.startswith('numbers') else None
                return False
            return False
        if isinstance(v, (Inst, PyDict, PyList, tuple, str)) or v is None:
            if p in ('collections.abc.Mapping', 'collections.Mapping', 'collections.abc.MutableMapping'):
                return isinstance(v, PyDict)
            if p in ('collections.abc.Sequence', 'collections.abc.Iterable'):
                return isinstance(v, (PyList, tuple, str)) or (None if isinstance(v, PyDict) else False)
            return False
        return None
    if isinstance(t, ExcClass):
        return isinstance(v, ExcVal) and _ip.exc_is(v.name, t.name)
    return None


def b_getattr(I, a, k):
    if not isinstance(a[1], str):
        return I.opaque('getattr', a[0])
    if len(a) > 2:
        return I.getattr(a[0], a[1], a[2])
    return I.getattr(a[0], a[1])


def b_hasattr(I, a, k):
    try:
        v = I.getattr(a[0], a[1])
        if isinstance(a[0], Opaque):
            return I.new_arr(g.mk('truth', tuple(I.deps_nodes([a[0]])), 'hasattr' + I.locstr(), ()), 'b')
        return True
    except PyRaise as e:
        if e.exc.name == 'AttributeError':
            return False
        raise


def b_setattr(I, a, k):
    I.setattr(a[0], a[1], a[2])


def b_type(I, a, k):
    if len(a) == 3:
        I.gap('dynamic class')
        return I.opaque('type')
    v = a[0]
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, bool):
        return BuiltinType('bool')
    if isinstance(v, int):
        return BuiltinType('int')
    if isinstance(v, float):
        return BuiltinType('float')
    if isinstance(v, str):
        return BuiltinType('str')
    if isinstance(v, tuple):
        return BuiltinType('tuple')
    if isinstance(v, PyList):
        return BuiltinType(v.kind)
    if isinstance(v, PyDict):
        return BuiltinType('dict')
    if isinstance(v, Arr):
        n = I.node(v)
        if n.shape:
            return ExtRef('numpy.ndarray')
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: b_type(I, [x], k))
    return I.opaque('type', v)


def b_print(I, a, k):
    I.effect('impure', path='print')


def b_open(I, a, k):
    I.effect('impure', path='open')
    return I.opaque('file')


def b_reversed(I, a, k):
    items = I.to_list(a[0])
    if items is None:
        return I.opaque('reversed', a[0])
    return I.new_list(list(reversed(items)))


def b_sorted(I, a, k):
    items = I.to_list(a[0])
    if items is not None and all(isinstance(x, (str,)) for x in items) and not k:
        return I.new_list(sorted(items))
    if items is not None and all(isinstance(x, (int, float)) for x in items) and not k:
        return I.new_list(sorted(items))
    if isinstance(a[0], Arr):
        return FUNCS['sort'](I, [a[0]], {})
    return I.opaque('sorted', a[0])


def b_filter(I, a, k):
    items = I.to_list(a[1])
    if items is None:
        return I.opaque('filter', a[1])
    out = []
    for x in items:
        t = I.truth(x if a[0] is None else I.call(a[0], [x], {}))
        if t is True:
            out.append(x)
        elif t is not False:
            return I.opaque('filter', a[1])
    return I.new_list(out)


def b_next(I, a, k):
    if isinstance(a[0], PyList):
        c = I.st.heap[a[0].id]
        if c and not isinstance(c[0], Rep):
            I.st.heap[a[0].id] = c[1:]
            return c[0]
        if not c:
            if len(a) > 1:
                return a[1]
            I.raise_('StopIteration')
    return I.opaque('next', a[0])


def b_iter(I, a, k):
    items = I.to_list(a[0])
    if items is not None:
        return I.new_list(items, 'gen')
    return a[0]


def b_abs(I, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, Inst):
        m, _ = v.cls.lookup('__abs__')
        if m is not None:
            return I.call(Bound(m, v), [], {})
        I.raise_('TypeError', 'bad operand for abs')
    return FUNCS['abs'](I, [v], {})


def b_pow(I, a, k):
    return I.binop('Pow', a[0], a[1])


def b_round(I, a, k):
    if isinstance(a[0], (int, float)) and all(isinstance(x, int) for x in a[1:]):
        return round(*a)
    return FUNCS['round'](I, a, k)


def b_divmod(I, a, k):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def b_property(I, a, k):
    return Property(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))


def call_type(I, name, a, k):
    v = a[0] if a else None
    if isinstance(v, Choice):
        return I.distribute(v, lambda x: call_type(I, name, [x] + a[1:], k))
    if name in ('float', 'int', 'bool'):
        if not a:
            return {'float': 0.0, 'int': 0, 'bool': False}[name]
        if name == 'bool':
            t = I.truth(v)
            return t if isinstance(t, bool) else I.new_arr(t, 'b')
        if isinstance(v, (int, float, str)):
            try:
                return {'float': float, 'int': int}[name](v)
            except (ValueError, OverflowError):
                I.raise_('ValueError', 'conversion')
        if isinstance(v, Arr):
            n = I.node(v)
            if n.shape is None:
                return I.new_arr(g.mk('opaque', (n,), name, ()), 'f' if name == 'float' else 'i')
            if g.shape_size(n.shape) != 1:
                I.raise_('TypeError', 'only size-1 arrays can be converted to Python scalars')
            n = g.axes(n, ())
            if name == 'int' and v.dt != 'i':
                return I.new_arr(g.fn('trunc', n), 'i', py=True)
            return I.new_arr(n, 'f' if name == 'float' else 'i', py=True)
        if isinstance(v, Inst) or v is None or isinstance(v, (tuple, PyList, PyDict)):
            I.raise_('TypeError', 'cannot convert')
        return I.opaque(name, v)
    if name in ('str', 'repr', 'bytes', 'format'):
        if isinstance(v, str) and name == 'str':
            return v
        return I.opaque('str', *a)
    if name in ('list', 'set', 'frozenset'):
        if not a:
            return I.new_list([], name)
        if isinstance(v, (SymIter,)) or isinstance(v, Arr) or isinstance(v, PyList):
            items, sym = I.iterate(v)
            if items is None and sym is not None:
                I.loopn += 1
                loop = ('L%d' % I.loopn, sym.dim)
                return I.new_list([Rep(loop, sym.elemfn(loop))], name)
        items = I.to_list(v)
        if items is None:
            if isinstance(v, PyList):
                return I.new_list(I.st.heap[v.id], name)
            return I.opaque(name, v)
        return I.new_list(items, name)
    if name == 'tuple':
        if not a:
            return ()
        items = I.to_list(v)
        if items is None:
            if isinstance(v, PyList):
                return v
            items, sym = I.iterate(v)
            if sym is not None:
                I.loopn += 1
                loop = ('L%d' % I.loopn, sym.dim)
                return I.new_list([Rep(loop, sym.elemfn(loop))])
            return I.opaque('tuple', v)
        return tuple(items)
    if name == 'dict':
        d = {}
        if a:
            if isinstance(v, PyDict):
                d.update(I.st.heap[v.id])
            elif isinstance(v, NTGlobals):
                d.update(I.st.heap[v.module.env])
            else:
                items = I.to_list(v)
                if items is None:
                    I.gap('dict()')
                for it in items or []:
                    kv = I.to_list(it)
                    if kv is None or len(kv) != 2:
                        I.gap('dict()')
                        continue
                    d[I.key(kv[0])] = kv[1]
        d.update(k)
        return I.new_dict(d)
    if name == 'object':
        i = I.new_id('object()')
        I.st.heap[i] = {}
        return Inst(i, ClassVal('object', [], {}, None))
    if name == 'slice':
        return slice(*a)
    return I.opaque(name, *a)


BUILTINS = {
    'len': Builtin('len', lambda I, a, k: I.distribute(a[0], lambda x: builtin_len(I, x)) if isinstance(a[0], Choice) else builtin_len(I, a[0])),
    'range': Builtin('range', b_range), 'zip': Builtin('zip', b_zip), 'enumerate': Builtin('enumerate', b_enumerate),
    'map': Builtin('map', b_map), 'filter': Builtin('filter', b_filter), 'max': Builtin('max', b_minmax('maximum')),
    'min': Builtin('min', b_minmax('minimum')), 'sum': Builtin('sum', b_sum), 'any': Builtin('any', b_anyall(True)),
    'all': Builtin('all', b_anyall(False)), 'isinstance': Builtin('isinstance', b_isinstance),
    'issubclass': Builtin('issubclass', lambda I, a, k: a[0].subclass_of(a[1]) if isinstance(a[0], ClassVal) and isinstance(a[1], ClassVal) else I.opaque('issubclass')),
    'getattr': Builtin('getattr', b_getattr), 'hasattr': Builtin('hasattr', b_hasattr), 'setattr': Builtin('setattr', b_setattr),
    'callable': Builtin('callable', lambda I, a, k: isinstance(a[0], (Func, Bound, Builtin, Partial, Deprecated, ClassVal, ExtRef, Memo))),
    'type': Builtin('type', b_type), 'print': Builtin('print', b_print), 'open': Builtin('open', b_open), 'input': Builtin('input', b_open),
    'exec': Builtin('exec', b_open), 'eval': Builtin('eval', b_open), '__import__': Builtin('__import__', b_open),
    'reversed': Builtin('reversed', b_reversed), 'sorted': Builtin('sorted', b_sorted), 'next': Builtin('next', b_next), 'iter': Builtin('iter', b_iter),
    'abs': Builtin('abs', b_abs), 'pow': Builtin('pow', b_pow), 'round': Builtin('round', b_round), 'divmod': Builtin('divmod', b_divmod),
    'property': Builtin('property', b_property), 'staticmethod': Builtin('staticmethod', lambda I, a, k: StaticM(a[0])),
    'classmethod': Builtin('classmethod', lambda I, a, k: ClassM(a[0])),
    'repr': Builtin('repr', lambda I, a, k: I.opaque('str', a[0])), 'hash': Builtin('hash', lambda I, a, k: I.opaque('hash', a[0])),
    'id': Builtin('id', lambda I, a, k: I.opaque('id')), 'format': Builtin('format', lambda I, a, k: I.opaque('str', a[0])),
    'dir': Builtin('dir', lambda I, a, k: I.opaque('dir')), 'vars': Builtin('vars', lambda I, a, k: I.getattr(a[0], '__dict__')),
    'NotImplemented': NOTIMPL, 'Ellipsis': Ellipsis, '__debug__': True,
    'delattr': Builtin('delattr', lambda I, a, k: I.effect('mutate', what='delattr', birth=I.birth.get(a[0].id) if isinstance(a[0], Inst) else None, label=None, obj=a[0])),
}
for _t in ('float', 'int', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'slice', 'complex', 'bytes'):
    BUILTINS[_t] = BuiltinType(_t)
