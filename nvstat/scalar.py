"""Component-wise view of the value graph.

comp(node, idx) gives the scalar expression of one element; extents that are symbolic are
indexed by a generic index variable such as '@n', so that 'column k of the result' is a
term over 'column k of the inputs' and any access to another column is visible as a
different index.
"""
from fractions import Fraction

from . import graph as g
from .graph import POINTWISE

S_TABLE = {}
_N = [0]


class S(object):
    __slots__ = ('id', 'op', 'args', 'attr', 'loc', 'src')

    def __repr__(self):
        return show(self)


def reset():
    S_TABLE.clear()
    _N[0] = 0


def mk(op, args=(), attr=None, src=None):
    args = tuple(args)
    key = (op, tuple(a.id for a in args), attr)
    s = S_TABLE.get(key)
    if s is None:
        s = S()
        _N[0] += 1
        s.id, s.op, s.args, s.attr = _N[0], op, args, attr
        s.loc = src.loc if src is not None else None
        s.src = src
        S_TABLE[key] = s
    return s


def show(s, depth=5):
    if depth < 0:
        return '..'
    if s.op == 'const':
        return str(s.attr)
    if s.op == 'leaf':
        return '%s%s' % (s.attr[0], list(s.attr[1]) if s.attr[1] else '')
    a = [show(x, depth - 1) for x in s.args]
    if s.op == 'add':
        t = [('%s*%s' % (c, x) if c != 1 else x) for c, x in zip(s.attr[1], a)]
        if s.attr[0]:
            t.insert(0, str(s.attr[0]))
        return '(' + ' + '.join(t) + ')'
    if s.op == 'mul':
        t = [('%s^%s' % (x, e) if e != 1 else x) for e, x in zip(s.attr[1], a)]
        if s.attr[0] != 1:
            t.insert(0, str(s.attr[0]))
        return '*'.join(t)
    return '%s%s(%s)' % (s.op, '' if s.attr is None else '{%s}' % (s.attr,), ', '.join(a))


def generic_index(shape):
    """one generic index per axis of symbolic extent; concrete axes are left to the caller (None)"""
    seen = {}
    out = []
    for d in shape:
        if isinstance(d, int):
            out.append(0 if d == 1 else None)
        else:
            k = seen.get(d, 0)
            seen[d] = k + 1
            out.append('@%s' % d if k == 0 else '@%s:%d' % (d, k))
    return out


def components(node):
    """{concrete index tuple: scalar} over the concrete axes of node, generic in the symbolic ones"""
    if node.shape is None:
        return {(): comp(node, None)}
    gi = generic_index(node.shape)
    free = [i for i, x in enumerate(gi) if x is None]
    out = {}

    def rec(k, idx):
        if k == len(free):
            out[tuple(idx[i] for i in free)] = comp(node, tuple(idx))
            return
        for v in range(node.shape[free[k]]):
            rec(k + 1, idx[:free[k]] + [v] + idx[free[k] + 1:])
    rec(0, list(gi))
    return out


def const(v, src=None):
    if isinstance(v, float) and v != v:
        v = 'nan'
    elif isinstance(v, float) and v == int(v) if isinstance(v, float) and abs(v) < 1e15 else False:
        v = int(v)
    return mk('const', (), v if not isinstance(v, bool) else ('b', v), src)


class Expander(object):
    def __init__(self):
        self.memo = {}
        self.bound = 0

    def all_leaves(self, node):
        """dependence on whole arrays (used for constructs without an element-wise meaning)"""
        out = []
        for n in g.walk(node):
            if n.op == 'leaf':
                out.append(mk('leaf', (), (n.attr, tuple('*' for _ in (n.shape or ()))), n))
        return sorted(set(out), key=lambda s: s.id)

    def comp(self, n, idx, env=()):
        key = (n.id, idx, env)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self._comp(n, idx, env)
        return r

    def bidx(self, n, idx, shape):
        """index of an argument of shape n.shape for the element idx of a result of shape `shape`"""
        if n.shape is None:
            return None
        if idx is None:
            return None
        off = len(idx) - len(n.shape)
        return tuple(0 if d == 1 else idx[off + i] for i, d in enumerate(n.shape))

    def opaque(self, n, idx, tag=None):
        args = self.all_leaves(n)
        return mk('opaque', args, (n.op, n.id, idx, tag), n)

    def _comp(self, n, idx, env):
        op = n.op
        if op == 'leaf':
            if n.attr.startswith('i:') and dict(env).get(n.attr[2:]) is not None:
                return mk('index', (), dict(env)[n.attr[2:]], n)
            return mk('leaf', (), (n.attr, tuple(0 if d == 1 else i for i, d in zip(idx or (), n.shape or ()))), n)
        if n.shape is None or idx is None:
            if op == 'opaque' and n.args:
                return mk('opaque', tuple(a for x in n.args for a in self.all_leaves(x)), (n.attr if isinstance(n.attr, str) else str(n.attr), n.id), n)
            return self.opaque(n, idx)
        if op == 'const':
            if n.attr[0] != 'arr':
                return const(g.cval(n), n)
            if all(isinstance(i, int) for i in idx):
                k = 0
                for i, d in zip(idx, n.shape):
                    k = k * d + i
                return const(g.const_flat(n)[k], n)
            return self.opaque(n, idx)
        if op in POINTWISE:
            args = [self.comp(a, self.bidx(a, idx, n.shape), env) for a in n.args]
            if op == 'bcast':
                return args[0]
            return smk(op, args, n.attr, n)
        if op == 'axes':
            inner = [0] * len(n.args[0].shape)
            for i, p in enumerate(n.attr):
                if p is not None:
                    inner[p] = idx[i]
            return self.comp(n.args[0], tuple(inner), env)
        if op == 'index':
            inner = []
            k = 0
            for sp in n.attr:
                if isinstance(sp, int):
                    inner.append(sp)
                else:
                    i = idx[k]
                    k += 1
                    if sp == ':':
                        inner.append(i)
                    else:
                        _s, a, b, c = sp
                        if isinstance(i, int) and isinstance(a, int) and isinstance(c, int):
                            inner.append(a + c * i)
                        else:
                            inner.append(('sl', a, c, i))
            return self.comp(n.args[0], tuple(inner), env)
        if op == 'concat':
            ax = n.attr
            i = idx[ax]
            if isinstance(i, int):
                for a in n.args:
                    d = a.shape[ax]
                    if not isinstance(d, int):
                        break
                    if i < d:
                        return self.comp(a, self.bidx(a, idx[:ax] + (i,) + idx[ax + 1:], n.shape), env)
                    i -= d
            return self.opaque(n, idx)
        if op == 'cross':
            ax = n.attr
            a, b = n.args
            i = idx[ax]
            if isinstance(i, int):
                j, k = (i + 1) % 3, (i + 2) % 3

                def at(x, q):
                    return self.comp(x, self.bidx(x, idx[:ax] + (q,) + idx[ax + 1:], n.shape), env)
                return smk('add', [smk('mul', [at(a, j), at(b, k)], (1, (1, 1)), n),
                                   smk('mul', [at(a, k), at(b, j)], (1, (1, 1)), n)], (0, (1, -1)), n)
            return self.opaque(n, idx)
        if op == 'reduce':
            name, axs = n.attr
            src = n.args[0]
            full = []
            k = 0
            conc, sym = [], []
            for i, d in enumerate(src.shape):
                if i in axs:
                    (conc if isinstance(d, int) else sym).append(i)
                    full.append(None)
                else:
                    full.append(idx[k])
                    k += 1
            if sym:
                for i in sym:
                    full[i] = '#%d' % (sum(1 for x in sym if x < i))
                tagd = tuple(src.shape[i] for i in sym)
            count = 1
            for i in conc:
                count *= src.shape[i]
            if name == 'median' and conc and not sym and count < 5:
                pass
            elif name not in ('sum', 'prod', 'max', 'min', 'any', 'all') and conc:
                return self.opaque(n, idx, name)
            terms = []

            def rec(q, f):
                if q == len(conc):
                    terms.append(self.comp(src, tuple(f), env))
                    return
                for v in range(src.shape[conc[q]]):
                    f2 = list(f)
                    f2[conc[q]] = v
                    rec(q + 1, f2)
            rec(0, full)
            if name == 'sum':
                body = smk('add', terms, (0, (1,) * len(terms)), n)
            elif name == 'prod':
                body = smk('mul', terms, (1, (1,) * len(terms)), n)
            elif name == 'median' and terms and conc:
                body, m = smk('add', terms, (0, (1,) * len(terms)), n), len(terms)
                if m > 2:
                    hi, lo = terms[0], terms[0]
                    for t in terms[1:]:
                        hi, lo = smk('maximum', [hi, t], None, n), smk('minimum', [lo, t], None, n)
                    body = smk('add', [body, hi, lo], (0, (1, -1, -1)), n)
                if m in (2, 4):
                    body = smk('mul', [body], (Fraction(1, 2), (1,)), n)
            else:
                body = terms[0]
                opn = {'max': 'maximum', 'min': 'minimum', 'any': 'or', 'all': 'and'}.get(name)
                for t in terms[1:]:
                    body = smk(opn, [body, t], None, n)
            if sym:
                return mk('over', (body,), (name, tagd), n)
            return body
        if op == 'elem':
            lid, dim = n.attr
            i = dict(env).get(lid, 'loop:%s' % lid)
            return self.comp(n.args[0], (i,) + idx, env)
        if op == 'collect':
            lid, dim = n.attr
            env2 = tuple(sorted([(a, b) for a, b in env if a != lid] + [(lid, idx[0])], key=str))
            return self.comp(n.args[0], idx[1:], env2)
        if op == 'storeat':
            ax, lid = n.attr
            # base[.., i, ..] = val for every i of the loop
            env2 = tuple(sorted([(a, b) for a, b in env if a != lid] + [(lid, idx[ax])], key=str))
            return self.comp(n.args[1], idx[:ax] + idx[ax + 1:], env2)
        if op == 'loopout':
            init, out = n.args
            if out.op == 'storeat' and out.attr[1] == n.attr[0] and out.args[0].op == 'mu':
                return self.comp(out, idx, env)
            return self.opaque(n, idx)
        if op == 'gather':
            ax = n.attr
            if ax == 'full':
                m = n.args[1]
                inner = tuple(('g', m.id, q) for q in range(len(m.shape))) + idx[1:]
            else:
                inner = idx[:ax] + (('g', n.args[1].id, idx[ax]),) + idx[ax + 1:]
            return self.comp(n.args[0], inner, env)
        if op == 'take':
            ax = n.attr
            base, m = n.args
            k = len(m.shape)
            sel = self.comp(m, idx[ax:ax + k], env)
            i = sel.attr if sel.op == 'const' and isinstance(sel.attr, int) else ('v', sel)
            if isinstance(i, int) and i < 0 and isinstance(base.shape[ax], int):
                i += base.shape[ax]
            return self.comp(base, idx[:ax] + (i,) + idx[ax + k:], env)
        if op == 'interp1d':
            t, y, q, kind = n.args
            ax = n.attr[0]
            k = len(q.shape)
            yi = idx[:ax] + ('#0',) + idx[ax + k:]
            return mk('interp', (self.comp(t, tuple('#0' for _ in t.shape), env), self.comp(y, yi, env),
                                 self.comp(q, idx[ax:ax + k], env), self.comp(kind, (), env)), n.attr[1:], n)
        if op == 'savgol':
            ax, extra = n.attr
            y = n.args[0]
            return mk('savgol', (self.comp(y, idx[:ax] + ('#0',) + idx[ax + 1:], env), mk('index', (), idx[ax], n)) +
                      tuple(self.comp(a, (), env) if a.shape == () else self.opaque(a, ()) for a in n.args[1:]), extra, n)
        if op == 'scan':
            opn, ax = n.attr
            return mk('scan', (self.comp(n.args[0], idx[:ax] + ('#0',) + idx[ax + 1:], env), mk('index', (), idx[ax], n)), opn, n)
        if op == 'lookup':
            return mk('lookup', [self.comp(a, idx if a.shape else (), env) for a in n.args], n.attr, n)
        if op == 'truth' and n.args:
            return mk('truth', [x for a in n.args for x in self.all_leaves(a)], (str(n.attr), n.id), n)
        if op == 'iota':
            return mk('index', (), idx[0], n)
        return self.opaque(n, idx)


def smk(op, args, attr, src):
    """scalar constructor with light constant folding"""
    if op == 'add':
        c0, cs = attr
        c0 = float('nan') if c0 == 'nan' else c0
        acc = {}
        for c, a in zip(cs, args):
            if a.op == 'const' and not isinstance(a.attr, (str, tuple)):
                c0 = c0 + c * a.attr
                continue
            if a.op == 'const' and a.attr == 'nan':
                return a
            if a.op == 'add' and c == 1 and False:
                continue
            if a.op == 'mul' and a.attr[0] != 1:
                c = c * a.attr[0]
                a = mk('mul', a.args, (1, a.attr[1]), a.src) if not (len(a.args) == 1 and a.attr[1][0] == 1) else a.args[0]
            k = acc.get(a.id)
            acc[a.id] = ((k[0] if k else 0) + c, a)
        items = [(c, a) for c, a in acc.values() if c != 0]
        if c0 != c0:
            return const(float('nan'), src)
        if not items:
            return const(c0, src)
        if len(items) == 1 and c0 == 0:
            return smk('mul', [items[0][1]], (items[0][0], (1,)), src)
        items.sort(key=lambda t: t[1].id)
        return mk('add', [a for _c, a in items], (c0, tuple(c for c, _a in items)), src)
    if op == 'mul':
        k, es = attr
        k = float('nan') if k == 'nan' else k
        acc = {}
        stack = list(zip(es, args))
        while stack:
            e, a = stack.pop(0)
            if a.op == 'const' and not isinstance(a.attr, (str, tuple)):
                try:
                    k = k * g._pow(a.attr, e)
                    continue
                except (ZeroDivisionError, ValueError, OverflowError):
                    pass
            if a.op == 'const' and a.attr == 'nan':
                return a
            if a.op == 'mul' and isinstance(e, int):
                try:
                    k = k * g._pow(a.attr[0], e)
                    stack = [(e2 * e, b) for e2, b in zip(a.attr[1], a.args)] + stack
                    continue
                except (ZeroDivisionError, ValueError, OverflowError):
                    pass
            q = acc.get(a.id)
            acc[a.id] = (g._exp((q[0] if q else 0) + e), a)
        items = [(e, a) for e, a in acc.values() if e != 0]
        if k == 0:
            return const(0, src)
        if not items:
            return const(k, src)
        if k == 1 and len(items) == 1 and items[0][0] == 1:
            return items[0][1]
        items.sort(key=lambda t: t[1].id)
        return mk('mul', [a for _e, a in items], (k, tuple(e for e, _a in items)), src)
    if op == 'where':
        c, a, b = args
        if c.op == 'const':
            v = c.attr[1] if isinstance(c.attr, tuple) else c.attr
            return a if v else b
        if a is b:
            return a
    if op in ('sin', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh') and args[0].op == 'const' and args[0].attr == 0:
        return args[0]
    if op == 'cos' and args[0].op == 'const' and args[0].attr == 0:
        return const(1, src)
    if op == 'abs' and args[0].op == 'const' and not isinstance(args[0].attr, (str, tuple)):
        return const(abs(args[0].attr), src)
    if op in ('eq', 'lt', 'le') and all(a.op == 'const' and not isinstance(a.attr, (str, tuple)) for a in args):
        x, y = args[0].attr, args[1].attr
        return const({'eq': x == y, 'lt': x < y, 'le': x <= y}[op], src)
    if op == 'over' and attr[0] in ('any', 'all') and args[0].op == 'const' and isinstance(args[0].attr, tuple):
        return args[0]
    if op in ('isnan',) and args[0].op == 'const':
        return const(args[0].attr == 'nan', src)
    if op == 'not' and args[0].op == 'const' and isinstance(args[0].attr, tuple):
        return const(not args[0].attr[1], src)
    if op in ('and', 'or') and any(a.op == 'const' for a in args):
        unit_ = op == 'and'
        rest = []
        for a in args:
            if a.op == 'const':
                v = a.attr[1] if isinstance(a.attr, tuple) else bool(a.attr)
                if v != unit_:
                    return const(not unit_, src)
            else:
                rest.append(a)
        if not rest:
            return const(unit_, src)
        if len(rest) == 1:
            return rest[0]
        args = rest
    if op in ('arctan2',) and args[0].op == 'const' and args[0].attr == 0 and args[1].op == 'const' and not isinstance(args[1].attr, (str, tuple)) and args[1].attr > 0:
        return const(0, src)
    if op in ('sign',) and args[0].op == 'const' and not isinstance(args[0].attr, (str, tuple)):
        v = args[0].attr
        return const((v > 0) - (v < 0), src)
    if op in g.COMM:
        args = sorted(args, key=lambda s: s.id)
    if op == 'closeto':
        args = sorted(args[:2], key=lambda s: s.id) + list(args[2:])
    return mk(op, args, attr, src)


_EXP = [None]


def fresh():
    reset()
    _EXP[0] = Expander()


def comp(n, idx):
    if _EXP[0] is None:
        fresh()
    return _EXP[0].comp(n, idx)


def topo(*roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        s, done = stack.pop()
        if done:
            out.append(s)
            continue
        if s.id in seen:
            continue
        seen.add(s.id)
        stack.append((s, True))
        for a in s.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def leaves(*roots):
    return [s for s in topo(*roots) if s.op == 'leaf']
