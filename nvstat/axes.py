"""Covariance inference: which array axes carry components with respect to the E axes.

The type of a node is the number of E-indices along each of its axes (0: no frame meaning,
1: components of a vector in E, 2: a product of two such components that has to be summed).
Contracting two E-indices, crossing two E-vectors, and scaling or adding E-vectors are
independent of the choice of axes; anything else done to an E-index is a conflict.
"""
from . import graph as g


class Axes(object):
    def __init__(self, leaf_type, role=None):
        self.leaf_type = leaf_type
        self.memo = {}
        self.conflicts = []
        self.vague = []

    def conflict(self, n, msg):
        self.conflicts.append((n, msg))

    def of(self, root):
        for n in g.topo(root):
            if n.id not in self.memo:
                t = self.step(n)
                if n.shape is not None and t is not None and len(t) != len(n.shape):
                    t = (0,) * len(n.shape)
                self.memo[n.id] = t
        return self.memo[root.id]

    def z(self, n):
        return (0,) * len(n.shape or ())

    def al(self, a, n):
        """type of argument a aligned to the axes of n"""
        t = self.memo[a.id] or ()
        k = len(n.shape or ())
        return (0,) * (k - len(t)) + tuple(t[-k:] if k else ())

    def nullish(self, a):
        """zero, nan and infinity have the same components in all axes as far as the rules are concerned"""
        if a.op == 'const':
            f = g.const_flat(a) if a.attr[0] == 'arr' else [g.cval(a)]
            return f is not None and all(isinstance(v, (int, float)) and (v == 0 or v != v) for v in f)
        if a.op in ('bcast', 'axes'):
            return self.nullish(a.args[0])
        return False

    def join(self, n, args, what):
        t = None
        for a in args:
            if self.nullish(a):
                continue
            u = self.al(a, n)
            if t is None:
                t = u
            elif t != u:
                self.conflict(n, '%s components in E and quantities that are not' % what)
                return tuple(max(x, y) for x, y in zip(t, u))
        return t if t is not None else self.z(n)

    def scalar(self, n, args, what):
        for a in args:
            if any(self.memo[a.id] or ()):
                self.conflict(n, '%s of single components in E' % what)
                break
        return self.z(n)

    def step(self, n):
        op = n.op
        if op == 'leaf':
            return self.leaf_type(n)
        if op == 'const':
            return self.z(n)
        if n.shape is None:
            if any(any(self.memo[a.id] or ()) for a in n.args):
                self.vague.append(n)
            return ()
        if op == 'add':
            args = list(n.args)
            c0 = n.attr[0]
            t = self.join(n, args, 'adds')
            if c0 not in (0, 'nan') and any(t):
                self.conflict(n, 'adds a number to components in E')
            return t
        if op == 'mul':
            out = [0] * len(n.shape)
            for e, a in zip(n.attr[1], n.args):
                u = self.al(a, n)
                for i, k in enumerate(u):
                    if k:
                        if not isinstance(e, int) or e < 0:
                            self.conflict(n, 'takes a power of components in E')
                        else:
                            out[i] += k * e
            if any(k > 2 for k in out):
                self.conflict(n, 'multiplies more than two components in E')
                out = [min(k, 2) for k in out]
            return tuple(out)
        if op == 'bcast':
            return self.al(n.args[0], n)
        if op == 'where':
            self.scalar(n, n.args[:1], 'a test')
            return self.join(n, n.args[1:], 'selects between')
        if op == 'axes':
            t = self.memo[n.args[0].id]
            return tuple(0 if p is None else t[p] for p in n.attr)
        if op == 'index':
            t = self.memo[n.args[0].id]
            out = []
            for sp, k in zip(n.attr, t):
                if sp == ':':
                    out.append(k)
                elif isinstance(sp, int):
                    if k and n.args[0].shape[len(out)] != 1:
                        self.conflict(n, 'reads component %s of a vector in E' % sp)
                else:
                    if k:
                        self.conflict(n, 'reads some components of a vector in E')
                    out.append(0)
            return tuple(out)
        if op == 'reduce':
            name, axs = n.attr
            t = self.memo[n.args[0].id]
            out = []
            for i, k in enumerate(t):
                if i not in axs:
                    out.append(k)
                elif name == 'sum':
                    if k == 1:
                        self.conflict(n, 'sums components in E against quantities that are not components in E')
                elif k:
                    self.conflict(n, '%s over components in E' % name)
            return tuple(out)
        if op == 'concat':
            ax = n.attr
            ts = [self.al(a, n) for a in n.args]
            if any(t[ax] for t in ts):
                self.conflict(n, 'assembles components in E one by one')
            out = list(self.join(n, n.args, 'assembles'))
            out[ax] = 0
            return tuple(out)
        if op == 'cross':
            ax = n.attr
            a, b = [self.al(x, n) for x in n.args]
            out = [x + y for x, y in zip(a, b)]
            if a[ax] != b[ax]:
                if not any(self.nullish(x) for x in n.args):
                    self.conflict(n, 'crosses components in E with quantities that are not components in E')
                out[ax] = 1
            else:
                out[ax] = a[ax]
            return tuple(out)
        if op == 'elem':
            return self.memo[n.args[0].id][1:]
        if op == 'collect':
            return (0,) + tuple(self.memo[n.args[0].id])
        if op == 'gather' and n.attr != 'full':
            return self.memo[n.args[0].id]
        if op == 'interp1d':
            t, y, q, kind = n.args
            ty = self.memo[y.id]
            ax = n.attr[0]
            if ty[ax]:
                self.conflict(n, 'interpolates over components in E')
            k = len(q.shape)
            return tuple(ty[:ax]) + (0,) * k + tuple(ty[ax + 1:])
        if op == 'savgol':
            ty = self.memo[n.args[0].id]
            if ty[n.attr[0]]:
                self.conflict(n, 'smooths over components in E')
            return ty
        if op in ('isnan', 'isfinite'):
            return self.z(n)
        if op in g.POINTWISE:
            return self.scalar(n, n.args, 'takes %s' % op)
        if any(any(self.memo[a.id] or ()) for a in n.args):
            self.vague.append(n)
        return self.z(n)
