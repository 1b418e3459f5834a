"""Abstract interpreter for the subset of Python that the package is written in.

It evaluates the program over symbolic leaves, inlines every call inside the package,
merges control-flow joins with gated phi nodes (no path enumeration, no solver) and
produces a value graph (see graph.py) plus an effect log.  Nothing of the analysed package
is imported or executed: the only input is its source text.
"""
import ast
import os
from . import graph as g
from .values import *

MAXDEPTH = 60
MAXREC = 4
MAXUNROLL = 64


class PyRaise(Exception):
    def __init__(self, exc, loc):
        Exception.__init__(self, exc.name)
        self.exc, self.loc = exc, loc


class AnalysisError(Exception):
    """an anchor is missing or the source cannot be analysed"""


EXC_PARENT = {'AttributeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
              'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception',
              'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
              'ArithmeticError': 'Exception', 'NameError': 'Exception', 'UnboundLocalError': 'NameError',
              'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'AssertionError': 'Exception',
              'StopIteration': 'Exception', 'OverflowError': 'ArithmeticError', 'FloatingPointError': 'ArithmeticError',
              'OSError': 'Exception', 'IOError': 'OSError', 'RecursionError': 'RuntimeError', 'LinAlgError': 'ValueError',
              'Exception': 'BaseException', 'Warning': 'Exception', 'UserWarning': 'Warning',
              'DeprecationWarning': 'Warning', 'RuntimeWarning': 'Warning', 'FutureWarning': 'Warning',
              'PendingDeprecationWarning': 'Warning'}


def exc_is(name, parent):
    while name is not None:
        if name == parent:
            return True
        name = EXC_PARENT.get(name, 'Exception' if name not in ('Exception', 'BaseException') else
                              ('BaseException' if name == 'Exception' else None))
    return False


class State(object):
    __slots__ = ('heap', 'pc', 'facts')

    def __init__(self, heap=None, pc=(), facts=frozenset()):
        self.heap = {} if heap is None else heap
        self.pc, self.facts = pc, facts

    def copy(self):
        return State(dict(self.heap), self.pc, self.facts)

    def assume(self, cond, truth):
        s = State(dict(self.heap), self.pc + ((cond, truth),), None)
        add = set()

        def put(c, t):
            if (c.id, t) in add:
                return
            add.add((c.id, t))
            if c.op == 'not':
                put(c.args[0], not t)
            elif c.op == 'and' and t:
                for a in c.args:
                    put(a, True)
            elif c.op == 'or' and not t:
                for a in c.args:
                    put(a, False)
        put(cond, truth)
        s.facts = self.facts | add
        return s


class Frame(object):
    def __init__(self, func, env):
        self.func, self.env = func, env
        self.returns = []
        self.loops = []
        self.globals_ = set()
        self.nonlocals = set()
        self.yields = None


class Effect(object):
    def __init__(self, kind, loc, pc, stack, phase, **info):
        self.kind, self.loc, self.pc, self.stack, self.phase, self.info = kind, loc, pc, stack, phase, info

    def __repr__(self):
        return 'Effect(%s %s %s)' % (self.kind, self.loc, {k: v for k, v in self.info.items()})


def conj(facts):
    nodes = [c if t else g.fn('not', c) for c, t in facts]
    if not nodes:
        return g.const(True)
    if len(nodes) == 1:
        return nodes[0]
    return g.fn('and', *nodes)


class Interp(object):
    OPAQUE_MODULES = ('_acknowledgements', '_documentation', '_examples', '_examples_object_oriented', '_images',
                      '_info', '_info_functional', '_installation', '_intro', 'license', 'plot')

    def __init__(self, root, package='nvector'):
        from . import npmodel
        self.np = npmodel
        self.root, self.package = root, package
        g.reset()
        self.st = State()
        self.modules = {}
        self.next_id = 0
        self.birth = {}      # id -> phase it was created in
        self.label = {}      # id -> human name of the storage
        self.alias = {}      # cell -> other cells it may be
        self.effects = []
        self.frames = []
        self.sinks = [[]]
        self.phase = 'import'
        self.gaps = []       # constructs that were not modelled
        self.loc = None
        self.calls = 0
        self.funcs_seen = set()
        self.entries = None     # package functions called by a law
        self.asts = {}
        self.intercept = {}  # qualname -> callable(interp, func, args, kwds)
        self.loopn = 0
        self.quiet = 0
        self.cnt = 0

    # ------------------------------------------------------------ bookkeeping
    def new_id(self, label=None):
        self.next_id += 1
        i = self.next_id
        self.birth[i] = self.phase
        if label:
            self.label[i] = label
        return i

    def effect(self, kind, **info):
        if self.quiet:
            return
        self.effects.append(Effect(kind, self.loc, self.st.pc if self.st else (), self.stack(), self.phase, **info))

    def stack(self):
        return tuple(f.func.qualname for f in self.frames if f.func is not None)

    def gap(self, what):
        if not self.quiet:
            self.gaps.append((what, self.loc))

    def setloc(self, node):
        ln = getattr(node, 'lineno', None)
        if ln is not None:
            fr = self.frames[-1] if self.frames else None
            q = fr.func.qualname if fr and fr.func else '<module>'
            self.loc = (self.curfile, ln, q)
            g.LOC[0] = self.loc

    # ------------------------------------------------------------ numeric values
    def new_arr(self, node, dt='f', label=None, py=False):
        c = self.new_id(label)
        self.st.heap[c] = node
        return Arr(c, (), dt, py)

    def node(self, v):
        """graph node of a numeric value (or opaque)"""
        if isinstance(v, Arr):
            n = self.st.heap.get(v.cell)
            if n is None:
                return g.mk('opaque', (), 'lost', None)
            for w in v.views:
                n = self.apply_view(n, w)
            return n
        if isinstance(v, bool):
            return g.const(v)
        if isinstance(v, (int, float)):
            return g.const(v)
        if isinstance(v, g.Node):
            return v
        if isinstance(v, Opaque):
            return g.mk('opaque', v.nodes, v.tag, None)
        if isinstance(v, str):
            return g.const(v) if v != 'nan' else g.leaf("str:'nan'")
        if v is None:
            return g.leaf('None')
        if isinstance(v, (tuple, PyList)):
            return self.node(self.np.as_array(self, v))
        if isinstance(v, Choice):
            return g.mk('opaque', (v.cond,) + tuple(self.deps_nodes(v)), 'choice', None)
        return g.mk('opaque', tuple(self.deps_nodes(v)), 'value:%s' % type(v).__name__, None)

    def apply_view(self, n, w):
        if n.shape is None:
            return n
        kind, arg = w
        if kind == 'index':
            return g.index(n, arg)
        if kind == 'axes':
            return g.axes(n, arg)
        if kind == 'reshape':
            return g.reshape(n, arg)
        if kind == 'bcast':
            return g.bcast(n, arg)
        if kind == 'elem':
            return g.elem_axis(n, arg[0], arg[1])
        raise AssertionError(kind)

    def view(self, v, w, dt=None):
        return Arr(v.cell, v.views + (w,), dt or v.dt)

    def isnum(self, v):
        return isinstance(v, (Arr, int, float, bool))

    def dt(self, v):
        if isinstance(v, Arr):
            return v.dt
        if isinstance(v, bool):
            return 'b'
        if isinstance(v, int):
            return 'i'
        if isinstance(v, float):
            return 'f'
        return '?'

    @staticmethod
    def join_dt(*dts):
        if '?' in dts:
            return '?'
        for k in ('f', 'i', 'b'):
            if k in dts:
                return k
        return 'f'

    def opaque(self, tag, *vals):
        nodes = []
        for v in vals:
            nodes.extend(self.deps_nodes(v))
        return Opaque(tag, nodes)

    def deps_nodes(self, v, depth=0, seen=None):
        """nodes reachable from a value (for dependence)"""
        seen = set() if seen is None else seen
        if depth > 6:
            return []
        if isinstance(v, Arr):
            return [self.node(v)]
        if isinstance(v, Opaque):
            return list(v.nodes)
        if isinstance(v, g.Node):
            return [v]
        if isinstance(v, (tuple, list)):
            out = []
            for x in v:
                out.extend(self.deps_nodes(x, depth + 1, seen))
            return out
        if isinstance(v, Choice):
            return [v.cond] + self.deps_nodes(v.a, depth + 1, seen) + self.deps_nodes(v.b, depth + 1, seen)
        if isinstance(v, Rep):
            return self.deps_nodes(v.val, depth + 1, seen)
        if isinstance(v, (PyList, Inst, PyDict)):
            if v.id in seen:
                return []
            seen.add(v.id)
            c = self.st.heap.get(v.id) if self.st else None
            out = []
            if isinstance(c, dict):
                for x in c.values():
                    out.extend(self.deps_nodes(x, depth + 1, seen))
            elif isinstance(c, tuple):
                for x in c:
                    out.extend(self.deps_nodes(x, depth + 1, seen))
            return out
        if isinstance(v, (Bound,)):
            return self.deps_nodes(v.self_, depth + 1, seen)
        if isinstance(v, Partial):
            return self.deps_nodes(list(v.args) + list(v.kwds.values()), depth + 1, seen)
        if isinstance(v, ExtObj):
            return self.deps_nodes(list(v.info.values()), depth + 1, seen)
        return []

    def immutable(self, v):
        if isinstance(v, Arr):
            return getattr(self.st.heap.get(v.cell), 'shape', None) == ()
        if isinstance(v, tuple):
            return all(self.immutable(x) for x in v)
        return v is None or isinstance(v, (str, int, float, bool, frozenset))

    def new_list(self, items, kind='list'):
        i = self.new_id()
        self.st.heap[i] = tuple(items)
        return PyList(i, kind)

    def new_dict(self, d):
        i = self.new_id()
        self.st.heap[i] = dict(d)
        return PyDict(i)

    # ------------------------------------------------------------ merging of states and values
    def merge_val(self, cond, a, b, sa, sb, out):
        """phi(cond, a, b); a lives in state sa, b in sb; result in state out"""
        if a is b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr) and a.cell == b.cell and a.views == b.views:
            return a
        if type(a) is type(b) and isinstance(a, (str, bool, int, float)) and (a == b):
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            return Choice(cond, a, b)
        if isinstance(a, (Inst, PyList, PyDict)) and isinstance(b, (Inst, PyList, PyDict)) and a.id == b.id:
            return a
        if isinstance(a, (ExtRef, ExcClass, BuiltinType)) and a == b:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and \
                self.merge_same(a.self_, b.self_):
            return a
        if self.isnum(a) and self.isnum(b):
            save = self.st
            self.st = sa
            na = self.node(a)
            self.st = sb
            nb = self.node(b)
            self.st = save
            if na.shape is not None and na.shape == nb.shape:
                n = g.fn('where', cond, na, nb, shape=na.shape)
                i = self.new_id()
                out.heap[i] = n
                self.alias[i] = set()
                for v in (a, b):
                    if isinstance(v, Arr):
                        self.alias[i] |= {v.cell} | self.alias.get(v.cell, set())
                return Arr(i, (), self.join_dt(self.dt(a), self.dt(b)))
            return Choice(cond, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is type(b):
            vals = [self.merge_val(cond, x, y, sa, sb, out) for x, y in zip(a, b)]
            if isinstance(a, NTuple):
                return NTuple.make(a.tname, a.fields, vals)
            return tuple(vals)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return Opaque(a.tag, tuple(set(a.nodes) | set(b.nodes) | {cond}))
        if isinstance(a, PyList) and isinstance(b, PyList) and a.kind == b.kind:
            ca, cb = sa.heap.get(a.id), sb.heap.get(b.id)
            if a.id not in sb.heap and b.id not in sa.heap and ca is not None and cb is not None and len(ca) == len(cb) \
                    and not any(isinstance(x, Rep) for x in ca + cb):
                i = self.new_id()
                out.heap[i] = tuple(self.merge_val(cond, x, y, sa, sb, out) for x, y in zip(ca, cb))
                return PyList(i, a.kind)
        return Choice(cond, a, b)

    @staticmethod
    def merge_same(a, b):
        if a is b:
            return True
        return isinstance(a, (Inst, PyList, PyDict)) and isinstance(b, type(a)) and a.id == b.id

    def merge_content(self, cond, a, b, sa, sb, out):
        if a is b:
            return a
        if isinstance(a, g.Node) and isinstance(b, g.Node):
            if a.shape == b.shape and a.shape is not None:
                return g.fn('where', cond, a, b, shape=a.shape)
            return g.mk('opaque', (cond, a, b), 'phi', None)
        if isinstance(a, dict) and isinstance(b, dict):
            res = {}
            for k in list(a) + [k for k in b if k not in a]:
                va, vb = a.get(k, UNDEF), b.get(k, UNDEF)
                res[k] = self.merge_val(cond, va, vb, sa, sb, out)
            return res
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) == len(b):
                return tuple(self.merge_val(cond, x, y, sa, sb, out) for x, y in zip(a, b))
            # lists of different length: keep as a choice list
            return (Rep(('choice', 1), Choice(cond, tuple(a), tuple(b))),)
        return a

    def merge_two(self, A, B):
        """A, B = (value, state); returns merged (value, state)"""
        (va, sa), (vb, sb) = A, B
        k = 0
        while k < len(sa.pc) and k < len(sb.pc) and sa.pc[k] == sb.pc[k]:
            k += 1
        ra, rb = sa.pc[k:], sb.pc[k:]
        if ra:
            cond = conj(ra)
        else:
            cond = g.fn('not', conj(rb))
        out = State({}, sa.pc[:k], None)
        # a fact on the common prefix plus what both sides know
        rest = g.fn('or', conj(ra), conj(rb)) if ra and rb else g.const(True)
        out.facts = sa.facts & sb.facts
        if g.cval(rest) is None:
            out.pc = out.pc + ((rest, True),)
            out.facts = out.facts | {(rest.id, True)}
        ha, hb = sa.heap, sb.heap
        heap = out.heap
        diff = []
        for i, v in ha.items():
            if i in hb:
                w = hb[i]
                if v is w:
                    heap[i] = v
                else:
                    heap[i] = v
                    diff.append(i)
            else:
                heap[i] = v
        for i, v in hb.items():
            if i not in ha:
                heap[i] = v
        for i in diff:
            heap[i] = self.merge_content(cond, ha[i], hb[i], sa, sb, out)
        val = self.merge_val(cond, va, vb, sa, sb, out)
        return val, out

    def merge_many(self, items):
        items = list(items)
        if len(items) == 1:
            return items[0]
        k = 0
        pcs = [s.pc for _v, s in items]
        while all(len(p) > k for p in pcs) and all(p[k] == pcs[0][k] for p in pcs):
            k += 1
        if all(len(p) > k for p in pcs) and all(p[k][0] is pcs[0][k][0] for p in pcs):
            t = [it for it, p in zip(items, pcs) if p[k][1] == pcs[0][k][1]]
            f = [it for it, p in zip(items, pcs) if p[k][1] != pcs[0][k][1]]
            if t and f:
                return self.merge_two(self.merge_many(t), self.merge_many(f))
        return self.merge_two(items[0], self.merge_many(items[1:]))

    def known(self, c):
        v = g.cval(c)
        if v is not None:
            return bool(v)
        f = self.st.facts
        if (c.id, True) in f:
            return True
        if (c.id, False) in f:
            return False
        if c.op == 'not':
            k = self.known(c.args[0])
            return None if k is None else not k
        if c.op in ('and', 'or'):
            ks = [self.known(a) for a in c.args]
            if c.op == 'and':
                if any(k is False for k in ks):
                    return False
                if all(k is True for k in ks):
                    return True
            else:
                if any(k is True for k in ks):
                    return True
                if all(k is False for k in ks):
                    return False
        return None

    def fork(self, cond, fa, fb):
        """evaluate fa() where cond holds and fb() where it does not; merged value"""
        k = self.known(cond)
        if k is True:
            return fa()
        if k is False:
            return fb()
        s0 = self.st
        outs = []
        last = None
        for truth, f in ((True, fa), (False, fb)):
            self.st = s0.assume(cond, truth)
            depth = len(self.frames)
            try:
                v = f()
                if self.st is not None:
                    outs.append((v, self.st))
            except PyRaise as e:
                del self.frames[depth:]
                last = e
                self.to_sink(e)
        if not outs:
            self.st = None
            # both sides raise: remove the duplicates from the sink and re-raise is not needed, the path is dead
            raise DeadPath()
        v, self.st = self.merge_many(outs)
        return v

    def to_sink(self, e):
        self.sinks[-1].append((e.exc, self.st, e.loc))

    def distribute(self, ch, f):
        return self.fork(ch.cond, lambda: f(ch.a), lambda: f(ch.b))

    def raise_(self, name, msg=''):
        raise PyRaise(ExcVal(name, (msg,)), self.loc)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        """True / False / condition node"""
        if isinstance(v, Choice):
            return self.truth_choice(v)
        if isinstance(v, Arr):
            n = self.node(v)
            if n.shape is None:
                return g.mk('truth', (n,), None, ())
            if len(n.shape) and g.shape_size(n.shape) != 1:
                self.raise_('ValueError', 'truth value of an array with more than one element is ambiguous')
            if n.shape:
                n = g.axes(n, ())
            c = g.cval(n)
            if c is not None:
                return bool(c)
            if n.op == 'leaf' and n.attr.startswith('dim:'):
                return True
            if n.op in ('lt', 'le', 'eq', 'and', 'or', 'not', 'isnan', 'isfinite', 'isclose', 'closeto', 'where', 'reduce', 'isinf', 'allclose', 'truth', 'astype_bool') or v.dt == 'b':
                k = self.known(n)
                return n if k is None else k
            n2 = g.fn('not', g.fn('eq', n, g.const(0)))
            k = self.known(n2)
            return n2 if k is None else k
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PyList):
            c = self.st.heap[v.id]
            return len(c) > 0
        if isinstance(v, PyDict):
            return len(self.st.heap[v.id]) > 0
        if isinstance(v, Inst):
            m, _c = v.cls.lookup('__bool__')
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            m, _c = v.cls.lookup('__len__')
            if m is not None:
                return self.truth(self.call(Bound(m, v), [], {}))
            return True
        if isinstance(v, Opaque):
            return g.mk('truth', v.nodes, v.tag + self.locstr(), ())
        return True

    def locstr(self):
        return '@%s:%s' % (os.path.basename(self.loc[0]), self.loc[1]) if self.loc else ''

    def truth_choice(self, v):
        r = self.distribute(v, lambda x: self.bool_value(self.truth(x)))
        if isinstance(r, bool):
            return r
        n = self.node(r)
        c = g.cval(n)
        return bool(c) if c is not None else n

    def bool_value(self, t):
        return t if isinstance(t, bool) else self.new_arr(t, 'b')

    # ------------------------------------------------------------ modules
    def module_path(self, name):
        rel = name.split('.')[1:]
        base = os.path.join(self.root, self.package)
        p = os.path.join(base, *rel) if rel else base
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def parse(self, path):
        if path not in self.asts:
            with open(path) as fid:
                src = fid.read()
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.asts[path] = ast.parse(src, path)
        return self.asts[path]

    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        if top != self.package:
            return ExtRef(name)
        path = self.module_path(name)
        if not os.path.exists(path):
            self.raise_('ImportError', name)
        env = self.new_id('module ' + name)
        mod = ModuleVal(name, env)
        self.modules[name] = mod
        short = name.split('.')[-1]
        self.st.heap[env] = {'__name__': name, '__file__': path, '__doc__': None}
        mod.opaque = short in self.OPAQUE_MODULES
        if mod.opaque:
            # documentation-only module: recorded by definition name, contents not interpreted
            tree = self.parse(path)
            mod.names = set()
            return mod
        tree = self.parse(path)
        doc = ast.get_docstring(tree, clean=False)
        self.st.heap[env]['__doc__'] = doc
        save = (self.frames, getattr(self, 'curfile', None), self.loc)
        self.frames = [Frame(None, env)]
        self.frames[-1].module = mod
        self.curfile = path
        phase = self.phase
        self.phase = 'import'
        try:
            self.exec_block(tree.body)
        finally:
            self.frames, self.curfile, self.loc = save
            self.phase = phase
        if self.st is None:
            raise AnalysisError('module %s does not complete its import' % name)
        return mod

    def modget(self, mod, name):
        if isinstance(mod, ModuleVal):
            if mod.opaque:
                return Opaque('doc:%s.%s' % (mod.name, name))
            d = self.st.heap[mod.env]
            if name in d:
                return d[name]
            sub = os.path.join(os.path.dirname(self.module_path(mod.name)), name + '.py')
            if mod.name == self.package and os.path.exists(sub):
                return self.import_module(mod.name + '.' + name)
            return None
        return ExtRef(mod.path + '.' + name)

    # ------------------------------------------------------------ environments
    def env_get(self, envid, name):
        return self.st.heap[envid].get(name, UNDEF)

    def env_set(self, envid, name, val):
        self.st.heap[envid] = dict(self.st.heap[envid], **{name: val}) if isinstance(name, str) else None

    def lookup(self, name):
        fr = self.frames[-1]
        chain = [fr.env]
        if fr.func is not None:
            chain = [fr.env] + [e for e in fr.func.envs]
        for k, e in enumerate(chain):
            d = self.st.heap.get(e)
            if d is not None and name in d:
                v = d[name]
                if isinstance(v, Undef):
                    if k == 0:
                        self.raise_('UnboundLocalError', name)
                    continue
                if isinstance(v, Choice) and (isinstance(v.a, Undef) or isinstance(v.b, Undef)):
                    kn = self.known(v.cond)
                    if kn is True and not isinstance(v.a, Undef):
                        return v.a
                    if kn is False and not isinstance(v.b, Undef):
                        return v.b
                    if isinstance(v.a, Undef) and not isinstance(v.b, Undef):
                        return v.b
                    if isinstance(v.b, Undef) and not isinstance(v.a, Undef):
                        return v.a
                return v
        mod = fr.module if fr.func is None else fr.func.module
        d = self.st.heap[mod.env]
        if name in d:
            return d[name]
        b = self.np.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC_PARENT or name == 'BaseException':
            return ExcClass(name)
        self.raise_('NameError', name)

    def assign_name(self, name, val):
        fr = self.frames[-1]
        if name in fr.globals_:
            env = fr.func.module.env
            self.effect('global', name='%s.%s' % (fr.func.module.name, name), value=val)
            self.env_set(env, name, val)
            return
        if name in fr.nonlocals:
            for e in fr.func.envs:
                d = self.st.heap.get(e)
                if d is not None and name in d:
                    if self.birth.get(e) != self.phase:
                        self.effect('closure', name=name, value=val, birth=self.birth.get(e))
                    self.env_set(e, name, val)
                    return
        self.env_set(fr.env, name, val)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        for s in stmts:
            if self.st is None:
                return
            self.setloc(s)
            try:
                self.exec_stmt(s)
            except DeadPath:
                self.st = None
                return
            except g.ShapeErr as e:
                self.effect('shape', msg=str(e))
                raise PyRaise(ExcVal('ValueError', (str(e),)), self.loc)

    def exec_stmt(self, s):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.gap('statement %s' % type(s).__name__)
            return
        m(s)

    def x_Expr(self, s):
        self.eval(s.value)

    def x_Pass(self, s):
        pass

    def x_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def x_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval_index(t.slice), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.gap('assignment target')

    def unpack(self, elts, v):
        if isinstance(v, Choice):
            # distribute through a tuple when possible
            k = self.known(v.cond)
            if k is not None:
                return self.unpack(elts, v.a if k else v.b)
            s0 = self.st
            self.unpack_choice(elts, v)
            return
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.to_list(v, len(elts) if not star else None)
        if vals is None:
            for e in elts:
                self.assign(e, self.opaque('unpack', v))
            return
        if star:
            k = star[0]
            after = len(elts) - k - 1
            for e, x in zip(elts[:k], vals[:k]):
                self.assign(e, x)
            self.assign(elts[k].value, self.new_list(vals[k:len(vals) - after]))
            for e, x in zip(elts[k + 1:], vals[len(vals) - after:] if after else []):
                self.assign(e, x)
            return
        if len(vals) != len(elts):
            self.raise_('ValueError', 'unpack %d values into %d' % (len(vals), len(elts)))
        for e, x in zip(elts, vals):
            self.assign(e, x)

    def unpack_choice(self, elts, v):
        def side(x):
            vals = self.to_list(x, len(elts))
            if vals is None:
                return tuple(self.opaque('unpack', x) for _ in elts)
            if len(vals) != len(elts):
                self.raise_('ValueError', 'unpack')
            return tuple(vals)
        r = self.distribute(v, side)
        for e, x in zip(elts, r):
            self.assign(e, x)

    def to_list(self, v, want=None):
        """python list of the items of an iterable with known length, else None"""
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, PyList):
            c = self.st.heap[v.id]
            if any(isinstance(x, Rep) for x in c):
                return None
            return list(c)
        if isinstance(v, PyDict):
            return list(self.st.heap[v.id].keys())
        if isinstance(v, Arr):
            n = self.node(v)
            if n.shape is None:
                return None
            if not n.shape:
                self.raise_('TypeError', 'iteration over a 0-d array')
            d = n.shape[0]
            if isinstance(d, int):
                return [self.view(v, ('index', (i,) + (':',) * (len(n.shape) - 1))) for i in range(d)]
            if want is not None:
                self.raise_('ValueError', 'unpacking an array of unknown extent')
            return None
        if isinstance(v, SymIter):
            if isinstance(v.dim, int):
                return [v.elemfn(i) for i in range(v.dim)]
            return None
        if isinstance(v, ExtObj) and v.kind == 'range':
            return list(v.info['items']) if v.info.get('items') is not None else None
        if isinstance(v, Inst):
            m, _ = v.cls.lookup('__iter__')
            if m is not None:
                return self.to_list(self.call(Bound(m, v), [], {}), want)
            self.raise_('TypeError', 'object is not iterable')
        if v is None or isinstance(v, (int, float)):
            self.raise_('TypeError', 'not iterable')
        return None

    def x_AugAssign(self, s):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            self.assign_name(t.id, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr)
            self.setattr(obj, t.attr, self.inplace(op, cur, self.eval(s.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.getitem(obj, idx)
            new = self.binop(op, cur, self.eval(s.value))
            self.setitem(obj, idx, new, aug=op)

    def inplace(self, op, cur, val):
        if isinstance(cur, Choice):
            return self.distribute(cur, lambda c: self.inplace(op, c, val))
        if isinstance(cur, Arr) and not cur.py:
            n = self.node(cur)
            if n.shape is not None and n.shape != ():
                new = self.binop(op, cur, val)
                nn = self.node(new)
                if nn.shape is not None and nn.shape != n.shape:
                    raise g.ShapeErr('in-place result of shape %s does not fit %s' % (nn.shape, n.shape))
                if cur.dt == 'i' and op == 'Div':
                    self.effect('dtype', what='in-place true division of an integer array')
                self.store_all(cur, nn, self.dt(new))
                return cur
        if isinstance(cur, PyList) and op == 'Add' and cur.kind == 'list':
            items = self.to_list(val)
            self.mutate(cur, 'list +=')
            self.st.heap[cur.id] = self.st.heap[cur.id] + (tuple(items) if items is not None else (Rep(('?', 'k'), self.opaque('iter', val)),))
            return cur
        if isinstance(cur, Inst):
            m, _ = cur.cls.lookup('__i%s__' % DUNDER.get(op, op.lower()))
            if m is not None:
                return self.call(Bound(m, cur), [val], {})
        return self.binop(op, cur, val)

    def x_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        self.frames[-1].returns.append((v, self.st))
        self.st = None

    def x_Raise(self, s):
        if s.exc is None:
            exc = getattr(self, 'cur_exc', None) or ExcVal('RuntimeError')
        else:
            v = self.eval(s.exc)
            if isinstance(v, ExcClass):
                exc = ExcVal(v.name)
            elif isinstance(v, ExcVal):
                exc = v
            elif isinstance(v, (ClassVal,)):
                exc = ExcVal(v.name)
            elif isinstance(v, Inst):
                exc = ExcVal(v.cls.name)
            else:
                exc = ExcVal('Exception')
        self.effect('raise', exc=exc.name)
        raise PyRaise(exc, self.loc)

    def x_Assert(self, s):
        c = self.truth(self.eval(s.test))
        if c is True:
            return
        if c is False:
            self.raise_('AssertionError')
        self.fork(c, lambda: None, lambda: self.raise_('AssertionError'))

    def x_If(self, s):
        c = self.truth(self.eval(s.test))
        if not isinstance(c, bool):
            k = self.known(c)
            if k is not None:
                c = k
        if c is True:
            return self.exec_block(s.body)
        if c is False:
            return self.exec_block(s.orelse)
        s0 = self.st
        outs = []
        for truth, body in ((True, s.body), (False, s.orelse)):
            self.st = s0.assume(c, truth)
            self.guarded(lambda: self.exec_block(body))
            if self.st is not None:
                outs.append((None, self.st))
        if not outs:
            self.st = None
            return
        _v, self.st = self.merge_many(outs)

    def guarded(self, f):
        depth = len(self.frames)
        try:
            f()
        except PyRaise as e:
            del self.frames[depth:]
            self.to_sink(e)
            self.st = None
        except DeadPath:
            del self.frames[depth:]
            self.st = None

    def x_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            self.setloc(d)
            dv = self.eval(d)
            r = self.call(dv, [f], {})
            if isinstance(r, (Func, Property, StaticM, ClassM, Deprecated, Memo, Partial, Bound, Builtin)):
                f = r
            else:
                self.gap('decorator result of %s' % s.name)
        self.assign_name(s.name, f)

    def make_func(self, s):
        fr = self.frames[-1]
        mod = fr.module if fr.func is None else fr.func.module
        if fr.func is None:
            envs = () if not getattr(fr, 'is_class', False) else tuple(fr.outer)
            prefix = mod.name + '.' + (getattr(fr, 'cname', '') + '.' if getattr(fr, 'is_class', False) else '')
        else:
            envs = (fr.env,) + tuple(fr.func.envs)
            prefix = fr.func.qualname + '.<locals>.'
        f = Func(s, mod, envs, prefix + getattr(s, 'name', '<lambda>'))
        f.file = self.curfile
        if not isinstance(s, ast.Lambda):
            f.doc = ast.get_docstring(s, clean=False)
        a = s.args
        f.defaults = [self.eval(d) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.cls = getattr(fr, 'classval', None)
        return f

    def x_ClassDef(self, s):
        fr = self.frames[-1]
        mod = fr.module if fr.func is None else fr.func.module
        bases = [self.eval(b) for b in s.bases]
        env = self.new_id('class body ' + s.name)
        self.st.heap[env] = {}
        cf = Frame(None, env)
        cf.module = mod
        cf.is_class = True
        cf.cname = s.name
        cf.outer = [] if fr.func is None else [fr.env] + list(fr.func.envs)
        cls = ClassVal(s.name, [b for b in bases if isinstance(b, ClassVal)], {}, mod, s)
        cls.ext_bases = [b for b in bases if not isinstance(b, ClassVal)]
        cls.file = self.curfile
        cf.classval = cls
        self.frames.append(cf)
        self.exec_block(s.body)
        self.frames.pop()
        cls.attrs = dict(self.st.heap[env])
        cls.attrs.setdefault('__doc__', ast.get_docstring(s, clean=False))
        if any(isinstance(b, BuiltinType) and b.name == 'NamedTuple' or isinstance(b, ExtRef) and b.path == 'typing.NamedTuple' for b in bases):
            fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
            self.assign_name(s.name, NTClass(s.name, fields))
            return
        if any(isinstance(b, NTClass) for b in bases):
            self.gap('class derived from namedtuple')
        v = cls
        for d in reversed(s.decorator_list):
            r = self.call(self.eval(d), [v], {})
            if isinstance(r, ClassVal):
                v = r
            else:
                self.gap('class decorator on %s' % s.name)
        self.assign_name(s.name, v)

    def x_Import(self, s):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.assign_name(a.asname, m)
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.import_module(top) if top == self.package else ExtRef(top))

    def x_ImportFrom(self, s):
        fr = self.frames[-1]
        mod = fr.module if fr.func is None else fr.func.module
        if s.level:
            base = mod.name.split('.')
            if not self.module_path(mod.name).endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([s.module] if s.module else []))
        else:
            name = s.module
        if name == '__future__':
            return
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ExtRef):
                    self.gap('star import of %s' % name)
                    continue
                d = self.st.heap[m.env]
                all_ = d.get('__all__')
                names = self.to_list(all_) if all_ is not None else [k for k in d if not k.startswith('_')]
                for k in names:
                    if k in d:
                        self.assign_name(k, d[k])
                    else:
                        self.raise_('AttributeError', 'module %s has no attribute %s' % (name, k))
                continue
            v = self.modget(m, a.name)
            if v is None:
                self.raise_('ImportError', 'cannot import name %s from %s' % (a.name, name))
            self.assign_name(a.asname or a.name, v)

    def x_Global(self, s):
        self.frames[-1].globals_.update(s.names)

    def x_Nonlocal(self, s):
        self.frames[-1].nonlocals.update(s.names)

    def x_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                d = dict(self.st.heap[self.frames[-1].env])
                d.pop(t.id, None)
                self.st.heap[self.frames[-1].env] = d
            elif isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                idx = self.eval_index(t.slice)
                if isinstance(obj, PyDict):
                    self.mutate(obj, 'del item')
                    d = dict(self.st.heap[obj.id])
                    d.pop(idx, None) if isinstance(idx, (str, int)) else None
                    self.st.heap[obj.id] = d
                else:
                    self.gap('del')
            elif isinstance(t, ast.Attribute):
                obj = self.eval(t.value)
                if isinstance(obj, Inst):
                    self.mutate(obj, 'del attribute ' + t.attr)
                    d = dict(self.st.heap[obj.id])
                    d.pop(t.attr, None)
                    self.st.heap[obj.id] = d

    def x_With(self, s):
        for it in s.items:
            v = self.eval(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.exec_block(s.body)

    def x_Try(self, s):
        self.sinks.append([])
        depth = len(self.frames)
        outs = []
        try:
            self.exec_block(s.body)
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
        except PyRaise as e:
            del self.frames[depth:]
            self.to_sink(e)
            self.st = None
        except DeadPath:
            del self.frames[depth:]
            self.st = None
        caught = self.sinks.pop()
        if self.st is not None:
            outs.append((None, self.st))
        for exc, state, loc in caught:
            handled = False
            for h in s.handlers:
                if self.matches(h, exc, state):
                    handled = True
                    self.st = state
                    if h.name:
                        self.assign_name(h.name, exc)
                    self.cur_exc = exc
                    self.guarded(lambda: self.exec_block(h.body))
                    if self.st is not None:
                        outs.append((None, self.st))
                    break
            if not handled:
                self.sinks[-1].append((exc, state, loc))
        if outs:
            _v, self.st = self.merge_many(outs)
        else:
            self.st = None
        if s.finalbody and self.st is not None:
            self.exec_block(s.finalbody)
        if not outs and caught and self.st is None:
            pass

    def matches(self, h, exc, state):
        if h.type is None:
            return True
        save = self.st
        self.st = state
        t = self.eval(h.type)
        self.st = save
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(x, ExcClass) and exc_is(exc.name, x.name):
                return True
            if isinstance(x, ExtRef) and exc_is(exc.name, x.path.split('.')[-1]):
                return True
            if isinstance(x, ClassVal) and x.name == exc.name:
                return True
        return False

    # loops
    def x_Break(self, s):
        self.frames[-1].loops[-1]['break'].append((None, self.st))
        self.st = None

    def x_Continue(self, s):
        self.frames[-1].loops[-1]['continue'].append((None, self.st))
        self.st = None

    def loop_body(self, s, bind):
        """one iteration; returns (normal end reached?)"""
        fr = self.frames[-1]
        fr.loops[-1]['continue'] = []
        depth = len(self.frames)
        bind()
        self.exec_block(s.body)
        outs = list(fr.loops[-1]['continue'])
        if self.st is not None:
            outs.append((None, self.st))
        if outs:
            _v, self.st = self.merge_many(outs)
        else:
            self.st = None

    def x_For(self, s):
        it = self.eval(s.iter)
        if isinstance(it, Choice):
            k = self.known(it.cond)
            if k is not None:
                it = it.a if k else it.b
        items, sym = self.iterate(it)
        fr = self.frames[-1]
        if items is not None and len(items) <= MAXUNROLL * 4:
            fr.loops.append({'break': [], 'continue': []})
            for x in items:
                self.loop_body(s, lambda: self.assign(s.target, x))
                if self.st is None:
                    break
            brk = fr.loops.pop()['break']
            if self.st is not None and s.orelse:
                self.exec_block(s.orelse)
            outs = list(brk)
            if self.st is not None:
                outs.append((None, self.st))
            if outs:
                _v, self.st = self.merge_many(outs)
            return
        if sym is None:
            sym = SymIter('?', lambda loop: self.opaque('iter', it))
        self.loopn += 1
        loop = ('L%d' % self.loopn, sym.dim)
        self.generic_loop(s, loop, lambda: self.assign(s.target, sym.elemfn(loop)))
        if self.st is not None and s.orelse:
            self.exec_block(s.orelse)

    def x_While(self, s):
        fr = self.frames[-1]
        outs = []
        for _k in range(MAXUNROLL):
            c = self.truth(self.eval(s.test))
            if c is False:
                break
            if c is not True:
                # data dependent iteration count
                self.loopn += 1
                loop = ('W%d' % self.loopn, '?')
                self.gap('while loop with a data dependent condition')
                self.generic_loop(s, loop, lambda: None, cond=c)
                break
            fr.loops.append({'break': [], 'continue': []})
            self.loop_body(s, lambda: None)
            outs.extend(fr.loops.pop()['break'])
            if self.st is None:
                break
        else:
            self.gap('while loop not unrolled completely')
        if self.st is not None:
            outs.append((None, self.st))
        if outs:
            _v, self.st = self.merge_many(outs)
        else:
            self.st = None

    def generic_loop(self, s, loop, bind, cond=None):
        """one abstract iteration for an unknown number of iterations"""
        fr = self.frames[-1]
        pre = self.st
        lid, dim = loop
        # pass 1: discover what the body modifies
        self.quiet += 1
        nsink = len(self.sinks[-1])
        nret = len(fr.returns)
        self.st = pre.copy()
        fr.loops.append({'break': [], 'continue': []})
        self.guarded(lambda: self.loop_body(s, bind))
        end1 = self.st
        rec = fr.loops.pop()
        del self.sinks[-1][nsink:]
        del fr.returns[nret:]
        self.quiet -= 1
        changed = []
        if end1 is not None:
            for i, v in pre.heap.items():
                w = end1.heap.get(i, v)
                if w is not v:
                    changed.append(i)
        # pass 2: havoc loop-carried arrays and locals
        st = pre.copy()
        st.pc = st.pc
        carried = {}
        for i in changed:
            v = pre.heap[i]
            if isinstance(v, g.Node):
                st.heap[i] = g.mk('mu', (v,), (lid, i), v.shape)
                carried[i] = ('cell', v)
            elif isinstance(v, dict):
                nd = dict(v)
                w = end1.heap[i]
                for k in set(v) | set(w):
                    if k not in v:
                        continue
                    if k in w and w[k] is v[k]:
                        continue
                    old = v[k]
                    if self.isnum(old):
                        save = self.st
                        self.st = st
                        on = self.node(old)
                        mu = g.mk('mu', (on,), (lid, (i, k)), on.shape)
                        nd[k] = self.new_arr(mu, self.dt(old) if self.dt(old) == self.dt(w.get(k)) else 'f')
                        self.st = save
                        carried[(i, k)] = ('var', on, mu)
                    elif isinstance(old, (PyList, PyDict, Inst)) and isinstance(w.get(k), type(old)) and w[k].id == old.id:
                        pass
                    else:
                        save = self.st
                        self.st = st
                        nd[k] = self.opaque('carried', old, w.get(k))
                        self.st = save
                st.heap[i] = nd
        self.st = st
        base = dict(st.heap)
        fr.loops.append({'break': [], 'continue': []})
        self.guarded(lambda: self.loop_body(s, bind))
        end = self.st
        rec = fr.loops.pop()
        outs = []
        if end is not None:
            out = pre.copy()
            for i, w in end.heap.items():
                if i not in pre.heap:
                    out.heap[i] = w
                    continue
                v0 = pre.heap[i]
                b = base.get(i)
                if w is b and v0 is b:
                    continue
                if isinstance(w, g.Node):
                    out.heap[i] = self.close_cell(loop, v0, b, w)
                elif isinstance(w, tuple) and isinstance(v0, tuple):
                    if len(w) >= len(v0) and w[:len(v0)] == v0:
                        out.heap[i] = v0 + tuple(Rep(loop, x) for x in w[len(v0):])
                    else:
                        out.heap[i] = w
                elif isinstance(w, dict):
                    nd = dict(w)
                    for k in list(w):
                        if (i, k) in carried:
                            _kind, on, mu = carried[(i, k)]
                            save = self.st
                            self.st = end
                            wn = self.node(w[k]) if self.isnum(w[k]) else None
                            self.st = save
                            if wn is not None:
                                c = self.new_id()
                                out.heap[c] = self.close_cell(loop, on, mu, wn)
                                nd[k] = Arr(c, (), self.dt(w[k]))
                    out.heap[i] = nd
            outs.append((None, out))
        for _v, bs in rec['break']:
            # leaving early: contents after an unknown number of iterations
            outs.append((None, bs))
        if not outs:
            # every iteration leaves: the loop may also run zero times
            self.st = pre
            return
        # facts of the generic iteration do not survive the loop
        clean = []
        for v, o in outs:
            o2 = State(o.heap, pre.pc, pre.facts)
            clean.append((v, o2))
        if len(clean) == 1:
            self.st = clean[0][1]
        else:
            c = g.mk('truth', (), 'loop-exit%s' % lid, ())
            a = clean[0]
            for b in clean[1:]:
                sa = State(a[1].heap, a[1].pc + ((c, True),), a[1].facts)
                sb = State(b[1].heap, b[1].pc + ((c, False),), b[1].facts)
                a = self.merge_two((None, sa), (None, sb))
            self.st = a[1]

    def close_cell(self, loop, init, mu, out):
        """value of a loop-carried quantity after the loop"""
        if out is mu:
            return init
        lid, dim = loop

        def has(n, x):
            return any(m is x for m in g.walk(n))
        if out.op == 'storeat' and out.args[0] is mu and out.attr[1] == lid and not has(out.args[1], mu):
            ax = out.attr[0]
            col = g.collect(out.args[1], loop)
            if col.shape is not None:
                perm = list(range(1, ax + 1)) + [0] + list(range(ax + 1, len(col.shape)))
                col = g.axes(col, perm)
                if col.shape == init.shape:
                    return col
        if out.op == 'add' and mu in out.args and mu.shape == out.shape:
            k = out.args.index(mu)
            rest = [(c, a) for c, a in zip(out.attr[1], out.args) if a is not mu]
            if out.attr[1][k] == 1 and not any(has(a, mu) for _c, a in rest) and dim != '?':
                t = g.add(g.const(out.attr[0]), *rest)
                s = g.reduce_('sum', g.collect(t, loop), (0,))
                return g.add(init, s)
        if out.shape == init.shape and not has(out, mu) and out.op != 'storeat':
            # overwritten by every iteration: value of the last one
            return g.mk('last', (out,), (lid, dim), out.shape)
        return g.mk('loopout', (init, out), (lid, dim), init.shape if init.shape == out.shape else None)

    def iterate(self, v):
        """(list of values | None, SymIter | None)"""
        if isinstance(v, SymIter) and not isinstance(v.dim, int):
            return None, v
        if isinstance(v, PyList):
            c = self.st.heap[v.id]
            if any(isinstance(x, Rep) for x in c):
                if len(c) == 1:
                    rep = c[0]
                    return None, SymIter(rep.loop[1], lambda loop: self.subst_val(rep.val, rep.loop[0], loop[0]))
                return None, None
        if isinstance(v, Arr):
            n = self.node(v)
            if n.shape and not isinstance(n.shape[0], int):
                return None, SymIter(n.shape[0], lambda loop: self.view(v, ('elem', (0, loop))))
        if isinstance(v, Opaque):
            return None, None
        return self.to_list(v), None

    def subst_val(self, v, old, new):
        if isinstance(v, Arr):
            return self.new_arr(g.subst_loop(self.node(v), old, new), v.dt)
        if isinstance(v, tuple):
            return tuple(self.subst_val(x, old, new) for x in v)
        if isinstance(v, Opaque):
            return Opaque(v.tag, [g.subst_loop(n, old, new) for n in v.nodes])
        return v

    # ------------------------------------------------------------ mutation and effects
    def mutate(self, obj, what):
        """structural mutation of an instance/list/dict"""
        b = self.birth.get(obj.id)
        self.effect('mutate', what=what, birth=b, label=self.label.get(obj.id), obj=obj)

    def store_effect(self, arr, what, valdt, val=None):
        cells = {arr.cell} | self.alias.get(arr.cell, set())
        for c in sorted(cells):
            self.effect('store', what=what, birth=self.birth.get(c), label=self.label.get(c), cell=c,
                        dt=arr.dt, valdt=valdt, val=val)

    def store_all(self, arr, node, valdt):
        self.store_effect(arr, 'in-place operator', valdt, node)
        self.put_view(arr, node)

    def put_view(self, arr, node):
        """write node as the whole content seen through arr"""
        base = self.st.heap[arr.cell]
        self.st.heap[arr.cell] = self.put_through(base, arr.views, node)

    def put_through(self, base, views, val):
        if not views:
            return g.bcast(val, base.shape)
        kind, arg = views[0]
        inner_before = self.apply_view(base, views[0])
        new_inner = self.put_through(inner_before, views[1:], val)
        if kind == 'axes':
            # inverse permutation (only size one axes are added/dropped)
            perm = arg
            inv = []
            for i in range(len(base.shape)):
                inv.append(perm.index(i) if i in perm else None)
            return g.axes(new_inner, inv)
        if kind == 'index':
            return self.store_spec(base, list(arg), new_inner)
        if kind == 'reshape':
            try:
                return g.reshape(new_inner, base.shape)
            except g.ShapeErr:
                pass
        if kind == 'elem':
            ax, loop = arg
            return g.mk('storeat', (base, new_inner), (ax, loop[0]), base.shape)
        return g.mk('opaque', (base, val), 'store-through-%s' % kind, base.shape)

    def store_spec(self, base, spec, val):
        """base with base[spec] = val; spec entries int | ':' | slice | ('mask', node) | ('loop', loop) | ('adv', node)"""
        nd = len(base.shape)
        # align val with the axes of base
        loops = [i for i, sp in enumerate(spec) if isinstance(sp, tuple) and sp[0] == 'loop']
        ints = [i for i, sp in enumerate(spec) if isinstance(sp, int) or i in loops]
        if any(isinstance(sp, tuple) and sp[0] == 'adv' for sp in spec):
            extra = [sp[1] for sp in spec if isinstance(sp, tuple) and sp[0] == 'adv']
            return g.mk('scatter', (base, val) + tuple(extra), tuple('adv' if isinstance(sp, tuple) and sp[0] == 'adv' else str(sp) for sp in spec), base.shape)
        masks = [(i, sp[1]) for i, sp in enumerate(spec) if isinstance(sp, tuple) and sp[0] == 'mask']
        full = [sp for sp in spec if isinstance(sp, tuple) and sp[0] == 'fullmask']
        if val.shape is None:
            conds = [m for _i, m in masks] + [sp[1] for sp in full]
            return g.mk('opaque', (base, val) + tuple(conds), 'store', base.shape)
        if full:
            m = full[0][1]
            k = len(m.shape)
            cond = g.axes(m, list(range(k)) + [None] * (nd - k))
            # val has shape (count,) + trailing
            v = self.ungather(val, m)
            if v is None:
                return g.mk('opaque', (base, cond, val), 'masked-store', base.shape)
            return g.fn('where', cond, v, base, shape=base.shape)
        sel_axes = [i for i in range(nd) if i not in ints]
        v = val
        if len(v.shape) > len(sel_axes):
            extra = len(v.shape) - len(sel_axes)
            if any(d != 1 for d in v.shape[:extra]):
                raise g.ShapeErr('could not broadcast value of shape %s into selection' % (v.shape,))
            v = g.axes(v, range(extra, len(v.shape)))
        lead = len(sel_axes) - len(v.shape)
        perm = []
        for i in range(nd):
            if i in ints:
                perm.append(None)
            else:
                k = sel_axes.index(i) - lead
                perm.append(k if k >= 0 else None)
        v = g.axes(v, perm)
        for i, m in masks:
            if v.shape[i] != 1:
                v2 = self.ungather(v, m, i)
                if v2 is None:
                    return g.mk('opaque', (base, m, v), 'masked-store', base.shape)
                v = v2
        if loops:
            if len(loops) == 1:
                ax = loops[0]
                lp = spec[ax][1]
                rest = [':' if i == ax else sp for i, sp in enumerate(spec)]
                if all(sp == ':' for sp in rest):
                    shp = tuple(d for i, d in enumerate(base.shape) if i != ax)
                    vv = g.axes(v, [i for i in range(nd) if i != ax])
                    return g.mk('storeat', (base, g.bcast(vv, shp)), (ax, lp[0]), base.shape)
                # partial store at the loop index: base[:, i][rest] = v
                inner = g.elem_axis(base, ax, lp) if base.op != 'storeat' or base.attr != (ax, lp[0]) else base.args[1]
                rest2 = [sp for i, sp in enumerate(spec) if i != ax]
                selv = g.axes(v, [i for i in range(nd) if i != ax])
                keep = [j for j, sp in enumerate(rest2) if not isinstance(sp, int)]
                selv = g.axes(selv, keep)
                newv = self.store_spec(inner, rest2, selv)
                b0 = base.args[0] if base.op == 'storeat' and base.attr == (ax, lp[0]) else base
                return g.mk('storeat', (b0, newv), (ax, lp[0]), base.shape)
            return g.mk('opaque', (base, val), 'store', base.shape)

        def rec(b, vv, i):
            if i == nd:
                out = vv
                if masks:
                    c = None
                    for ax, m in masks:
                        al = g.axes(m, [None] * ax + [0] + [None] * (nd - ax - 1))
                        c = al if c is None else g.fn('and', c, al)
                    return g.fn('where', c, out, b, shape=b.shape)
                return g.bcast(out, b.shape)
            sp = spec[i]
            if sp == ':' or (isinstance(sp, tuple) and sp[0] == 'mask'):
                return rec(b, vv, i + 1)
            d = b.shape[i]
            if isinstance(sp, int):
                if isinstance(d, int):
                    k = sp % d if -d <= sp < d else None
                    if k is None:
                        raise g.ShapeErr('index out of bounds in store')
                    lo, hi = k, k + 1
                else:
                    return g.mk('opaque', (b, vv), 'store-symbolic-axis', b.shape)
            else:
                if not isinstance(d, int) or sp[3] != 1:
                    return g.mk('opaque', (b, vv), 'store-slice', b.shape)
                lo, hi = sp[1], sp[2]
            parts = []
            full_ = [':'] * nd

            def cut(a, c):
                s2 = list(full_)
                s2[i] = g.norm_slice((a, c, 1), d)
                return g.index(b, s2)
            if lo > 0:
                parts.append(cut(0, lo))
            parts.append(rec(cut(lo, hi), vv, i + 1))
            if hi < d:
                parts.append(cut(hi, d))
            return g.concat(parts, i)
        return rec(base, v, 0)

    def ungather(self, val, mask, ax=0):
        """rewrite a value computed on gathered elements to the full extent"""
        if val.shape is None:
            return None
        if all(d == 1 for d in val.shape):
            return g.axes(val, ())
        memo = {}

        def go(n):
            if n.id in memo:
                return memo[n.id]
            if n.op == 'gather' and n.args[1] is mask:
                r = n.args[0]
            elif n.op == 'const' and n.attr[0] != 'arr':
                r = g.const(g.cval(n))
            elif all(isinstance(d, int) and d == 1 for d in (n.shape or ())) and n.shape is not None:
                r = n
            elif n.op in g.POINTWISE:
                args = [go(a) for a in n.args]
                if any(a is None for a in args):
                    r = None
                else:
                    r = g.rebuild(n, args)
            else:
                r = None
            memo[n.id] = r
            return r
        return go(val)

    # ------------------------------------------------------------ attributes
    def getattr(self, obj, name, default=UNDEF):
        try:
            return self.getattr_(obj, name)
        except PyRaise as e:
            if default is not UNDEF and e.exc.name == 'AttributeError':
                return default
            raise

    def getattr_(self, obj, name):
        if isinstance(obj, Choice):
            return self.distribute(obj, lambda o: self.getattr_(o, name))
        if isinstance(obj, Inst):
            c, owner = obj.cls.lookup(name)
            if isinstance(c, Property):
                return self.call(c.fget, [obj], {})
            d = self.st.heap[obj.id]
            if name in d:
                v = d[name]
                if isinstance(v, Choice) and isinstance(v.a, Undef) != isinstance(v.b, Undef):
                    def pick(x):
                        if isinstance(x, Undef):
                            self.raise_('AttributeError', name)
                        return x
                    return self.distribute(v, pick)
                if isinstance(v, Undef):
                    self.raise_('AttributeError', name)
                return v
            if owner is not None:
                return self.bind(c, obj, obj.cls)
            if name == '__class__':
                return obj.cls
            if name == '__dict__':
                return PyDict(obj.id, 'instdict')
            if name == '__doc__':
                return None
            if name in ('__eq__', '__ne__', '__hash__', '__repr__', '__str__', '__init__', '__setattr__', '__getattribute__'):
                return Builtin('object.' + name, lambda I, a, k: self.object_method(name, obj, a, k))
            ga, _o = obj.cls.lookup('__getattr__')
            if ga is not None:
                return self.call(Bound(ga, obj), [name], {})
            if getattr(obj.cls, 'ext_bases', None) and any(not (isinstance(b, BuiltinType) and b.name == 'object') for b in obj.cls.ext_bases):
                return self.opaque('attr:' + name, obj)
            self.raise_('AttributeError', "'%s' object has no attribute '%s'" % (obj.cls.name, name))
        if isinstance(obj, ClassVal):
            c, owner = obj.lookup(name)
            if owner is not None:
                if isinstance(c, StaticM):
                    return c.func
                if isinstance(c, ClassM):
                    return Bound(c.func, obj)
                return c
            if name == '__name__':
                return obj.name
            if name == '__doc__':
                return None
            if name == '__mro__':
                return tuple(obj.mro())
            if name in ('__init__', '__setattr__', '__eq__', '__new__'):
                return Builtin('object.' + name, lambda I, a, k: self.object_method(name, a[0], a[1:], k))
            self.raise_('AttributeError', name)
        if isinstance(obj, Super):
            inst = obj.self_
            mro = (inst.cls if isinstance(inst, Inst) else inst).mro()
            k = mro.index(obj.cls) if obj.cls in mro else -1
            for c in mro[k + 1:]:
                if name in c.attrs:
                    return self.bind(c.attrs[name], inst, c)
            return Builtin('object.' + name, lambda I, a, k2: self.object_method(name, inst, a, k2))
        if isinstance(obj, ModuleVal):
            v = self.modget(obj, name)
            if v is None:
                self.raise_('AttributeError', 'module %s has no attribute %s' % (obj.name, name))
            return v
        if isinstance(obj, ExtRef):
            v = self.np.ext_attr(self, obj, name)
            return v
        if isinstance(obj, NTuple) and name in obj.fields:
            return obj[obj.fields.index(name)]
        if isinstance(obj, Opaque):
            return Opaque(obj.tag + '.' + name, obj.nodes)
        if isinstance(obj, (Func, Deprecated, Memo, Builtin, Partial, Bound)):
            f = obj
            while isinstance(f, (Deprecated, Memo, Bound)):
                f = f.func
            if name == '__doc__':
                return f.doc if isinstance(f, Func) else None
            if name == '__name__':
                return f.name if isinstance(f, Func) else 'f'
            extra = getattr(f, 'attrs_id', None)
            if extra is not None and name in self.st.heap.get(extra, {}):
                return self.st.heap[extra][name]
            if name in ('__wrapped__',):
                return f
            if name == '__call__':
                return obj
            if isinstance(obj, Memo):
                return self.opaque('memo.' + name)
            if isinstance(obj, Bound) and name == '__self__':
                return obj.self_
            if isinstance(f, Func) and name in ('__module__', '__qualname__', '__dict__', '__defaults__'):
                return self.opaque('func.' + name)
            self.raise_('AttributeError', name)
        if isinstance(obj, Property) and name in ('setter', 'getter', 'deleter'):
            return Builtin('property.' + name, lambda I, a, k: Property(obj.fget, a[0]) if name == 'setter' else (Property(a[0], obj.fset) if name == 'getter' else obj))
        return self.np.value_attr(self, obj, name)

    def bind(self, c, obj, cls):
        if isinstance(c, (Func, Deprecated, Memo)):
            return Bound(c, obj)
        if isinstance(c, StaticM):
            return c.func
        if isinstance(c, ClassM):
            return Bound(c.func, cls)
        if isinstance(c, Property):
            return self.call(c.fget, [obj], {})
        if isinstance(c, Builtin) and getattr(c, 'method', False):
            return Bound(c, obj)
        return c

    def object_method(self, name, obj, a, k):
        if name == '__setattr__':
            self.setattr_raw(obj, a[0], a[1])
            return None
        if name == '__eq__':
            return self.is_(obj, a[0]) if self.is_(obj, a[0]) is True else NOTIMPL
        if name == '__ne__':
            return not self.is_(obj, a[0])
        if name == '__init__':
            return None
        if name == '__getattribute__':
            return self.getattr(obj, a[0])
        if name == '__hash__':
            return self.opaque('hash')
        return self.opaque('object.' + name, obj)

    def setattr(self, obj, name, val):
        if isinstance(obj, Choice):
            return self.distribute(obj, lambda o: self.setattr(o, name, val))
        if isinstance(obj, Inst):
            m, _ = obj.cls.lookup('__setattr__')
            if m is not None:
                self.call(Bound(m, obj), [name, val], {})
                return
            c, _o = obj.cls.lookup(name)
            if isinstance(c, Property):
                if c.fset is None:
                    self.raise_('AttributeError', "can't set attribute " + name)
                self.call(c.fset, [obj, val], {})
                return
            self.setattr_raw(obj, name, val)
            return
        if isinstance(obj, ClassVal):
            self.effect('classattr', cls=obj.name, name=name, value=val)
            obj.attrs[name] = val
            return
        if isinstance(obj, ModuleVal):
            self.effect('global', name='%s.%s' % (obj.name, name), value=val)
            self.env_set(obj.env, name, val)
            return
        if isinstance(obj, (Func, Deprecated, Memo, Partial)):
            if isinstance(obj, Func) and name == '__doc__':
                return
            self.effect('funcattr', name=name, func=getattr(obj, 'qualname', '?'), value=val)
            f = obj
            if isinstance(f, Func):
                if getattr(f, 'attrs_id', None) is None:
                    f.attrs_id = self.new_id()
                    self.st.heap[f.attrs_id] = {}
                self.st.heap[f.attrs_id] = dict(self.st.heap.get(f.attrs_id, {}), **{name: val})
            return
        if isinstance(obj, ExtRef):
            self.effect('extattr', path=obj.path, name=name)
            return
        if isinstance(obj, Arr):
            if name == 'shape':
                dims = [self.np.to_dim(self, x) for x in self.to_list(val)] if not isinstance(val, int) else [val]
                n = self.node(obj)
                self.store_effect(obj, 'assignment to .shape', obj.dt)
                if obj.views == ():
                    self.st.heap[obj.cell] = g.reshape(n, dims)
                return
            self.store_effect(obj, 'assignment to .%s' % name, obj.dt)
            return
        if isinstance(obj, (Opaque, ExtObj)):
            self.effect('setattr-opaque', name=name)
            return
        self.raise_('AttributeError', 'cannot set ' + name)

    def setattr_raw(self, obj, name, val):
        d = self.st.heap[obj.id]
        fresh = self.birth.get(obj.id) == self.phase
        self.effect('setattr', name=name, birth=self.birth.get(obj.id), label=self.label.get(obj.id), obj=obj,
                    value=val, fresh=fresh)
        self.st.heap[obj.id] = dict(d, **{name: val})

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwds):
        if isinstance(f, Choice):
            return self.distribute(f, lambda x: self.call(x, args, kwds))
        if isinstance(f, Func):
            return self.call_func(f, args, kwds)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kwds)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + list(args), dict(f.kwds, **kwds))
        if isinstance(f, Deprecated):
            self.effect('warn', category='DeprecationWarning', via='deprecate', old=f.old, new=f.new)
            return self.call(f.func, args, kwds)
        if isinstance(f, Memo):
            v = self.call(f.func, args, kwds)
            if not self.immutable(v):
                self.effect('memo', func=getattr(f.func, 'qualname', '?'))
            return v
        if isinstance(f, Builtin):
            return f.impl(self, list(args), dict(kwds))
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwds)
        if isinstance(f, NTClass):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            for k, v in kwds.items():
                if k not in f.fields:
                    self.raise_('TypeError', k)
                vals[f.fields.index(k)] = v
            return NTuple.make(f.name, tuple(f.fields), vals)
        if isinstance(f, ExcClass):
            return ExcVal(f.name, tuple(args))
        if isinstance(f, ExtRef):
            return self.np.ext_call(self, f.path, list(args), dict(kwds))
        if isinstance(f, BuiltinType):
            return self.np.call_type(self, f.name, list(args), dict(kwds))
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.func, args, kwds)
        if isinstance(f, Inst):
            m, _ = f.cls.lookup('__call__')
            if m is not None:
                return self.call(Bound(m, f), args, kwds)
            self.raise_('TypeError', 'object is not callable')
        if isinstance(f, Opaque):
            for a in list(args) + list(kwds.values()):
                if isinstance(a, (Func,)) and len(args) == 1 and f.tag.startswith('doc:'):
                    return a
            return self.opaque(f.tag + '()', f, list(args), list(kwds.values()))
        if isinstance(f, ExtObj):
            return self.np.call_extobj(self, f, list(args), dict(kwds))
        self.raise_('TypeError', '%r is not callable' % (f,))

    def instantiate(self, cls, args, kwds):
        i = self.new_id('%s instance' % cls.name)
        self.st.heap[i] = {}
        inst = Inst(i, cls)
        nw, _ = cls.lookup('__new__')
        if nw is not None:
            r = self.call(nw.func if isinstance(nw, StaticM) else nw, [cls] + list(args), kwds)
            if not isinstance(r, Inst):
                return r
            inst = r
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call(Bound(init, inst), args, kwds)
        elif args and not getattr(cls, 'ext_bases', None):
            self.raise_('TypeError', '%s takes no arguments' % cls.name)
        if cls.name.endswith('Error') or any(isinstance(b, ExcClass) for b in getattr(cls, 'ext_bases', [])):
            return ExcVal(cls.name, tuple(args))
        return inst

    def bind_args(self, f, args, kwds):
        a = f.node.args
        pos = [p.arg for p in getattr(a, 'posonlyargs', [])] + [p.arg for p in a.args]
        env = {}
        args = list(args)
        kwds = dict(kwds)
        for p in pos:
            if args:
                if p in kwds:
                    self.raise_('TypeError', 'multiple values for %s' % p)
                env[p] = args.pop(0)
        if args:
            if a.vararg is None:
                self.raise_('TypeError', '%s() takes %d positional arguments' % (f.name, len(pos)))
            env[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        nd = len(f.defaults)
        for k, p in enumerate(pos):
            if p in env:
                continue
            if p in kwds:
                env[p] = kwds.pop(p)
            elif k >= len(pos) - nd:
                env[p] = f.defaults[k - (len(pos) - nd)]
            else:
                self.raise_('TypeError', '%s() missing argument %s' % (f.name, p))
        for p in a.kwonlyargs:
            if p.arg in kwds:
                env[p.arg] = kwds.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                self.raise_('TypeError', 'missing keyword argument %s' % p.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(kwds)
        elif kwds:
            self.raise_('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, sorted(kwds)[0]))
        return env

    def call_func(self, f, args, kwds):
        hook = self.intercept.get(f.qualname)
        if hook is not None:
            r = hook(self, f, args, kwds)
            if r is not NotImplemented:
                return r
        self.calls += 1
        self.funcs_seen.add(f.qualname)
        if self.entries is not None and '/laws/' in (getattr(self, 'curfile', None) or '') and '/laws/' not in f.file:
            self.entries.append((f.file, f.node.lineno, f.qualname))
        if len(self.frames) > MAXDEPTH or sum(1 for fr in self.frames if fr.func is f) >= MAXREC:
            self.gap('recursion limit in %s' % f.qualname)
            return self.opaque('recursion:' + f.qualname, list(args), list(kwds.values()))
        env = self.new_id()
        self.st.heap[env] = self.bind_args(f, args, kwds)
        fr = Frame(f, env)
        save = (getattr(self, 'curfile', None), self.loc)
        depth = len(self.frames)
        self.frames.append(fr)
        self.curfile = f.file
        base = self.st
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                return v
            if is_generator(f.node):
                fr.yields = self.new_list([])
            try:
                self.exec_block(f.node.body)
            except PyRaise as e:
                del self.frames[depth + 1:]
                if not fr.returns:
                    raise
                self.to_sink(e)
                self.st = None
            if self.st is not None:
                fr.returns.append((None, self.st))
            if not fr.returns:
                raise DeadPath()
            v, self.st = self.merge_many(fr.returns)
            if fr.yields is not None:
                return fr.yields
            return v
        finally:
            del self.frames[depth:]
            self.curfile, self.loc = save
            g.LOC[0] = self.loc

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.gap('expression %s' % type(e).__name__)
            return Opaque('expr:%s' % type(e).__name__)
        if hasattr(e, 'lineno'):
            self.setloc(e)
        try:
            return m(e)
        except g.ShapeErr as ex:
            self.setloc(e)
            self.effect('shape', msg=str(ex))
            raise PyRaise(ExcVal('ValueError', (str(ex),)), self.loc)

    def e_Constant(self, e):
        if isinstance(e.value, (bytes, complex)):
            return Opaque('const')
        return e.value

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        return tuple(self.eval_items(e.elts))

    def eval_items(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                items = self.to_list(v)
                if items is None:
                    if isinstance(v, PyList):
                        out.extend(self.st.heap[v.id])
                    else:
                        _l, sym = self.iterate(v)
                        self.gap('star-expansion of unknown length')
                        out.append(self.opaque('star', v))
                else:
                    out.extend(items)
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.new_list(self.eval_items(e.elts))

    def e_Set(self, e):
        return self.new_list(self.eval_items(e.elts), 'set')

    def e_Dict(self, e):
        d = {}
        opaque = False
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v)
                if isinstance(o, PyDict):
                    d.update(self.st.heap[o.id])
                else:
                    opaque = True
                continue
            kk = self.eval(k)
            vv = self.eval(v)
            d[self.key(kk)] = vv
        return self.new_dict(d)

    def key(self, k):
        if isinstance(k, (str, int, float, bool)) or k is None:
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Arr):
            n = self.node(k)
            c = g.cval(n)
            return c if c is not None else ('node', n.id)
        if isinstance(k, Inst):
            return ('inst', k.id)
        return ('obj', id(k))

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        if c is True:
            return self.eval(e.body)
        if c is False:
            return self.eval(e.orelse)
        return self.fork(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def e_BoolOp(self, e):
        return self.boolop(isinstance(e.op, ast.And), e.values)

    def boolop(self, is_and, values):
        v = self.eval(values[0])
        if len(values) == 1:
            return v
        c = self.truth(v)
        if isinstance(c, bool):
            if c != is_and:
                return v
            return self.boolop(is_and, values[1:])
        rest = lambda: self.boolop(is_and, values[1:])
        boolish = self.is_bool(v)
        short = (lambda: (not is_and)) if boolish else (lambda: v)
        if is_and:
            return self.fork(c, rest, short)
        return self.fork(c, short, rest)

    def is_bool(self, v):
        return isinstance(v, bool) or (isinstance(v, Arr) and v.dt == 'b')

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return self.unary(type(e.op).__name__, v)

    def unary(self, op, v):
        if isinstance(v, Choice):
            return self.distribute(v, lambda x: self.unary(op, x))
        if op == 'Not':
            t = self.truth(v)
            if isinstance(t, bool):
                return not t
            return self.new_arr(g.fn('not', t), 'b')
        if isinstance(v, (bool, int, float)):
            return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[op]()
        if isinstance(v, Arr):
            n = self.node(v)
            if op == 'USub':
                return self.new_arr(g.neg(n), v.dt, py=v.py)
            if op == 'UAdd':
                return self.new_arr(n, v.dt, py=v.py)
            if op == 'Invert':
                return self.new_arr(g.fn('not', n), 'b')
        if isinstance(v, Inst):
            m, _ = v.cls.lookup({'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op])
            if m is not None:
                return self.call(Bound(m, v), [], {})
            self.raise_('TypeError', 'bad operand for unary %s' % op)
        if isinstance(v, (tuple, str, PyList)) or v is None:
            self.raise_('TypeError', 'bad operand')
        return self.opaque(op, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        self.setloc(e)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Choice):
            return self.distribute(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Choice):
            return self.distribute(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Inst) or isinstance(b, Inst):
            d = DUNDER[op]
            if isinstance(a, Inst):
                m, _ = a.cls.lookup('__%s__' % d)
                if m is not None:
                    r = self.call(Bound(m, a), [b], {})
                    if r is not NOTIMPL:
                        return r
            if isinstance(b, Inst):
                m, _ = b.cls.lookup('__r%s__' % d)
                if m is not None:
                    r = self.call(Bound(m, b), [a], {})
                    if r is not NOTIMPL:
                        return r
            self.raise_('TypeError', 'unsupported operand types for %s' % op)
        return self.np.binop(self, op, a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        vals = [left]
        if len(e.ops) == 1:
            r = self.eval(e.comparators[0])
            self.setloc(e)
            return self.compare(type(e.ops[0]).__name__, left, r)
        out = None
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c)
            x = self.compare(type(op).__name__, left, r)
            left = r
            if out is None:
                out = x
            else:
                t = self.truth(out)
                if t is False:
                    return False
                if t is True:
                    out = x
                else:
                    t2 = self.truth(x)
                    t2 = g.const(t2) if isinstance(t2, bool) else t2
                    out = self.new_arr(g.fn('and', t, t2), 'b')
        return out

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (Inst, PyList, PyDict)) and isinstance(b, (Inst, PyList, PyDict)):
            return a.id == b.id
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.cell == b.cell and a.views == b.views
        if isinstance(a, (ExtRef, BuiltinType, ExcClass)):
            return a == b
        if isinstance(a, (bool, int, str)) and type(a) is type(b):
            return a == b
        if isinstance(a, float) and isinstance(b, float):
            return False
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return None
        if isinstance(a, Arr) and isinstance(b, bool) or isinstance(b, Arr) and isinstance(a, bool):
            # x is True for a boolean leaf
            arr, v = (a, b) if isinstance(a, Arr) else (b, a)
            if arr.dt == 'b':
                return None
        return False

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(a, Choice):
                return self.distribute(a, lambda x: self.compare(op, x, b))
            if isinstance(b, Choice):
                return self.distribute(b, lambda x: self.compare(op, a, x))
            r = self.is_(a, b)
            if r is None:
                if isinstance(a, Arr) or isinstance(b, Arr):
                    arr, v = (a, b) if isinstance(a, Arr) else (b, a)
                    n = self.node(arr)
                    n = n if v else g.fn('not', n)
                    n = n if op == 'Is' else g.fn('not', n)
                    return self.new_arr(n, 'b')
                return self.new_arr(g.mk('truth', tuple(self.deps_nodes([a, b])), 'is' + self.locstr(), ()), 'b')
            return r if op == 'Is' else not r
        if isinstance(a, Choice):
            return self.distribute(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Choice):
            return self.distribute(b, lambda x: self.compare(op, a, x))
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if op == 'In' else not r
            return r if op == 'In' else self.unary('Not', r)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.inst_compare(op, a, b)
        return self.np.compare(self, op, a, b)

    def inst_compare(self, op, a, b):
        d = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge'}[op]
        rd = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[d]

        def attempt(x, y, name):
            if isinstance(x, Inst):
                m, _ = x.cls.lookup('__%s__' % name)
                if m is not None:
                    return self.call(Bound(m, x), [y], {})
                if name == 'ne':
                    m, _ = x.cls.lookup('__eq__')
                    if m is not None:
                        r = self.call(Bound(m, x), [y], {})
                        return r if r is NOTIMPL else self.unary('Not', r)
            return NOTIMPL
        order = [(a, b, d), (b, a, rd)]
        if isinstance(a, Inst) and isinstance(b, Inst) and b.cls is not a.cls and b.cls.subclass_of(a.cls):
            mine, _ = b.cls.lookup('__%s__' % rd)
            theirs, _ = a.cls.lookup('__%s__' % d)
            # the reflected method of a subclass instance goes first (inherited or not, python tries it first)
            if mine is not None:
                order = [(b, a, rd), (a, b, d)]
        for x, y, name in order:
            r = attempt(x, y, name)
            if r is not NOTIMPL:
                return r
        if d == 'eq':
            return self.is_(a, b) is True
        if d == 'ne':
            return self.is_(a, b) is not True
        self.raise_('TypeError', 'not orderable')

    def contains(self, cont, x):
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        if isinstance(cont, PyDict):
            d = self.st.heap[cont.id]
            k = self.key(x)
            if isinstance(k, tuple) and k and k[0] in ('node', 'obj'):
                return self.new_arr(g.mk('truth', tuple(self.deps_nodes([x])), 'in' + self.locstr(), ()), 'b')
            if isinstance(x, str) or not d or all(not isinstance(q, tuple) for q in d):
                return k in d
            return k in d
        if isinstance(cont, (tuple, PyList)):
            items = self.to_list(cont)
            if items is not None:
                res = False
                for y in items:
                    r = self.compare('Eq', x, y)
                    t = self.truth(r)
                    if t is True:
                        return True
                    if t is False:
                        continue
                    res = t if res is False else g.fn('or', res, t)
                return res if res is False else self.new_arr(res, 'b')
        if isinstance(cont, NTGlobals):
            return x in self.st.heap[cont.module.env]
        return self.new_arr(g.mk('truth', tuple(self.deps_nodes([x, cont])), 'in' + self.locstr(), ()), 'b')

    def e_Attribute(self, e):
        v = self.eval(e.value)
        self.setloc(e)
        return self.getattr(v, e.attr)

    def e_Subscript(self, e):
        v = self.eval(e.value)
        idx = self.eval_index(e.slice)
        self.setloc(e)
        return self.getitem(v, idx)

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.to_list(self.eval(x.value)) or [])
                else:
                    out.append(self.eval_index(x))
            return tuple(out)
        if s.__class__.__name__ == 'Index':
            return self.eval_index(s.value)
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_index(e)

    def getitem(self, v, idx):
        if isinstance(v, Choice):
            return self.distribute(v, lambda x: self.getitem(x, idx))
        if isinstance(idx, Choice):
            return self.distribute(idx, lambda x: self.getitem(v, x))
        if isinstance(v, Arr):
            return self.np.arr_getitem(self, v, idx)
        if isinstance(v, (int, float, bool)):
            if idx == () or idx is Ellipsis:
                return v
            self.raise_('TypeError', 'number is not subscriptable')
        if isinstance(v, (tuple, str)):
            if isinstance(idx, (int, slice)) and not isinstance(idx, bool):
                if isinstance(idx, slice) and not all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
                    return self.opaque('slice', v)
                try:
                    r = v[idx]
                except IndexError:
                    self.raise_('IndexError', 'index')
                return r
            return self.opaque('item', v, idx)
        if isinstance(v, PyList):
            c = self.st.heap[v.id]
            if any(isinstance(x, Rep) for x in c):
                if len(c) == 1 and isinstance(idx, int):
                    return self.opaque('item', v)
                return self.opaque('item', v)
            if isinstance(idx, int):
                try:
                    return c[idx]
                except IndexError:
                    self.raise_('IndexError', 'list index')
            if isinstance(idx, slice):
                try:
                    return self.new_list(c[idx])
                except TypeError:
                    return self.opaque('slice', v)
            return self.opaque('item', v, idx)
        if isinstance(v, PyDict):
            d = self.st.heap[v.id]
            k = self.key(idx)
            if k in d:
                return d[k]
            if isinstance(idx, (Arr, Opaque)):
                return self.np.dict_symbolic(self, v, idx, d)
            self.raise_('KeyError', str(k))
        if isinstance(v, NTGlobals):
            d = self.st.heap[v.module.env]
            if isinstance(idx, str) and idx in d:
                return d[idx]
            if isinstance(idx, str):
                self.raise_('KeyError', idx)
            return self.opaque('globals')
        if isinstance(v, ExtObj):
            return self.np.extobj_getitem(self, v, idx)
        if isinstance(v, Inst):
            m, _ = v.cls.lookup('__getitem__')
            if m is not None:
                return self.call(Bound(m, v), [idx], {})
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(v, Opaque):
            return self.opaque(v.tag + '[]', v, idx if not isinstance(idx, (slice, tuple)) else None)
        if isinstance(v, ExtRef):
            return self.np.ext_getitem(self, v, idx)
        if v is None:
            self.raise_('TypeError', 'None is not subscriptable')
        self.gap('subscript of %s' % type(v).__name__)
        return self.opaque('item', v)

    def setitem(self, obj, idx, val, aug=None):
        if isinstance(obj, Choice):
            return self.distribute(obj, lambda o: self.setitem(o, idx, val, aug))
        if isinstance(obj, Arr):
            return self.np.arr_setitem(self, obj, idx, val, aug)
        if isinstance(obj, PyDict):
            self.mutate(obj, 'item assignment')
            self.st.heap[obj.id] = dict(self.st.heap[obj.id])
            self.st.heap[obj.id][self.key(idx)] = val
            return
        if isinstance(obj, PyList):
            self.mutate(obj, 'item assignment')
            c = list(self.st.heap[obj.id])
            if isinstance(idx, int) and -len(c) <= idx < len(c):
                c[idx] = val
                self.st.heap[obj.id] = tuple(c)
            else:
                self.gap('list item assignment')
            return
        if isinstance(obj, NTGlobals):
            self.effect('global', name='%s.%s' % (obj.module.name, idx), value=val)
            if isinstance(idx, str):
                self.env_set(obj.module.env, idx, val)
            return
        if isinstance(obj, Inst):
            m, _ = obj.cls.lookup('__setitem__')
            if m is not None:
                self.call(Bound(m, obj), [idx, val], {})
                return
            self.raise_('TypeError', 'no item assignment')
        if isinstance(obj, ExtRef):
            self.effect('extattr', path=obj.path, name='[]')
            return
        if isinstance(obj, (int, float, tuple, str)):
            self.raise_('TypeError', 'no item assignment')
        self.effect('setitem-opaque')

    def e_Call(self, e):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            try:
                fr = self.frames[-1]
                if not e.args:
                    cls = fr.func.cls
                    first = fr.func.node.args.args[0].arg
                    return Super(cls, self.env_get(fr.env, first))
                return Super(self.eval(e.args[0]), self.eval(e.args[1]))
            except (AttributeError, IndexError):
                self.gap('super()')
                return Opaque('super')
        if isinstance(e.func, ast.Name) and e.func.id in ('globals', 'locals', 'vars') and not e.args:
            fr = self.frames[-1]
            if e.func.id == 'globals' or fr.func is None:
                return NTGlobals(fr.module if fr.func is None else fr.func.module)
            return self.new_dict(dict(self.st.heap[fr.env]))
        f = self.eval(e.func)
        args = self.eval_items(e.args)
        kwds = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, PyDict):
                    for kk, vv in self.st.heap[v.id].items():
                        kwds[kk] = vv
                elif isinstance(v, Choice):
                    self.gap('** of a choice')
                else:
                    self.gap('** of unknown mapping')
            else:
                kwds[k.arg] = self.eval(k.value)
        self.setloc(e)
        return self.call(f, args, kwds)

    def e_Lambda(self, e):
        return self.make_func(e)

    def e_JoinedStr(self, e):
        parts = []
        nodes = []
        ok = True
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if isinstance(x, (str, int)) and v.format_spec is None and v.conversion == -1:
                    parts.append(str(x))
                else:
                    ok = False
                    nodes.append(x)
        if ok:
            return ''.join(parts)
        o = self.opaque('str', nodes)
        o.tag = 'str:' + ''.join(parts)
        return o

    def e_FormattedValue(self, e):
        return self.opaque('str', self.eval(e.value))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else None
        fr = self.frames[-1]
        if fr.yields is not None:
            self.st.heap[fr.yields.id] = self.st.heap[fr.yields.id] + (v,)
        return None

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        items = self.to_list(v)
        fr = self.frames[-1]
        if items is not None:
            self.st.heap[fr.yields.id] = self.st.heap[fr.yields.id] + tuple(items)
        else:
            self.gap('yield from')
        return None

    def comp_items(self, gens, emit):
        """run comprehension generators; emit() is called in scope; result entries (with Rep for unknown extents)"""
        def rec(k):
            if k == len(gens):
                return [emit()]
            gen = gens[k]
            it = self.eval(gen.iter)
            if isinstance(it, Choice):
                kn = self.known(it.cond)
                if kn is not None:
                    it = it.a if kn else it.b
            items, sym = self.iterate(it)
            out = []
            if items is not None:
                for x in items:
                    self.assign(gen.target, x)
                    keep = True
                    for c in gen.ifs:
                        t = self.truth(self.eval(c))
                        if t is False:
                            keep = False
                            break
                        if t is not True:
                            self.gap('comprehension filter')
                    if keep:
                        out.extend(rec(k + 1))
                return out
            if sym is None:
                sym = SymIter('?', lambda loop: self.opaque('iter', it))
            self.loopn += 1
            loop = ('L%d' % self.loopn, sym.dim)
            self.assign(gen.target, sym.elemfn(loop))
            filtered = False
            for c in gen.ifs:
                t = self.truth(self.eval(c))
                if t is not True:
                    filtered = True
            inner = rec(k + 1)
            if filtered:
                loop = (loop[0], '?')
            return [Rep(loop, x) for x in inner]
        fr = self.frames[-1]
        saved = dict(self.st.heap[fr.env])
        res = rec(0)
        # comprehension targets do not leak
        names = set()
        for gen in gens:
            for n in ast.walk(gen.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        d = dict(self.st.heap[fr.env])
        for n in names:
            if n in saved:
                d[n] = saved[n]
            else:
                d.pop(n, None)
        self.st.heap[fr.env] = d
        return res

    def e_ListComp(self, e):
        return self.new_list(self.comp_items(e.generators, lambda: self.eval(e.elt)))

    def e_SetComp(self, e):
        return self.new_list(self.comp_items(e.generators, lambda: self.eval(e.elt)), 'set')

    def e_GeneratorExp(self, e):
        return self.new_list(self.comp_items(e.generators, lambda: self.eval(e.elt)), 'gen')

    def e_DictComp(self, e):
        items = self.comp_items(e.generators, lambda: (self.eval(e.key), self.eval(e.value)))
        d = {}
        for it in items:
            if isinstance(it, Rep):
                self.gap('dict comprehension over unknown keys')
                continue
            d[self.key(it[0])] = it[1]
        return self.new_dict(d)

    # ------------------------------------------------------------ entry
    def run(self, f, args, kwds=None, phase='call'):
        """call f as an entry point; returns Outcome"""
        self.phase = phase
        self.effects = []
        self.gaps = []
        self.sinks = [[]]
        self.frames = []
        base = self.st
        out = Outcome()
        start = self.st.copy()
        try:
            out.value = self.call(f, list(args), dict(kwds or {}))
            out.returned = True
            out.state = self.st
        except PyRaise as e:
            self.to_sink(e)
            out.returned = False
            out.value = None
            out.state = None
        except DeadPath:
            out.returned = False
            out.value = None
            out.state = None
        out.raises = list(self.sinks[0])
        out.effects = self.effects
        out.gaps = self.gaps
        self.frames = []
        if self.st is None or not out.returned:
            self.st = start
        return out


class Outcome(object):
    pass


class DeadPath(Exception):
    pass


class Choice(object):
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b


def is_generator(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            # must belong to this function, not a nested one
            for m in ast.walk(node):
                if m is not node and isinstance(m, (ast.FunctionDef, ast.Lambda)) and any(x is n for x in ast.walk(m)):
                    return False
            return True
    return False


DUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
          'Pow': 'pow', 'MatMult': 'matmul', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift',
          'RShift': 'rshift'}
