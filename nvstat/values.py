"""Abstract values of the interpreter."""


class Arr(object):
    """number or array: a storage cell seen through a chain of views"""
    __slots__ = ('cell', 'views', 'dt', 'py')

    def __init__(self, cell, views=(), dt='f', py=False):
        self.cell, self.views, self.dt, self.py = cell, views, dt, py


class Opaque(object):
    """value about which only its data dependences are known"""
    __slots__ = ('tag', 'nodes')

    def __init__(self, tag, nodes=()):
        self.tag, self.nodes = tag, tuple(nodes)


class Undef(object):
    def __repr__(self):
        return 'UNDEF'


UNDEF = Undef()


class NotImpl(object):
    def __repr__(self):
        return 'NotImplemented'


NOTIMPL = NotImpl()




class Func(object):
    def __init__(self, node, module, envs, qualname, cls=None):
        self.node, self.module, self.envs, self.qualname, self.cls = node, module, envs, qualname, cls
        self.defaults = ()
        self.kwdefaults = {}
        self.name = getattr(node, 'name', '<lambda>')
        self.doc = None

    def __repr__(self):
        return 'Func(%s)' % self.qualname


class Bound(object):
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Builtin(object):
    def __init__(self, name, impl):
        self.name, self.impl = name, impl


class Partial(object):
    def __init__(self, func, args, kwds):
        self.func, self.args, self.kwds = func, args, kwds


class Deprecated(object):
    """np.deprecate(func)"""

    def __init__(self, func, old, new):
        self.func, self.old, self.new = func, old, new


class Memo(object):
    """functools.lru_cache / cache wrapper"""

    def __init__(self, func, kind):
        self.func, self.kind = func, kind


class Property(object):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM(object):
    def __init__(self, func):
        self.func = func


class ClassM(object):
    def __init__(self, func):
        self.func = func


class ClassVal(object):
    def __init__(self, name, bases, attrs, module, node=None):
        self.name, self.bases, self.attrs, self.module, self.node = name, bases, attrs, module, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name], c
        return None, None

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return 'Class(%s)' % self.name


class Inst(object):
    __slots__ = ('id', 'cls')

    def __init__(self, id_, cls):
        self.id, self.cls = id_, cls


class ModuleVal(object):
    def __init__(self, name, env):
        self.name, self.env = name, env


class ExtRef(object):
    """attribute path into a library we do not analyse"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Ext(%s)' % self.path

    def __eq__(self, other):
        return isinstance(other, ExtRef) and other.path == self.path

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.path)


class ExtObj(object):
    """result of an external constructor: kind + payload"""

    def __init__(self, kind, **info):
        self.kind, self.info = kind, info


class PyList(object):
    __slots__ = ('id', 'kind')

    def __init__(self, id_, kind='list'):
        self.id, self.kind = id_, kind


class PyDict(object):
    __slots__ = ('id', 'kind')

    def __init__(self, id_, kind='dict'):
        self.id, self.kind = id_, kind


class Rep(object):
    """inside a list: one generic entry repeated for every index of a loop"""

    def __init__(self, loop, val):
        self.loop, self.val = loop, val


class NTuple(tuple):
    """namedtuple instance"""
    fields = ()
    tname = ''

    @staticmethod
    def make(tname, fields, vals):
        t = NTuple(vals)
        t.fields = fields
        t.tname = tname
        return t


class NTClass(object):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Super(object):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class ExcVal(object):
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class ExcClass(object):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExcClass) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SymIter(object):
    """iterable with symbolic extent: elem(loop) -> value"""

    def __init__(self, dim, elemfn):
        self.dim, self.elemfn = dim, elemfn


class BuiltinType(object):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'type %s' % self.name

    def __eq__(self, o):
        return isinstance(o, BuiltinType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class NTGlobals(object):
    """globals() of a module"""

    def __init__(self, module):
        self.module = module
