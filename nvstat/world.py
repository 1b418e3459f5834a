"""Symbolic inputs for the public functions and classes of the package."""
from . import graph as g
from .values import *
from .interp import Interp, AnalysisError, Choice, Frame


class Role(object):
    """what a symbolic input (or an expected output) means physically

    kind: nvec  unit vector in E            pos   position/displacement vector in E
          posN  vector in a local frame     R_Ee  axes-convention matrix, R rotation matrix
          len   length                      rad   angle in radians   deg angle in degrees
          lat   latitude (radians)          lon   longitude (radians)
          latd / lond in degrees            num   plain number       a / f ellipsoid
          t     curve parameter             any   anything (not judged)   bool
    """

    def __init__(self, kind, dim=None, **info):
        self.kind, self.dim, self.info = kind, dim, info

    def __repr__(self):
        return 'Role(%s,%s)' % (self.kind, self.dim)


class World(object):
    def __init__(self, root='/repo/src', dt='f', sym_axes=True, close_atom=False):
        self.I = I = Interp(root)
        self.dtcase = dt
        self.roles = {}       # leaf node -> Role
        self.cells = {}       # storage id -> name of the input it belongs to
        self.names = {}       # leaf name -> node
        self.sym_axes = sym_axes
        I.phase = 'import'
        I.import_module('nvector')
        self.import_effects = I.effects
        self.import_gaps = I.gaps
        I.effects, I.gaps = [], []
        I.phase = 'setup'
        self._frames = {}
        if sym_axes:
            I.intercept['nvector.rotation.E_rotation'] = self._e_rotation
        if close_atom:
            I.intercept['nvector.util.isclose'] = self._isclose
        # state of the package as left by the import; entry points run from a copy of it
        self.base = I.st.copy()

    def load_laws(self, path):
        """the law functions of a file, read by the interpreter: {name: function value}"""
        import ast
        I = self.I
        I.st = self.base.copy()
        I.phase = 'import'
        for sub in ('util', 'rotation', 'core', 'objects'):
            I.import_module('nvector.' + sub)
        env = I.new_id('laws')
        mod = ModuleVal('laws', env)
        mod.opaque = False
        I.st.heap[env] = {'__name__': 'laws', '__doc__': None}
        tree = I.parse(path)
        save = (I.frames, getattr(I, 'curfile', None), I.loc)
        I.frames = [Frame(None, env)]
        I.frames[-1].module = mod
        I.curfile = path
        try:
            I.exec_block(tree.body)
        finally:
            I.frames, I.curfile, I.loc = save
        I.effects, I.gaps = [], []
        self.base = I.st.copy()
        out = []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and n.name.startswith('law_'):
                roles = [(a.arg, a.annotation.value if a.annotation is not None else None) for a in n.args.args]
                out.append((n.name[4:], self.base.heap[env][n.name], roles, ast.get_docstring(n) or ''))
        I.phase = 'setup'
        return out

    def reset(self):
        self.I.st = self.base.copy()
        self.I.phase = 'setup'
        self._frames = {}

    def _isclose(self, I, f, args, kwds):
        """the tolerance test of the package as one named relation"""
        env = I.bind_args(f, args, kwds)
        try:
            a, b, r, t = [I.node(env[k]) for k in ('a', 'b', 'rtol', 'atol')]
        except Exception:
            return NotImplemented
        return I.new_arr(g.fn('closeto', a, b, r, t), 'b')

    def _e_rotation(self, I, f, args, kwds):
        v = args[0] if args else kwds.get('axes')
        if isinstance(v, Arr):
            n = I.node(v)
            if n.op == 'leaf' and n.attr.startswith('axes'):
                m = g.leaf('R_Ee' + n.attr[4:], (3, 3))
                self.roles[m] = Role('R_Ee', name=n.attr)
                return I.new_arr(m, 'f', label='axes matrix')
        return NotImplemented

    # ------------------------------------------------------------ names
    def module(self, name='nvector'):
        m = self.I.modules.get(name)
        if m is None:
            self.I.phase = 'import'
            m = self.I.import_module(name)
            self.I.phase = 'setup'
            self.base = self.I.st.copy()
        return m

    def get(self, path):
        """value of a dotted public name, e.g. nvector.core.unit or nvector.FrameE.inverse"""
        parts = path.split('.')
        for k in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:k])
            if mod in self.I.modules:
                v = self.I.modget(self.I.modules[mod], parts[k])
                if v is UNDEF:
                    raise AnalysisError('public name %s is not defined' % path)
                for p in parts[k + 1:]:
                    if isinstance(v, ClassVal):
                        v, _ = v.lookup(p)
                        if v is None:
                            raise AnalysisError('public name %s is not defined' % path)
                    else:
                        raise AnalysisError('public name %s is not defined' % path)
                return v
        raise AnalysisError('public name %s is not defined' % path)

    # ------------------------------------------------------------ leaves
    SHAPE3 = ('nvec', 'pos', 'posN')

    def leaf(self, name, role, dim=1, dt=None):
        """dim: 1 -> scalar / single column; 'n' -> symbolic number of columns"""
        if isinstance(role, str):
            role = Role(role, dim)
        if role.kind in self.SHAPE3:
            shape = (3, 1 if dim == '1d' else dim)
        elif role.kind == 'R_Ee':
            shape = (3, 3)
        elif role.kind == 'len1':
            shape, role = (), Role('len', 1)
        elif role.kind in ('R', 'R_EX'):
            shape = (3, 3) if dim in (1, '1d') else (3, 3, dim)
        else:
            shape = () if dim == 1 else ((1,) if dim == '1d' else (dim,))
        n = g.leaf(name, shape)
        self.roles[n] = role
        self.names[name] = n
        if dt is None:
            dt = self.dtcase
            if not isinstance(dt, str):
                # the names of the inputs of integer type
                dt = 'i' if name in dt else 'f'
            if role.kind in ('R_Ee', 'f'):
                dt = 'f'
        v = self.I.new_arr(n, dt, label=name)
        self.cells[v.cell] = name
        return v

    def string(self, name):
        """symbolic string / flag"""
        n = g.leaf(name, ())
        self.roles[n] = Role('flag')
        self.names[name] = n
        v = self.I.new_arr(n, '?', label=name)
        return v

    # ------------------------------------------------------------ objects
    def frame(self, name='F', **over):
        key = (name, tuple(sorted(over)))
        if key not in self._frames:
            kw = dict(a=self.leaf('a_' + name, 'a'), f=self.leaf('f_' + name, 'f'))
            if self.sym_axes:
                kw['axes'] = self.string('axes_' + name)
            kw.update(over)
            v = self.I.call(self.get('nvector.FrameE'), [], kw)
            self._frames[key] = v
            self.tag_objects(v, name)
            try:
                R = self.I.node(self.I.getattr(v, 'R_Ee'))
                if R.op != 'const' and R not in self.roles:
                    self.roles[R] = Role('R_Ee', name=name)
            except Exception:
                pass
        return self._frames[key]

    def nvector(self, name, dim='n', frame=None, zdim=None):
        v = self.I.call(self.get('nvector.Nvector'),
                        [self.leaf('n_' + name, 'nvec', dim), self.leaf('z_' + name, 'len', zdim or dim)],
                        dict(frame=frame or self.frame()))
        return self.tag_objects(v, name)

    def geopoint(self, name, dim='n', frame=None, degrees=False, zdim=None):
        k = ('lat', 'lon') if not degrees else ('latd', 'lond')
        kw = dict(frame=frame or self.frame())
        if degrees:
            kw['degrees'] = True
        v = self.I.call(self.get('nvector.GeoPoint'),
                        [self.leaf('lat_' + name, k[0], dim), self.leaf('lon_' + name, k[1], dim),
                         self.leaf('z_' + name, 'len', zdim or dim)], kw)
        return self.tag_objects(v, name)

    def ecef(self, name, dim='n', frame=None):
        v = self.I.call(self.get('nvector.ECEFvector'), [self.leaf('p_' + name, 'pos', dim)],
                        dict(frame=frame or self.frame()))
        return self.tag_objects(v, name)

    def framen(self, name, point):
        return self.tag_objects(self.I.call(self.get('nvector.FrameN'), [point], {}), name)

    def framel(self, name, point, wdim=1):
        return self.tag_objects(self.I.call(self.get('nvector.FrameL'), [point],
                                            dict(wander_azimuth=self.leaf('wa_' + name, 'rad', wdim))), name)

    def frameb(self, name, point, dim=1):
        return self.tag_objects(self.I.call(
            self.get('nvector.FrameB'), [point],
            dict(yaw=self.leaf('yaw_' + name, 'rad', dim), pitch=self.leaf('pitch_' + name, 'rad', dim),
                 roll=self.leaf('roll_' + name, 'rad', dim))), name)

    def pvector(self, name, frame, dim='n'):
        return self.tag_objects(self.I.call(self.get('nvector.Pvector'), [self.leaf('p_' + name, 'posN', dim)],
                                            dict(frame=frame)), name)

    def path(self, pa, pb, name='path'):
        return self.tag_objects(self.I.call(self.get('nvector.GeoPath'), [pa, pb], {}), name)

    def tag_objects(self, v, name):
        """remember which storage belongs to the inputs of a call"""
        seen = set()

        def go(x, nm):
            if isinstance(x, Arr):
                self.cells.setdefault(x.cell, nm)
            elif isinstance(x, (Inst, PyList, PyDict)):
                if x.id in seen:
                    return
                seen.add(x.id)
                self.cells.setdefault(x.id, nm)
                c = self.I.st.heap.get(x.id)
                if isinstance(c, dict):
                    for k, y in c.items():
                        go(y, '%s.%s' % (nm, k))
                elif isinstance(c, tuple):
                    for y in c:
                        go(y, nm + '[]')
            elif isinstance(x, tuple):
                for y in x:
                    go(y, nm + '[]')
            elif isinstance(x, Choice):
                go(x.a, nm)
                go(x.b, nm)
        go(v, name)
        return v

    # ------------------------------------------------------------ running
    def call(self, path, args, kwds=None):
        return self.I.run(self.get(path), args, kwds or {})

    def method(self, obj, name, args=(), kwds=None):
        return self.I.run(Builtin('call method', lambda I, a, k: I.call(I.getattr(obj, name), list(args), dict(kwds or {}))), [])

    def attr(self, obj, name):
        return self.I.run(Builtin('get attribute', lambda I, a, k: I.getattr(obj, name)), [])

    def op(self, opname, a, b):
        if opname in ('Eq', 'NotEq'):
            return self.I.run(Builtin(opname, lambda I, x, k: I.compare(opname, a, b)), [])
        if opname == 'USub':
            return self.I.run(Builtin(opname, lambda I, x, k: I.unary('USub', a)), [])
        return self.I.run(Builtin(opname, lambda I, x, k: I.binop(opname, a, b)), [])
