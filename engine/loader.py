"""Loads the code under check.

symbolic: executes the Python source of /repo/OpenNTN (and the few Sionna helper
modules it imports) with ``import tensorflow``/``numpy``/``math`` resolved to the
symbolic stand-ins.  The source is read from disk on every run.
real: imports OpenNTN from /repo on real TensorFlow and Sionna.
"""
import builtins
import importlib
import importlib.util
import math
import os
import pathlib
import sys
import types

from . import sym as S
from .sym import N, B, CX, SymError

REPO = os.environ.get('VERIF_REPO', '/repo')


def _sp():
    for p in sys.path + ['/opt/venv/lib/python3.12/site-packages']:
        if os.path.isdir(os.path.join(p, 'sionna', 'phy')):
            return os.path.join(p, 'sionna')
    raise RuntimeError('sionna not found')


ALIASES = ('sionna.phy.channel.tr38811', 'OpenNTN')
CANON = 'sionna.phy.channel.tr38811'


# ------------------------------------------------------------------ math stand-in
def _math_module():
    m = types.ModuleType('math')
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith('__')})
    from . import tfshim as F

    def sc(v):
        return v._scalar() if isinstance(v, F.T) else v

    def lift(f, g):
        return lambda x: (f(sc(x)) if isinstance(sc(x), N) else g(sc(x)))
    m.sin = lift(S.sin, math.sin)
    m.cos = lift(S.cos, math.cos)
    m.tan = lift(S.tan, math.tan)
    m.asin = lift(S.asin, math.asin)
    m.acos = lift(S.acos, math.acos)
    m.atan = lift(S.atan, math.atan)
    m.exp = lift(S.exp, math.exp)
    m.sqrt = lift(S.sqrt, math.sqrt)
    m.log10 = lift(S.log10, math.log10)
    m.floor = lift(S.floor, math.floor)
    m.ceil = lift(S.ceil, math.ceil)
    m.fabs = lift(S.abs1, math.fabs)
    m.radians = lift(lambda x: x * (math.pi / 180.0), math.radians)
    m.degrees = lift(lambda x: x * (180.0 / math.pi), math.degrees)
    m.log = lambda x, b=None: (S.log(sc(x)) if isinstance(sc(x), N) else math.log(sc(x))) / (1.0 if b is None else math.log(b))
    m.log2 = lift(lambda x: S.log(x) * (1 / math.log(2)), math.log2)

    def two(f, g):
        return lambda a, b: (f(S._norm(sc(a)), S._norm(sc(b))) if isinstance(sc(a), N) or isinstance(sc(b), N) else g(sc(a), sc(b)))
    m.pow = two(S.pow2, math.pow)
    m.atan2 = two(S.atan2, math.atan2)
    m.hypot = two(lambda a, b: S.sqrt(a * a + b * b), math.hypot)
    m.fmod = two(S.mod2, math.fmod)
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: (
        S.le(S.abs1(S._norm(a) - S._norm(b)), S.maximum(S.maximum(S.abs1(S._norm(a)), S.abs1(S._norm(b))) * rel_tol, abs_tol))
        if isinstance(a, N) or isinstance(b, N) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol))
    m.isnan = lambda x: False if isinstance(sc(x), N) else math.isnan(sc(x))
    m.isinf = lambda x: False if isinstance(sc(x), N) else math.isinf(sc(x))
    m.isfinite = lambda x: True if isinstance(sc(x), N) else math.isfinite(sc(x))
    return m


# ------------------------------------------------------------------ builtins stand-ins
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, N) and not o.isint)

    def __eq__(cls, o):
        return cls is o or o is float
    def __hash__(cls): return hash(float)


class sfloat(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        from . import tfshim as F
        if isinstance(x, F.T):
            x = x._scalar()
        if isinstance(x, N):
            return x
        if isinstance(x, B):
            return S.ite(x, 1.0, 0.0)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, N) and o.isint)

    def __eq__(cls, o):
        return cls is o or o is int
    def __hash__(cls): return hash(int)


class sint(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        from . import tfshim as F
        if isinstance(x, F.T):
            x = x._scalar()
        if isinstance(x, N):
            return S.trunc(x)
        return int(x, *a) if a else int(x)


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, B))

    def __eq__(cls, o):
        return cls is o or o is bool
    def __hash__(cls): return hash(bool)


class sbool(int, metaclass=_BoolMeta):
    def __new__(cls, x=False):
        from . import tfshim as F
        if isinstance(x, F.T) and x.a.size == 1:
            x = x._scalar()
        return bool(x)      # a symbolic truth value forks the exploration


def _smin(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, N) for x in xs):
        r = S._norm(xs[0])
        for x in xs[1:]:
            r = S.minimum(r, S._norm(x))
        return r
    kw = {} if default is None else {'default': default}
    return min(xs, key=key, **kw)


def _smax(*a, key=None, default=None):
    xs = list(a[0]) if len(a) == 1 else list(a)
    if key is None and any(isinstance(x, N) for x in xs):
        r = S._norm(xs[0])
        for x in xs[1:]:
            r = S.maximum(r, S._norm(x))
        return r
    kw = {} if default is None else {'default': default}
    return max(xs, key=key, **kw)


class SymLoader:
    def __init__(self):
        from . import tfshim, npshim
        self.mods = {}
        self.tf = tfshim.TF
        self.np = npshim.NP
        self.math = _math_module()
        self.sionna = _sp()
        self.bi = dict(builtins.__dict__)
        self.bi.update(__import__=self._import, float=sfloat, int=sint, bool=sbool, min=_smin, max=_smax, print=lambda *a, **k: None)
        self.executed = set()

    # -- module construction
    def get(self, name):
        for al in ALIASES:
            if name == al or name.startswith(al + '.'):
                name = CANON + name[len(al):]
                break
        if name in self.mods:
            return self.mods[name]
        if name == 'tensorflow':
            return self.tf
        if name.startswith('tensorflow.'):
            m = self.tf
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if name == 'numpy':
            return self.np
        if name == 'numpy.random':
            return self.np.random
        if name == 'math':
            return self.math
        if name == 'cmath':
            raise SymError('cmath')
        if name.startswith('matplotlib') or name.startswith('mpl_toolkits'):
            return _Stub(name)
        if name in ('importlib_resources', 'importlib.resources'):
            m = types.ModuleType(name)
            m.files = lambda pkg: pathlib.Path(list((pkg if not isinstance(pkg, str) else self.get(pkg)).__path__)[0])
            return self._put(name, m)
        if name.startswith(CANON):
            return self._pkgmod(name, CANON, os.path.join(REPO, 'OpenNTN'))
        if name == 'sionna':
            return self._ns('sionna')
        if name == 'sionna.phy':
            m = self._ns('sionna.phy')
            return m
        if name == 'sionna.phy.config':
            m = types.ModuleType(name)
            m.config = self._config()
            m.dtypes = self._dtypes()
            return self._put(name, m)
        if name == 'sionna.phy.constants':
            m = types.ModuleType(name)
            m.PI = math.pi
            m.SPEED_OF_LIGHT = 299792458.0
            m.BOLTZMANN_CONSTANT = 1.380649e-23
            m.ALPHA_MAX = 32
            m.H = 6.62607015e-34
            m.DIELECTRIC_PERMITTIVITY_VACUUM = 8.8541878128e-12
            return self._put(name, m)
        if name == 'sionna.phy.utils':
            return self._ns(name, search=('tensors', 'misc', 'linalg', 'numerics', 'metrics'))
        if name == 'sionna.phy.channel':
            return self._ns(name, search=('channel_model', 'utils', 'tr38811'))
        if name.startswith('sionna.'):
            return self._pkgmod(name, 'sionna', self.sionna)
        if name.startswith('scipy'):
            return _Stub(name)
        return importlib.import_module(name)

    def _put(self, name, m):
        self.mods[name] = m
        return m

    def _dtypes(self):
        if not hasattr(self, '_dt'):
            from . import tfshim as F
            import numpy as np
            self._dt = {'single': {'tf': {'cdtype': F.complex64, 'rdtype': F.float32},
                                   'np': {'cdtype': np.complex64, 'rdtype': np.float32}},
                        'double': {'tf': {'cdtype': F.complex128, 'rdtype': F.float64},
                                   'np': {'cdtype': np.complex128, 'rdtype': np.float64}}}
        return self._dt

    def _config(self):
        if not hasattr(self, '_cfg'):
            self._cfg = Config(self)
        return self._cfg

    def _ns(self, name, search=()):
        m = types.ModuleType(name)
        m.__path__ = []
        self._put(name, m)
        if name == 'sionna.phy':
            m.config = self._config()
            m.dtypes = self._dtypes()
            c = self.get('sionna.phy.constants')
            for k in ('PI', 'SPEED_OF_LIGHT', 'BOLTZMANN_CONSTANT', 'H', 'ALPHA_MAX', 'DIELECTRIC_PERMITTIVITY_VACUUM'):
                setattr(m, k, getattr(c, k))

        def ga(k, self=self, name=name, search=search):
            if k.startswith('__'):
                raise AttributeError(k)
            if name == 'sionna.phy' and k in ('Object', 'Block'):
                return getattr(self.get('sionna.phy.block'), k)
            for s in search:
                sub = self.get(f"{name}.{s}")
                if k in sub.__dict__:
                    return sub.__dict__[k]
            try:
                return self.get(f"{name}.{k}")
            except (FileNotFoundError, ModuleNotFoundError):
                raise AttributeError(f"module {name} has no attribute {k}")
        m.__getattr__ = ga
        return m

    def _pkgmod(self, name, root, base):
        rel = name[len(root):].strip('.').replace('.', '/')
        d = os.path.join(base, rel) if rel else base
        init = os.path.join(d, '__init__.py')
        if os.path.isfile(init):
            path, ispkg = init, True
        elif os.path.isfile(d + '.py'):
            path, ispkg = d + '.py', False
        elif os.path.isdir(d):
            m = types.ModuleType(name)
            m.__path__ = [d]
            return self._put(name, m)
        else:
            raise ModuleNotFoundError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        if ispkg:
            m.__path__ = [d]
        m.__dict__['__builtins__'] = self.bi
        self._put(name, m)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = compile(src, path, 'exec')
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        self.executed.add(path)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        if fromlist:
            m = self.get(name)
            for f in fromlist:
                if f == '*':
                    continue
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.get(f"{name}.{f}"))
                    except ModuleNotFoundError:
                        raise ImportError(f"cannot import name {f} from {name}")
            return m
        top = self.get(name.split('.')[0])
        m = top
        for i, p in enumerate(name.split('.')[1:], 2):
            sub = self.get('.'.join(name.split('.')[:i]))
            try:
                if not hasattr(m, p):
                    setattr(m, p, sub)
            except Exception:
                pass
            m = sub
        return top


class Config:
    def __init__(self, loader):
        self._l = loader
        self._p = 'single'
        from . import tfshim as F, npshim
        self.tf_rng = F._Gen()
        self.np_rng = npshim.random
        self.seed = None
        self.py_rng = None

    @property
    def precision(self): return self._p
    @precision.setter
    def precision(self, v): self._p = v
    @property
    def Config(self): return self
    @property
    def tf_rdtype(self): return self._l._dtypes()[self._p]['tf']['rdtype']
    @property
    def tf_cdtype(self): return self._l._dtypes()[self._p]['tf']['cdtype']
    @property
    def np_rdtype(self): return self._l._dtypes()[self._p]['np']['rdtype']
    @property
    def np_cdtype(self): return self._l._dtypes()[self._p]['np']['cdtype']


class _Stub(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return _Stub(self.__name__ + '.' + k)

    def __call__(self, *a, **k):
        return self


# ------------------------------------------------------------------ the real thing
class RealLoader:
    def __init__(self):
        os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
        os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
        sys.dont_write_bytecode = True
        import tensorflow as tf
        self._link()
        self.tf = tf
        import numpy as np
        self.np = np

    def _link(self):
        """sionna.phy.channel imports .tr38811; make that name resolve to REPO/OpenNTN"""
        class Finder:
            @staticmethod
            def find_spec(name, path=None, target=None):
                if name == CANON or name.startswith(CANON + '.'):
                    rel = name[len(CANON):].strip('.').replace('.', '/')
                    d = os.path.join(REPO, 'OpenNTN', rel) if rel else os.path.join(REPO, 'OpenNTN')
                    if os.path.isdir(d):
                        init = os.path.join(d, '__init__.py')
                        if os.path.isfile(init):
                            return importlib.util.spec_from_file_location(name, init, submodule_search_locations=[d])
                    elif os.path.isfile(d + '.py'):
                        return importlib.util.spec_from_file_location(name, d + '.py')
                return None
        sys.meta_path.insert(0, Finder)

    def get(self, name):
        if name.startswith('OpenNTN'):
            name = CANON + name[len('OpenNTN'):]
        return importlib.import_module(name)
