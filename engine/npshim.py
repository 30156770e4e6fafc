"""numpy stand-in: real numpy, with the functions OpenNTN may apply to symbolic
scalars routed to ``sym``."""
import builtins
import math
import types

import numpy as _np

from . import sym as S
from . import tfshim as F
from .sym import N, B, CX, SymError


class SArr(_np.ndarray):
    """object array holding symbolic scalars"""

    def astype(self, dtype, *a, **k):
        if self.dtype == object and builtins.any(isinstance(v, (N, B, CX)) for v in self.flat):
            return self.copy()
        return _np.ndarray.astype(_np.asarray(self), dtype, *a, **k)

    def __lt__(self, o): return _cmp(F.less, self, o)
    def __le__(self, o): return _cmp(F.less_equal, self, o)
    def __gt__(self, o): return _cmp(F.greater, self, o)
    def __ge__(self, o): return _cmp(F.greater_equal, self, o)
    def __eq__(self, o): return _cmp(F.equal, self, o)
    def __ne__(self, o): return _cmp(F.not_equal, self, o)
    __hash__ = None

    def __getitem__(self, k):
        r = _np.ndarray.__getitem__(self, _key(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(v, F.T):
            v = v.a
            if v.ndim == 0:
                v = v[()]
        if isinstance(v, (list, tuple)):
            v = array(v)
        _np.ndarray.__setitem__(self, _key(k), v)

    def sum(self, axis=None, **k): return sum(self, axis=axis, **k)
    def mean(self, axis=None, **k): return mean(self, axis=axis, **k)
    def max(self, axis=None, **k): return max(self, axis=axis, **k)
    def min(self, axis=None, **k): return min(self, axis=axis, **k)
    def conj(self): return conj(self)
    @property
    def real(self): return real(self)
    @property
    def imag(self): return imag(self)


def _key(k):
    ks = k if isinstance(k, tuple) else (k,)
    out = []
    for q in ks:
        if isinstance(q, F.T):
            q = q.a if q.a.ndim else int(q)
        if isinstance(q, _np.ndarray) and q.dtype == object:
            if q.size and isinstance(q.flat[0], (B, bool, _np.bool_)):
                q = _np.array([bool(v) for v in q.flat]).reshape(q.shape)
            else:
                q = _np.array([int(v) for v in q.flat]).reshape(q.shape)
        elif isinstance(q, N):
            q = int(q)
        out.append(q)
    return tuple(out) if isinstance(k, tuple) else out[0]


def wrap(a):
    if isinstance(a, _np.ndarray):
        if a.dtype == object:
            return a.view(SArr)
        return a
    return a


def _cmp(f, a, b):
    r = f(F.convert(_np.asarray(a)), b if isinstance(b, F.T) else b)
    a = r.a
    return a if a.dtype != object else a.view(SArr)


def _has(x):
    if isinstance(x, (N, B, CX, F.T)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return builtins.any(_has(v) for v in x)
    return False


def _out(t):
    a = t.a
    if a.ndim == 0:
        v = a[()]
        return v.item() if isinstance(v, _np.generic) and False else v
    a = F.densify(a)
    return a if a.dtype != object else a.view(SArr)


def _asT(x):
    if isinstance(x, F.T):
        return x
    if isinstance(x, (list, tuple)):
        return F.convert(array(x))
    if isinstance(x, N):
        return F.T(F.box(x), F.float64)
    if isinstance(x, B):
        return F.T(F.box(x), F.bool_)
    return F.convert(_np.asarray(x))


def _bin(f):
    def op(x, y):
        x, y = _asT(x), _asT(y)
        d = x.dtype
        k = {'b': 0, 'i': 1, 'f': 2, 'c': 3}
        if f not in (F.logical_and, F.logical_or, F.logical_xor):
            t = F.complex128 if 'c' in (x.dtype.kind, y.dtype.kind) else F.float64
            x, y = F.cast(x, t), F.cast(y, t)
        return _out(f(x, y))
    return op


def array(x, dtype=None, copy=True, **kw):
    if isinstance(x, F.T):
        x = x.a.copy()
    if isinstance(x, (list, tuple)) and _has(x):
        return F.convert(x, F.float64 if not _hasc(x) else F.complex128).a.astype(object).view(SArr) if not _hasT(x) \
            else F.stack([F.cast(F.convert(v), F.float64 if not _hasc(x) else F.complex128) for v in x]).a.astype(object).view(SArr)
    if isinstance(x, N):
        return F.box(x).view(SArr)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return x.copy().view(SArr)
    r = _np.array(x, dtype=None if dtype is None else _dt(dtype))
    if r.dtype.kind in 'fc' and r.ndim:
        return F._toobj(r).view(SArr)
    return r


def _ints(q):
    """concrete integer tensors used as numpy sizes or axes"""
    if isinstance(q, F.T) and q.a.ndim == 0 and q.dtype.kind == 'i' and F.native(q.a):
        return int(q.a)
    if isinstance(q, (list, tuple)) and builtins.any(isinstance(v, F.T) for v in q):
        return type(q)(_ints(v) for v in q)
    return q


def _hasT(x):
    return builtins.any(isinstance(v, F.T) or (isinstance(v, (list, tuple)) and _hasT(v)) for v in x)


def _hasc(x):
    if isinstance(x, (CX, complex)):
        return True
    if isinstance(x, F.T):
        return x.dtype.kind == 'c'
    if isinstance(x, (list, tuple)):
        return builtins.any(_hasc(v) for v in x)
    return False


def _dt(d):
    if isinstance(d, F.DType):
        return d.np
    return d


def asarray(x, dtype=None, **kw):
    return array(x, dtype)


def _mk(v):
    def f(shape, dtype=float, **kw):
        d = _np.dtype(_dt(dtype) or float)
        shape = F._shape(shape)
        r = _np.full(shape, v, dtype=d)
        if d.kind in 'fc':
            return F._toobj(r).view(SArr) if r.ndim else r
        return r
    return f


def full(shape, fill_value, dtype=None, **kw):
    if _has(fill_value):
        r = _np.empty(F._shape(shape), dtype=object)
        r[...] = fill_value
        return r.view(SArr)
    r = _np.full(F._shape(shape), fill_value, dtype=_dt(dtype))
    return F._toobj(r).view(SArr) if r.dtype.kind in 'fc' else r


def where(c, *xy):
    if not xy:
        c = _asT(c)
        a = _np.array([bool(v) for v in c.a.flat], dtype=bool).reshape(c.a.shape)
        return _np.where(a)
    x, y = xy
    if not (_has(c) or _has(x) or _has(y)):
        return _np.where(c, x, y)
    c = _asT(c)
    if c.dtype.kind != 'b':
        c = F.cast(c, F.bool_)
    x, y = _asT(x), _asT(y)
    t = F.complex128 if 'c' in (x.dtype.kind, y.dtype.kind) else F.float64
    return _out(F.where(c, F.cast(x, t), F.cast(y, t)))


def _red(f, g):
    def op(x, axis=None, keepdims=False, **kw):
        if not _has(x):
            return g(x, axis=axis, keepdims=keepdims)
        return _out(f(_asT(x), axis, keepdims))
    return op


sum = _red(F.reduce_sum, _np.sum)
mean = _red(F.reduce_mean, _np.mean)
max = _red(F.reduce_max, _np.max)
min = _red(F.reduce_min, _np.min)
prod = _red(F.reduce_prod, _np.prod)
all = _red(F.reduce_all, _np.all)
any = _red(F.reduce_any, _np.any)


def _un(f, g, asfloat=True):
    def op(x, *a, **kw):
        if not _has(x):
            return g(x, *a, **kw)
        t = _asT(x)
        if asfloat and t.dtype.kind in 'ib':
            t = F.cast(t, F.float64)
        return _out(f(t))
    return op


real = _un(F.real, _np.real)
imag = _un(F.imag, _np.imag)
conj = _un(F.conj, _np.conj)


def _round(x, decimals=0, **k):
    if not _has(x):
        return _np.round(x, decimals, **k)
    s = 10.0 ** decimals
    return _out(F.round_(_asT(x) * s) / s) if decimals else _out(F.round_(_asT(x)))


def _dot(a, b):
    if not (_has(a) or _has(b)):
        return _np.dot(a, b)
    return F.box(_np.dot(F.obj(_asT(a).a), F.obj(_asT(b).a))).view(SArr)


class _Rand(types.SimpleNamespace):
    def __getattr__(self, k):
        raise SymError("numpy.random." + k)


def _nr_uniform(low=0.0, high=1.0, size=None):
    a = F.RNG.draw('uniform', () if size is None else size, 0.0, 1.0)
    r = low + (high - low) * a
    return r[()] if isinstance(r, _np.ndarray) and r.ndim == 0 else (r.view(SArr) if isinstance(r, _np.ndarray) else r)


def _nr_normal(loc=0.0, scale=1.0, size=None):
    a = F.RNG.draw('normal', () if size is None else size, -6.0, 6.0)
    r = loc + scale * a
    return r[()] if isinstance(r, _np.ndarray) and r.ndim == 0 else (r.view(SArr) if isinstance(r, _np.ndarray) else r)


random = _Rand(uniform=_nr_uniform, normal=_nr_normal, rand=lambda *s: _nr_uniform(size=s), randn=lambda *s: _nr_normal(size=s),
               random=lambda size=None: _nr_uniform(size=size), standard_normal=lambda size=None: _nr_normal(size=size),
               seed=lambda *a: None, default_rng=lambda *a: random)


def module():
    m = types.ModuleType('numpy')
    over = dict(
        array=array, asarray=asarray, ascontiguousarray=asarray, zeros=_mk(0), ones=_mk(1), empty=_mk(0), full=full,
        zeros_like=lambda x, dtype=None, **k: _mk(0)(_np.shape(x if not isinstance(x, F.T) else x.a), dtype or float),
        ones_like=lambda x, dtype=None, **k: _mk(1)(_np.shape(x if not isinstance(x, F.T) else x.a), dtype or float),
        where=where, sum=sum, mean=mean, max=max, min=min, amax=max, amin=min, prod=prod, all=all, any=any,
        real=real, imag=imag, conj=conj, conjugate=conj,
        sin=_un(F.sin, _np.sin), cos=_un(F.cos, _np.cos), tan=_un(F.tan, _np.tan), exp=_un(F.exp, _np.exp),
        log=_un(F.log, _np.log), sqrt=_un(F.sqrt, _np.sqrt), square=_un(F.square, _np.square),
        abs=_un(F.abs_, _np.abs), absolute=_un(F.abs_, _np.abs), fabs=_un(F.abs_, _np.abs), negative=_un(F.negative, _np.negative),
        arcsin=_un(F.asin, _np.arcsin), arccos=_un(F.acos, _np.arccos), arctan=_un(F.atan, _np.arctan),
        sinc=_un(F.sinc, _np.sinc), sign=_un(F.sign, _np.sign),
        log10=_un(F.ew1('log10', F._cxf(S.log10), _np.log10), _np.log10),
        log2=_un(F.ew1('log2', F._cxf(lambda v: S.log(v) * (1 / math.log(2))), _np.log2), _np.log2),
        floor=_un(F.floor, _np.floor), ceil=_un(F.ceil, _np.ceil), rint=_un(F.round_, _np.rint),
        round=_round, around=_round,
        deg2rad=_un(lambda t: t * (math.pi / 180.0), _np.deg2rad), radians=_un(lambda t: t * (math.pi / 180.0), _np.radians),
        rad2deg=_un(lambda t: t * (180.0 / math.pi), _np.rad2deg), degrees=_un(lambda t: t * (180.0 / math.pi), _np.degrees),
        isnan=_un(F.is_nan, _np.isnan), isinf=_un(F.is_inf, _np.isinf), isfinite=_un(F.is_finite, _np.isfinite),
        logical_not=_un(lambda t: F.logical_not(F.cast(t, F.bool_)), _np.logical_not, False),
        dot=_dot, matmul=_dot, random=random, cumsum=lambda x, axis=0: _out(F.cumsum(_asT(x), axis)) if _has(x) else _np.cumsum(x, axis),
        sort=lambda x, axis=-1: _out(F.sort(_asT(x), axis)) if _has(x) else _np.sort(x, axis),
        argsort=lambda x, axis=-1, **k: _out(F.argsort(_asT(x), axis)) if _has(x) else _np.argsort(x, axis),
    )
    for n, f in dict(arctan2=F.atan2, power=F.pow, maximum=F.maximum, minimum=F.minimum, add=F.add, subtract=F.subtract,
                     multiply=F.multiply, divide=F.divide, true_divide=F.divide, mod=F.floormod, less=F.less,
                     less_equal=F.less_equal, greater=F.greater, greater_equal=F.greater_equal, equal=F.equal,
                     logical_and=F.logical_and, logical_or=F.logical_or).items():
        g = getattr(_np, n)
        b = _bin(f)
        over[n] = (lambda g, b: lambda x, y, **k: b(x, y) if (_has(x) or _has(y)) else g(x, y, **k))(g, b)
    over['clip'] = lambda x, a, b: over['minimum'](over['maximum'](x, a), b)
    over['hypot'] = lambda x, y: over['sqrt'](over['add'](over['square'](x), over['square'](y)))

    def _norm(x, ord=None, axis=None, keepdims=False):
        if not _has(x):
            return _np.linalg.norm(x, ord, axis, keepdims)
        return over['sqrt'](sum(over['square'](over['abs'](x)), axis=axis, keepdims=keepdims))

    def _select(conds, choices, default=0):
        r = default
        for c, v in zip(reversed(list(conds)), reversed(list(choices))):
            r = where(c, v, r)
        return r
    over['select'] = _select
    over['linalg'] = types.SimpleNamespace(**{k: getattr(_np.linalg, k) for k in dir(_np.linalg) if not k.startswith('_')})
    over['linalg'].norm = _norm

    def _passthru(name):
        v = getattr(_np, name)
        if not callable(v) or isinstance(v, type):
            return v

        def f(*a, **k):
            a = [_ints(q) for q in a]
            k = {n: _ints(q) for n, q in k.items()}
            a2 = [(_np.asarray(array(q)) if isinstance(q, (list, tuple)) and _has(q) and name not in
                   ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack') else
                   ([(_np.asarray(array(z)) if _has(z) else z) for z in q] if isinstance(q, (list, tuple)) and _has(q) else
                    (q.a if isinstance(q, F.T) else (_np.asarray(q) if isinstance(q, SArr) else q)))) for q in a]
            r = v(*a2, **k)
            return wrap(r)
        f.__name__ = name
        return f

    m.__dict__.update(over)
    m.__getattr__ = _passthru
    m.pi = math.pi
    return m


NP = module()
