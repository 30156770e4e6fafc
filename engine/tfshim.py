"""A TensorFlow stand-in whose tensors hold symbolic scalars.

Only used to *execute* OpenNTN's real source symbolically; arithmetic is over the
reals.  Concrete tensors are numpy arrays, symbolic ones numpy object arrays.
"""
import builtins
import math
import types
import itertools

import numpy as np

from . import sym as S
from .sym import N, B, CX, SymError


_UFUNC = {'add': 'add', 'subtract': 'subtract', 'multiply': 'multiply', 'divide': 'divide', 'true_divide': 'divide', 'power': 'pow',
          'floor_divide': 'floordiv', 'remainder': 'floormod', 'minimum': 'minimum', 'maximum': 'maximum'}


# ------------------------------------------------------------------ dtypes
class DType:
    def __init__(self, name, kind, npd):
        self.name = name
        self.kind = kind          # 'f','c','i','b','s'
        self.np = npd

    def __repr__(self): return f"tf.{self.name}"
    def __eq__(self, o):
        if isinstance(o, DType):
            return self.name == o.name
        if isinstance(o, str):
            return self.name == o
        try:
            return o is not None and as_dtype(o).name == self.name
        except TypeError:
            return False
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    @property
    def is_floating(self): return self.kind == 'f'
    @property
    def is_complex(self): return self.kind == 'c'
    @property
    def is_integer(self): return self.kind == 'i'
    @property
    def is_bool(self): return self.kind == 'b'
    @property
    def as_numpy_dtype(self): return self.np
    @property
    def base_dtype(self): return self
    @property
    def real_dtype(self):
        return {'complex64': float32, 'complex128': float64}.get(self.name, self)
    @property
    def min(self):
        return np.finfo(self.np).min if self.kind == 'f' else np.iinfo(self.np).min
    @property
    def max(self):
        return np.finfo(self.np).max if self.kind == 'f' else np.iinfo(self.np).max
    @property
    def size(self): return np.dtype(self.np).itemsize


float16 = DType('float16', 'f', np.float16)
float32 = DType('float32', 'f', np.float32)
float64 = DType('float64', 'f', np.float64)
double = float64
complex64 = DType('complex64', 'c', np.complex64)
complex128 = DType('complex128', 'c', np.complex128)
int8 = DType('int8', 'i', np.int8)
int16 = DType('int16', 'i', np.int16)
int32 = DType('int32', 'i', np.int32)
int64 = DType('int64', 'i', np.int64)
uint8 = DType('uint8', 'i', np.uint8)
uint32 = DType('uint32', 'i', np.uint32)
bool_ = DType('bool', 'b', np.bool_)
string = DType('string', 's', np.object_)
_ALL = {d.name: d for d in (float16, float32, float64, complex64, complex128, int8, int16, int32, int64,
                            uint8, uint32, bool_, string)}


def as_dtype(d):
    if d is None or isinstance(d, DType):
        return d
    if isinstance(d, str):
        return _ALL[d]
    if d is float:
        return float32
    if d is int:
        return int32
    if d is bool or d is builtins.bool:
        return bool_
    if d is builtins.complex:
        return complex128
    if hasattr(d, 'as_numpy_dtype'):
        return _ALL[np.dtype(d.as_numpy_dtype).name]
    return _ALL[np.dtype(d).name]


class InvalidArgumentError(Exception):
    pass


class TShape(tuple):
    rank = property(lambda s: len(s))
    ndims = property(lambda s: len(s))
    dims = property(lambda s: list(s))
    def as_list(self): return list(self)
    def num_elements(self): return int(np.prod(self)) if len(self) else 1
    def is_fully_defined(self): return True
    def concatenate(self, o): return TShape(tuple(self) + tuple(int(v) for v in _shape(o)))
    def __add__(self, o):
        if isinstance(o, T):
            return add(convert(list(self), int32), o)
        return TShape(tuple(self) + tuple(int(v) for v in o))
    def __radd__(self, o): return TShape(tuple(int(v) for v in o) + tuple(self))
    def __getitem__(self, k):
        r = tuple.__getitem__(self, k)
        return TShape(r) if isinstance(k, slice) else r
    def __eq__(self, o):
        try:
            return tuple(self) == tuple(int(v) for v in o)
        except TypeError:
            return False
    def __ne__(self, o): return not self == o
    __hash__ = tuple.__hash__


def box(x, like=None):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def native(a):
    return a.dtype.kind != 'O'


def obj(a):
    return a if a.dtype == object else _toobj(a)


def _toobj(a):
    r = np.empty(a.shape, dtype=object)
    f = r.ravel()
    for i, v in enumerate(a.ravel().tolist()):
        f[i] = v
    return f.reshape(a.shape)


_STORE = {'f': np.float64, 'c': np.complex128, 'i': np.int64, 'b': np.bool_}


def densify(a):
    """object array of plain numbers -> native array"""
    if a.dtype != object or a.size == 0:
        if a.size == 0 and a.dtype == object:
            return a.astype(np.float64)
        return a
    for v in a.flat:
        if isinstance(v, (N, B, CX)):
            return a
    try:
        return np.array(a.tolist())
    except Exception:
        return a


class T:
    __array_priority__ = 1e10

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        op = _UFUNC.get(ufunc.__name__)
        if method != '__call__' or op is None or kw:
            raise SymError(f"numpy {ufunc.__name__} on a tensor")
        if out is None:
            return globals()[op](*inputs)
        ins = [i.a if isinstance(i, T) else i for i in inputs]
        if any(isinstance(i, np.ndarray) and i.dtype == object for i in ins) and out[0].dtype != object:
            raise SymError("in-place update of a concrete array with symbolic values")
        r = ufunc(*ins)
        out[0][...] = r
        return out[0]
    __slots__ = ('a', 'dtype', '__dict__')

    def __init__(self, a, dtype):
        a = np.asarray(a) if isinstance(a, np.generic) else box(a)
        if a.dtype != object and dtype.kind in _STORE and a.dtype != _STORE[dtype.kind]:
            a = a.astype(_STORE[dtype.kind])
        self.a = a
        self.dtype = dtype

    # ---- info
    @property
    def shape(self): return TShape(self.a.shape)
    def get_shape(self): return self.shape
    def set_shape(self, s): pass
    @property
    def ndim(self): return self.a.ndim
    @property
    def device(self): return ''
    @property
    def name(self): return 't'
    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError("Scalar tensor has no `len()`")
        return self.a.shape[0]
    def __iter__(self):
        for i in range(len(self)):
            yield self[i]
    def __repr__(self): return f"T{self.a.shape}<{self.dtype.name}>"
    def numpy(self):
        if self.a.ndim == 0:
            return self.a[()]
        from . import npshim
        return npshim.wrap(self.a.copy())
    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None or self.a.dtype == object else self.a.astype(dtype)
    __hash__ = object.__hash__
    def ref(self): return self

    def _scalar(self):
        if self.a.size != 1:
            raise TypeError("only size-1 tensors can be converted to Python scalars")
        return self.a.reshape(-1)[0]
    def __bool__(self):
        if self.a.size != 1:
            raise ValueError("truth value of a non-scalar tensor")
        return bool(self._scalar())
    def __int__(self): return int(self._scalar())
    def __index__(self):
        if self.dtype.kind != 'i':
            raise TypeError("only integer scalar tensors can be converted to a scalar index")
        return int(self._scalar())
    def __float__(self): return float(self._scalar())
    def __complex__(self): return builtins.complex(self._scalar())
    def __round__(self, n=None):
        return T(np.frompyfunc(lambda v: round(v), 1, 1)(obj(self.a)), self.dtype)
    def __format__(self, spec):
        if self.a.size == 1:
            return format(self.a.reshape(-1)[0], spec)
        return repr(self)
    def __str__(self): return repr(self)

    # ---- operators
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return subtract(self, o)
    def __rsub__(self, o): return subtract(o, self)
    def __mul__(self, o): return multiply(self, o)
    def __rmul__(self, o): return multiply(o, self)
    def __truediv__(self, o): return divide(self, o)
    def __rtruediv__(self, o): return divide(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return floormod(self, o)
    def __rmod__(self, o): return floormod(o, self)
    def __pow__(self, o): return pow(self, o)
    def __rpow__(self, o): return pow(o, self)
    def __neg__(self): return negative(self)
    def __pos__(self): return self
    def __abs__(self): return abs(self)
    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)
    def __lt__(self, o): return less(self, o)
    def __le__(self, o): return less_equal(self, o)
    def __gt__(self, o): return greater(self, o)
    def __ge__(self, o): return greater_equal(self, o)
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return equal(self, o)
    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return not_equal(self, o)
    def __and__(self, o): return logical_and(self, o)
    def __rand__(self, o): return logical_and(o, self)
    def __or__(self, o): return logical_or(self, o)
    def __ror__(self, o): return logical_or(o, self)
    def __xor__(self, o): return logical_xor(self, o)
    def __invert__(self): return logical_not(self)

    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        out = []
        for q in ks:
            if isinstance(q, T):
                if q.dtype.kind == 'b':
                    return boolean_mask(self, q)
                if q.a.ndim == 0:
                    q = int(q)
                else:
                    raise TypeError("tensor index")
            elif isinstance(q, slice):
                q = slice(_oi(q.start), _oi(q.stop), _oi(q.step))
            elif isinstance(q, N):
                q = int(q)
            elif isinstance(q, float):
                raise TypeError("float index")
            out.append(q)
        try:
            return T(self.a[tuple(out)], self.dtype)
        except IndexError as e:
            raise InvalidArgumentError(str(e))


Tensor = T


def _oi(v):
    if v is None:
        return None
    return int(v)


class Variable(T):
    def __init__(self, initial_value=None, trainable=True, dtype=None, name=None, **kw):
        t = convert(initial_value, as_dtype(dtype))
        T.__init__(self, t.a, t.dtype)
    def assign(self, v):
        self.a = convert(v, self.dtype).a
        return self
    def assign_add(self, v): return self.assign(add(self, v))
    def assign_sub(self, v): return self.assign(subtract(self, v))
    def value(self): return T(self.a, self.dtype)
    def read_value(self): return T(self.a, self.dtype)


def _infer(v):
    """dtype of a python value"""
    if isinstance(v, T):
        return v.dtype
    if isinstance(v, (bool, np.bool_, B)):
        return bool_
    if isinstance(v, N):
        return float32
    if isinstance(v, (CX, builtins.complex)):
        return complex128
    if isinstance(v, np.generic):
        return _ALL.get(v.dtype.name)
    if isinstance(v, int):
        return int32
    if isinstance(v, float):
        return float32
    if isinstance(v, str):
        return string
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.flat:
                if isinstance(x, CX):
                    return complex128
            for x in v.flat:
                if isinstance(x, (N, float)):
                    return float64
            for x in v.flat:
                return _infer(x)
            return float64
        return _ALL.get(v.dtype.name, float64)
    if isinstance(v, (list, tuple)):
        best = None
        for x in v:
            d = _infer(x)
            if d is None:
                continue
            if isinstance(x, T):
                return d
            if best is None or (best.kind in 'ib' and d.kind in 'fc') or (best.kind == 'f' and d.kind == 'c'):
                best = d
        return best or float32
    return None


def convert(v, dtype=None, strict=True):
    dtype = as_dtype(dtype)
    if isinstance(v, Variable):
        v = v.value()
    if isinstance(v, T):
        if dtype is not None and v.dtype != dtype:
            raise ValueError(f"Tensor conversion requested dtype {dtype.name} for Tensor with dtype {v.dtype.name}")
        return v
    if isinstance(v, types.GeneratorType) or isinstance(v, range) or isinstance(v, map):
        v = list(v)
    if isinstance(v, (list, tuple)):
        if dtype is None:
            dtype = _infer(v)
        parts = [convert(x, dtype) if not isinstance(x, T) else convert(x, dtype) for x in v]
        if not parts:
            return T(np.zeros((0,), dtype=_STORE.get(dtype.kind, object)), dtype)
        shp = parts[0].a.shape
        for p in parts:
            if p.a.shape != shp:
                raise ValueError("Can't convert non-rectangular Python sequence to Tensor.")
        return T(_stack([p.a for p in parts], 0), dtype)
    if hasattr(v, '__sym_array__'):
        v = v.__sym_array__()
    if isinstance(v, np.ndarray):
        a = np.asarray(v)
        d = dtype or _infer(a)
        if a.dtype == object:
            a = densify(a)
        return T(_coerce(a, d), d)
    if isinstance(v, (N, B, CX, int, float, builtins.complex, np.generic, str)):
        d = dtype or _infer(v)
        if d.kind == 'i' and isinstance(v, float) and not float(v).is_integer():
            raise TypeError(f"Cannot convert {v} to EagerTensor of dtype {d.name}")
        if d.kind == 'i' and isinstance(v, (float, np.floating)) and not isinstance(v, np.generic):
            raise TypeError(f"Cannot convert {v} to EagerTensor of dtype {d.name}")
        if d.kind in 'fi' and isinstance(v, (builtins.complex, CX)):
            raise TypeError("Cannot convert complex to real")
        return T(_coerce(box(v if not isinstance(v, np.generic) else v.item()), d), d)
    if v is None:
        raise ValueError("Attempt to convert a value (None) with an unsupported type to a Tensor.")
    if hasattr(v, '__array__'):
        return convert(np.asarray(v), dtype)
    raise SymError(f"cannot convert {type(v)} to a tensor")


def _coerce(a, d):
    k = d.kind
    if a.dtype != object:
        if k in _STORE:
            return (a.real if a.dtype.kind == 'c' and k != 'c' else a).astype(_STORE[k])
        return a
    if not any(isinstance(v, (N, B, CX)) for v in a.flat):
        if k in _STORE:
            return np.array(a.tolist(), dtype=_STORE[k])
        return a
    if k == 'f':
        return np.frompyfunc(lambda v: S.ite(v, 1.0, 0.0) if isinstance(v, B) else v, 1, 1)(a) if a.ndim else a
    if k == 'c':
        return box(np.frompyfunc(S.tocx, 1, 1)(a))
    return a


def _stack(arrs, axis):
    if all(native(x) for x in arrs):
        return np.stack(arrs, axis)
    return np.stack([obj(x) for x in arrs], axis)


def _cat(arrs, axis):
    if all(native(x) for x in arrs):
        return np.concatenate(arrs, axis)
    return np.concatenate([obj(x) for x in arrs], axis)


def _shape(s):
    """shape argument -> tuple of ints"""
    if isinstance(s, T):
        return tuple(int(v) for v in s.a.reshape(-1)) if s.a.ndim else (int(s),)
    if isinstance(s, (int, np.integer)):
        return (int(s),)
    if isinstance(s, N):
        return (int(s),)
    return tuple(int(v) for v in s)


def _pair(a, b):
    """binary operand conversion following TF's dtype rules"""
    if isinstance(a, Variable):
        a = a.value()
    if isinstance(b, Variable):
        b = b.value()
    if isinstance(a, T) and isinstance(b, T):
        pass
    elif isinstance(a, T):
        b = _hint(b, a.dtype)
    elif isinstance(b, T):
        a = _hint(a, b.dtype)
    else:
        a = convert(a)
        b = _hint(b, a.dtype)
    if a.dtype != b.dtype:
        raise InvalidArgumentError(f"cannot compute op as input #1 was expected to be a {a.dtype.name} tensor "
                                   f"but is a {b.dtype.name} tensor")
    return a, b


def _hint(v, d):
    if isinstance(v, np.ndarray) or isinstance(v, np.generic):
        vd = _infer(v)
        if vd is not None and vd.kind == 'c' and d.kind != 'c':
            raise InvalidArgumentError("complex operand for a real tensor")
        if vd is not None and vd.kind == 'f' and d.kind == 'i':
            raise InvalidArgumentError("float operand for an integer tensor")
        return convert(np.asarray(v), d)
    if d.kind == 'i' and isinstance(v, N):
        return T(box(v), d)
    return convert(v, d)


def u1(f):
    return np.frompyfunc(f, 1, 1)


def u2(f):
    return np.frompyfunc(f, 2, 1)


def ew1(name, pyf, npf, out=None, kinds=None):
    uf = u1(pyf)

    def op(x, name=None, **kw):
        x = convert(x)
        if kinds and x.dtype.kind not in kinds:
            raise InvalidArgumentError(f"{op.__name__}: dtype {x.dtype.name} not in the list of allowed values")
        d = out(x.dtype) if out else x.dtype
        with np.errstate(all='ignore'):
            if native(x.a) and npf is not None:
                return T(npf(x.a), d)
            return T(box(uf(obj(x.a))), d)
    op.__name__ = name
    return op


def ew2(name, pyf, npf, out=None, kinds=None):
    uf = u2(pyf)

    def op(x, y, name=None, **kw):
        x, y = _pair(x, y)
        if kinds and x.dtype.kind not in kinds:
            raise InvalidArgumentError(f"{op.__name__}: dtype {x.dtype.name} not allowed")
        d = out if out else x.dtype
        try:
            with np.errstate(all='ignore'):
                if native(x.a) and native(y.a) and npf is not None:
                    return T(npf(x.a, y.a), d)
                return T(box(uf(obj(x.a), obj(y.a))), d)
        except ValueError as e:
            if 'broadcast' in str(e):
                raise InvalidArgumentError(str(e))
            raise
    op.__name__ = name
    return op


add = ew2('add', lambda a, b: a + b, np.add, kinds='fci')
subtract = ew2('subtract', lambda a, b: a - b, np.subtract, kinds='fci')
multiply = ew2('multiply', lambda a, b: a * b, np.multiply, kinds='fci')


def _pydiv(a, b):
    if not S.sym(a) and not S.sym(b):
        if isinstance(a, (CX, builtins.complex)) or isinstance(b, (CX, builtins.complex)):
            a, b = S.tocx(a), S.tocx(b)
            if b.re == 0 and b.im == 0:
                return CX(math.nan, math.nan)
            return a / b
        return S._cdiv(float(a), float(b))
    return a / b


_divide = ew2('divide', _pydiv, np.true_divide)


def divide(x, y, name=None):
    x, y = _pair(x, y)
    if x.dtype.kind == 'i':
        x, y = cast(x, float64), cast(y, float64)
    return _divide(x, y)


truediv = divide
_floordiv = ew2('floordiv', lambda a, b: S.floor(S._norm(a / b)), np.floor_divide)
_floormod = ew2('floormod', lambda a, b: S.mod2(S._norm(a), S._norm(b)), np.mod)


def floordiv(x, y, name=None): return _floordiv(x, y)
def floormod(x, y, name=None): return _floormod(x, y)
mod = floormod


def _pypow(a, b):
    if isinstance(a, (CX, builtins.complex)):
        z = S.tocx(a)
        if not any(isinstance(v, N) for v in (z.a, z.b)) and z.a == 0 and z.b == 0 and S.tocx(b).re == 0:
            return builtins.complex(math.nan, math.nan)      # as TensorFlow does
        return S.tocx(a) ** (b.re if isinstance(b, CX) else b)
    if isinstance(b, (CX, builtins.complex)):
        raise SymError("complex exponent")
    return S.pow2(S._norm(a), S._norm(b))


pow = ew2('pow', _pypow, np.power, kinds='fci')
minimum = ew2('minimum', lambda a, b: S.minimum(S._norm(a), S._norm(b)), np.minimum, kinds='fi')
maximum = ew2('maximum', lambda a, b: S.maximum(S._norm(a), S._norm(b)), np.maximum, kinds='fi')
atan2 = ew2('atan2', lambda a, b: S.atan2(S._norm(a), S._norm(b)), np.arctan2, kinds='f')
squared_difference = ew2('squared_difference', lambda a, b: (a - b) * (a - b), lambda a, b: (a - b) ** 2)
less = ew2('less', lambda a, b: S.lt(S._norm(a), S._norm(b)), np.less, out=bool_, kinds='fi')
less_equal = ew2('less_equal', lambda a, b: S.le(S._norm(a), S._norm(b)), np.less_equal, out=bool_, kinds='fi')
greater = ew2('greater', lambda a, b: S.lt(S._norm(b), S._norm(a)), np.greater, out=bool_, kinds='fi')
greater_equal = ew2('greater_equal', lambda a, b: S.le(S._norm(b), S._norm(a)), np.greater_equal, out=bool_, kinds='fi')


def _pyeq(a, b):
    if isinstance(a, (B, bool, np.bool_)) or isinstance(b, (B, bool, np.bool_)):
        a, b = S._tob(a), S._tob(b)
        return S.ite_b(a, b, S.not_(b))
    if isinstance(a, (CX, builtins.complex)) or isinstance(b, (CX, builtins.complex)):
        return S.tocx(a) == b
    return S.eq(S._norm(a), S._norm(b))


equal = ew2('equal', _pyeq, np.equal, out=bool_)
not_equal = ew2('not_equal', lambda a, b: S.not_(_pyeq(a, b)), np.not_equal, out=bool_)
logical_and = ew2('logical_and', lambda a, b: S.and_(a, b), np.logical_and, out=bool_, kinds='b')
logical_or = ew2('logical_or', lambda a, b: S.or_(a, b), np.logical_or, out=bool_, kinds='b')
logical_xor = ew2('logical_xor', lambda a, b: S.not_(_pyeq(a, b)), np.logical_xor, out=bool_, kinds='b')
logical_not = ew1('logical_not', S.not_, np.logical_not, kinds='b')


def divide_no_nan(x, y, name=None):
    x, y = _pair(x, y)
    return where(equal(y, zeros_like(y)), zeros_like(x * y), divide(x, where(equal(y, zeros_like(y)), ones_like(y), y)))


def multiply_no_nan(x, y, name=None):
    x, y = _pair(x, y)
    return where(equal(y, zeros_like(y)), zeros_like(x * y), multiply(x, y))


def _cxf(f, g=None):
    """lift a real function; g handles complex"""
    def h(v):
        if isinstance(v, (CX, builtins.complex)):
            if g is None:
                raise SymError("complex " + f.__name__)
            return g(S.tocx(v))
        return f(S._norm(v))
    return h


negative = ew1('negative', lambda v: -v, np.negative, kinds='fci')
_real_of = lambda d: d.real_dtype
abs_ = ew1('abs', lambda v: S.abs1(v) if not isinstance(v, builtins.complex) else builtins.abs(v), np.abs, out=_real_of, kinds='fci')


def abs(x, name=None): return abs_(x)


sign = ew1('sign', _cxf(lambda v: S.ite(S.lt(0.0, v), 1.0, S.ite(S.lt(v, 0.0), -1.0, 0.0))), np.sign)
square = ew1('square', lambda v: v * v, np.square)


def _csqrt(z):
    """principal square root"""
    if isinstance(z.ph, N) or z.ph != 0.0:
        z = CX(z.re, z.im)
    if not isinstance(z.b, N) and z.b == 0.0:
        a = z.a
        neg = S.lt(a, 0.0)
        if not isinstance(neg, B) and not neg or S.lo_of(a) >= 0:
            return CX(S.sqrt(a), 0.0)
    r = S.abs1(z)
    re = S.sqrt(S.maximum((r + z.re) / 2, 0.0))
    im = S.sqrt(S.maximum((r - z.re) / 2, 0.0))
    return CX(re, S.ite(S.lt(z.im, 0.0), -im, im))


sqrt = ew1('sqrt', _cxf(S.sqrt, _csqrt), np.sqrt, kinds='fc')
rsqrt = ew1('rsqrt', _cxf(lambda v: S.div2(1.0, S.sqrt(v))), lambda a: 1 / np.sqrt(a))
reciprocal = ew1('reciprocal', lambda v: 1.0 / v, lambda a: 1 / a)
exp = ew1('exp', _cxf(S.exp, S.exp), np.exp, kinds='fc')
expm1 = ew1('expm1', _cxf(lambda v: S.exp(v) - 1.0), np.expm1)
log = ew1('log', _cxf(S.log), np.log, kinds='fc')
log1p = ew1('log1p', _cxf(lambda v: S.log(v + 1.0)), np.log1p)
sin = ew1('sin', _cxf(S.sin), np.sin, kinds='fc')
cos = ew1('cos', _cxf(S.cos), np.cos, kinds='fc')
tan = ew1('tan', _cxf(S.tan), np.tan, kinds='fc')
asin = ew1('asin', _cxf(S.asin), np.arcsin, kinds='fc')
acos = ew1('acos', _cxf(S.acos), np.arccos, kinds='fc')
atan = ew1('atan', _cxf(S.atan), np.arctan, kinds='fc')
sinh = ew1('sinh', _cxf(lambda v: (S.exp(v) - S.exp(-v)) * 0.5), np.sinh)
cosh = ew1('cosh', _cxf(lambda v: (S.exp(v) + S.exp(-v)) * 0.5), np.cosh)
tanh = ew1('tanh', _cxf(lambda v: (S.exp(2 * v) - 1.0) / (S.exp(2 * v) + 1.0)), np.tanh)
sigmoid = ew1('sigmoid', _cxf(lambda v: 1.0 / (1.0 + S.exp(-v))), lambda a: 1 / (1 + np.exp(-a)))
floor = ew1('floor', _cxf(S.floor), np.floor)
ceil = ew1('ceil', _cxf(S.ceil), np.ceil)
round_ = ew1('round', _cxf(S.rint), np.round)
rint = round_
conj = ew1('conj', lambda v: v.conjugate() if hasattr(v, 'conjugate') else v, np.conj)
real = ew1('real', lambda v: S.tocx(v).re, np.real, out=_real_of)
imag = ew1('imag', lambda v: S.tocx(v).im, np.imag, out=_real_of)


def _pyangle(v):
    v = S.tocx(v)
    return S.atan2(v.im, v.re)


angle = ew1('angle', _pyangle, np.angle, out=_real_of)
is_nan = ew1('is_nan', lambda v: (S.FALSE if S.sym(v) else bool(v != v)), np.isnan, out=lambda d: bool_)
is_inf = ew1('is_inf', lambda v: (S.FALSE if S.sym(v) else bool(v in (math.inf, -math.inf))), np.isinf, out=lambda d: bool_)
is_finite = ew1('is_finite', lambda v: (S.TRUE if S.sym(v) else math.isfinite(v)), np.isfinite, out=lambda d: bool_)


def _j1(x):
    try:
        from scipy.special import j1
        return float(j1(x))
    except Exception:
        import numpy as _n
        th = _n.linspace(0, math.pi, 2001)
        y = _n.cos(th - x * _n.sin(th))
        return float(_n.trapezoid(y, th) / math.pi)


def _j0(x):
    try:
        from scipy.special import j0
        return float(j0(x))
    except Exception:
        th = np.linspace(0, math.pi, 2001)
        return float(np.trapezoid(np.cos(x * np.sin(th)), th) / math.pi)


S.register('j1', _j1, -0.582, 0.582)
S.register('j0', _j0, -0.403, 1.0)
bessel_j1 = ew1('bessel_j1', _cxf(lambda v: S.apply_fn('j1', v)), None)
bessel_j0 = ew1('bessel_j0', _cxf(lambda v: S.apply_fn('j0', v)), None)


def _pysinc(v):
    if not isinstance(v, N):
        return float(np.sinc(v))
    px = v * math.pi
    return S.ite(S.eq(v, 0.0), 1.0, S.div2(S.sin(px), px))


sinc = ew1('sinc', _cxf(_pysinc), np.sinc)


def complex(real, imag, name=None):  # noqa: A001
    real, imag = _pair(real, imag)
    if real.dtype.kind != 'f':
        raise TypeError("Tensor conversion: tf.complex expects float inputs")
    d = complex64 if real.dtype == float32 else complex128
    if native(real.a) and native(imag.a):
        return T(real.a + 1j * imag.a, d)
    return T(box(u2(CX)(obj(real.a), obj(imag.a))), d)


NARROW = None   # a list: values which go from single into double precision and are not exact in single precision


def _narrow(x, dtype):
    if x.dtype.name in ('float32', 'complex64') and dtype.name in ('float64', 'complex128'):
        if native(x.a):
            with np.errstate(all='ignore'):
                a = x.a.astype(np.complex64 if x.dtype.kind == 'c' else np.float32).astype(x.a.dtype)
            bad = (a != x.a) & (x.a == x.a)
            NARROW.extend(x.a[bad].ravel().tolist()[:3])
        else:
            NARROW.append('an input')


def cast(x, dtype, name=None):
    dtype = as_dtype(dtype)
    if NARROW is not None and isinstance(x, T):
        _narrow(x, dtype)
    if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
        x = convert(x)
    elif not isinstance(x, T):
        if isinstance(x, N):
            x = T(box(x), float64)
        else:
            x = convert(x)
    if x.dtype == dtype:
        return T(x.a, dtype)
    a = x.a
    k = dtype.kind
    if native(a):
        with np.errstate(all='ignore'):
            if x.dtype.kind == 'c' and k != 'c':
                a = a.real
            if k == 'i' and a.dtype.kind == 'f':
                a = np.trunc(a)
            return T(a.astype(_STORE[k]) if k in _STORE else a, dtype)

    def f(v):
        if k == 'c':
            return S.tocx(S._norm(v) if not isinstance(v, (CX, builtins.complex)) else v)
        if isinstance(v, (CX, builtins.complex)):
            v = S.tocx(v).re
        if k == 'b':
            return S._tob(v)
        v = S._norm(v)
        if k == 'i':
            r = S.trunc(v)
            if isinstance(v, N) and isinstance(r, N) and v is r and v.id in ONEHOT:
                return v
            return r if isinstance(r, N) else int(r)
        return v
    return T(box(u1(f)(a)), dtype)


def saturate_cast(x, dtype): return cast(x, dtype)


def constant(value, dtype=None, shape=None, name=None):
    if isinstance(value, T) and dtype is not None and value.dtype != as_dtype(dtype):
        raise TypeError(f"Expected tensor {value.a} with dtype {as_dtype(dtype)}, but got dtype {value.dtype}.")
    t = convert(value, dtype)
    if shape is not None:
        shp = _shape(shape)
        if t.a.size == 1:
            return T(np.broadcast_to(t.a.reshape(()), shp).copy() if shp else t.a.reshape(()), t.dtype)
        return reshape(t, shp)
    return t


def convert_to_tensor(value, dtype=None, dtype_hint=None, name=None):
    if dtype is None and dtype_hint is not None and not isinstance(value, T):
        return convert(value, dtype_hint)
    return convert(value, dtype)


def identity(x, name=None): return convert(x)
def stop_gradient(x, name=None): return convert(x)
def ensure_shape(x, shape, name=None): return convert(x)


# ------------------------------------------------------------------ creation
def zeros(shape, dtype=float32, name=None):
    d = as_dtype(dtype)
    return T(np.zeros(_shape(shape), dtype=_STORE[d.kind]), d)


def ones(shape, dtype=float32, name=None):
    d = as_dtype(dtype)
    return T(np.ones(_shape(shape), dtype=_STORE[d.kind]), d)


def zeros_like(x, dtype=None, name=None):
    x = convert(x)
    return zeros(x.shape, dtype or x.dtype)


def ones_like(x, dtype=None, name=None):
    x = convert(x)
    return ones(x.shape, dtype or x.dtype)


def fill(dims, value, name=None):
    v = convert(value)
    if v.a.ndim != 0:
        raise InvalidArgumentError(f"value must be a scalar. Got shape {list(v.a.shape)}")
    return T(np.broadcast_to(v.a, _shape(dims)).copy(), v.dtype)


def eye(num_rows, num_columns=None, batch_shape=None, dtype=float32, name=None):
    d = as_dtype(dtype)
    n = int(num_rows)
    m = int(num_columns) if num_columns is not None else n
    a = np.eye(n, m, dtype=_STORE[d.kind])
    if batch_shape is not None:
        a = np.broadcast_to(a, _shape(batch_shape) + (n, m)).copy()
    return T(a, d)


def range_(start, limit=None, delta=1, dtype=None, name=None):
    if limit is None:
        start, limit = 0, start
    args = [start, limit, delta]
    d = as_dtype(dtype)
    if d is None:
        d = int32
        for v in args:
            vd = v.dtype if isinstance(v, T) else _infer(v)
            if vd.kind == 'f':
                d = vd
            elif vd.kind == 'i' and d.kind == 'i' and vd != int32 and isinstance(v, T):
                d = vd
    vals = [v._scalar() if isinstance(v, T) else v for v in args]
    if any(isinstance(v, N) for v in vals):
        if isinstance(vals[1], N) or isinstance(vals[2], N) or isinstance(vals[0], N):
            vals = [int(v) if isinstance(v, N) and v.isint else v for v in vals]
        if any(isinstance(v, N) for v in vals):
            raise SymError("symbolic tf.range")
    return T(np.arange(*[float(v) if d.kind == 'f' else int(v) for v in vals]), d)


def linspace(start, stop, num, name=None, axis=0):
    start = convert(start)
    stop = convert(stop, start.dtype) if not isinstance(stop, T) else stop
    if start.dtype != stop.dtype:
        raise InvalidArgumentError("linspace dtype mismatch")
    if start.dtype.kind == 'i':
        start, stop = cast(start, float64), cast(stop, float64)
    n = int(num)
    if n == 1:
        return reshape(start, (1,) + start.shape)
    parts = []
    for i in builtins.range(n):
        parts.append(start if i == 0 else (stop if i == n - 1 else start + (stop - start) * (i / (n - 1))))
    return stack(parts, axis=axis)


def meshgrid(*args, indexing='xy', **kw):
    ts = [convert(a) for a in args]
    out = np.meshgrid(*[t.a for t in ts], indexing=indexing)
    return [T(np.array(o), t.dtype) for o, t in zip(out, ts)]


def one_hot(indices, depth, on_value=None, off_value=None, axis=-1, dtype=None, name=None):
    i = convert(indices)
    d = as_dtype(dtype) or float32
    on = 1.0 if on_value is None else on_value
    off = 0.0 if off_value is None else off_value
    cols = [where(equal(i, cast(k, i.dtype)), cast(on, d), cast(off, d)) for k in builtins.range(int(depth))]
    return stack(cols, axis=axis)


# ------------------------------------------------------------------ shape ops
def shape(x, out_type=None, name=None):
    x = convert(x)
    return T(np.array(x.a.shape, dtype=np.int64), as_dtype(out_type) or int32)


def rank(x, name=None):
    return T(np.array(convert(x).a.ndim), int32)


def size(x, out_type=None, name=None):
    return T(np.array(convert(x).a.size), as_dtype(out_type) or int32)


def reshape(x, shape, name=None):
    x = convert(x)
    try:
        return T(x.a.reshape(_shape(shape)), x.dtype)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


def expand_dims(x, axis=None, name=None):
    x = convert(x)
    return T(np.expand_dims(x.a, int(axis)), x.dtype)


def squeeze(x, axis=None, name=None):
    x = convert(x)
    if axis is not None:
        axis = tuple(int(v) for v in (axis if isinstance(axis, (list, tuple)) else [axis]))
    try:
        return T(np.squeeze(x.a, axis=axis if axis != () else None), x.dtype)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


def transpose(x, perm=None, conjugate=False, name=None):
    x = convert(x)
    r = T(np.transpose(x.a, None if perm is None else _shape(perm)), x.dtype)
    return conj(r) if conjugate else r


def matrix_transpose(x, name=None, conjugate=False):
    x = convert(x)
    r = T(np.swapaxes(x.a, -1, -2), x.dtype)
    return conj(r) if conjugate else r


def adjoint(x, name=None): return matrix_transpose(x, conjugate=True)


def concat(values, axis, name=None):
    vs = list(values) if not isinstance(values, T) else [values]
    d = next((v.dtype for v in vs if isinstance(v, T)), None) or _infer([v for v in vs])
    ts = [v if isinstance(v, T) else convert(v, d) for v in vs]
    if any(t.dtype != d for t in ts):
        raise InvalidArgumentError("concat: dtype mismatch " + str([t.dtype for t in ts]))
    try:
        return T(_cat([t.a for t in ts], int(axis)), d)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


def stack(values, axis=0, name=None):
    vs = list(values)
    d = next((v.dtype for v in vs if isinstance(v, T)), None) or _infer(vs)
    ts = [v if isinstance(v, T) else convert(v, d) for v in vs]
    if any(t.dtype != d for t in ts):
        raise InvalidArgumentError("stack: dtype mismatch")
    try:
        return T(_stack([t.a for t in ts], int(axis)), d)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


def unstack(value, num=None, axis=0, name=None):
    x = convert(value)
    return [T(np.take(x.a, i, axis=int(axis)), x.dtype) for i in builtins.range(x.a.shape[int(axis)])]


def split(value, num_or_size_splits, axis=0, num=None, name=None):
    x = convert(value)
    ax = int(axis)
    if isinstance(num_or_size_splits, (int, np.integer)) or (isinstance(num_or_size_splits, T) and num_or_size_splits.ndim == 0):
        parts = np.split(x.a, int(num_or_size_splits), axis=ax)
    else:
        sz = list(_shape(num_or_size_splits))
        tot = x.a.shape[ax]
        if -1 in sz:
            sz[sz.index(-1)] = tot - (builtins.sum(sz) + 1)
        parts = np.split(x.a, np.cumsum(sz)[:-1], axis=ax)
    return [T(p, x.dtype) for p in parts]


def tile(x, multiples, name=None):
    x = convert(x)
    return T(np.tile(x.a, _shape(multiples)), x.dtype)


def repeat(x, repeats, axis=None, name=None):
    x = convert(x)
    r = repeats if isinstance(repeats, int) else (int(repeats) if isinstance(repeats, T) and repeats.ndim == 0 else _shape(repeats))
    return T(np.repeat(x.a, r, axis=axis), x.dtype)


def broadcast_to(x, shape, name=None):
    x = convert(x)
    try:
        return T(np.broadcast_to(x.a, _shape(shape)).copy(), x.dtype)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


def broadcast_static_shape(a, b): return TShape(np.broadcast_shapes(tuple(a), tuple(b)))
def broadcast_dynamic_shape(a, b): return T(np.array(np.broadcast_shapes(_shape(a), _shape(b))), int32)


def reverse(x, axis, name=None):
    x = convert(x)
    return T(np.flip(x.a, tuple(_shape(axis))), x.dtype)


def roll(x, shift, axis, name=None):
    x = convert(x)
    sh = _shape(shift)
    ax = _shape(axis)
    return T(np.roll(x.a, sh if len(sh) > 1 else sh[0], ax if len(ax) > 1 else ax[0]), x.dtype)


def pad(x, paddings, mode='CONSTANT', constant_values=0, name=None):
    x = convert(x)
    p = [tuple(int(v) for v in r) for r in (paddings.a.tolist() if isinstance(paddings, T) else paddings)]
    a = x.a
    if mode.upper() == 'CONSTANT':
        cv = constant_values._scalar() if isinstance(constant_values, T) else constant_values
        if x.a.dtype == object:
            cv = float(cv) if x.dtype.kind == 'f' else cv
        return T(np.pad(a, p, constant_values=cv), x.dtype)
    return T(np.pad(a, p, mode=mode.lower()), x.dtype)


def slice_(x, begin, size, name=None):
    x = convert(x)
    b = _shape(begin)
    s = _shape(size)
    return T(x.a[tuple(slice(i, None if n == -1 else i + n) for i, n in zip(b, s))], x.dtype)


def shape_n(xs): return [shape(x) for x in xs]


# ------------------------------------------------------------------ selection
def where(condition, x=None, y=None, name=None):
    c = convert(condition, bool_) if not isinstance(condition, T) else condition
    if x is None:
        if not native(c.a):
            c = T(np.array([bool(v) for v in c.a.flat]).reshape(c.a.shape), bool_)
        return T(np.argwhere(c.a), int64)
    x, y = _pair(x, y)
    if native(c.a):
        if native(x.a) and native(y.a):
            return T(np.where(c.a, x.a, y.a), x.dtype)
        return T(np.where(c.a, obj(x.a), obj(y.a)), x.dtype)
    try:
        return T(box(np.frompyfunc(S.ite, 3, 1)(c.a, obj(x.a), obj(y.a))), x.dtype)
    except ValueError as e:
        raise InvalidArgumentError(str(e))


ONEHOT = {}


def _pick(row, idx, default_oob=True):
    """row[idx] with idx possibly symbolic; row: array (k, ...)"""
    if not isinstance(idx, N):
        i = int(idx)
        if not -0 <= i < row.shape[0]:
            raise InvalidArgumentError(f"indices = {i} is not in [0, {row.shape[0]})")
        return row[i]
    oh = ONEHOT.get(idx.id)
    k = row.shape[0]
    if oh is None:
        oh = [S.eq(idx, float(j)) for j in builtins.range(k)]
    elif len(oh) > k:
        raise InvalidArgumentError("gather index out of range")
    r = box(row[len(oh) - 1])
    for j in builtins.range(len(oh) - 2, -1, -1):
        r = box(np.frompyfunc(lambda a, b: S.ite(oh[j], a, b), 2, 1)(obj(box(row[j])), obj(r)))
    return r[()] if r.ndim == 0 else r


def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
    p = convert(params)
    i = convert(indices)
    bd = int(batch_dims)
    if bd < 0:
        bd += i.a.ndim
    ax = bd if axis is None else int(axis)
    if ax < 0:
        ax += p.a.ndim
    if i.a.dtype != object and bd == 0:
        if i.a.size and (i.a.min() < 0 or i.a.max() >= p.a.shape[ax]):
            raise InvalidArgumentError(f"indices out of range [0, {p.a.shape[ax]})")
        return T(np.take(p.a, i.a, axis=ax), p.dtype)
    if bd == 0:
        q = np.moveaxis(obj(p.a), ax, 0)
        rest = q.shape[1:]
        out = np.empty(i.a.shape + rest, dtype=object)
        for pos in np.ndindex(*i.a.shape):
            out[pos] = _pick(q, i.a[pos])
        out = np.moveaxis(out, list(builtins.range(i.a.ndim)), [ax + d for d in builtins.range(i.a.ndim)])
        return T(out, p.dtype)
    bs = p.a.shape[:bd]
    if bs != i.a.shape[:bd]:
        raise InvalidArgumentError(f"gather batch_dims mismatch {p.a.shape} {i.a.shape}")
    outs = []
    for b in np.ndindex(*bs):
        outs.append(gather(T(p.a[b], p.dtype), T(i.a[b], i.dtype), axis=ax - bd).a)
    if not outs:
        raise SymError("empty batch gather")
    o = _stack(outs, 0)
    return T(o.reshape(bs + o.shape[1:]), p.dtype)


def gather_nd(params, indices, batch_dims=0, name=None):
    p = convert(params)
    i = convert(indices)
    if int(batch_dims):
        return stack([gather_nd(p[k], i[k], int(batch_dims) - 1) for k in builtins.range(len(p))])
    lead = i.a.shape[:-1]
    n = i.a.shape[-1]
    out = np.empty(lead + p.a.shape[n:], dtype=object)
    for pos in np.ndindex(*lead):
        r = p.a
        for v in i.a[pos]:
            r = _pick(r, v)
        out[pos] = r
    return T(densify(out), p.dtype)


def boolean_mask(tensor, mask, axis=None, name=None):
    t = convert(tensor)
    m = convert(mask)
    mm = np.array([bool(v) for v in m.a.flat], dtype=bool).reshape(m.a.shape)
    ax = 0 if axis is None else int(axis)
    a = np.moveaxis(t.a, ax, 0) if ax and m.a.ndim == 1 else t.a
    r = a[mm]
    if ax and m.a.ndim == 1:
        r = np.moveaxis(r, 0, ax)
    return T(r, t.dtype)


def scatter_nd(indices, updates, shape, name=None):
    i = convert(indices)
    u = convert(updates)
    shp = _shape(shape)
    out = np.zeros(shp, dtype=object)
    z = {'f': 0.0, 'c': 0j, 'i': 0, 'b': False}[u.dtype.kind]
    out[...] = z
    n = i.a.shape[-1]
    for pos in np.ndindex(*i.a.shape[:-1]):
        k = tuple(int(v) for v in i.a[pos])
        for q, s in zip(k, shp):
            if not 0 <= q < s:
                raise InvalidArgumentError("scatter_nd index out of range")
        out[k] = obj(box(out[k])) + obj(box(u.a[pos])) if n < len(shp) else out[k] + u.a[pos]
    return T(densify(out), u.dtype)


def tensor_scatter_nd_update(tensor, indices, updates, name=None):
    t = convert(tensor)
    i = convert(indices)
    u = convert(updates)
    out = obj(t.a).copy()
    for pos in np.ndindex(*i.a.shape[:-1]):
        out[tuple(int(v) for v in i.a[pos])] = u.a[pos]
    return T(densify(out), t.dtype)


def tensor_scatter_nd_add(tensor, indices, updates, name=None):
    t = convert(tensor)
    i = convert(indices)
    u = convert(updates)
    out = obj(t.a).copy()
    for pos in np.ndindex(*i.a.shape[:-1]):
        k = tuple(int(v) for v in i.a[pos])
        out[k] = out[k] + u.a[pos]
    return T(densify(out), t.dtype)


def clip_by_value(t, clip_value_min, clip_value_max, name=None):
    return minimum(maximum(t, clip_value_min), clip_value_max)


def cond(pred, true_fn=None, false_fn=None, name=None):
    p = pred._scalar() if isinstance(pred, T) else pred
    if isinstance(p, B):
        a, b = true_fn(), false_fn()
        return nest_map(lambda x, y: where(T(box(p), bool_), x, y), a, b)
    return true_fn() if p else false_fn()


def nest_map(f, *xs):
    if isinstance(xs[0], (list, tuple)):
        return type(xs[0])(nest_map(f, *q) for q in zip(*xs))
    return f(*xs)


def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name=None):
    for p, f in pred_fn_pairs:
        if bool(p):
            return f()
    return default()


def while_loop(cond, body, loop_vars, **kw):
    v = list(loop_vars)
    while bool(cond(*v)):
        r = body(*v)
        v = list(r) if isinstance(r, (list, tuple)) else [r]
    return tuple(v)


def map_fn(fn, elems, dtype=None, fn_output_signature=None, **kw):
    if isinstance(elems, (list, tuple)):
        n = len(convert(elems[0]))
        outs = [fn(type(elems)(convert(e)[i] for e in elems)) for i in builtins.range(n)]
    else:
        e = convert(elems)
        outs = [fn(e[i]) for i in builtins.range(len(e))]
    if isinstance(outs[0], (list, tuple)):
        return type(outs[0])(stack([o[k] for o in outs]) for k in builtins.range(len(outs[0])))
    return stack(outs)


def vectorized_map(fn, elems, fallback_to_while_loop=True): return map_fn(fn, elems)


def foldl(fn, elems, initializer=None, **kw):
    e = convert(elems)
    i = 0
    acc = initializer
    if acc is None:
        acc, i = e[0], 1
    while i < len(e):
        acc = fn(acc, e[i])
        i += 1
    return acc


def scan(fn, elems, initializer=None, **kw):
    e = convert(elems)
    out = []
    acc = initializer
    for i in builtins.range(len(e)):
        acc = e[i] if acc is None else fn(acc, e[i])
        out.append(acc)
    return stack(out)


class TensorArray:
    def __init__(self, dtype, size=0, dynamic_size=False, **kw):
        self.d = {}
        self.n = int(size)
    def write(self, i, v):
        self.d[int(i)] = convert(v)
        self.n = builtins.max(self.n, int(i) + 1)
        return self
    def read(self, i): return self.d[int(i)]
    def stack(self): return stack([self.d[i] for i in builtins.range(self.n)])
    def concat(self): return concat([self.d[i] for i in builtins.range(self.n)], 0)
    def size(self): return self.n
    def unstack(self, v):
        for i, x in enumerate(unstack(v)):
            self.d[i] = x
        self.n = len(self.d)
        return self


# ------------------------------------------------------------------ reductions
def _sumlist(xs):
    acc = xs[0] if xs else 0.0
    if len(xs) > 8:
        # balanced summation keeps the intermediate nodes small
        while len(xs) > 1:
            xs = [xs[i] + xs[i + 1] if i + 1 < len(xs) else xs[i] for i in builtins.range(0, len(xs), 2)]
        return xs[0]
    for x in xs[1:]:
        acc = acc + x
    return acc


def _prodlist(xs):
    acc = 1.0
    for x in xs:
        acc = x * acc
    return acc


def _foldmin(xs):
    acc = S._norm(xs[0])
    for x in xs[1:]:
        acc = S.minimum(acc, S._norm(x))
    return acc


def _foldmax(xs):
    acc = S._norm(xs[0])
    for x in xs[1:]:
        acc = S.maximum(acc, S._norm(x))
    return acc


def _reduce(x, axis, keepdims, npf, pyf, dtype=None):
    x = convert(x)
    nd = x.a.ndim
    if axis is None:
        axes = tuple(builtins.range(nd))
    else:
        axes = tuple(int(v) % nd if nd else 0 for v in (_shape(axis)))
        for v in _shape(axis):
            if not -nd <= v < nd:
                raise InvalidArgumentError(f"Invalid reduction dimension ({v} for input with {nd} dimension(s)")
    d = dtype or x.dtype
    if native(x.a):
        with np.errstate(all='ignore'):
            return T(np.asarray(npf(x.a, axis=axes, keepdims=keepdims)), d)
    keep = [i for i in builtins.range(nd) if i not in axes]
    moved = np.transpose(x.a, keep + list(axes))
    ks = tuple(x.a.shape[i] for i in keep)
    flat = moved.reshape(ks + (int(np.prod([x.a.shape[i] for i in axes])),))
    out = np.empty(ks, dtype=object)
    for pos in np.ndindex(*ks):
        out[pos] = pyf(list(flat[pos]))
    if keepdims:
        out = out.reshape(tuple(1 if i in axes else x.a.shape[i] for i in builtins.range(nd)))
    return T(out, d)


def reduce_sum(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.sum, _sumlist)
def reduce_prod(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.prod, _prodlist)
def reduce_max(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.max, _foldmax)
def reduce_min(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.min, _foldmin)
def reduce_any(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.any, lambda v: S.or_(*v))
def reduce_all(x, axis=None, keepdims=False, name=None): return _reduce(x, axis, keepdims, np.all, lambda v: S.and_(*v))


def reduce_mean(x, axis=None, keepdims=False, name=None):
    return _reduce(x, axis, keepdims, np.mean, lambda v: _sumlist(v) * (1.0 / len(v)))


def reduce_variance(x, axis=None, keepdims=False, name=None):
    m = reduce_mean(x, axis, True)
    return reduce_mean(square(abs(x - m)), axis, keepdims)


def reduce_std(x, axis=None, keepdims=False, name=None): return sqrt(reduce_variance(x, axis, keepdims))


def reduce_euclidean_norm(x, axis=None, keepdims=False, name=None):
    return sqrt(reduce_sum(square(abs(x)), axis, keepdims))


def add_n(xs, name=None):
    acc = convert(xs[0])
    for x in xs[1:]:
        acc = acc + x
    return acc


def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
    x = convert(x)
    ax = int(axis)
    a = np.moveaxis(obj(x.a), ax, 0)
    if reverse:
        a = a[::-1]
    out = np.empty_like(a)
    acc = None
    for i in builtins.range(a.shape[0]):
        cur = a[i] if acc is None else acc + a[i]
        out[i] = cur if not exclusive else (0.0 if acc is None else acc)
        acc = cur
    if reverse:
        out = out[::-1]
    return T(densify(np.moveaxis(out, 0, ax)), x.dtype)


def cumprod(x, axis=0, exclusive=False, reverse=False, name=None):
    x = convert(x)
    a = np.moveaxis(obj(x.a), int(axis), 0)
    out = np.empty_like(a)
    acc = None
    for i in builtins.range(a.shape[0]):
        acc = a[i] if acc is None else acc * a[i]
        out[i] = acc
    return T(densify(np.moveaxis(out, 0, int(axis))), x.dtype)


def argmax(x, axis=None, output_type=None, name=None):
    return _argext(x, 0 if axis is None else axis, lambda a, b: S.lt(a, b), output_type)


def argmin(x, axis=None, output_type=None, name=None):
    return _argext(x, 0 if axis is None else axis, lambda a, b: S.lt(b, a), output_type)


def _argext(x, axis, better, output_type):
    x = convert(x)
    a = np.moveaxis(obj(x.a), int(axis), -1)
    out = np.empty(a.shape[:-1], dtype=object)
    for pos in np.ndindex(*a.shape[:-1]):
        bi, bv = 0.0, S._norm(a[pos][0])
        for k in builtins.range(1, a.shape[-1]):
            c = better(bv, S._norm(a[pos][k]))
            bi, bv = S.ite(c, float(k), bi), S.ite(c, S._norm(a[pos][k]), bv)
        out[pos] = bi if isinstance(bi, N) else int(bi)
    return T(densify(out), as_dtype(output_type) or int64)


# ------------------------------------------------------------------ sorting
PERM = {'mode': 'symbolic'}


def _sortrow(vals, desc):
    v = [S._norm(x) for x in vals]
    n = len(v)
    for i in builtins.range(n):
        for j in builtins.range(n - 1 - i):
            lo, hi = S.minimum(v[j], v[j + 1]), S.maximum(v[j], v[j + 1])
            v[j], v[j + 1] = (hi, lo) if desc else (lo, hi)
    return v


def sort(values, axis=-1, direction='ASCENDING', name=None):
    x = convert(values)
    desc = direction.upper().startswith('DESC')
    if native(x.a):
        r = np.sort(x.a, axis=int(axis))
        return T(np.flip(r, int(axis)) if desc else r, x.dtype)
    a = np.moveaxis(x.a, int(axis), -1)
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape[:-1]):
        for k, v in enumerate(_sortrow(list(a[pos]), desc)):
            out[pos + (k,)] = v
    return T(np.moveaxis(out, -1, int(axis)), x.dtype)


def argsort(values, axis=-1, direction='ASCENDING', stable=False, name=None):
    x = convert(values)
    desc = direction.upper().startswith('DESC')
    if native(x.a):
        r = np.argsort(-x.a if desc else x.a, axis=int(axis), kind='stable')
        return T(r, int32)
    a = np.moveaxis(x.a, int(axis), -1)
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    for pos in np.ndindex(*a.shape[:-1]):
        row = [S._norm(v) for v in a[pos]]
        fixed = _fixed_perm(row)
        if fixed is not None:
            for k, v in enumerate(fixed):
                out[pos + (k,)] = v
            continue
        if all(not isinstance(v, N) for v in row):
            for k, v in enumerate(np.argsort(-np.array(row) if desc else np.array(row), kind='stable')):
                out[pos + (k,)] = int(v)
            continue
        if PERM['mode'] == 'fork':
            for k, v in enumerate(_fork_sort(row, desc)):
                out[pos + (k,)] = v
            continue
        mat = _free_perm(row, desc)
        if mat is not None:
            for k in builtins.range(n):
                v = float(n - 1)
                for i in builtins.range(n - 2, -1, -1):
                    v = S.ite(mat[k][i], float(i), v)
                ONEHOT[v.id] = mat[k]
                out[pos + (k,)] = v
            continue
        before = {}
        for i in builtins.range(n):
            for j in builtins.range(i + 1, n):
                c = S.le(row[j], row[i]) if desc else S.le(row[i], row[j])
                before[i, j] = c          # i sorts before j (stable)
                before[j, i] = S.not_(c)
        ranks = {}
        for i in builtins.range(n):
            # conditions "rank of i == k" by dynamic programming over the others
            dp = [S.TRUE] + [S.FALSE] * n
            for j in builtins.range(n):
                if j == i:
                    continue
                c = before[j, i]
                dp = [S.or_(S.and_(dp[k], S.not_(c)), S.and_(dp[k - 1], c) if k else S.FALSE) for k in builtins.range(n + 1)]
            ranks[i] = dp
        for k in builtins.range(n):
            oh = [ranks[i][k] for i in builtins.range(n)]
            v = float(n - 1)
            for i in builtins.range(n - 2, -1, -1):
                v = S.ite(oh[i], float(i), v)
            if isinstance(v, N):
                ONEHOT[v.id] = oh
            else:
                v = int(v)
            out[pos + (k,)] = v
    return T(densify(np.moveaxis(out, -1, int(axis))), int32)


def _fork_sort(row, desc=False):
    """stable order of the row, one path per feasible order"""
    order = []
    for i in builtins.range(len(row)):
        k = len(order)
        while k and bool(S.lt(row[order[k - 1]], row[i]) if desc else S.lt(row[i], row[order[k - 1]])):
            k -= 1
        order.insert(k, i)
    return order


def _free_perm(row, desc=False):
    """argsort of fresh independent draws: an arbitrary permutation, as a matrix of Boolean variables (mat[k][i]: item i has rank k)"""
    if PERM['mode'] != 'matrix' or len(row) < 2 or not all(isinstance(v, N) and v.op == 'v' and v.args[0].startswith('rnd') for v in row):
        return None
    if len({v.id for v in row}) < len(row):
        return None
    names = tuple(v.args[0] for v in row) + (('desc',) if desc else ())
    seen = PERM.setdefault('matrices', {})
    if names not in seen:
        n = len(row)
        PERM['log'].append((names, None))
        seen[names] = [[S.bvar(f"pm_{names[0]}{'d' if desc else ''}_{k}_{i}") for i in builtins.range(n)] for k in builtins.range(n)]
    return seen[names]


def _fixed_perm(row):
    """argsort of fresh i.i.d. draws: a fixed (arbitrary) permutation when the harness asks for it"""
    if PERM['mode'] != 'fixed' or not all(isinstance(v, N) for v in row):
        return None
    for v in row:
        if len(S.variables([v])) != 1 or not S.variables([v])[0].args[0].startswith('rnd'):
            return None
    n = len(row)
    PERM['count'] = PERM.get('count', 0) + 1
    k = PERM['count']
    rng = np.random.default_rng(1000 + k)
    p = [int(v) for v in rng.permutation(n)]
    PERM.setdefault('log', []).append(([S.variables([v])[0].args[0] for v in row], p))
    return p


class TopKV2(tuple):
    def __new__(cls, values, indices):
        return tuple.__new__(cls, (values, indices))
    values = property(lambda s: s[0])
    indices = property(lambda s: s[1])


def top_k(x, k=1, sorted=True, name=None):  # noqa: A002
    i = argsort(x, direction='DESCENDING')
    i = i[..., :int(k)]
    return TopKV2(gather(x, i, batch_dims=convert(x).ndim - 1), i)


def searchsorted(seq, values, side='left', **kw):
    s = convert(seq)
    v = convert(values)
    e = expand_dims(v, -1)
    m = less(expand_dims(s, -2), e) if side == 'left' else less_equal(expand_dims(s, -2), e)
    return reduce_sum(cast(m, int32), -1)


def unique(x, **kw):
    x = convert(x)
    if not native(x.a):
        raise SymError("unique of symbolic values")
    u, inv = np.unique(x.a, return_inverse=True)
    return T(u, x.dtype), T(inv, int32)


# ------------------------------------------------------------------ linear algebra
def _dot(p, q):
    acc = 0.0
    for x, y in zip(p, q):
        if not S.sym(x) and not isinstance(x, CX) and x == 0:
            continue
        if not S.sym(y) and not isinstance(y, CX) and y == 0:
            continue
        acc = acc + x * y
    return acc


def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, name=None, **kw):
    a, b = _pair(a, b)
    if a.dtype.kind == 'b':
        raise InvalidArgumentError("matmul of booleans")
    if transpose_a:
        a = matrix_transpose(a)
    if transpose_b:
        b = matrix_transpose(b)
    if adjoint_a:
        a = adjoint(a)
    if adjoint_b:
        b = adjoint(b)
    if a.ndim < 2 or b.ndim < 2:
        raise InvalidArgumentError("In[0] and In[1] ndims must be >= 2")
    if a.a.shape[-1] != b.a.shape[-2]:
        raise InvalidArgumentError(f"Matrix size-incompatible: In[0]: {a.a.shape}, In[1]: {b.a.shape}")
    if native(a.a) and native(b.a):
        return T(np.matmul(a.a, b.a), a.dtype)
    bs = np.broadcast_shapes(a.a.shape[:-2], b.a.shape[:-2])
    n, k, m = a.a.shape[-2], a.a.shape[-1], b.a.shape[-1]
    A = np.broadcast_to(obj(a.a), bs + (n, k))
    Bm = np.broadcast_to(obj(b.a), bs + (k, m))
    out = np.empty(bs + (n, m), dtype=object)
    for pos in np.ndindex(*bs):
        for i in builtins.range(n):
            for j in builtins.range(m):
                out[pos + (i, j)] = _dot(A[pos][i], Bm[pos][:, j])
    return T(out, a.dtype)


def matvec(a, b, transpose_a=False, adjoint_a=False, name=None, **kw):
    return squeeze(matmul(a, expand_dims(b, -1), transpose_a=transpose_a, adjoint_a=adjoint_a), -1)


def tensordot(a, b, axes, name=None):
    a, b = _pair(a, b)
    if isinstance(axes, T):
        axes = axes.a.tolist()
    if native(a.a) and native(b.a):
        return T(np.asarray(np.tensordot(a.a, b.a, axes)), a.dtype)
    return T(box(np.tensordot(obj(a.a), obj(b.a), axes)), a.dtype)


def einsum(eqn, *ops, **kw):
    ts = [convert(o) for o in ops]
    d = ts[0].dtype
    if any(t.dtype != d for t in ts):
        raise InvalidArgumentError("einsum dtype mismatch")
    if all(native(t.a) for t in ts):
        return T(np.asarray(np.einsum(eqn, *[t.a for t in ts])), d)
    return T(box(np.einsum(eqn, *[obj(t.a) for t in ts])), d)


def cross(a, b, name=None):
    a, b = _pair(a, b)
    x = [a[..., i] for i in builtins.range(3)]
    y = [b[..., i] for i in builtins.range(3)]
    return stack([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]], -1)


def norm(x, ord='euclidean', axis=None, keepdims=False, name=None):
    if ord not in ('euclidean', 2, 'fro'):
        if ord == 1:
            return reduce_sum(abs(x), axis, keepdims)
        raise SymError("norm ord")
    return sqrt(reduce_sum(square(abs(x)), axis, keepdims))


def l2_normalize(x, axis=None, epsilon=1e-12, name=None):
    s = reduce_sum(square(abs(x)), axis, True)
    r = rsqrt(maximum(s, epsilon))
    x = convert(x)
    return x * (cast(r, x.dtype))


def cholesky(x, name=None):
    x = convert(x)
    if native(x.a):
        try:
            return T(np.linalg.cholesky(x.a), x.dtype)
        except np.linalg.LinAlgError:
            raise InvalidArgumentError("Cholesky decomposition was not successful. The input might not be valid.")
    a = x.a
    n = a.shape[-1]
    out = np.empty(a.shape, dtype=object)
    out[...] = 0.0
    for pos in np.ndindex(*a.shape[:-2]):
        A = a[pos]
        L = out[pos]
        for j in builtins.range(n):
            s = A[j, j]
            for k in builtins.range(j):
                s = s - L[j, k] * (L[j, k].conjugate() if isinstance(L[j, k], CX) else L[j, k])
            if isinstance(s, CX):
                s = s.re
            if not isinstance(s, N) and s <= 0:
                raise InvalidArgumentError("Cholesky decomposition was not successful.")
            L[j, j] = S.sqrt(S._norm(s))
            for i in builtins.range(j + 1, n):
                s = A[i, j]
                for k in builtins.range(j):
                    s = s - L[i, k] * (L[j, k].conjugate() if isinstance(L[j, k], CX) else L[j, k])
                L[i, j] = s / L[j, j]
    return T(out, x.dtype)


def diag(x, name=None, **kw):
    x = convert(x)
    n = x.a.shape[-1]
    out = np.empty(x.a.shape + (n,), dtype=object)
    out[...] = {'f': 0.0, 'c': 0j, 'i': 0, 'b': False}[x.dtype.kind]
    for i in builtins.range(n):
        out[..., i, i] = x.a[..., i]
    return T(densify(out), x.dtype)


def diag_part(x, name=None, **kw):
    x = convert(x)
    return T(np.diagonal(x.a, axis1=-2, axis2=-1).copy(), x.dtype)


def trace(x, name=None): return reduce_sum(diag_part(x), -1)


def set_diag(x, d, name=None, **kw):
    x = convert(x)
    d = convert(d)
    out = obj(x.a).copy()
    for i in builtins.range(builtins.min(out.shape[-2:])):
        out[..., i, i] = d.a[..., i]
    return T(densify(out), x.dtype)


def band_part(x, num_lower, num_upper, name=None):
    x = convert(x)
    m, n = x.a.shape[-2:]
    l, u = int(num_lower), int(num_upper)
    out = obj(x.a).copy()
    for i in builtins.range(m):
        for j in builtins.range(n):
            if not ((l < 0 or i - j <= l) and (u < 0 or j - i <= u)):
                out[..., i, j] = 0.0
    return T(densify(out), x.dtype)


def det(x, name=None):
    x = convert(x)
    if native(x.a):
        return T(np.asarray(np.linalg.det(x.a)), x.dtype)

    def d(M):
        n = len(M)
        if n == 1:
            return M[0][0]
        acc = 0.0
        for j in builtins.range(n):
            minor = [[M[i][k] for k in builtins.range(n) if k != j] for i in builtins.range(1, n)]
            t = M[0][j] * d(minor)
            acc = acc + t if j % 2 == 0 else acc - t
        return acc
    out = np.empty(x.a.shape[:-2], dtype=object)
    for pos in np.ndindex(*out.shape):
        out[pos] = d([list(r) for r in x.a[pos]])
    return T(box(out), x.dtype)


def inv(x, adjoint=False, name=None):
    x = convert(x)
    if native(x.a):
        return T(np.linalg.inv(x.a), x.dtype)
    n = x.a.shape[-1]
    out = np.empty(x.a.shape, dtype=object)
    for pos in np.ndindex(*x.a.shape[:-2]):
        M = x.a[pos]
        dd = det(T(M, x.dtype)).a[()]
        for i in builtins.range(n):
            for j in builtins.range(n):
                if n == 1:
                    out[pos][0, 0] = 1.0 / M[0, 0]
                    continue
                minor = np.delete(np.delete(M, j, 0), i, 1)
                c = det(T(minor, x.dtype)).a[()]
                out[pos][i, j] = c / dd if (i + j) % 2 == 0 else -(c / dd)
    return T(out, x.dtype)


def solve(a, b, name=None, **kw): return matmul(inv(a), b)


class LinearOperatorToeplitz:
    def __init__(self, col, row, **kw):
        self.col = convert(col)
        self.row = convert(row)
    def to_dense(self):
        n = self.col.a.shape[-1]
        m = self.row.a.shape[-1]
        cols = obj(self.col.a)
        rows = obj(self.row.a)
        out = np.empty(cols.shape[:-1] + (n, m), dtype=object)
        for i in builtins.range(n):
            for j in builtins.range(m):
                out[..., i, j] = cols[..., i - j] if i >= j else rows[..., j - i]
        return T(densify(out), self.col.dtype)


# ------------------------------------------------------------------ signal
def _dft(x, sgn, norm_n):
    x = convert(x)
    n = x.a.shape[-1]
    if native(x.a):
        r = np.fft.fft(x.a) if sgn < 0 else (np.fft.ifft(x.a) if norm_n else np.fft.ifft(x.a) * n)
        return T(r, x.dtype)
    out = np.empty(x.a.shape, dtype=object)
    for pos in np.ndindex(*x.a.shape[:-1]):
        for k in builtins.range(n):
            acc = CX(0.0, 0.0)
            for j in builtins.range(n):
                w = 2 * math.pi * ((j * k) % n) / n
                c, s = math.cos(w), sgn * math.sin(w)
                c = 0.0 if builtins.abs(c) < 1e-15 else c
                s = 0.0 if builtins.abs(s) < 1e-15 else s
                acc = acc + S.tocx(x.a[pos][j]) * CX(c, s)
            out[pos + (k,)] = acc * (1.0 / n) if norm_n else acc
    return T(out, x.dtype)


def fft(x, name=None): return _dft(x, -1, False)
def ifft(x, name=None): return _dft(x, 1, True)


def _axes(x, axes):
    if axes is None:
        return list(builtins.range(x.ndim))
    return [int(v) for v in (axes if isinstance(axes, (list, tuple)) else [axes])]


def fftshift(x, axes=None, name=None):
    x = convert(x)
    return T(np.fft.fftshift(x.a, _axes(x, axes)), x.dtype)


def ifftshift(x, axes=None, name=None):
    x = convert(x)
    return T(np.fft.ifftshift(x.a, _axes(x, axes)), x.dtype)


# ------------------------------------------------------------------ randomness
class RandomSource:
    """k-th random call of the run: symbolic variables or scripted values."""

    def __init__(self):
        self.k = 0
        self.log = []        # (k, kind, shape, names)
        self.provider = None  # f(name, kind, lo, hi, isint) -> scalar

    def draw(self, kind, shape, lo, hi, isint=False):
        k = self.k
        self.k += 1
        shp = _shape(shape)
        out = np.empty(shp, dtype=object)
        f = out.reshape(-1)
        for j in builtins.range(f.size):
            f[j] = self.provider(f"rnd{k}_{j}", kind, lo, hi, isint)
        self.log.append((k, kind, shp))
        return f.reshape(shp)


RNG = RandomSource()


def _rnormal(shape, mean=0.0, stddev=1.0, dtype=float32, seed=None, name=None):
    d = as_dtype(dtype)
    z = T(densify(box(RNG.draw('normal', shape, -6.0, 6.0))), d)
    m = mean if isinstance(mean, T) else (convert(mean, d))
    s = stddev if isinstance(stddev, T) else (convert(stddev, d))
    r = z * s + m
    if tuple(r.shape) != tuple(z.shape):
        raise InvalidArgumentError("random.normal: mean/stddev do not broadcast to shape")
    return r


def _runiform(shape, minval=0, maxval=None, dtype=float32, seed=None, name=None):
    d = as_dtype(dtype)
    if d.kind == 'i':
        lo = minval._scalar() if isinstance(minval, T) else minval
        hi = maxval._scalar() if isinstance(maxval, T) else maxval
        if maxval is None:
            raise ValueError("Must specify maxval for integer dtype")
        return T(densify(box(RNG.draw('uniform', shape, int(lo), int(hi) - 1, True))), d)
    if maxval is None:
        maxval = 1
    u = T(densify(box(RNG.draw('uniform', shape, 0.0, 1.0))), d)
    lo = minval if isinstance(minval, T) else (T(box(minval), d) if isinstance(minval, N) else convert(minval, d))
    hi = maxval if isinstance(maxval, T) else (T(box(maxval), d) if isinstance(maxval, N) else convert(maxval, d))
    if native(lo.a) and native(hi.a) and lo.ndim == 0 and hi.ndim == 0:
        l, h = float(lo), float(hi)
        if u.a.dtype == object:
            # give the affine image its own interval
            return T(box(u1(lambda v: l + (h - l) * v)(u.a)), d)
    return u * (hi - lo) + lo


def _rshuffle(value, seed=None, name=None):
    v = convert(value)
    n = v.a.shape[0]
    r = RNG.draw('normal', [n], -6.0, 6.0)
    return gather(v, argsort(T(densify(r), float32)))


class _Gen:
    @classmethod
    def from_seed(cls, *a, **k): return cls()
    @classmethod
    def from_non_deterministic_state(cls, *a, **k): return cls()
    def normal(self, shape, mean=0.0, stddev=1.0, dtype=float32, name=None): return _rnormal(shape, mean, stddev, dtype)
    def uniform(self, shape, minval=0, maxval=None, dtype=float32, name=None): return _runiform(shape, minval, maxval, dtype)
    def truncated_normal(self, shape, mean=0.0, stddev=1.0, dtype=float32, name=None): return _rnormal(shape, mean, stddev, dtype)
    def reset_from_seed(self, *a): pass
    def split(self, n): return [self] * n


def _stateless(f):
    def g(shape, seed=None, *a, **k):
        return f(shape, *a, **k)
    return g


class _NS(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise SymError(f"TensorFlow API not modelled: {k}")


# ------------------------------------------------------------------ less common operations
asinh = ew1('asinh', _cxf(lambda v: S.log(v + S.sqrt(v * v + 1.0))), np.arcsinh)
acosh = ew1('acosh', _cxf(lambda v: S.log(v + S.sqrt(v * v - 1.0))), np.arccosh)
atanh = ew1('atanh', _cxf(lambda v: 0.5 * S.log((1.0 + v) / (1.0 - v))), np.arctanh)
softplus = ew1('softplus', _cxf(lambda v: S.log(1.0 + S.exp(v))), lambda a: np.logaddexp(a, 0))
realdiv = truediv


def truncatediv(x, y, name=None):
    x, y = _pair(x, y)
    if x.dtype.kind != 'i':
        raise SymError('truncatediv')
    q = cast(floordiv(abs_(x), abs_(y)), x.dtype)
    return where(logical_xor(less(x, 0), less(y, 0)), -q, q)


def truncatemod(x, y, name=None):
    x, y = _pair(x, y)
    r = floormod(abs_(x), abs_(y))
    return where(less(x, 0), -r, r)


def scalar_mul(scalar, x, name=None): return multiply(scalar, x)
def accumulate_n(inputs, shape=None, tensor_dtype=None, name=None): return add_n(inputs)
def parallel_stack(values, name=None): return stack(values, 0)
def no_op(name=None): return None


def polyval(coeffs, x, name=None):
    x = convert(x)
    if not len(coeffs):
        return zeros_like(x)
    r = zeros_like(x) + coeffs[0]
    for c in coeffs[1:]:
        r = r * x + c
    return r


def count_nonzero(input, axis=None, keepdims=None, dtype=None, name=None):
    x = convert(input)
    d = as_dtype(dtype) or int64
    nz = x if x.dtype is bool_ else not_equal(x, cast(0, x.dtype))
    return reduce_sum(cast(nz, d), axis, builtins.bool(keepdims))


def zero_fraction(value, name=None):
    return reduce_mean(cast(equal(value, cast(0, convert(value).dtype)), float32))


def reduce_logsumexp(x, axis=None, keepdims=False, name=None): return log(reduce_sum(exp(x), axis, keepdims))


def softmax(logits, axis=-1, name=None):
    e = exp(logits)
    return e / reduce_sum(e, axis, True)


def log_softmax(logits, axis=-1, name=None): return logits - reduce_logsumexp(logits, axis, True)


def xlogy(x, y, name=None):
    x, y = _pair(x, y)
    z = equal(x, cast(0, x.dtype))
    return where(z, zeros_like(x), x * log(where(z, ones_like(y), y)))


def xdivy(x, y, name=None):
    x, y = _pair(x, y)
    z = equal(x, cast(0, x.dtype))
    return where(z, zeros_like(x), x / where(z, ones_like(y), y))


def reciprocal_no_nan(x, name=None): return divide_no_nan(ones_like(x), x)


def sequence_mask(lengths, maxlen=None, dtype=bool_, name=None):
    n = convert(lengths)
    if maxlen is None:
        maxlen = reduce_max(n)
    m = int(maxlen)
    r = less(convert(np.arange(m)) if m else zeros([0], int64), expand_dims(cast(n, int64), -1))
    return r if as_dtype(dtype) is bool_ else cast(r, dtype)


def normalize(tensor, ord='euclidean', axis=None, name=None):
    n = norm(tensor, ord, axis, True)
    return convert(tensor) / cast(n, convert(tensor).dtype), n


def unsorted_segment_sum(data, segment_ids, num_segments, name=None, reduce=None, empty=0.0):
    x, i = convert(data), convert(segment_ids)
    ids = np.array([int(v) for v in i.a.reshape(-1)])
    rows = reshape(x, [len(ids)] + list(x.a.shape[i.a.ndim:]))
    out = []
    for k in builtins.range(int(num_segments)):
        m = [rows[int(j)] for j in np.nonzero(ids == k)[0]]
        out.append((reduce or add_n)(m) if m else zeros(x.a.shape[i.a.ndim:], x.dtype) + cast(empty, x.dtype))
    return stack(out, 0)


def segment_sum(data, segment_ids, name=None, **k):
    i = convert(segment_ids)
    return unsorted_segment_sum(data, segment_ids, 1 + builtins.max([int(v) for v in i.a.reshape(-1)]), **k)


def _seg_mean(m): return add_n(m) / float(len(m))
def segment_mean(data, segment_ids, name=None): return segment_sum(data, segment_ids, reduce=_seg_mean)
def unsorted_segment_mean(data, segment_ids, num_segments, name=None): return unsorted_segment_sum(data, segment_ids, num_segments, reduce=_seg_mean)
def segment_max(data, segment_ids, name=None): return segment_sum(data, segment_ids, reduce=lambda m: reduce_max(stack(m, 0), 0))
def segment_min(data, segment_ids, name=None): return segment_sum(data, segment_ids, reduce=lambda m: reduce_min(stack(m, 0), 0))


def tensor_scatter_nd_sub(tensor, indices, updates, name=None): return tensor_scatter_nd_add(tensor, indices, -convert(updates))


def _scatter_with(f):
    def g(tensor, indices, updates, name=None):
        t, i, u = convert(tensor), convert(indices), convert(updates)
        out = obj(t.a).copy()
        for pos in np.ndindex(*i.a.shape[:-1]):
            k = tuple(int(v) for v in i.a[pos])
            out[k] = obj(f(T(densify(obj(box(out[k]))), t.dtype), T(densify(obj(box(u.a[pos]))), t.dtype)).a) if len(k) < t.a.ndim else f(T(densify(obj(box(out[k]))), t.dtype), T(densify(obj(box(u.a[pos]))), t.dtype)).a.reshape(-1)[0]
        return T(densify(out), t.dtype)
    return g


tensor_scatter_nd_max = _scatter_with(maximum)
tensor_scatter_nd_min = _scatter_with(minimum)


def strided_slice(input_, begin, end, strides=None, name=None, **k):
    if any(k.values()):
        raise SymError('strided_slice masks')
    b, e = _shape(begin), _shape(end)
    st = _shape(strides) if strides is not None else [1] * len(b)
    import builtins as _b
    return convert(input_)[tuple(_b.slice(x, y, z) for x, y, z in zip(b, e, st))]


def switch_case(branch_index, branch_fns, default=None, name=None):
    k = int(branch_index)
    fns = dict(branch_fns) if isinstance(branch_fns, dict) or branch_fns and isinstance(branch_fns[0], tuple) else dict(enumerate(branch_fns))
    return fns[k]() if k in fns else (default or fns[builtins.max(fns)])()


def unravel_index(indices, dims, name=None):
    r = np.unravel_index(convert(indices).a.astype(np.int64), tuple(_shape(dims)))
    return T(np.stack(r), int32)


def foldr(fn, elems, initializer=None, **k): return foldl(fn, reverse(convert(elems), [0]), initializer)
def invert_permutation(x, name=None): return argsort(x)


def bincount(arr, weights=None, minlength=None, maxlength=None, dtype=None, **k):
    a = np.array([int(v) for v in convert(arr).a.reshape(-1)])
    if weights is None:
        return T(np.bincount(a, minlength=int(minlength or 0)), as_dtype(dtype) or int32)
    return unsorted_segment_sum(weights, arr, builtins.max(int(minlength or 0), int(a.max()) + 1))


class _TNP(_NS):
    """tf.experimental.numpy: the modelled NumPy functions, with tensors in and out"""
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        from . import npshim
        f = getattr(npshim.NP, k)
        if not callable(f) or isinstance(f, type):
            return f

        def g(*a, **kw):
            ts = [x for x in list(a) + [y for x in a if isinstance(x, (list, tuple)) for y in x] if isinstance(x, T)]
            r = f(*a, **kw)
            d = next((x.dtype for x in ts if x.dtype.kind in 'fc'), ts[0].dtype if ts else None)
            c = lambda v: v if isinstance(v, T) else (convert(v) if d is None or np.asarray(v).dtype.kind in 'bi' else cast(convert(np.asarray(v)), d))
            return type(r)(c(v) for v in r) if isinstance(r, (list, tuple)) else c(r)
        return g



random = _NS(normal=_rnormal, uniform=_runiform, set_seed=lambda *a: None, shuffle=_rshuffle,
             truncated_normal=_rnormal, Generator=_Gen, get_global_generator=lambda: _Gen(),
             stateless_normal=_stateless(_rnormal), stateless_uniform=_stateless(_runiform))

math_names = ['abs', 'acos', 'add', 'add_n', 'angle', 'argmax', 'argmin', 'asin', 'atan', 'atan2', 'ceil', 'conj', 'cos', 'cosh',
              'cumprod', 'cumsum', 'divide', 'divide_no_nan', 'equal', 'exp', 'expm1', 'floor', 'floordiv', 'floormod',
              'greater', 'greater_equal', 'imag', 'is_finite', 'is_inf', 'is_nan', 'l2_normalize', 'less', 'less_equal',
              'log', 'log1p', 'logical_and', 'logical_not', 'logical_or', 'logical_xor', 'maximum', 'minimum', 'mod', 'multiply',
              'multiply_no_nan', 'negative', 'not_equal', 'pow', 'real', 'reciprocal', 'reduce_all', 'reduce_any',
              'reduce_euclidean_norm', 'reduce_max', 'reduce_mean', 'reduce_min', 'reduce_prod', 'reduce_std', 'reduce_sum',
              'reduce_variance', 'rint', 'rsqrt', 'sigmoid', 'sign', 'sin', 'sinh', 'sqrt', 'square', 'squared_difference',
              'subtract', 'tan', 'tanh', 'top_k', 'truediv', 'asinh', 'acosh', 'atanh', 'softplus', 'scalar_mul', 'accumulate_n', 'polyval', 'count_nonzero',
              'zero_fraction', 'reduce_logsumexp', 'softmax', 'log_softmax', 'xlogy', 'xdivy', 'reciprocal_no_nan', 'unsorted_segment_sum', 'segment_sum', 'segment_mean',
              'unsorted_segment_mean', 'segment_max', 'segment_min', 'invert_permutation', 'bincount', 'divide', 'floordiv']


def _group(names, **extra):
    g = globals()
    return _NS(**{n: g[n] for n in names}, **extra)


def norm_(*a, **k): return norm(*a, **k)


def _debug_eq(x, y, message=None, **kw): _dassert(reduce_all(equal(x, y)), message)
def _dassert(c, message=None):
    if not bool(c):
        raise InvalidArgumentError(message or "assertion failed")


debugging = _NS(
    assert_equal=_debug_eq,
    assert_less=lambda x, y, message=None, **k: _dassert(reduce_all(less(x, y)), message),
    assert_less_equal=lambda x, y, message=None, **k: _dassert(reduce_all(less_equal(x, y)), message),
    assert_greater=lambda x, y, message=None, **k: _dassert(reduce_all(greater(x, y)), message),
    assert_greater_equal=lambda x, y, message=None, **k: _dassert(reduce_all(greater_equal(x, y)), message),
    assert_positive=lambda x, message=None, **k: _dassert(reduce_all(greater(x, 0.0)), message),
    assert_non_negative=lambda x, message=None, **k: _dassert(reduce_all(greater_equal(x, 0.0)), message),
    assert_near=lambda *a, **k: None, assert_all_finite=lambda x, *a, **k: x, check_numerics=lambda x, *a, **k: x,
    assert_shapes=lambda *a, **k: None, assert_type=lambda *a, **k: None, assert_integer=lambda *a, **k: None, assert_scalar=lambda *a, **k: None, assert_rank_at_least=lambda *a, **k: None, assert_rank_in=lambda *a, **k: None, assert_same_float_dtype=lambda *a, **k: None,
    assert_none_equal=lambda x, y, message=None, **k: _dassert(reduce_all(not_equal(x, y)), message), assert_negative=lambda x, message=None, **k: _dassert(reduce_all(less(x, 0.0)), message), assert_non_positive=lambda x, message=None, **k: _dassert(reduce_all(less_equal(x, 0.0)), message), assert_rank=lambda *a, **k: None,
    Assert=lambda c, *a, **k: _dassert(c))


def print_(*a, **k): pass


def function(f=None, **kw):
    if f is None:
        return lambda g: g
    return f


class _Ctx:
    def __init__(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def __call__(self, f): return f


def module():
    m = types.ModuleType('tensorflow')
    g = globals()
    skip = {'builtins', 'types', 'math', 'itertools', 'np', 'S', 'N', 'B', 'CX', 'module', 'T'}
    for k, v in list(g.items()):
        if k.startswith('_') or k in skip:
            continue
        setattr(m, k, v)
    m.bool = bool_
    m.range = range_
    m.round = round_
    m.slice = slice_
    m.print = print_
    m.Tensor = T
    m.newaxis = None
    m.math = _group(math_names, round=round_, bessel_j1=bessel_j1, bessel_j0=bessel_j0,
                    special=_NS(bessel_j1=bessel_j1, bessel_j0=bessel_j0))
    m.linalg = _group(['matmul', 'matvec', 'cholesky', 'inv', 'det', 'diag', 'diag_part', 'trace', 'set_diag', 'band_part',
                       'norm', 'normalize', 'eye', 'cross', 'einsum', 'tensordot', 'adjoint', 'matrix_transpose', 'solve', 'l2_normalize',
                       'LinearOperatorToeplitz'])
    m.signal = _group(['fft', 'ifft', 'fftshift', 'ifftshift'])
    m.nn = _NS(l2_normalize=l2_normalize, sigmoid=sigmoid, tanh=tanh, softmax=softmax, log_softmax=log_softmax, softplus=softplus, top_k=top_k, relu=lambda x, name=None: maximum(x, zeros_like(x)))
    m.random = random
    m.debugging = debugging
    m.function = function
    m.dtypes = _NS(as_dtype=as_dtype, cast=cast, complex=complex, DType=DType, **{k: v for k, v in _ALL.items()})
    m.DType = DType
    m.TensorShape = lambda s: TShape(_shape(s))
    m.errors = _NS(InvalidArgumentError=InvalidArgumentError)
    m.Assert = lambda c, *a, **k: _dassert(c)
    m.name_scope = _Ctx
    m.device = _Ctx
    m.init_scope = _Ctx
    m.control_dependencies = _Ctx
    m.autograph = _NS(experimental=_NS(do_not_convert=function))
    m.executing_eagerly = lambda: True
    m.is_tensor = lambda x: isinstance(x, T)
    m.rank = rank
    m.experimental = _NS(numpy=_TNP(sinc=sinc, log10=ew1('log10', _cxf(S.log10), np.log10),
                                   log2=ew1('log2', _cxf(lambda v: S.log(v) * (1 / math.log(2))), np.log2),
                                   deg2rad=lambda x: convert(x) * (math.pi / 180.), rad2deg=lambda x: convert(x) * (180. / math.pi),
                                   pi=math.pi, moveaxis=lambda x, s, d: T(np.moveaxis(convert(x).a, s, d), convert(x).dtype),
                                   swapaxes=lambda x, s, d: T(np.swapaxes(convert(x).a, s, d), convert(x).dtype)))
    m.config = _NS(run_functions_eagerly=lambda *a: None, list_physical_devices=lambda *a: [])
    m.keras = _NS()
    m.compat = _NS()
    m.nest = _NS(map_structure=nest_map, flatten=lambda x: x)
    m.TensorSpec = lambda *a, **k: None
    m.RaggedTensor = type('RaggedTensor', (), {})
    m.einsum = einsum
    m.assert_rank = lambda *a, **k: None
    m.assert_equal, m.assert_less, m.assert_greater = debugging.assert_equal, debugging.assert_less, debugging.assert_greater

    def _missing(name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise SymError(f"TensorFlow API not modelled: tf.{name}")
    m.__getattr__ = _missing
    return m


TF = module()
