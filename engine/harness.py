"""Harness API: one harness function runs symbolically (obligations) and concretely (replay)."""
import math
import traceback

import numpy as np

from . import sym as S
from .sym import N, B, CX, SymError


class Skip(Exception):
    """assumption violated in a concrete run"""


class Stop(BaseException):
    """harness ends this path (after recording)"""


def _is_c(x):
    return isinstance(x, (CX, complex, np.complexfloating))


class Env:
    """Common part.  Values handled by harness code are N/B/CX or python numbers."""
    sym = False

    def __init__(self, case, tier='quick'):
        self.case = case
        self.tier = tier
        self.records = []      # (label, got, want|None, tol, kind)
        self.assumed = []
        self.precision = case.get('precision', 'double')
        self.forced_fn = None
        self.drawlog = []

    # ---- inputs
    def reals(self, name, shape, lo, hi):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.real(name + ''.join(f'_{k}' for k in i), lo, hi)
        return out

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.bool(name + ''.join(f'_{k}' for k in i))
        return out

    # ---- randomness
    class _Forced:
        def __init__(self, env, fn):
            self.env, self.fn = env, fn

        def __enter__(self):
            self.old, self.env.forced_fn = self.env.forced_fn, self.fn

        def __exit__(self, *a):
            self.env.forced_fn = self.old

    def forced(self, fn):
        """draws become fn(kind, lo, hi, isint, index_in_block) inside the block"""
        return Env._Forced(self, fn)

    # ---- checks
    def close(self, label, got, want, tol=1e-7):
        g, w = self.arr(got), self.arr(want)
        if g.shape != w.shape:
            try:
                w = np.broadcast_to(w, g.shape)
            except ValueError:
                return self.holds(f'{label}: shape {g.shape} instead of {w.shape}', False)
            if w.size != 0 and self.arr(want).ndim != 0:
                return self.holds(f'{label}: shape {g.shape} instead of {self.arr(want).shape}', False)
        for i in np.ndindex(*g.shape):
            self._close1(label + (str(list(i)) if i else ''), g[i], w[i], tol)

    def shape(self, label, t, shape):
        s = tuple(int(k) for k in t.shape)
        self.holds(f'{label}: shape {s}, expected {tuple(shape)}', s == tuple(shape))
        if s != tuple(shape):
            raise Stop      # nothing below this point makes sense

    def dtype_is(self, label, t, name):
        self.holds(f'{label}: dtype {t.dtype.name}, expected {name}', t.dtype.name == name)

    def attempt(self, fn, *excs):
        """-> (value, None) or (None, exception); other exceptions propagate"""
        try:
            return fn(), None
        except excs or (Exception,) as e:
            if isinstance(e, SymError):
                raise
            return None, e

    def t(self, x, kind='r'):
        """array-like of scalars -> backend tensor"""
        a = np.asarray(x, dtype=object) if not isinstance(x, np.ndarray) else x
        return self._tensor(a, kind)

    @property
    def rname(self):
        return 'float64' if self.precision == 'double' else 'float32'

    @property
    def cname(self):
        return 'complex128' if self.precision == 'double' else 'complex64'


# ------------------------------------------------------------------ symbolic
class SymEnv(Env):
    sym = True

    def __init__(self, case, chooser, assumed, loader, tier='quick'):
        super().__init__(case, tier)
        from . import tfshim as F
        self.F = F
        self.chooser = chooser
        self.assumed = assumed
        self.loader = loader
        self.tf = loader.tf
        self.np = loader.np
        F.RNG.k = 0
        F.RNG.log = []
        F.RNG.provider = self._provide
        F.PERM['mode'] = case.get('perm', 'symbolic')
        F.PERM['count'] = 0
        F.PERM['log'] = []
        F.PERM['matrices'] = {}
        self._nforced = 0
        self.notes = []
        self.full = {}         # label -> compared value where the record holds only a part of it

    def mod(self, name='OpenNTN'):
        m = self.loader.get(name)
        return m

    def real(self, name, lo, hi, isint=False):
        if lo == hi:
            return float(lo)
        return S.var(name, float(lo), float(hi), isint)

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, True)

    def bool(self, name):
        return S.bvar(name)

    def _provide(self, name, kind, lo, hi, isint):
        if self.forced_fn is not None:
            return self.forced_fn(kind, lo, hi, isint, name)
        self.drawlog.append((name, kind, lo, hi, isint))
        return S.var(name, float(lo), float(hi), isint)

    def assume(self, cond):
        c = S._tob(cond)
        if c is S.FALSE:
            from .explore import Abort
            raise Abort()
        if c is not S.TRUE:
            self.assumed.append(c)

    def choose(self, cond):
        """fork the harness on a condition"""
        return bool(cond)

    def holds(self, label, cond):
        self.records.append((label, S._tob(cond), None, None, 'bool', len(self.assumed)))

    def _close1(self, label, g, w, tol):
        if _is_c(g) or _is_c(w):
            g, w = S.tocx(g), S.tocx(w)
            if isinstance(g.ph, N) or isinstance(w.ph, N):
                self.full[label + '.re'], self.full[label + '.im'] = g.re, g.im
                # equal phases need not be multiplied out
                d = S._norm(g.ph - w.ph)
                if isinstance(d, N):
                    from .solve import poly_zero, common_part
                    if poly_zero(d):
                        g, w, tol = CX(g.a, g.b), CX(w.a, w.b), tol * 0.7
                    else:
                        # turn both by the common part of their phases
                        d = common_part(d, g.ph, w.ph)
                        if d is not None:
                            g, w, tol = CX(g.a, g.b, d), CX(w.a, w.b), tol * 0.7
                elif abs(d) < 1e-12:
                    g, w, tol = CX(g.a, g.b), CX(w.a, w.b), tol * 0.7
            self.records.append((label + '.re', S._norm(g.re), S._norm(w.re), tol, 'real', len(self.assumed)))
            self.records.append((label + '.im', S._norm(g.im), S._norm(w.im), tol, 'real', len(self.assumed)))
            return
        if isinstance(g, (B, bool, np.bool_)) or isinstance(w, (B, bool, np.bool_)):
            g, w = S._tob(g), S._tob(w)
            self.records.append((label, S.and_(S.or_(S.not_(g), w), S.or_(g, S.not_(w))), None, None, 'bool', len(self.assumed)))
            return
        self.records.append((label, S._norm(g), S._norm(w), tol, 'real', len(self.assumed)))

    def arr(self, x):
        F = self.F
        if isinstance(x, F.T):
            a = x.a
        elif isinstance(x, np.ndarray):
            a = x
        elif isinstance(x, (list, tuple)):
            parts = [self.arr(v) for v in x]
            a = np.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                a[i] = p
        else:
            a = np.empty((), dtype=object)
            a[()] = x
        if hasattr(a, 'a') and not isinstance(a, np.ndarray):
            a = a.a
        if a.dtype != object:
            a = np.asarray(a)
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                o[i] = a[i].item()
            return o
        return np.asarray(a, dtype=object)

    def _tensor(self, a, kind):
        F = self.F
        d = {'r': getattr(F, self.rname), 'c': getattr(F, self.cname), 'i': F.int32, 'b': F.as_dtype('bool'), 'f32': F.float32, 'f64': F.float64}[kind]
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            o[i] = v.item() if hasattr(v, 'item') else v
        return F.T(F.densify(o) if hasattr(F, 'densify') else o, d)


# ------------------------------------------------------------------ concrete (real TensorFlow)
class RealEnv(Env):
    def __init__(self, case, model, loader, seed=1, tier='quick', rtol=1e-5):
        super().__init__(case, tier)
        self.model = model
        self.loader = loader
        self.tf = loader.tf
        self.np = np
        self.rng = np.random.default_rng(seed)
        self.k = 0
        self.rtol = rtol
        self.failed = []
        self.drawn = {}
        self.values = []       # (label, got)
        self._patch()

    def mod(self, name='OpenNTN'):
        return self.loader.get(name)

    def real(self, name, lo, hi, isint=False):
        if lo == hi:
            return float(lo)
        if name in self.model:
            v = self.model[name]
            return int(round(v)) if isint else float(v)
        v = float(self.rng.uniform(lo, hi))
        return int(round(v)) if isint else v

    def int(self, name, lo, hi):
        return int(self.real(name, lo, hi, True))

    def bool(self, name):
        return bool(self.model.get(name, False))

    def choose(self, cond):
        return bool(cond)

    def assume(self, cond):
        if not bool(cond):
            raise Skip()

    def holds(self, label, cond):
        ok = bool(cond)
        self.values.append((label, ok))
        if not ok:
            self.failed.append((label, 'condition is false'))

    def _close1(self, label, g, w, tol):
        if _is_c(g) or _is_c(w):
            g, w = complex(g), complex(w)
            self._close1(label + '.re', g.real, w.real, tol)
            self._close1(label + '.im', g.imag, w.imag, tol)
            return
        if isinstance(g, (bool, np.bool_)) or isinstance(w, (bool, np.bool_)):
            g, w = bool(g), bool(w)
            self.values.append((label, g == w))
            if g != w:
                self.failed.append((label, f'got {g}, expected {w}'))
            return
        g, w = float(g), float(w)
        self.values.append((label, g))
        if g == w:
            return
        t = max(tol, self.rtol)
        if not (abs(g - w) <= t * (1 + abs(w))):
            self.failed.append((label, f'got {g!r}, expected {w!r}'))

    def arr(self, x):
        if hasattr(x, 'numpy'):
            x = x.numpy()
        if isinstance(x, (list, tuple)):
            parts = [self.arr(v) for v in x]
            a = np.empty((len(parts),) + parts[0].shape, dtype=object)
            for i, p in enumerate(parts):
                a[i] = p
            return a
        a = np.asarray(x)
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            o[i] = v.item() if hasattr(v, 'item') else v
        return o

    def _tensor(self, a, kind):
        tf = self.tf
        d = {'r': getattr(tf, self.rname), 'c': getattr(tf, self.cname), 'i': tf.int32, 'b': tf.bool, 'f32': tf.float32, 'f64': tf.float64}[kind]
        nd = {'r': np.float64, 'c': np.complex128, 'i': np.int64, 'b': bool, 'f32': np.float64, 'f64': np.float64}[kind]
        return tf.constant(np.array(a.tolist(), dtype=nd).reshape(a.shape), d)

    # scripted random source
    def _draw(self, kind, shape, lo, hi, isint=False):
        shp = tuple(int(s) for s in np.asarray(shape).reshape(-1))
        k = self.k
        self.k += 1
        n = int(np.prod(shp)) if shp else 1
        out = np.empty(n)
        for j in range(n):
            name = f'rnd{k}_{j}'
            if self.forced_fn is not None:
                out[j] = float(self.forced_fn(kind, lo, hi, isint, name))
                continue
            self.drawlog.append((name, kind, lo, hi, isint))
            if name in self.drawn:
                out[j] = self.drawn[name]
            elif name in self.model:
                out[j] = self.model[name]
            elif kind == 'normal':
                out[j] = self.rng.normal()
            elif isint:
                out[j] = self.rng.integers(int(lo), int(hi) + 1)
            else:
                out[j] = self.rng.uniform(lo, hi)
            self.drawn[name] = float(out[j])
        return out.reshape(shp)

    def _patch(self):
        tf = self.tf
        env = self

        def normal(shape, mean=0.0, stddev=1.0, dtype=tf.float32, seed=None, name=None):
            z = tf.constant(env._draw('normal', shape, -6.0, 6.0), dtype)
            return z * tf.cast(stddev, dtype) + tf.cast(mean, dtype) if not (tf.is_tensor(stddev) or tf.is_tensor(mean)) else z * stddev + mean

        def uniform(shape, minval=0, maxval=None, dtype=tf.float32, seed=None, name=None):
            dtype = tf.as_dtype(dtype)
            if dtype.is_integer:
                return tf.constant(env._draw('uniform', shape, int(minval), int(maxval) - 1, True), dtype)
            if maxval is None:
                maxval = 1
            u = tf.constant(env._draw('uniform', shape, 0.0, 1.0), dtype)
            lo = minval if tf.is_tensor(minval) else tf.constant(float(minval), dtype)
            hi = maxval if tf.is_tensor(maxval) else tf.constant(float(maxval), dtype)
            return u * (hi - lo) + lo

        def shuffle(value, seed=None, name=None):
            v = tf.convert_to_tensor(value)
            r = env._draw('normal', [int(v.shape[0])], -6.0, 6.0)
            return tf.gather(v, np.argsort(r, kind='stable'))

        class Gen:
            def normal(self, shape, mean=0.0, stddev=1.0, dtype=tf.float32, name=None): return normal(shape, mean, stddev, dtype)
            def uniform(self, shape, minval=0, maxval=None, dtype=tf.float32, name=None): return uniform(shape, minval, maxval, dtype)
            def truncated_normal(self, shape, mean=0.0, stddev=1.0, dtype=tf.float32, name=None): return normal(shape, mean, stddev, dtype)
            def reset_from_seed(self, *a): pass
            def split(self, n): return [self] * n
        tf.random.normal = normal
        tf.random.uniform = uniform
        tf.random.shuffle = shuffle
        tf.random.truncated_normal = normal
        tf.random.stateless_normal = lambda shape, seed=None, *a, **k: normal(shape, *a, **k)
        tf.random.stateless_uniform = lambda shape, seed=None, *a, **k: uniform(shape, *a, **k)
        from sionna.phy import config
        config._tf_rng = Gen()


def describe(model):
    return {k: (float(v) if not isinstance(v, bool) else v) for k, v in sorted(model.items())}
