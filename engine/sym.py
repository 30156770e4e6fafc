"""Symbolic real / boolean / complex scalars.

Terms are hash-consed DAG nodes in a light canonical form (linear combinations,
power products, if-then-else, uninterpreted-or-axiomatised functions).  They are
produced by executing OpenNTN's real Python source over the TensorFlow stand-in
in ``tfshim`` and are handed to Z3 by ``solve``.  Arithmetic is over the reals;
coefficients are kept as doubles and compared with relative tolerance 1e-9.
"""
import math

import numpy as np
import sys

sys.setrecursionlimit(200000)

INF = math.inf


class SymError(Exception):
    """The symbolic executor cannot represent what the code does."""


def _r(x):
    return '%.9e' % (x + 0.0)      # -0.0 and 0.0 are one constant


class N:
    """A real-valued symbolic term."""
    __slots__ = ('op', 'args', 'id', 'lo', 'hi', 'isint', '__weakref__')
    __array_priority__ = 1e9
    __array_ufunc__ = None      # numpy defers to our operators

    def __init__(self, op, args, lo, hi, isint=False):
        self.op = op
        self.args = args
        self.lo = lo
        self.hi = hi
        self.isint = isint
        self.id = _counter[0]
        _counter[0] += 1

    # identity-based hashing: nodes are interned.  '==' on symbolic reals is a
    # symbolic comparison, so dict/set use must go through .id
    __hash__ = object.__hash__

    def __repr__(self):
        return show(self)

    # -- arithmetic
    def __add__(self, o): return _bin(add2, self, o)
    def __radd__(self, o): return _bin(add2, o, self)
    def __sub__(self, o): return _bin(sub2, self, o)
    def __rsub__(self, o): return _bin(sub2, o, self)
    def __mul__(self, o): return _bin(mul2, self, o)
    def __rmul__(self, o): return _bin(mul2, o, self)
    def __truediv__(self, o): return _bin(div2, self, o)
    def __rtruediv__(self, o): return _bin(div2, o, self)
    def __floordiv__(self, o): return _bin(lambda a, b: floor(div2(a, b)), self, o)
    def __rfloordiv__(self, o): return _bin(lambda a, b: floor(div2(a, b)), o, self)
    def __mod__(self, o): return _bin(mod2, self, o)
    def __rmod__(self, o): return _bin(mod2, o, self)
    def __pow__(self, o): return _bin(pow2, self, o)
    def __rpow__(self, o): return _bin(pow2, o, self)
    def __neg__(self): return mul2(-1.0, self)
    def __pos__(self): return self
    def __abs__(self): return abs1(self)

    # -- comparisons
    def __lt__(self, o): return _bin(lt, self, o)
    def __le__(self, o): return _bin(le, self, o)
    def __gt__(self, o): return _bin(lambda a, b: lt(b, a), self, o)
    def __ge__(self, o): return _bin(lambda a, b: le(b, a), self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _bin(eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = _bin(eq, self, o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return _fork(not_(eq(self, 0.0)))

    # -- conversions which need a concrete value: fork over the feasible ones
    def __int__(self):
        return int(_concretize_int(trunc(self)))

    def __index__(self):
        if not self.isint:
            raise TypeError("symbolic float used as an index")
        return int(_concretize_int(self))

    def __float__(self):
        return float(_concretize_real(self))

    def __round__(self, nd=None):
        if nd is None or nd == 0:
            return rint(self)
        s = 10.0 ** nd
        return div2(rint(mul2(self, s)), s)

    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)
    def __trunc__(self): return trunc(self)

    def __str__(self):
        if self.isint:
            return str(int(_concretize_int(self)))
        return show(self)

    def __format__(self, spec):
        if self.isint:
            return format(int(_concretize_int(self)), spec)
        return show(self)

    # -- numpy style helpers
    def item(self): return self
    def numpy(self): return self
    def is_integer(self): return eq(self, floor(self))
    @property
    def real(self): return self
    @property
    def imag(self): return 0.0
    def conjugate(self): return self
    def sqrt(self): return sqrt(self)
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def exp(self): return exp(self)
    def log(self): return log(self)
    def log10(self): return log10(self)


class B:
    """A symbolic boolean: op in {'le','eq','and','or','not','bv'}."""
    __slots__ = ('op', 'args', 'id')
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self.id = _counter[0]
        _counter[0] += 1

    __hash__ = object.__hash__

    def __repr__(self): return show(self)
    def __bool__(self): return _fork(self)
    def __and__(self, o): return and_(self, _tob(o))
    __rand__ = __and__
    def __or__(self, o): return or_(self, _tob(o))
    __ror__ = __or__
    def __xor__(self, o): return ite_b(self, not_(_tob(o)), _tob(o))
    __rxor__ = __xor__
    def __invert__(self): return not_(self)

    def __eq__(self, o):
        if isinstance(o, (B, bool)):
            o = _tob(o)
            return ite_b(self, o, not_(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    # a bool used as a number
    def _n(self): return ite(self, 1.0, 0.0)
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()


class CX:
    """Complex number (a + jb) e^{j ph}; a, b, ph are floats or N.  The phase is kept apart so that phases of products add up."""
    __slots__ = ('a', 'b', 'ph', '_re', '_im')
    __array_priority__ = 1e9
    __array_ufunc__ = None

    def __init__(self, re, im=0.0, ph=0.0):
        if not isinstance(ph, N) and ph != 0:
            c, s = math.cos(ph), math.sin(ph)
            re, im, ph = re * c - im * s, re * s + im * c, 0.0
        self.a = re
        self.b = im
        self.ph = ph
        self._re = None

    def _mat(self):
        if self._re is None:
            if isinstance(self.ph, N):
                c, s = cos(self.ph), sin(self.ph)
                self._re = self.a * c - self.b * s
                self._im = self.a * s + self.b * c
            else:
                self._re, self._im = self.a, self.b

    @property
    def re(self):
        self._mat()
        return self._re

    @property
    def im(self):
        self._mat()
        return self._im

    real = re
    imag = im

    def same_phase(self, o):
        return self.ph is o.ph or not isinstance(self.ph, N) and not isinstance(o.ph, N)

    def null(self):
        return not isinstance(self.a, N) and not isinstance(self.b, N) and self.a == 0 and self.b == 0

    def __repr__(self): return f"({self.re!r} + j{self.im!r})"
    def __add__(self, o):
        o = tocx(o)
        if self.same_phase(o):
            return CX(self.a + o.a, self.b + o.b, self.ph)
        if o.null():
            return self
        if self.null():
            return o
        return CX(self.re + o.re, self.im + o.im)
    __radd__ = __add__
    def __sub__(self, o):
        return self + (-tocx(o))
    def __rsub__(self, o): return tocx(o) - self
    def __mul__(self, o):
        if isinstance(o, CX):
            return CX(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a, self.ph + o.ph if isinstance(o.ph, N) else self.ph)
        if isinstance(o, complex):
            return self * CX(o.real, o.imag)
        return CX(self.a * o, self.b * o, self.ph)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if isinstance(o, (CX, complex)):
            o = tocx(o)
            ph = self.ph - o.ph
            if not sym(o.b) and o.b == 0:
                return CX(self.a / o.a, self.b / o.a, ph)
            d = o.a * o.a + o.b * o.b
            n = CX(self.a, self.b) * CX(o.a, -o.b)
            return CX(n.a / d, n.b / d, ph)
        return CX(self.a / o, self.b / o, self.ph)
    def __rtruediv__(self, o): return tocx(o) / self
    def __neg__(self): return CX(-self.a, -self.b, self.ph)
    def __pos__(self): return self
    def __abs__(self): return sqrt(self.a * self.a + self.b * self.b)
    def __complex__(self): return complex(float(self.re), float(self.im))
    def conjugate(self): return CX(self.a, -self.b, -self.ph)
    def __pow__(self, k):
        if isinstance(k, complex) and k.imag == 0:
            k = k.real
        if isinstance(k, (int, float)) and float(k).is_integer() and 0 <= k < 20:
            r = CX(1.0, 0.0)
            for _ in range(int(k)):
                r = r * self
            return r
        raise SymError("complex power")
    def __eq__(self, o):
        o = tocx(o)
        if self.same_phase(o):
            return and_(_tob(eq(self.a, o.a)), _tob(eq(self.b, o.b)))
        return and_(_tob(eq(self.re, o.re)), _tob(eq(self.im, o.im)))
    __hash__ = object.__hash__


def tocx(v):
    if isinstance(v, CX):
        return v
    if isinstance(v, complex):
        return CX(v.real, v.imag)
    if hasattr(v, 'dtype') and hasattr(v, 'item') and not isinstance(v, N):
        v = v.item()
        return tocx(v)
    return CX(v, 0.0)


_counter = [0]
_table = {}
_concrete_env = None


def reset():
    _table.clear()
    _NEAR.clear()
    _counter[0] = 0
    PI_2_cache.clear()


PI_2_cache = {}


def sym(v):
    return isinstance(v, (N, B)) or (isinstance(v, CX) and (sym(v.a) or sym(v.b) or sym(v.ph)))


def _isnum(v):
    return isinstance(v, (int, float)) or (hasattr(v, 'dtype') and not isinstance(getattr(v, 'a', None), np.ndarray) and getattr(v, 'ndim', 1) == 0
                                           and v.dtype.kind in 'iufb')


def _norm(v):
    """Python float / N out of any real scalar."""
    if isinstance(v, N):
        return v
    if isinstance(v, B):
        return ite(v, 1.0, 0.0)
    if isinstance(v, float):
        return v
    if isinstance(v, (bool, int)):
        return float(v)
    if _isnum(v):
        return float(v)
    return None


def _bin(f, a, b):
    if isinstance(a, (CX, complex)) or isinstance(b, (CX, complex)):
        a, b = tocx(a), tocx(b)
        if f is add2:
            return a + b
        if f is sub2:
            return a - b
        if f is mul2:
            return a * b
        if f is div2:
            return a / b
        return NotImplemented
    x = _norm(a)
    y = _norm(b)
    if x is None or y is None:
        return NotImplemented
    return f(x, y)


def _tob(v):
    if isinstance(v, B):
        return v
    if isinstance(v, N):
        return not_(eq(v, 0.0))
    return TRUE if bool(v) else FALSE


# ---------------------------------------------------------------- forking hook
class _Ctx:
    chooser = None


def _fork(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if _Ctx.chooser is None:
        raise SymError("branch on a symbolic value outside an exploration: " + show(b)[:200])
    return _Ctx.chooser.branch(b)


def _concretize_int(n):
    if not isinstance(n, N):
        return n
    if _Ctx.chooser is None:
        raise SymError("concretisation outside an exploration")
    return _Ctx.chooser.concretize(n)


def _concretize_real(n):
    if n.isint:
        return _concretize_int(n)
    if _Ctx.chooser is None:
        raise SymError("concretisation outside an exploration")
    return _Ctx.chooser.concretize_real(n)


# ---------------------------------------------------------------- construction
def _intern(key, mk):
    n = _table.get(key)
    if n is None:
        n = mk()
        _table[key] = n
    return n


def var(name, lo=-INF, hi=INF, isint=False):
    return _intern(('v', name), lambda: N('v', (name,), lo, hi, isint))


def bvar(name):
    return _intern(('bv', name), lambda: B('bv', (name,)))


TRUE = B('true', ())
FALSE = B('false', ())


def _terms(x):
    """(const, {id: [node, coef]})"""
    if not isinstance(x, N):
        return x, ()
    if x.op == 'add':
        return x.args
    return 0.0, ((x, 1.0),)


def _mulb(a, b):
    # interval bound product with 0*inf = 0
    if a == 0 or b == 0:
        return 0.0
    return a * b


def mk_add(const, terms):
    """terms: list of (node, coef) sorted by id, no zero coefficients."""
    if not terms:
        return const
    const += 0.0
    if const == 0.0 and len(terms) == 1 and terms[0][1] == 1.0:
        return terms[0][0]
    key = ('a', _r(const), tuple((t.id, _r(c)) for t, c in terms))
    n = _table.get(key)
    if n is None:
        lo = hi = const
        isint = float(const).is_integer()
        for t, c in terms:
            if c > 0:
                lo += _mulb(c, t.lo)
                hi += _mulb(c, t.hi)
            else:
                lo += _mulb(c, t.hi)
                hi += _mulb(c, t.lo)
            isint = isint and t.isint and float(c).is_integer()
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        n = N('add', (const, tuple(terms)), lo, hi, isint)
        _table[key] = n
    return n


def add2(a, b):
    sa = isinstance(a, N)
    sb = isinstance(b, N)
    if not sa and not sb:
        return a + b
    if not sa and a == 0:
        return b
    if not sb and b == 0:
        return a
    ca, ta = _terms(a)
    cb, tb = _terms(b)
    return _combine(ca, ta, cb, tb, 1.0)


def sub2(a, b):
    sa = isinstance(a, N)
    sb = isinstance(b, N)
    if not sa and not sb:
        return a - b
    if not sb and b == 0:
        return a
    if a is b:
        return 0.0
    ca, ta = _terms(a)
    cb, tb = _terms(b)
    return _combine(ca, ta, cb, tb, -1.0)


_CANC = 1e-12


def _combine(ca, ta, cb, tb, s):
    cb = s * cb
    c = ca + cb
    if c != 0 and abs(c) < _CANC * max(abs(ca), abs(cb)):
        c = 0.0
    if not (c == c and abs(c) != INF):
        return c
    out = []
    i = j = 0
    na, nb = len(ta), len(tb)
    while i < na and j < nb:
        x, kx = ta[i]
        y, ky = tb[j]
        if x is y:
            k2 = s * ky
            k = kx + k2
            if k != 0 and abs(k) >= _CANC * max(abs(kx), abs(k2)):
                out.append((x, k))
            i += 1
            j += 1
        elif x.id < y.id:
            out.append((x, kx))
            i += 1
        else:
            out.append((y, s * ky))
            j += 1
    while i < na:
        out.append(ta[i])
        i += 1
    while j < nb:
        out.append((tb[j][0], s * tb[j][1]))
        j += 1
    return mk_add(c, out)


def scale(x, k):
    if not isinstance(x, N):
        return x * k
    if k == 0:
        return 0.0
    if k == 1:
        return x
    c, t = _terms(x)
    return mk_add(c * k, [(n, kk * k) for n, kk in t])


def _powb(lo, hi, e):
    """interval of x**e for x in [lo,hi]"""
    if e == int(e):
        e = int(e)
        if e > 0:
            if e % 2:
                try:
                    return lo ** e, hi ** e
                except OverflowError:
                    return -INF, INF
            m = max(abs(lo), abs(hi))
            l = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
            try:
                return l ** e, m ** e
            except OverflowError:
                return 0.0, INF
        if lo > 0:
            return (0.0 if hi == INF else hi ** e), lo ** e
        if e % 2 == 0:
            return 0.0, INF
        if lo >= 0:
            return (0.0 if hi in (INF, 0) else hi ** e), INF
        if hi < 0:
            return hi ** e, (0.0 if lo == -INF else lo ** e)
        return -INF, INF
    lo = max(lo, 0.0)
    hi = max(hi, 0.0)
    if e > 0:
        return lo ** e, (INF if hi == INF else hi ** e)
    return (0.0 if hi == INF else (INF if hi == 0 else hi ** e)), (INF if lo == 0 else lo ** e)


def mk_mul(factors):
    """factors: list of (node, exp) sorted by id, exps nonzero; returns N"""
    if not factors:
        return 1.0
    if len(factors) == 1 and factors[0][1] == 1.0:
        return factors[0][0]
    key = ('m', tuple((t.id, e) for t, e in factors))
    n = _table.get(key)
    if n is None:
        lo = hi = 1.0
        isint = True
        for t, e in factors:
            l, h = _powb(t.lo, t.hi, e)
            c = (_mulb(lo, l), _mulb(lo, h), _mulb(hi, l), _mulb(hi, h))
            lo, hi = min(c), max(c)
            isint = isint and t.isint and e == int(e) and e > 0
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        n = N('mul', tuple(factors), lo, hi, isint)
        _table[key] = n
    return n


def _split(x):
    """x = coef * prod(factors)"""
    if not isinstance(x, N):
        return x, ()
    if x.op == 'mul':
        return 1.0, x.args
    if x.op == 'add':
        c, t = x.args
        if c == 0 and len(t) == 1:
            k = t[0][1]
            y = t[0][0]
            return k, (y.args if y.op == 'mul' else ((y, 1.0),))
        # monic: factor the leading coefficient out
        k = t[0][1]
        if k != 1.0:
            y = scale(x, 1.0 / k)
            return k, ((y, 1.0),)
        return 1.0, ((x, 1.0),)
    return 1.0, ((x, 1.0),)


def _rnd_exp(e):
    r = round(e * 720720) / 720720
    if abs(r - e) < 1e-9:
        e = r
    if abs(e - round(e)) < 1e-9:
        e = float(round(e))
    return e


def _mulfactors(fa, fb):
    out = []
    i = j = 0
    na, nb = len(fa), len(fb)
    exps = []
    while i < na or j < nb:
        if j >= nb or (i < na and fa[i][0].id < fb[j][0].id):
            x, e = fa[i]
            i += 1
        elif i >= na or fb[j][0].id < fa[i][0].id:
            x, e = fb[j]
            j += 1
        else:
            x = fa[i][0]
            e = _rnd_exp(fa[i][1] + fb[j][1])
            i += 1
            j += 1
        if e == 0:
            continue
        if x.op == 'fn' and x.args[0] == 'exp':
            exps.append((x, e))
            continue
        out.append((x, e))
    if exps:
        if len(exps) == 1 and exps[0][1] == 1.0:
            k, fs = 1.0, ((exps[0][0], 1.0),)
        else:
            arg = 0.0
            for x, e in exps:
                arg = add2(arg, scale(x.args[1], e))
            r = exp(arg)
            k, fs = _split(r)
        if len(fs) == 1 and fs[0][0].op == 'fn' and fs[0][0].args[0] == 'exp' and fs[0][1] == 1.0:
            out.append(fs[0])
            out.sort(key=lambda p: p[0].id)
            return k, out
        if not fs:
            return k, out
        k2, out2 = _mulfactors(tuple(out), fs)
        return k * k2, out2
    return 1.0, out


def _fold_ite_pow(x):
    return x


def mul2(a, b):
    sa = isinstance(a, N)
    sb = isinstance(b, N)
    if not sa:
        if not sb:
            return a * b
        return scale(b, a)
    if not sb:
        return scale(a, b)
    ka, fa = _split(a)
    kb, fb = _split(b)
    k, fs = _mulfactors(fa, fb)
    k = k * ka * kb
    r = mk_mul(fs)
    if isinstance(r, N) and r.op == 'mul':
        # abs/indicator: 0/1 valued ite is idempotent
        fs2 = []
        ch = False
        for t, e in r.args:
            if e > 1 and t.op == 'ite' and not sym(t.args[1]) and not sym(t.args[2]) and t.args[1] == 1.0 and t.args[2] == 0.0:
                fs2.append((t, 1.0))
                ch = True
            else:
                fs2.append((t, e))
        if ch:
            r = mk_mul(fs2)
    elif isinstance(r, N) and r.op == 'add':
        # product collapsed to one sum: distribute the coefficient
        return scale(r, k)
    return scale(r, k)


def powc(x, e):
    """x ** e for a concrete exponent"""
    if not isinstance(x, N):
        return _cpow(x, e)
    e = _rnd_exp(float(e))
    if e == 0:
        return 1.0
    if e == 1:
        return x
    if x.op == 'ite' and _constlike(x.args[1]) and _constlike(x.args[2]):
        return ite(x.args[0], _cpow(x.args[1], e), _cpow(x.args[2], e))
    k, fs = _split(x)
    isint = e == int(e)
    if isint:
        out = []
        for t, f in fs:
            out.append((t, _rnd_exp(f * e)))
        kk, out2 = _mulfactors(tuple(out), ())
        out2 = list(out2)
        # (sqrt-like) ** even handled by exponents themselves
        try:
            kc = k ** e
        except (OverflowError, ZeroDivisionError):
            kc = INF
        return scale(mk_mul(out2), kk * kc)
    # fractional exponent: domain x >= 0
    if k > 0:
        out = []
        rest = []
        for t, f in fs:
            if t.lo >= 0:
                out.append((t, _rnd_exp(f * e)))
            else:
                rest.append((t, f))
        if len(rest) == 1 and rest[0][1] == int(rest[0][1]) and int(rest[0][1]) % 2 == 0:
            t, f = rest[0]
            a = abs1(t)
            r = scale(mk_mul(_mulfactors(tuple(out), ())[1]), k ** e) if not _hasexp(out) else None
            if r is None:
                kk, o2 = _mulfactors(tuple(out), ())
                r = scale(mk_mul(o2), kk * k ** e)
            return mul2(r, powc(a, f * e))
        if not rest:
            kk, out2 = _mulfactors(tuple(out), ())
            return scale(mk_mul(out2), kk * k ** e)
        base = mk_mul(rest)
        kk, out2 = _mulfactors(tuple(out), ())
        r = scale(mk_mul(out2), kk * k ** e)
        return mul2(r, mk_mul([(_opaque(base), e)]))
    # negative leading coefficient: keep the base as it is
    return mk_mul([(_opaque(x), e)])


def _hasexp(fs):
    return any(t.op == 'fn' and t.args[0] == 'exp' for t, _ in fs)


def _opaque(x):
    """a node usable as power-product base (mul nodes are wrapped)"""
    if isinstance(x, N) and x.op == 'mul':
        return _intern(('grp', x.id), lambda: N('grp', (x,), x.lo, x.hi, x.isint))
    return x


def _constlike(v):
    return not isinstance(v, N)


def _cpow(x, e):
    try:
        r = float(x) ** e
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF
    if isinstance(r, complex):
        return math.nan
    return r


def div2(a, b):
    if not isinstance(b, N):
        if not isinstance(a, N):
            return _cdiv(a, b)
        if b == 0:
            raise SymError("division of a symbolic value by the constant 0")
        return scale(a, 1.0 / b)
    if not isinstance(a, N) and a == 0:
        return 0.0
    if a is b:
        return 1.0
    return mul2(a, powc(b, -1.0))


def _cdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        return math.copysign(INF, a)


def pow2(a, b):
    if not isinstance(b, N):
        return powc(a, b)
    if not isinstance(a, N):
        if a > 0:
            return exp(scale(b, math.log(a)))
        raise SymError("power of a non-positive constant with a symbolic exponent")
    if a.op == 'ite' or b.op == 'ite':
        x = a if a.op == 'ite' else b
        c, p, q = x.args
        if x is a:
            return ite(c, pow2(p, b), pow2(q, b))
        return ite(c, pow2(a, p), pow2(a, q))
    return exp(mul2(b, log(a)))


def mod2(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return a % b
    return sub2(a, mul2(b, floor(div2(a, b))))


def fn(name, *args, lo=-INF, hi=INF, isint=False):
    key = ('f', name) + tuple(a.id if isinstance(a, (N, B)) else _r(a) for a in args)
    return _intern(key, lambda: N('fn', (name,) + args, lo, hi, isint))


def _mapite(f, x):
    """push a unary function through an if-then-else with constant branches"""
    if x.op == 'ite' and (_constlike(x.args[1]) or _constlike(x.args[2])):
        c, a, b = x.args
        return ite(c, f(a), f(b))
    return None


def exp(x):
    if isinstance(x, CX):
        return CX(exp(x.re), 0.0, x.im)
    if not isinstance(x, N):
        try:
            return math.exp(x)
        except OverflowError:
            return INF
    r = _mapite(exp, x)
    if r is not None:
        return r
    c, t = _terms(x)
    k = 1.0
    rest = []
    outer = []
    for n, co in t:
        if n.op == 'fn' and n.args[0] == 'ln':
            outer.append(powc(n.args[1], co))
        else:
            rest.append((n, co))
    if c:
        try:
            k = math.exp(c)
        except OverflowError:
            k = INF
        if not (0 < k < 1e300):
            k = 1.0
            rest_n = mk_add(c, rest)
        else:
            rest_n = mk_add(0.0, rest)
    else:
        rest_n = mk_add(0.0, rest)
    if isinstance(rest_n, N):
        lo = _exps(rest_n.lo)
        hi = _exps(rest_n.hi)
        res = fn('exp', rest_n, lo=lo, hi=hi)
    else:
        res = 1.0 if rest_n == 0 else _exps(rest_n)
    for o in outer:
        res = mul2(res, o)
    return scale(res, k) if isinstance(res, N) else res * k


def _exps(v):
    if v == -INF:
        return 1e-300
    try:
        return max(math.exp(v), 1e-300)
    except OverflowError:
        return INF


def log(x):
    if not isinstance(x, N):
        if x > 0:
            return math.log(x)
        return -INF if x == 0 else math.nan
    r = _mapite(log, x)
    if r is not None:
        return r
    k, fs = _split(x)
    if k < 0:
        # the sign goes into a sum which may be negative: -2*u*(v - w) is 2*u*(w - v)
        odd = [i for i, (t, e) in enumerate(fs) if t.lo < 0 and e == int(e) and int(e) % 2 == 1]
        if len(odd) == 1:
            i = odd[0]
            k, fs = -k, fs[:i] + ((scale(fs[i][0], -1.0), fs[i][1]),) + fs[i + 1:]
    if k > 0:
        res = math.log(k)
        rest = []
        for t, e in fs:
            if t.op == 'fn' and t.args[0] == 'exp':
                res = add2(res, scale(t.args[1], e))
            elif t.lo >= 0 or (e == int(e) and int(e) % 2 == 1 and len(fs) == 1):
                res = add2(res, scale(_ln(t), e))
            elif e == int(e) and int(e) % 2 == 0:
                res = add2(res, scale(_ln(abs1(t)), e))
            else:
                rest.append((t, e))
        if rest:
            res = add2(res, _ln(mk_mul(rest)))
        return res
    return _ln(x)


def _ln(t):
    if not isinstance(t, N):
        return log(t)
    r = _mapite(log, t)
    if r is not None:
        return r
    lo = -INF if t.lo <= 0 else math.log(t.lo)
    hi = INF if t.hi == INF else (math.log(t.hi) if t.hi > 0 else INF)
    return fn('ln', t, lo=lo, hi=hi)


LN10 = math.log(10.0)


def log10(x):
    if not isinstance(x, N):
        if x > 0:
            return math.log10(x)
        return -INF if x == 0 else math.nan
    return scale(log(x), 1.0 / LN10)


def _one_minus_sq(y):
    """1 - y^2; over a common denominator when y^2 is z / S and z is a part of the sum S"""
    q = mul2(y, y)
    if isinstance(q, N):
        k, fs = _split(q)
        for i, (t, e) in enumerate(fs):
            if e == -1.0 and t.op == 'add':
                rest = scale(mk_mul(fs[:i] + fs[i + 1:]), k) if len(fs) > 1 else k
                d = sub2(t, rest)
                if not isinstance(d, N) or len(_terms(d)[1]) < len(t.args[1]):
                    return div2(d, t)
    return sub2(1.0, q)


def sqrt(x):
    if not isinstance(x, N):
        return math.sqrt(x) if x >= 0 else math.nan
    r = _mapite(sqrt, x)
    if r is not None:
        return r
    return powc(x, 0.5)


def _lead_neg(x):
    c, t = _terms(x)
    return t[0][1] < 0


def sin(x):
    if not isinstance(x, N):
        return math.sin(x)
    r = _mapite(sin, x)
    if r is not None:
        return r
    return _trig(x, 0)


def cos(x):
    if not isinstance(x, N):
        return math.cos(x)
    r = _mapite(cos, x)
    if r is not None:
        return r
    return _trig(x, 1)


def _trig(x, sh):
    """sin(x + sh*pi/2) with shift extraction and sign normalisation"""
    c, t = _terms(x)
    if any(n.isint for n, _ in t):
        # whole turns
        keep = [(n, k) for n, k in t if not (n.isint and round(k / (2 * math.pi)) and abs(k / (2 * math.pi) - round(k / (2 * math.pi))) < 1e-12 * abs(k))]
        if len(keep) < len(t):
            x = mk_add(c, keep)
            if not isinstance(x, N):
                return math.sin(x + sh * math.pi / 2)
            return _trig(x, sh)
    if c:
        k = round(c / (math.pi / 2))
        rem = c - k * (math.pi / 2)
        if k and abs(rem) < 1e-9 * max(1.0, abs(c)):
            sh = (sh + k) % 4
            x = mk_add(0.0, list(t))
        else:
            # quarter turns out of the constant (the cut lies at an odd angle, so that rounding does not matter)
            k = round(c / (math.pi / 2) - 0.117)
            if k and t:
                sh = (sh + k) % 4
                x = mk_add(c - k * (math.pi / 2), list(t))
    if len(t) == 1 and t[0][0].op == 'ite' and isinstance(x, N):
        # branches that differ by whole turns only
        i = t[0][0]
        c1, _ = _terms(x)
        u, v = [_trig(y, sh) if isinstance(y, N) else math.sin(y + sh * math.pi / 2)
                for y in (add2(scale(b, t[0][1]), c1) for b in i.args[1:])]
        if u is v or not (isinstance(u, N) or isinstance(v, N)) and abs(u - v) < 1e-15:
            return u
    sgn = 1.0
    if t[0][1] < 0:
        x = scale(x, -1.0)
        # sin(-y + sh pi/2) : sh even -> -+sin y ; odd -> cos y
        if sh % 2 == 0:
            sgn = -1.0
    if sh == 0:
        name, s2 = 'sin', 1.0
    elif sh == 1:
        name, s2 = 'cos', 1.0
    elif sh == 2:
        name, s2 = 'sin', -1.0
    else:
        name, s2 = 'cos', -1.0
    if not isinstance(x, N):
        return sgn * s2 * (math.sin(x) if name == 'sin' else math.cos(x))
    # sin/cos of inverse functions
    if x.op == 'fn':
        f = x.args[0]
        if f == 'acos':
            y = x.args[1]
            r = y if name == 'cos' else sqrt(_one_minus_sq(y))
            return scale(r, sgn * s2) if isinstance(r, N) else r * sgn * s2
        if f == 'asin':
            y = x.args[1]
            r = y if name == 'sin' else sqrt(_one_minus_sq(y))
            return scale(r, sgn * s2) if isinstance(r, N) else r * sgn * s2
        if f == 'atan':
            y = x.args[1]
            r = div2(y if name == 'sin' else 1.0, sqrt(add2(1.0, mul2(y, y))))
            return scale(r, sgn * s2) if isinstance(r, N) else r * sgn * s2
        if f == 'atan2':
            y, z = x.args[1], x.args[2]
            h2 = add2(mul2(y, y), mul2(z, z))
            if not isinstance(h2, N):
                h2 = float(h2)
            r = div2(y if name == 'sin' else z, sqrt(h2))
            if not (isinstance(h2, N) and h2.lo > 0):
                r = ite(eq(h2, 0.0), 0.0 if name == 'sin' else 1.0, r)
            return scale(r, sgn * s2) if isinstance(r, N) else r * sgn * s2
    lo, hi = -1.0, 1.0
    if x.lo > -INF and x.hi < INF:
        if name == 'cos' and x.lo >= -math.pi / 2 - 1e-12 and x.hi <= math.pi / 2 + 1e-12:
            lo = max(0.0, min(math.cos(x.lo), math.cos(x.hi)) - 1e-15)
            hi = 1.0 if x.lo <= 0 <= x.hi else max(math.cos(x.lo), math.cos(x.hi)) + 1e-15
        elif name == 'sin' and x.lo >= -1e-12 and x.hi <= math.pi + 1e-12:
            lo = max(0.0, min(math.sin(x.lo), math.sin(x.hi)) - 1e-15)
            hi = 1.0 if x.lo <= math.pi / 2 <= x.hi else max(math.sin(x.lo), math.sin(x.hi)) + 1e-15
    return scale(_near(name, x, lo, min(hi, 1.0)), sgn * s2)


_NEAR = {}


def _near(name, x, lo, hi):
    """the node name(x), or the same function of an argument that differs by rounding only"""
    c, t = _terms(x)
    key = (name,) + tuple(n.id for n, k in t)
    for c0, t0, r in _NEAR.get(key, ()):
        if abs(c - c0) < 4e-12 * (1 + abs(c)) and all(abs(k - k0) <= 4e-12 * abs(k) for (n, k), (n0, k0) in zip(t, t0)):
            return r
    r = fn(name, x, lo=lo, hi=hi)
    _NEAR.setdefault(key, []).append((c, t, r))
    return r


def tan(x):
    if not isinstance(x, N):
        return math.tan(x)
    return div2(sin(x), cos(x))


def atan(x):
    if not isinstance(x, N):
        return math.atan(x)
    if _lead_neg(x) and x.op == 'add' and x.args[0] == 0 and len(x.args[1]) == 1:
        return scale(atan(scale(x, -1.0)), -1.0)
    return fn('atan', x, lo=(math.atan(x.lo) if x.lo > -INF else -math.pi / 2),
              hi=(math.atan(x.hi) if x.hi < INF else math.pi / 2))


def asin(x):
    if not isinstance(x, N):
        return math.asin(x) if -1 <= x <= 1 else math.nan
    return fn('asin', x, lo=math.asin(max(-1.0, min(1.0, x.lo))), hi=math.asin(max(-1.0, min(1.0, x.hi))))


def acos(x):
    if not isinstance(x, N):
        return math.acos(x) if -1 <= x <= 1 else math.nan
    return fn('acos', x, lo=math.acos(max(-1.0, min(1.0, x.hi))), hi=math.acos(max(-1.0, min(1.0, x.lo))))


def atan2(y, x):
    if not isinstance(y, N) and not isinstance(x, N):
        return math.atan2(y, x)
    # positive homogeneity: normalise the scale
    lo, hi = -math.pi, math.pi
    if isinstance(y, N):
        if y.lo >= 0:
            lo = 0.0
        elif y.hi <= 0:
            hi = 0.0
    else:
        if y >= 0:
            lo = 0.0
        if y < 0:
            hi = 0.0
    if isinstance(x, N) and x.lo > 0:
        lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
    elif not isinstance(x, N) and x > 0:
        lo, hi = max(lo, -math.pi / 2), min(hi, math.pi / 2)
    k = None
    for v in (y, x):
        if isinstance(v, N):
            k = abs(_terms(v)[1][0][1]) if v.op == 'add' else 1.0
            break
    if k and k != 1.0:
        y = scale(y, 1 / k) if isinstance(y, N) else y / k
        x = scale(x, 1 / k) if isinstance(x, N) else x / k
    return fn('atan2', y, x, lo=lo, hi=hi)


def floor(x):
    if not isinstance(x, N):
        return float(math.floor(x)) if abs(x) != INF else x
    if x.isint:
        return x
    r = _mapite(floor, x)
    if r is not None:
        return r
    # integer parts come out
    c, t = _terms(x)
    outer = []
    rest = []
    for n, k in t:
        if n.isint and float(k).is_integer():
            outer.append((n, k))
        else:
            rest.append((n, k))
    ci = float(math.floor(c)) if abs(c) != INF else 0.0
    y = mk_add(c - ci, rest)
    if isinstance(y, N):
        f = fn('floor', y, lo=(math.floor(y.lo) if y.lo > -INF else -INF),
               hi=(math.floor(y.hi) if y.hi < INF else INF), isint=True)
        if f.lo == f.hi:
            f = float(f.lo)
    else:
        f = float(math.floor(y))
    return add2(f, mk_add(ci, outer))


def ceil(x):
    if not isinstance(x, N):
        return float(math.ceil(x))
    return scale(floor(scale(x, -1.0)), -1.0) if isinstance(x, N) else x


def trunc(x):
    if not isinstance(x, N):
        return float(math.trunc(x))
    if x.isint:
        return x
    if x.lo >= 0:
        return floor(x)
    return ite(le(0.0, x), floor(x), ceil(x))


def rint(x):
    """round half to even"""
    if not isinstance(x, N):
        return float(round(x))
    if x.isint:
        return x
    return fn('rint', x, lo=(round(x.lo) if x.lo > -INF else -INF),
              hi=(round(x.hi) if x.hi < INF else INF), isint=True)


def abs1(x):
    if isinstance(x, CX):
        return abs(x)
    if isinstance(x, complex) or not isinstance(x, N):
        return abs(x)
    if x.lo >= 0:
        return x
    if x.hi <= 0:
        return scale(x, -1.0)
    k, fs = _split(x)
    if abs(abs(k) - 1.0) > 1e-12 or k < 0:
        y = scale(x, 1.0 / k)
        return scale(abs1(y), abs(k))
    return ite(le(0.0, x), x, scale(x, -1.0))


def minimum(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return a if (a < b or a != a) else b
    if a is b:
        return a
    a, b, s = _common(a, b)
    return add2(ite(le(a, b), a, b), s)


def _common(a, b):
    """(a', b', s) with a = a' + s and b = b' + s; the pair in a fixed order"""
    s = 0.0
    if isinstance(a, N) and isinstance(b, N):
        (ca, ta), (cb, tb) = _terms(a), _terms(b)
        if len(ta) > 1 or len(tb) > 1 or (ca and cb):
            mb = {n.id: k for n, k in tb}
            sh = [(n, k) for n, k in ta if mb.get(n.id) == k]
            cs = ca if ca == cb else 0.0
            if sh or cs:
                ids = {n.id for n, _ in sh}
                a = mk_add(ca - cs, [(n, k) for n, k in ta if n.id not in ids])
                b = mk_add(cb - cs, [(n, k) for n, k in tb if n.id not in ids])
                s = mk_add(cs, sh)
        if isinstance(a, N) and isinstance(b, N) and b.id < a.id:
            a, b = b, a
    if isinstance(b, N) and not isinstance(a, N):
        a, b = b, a
    return a, b, s


def maximum(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return a if (a > b or a != a) else b
    if a is b:
        return a
    a, b, s = _common(a, b)
    if not isinstance(b, N):
        return add2(ite(le(b, a), a, b), s)
    return add2(ite(le(a, b), b, a), s)


def lo_of(x):
    return x.lo if isinstance(x, N) else x


def hi_of(x):
    return x.hi if isinstance(x, N) else x


def _vanishes(v, x):
    """v is 0 wherever x is"""
    if not isinstance(v, N):
        return v == 0
    return any(t is x and e > 0 for t, e in _split(v)[1])


def ite(c, a, b):
    """if-then-else over reals, bools or complex"""
    if not isinstance(c, B):
        return a if c else b
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, (CX, complex)) or isinstance(b, (CX, complex)):
        a, b = tocx(a), tocx(b)
        if a.same_phase(b) or b.null():
            return CX(ite(c, a.a, b.a), ite(c, a.b, b.b), a.ph)
        if a.null():
            return CX(ite(c, a.a, b.a), ite(c, a.b, b.b), b.ph)
        return CX(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (B, bool)) and isinstance(b, (B, bool)):
        return ite_b(c, _tob(a), _tob(b))
    a = _norm(a)
    b = _norm(b)
    if a is None or b is None:
        raise SymError("ite over non-scalars")
    if a is b or (not isinstance(a, N) and not isinstance(b, N) and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'le' and not isinstance(a, N) and not isinstance(b, N) and abs(a) < INF and abs(b) < INF:
        t = _terms(c.args[0])[1]
        if _two_valued(t):
            # a choice by a two-valued integer is linear in it
            n = t[0][0]
            return add2(a, scale(sub2(n, n.lo), b - a))
    if c.op == 'le':
        k, fs = _split(c.args[0])
        if k < 0 and len(fs) == 1 and fs[0][1] == 1.0 and _vanishes(a, fs[0][0]) and _vanishes(b, fs[0][0]):
            # both branches are 0 where the sides meet: compare the other way round
            return ite(le(fs[0][0], 0.0), b, a)
    if isinstance(a, N) and a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if isinstance(b, N) and b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    key = ('i', c.id, a.id if isinstance(a, N) else _r(a), b.id if isinstance(b, N) else _r(b))
    la, lb = lo_of(a), lo_of(b)
    ha, hb = hi_of(a), hi_of(b)
    ii = (a.isint if isinstance(a, N) else float(a).is_integer()) and \
         (b.isint if isinstance(b, N) else float(b).is_integer())
    return _intern(key, lambda: N('ite', (c, a, b), min(la, lb), max(ha, hb), ii))


def ite_b(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


# ---------------------------------------------------------------- booleans
def _cmpnorm(d):
    """scale so that the leading coefficient has absolute value 1"""
    c, t = _terms(d)
    k = abs(t[0][1])
    return d if k == 1.0 else scale(d, 1.0 / k)


def le(a, b):
    """a <= b"""
    if not isinstance(a, N) and not isinstance(b, N):
        return TRUE if a <= b else FALSE
    if (not isinstance(a, N) and abs(a) == INF) or (not isinstance(b, N) and abs(b) == INF):
        aa = a if not isinstance(a, N) else 0.0
        bb = b if not isinstance(b, N) else 0.0
        return TRUE if aa <= bb else FALSE
    d = sub2(a, b)
    if not isinstance(d, N):
        return TRUE if d <= 0 else FALSE
    if d.hi <= 0:
        return TRUE
    if d.lo > 0:
        return FALSE
    r = _le_exp(d)
    if r is not None:
        return r
    r = _positive_factor(d)
    if r is not None:
        return le(r, 0.0)
    d = _cmpnorm(d)
    c, t = _terms(d)
    if _two_valued(t):
        # lo < threshold < hi
        n, k = t[0]
        d2 = mk_add(-n.lo - 0.5, [(n, 1.0)])
        r = _intern(('le', d2.id), lambda: B('le', (d2,)))
        return r if k > 0 else not_(r)
    return _intern(('le', d.id), lambda: B('le', (d,)))


def _two_valued(t):
    return len(t) == 1 and t[0][0].op == 'v' and t[0][0].isint and t[0][0].hi - t[0][0].lo == 1


def _positive_factor(d):
    """a sum whose terms share a positive factor, divided by it"""
    c, t = _terms(d)
    if c != 0 or len(t) < 2:
        return None
    com = None
    for n, _ in t:
        f = {x.id: (x, e) for x, e in (n.args if n.op == 'mul' else ((n, 1.0),)) if x.lo > 0}
        com = f if com is None else {i: p for i, p in com.items() if f.get(i, (0, 0))[1] == p[1]}
        if not com:
            return None
    q2 = 0.0
    for n, k in t:
        v = n
        for x, e in com.values():
            v = mul2(v, powc(x, -e))
        q2 = add2(q2, scale(v, k) if isinstance(v, N) else v * k)
    return q2


def _le_exp(d):
    """comparisons of exponentials become comparisons of their arguments"""
    c, t = _terms(d)
    isx = lambda n: n.op == 'fn' and n.args[0] == 'exp'
    if len(t) == 1 and isx(t[0][0]):
        n, k = t[0]
        v = -c / k
        if v <= 0:
            return FALSE if k > 0 else TRUE
        return le(n.args[1], math.log(v)) if k > 0 else le(math.log(v), n.args[1])
    if len(t) == 2 and c == 0 and isx(t[0][0]) and isx(t[1][0]) and t[0][1] * t[1][1] < 0:
        (n, k), (m, l) = t if t[0][1] > 0 else t[::-1]
        return le(sub2(n.args[1], m.args[1]), math.log(-l / k))
    return None


def lt(a, b):
    return not_(le(b, a))


def eq(a, b):
    if not isinstance(a, N) and not isinstance(b, N):
        return TRUE if a == b else FALSE
    if (not isinstance(a, N) and abs(a) == INF) or (not isinstance(b, N) and abs(b) == INF):
        return FALSE
    d = sub2(a, b)
    if not isinstance(d, N):
        return TRUE if d == 0 else FALSE
    if d.lo > 0 or d.hi < 0:
        return FALSE
    k = _terms(d)[1][0][1]
    d = scale(d, 1.0 / k)
    # an ite between constants compared with a constant
    c, t = _terms(d)
    if len(t) == 1 and t[0][0].op == 'ite':
        g, p, q = t[0][0].args
        kk = t[0][1]
        if _constlike(p) and _constlike(q):
            pe = abs(c + kk * p) < 1e-12
            qe = abs(c + kk * q) < 1e-12
            if pe and qe:
                return TRUE
            if pe:
                return g
            if qe:
                return not_(g)
            return FALSE
    if _two_valued(t):
        n = t[0][0]
        v = -c / t[0][1]
        if abs(v - n.lo) < 1e-12:
            return le(n, n.lo)
        if abs(v - n.hi) < 1e-12:
            return not_(le(n, n.lo))
        return FALSE
    return _intern(('eq', d.id), lambda: B('eq', (d,)))


def not_(b):
    if not isinstance(b, B):
        return FALSE if b else TRUE
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.args[0]
    return _intern(('n', b.id), lambda: B('not', (b,)))


def and_(*bs):
    return _nary('and', bs, TRUE, FALSE)


def or_(*bs):
    return _nary('or', bs, FALSE, TRUE)


def _nary(op, bs, unit, zero):
    acc = {}
    for b in bs:
        b = _tob(b)
        if b is unit:
            continue
        if b is zero:
            return zero
        if b.op == op:
            for x in b.args:
                acc[x.id] = x
        else:
            acc[b.id] = b
    for x in acc.values():
        n = x.args[0] if x.op == 'not' else None
        if n is not None and n.id in acc:
            return zero
    if not acc:
        return unit
    if len(acc) == 1:
        return next(iter(acc.values()))
    ids = sorted(acc)
    return _intern((op,) + tuple(ids), lambda: B(op, tuple(acc[i] for i in ids)))


def implies(a, b):
    return or_(not_(_tob(a)), _tob(b))


# ---------------------------------------------------------------- printing
def show(x, depth=6):
    if not isinstance(x, (N, B)):
        return repr(x)
    if depth == 0:
        return '..'
    s = lambda y: show(y, depth - 1)
    if x.op == 'v':
        return x.args[0]
    if x.op == 'add':
        c, t = x.args
        p = [(f"{k:.6g}*" if k != 1 else '') + s(n) for n, k in t[:8]]
        if len(t) > 8:
            p.append('...')
        if c:
            p.append(f"{c:.6g}")
        return '(' + ' + '.join(p) + ')'
    if x.op == 'mul':
        return '*'.join(s(n) + (f"^{e:g}" if e != 1 else '') for n, e in x.args)
    if x.op == 'grp':
        return s(x.args[0])
    if x.op == 'ite':
        return f"ite({s(x.args[0])}, {s(x.args[1])}, {s(x.args[2])})"
    if x.op == 'fn':
        return f"{x.args[0]}({', '.join(s(a) for a in x.args[1:])})"
    if x.op == 'le':
        return s(x.args[0]) + ' <= 0'
    if x.op == 'eq':
        return s(x.args[0]) + ' == 0'
    if x.op == 'not':
        return 'not(' + s(x.args[0]) + ')'
    if x.op in ('and', 'or'):
        return '(' + f' {x.op} '.join(s(a) for a in x.args[:6]) + ')'
    if x.op == 'bv':
        return x.args[0]
    return x.op


def children(x):
    if x.op == 'add':
        return [n for n, _ in x.args[1]]
    if x.op == 'mul':
        return [n for n, _ in x.args]
    if x.op == 'ite':
        return [a for a in x.args if isinstance(a, (N, B))]
    if x.op == 'fn':
        return [a for a in x.args[1:] if isinstance(a, (N, B))]
    if x.op in ('v', 'bv', 'true', 'false'):
        return []
    return [a for a in x.args if isinstance(a, (N, B))]


def topo(roots):
    """all nodes reachable from roots, children first"""
    seen = set()
    out = []
    stack = [(r, False) for r in roots if isinstance(r, (N, B))]
    while stack:
        x, done = stack.pop()
        if done:
            out.append(x)
            continue
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.append((x, True))
        for c in children(x):
            if c.id not in seen:
                stack.append((c, False))
    return out


def variables(roots):
    return [x for x in topo(roots) if x.op in ('v', 'bv')]


def rebuild(x, sub, memo=None):
    """substitute: sub maps node id -> replacement"""
    memo = {} if memo is None else memo
    for n in topo([x]):
        if n.id in memo:
            continue
        if n.id in sub:
            memo[n.id] = sub[n.id]
            continue
        g = lambda c: memo[c.id] if isinstance(c, (N, B)) else c
        if n.op in ('v', 'bv', 'true', 'false'):
            r = n
        elif n.op == 'add':
            c, t = n.args
            if all(g(m) is m for m, _ in t):
                r = n
            else:
                r = c
                for m, k in t:
                    v = g(m)
                    r = add2(r, scale(v, k) if isinstance(v, N) else v * k)
        elif n.op == 'mul':
            if all(g(m) is m for m, _ in n.args):
                r = n
            else:
                r = 1.0
                for m, e in n.args:
                    r = mul2(r, powc(g(m), e))
        elif n.op == 'grp':
            r = g(n.args[0])
            r = _opaque(r)
        elif n.op == 'ite':
            r = ite(g(n.args[0]), g(n.args[1]), g(n.args[2]))
        elif n.op == 'fn':
            if all(g(a) is a for a in n.args[1:]):
                r = n
            else:
                r = apply_fn(n.args[0], *[g(a) for a in n.args[1:]])
        elif n.op == 'le':
            r = le(g(n.args[0]), 0.0)
        elif n.op == 'eq':
            r = eq(g(n.args[0]), 0.0)
        elif n.op == 'not':
            r = not_(g(n.args[0]))
        elif n.op == 'and':
            r = and_(*[g(a) for a in n.args])
        elif n.op == 'or':
            r = or_(*[g(a) for a in n.args])
        else:
            raise SymError(n.op)
        memo[n.id] = r
    return memo[x.id] if isinstance(x, (N, B)) else x


FN = {'exp': exp, 'ln': log, 'sin': sin, 'cos': cos, 'atan': atan, 'asin': asin, 'acos': acos,
      'atan2': atan2, 'floor': floor, 'rint': rint}
UFN = {}      # name -> (python function, lo, hi)


def apply_fn(name, *args):
    if name in FN:
        return FN[name](*args)
    f, lo, hi = UFN[name]
    if not any(isinstance(a, N) for a in args):
        return f(*args)
    return fn(name, *args, lo=lo, hi=hi)


def register(name, f, lo=-INF, hi=INF):
    UFN[name] = (f, lo, hi)
