"""Deciding obligations: normal form, Z3 encoding, case splits, counterexamples."""
import math
from fractions import Fraction
import re
import sys
import time

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy as np
import z3

from . import sym as S
from .sym import N, B, INF

z3.set_param('memory_max_size', 6000)
STATS = {'queries': 0, 'z3_s': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'structural': 0,
         'normal_form': 0, 'case_splits': 0, 'confirmed': 0, 'confirm_tried': 0}


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ expansion
def expand(x, memo=None, limit=6000):
    """polynomial {monomial: coef}; a monomial is a tuple of (node, exp)."""
    memo = {} if memo is None else memo
    if not isinstance(x, N):
        return {(): x} if x else {}
    for n in S.topo([x]):
        if not isinstance(n, N) or n.id in memo:
            continue
        if n.op == 'add':
            c, t = n.args
            p = {}
            mag = {}
            if c:
                _acc(p, mag, (), c)
            for m, k in t:
                for mono, co in memo[m.id].items():
                    _acc(p, mag, mono, k * co)
            memo[n.id] = _clean(p, mag)
        elif n.op == 'mul':
            p = {(): 1.0}
            for m, e in n.args:
                if m.op == 'add' and e == int(e) and 0 < e <= 8:
                    q = memo[m.id]
                    for _ in range(int(e)):
                        p = pmul(p, q, limit)
                elif e == int(e) and e > 0 and (m.op == 'grp' or m.op == 'fn' and m.args[0] in ('sin', 'cos') and not _is_atom(memo[m.id], m)):
                    q = memo[m.id]
                    for _ in range(int(e)):
                        p = pmul(p, q, limit)
                else:
                    p = pmul(p, _atom(m, e), limit)
            memo[n.id] = p
        elif n.op == 'grp':
            memo[n.id] = memo[n.args[0].id]
        elif n.op == 'fn' and n.args[0] in ('sin', 'cos'):
            memo[n.id] = _trig_expand(n, memo, limit)
        else:
            memo[n.id] = {((n, 1.0),): 1.0}
        if len(memo[n.id]) > limit:
            raise TooBig()
    return memo[x.id]


_CANON = {}


def _build(p):
    terms, c = [], 0.0
    for mono, co in p.items():
        if not mono:
            c += co
            continue
        x = mono[0][0] if len(mono) == 1 and mono[0][1] == 1 else S.mk_mul(list(mono))
        terms.append((x, float('%.12g' % co)))
    terms.sort(key=lambda t: t[0].id)
    return S.mk_add(float('%.12g' % c), terms)


def canon(m):
    """(k, q): m == k * q with q in a canonical polynomial form"""
    if m.id in _CANON:
        return _CANON[m.id]
    r = (1.0, m)
    try:
        p = expand(m, {}, 300)
        if p:
            if len(p) == 1:
                q = _build(p)
                r = (1.0, q) if isinstance(q, N) else (1.0, m)
            else:
                key = min(p, key=lambda mono: (len(mono) == 0, _key(mono)))
                k = abs(p[key])
                q = _build({mo: c / k for mo, c in p.items()})
                if isinstance(q, N) and q.op == 'add':
                    r = (k, q)
    except (TooBig, RecursionError):
        pass
    _CANON[m.id] = r
    _CANON[r[1].id] = (1.0, r[1])
    return r


def _is_atom(p, m):
    if len(p) != 1:
        return False
    (mono, c), = p.items()
    return c == 1.0 and len(mono) == 1 and mono[0][0] is m and mono[0][1] == 1.0


def _atom(m, e):
    if m.op in ('add', 'grp') and (e < 0 or e != int(e)):
        k, q = canon(m)
        if q is not m:
            co, fs = S._split(q)
            if q.op == 'add':
                return {((q, e),): k ** e}
            if e == int(e) and all(f.op not in ('add', 'mul') and fe > 0 for f, fe in fs):
                return {tuple((f, fe * e) for f, fe in fs): co ** e}
    if m.op == 'fn' and m.args[0] == 'cos' and e == int(e) and e >= 2:
        # cos^2 = 1 - sin^2
        s = S.sin(m.args[1])
        q = {(): 1.0, ((s, 2.0),): -1.0}
        p = {(): 1.0} if int(e) % 2 == 0 else {((m, 1.0),): 1.0}
        for _ in range(int(e) // 2):
            p = pmul(p, q, 6000)
        return p
    return {((m, e),): 1.0}


def _trig_expand(n, memo, limit):
    """angle addition over the additive terms of the argument"""
    arg = n.args[1]
    c, t = S._terms(arg)
    parts = [(m, k) for m, k in t]
    if (len(parts) + (1 if c else 0)) < 2 or len(parts) > 4:
        if len(parts) == 1 and not c:
            m, k = parts[0]
            kk = int(round(abs(k)))
            if kk in (2, 3) and abs(abs(k) - kk) < 1e-12:
                # multiple angle of a unit-coefficient term
                s1, c1 = _sc(m, memo, limit)
                s, co = s1, c1
                for _ in range(kk - 1):
                    s, co = (padd(pmul(s, c1, limit), pmul(co, s1, limit)),
                             padd(pmul(co, c1, limit), pmul(s, s1, limit), -1.0))
                return s if n.args[0] == 'sin' else co
        if len(parts) > 1:
            # too many terms to split: one canonical form of the argument
            k, q = canon(arg)
            if q is not arg:
                v = (S.sin if n.args[0] == 'sin' else S.cos)(S.scale(q, k))
                if isinstance(v, N):
                    ck, fs = S._split(v)
                    if len(fs) == 1 and fs[0][0].op == 'fn' and fs[0][1] == 1.0:
                        return {((fs[0][0], 1.0),): ck}
        return {((n, 1.0),): 1.0}
    s, co = ({}, {(): 1.0})
    pieces = []
    if c:
        pieces.append(c)
    for m, k in parts:
        pieces.append(S.scale(m, k))
    for p in pieces:
        if isinstance(p, N):
            s1, c1 = _sc(p, memo, limit)
        else:
            s1, c1 = {(): math.sin(p)}, {(): math.cos(p)}
        s, co = (padd(pmul(s, c1, limit), pmul(co, s1, limit)),
                 padd(pmul(co, c1, limit), pmul(s, s1, limit), -1.0))
    return s if n.args[0] == 'sin' else co


def _sc(p, memo, limit):
    out = []
    for f in (S.sin, S.cos):
        v = f(p)
        if isinstance(v, N):
            k, fs = S._split(v)
            if len(fs) == 1 and fs[0][0].op == 'fn' and fs[0][1] == 1.0:
                a = fs[0][0]
                cc, tt = S._terms(a.args[1])
                if len(tt) == 1 and not cc and abs(abs(tt[0][1]) - round(abs(tt[0][1]))) < 1e-12 \
                        and round(abs(tt[0][1])) in (2, 3):
                    q = _trig_expand(a, memo, limit)
                    out.append({m: c * k for m, c in q.items()})
                else:
                    out.append({((a, 1.0),): k})
            else:
                out.append(expand(v, memo, limit))
        else:
            out.append({(): v} if v else {})
    return out


def _key(mono):
    return tuple((m.id, e) for m, e in mono)


def _acc(p, mag, mono, c):
    if mono in p:
        mag[mono] = max(mag[mono], abs(c))
        p[mono] += c
    else:
        p[mono] = c
        mag[mono] = abs(c)


def _clean(p, mag, eps=1e-10):
    return {m: c for m, c in p.items() if abs(c) > eps * mag[m]}


def padd(p, q, s=1.0):
    r = {}
    mag = {}
    for m, c in p.items():
        _acc(r, mag, m, c)
    for m, c in q.items():
        _acc(r, mag, m, s * c)
    return _clean(r, mag)


def _mono_mul(a, b):
    """(coef, poly or mono)"""
    if not a:
        return 1.0, b, False
    if not b:
        return 1.0, a, False
    k, fs = S._mulfactors(a, b)
    fs = tuple(fs)
    special = any((m.op == 'fn' and m.args[0] == 'cos' and e >= 2) or
                  (m.op == 'add' and e == int(e) and e > 0) or
                  (m.op == 'ite' and e > 1 and e == int(e) and not isinstance(m.args[1], N) and not isinstance(m.args[2], N)) or
                  (m.op == 'mul' and e == int(e)) for m, e in fs)
    return k, fs, special


def pmul(p, q, limit):
    if len(p) * len(q) > 40 * limit:
        raise TooBig()
    r = {}
    mag = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            k, m, sp = _mono_mul(m1, m2)
            c = c1 * c2 * k
            if not sp:
                _acc(r, mag, m, c)
            else:
                sub = {(): 1.0}
                for mm, e in m:
                    if mm.op == 'add' and e == int(e) and e > 0:
                        x = expand(mm)
                        for _ in range(int(e)):
                            sub = pmul(sub, x, limit)
                    elif mm.op == 'ite' and e > 1 and e == int(e) and not isinstance(mm.args[1], N) \
                            and not isinstance(mm.args[2], N):
                        x = expand(S.ite(mm.args[0], mm.args[1] ** e, mm.args[2] ** e))
                        sub = pmul(sub, x, limit)
                    elif mm.op == 'mul' and e == int(e):
                        for f, fe in mm.args:
                            sub = pmul(sub, _atom(f, fe * e), limit)
                    else:
                        sub = pmul(sub, _atom(mm, e), limit)
                for m3, c3 in sub.items():
                    _acc(r, mag, m3, c * c3)
    if len(r) > limit:
        raise TooBig()
    return _clean(r, mag)


def _mag(m, e):
    """bound of |m|^e"""
    lo, hi = m.lo, m.hi
    a = max(abs(lo), abs(hi))
    b = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
    try:
        return a ** e if e >= 0 else (b ** e if b > 0 else math.inf)
    except OverflowError:
        return math.inf


def negligible(p, tol=1e-10):
    """rounding residue of the coefficients: |p| <= tol for all values of the atoms"""
    s = 0.0
    for mono, c in p.items():
        if abs(c) > 1e-11:
            return False
        k = abs(c)
        for m, e in mono:
            k *= _mag(m, e)
        s += k
        if not s <= tol:
            return False
    return True


def poly_zero(x, limit=6000):
    """True when the normal form of x is 0 (after clearing denominators)."""
    if not isinstance(x, N):
        return abs(x) < 1e-9
    try:
        memo = {}
        p = expand(x, memo, limit)
        mag = max((abs(c) for c in p.values()), default=0.0)
        for _ in range(6):
            if not p or (_ == 0 and negligible(p)):
                return True
            # clear one sum denominator
            den = None
            for mono in p:
                for m, e in mono:
                    if m.op in ('add', 'grp') and e < 0:
                        den = (m, e)
                        break
                if den:
                    break
            if den is None:
                break
            m0 = den[0]
            emin = min((e for mono in p for m, e in mono if m is m0), default=0.0)
            r, mg = {}, {}
            base = expand(m0 if m0.op == 'add' else m0.args[0], memo, limit)
            cache = {}
            for mono, c in p.items():
                e = sum(ee for m, ee in mono if m is m0)
                rest = tuple((m, ee) for m, ee in mono if m is not m0)
                up = S._rnd_exp(e - emin)
                if up != int(up):
                    return False
                up = int(up)
                if up not in cache:
                    b = {(): 1.0}
                    for _ in range(up):
                        b = pmul(b, base, limit)
                    cache[up] = b
                for m3, c3 in pmul({rest: c}, cache[up], limit).items():
                    _acc(r, mg, m3, c3)
            p = _clean(r, mg, 1e-9)
        return not p
    except TooBig:
        return False


def common_part(d, p, q):
    """the difference d = p - q multiplied out, if that leaves fewer terms than p and q have"""
    try:
        e = expand(d, {}, 500)
        if len(e) <= max(len(expand(x, {}, 500)) if isinstance(x, N) else 0 for x in (p, q)) * 2 // 3:
            return _build(e)
    except TooBig:
        pass
    return None


# ------------------------------------------------------------------ evaluation
def evaluate(roots, env):
    """Evaluate DAG nodes.  env: var name -> float/bool or numpy arrays (vectorised)."""
    val = {}
    with np.errstate(all='ignore'):
        for n in S.topo(roots):
            g = lambda c: val[c.id] if isinstance(c, (N, B)) else c
            op = n.op
            if op in ('v', 'bv'):
                r = env[n.args[0]]
            elif op == 'add':
                r = n.args[0]
                for m, k in n.args[1]:
                    r = r + k * val[m.id]
            elif op == 'mul':
                r = 1.0
                for m, e in n.args:
                    b = val[m.id]
                    if e != 1:
                        b = np.asarray(b, dtype=float)
                        if not float(e).is_integer():
                            b = np.where((b < 0) & (b > -1e-12), 0.0, b)   # rounding
                        b = np.power(b, e)
                    r = r * b
            elif op == 'grp':
                r = g(n.args[0])
            elif op == 'ite':
                r = np.where(g(n.args[0]), g(n.args[1]), g(n.args[2]))
            elif op == 'fn':
                r = _NPF[n.args[0]](*[np.asarray(g(a), dtype=float) for a in n.args[1:]]) \
                    if n.args[0] in _NPF else np.vectorize(S.UFN[n.args[0]][0])(*[g(a) for a in n.args[1:]])
            elif op == 'le':
                r = g(n.args[0]) <= 0
            elif op == 'eq':
                r = np.abs(g(n.args[0])) <= 1e-12
            elif op == 'not':
                r = np.logical_not(g(n.args[0]))
            elif op == 'and':
                r = True
                for a in n.args:
                    r = np.logical_and(r, g(a))
            elif op == 'or':
                r = False
                for a in n.args:
                    r = np.logical_or(r, g(a))
            elif op == 'true':
                r = True
            elif op == 'false':
                r = False
            else:
                raise S.SymError(op)
            val[n.id] = r
    return [val[x.id] if isinstance(x, (N, B)) else x for x in roots]


def _unit(x):
    return np.where(np.abs(x) < 1 + 1e-12, np.clip(x, -1, 1), x)


_NPF = {'exp': np.exp, 'ln': np.log, 'sin': np.sin, 'cos': np.cos, 'atan': np.arctan,
        'asin': lambda x: np.arcsin(_unit(x)), 'acos': lambda x: np.arccos(_unit(x)), 'atan2': np.arctan2, 'floor': np.floor, 'rint': np.round}


# ------------------------------------------------------------------ Z3 encoding
def rat(x):
    if float(x).is_integer():
        return z3.RealVal(int(x))
    return z3.RealVal(repr(float(x)))


_PI = Fraction(repr(math.pi))
_BASES = [(1.0, Fraction(1))]
_COEF = {}


def coef(k):
    """a coefficient as a rational, such that coefficients that are small rational multiples of each other (up to powers of
    pi and floating-point rounding) stay exact multiples"""
    if k in _COEF:
        return _COEF[k]
    if float(k).is_integer():
        r = z3.RealVal(int(k))
    else:
        fr = None
        for b, bf in _BASES:
            for e in (0, 1, -1):
                q = k / (b * math.pi ** e)
                if not 1e-9 < abs(q) < 1e9:
                    continue
                f = Fraction(q).limit_denominator(20000)
                if f and abs(float(f) - q) <= 4e-15 * abs(q) and abs(f.numerator) * f.denominator < 10 ** 10:
                    fr = bf * f * _PI ** e
                    break
            if fr is not None:
                break
        if fr is None:
            fr = Fraction(repr(float(k)))
            if len(_BASES) < 80:
                _BASES.append((float(k), fr))
        r = z3.Q(fr.numerator, fr.denominator)
    if len(_COEF) > 200000:
        _COEF.clear()
    _COEF[k] = r
    return r


class Enc:
    """Encodes terms; collects axioms about the function atoms it meets."""

    def __init__(self):
        self.memo = {}
        self.ax = []
        self.atoms = {}      # fn name -> list of (args nodes, z3 var)
        self.roots = {}
        self.vars = {}
        self.nonlin = False

    def real(self, x):
        return self.enc(x) if isinstance(x, N) else rat(x)

    def bound(self, v, n):
        if n.lo > -INF:
            self.ax.append(v >= rat(n.lo - abs(n.lo) * 1e-12))
        if n.hi < INF:
            self.ax.append(v <= rat(n.hi + abs(n.hi) * 1e-12))

    def fresh(self, n, isint=False):
        v = z3.Int(f"i{n.id}") if isint else z3.Real(f"a{n.id}")
        return v

    def enc(self, root):
        for n in S.topo([root]):
            if n.id in self.memo:
                continue
            self.memo[n.id] = self.one(n)
        return self.memo[root.id]

    def g(self, c):
        return self.memo[c.id] if isinstance(c, (N, B)) else rat(c)

    def root(self, base, q):
        k = (base.id, q)
        if k not in self.roots:
            r = z3.Real(f"r{base.id}_{q}")
            p = r
            for _ in range(q - 1):
                p = p * r
            self.ax += [r >= 0, p == self.memo[base.id]]
            lo, hi = S._powb(base.lo, base.hi, 1.0 / q)
            if lo > 0:
                self.ax.append(r >= rat(lo * (1 - 1e-12)))
            if hi < INF:
                self.ax.append(r <= rat(hi * (1 + 1e-12)))
            self.nonlin = True
            self.roots[k] = r
        return self.roots[k]

    def inv(self, base):
        k = (base.id, -1)
        if k not in self.roots:
            r = z3.Real(f"inv{base.id}")
            b = self.memo[base.id]
            self.ax.append(r * b == 1)
            if base.lo >= 0:
                self.ax.append(r > 0)
            lo, hi = S._powb(base.lo, base.hi, -1.0)
            if lo > -INF:
                self.ax.append(r >= rat(lo - abs(lo) * 1e-12))
            if hi < INF:
                self.ax.append(r <= rat(hi + abs(hi) * 1e-12))
            self.nonlin = True
            self.roots[k] = r
        return self.roots[k]

    def one(self, n):
        op = n.op
        g = self.g
        if op == 'v':
            v = z3.Int(n.args[0]) if n.isint else z3.Real(n.args[0])
            self.vars[n.args[0]] = v
            w = z3.ToReal(v) if n.isint else v
            self.bound(w, n)
            return w
        if op == 'bv':
            v = z3.Bool(n.args[0])
            self.vars[n.args[0]] = v
            return v
        if op == 'add':
            ts = [g(m) if k == 1 else coef(k) * g(m) for m, k in n.args[1]]
            if n.args[0]:
                ts.append(coef(n.args[0]))
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if op == 'grp':
            return g(n.args[0])
        if op == 'mul':
            fs = []
            for m, e in n.args:
                if e == int(e):
                    b = g(m) if e > 0 else self.inv(m)
                    fs += [b] * min(int(abs(e)), 12)
                else:
                    q = None
                    for cand in (2, 3, 4, 5, 6, 8, 10):
                        if abs(e * cand - round(e * cand)) < 1e-9:
                            q = cand
                            break
                    if q is None:
                        v = z3.Real(f"p{m.id}_{e:.6g}")
                        self.ax.append(v > 0)
                        fs.append(v)
                        continue
                    r = self.root(m, q)
                    pw = int(round(e * q))
                    if pw < 0:
                        kk = (m.id, -q)
                        if kk not in self.roots:
                            ir = z3.Real(f"ir{m.id}_{q}")
                            self.ax += [ir * r == 1, ir > 0]
                            self.roots[kk] = ir
                        fs += [self.roots[kk]] * (-pw)
                    else:
                        fs += [r] * pw
            if len(fs) > 1:
                self.nonlin = True
            out = fs[0] if len(fs) == 1 else z3.Product(fs)
            # bounds of products help the linear relaxation
            if len(fs) > 1 and (n.lo > -INF or n.hi < INF):
                v = z3.Real(f"m{n.id}")
                self.ax.append(v == out)
                self.bound(v, n)
                return v
            return out
        if op == 'ite':
            return z3.If(g(n.args[0]), g(n.args[1]), g(n.args[2]))
        if op == 'fn':
            return self.func(n)
        if op == 'le':
            return g(n.args[0]) <= 0
        if op == 'eq':
            return g(n.args[0]) == 0
        if op == 'not':
            return z3.Not(g(n.args[0]))
        if op == 'and':
            return z3.And([g(a) for a in n.args])
        if op == 'or':
            return z3.Or([g(a) for a in n.args])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        raise S.SymError(op)

    def func(self, n):
        name = n.args[0]
        args = [self.g(a) for a in n.args[1:]]
        if name in ('floor', 'rint'):
            i = z3.Int(f"{name}{n.id}")
            v = z3.ToReal(i)
            x = args[0]
            if name == 'floor':
                self.ax += [v <= x, x < v + 1]
            else:
                h = z3.RealVal('1/2')
                m = z3.Int(f"half{n.id}")
                self.ax += [x - v <= h, v - x <= h,
                            z3.Implies(z3.Or(x - v == h, v - x == h), i == 2 * m)]
            self.bound(v, n)
            return v
        v = z3.Real(f"{name}_{n.id}")
        self.bound(v, n)
        peers = self.atoms.setdefault(name, [])
        x = args[0]
        if name == 'exp':
            self.ax += [v > 0, v >= 1 + x, z3.Implies(x < 0, v < 1), z3.Implies(x > 0, v > 1)]
            self._mono(peers, x, v)
        elif name == 'ln':
            self.ax += [v <= x - 1, z3.Implies(x < 1, v < 0), z3.Implies(x > 1, v > 0)]
            self._mono(peers, x, v)
        elif name in ('sin', 'cos'):
            for other, (ox, ov, on) in [(nm, t) for nm in ('sin', 'cos') for t in self.atoms.get(nm, [])]:
                if on.args[1] is n.args[1] and other != name:
                    self.ax.append(ov * ov + v * v == 1)
                    self.nonlin = True
            if name == 'sin':
                self.ax.append(z3.Implies(x == 0, v == 0))
            else:
                self.ax.append(z3.Implies(x == 0, v == 1))
            pi = rat(math.pi)
            if name == 'sin':
                self.ax += [z3.Implies(z3.And(x >= 0, x <= pi), v >= 0)]
            else:
                self.ax += [z3.Implies(z3.And(x >= -pi / 2, x <= pi / 2), v >= 0)]
        elif name in ('atan',):
            self.ax += [z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)]
            self._mono(peers, x, v)
        elif name == 'asin':
            self.ax += [z3.Implies(x >= 0, v >= 0), z3.Implies(x <= 0, v <= 0)]
            self._mono(peers, x, v)
        elif name == 'acos':
            self.ax += [v >= 1 - x, z3.Implies(x <= 0, v >= rat(math.pi / 2 - 1e-12) - x), z3.Implies(x >= 0, v <= rat(math.pi / 2 + 1e-12) - x)]
            for (ox, ov, on) in peers[-12:]:
                self.ax += [z3.Implies(ox < x, ov > v), z3.Implies(ox > x, ov < v),
                            z3.Implies(ox == x, ov == v)]
        elif name == 'atan2':
            y, xx = args
            self.ax += [z3.Implies(y > 0, v > 0), z3.Implies(y < 0, v < 0),
                        z3.Implies(z3.And(y == 0, xx > 0), v == 0)]
            for (oa, ov, on) in peers[-12:]:
                self.ax.append(z3.Implies(z3.And(oa[0] == y, oa[1] == xx), ov == v))
            peers.append(((y, xx), v, n))
            return v
        else:
            if name == 'j1':
                self.ax += [z3.Implies(x >= 0, z3.And(2 * v <= x, 2 * v >= -x)), z3.Implies(x <= 0, z3.And(2 * v >= x, 2 * v <= -x))]
            for (oa, ov, on) in peers[-12:]:
                self.ax.append(z3.Implies(z3.And([p == q for p, q in zip(oa, args)]), ov == v))
            peers.append((args, v, n))
            return v
        if name in ('sin', 'cos'):
            for (ox, ov, on) in peers[-6:]:
                self.ax.append(z3.Implies(ox == x, ov == v))
        peers.append((x, v, n))
        return v

    def _mono(self, peers, x, v):
        for (ox, ov, on) in peers[-12:]:
            self.ax += [z3.Implies(ox < x, ov < v), z3.Implies(ox > x, ov > v),
                        z3.Implies(ox == x, ov == v)]


class LinEnc(Enc):
    """linear relaxation: products, roots and functions (except rounding) are variables with interval bounds only"""

    def one(self, n):
        if n.op == 'mul' and not (len(n.args) == 1 and n.args[0][1] == 1):
            v = z3.Real(f"m{n.id}")
            self.bound(v, n)
            return v
        return Enc.one(self, n)

    def func(self, n):
        if n.args[0] in ('floor', 'rint'):
            return Enc.func(self, n)
        v = z3.Real(f"{n.args[0]}_{n.id}")
        self.bound(v, n)
        return v


def _check(cons, enc, timeout_ms, solver=None):
    t0 = time.time()
    s = z3.Solver() if solver is None else solver
    s.set('timeout', int(timeout_ms))
    s.add(enc.ax if solver is None else [])
    s.add(cons)
    r = s.check()
    STATS['queries'] += 1
    STATS['z3_s'] += time.time() - t0
    STATS[str(r)] += 1
    if r == z3.sat:
        m = s.model()
        env = {}
        for name, v in enc.vars.items():
            val = m.eval(v, model_completion=True)
            if z3.is_bool(v):
                env[name] = z3.is_true(val)
            elif z3.is_int_value(val):
                env[name] = float(val.as_long())
            elif z3.is_rational_value(val):
                env[name] = float(val.as_fraction())
            elif z3.is_algebraic_value(val):
                env[name] = float(val.approx(20).as_fraction())
            else:
                env[name] = 0.0
        return 'sat', env
    return str(r), None


_CTX = {}


def _check_prop(rel, goal):
    """purely propositional obligations over a large set of facts: one incremental solver per set of facts"""
    key = tuple(a.id for a in rel)
    if key not in _CTX:
        _CTX.clear()
        big = sum(1 for _ in S.topo(rel)) > 1500 and all(v.op == 'bv' for v in S.variables(rel))
        if big:
            e = Enc()
            s = z3.SolverFor('QF_FD')
            s.add([e.enc(a) for a in rel])
            _CTX[key] = (e, s, rel)
        else:
            _CTX[key] = None
    if _CTX[key] is None or not all(v.op == 'bv' for v in S.variables([goal])):
        return None, None
    e, s, _ = _CTX[key]
    s.push()
    try:
        return _check([z3.Not(e.enc(goal))], e, 10000, s)
    finally:
        s.pop()


def solve(bools, timeout_ms=5000):
    """Is the conjunction of bools satisfiable?  -> ('sat', env) | ('unsat', None) | ('unknown', None)"""
    bs = [b for b in bools if b is not S.TRUE]
    if any(b is S.FALSE for b in bs):
        return 'unsat', None
    e = Enc()
    cons = [e.enc(b) for b in bs]
    if e.vars and all(z3.is_bool(v) for v in e.vars.values()):
        return _check(cons, e, 10 * timeout_ms)
    return _check(cons, e, timeout_ms)


# ------------------------------------------------------------------ sampling around candidates
def default_sample(v, n, rng):
    lo, hi = v.lo, v.hi
    if v.isint:
        l = int(lo) if lo > -INF else -10
        h = int(hi) if hi < INF else 10
        return rng.integers(l, h + 1, n).astype(float)
    if lo > -INF and hi < INF:
        x = rng.uniform(lo, hi, n)
        k = n // 8
        if k:
            x[:k] = lo
            x[k:2 * k] = hi
            mid = 0.0 if lo < 0 < hi else (lo + hi) / 2
            x[2 * k:3 * k] = mid
        return rng.permutation(x)
    if lo > -INF:
        return lo + np.abs(rng.standard_cauchy(n)) * rng.choice([0.01, 1.0, 100.0], n)
    if hi < INF:
        return hi - np.abs(rng.standard_cauchy(n)) * rng.choice([0.01, 1.0, 100.0], n)
    return rng.normal(0, 1, n) * rng.choice([0.1, 1.0, 1.0, 3.0, 30.0], n)


_PM = re.compile(r'(pm_.+)_(\d+)_(\d+)$')


def _orders(vs, n, rng):
    """samples for the Boolean permutation matrices: each sample is a permutation"""
    groups = {}
    for v in vs:
        m = _PM.match(v.args[0]) if v.op == 'bv' else None
        if m:
            groups.setdefault(m[1], []).append((int(m[2]), int(m[3]), v.args[0]))
    out = {}
    for g in groups.values():
        size = 1 + max(max(k, i) for k, i, _ in g)
        p = np.argsort(rng.random((n, size)), axis=1)
        for k, i, name in g:
            out[name] = p[:, k] == i
    return out


def falsify(goal, assume, seeds=(), n=4000, seed=1, rounds=3, margin=None):
    """Numerically completes solver models: looks for an assignment that satisfies
    ``assume`` and violates ``goal`` under the true functions."""
    rng = np.random.default_rng(seed)
    roots = [goal] + [a for a in assume if isinstance(a, B)] + ([margin] if margin is not None else [])
    vs = S.variables(roots)
    if not vs:
        g = evaluate([goal], {})[0]
        return ({} if not g else None)
    best = None
    for rd in range(rounds):
        env = {}
        orders = _orders(vs, n, rng)
        seeds_now = [s for s in seeds if s is not None]
        if best is not None:
            seeds_now = [best] + seeds_now
        for v in vs:
            name = v.args[0]
            if name in orders:
                x = orders[name]
            elif v.op == 'bv':
                x = rng.random(n) < 0.5
            else:
                x = default_sample(v, n, rng)
            k = 0
            for s in seeds_now:
                if name not in s:
                    continue
                cnt = max(1, n // (2 * len(seeds_now)))
                if v.op == 'bv':
                    x[k:k + cnt] = s[name]
                else:
                    base = s[name]
                    pert = np.where(rng.random(cnt) < 0.7, 0.0, rng.normal(0, 1, cnt) * rng.choice([1e-3, 0.1, 1], cnt))
                    y = base + pert * (abs(base) + 0.1)
                    y = np.clip(y, v.lo, v.hi)
                    y[:1] = base
                    if v.isint:
                        y = np.round(y)
                    x[k:k + cnt] = y
                k += cnt
            env[name] = x
        vals = evaluate(roots, env)
        bad = np.logical_not(np.broadcast_to(vals[0], (n,)))
        for a in vals[1:1 + len(roots) - 1 - (1 if margin is not None else 0)]:
            bad = np.logical_and(bad, np.broadcast_to(a, (n,)))
        idx = np.nonzero(bad)[0]
        if len(idx):
            if margin is not None:
                mv = np.broadcast_to(vals[-1], (n,))[idx]
                mv = np.where(np.isfinite(mv), mv, -1)
                i = idx[int(np.argmax(mv))]
            else:
                i = idx[0]
            best = {v.args[0]: (bool(env[v.args[0]][i]) if v.op == 'bv' else float(env[v.args[0]][i])) for v in vs}
            if margin is None:
                return best
    return best


# ------------------------------------------------------------------ proving
class Result:
    def __init__(self, verdict, model=None, how=''):
        self.verdict = verdict      # 'holds' | 'cex' | 'unknown'
        self.model = model
        self.how = how


def _conds(roots):
    out = []
    for n in S.topo(roots):
        if n.op == 'ite' and isinstance(n.args[0], B):
            out.append(n.args[0])
    # innermost (children-first) atoms
    atoms = []
    seen = set()
    for c in out:
        for b in S.topo([c]):
            if isinstance(b, B) and b.op in ('le', 'eq', 'bv') and b.id not in seen:
                seen.add(b.id)
                atoms.append(b)
    return atoms


def prove(goal, assume=(), timeout_ms=4000, margin=None, split_depth=10, deadline=None, diff=None):
    """Show assume => goal.  ``diff`` is the difference term when the goal is |diff| <= tol."""
    goal = S._tob(goal)
    assume = [S._tob(a) for a in assume if S._tob(a) is not S.TRUE]
    if goal is S.TRUE:
        STATS['structural'] += 1
        return Result('holds', how='structural')
    if diff is not None and poly_zero(diff):
        # the negated goal normalises to false; confirm with the solver on the normal form
        STATS['normal_form'] += 1
        return Result('holds', how='normal form')
    if diff is not None and isinstance(diff, N):
        sub = implied_conds([goal, diff], assume)
        if sub:
            # conditions decided by the assumed bounds of the same polynomial
            g2, d2 = S.rebuild(goal, sub), S.rebuild(diff, sub)
            if g2 is S.TRUE or poly_zero(d2):
                STATS['normal_form'] += 1
                return Result('holds', how='normal form')
    seeds = []
    tmo = timeout_ms
    rel = relevant(assume, goal)
    if any(n.op == 'fn' and n.args[0] in ('floor', 'rint') for n in S.topo([goal])):
        e = LinEnc()
        r, env = _check([e.enc(a) for a in rel] + [z3.Not(e.enc(goal))], e, 1000)
        if r == 'unsat':
            return Result('holds', how='z3')
    r, env = _check_prop(rel, goal)
    if r not in ('sat', 'unsat'):
        e = Enc()
        cons = [e.enc(a) for a in rel] + [z3.Not(e.enc(goal))]
        r, env = _check(cons, e, min(tmo, 1500))
    if r == 'unsat':
        return Result('holds', how='z3')
    if env:
        seeds.append(env)
    c = falsify(goal, assume, seeds, margin=margin)
    if c is not None:
        return Result('cex', c, how='z3 ' + r)
    # refinement: solver was undecided or its model is spurious w.r.t. the real functions
    sub = canon_conds([goal] + assume + ([diff] if isinstance(diff, N) else []))
    if sub:
        goal0, diff0 = goal, diff
        goal = S.rebuild(goal, sub)
        diff = S.rebuild(diff, sub) if isinstance(diff, N) else diff
        if goal is S.TRUE or (diff is not None and diff is not diff0 and poly_zero(diff)):
            return Result('holds', how='normal form')
        assume = assume + [c for c in (S.rebuild(a, sub) for a in assume) if c is not S.TRUE and all(c is not a for a in assume)]
    if split_depth > 0:
        res = _split_prove(goal, assume, tmo, split_depth, deadline, diff, margin)
        if res is not None:
            return res
    e = Enc()
    cons = [e.enc(a) for a in assume] + [z3.Not(e.enc(goal))]
    lem = []
    for it in range(6):
        r, env = _check(cons + lem, e, tmo)
        if r == 'unsat':
            return Result('holds', how='z3 refined')
        if r == 'unknown' or env is None:
            break
        lem += point_lemmas(e, env)
        c = falsify(goal, assume, seeds + [env], n=2000, margin=margin, seed=it + 7, rounds=1)
        if c is not None:
            return Result('cex', c, how='z3 refined')
        if deadline and time.time() > deadline:
            break
    c = falsify(goal, assume, seeds, n=20000, margin=margin, seed=99)
    if c is not None:
        return Result('cex', c, how='z3 ' + r)
    return Result('unknown', how='z3 ' + r)


_BUDGET = [12.0]


def confirm(items, base, deadline, chunk=150):
    """second opinion: the obligations whose negation the normal form already reduces to false are put to Z3 as well
    (one query per chunk: can any of them fail?).  Only counted; Z3 may not know the identities the normal form used."""
    base = [b for b in base if isinstance(b, B)]
    for k in range(0, len(items), chunk):
        if _BUDGET[0] <= 0 or (deadline and time.time() > deadline):
            return
        t0 = time.time()
        part = items[k:k + chunk]
        try:
            e = Enc()
            bad = []
            for kind, got, want, tol in part:
                if kind == 'bool':
                    bad.append(z3.Not(e.enc(got)))
                    continue
                if not all(isinstance(x, N) or (math.isfinite(float(x))) for x in (got, want)):
                    continue
                g, w = [e.enc(x) if isinstance(x, N) else rat(float(x)) for x in (got, want)]
                if g is w or g.eq(w):
                    bad.append(g != w)
                    continue
                d = g - w
                aw = z3.If(w >= 0, w, -w)
                bad.append(z3.Or(d > rat(tol) * (1 + aw), -d > rat(tol) * (1 + aw)))
            STATS['confirm_tried'] += len(part)
            if bad:
                r, _ = _check([z3.Or(bad)], e, 2000)
                if r == 'unsat':
                    STATS['confirmed'] += len(part)
        except (S.SymError, z3.Z3Exception, RecursionError, OverflowError):
            pass
        _BUDGET[0] -= time.time() - t0


def canon_conds(roots):
    """substitution replacing comparisons by the same comparison of canonical polynomials"""
    sub = {}
    for n in S.topo(roots):
        if isinstance(n, B) and n.op in ('le', 'eq'):
            try:
                p = expand(n.args[0], {}, 300)
            except (TooBig, RecursionError):
                continue
            q = _build(p)
            r = S.le(q, 0.0) if n.op == 'le' else S.eq(q, 0.0)
            if r is not n:
                sub[n.id] = r
    return sub


def _monic(p):
    """(key, k, c): p == k * m + c with m identified by the key"""
    c = p.get((), 0.0)
    rest = {m: v for m, v in p.items() if m}
    if not rest:
        return None, 0.0, c
    lead = rest[min(rest, key=_key)]
    return tuple(sorted((_key(m), '%.9e' % (v / lead)) for m, v in rest.items())), lead, c


def implied_conds(roots, assume):
    """substitution for comparisons whose polynomial is bounded by an assumption on the same polynomial"""
    iv = {}

    def facts(a):
        if not isinstance(a, B):
            return
        if a.op == 'and':
            for x in a.args:
                facts(x)
            return
        neg = a.op == 'not'
        x = a.args[0] if neg else a
        if not isinstance(x, B) or x.op not in ('le', 'eq') or (neg and x.op == 'eq'):
            return
        try:
            key, k, c = _monic(expand(x.args[0], {}, 300))
        except (TooBig, RecursionError):
            return
        if key is None:
            return
        t = -c / k
        lo, hi = iv.get(key, (-math.inf, math.inf))
        if x.op == 'eq':
            lo, hi = max(lo, t), min(hi, t)
        elif (k > 0) != neg:
            hi = min(hi, t)
        else:
            lo = max(lo, t)
        iv[key] = (lo, hi)
    for a in assume:
        facts(a)
    if not iv:
        return {}
    sub = {}
    for n in S.topo(roots):
        if not (isinstance(n, B) and n.op in ('le', 'eq')):
            continue
        try:
            key, k, c = _monic(expand(n.args[0], {}, 300))
        except (TooBig, RecursionError):
            continue
        if key not in iv:
            continue
        lo, hi = sorted((k * iv[key][0] + c, k * iv[key][1] + c))
        e = 1e-12 * (1 + abs(c))
        if lo > e:
            sub[n.id] = S.FALSE
        elif n.op == 'eq' and hi < -e:
            sub[n.id] = S.FALSE
        elif n.op == 'le' and hi < -e:
            sub[n.id] = S.TRUE
    return sub


_VARS = {}


def _varids(a):
    if a.id not in _VARS or _VARS[a.id][0] is not a:
        _VARS[a.id] = (a, frozenset(v.id for v in S.variables([a])))
    return _VARS[a.id][1]


def relevant(assume, goal):
    """assumptions sharing variables (transitively) with the goal"""
    gv = {v.id for v in S.variables([goal])}
    items = [(a, _varids(a)) for a in assume]
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for a, vs in items:
            if vs & gv or not vs:
                out.append(a)
                gv |= vs
                changed = True
            else:
                rest.append((a, vs))
        items = rest
    return out


def point_lemmas(e, env):
    """exact (interval) facts of the real functions at the model's points"""
    out = []
    for name, peers in e.atoms.items():
        if name not in ('exp', 'ln', 'sin', 'cos', 'atan', 'asin', 'acos'):
            continue
        for x, v, n in peers:
            try:
                p = evaluate([n.args[1]], env)[0]
                p = float(p)
                f = float(_NPF[name](p))
                if not (math.isfinite(p) and math.isfinite(f)):
                    continue
            except Exception:
                continue
            d = 1e-9 * (1 + abs(f))
            if name == 'exp':
                # tangent (convex): v >= f + f (x-p)
                out.append(v >= rat(f - d) + rat(f) * (x - rat(p)))
                out.append(z3.Implies(x <= rat(p), v <= rat(f + d)))
                out.append(z3.Implies(x >= rat(p), v >= rat(f - d)))
            elif name == 'ln':
                out.append(v <= rat(f + d) + rat(1 / p) * (x - rat(p)))
                out.append(z3.Implies(x <= rat(p), v <= rat(f + d)))
                out.append(z3.Implies(x >= rat(p), v >= rat(f - d)))
            elif name in ('sin', 'cos'):
                out.append(z3.And(v - rat(f) <= z3.If(x >= rat(p), x - rat(p), rat(p) - x) + rat(d),
                                  rat(f) - v <= z3.If(x >= rat(p), x - rat(p), rat(p) - x) + rat(d)))
            elif name in ('atan', 'asin'):
                out.append(z3.Implies(x <= rat(p), v <= rat(f + d)))
                out.append(z3.Implies(x >= rat(p), v >= rat(f - d)))
            elif name == 'acos':
                out.append(z3.Implies(x <= rat(p), v >= rat(f - d)))
                out.append(z3.Implies(x >= rat(p), v <= rat(f + d)))
    return out


def _split_prove(goal, assume, tmo, depth, deadline, diff, margin):
    """lazy case split over the conditions of the goal; every leaf goes to Z3"""
    roots = [goal] if diff is None or not isinstance(diff, N) else [goal, diff]
    atoms = _conds(roots)
    if not atoms:
        return None
    a = atoms[0]
    STATS['case_splits'] += 1
    worst = None
    for val in (S.TRUE, S.FALSE):
        lit = a if val is S.TRUE else S.not_(a)
        r, _ = solve(relevant(assume, lit) + [lit], 800)
        if r == 'unsat':
            continue
        if deadline and time.time() > deadline:
            return Result('unknown', how='deadline')
        sub = {a.id: val}
        g2 = S.rebuild(goal, sub)
        d2 = S.rebuild(diff, sub) if isinstance(diff, N) else diff
        as2 = [S.rebuild(x, sub) for x in assume] + [lit]
        if any(x is S.FALSE for x in as2):
            continue
        if isinstance(g2, B) and g2 is S.FALSE:
            c = falsify(goal, assume + [lit], [_] if _ else [], margin=margin)
            if c is not None:
                return Result('cex', c, how='case split')
            rr, m = solve(assume + [lit], tmo)
            if rr == 'unsat':
                continue
            worst = Result('unknown', how='case split')
            continue
        res = None
        if d2 is not None and poly_zero(d2):
            STATS['normal_form'] += 1
            continue
        if g2 is S.TRUE:
            continue
        e = Enc()
        cons = [e.enc(x) for x in relevant(as2, g2)] + [z3.Not(e.enc(g2))]
        r, env = _check(cons, e, min(tmo, 1500))
        if r == 'unsat':
            continue
        c = falsify(g2, as2, [env] if env else [], n=1500, margin=None, rounds=1)
        if c is not None:
            full = falsify(goal, assume, [c], margin=margin)
            if full is not None:
                return Result('cex', full, how='case split')
        if depth > 1:
            res = _split_prove(g2, as2, tmo, depth - 1, deadline, d2, margin)
        if res is None:
            # leaf without conditions: refine
            lem = []
            ok = False
            e = Enc()
            cons = [e.enc(x) for x in as2] + [z3.Not(e.enc(g2))]
            for it in range(4):
                r, env = _check(cons + lem, e, tmo)
                if r == 'unsat':
                    ok = True
                    break
                if r == 'unknown':
                    break
                lem += point_lemmas(e, env)
            if ok:
                continue
            worst = Result('unknown', how='leaf')
        elif res.verdict == 'cex':
            return res
        elif res.verdict == 'unknown':
            worst = res
    return worst or Result('holds', how='case split')
