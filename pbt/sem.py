"""Exact numerical semantics of sympy expressions over concrete (random) fields.

This is the reference model of the symbolic checks.  At one point of the space every field is a
*jet*: the list of its Taylor coefficients, as exact rationals (or 60-digit floats when a case
needs roots/transcendental functions).  Randomness is a finite sample space of N equiprobable
outcomes, so an expectation is an exact average.  An expression is evaluated by structural
recursion; a derivative is an exact shift of Taylor coefficients.  Nothing here uses sympkf.
"""
from fractions import Fraction as Q
from itertools import product
from math import factorial, isqrt

import mpmath
import sympy
from sympy.core.function import AppliedUndef

from .core import OutOfDomain, Violation

mpmath.mp.dps = 60


class NeedFloat(Exception):
    """An exact rational value does not exist: redo the case with 60-digit floats."""


class Uninterpretable(Exception):
    """The expression contains something which has no meaning in the model."""


class Undecided(OutOfDomain):
    """The model has no way to give this a value"""


# ------------------------------------------------------------------ jets
class Space:
    """Ring of truncated polynomials: `n` spatial offsets truncated at a total order, plus
    one optional perturbation variable eta truncated at degree `eta`."""

    def __init__(self, n, eta=0):
        self.n, self.eta = n, eta


class Jet:
    __slots__ = ('c', 'k', 'n', 'eta')

    def __init__(self, c, k, n, eta=0):
        self.c, self.k, self.n, self.eta = c, k, n, eta   # c: {alpha + (eta_degree,): value}

    def const(self, v):
        return Jet({(0,) * (self.n + 1): v} if v != 0 else {}, self.k, self.n, self.eta)

    def __add__(self, o):
        if not isinstance(o, Jet):
            o = self.const(o)
        k = min(self.k, o.k)
        eta = max(self.eta, o.eta)
        c = {a: v for a, v in self.c.items() if sum(a[:-1]) <= k}
        for a, v in o.c.items():
            if sum(a[:-1]) <= k:
                w = c.get(a, 0) + v
                if w == 0:
                    c.pop(a, None)
                else:
                    c[a] = w
        return Jet(c, k, self.n, eta)

    __radd__ = __add__

    def __neg__(self):
        return Jet({a: -v for a, v in self.c.items()}, self.k, self.n, self.eta)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, q):
        if q == 0:
            return Jet({}, self.k, self.n, self.eta)
        return Jet({a: v * q for a, v in self.c.items()}, self.k, self.n, self.eta)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return self.scale(o)
        k = min(self.k, o.k)
        eta = max(self.eta, o.eta)
        c = {}
        oi = [(b, sum(b[:-1]), w) for b, w in o.c.items()]
        for a, v in self.c.items():
            sa = sum(a[:-1])
            if sa > k:
                continue
            for b, sb, w in oi:
                if sa + sb > k or a[-1] + b[-1] > eta:
                    continue
                ab = tuple(i + j for i, j in zip(a, b))
                c[ab] = c.get(ab, 0) + v * w
        return Jet({a: v for a, v in c.items() if v != 0}, k, self.n, eta)

    __rmul__ = __mul__

    @property
    def c0(self):
        return self.c.get((0,) * (self.n + 1), 0)

    def nilpotent(self):
        return Jet({a: v for a, v in self.c.items() if any(a)}, self.k, self.n, self.eta)

    def compose(self, taylor):
        """sum_j taylor[j] * (self - c0)^j"""
        d = self.nilpotent()
        m = self.k + self.eta
        out = self.const(taylor(0))
        p = None
        for j in range(1, m + 1):
            if not d.c:
                break
            p = d if p is None else p * d
            if not p.c:
                break
            out = out + p.scale(taylor(j))
        return out

    def pow(self, r):
        """self ** r for a rational r"""
        r = Q(r)
        if r.denominator == 1 and r >= 0:
            out, base, e = None, self, int(r)
            if e == 0:
                return self.const(Q(1))
            while e:
                if e & 1:
                    out = base if out is None else out * base
                e >>= 1
                if e:
                    base = base * base
            return out
        c0 = self.c0
        if c0 == 0:
            raise ZeroDivisionError
        root = num_pow(c0, r)

        def taylor(j):
            b = Q(1)
            for i in range(j):
                b = b * (r - i) / (i + 1)
            return root * to_num(b, root) / num_ipow(c0, j)
        return self.compose(taylor)

    def diff(self, alpha):
        """Partial derivative, order decreases"""
        k = self.k - sum(alpha)
        c = {}
        for a, v in self.c.items():
            b = tuple(i - j for i, j in zip(a, alpha))
            if any(i < 0 for i in b):
                continue
            f = 1
            for i, j in zip(a, b):
                f *= factorial(i) // factorial(j)
            c[b + (a[-1],)] = v * f
        return Jet(c, k, self.n, self.eta)

    def trunc(self, k):
        if k >= self.k:
            return self
        return Jet({a: v for a, v in self.c.items() if sum(a[:-1]) <= k}, k, self.n, self.eta)

    def eta_part(self, d):
        return Jet({a[:-1] + (0,): v for a, v in self.c.items() if a[-1] == d}, self.k, self.n, 0)


def is_mp(v):
    return isinstance(v, mpmath.mpf)


def to_num(q, like):
    if is_mp(like):
        q = Q(q)
        return mpmath.mpf(q.numerator) / q.denominator
    return q


def num_ipow(v, j):
    return v ** j


def num_pow(v, r):
    """v ** r for r rational, exact when v is a Fraction"""
    if is_mp(v):
        if v < 0 and r.denominator != 1:
            raise ZeroDivisionError
        return v ** (mpmath.mpf(r.numerator) / r.denominator)
    v = Q(v)
    if r.denominator == 1:
        return v ** int(r)
    if v < 0:
        raise ZeroDivisionError
    root = None
    if r.denominator == 2:
        p, q = isqrt(v.numerator), isqrt(v.denominator)
        if p * p == v.numerator and q * q == v.denominator:
            root = Q(p, q)
    elif r.denominator == 4:
        p, q = isqrt(isqrt(v.numerator)), isqrt(isqrt(v.denominator))
        if p ** 4 == v.numerator and q ** 4 == v.denominator:
            root = Q(p, q)
    if root is None:
        raise NeedFloat
    return root ** r.numerator


def jet_inv(j):
    return j.pow(-1)


def mat_inv(m):
    n = len(m)
    if n == 1:
        return [[jet_inv(m[0][0])]]
    if n == 2:
        d = jet_inv(m[0][0] * m[1][1] - m[0][1] * m[1][0])
        return [[m[1][1] * d, -m[0][1] * d], [-m[1][0] * d, m[0][0] * d]]

    def cof(i, j):
        r = [x for x in range(3) if x != i]
        s = [x for x in range(3) if x != j]
        v = m[r[0]][s[0]] * m[r[1]][s[1]] - m[r[0]][s[1]] * m[r[1]][s[0]]
        return v if (i + j) % 2 == 0 else -v
    det = m[0][0] * cof(0, 0) + m[0][1] * cof(0, 1) + m[0][2] * cof(0, 2)
    d = jet_inv(det)
    return [[cof(j, i) * d for j in range(3)] for i in range(3)]


def mat_mul(a, b):
    n = len(a)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            s = a[i][0] * b[0][j]
            for l in range(1, n):
                s = s + a[i][l] * b[l][j]
            row.append(s)
        out.append(row)
    return out


# ------------------------------------------------------------------ field data
class Stream:
    """Deterministic stream of small rationals from one drawn integer (a pure function of it)."""

    def __init__(self, seed):
        self.s = (seed * 2654435761 + 97) & 0xFFFFFFFFFFFFFFFF
        self.next(), self.next()

    def next(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
        return self.s >> 33

    def int(self, lo, hi):
        return lo + self.next() % (hi - lo + 1)

    def rational(self, hi=3, den=3, nonzero=False):
        while True:
            v = Q(self.int(-hi, hi), self.int(1, den))
            if v != 0 or not nonzero:
                return v

    def fork(self):
        return Stream(self.next())


def multi_indices(n, k):
    """all multi-indices of n variables with total order <= k"""
    if n == 0:
        yield ()
        return
    for a in product(range(k + 1), repeat=n):
        if sum(a) <= k:
            yield a


class Poly:
    """A dense polynomial field, as a provider of jets of any order (zero beyond its degree)."""

    def __init__(self, n, degree, stream, mp=False, c0=None):
        self.n, self.degree = n, degree
        self.c = {}
        for a in multi_indices(n, degree):
            v = stream.rational()
            if c0 is not None and not any(a):
                v = Q(c0)
            if v:
                self.c[a + (0,)] = to_num(v, mpmath.mpf(0)) if mp else v

    def __call__(self, k, w=None):
        return Jet({a: v for a, v in self.c.items() if sum(a) <= k}, k, self.n)


class Cached:
    """Memoizing provider of jets; asks `make(k, w)` for the highest order seen"""

    def __init__(self, make):
        self.make, self.m = make, {}

    def __call__(self, k, w=None):
        j = self.m.get(w)
        if j is None or j.k < k:
            j = self.m[w] = self.make(k, w)
        return j.trunc(k)


# orthogonal +-1 frame: uniform on 8 outcomes, columns 1..7 have zero mean, unit variance, are
# uncorrelated, and have non-zero third moments (columns 1,2,3)
HADAMARD = [[(-1) ** bin(i & j).count('1') for j in range(8)] for i in range(8)]
OMEGA = tuple(range(8))


class UnitRandom:
    """A random field eps with E[eps]=0 and E[eps^2]=1 everywhere: a rational unit vector field
    (inverse stereographic projection of polynomial fields) on an orthonormal frame."""

    def __init__(self, n, stream, degree=3, dirs=3, mp=False):
        self.n = n
        self.w = [Poly(n, degree, stream, mp) for _ in range(dirs)]
        self.perm = [1 + (stream.next() % 7)]
        rest = [j for j in range(1, 8) if j not in self.perm]
        while rest:
            self.perm.append(rest.pop(stream.next() % len(rest)))
        self.one = to_num(Q(1), mpmath.mpf(0)) if mp else Q(1)
        self.comp = Cached(self._comp)
        self.eps = Cached(self._eps)

    def _comp(self, k, i):
        # i-th component of the unit vector (i = dirs: the last one)
        w = [p(k) for p in self.w]
        s = w[0] * w[0]
        for x in w[1:]:
            s = s + x * x
        inv = jet_inv(s + self.one)
        if i == len(w):
            return (s - self.one) * inv
        return w[i].scale(2) * inv

    def _eps(self, k, w):
        out = None
        for i in range(len(self.w) + 1):
            j = self.comp(k, i).scale(HADAMARD[w][self.perm[i]])
            out = j if out is None else out + j
        return out

    def __call__(self, k, w):
        return self.eps(k, w)


def average(jets):
    s = jets[0]
    for j in jets[1:]:
        s = s + j
    return s.scale(Q(1, len(jets)) if not any(is_mp(v) for x in jets for v in x.c.values())
                   else mpmath.mpf(1) / len(jets))


# ------------------------------------------------------------------ evaluation of expressions
class Env:
    """Meaning of the symbols of an expression.

    coords   : {Symbol: axis}            spatial coordinates
    point    : {Symbol: value}           base point
    time     : Symbol or None
    omega    : Symbol or None
    symbols  : {Symbol: value}           constants
    fields   : {AppliedUndef: provider}  provider(k, w) -> Jet (w: outcome for random fields)
    trends   : {AppliedUndef: provider}  time derivative
    expect   : the class (name) denoting the expectation operator, or None
    """

    def __init__(self, n, coords, point, time=None, omega=None, symbols=None, fields=None,
                 trends=None, expect=None, outcomes=OMEGA, mp=False, eta=0):
        self.n, self.coords, self.point = n, coords, point
        self.time, self.omega = time, omega
        self.symbols = dict(symbols or {})
        self.fields = dict(fields or {})
        self.trends = dict(trends or {})
        self.expect, self.outcomes, self.mp, self.eta = expect, outcomes, mp, eta
        self.memo = {}

    def num(self, q):
        return to_num(q, mpmath.mpf(0)) if self.mp else Q(q)

    def const(self, v, k):
        return Jet({(0,) * (self.n + 1): v} if v != 0 else {}, k, self.n, self.eta)

    def _random(self, e):
        return self.omega is not None and self.omega in e.free_symbols

    def ev(self, e, k=0, w=None):
        key = (e, w if self._random(e) else None)
        hit = self.memo.get(key)
        if hit is not None and hit.k >= k:
            return hit.trunc(k)
        v = self._ev(e, k, w)
        self.memo[key] = v
        return v

    def value(self, e, w=None):
        return self.ev(e, 0, w).c0

    def _ev(self, e, k, w):
        if isinstance(e, sympy.Symbol):
            if e in self.coords:
                a = [0] * (self.n + 1)
                a[self.coords[e]] = 1
                j = self.const(self.num(self.point[e]), k)
                if k >= 1:
                    j.c[tuple(a)] = self.num(1)
                return j
            if e in self.symbols:
                return self.const(self.num(self.symbols[e]), k)
            raise Uninterpretable(f"symbol {e} has no meaning here")
        if e.is_Rational:
            return self.const(self.num(Q(int(e.p), int(e.q))), k)
        if e.is_Float:
            if not self.mp:
                raise NeedFloat
            return self.const(mpmath.mpf(str(e)), k)
        if e.is_Number or e.is_NumberSymbol:
            if e in (sympy.nan, sympy.zoo, sympy.oo, -sympy.oo):
                raise Uninterpretable(f"non finite value {e}")
            if not self.mp:
                raise NeedFloat
            return self.const(mpmath.mpf(str(sympy.N(e, 60))), k)
        if e.is_Add:
            out = None
            for a in e.args:
                v = self.ev(a, k, w)
                out = v if out is None else out + v
            return out
        if e.is_Mul:
            out = None
            for a in e.args:
                v = self.ev(a, k, w)
                out = v if out is None else out * v
            return out
        if self.expect is not None and type(e).__name__ == self.expect:
            return average([self.ev(e.args[0], k, o) for o in self.outcomes])
        if e.is_Pow:
            b, x = e.args
            if x.is_Rational:
                return self.ev(b, k, w).pow(Q(int(x.p), int(x.q)))
            xb = self.ev(x, k, w)
            if not self.mp:
                raise NeedFloat
            # b ** x = exp(x log b)
            return _fun('exp', xb * (_fun('log', self.ev(b, k, w)) if b != sympy.E else self.num(1)))
        if isinstance(e, sympy.Derivative):
            return self._derivative(e, k, w)
        if isinstance(e, sympy.Integral):
            return self._integral(e, k, w)
        if isinstance(e, AppliedUndef):
            p = self.fields.get(e)
            if p is None:
                raise Uninterpretable(f"unknown field {e}")
            if self._random(e) and w is None:
                raise Uninterpretable(f"random field {e} outside of an expectation")
            return p(k, w)
        if isinstance(e, (sympy.Max, sympy.Min)):
            vs = [self.ev(a, k, w) for a in e.args]
            best = (max if isinstance(e, sympy.Max) else min)(vs, key=lambda v: v.c0)
            if sum(v.c0 == best.c0 for v in vs) > 1:
                raise ZeroDivisionError
            return best
        if isinstance(e, sympy.Piecewise):
            for v, cond in e.args:
                if cond == sympy.true:
                    return self.ev(v, k, w)
                if not isinstance(cond, (sympy.Gt, sympy.Lt, sympy.Ge, sympy.Le)):
                    raise Undecided(f"condition {cond}")
                d = self.ev(cond.args[0], k, w).c0 - self.ev(cond.args[1], k, w).c0
                if d == 0:
                    raise ZeroDivisionError
                if (d > 0) == isinstance(cond, (sympy.Gt, sympy.Ge)):
                    return self.ev(v, k, w)
            raise Undecided('no piece')
        if isinstance(e, (sympy.Heaviside, sympy.sign, sympy.DiracDelta)):
            c0 = self.ev(e.args[0], k, w).c0
            if c0 == 0:
                raise ZeroDivisionError
            return self.const(self.num({'Heaviside': int(c0 > 0), 'sign': 1 if c0 > 0 else -1,
                                        'DiracDelta': 0}[type(e).__name__]), k)
        if isinstance(e, sympy.Function) and len(e.args) == 1:
            v = self.ev(e.args[0], k, w)
            if not self.mp:
                raise NeedFloat
            return _fun(type(e).__name__, v)
        if isinstance(e, sympy.Subs):
            raise Uninterpretable(f"unevaluated substitution {e}")
        raise Uninterpretable(f"cannot interpret {type(e).__name__}: {str(e)[:80]}")

    def _derivative(self, e, k, w):
        alpha = [0] * self.n
        tcount = 0
        for v, m in e.variable_count:
            if v == self.time:
                tcount += int(m)
            elif v in self.coords:
                alpha[self.coords[v]] += int(m)
            else:
                raise Uninterpretable(f"derivative with respect to {v}")
        arg = e.args[0]
        if tcount == 0:
            return self.ev(arg, k + sum(alpha), w).diff(alpha)
        if tcount == 1:
            return self.dt(arg, k + sum(alpha), w).diff(alpha)
        raise Uninterpretable(f"time derivative of order {tcount}")

    def dt(self, e, k, w):
        """time derivative of an expression, by the chain rule on `trends`"""
        if e in self.trends:
            return self.trends[e](k, w)
        if isinstance(e, AppliedUndef):
            if self.time not in e.args:
                return self.const(self.num(0), k)
            raise Uninterpretable(f"no trend known for {e}")
        if not e.args or self.time not in e.free_symbols:
            return self.const(self.num(0), k)
        if e.is_Add:
            out = None
            for a in e.args:
                v = self.dt(a, k, w)
                out = v if out is None else out + v
            return out
        if e.is_Mul:
            out = None
            for i, a in enumerate(e.args):
                v = self.dt(a, k, w)
                for j, b in enumerate(e.args):
                    if j != i:
                        v = v * self.ev(b, k, w)
                out = v if out is None else out + v
            return out
        if e.is_Pow and e.args[1].is_Rational:
            r = Q(int(e.args[1].p), int(e.args[1].q))
            return self.ev(e.args[0], k, w).pow(r - 1).scale(self.num(r)) * self.dt(e.args[0], k, w)
        if isinstance(e, sympy.Derivative):
            alpha = [0] * self.n
            for v, m in e.variable_count:
                if v not in self.coords:
                    raise Uninterpretable(f"time derivative of {e}")
                alpha[self.coords[v]] += int(m)
            return self.dt(e.args[0], k + sum(alpha), w).diff(alpha)
        if self.expect is not None and type(e).__name__ == self.expect:
            return average([self.dt(e.args[0], k, o) for o in self.outcomes])
        raise Uninterpretable(f"time derivative of {type(e).__name__}")

    def _undummy(self, e):
        """rename bound dummies (sympy introduces them) back to coordinates"""
        for lim in e.args[1:]:
            d = lim[0]
            if d in self.coords:
                continue
            free = e.args[0].free_symbols | set().union(*[l.free_symbols for l in e.args[1:]])
            for c in self.coords:
                if len(e.args) == 2:
                    # the bounds, and inner integrals with the same bound variable, are out of its scope
                    f = e.func(e.args[0].subs(d, c), (c,) + tuple(lim[1:]))
                else:
                    f = e.xreplace({d: c})
                if c not in free and all(a in self.fields for a in f.args[0].atoms(AppliedUndef)):
                    e = f
                    break
            else:
                raise Undecided(f"bound variable of {e}")
        return e

    def _integral(self, e, k, w):
        """definite integral over [a,b] of polynomial integrands (all data must be polynomial)"""
        e = self._undummy(e)
        arg, lims = e.args[0], e.args[1:]
        big = 24
        j = self.ev(arg, big, w)
        for lim in lims:
            if len(lim) != 3 or lim[0] not in self.coords:
                raise Uninterpretable(f"integral limits {lim}")
            i = self.coords[lim[0]]
            x0 = Q(self.point[lim[0]])
            if not all(b.is_Rational for b in lim[1:]):
                if len(lims) > 1:
                    raise Undecided('several integrals with varying bounds')
                return self._varying(j, i, x0, lim[1:], k, w)
            lo, hi = (Q(int(b.p), int(b.q)) - x0 for b in lim[1:])
            c = {}
            for a, v in j.c.items():
                p = a[i] + 1
                b = a[:i] + (0,) + a[i + 1:]
                c[b] = c.get(b, 0) + v * self.num((hi ** p - lo ** p) / p)
            j = Jet({a: v for a, v in c.items() if v != 0}, j.k, j.n, j.eta)
        return j.trunc(k)

    def _varying(self, j, i, x0, bounds, k, w):
        """primitive of the (polynomial) jet j along axis i, between bounds that are expressions"""
        parts = {}   # power -> jet constant along axis i
        for a, v in j.c.items():
            if v:
                b = a[:i] + (0,) + a[i + 1:]
                parts.setdefault(a[i] + 1, {})[b] = v * self.num(Q(1, a[i] + 1))
        total = self.const(self.num(0), k)
        for sign, b in ((1, bounds[1]), (-1, bounds[0])):
            d = self.ev(b, k, w) - self.const(self.num(x0), k)
            power, at = d, 1
            for p in sorted(parts):
                while at < p:
                    power, at = power * d, at + 1
                c = Jet(dict(parts[p]), j.k, j.n, j.eta).trunc(k)
                total = total + (c * power).scale(self.num(sign))
        return total


def _fun(name, j):
    c0 = j.c0
    m = mpmath
    c0 = m.mpf(c0) if not is_mp(c0) else c0
    if name == 'exp':
        e0 = m.exp(c0)
        return j.compose(lambda i: e0 / factorial(i))
    if name in ('sin', 'cos'):
        cyc = [m.sin(c0), m.cos(c0), -m.sin(c0), -m.cos(c0)]
        s = 0 if name == 'sin' else 1
        return j.compose(lambda i: cyc[(i + s) % 4] / factorial(i))
    if name in ('sinh', 'cosh'):
        cyc = [m.sinh(c0), m.cosh(c0)]
        s = 0 if name == 'sinh' else 1
        return j.compose(lambda i: cyc[(i + s) % 2] / factorial(i))
    if name == 'log':
        if c0 <= 0:
            raise ZeroDivisionError
        return j.compose(lambda i: m.log(c0) if i == 0 else (-1) ** (i - 1) / (i * c0 ** i))
    if name == 'tanh':
        s, c = _fun('sinh', j), _fun('cosh', j)
        return s * jet_inv(c)
    if name == 'tan':
        s, c = _fun('sin', j), _fun('cos', j)
        return s * jet_inv(c)
    if name == 'atan':
        # taylor of atan by integration of 1/(1+x^2)
        deg = j.k + j.eta + 1
        base = Jet({(0, 0): c0, (1, 0): m.mpf(1)}, deg, 1)
        der = jet_inv(base * base + m.mpf(1))
        return j.compose(lambda i: m.atan(c0) if i == 0 else der.c.get((i - 1, 0), m.mpf(0)) / i)
    if name == 'Abs':
        if c0 == 0:
            raise ZeroDivisionError
        return j if c0 > 0 else -j
    raise Uninterpretable(f"function {name}")


def close(a, b, mp, scale=1):
    """equality of two values: exact for rationals; 25 digits relative for 60-digit floats"""
    if not mp:
        return a == b
    return abs(a - b) <= mpmath.mpf(10) ** -25 * (abs(a) + abs(b) + scale)
