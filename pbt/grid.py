"""Random expressions to discretise and the evaluation of discretised expressions on grid values."""
from fractions import Fraction as Q

import mpmath
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Integer, Mul, Rational, Symbol
from sympy.core.function import AppliedUndef

from .core import Violation
from .sem import NeedFloat, num_pow, to_num

COORDS = [['x', 'y', 'z'], ['y', 'x', 'z'], ['x', 'x1', 'x2'], ['\\lambda', 'p', 'z'], ['lon', 'lat', 'p'],
          ['depth', 'dist', 'd'], ['z', 'zz', 'dz_0'], ['r', '\\theta', 'dr_0'], ['s', 'n', 'b'], ['d', 'e', 'dd_1'],
          ['x_1', 'x_2', 'x_3']]
FUNCS = ['u', 'v', 'w', 'U', '\\kappa', 'c_0', '\\theta', 'd', 'du', 'f^1', 'A', '\\bar{u}', 'h_{12}']
TRANS = ['sin', 'cos', 'exp', 'tanh', 'recip', 'sqrt1']
CONSTS = ['a', 'nu', '\\alpha', 'D_0', 'k', 'dk']


def orders(dim, hi):
    if dim == 1:
        return st.integers(0, hi).map(lambda n: [n])
    small = max(1, min(hi, 3 if dim == 2 else 2))
    return st.lists(st.sampled_from([0, 0, 1, 1, 2, small, hi if dim == 2 else small]), min_size=dim, max_size=dim).filter(
        lambda o: sum(o) <= hi + 1)


@st.composite
def expression(draw, max_terms=3, max_order=4, trans=True, nested=True, linear=False, coordfun=True,
               dims=(1, 1, 2, 2, 3)):
    dim = draw(st.sampled_from(list(dims)))
    names = draw(st.sampled_from(COORDS))[:dim]
    names = draw(st.permutations(names))
    nf = draw(st.integers(1, 3))
    fn = draw(st.lists(st.sampled_from(FUNCS), min_size=nf, max_size=nf, unique=True))
    funcs = []
    for i, n in enumerate(fn):
        if i == 0 or draw(st.booleans()):
            vs = list(range(dim))
        else:
            vs = draw(st.lists(st.integers(0, dim - 1), min_size=1, max_size=dim, unique=True))
        funcs.append([n, draw(st.sampled_from([True, True, False])), vs])
    hi = {1: max_order, 2: min(max_order, 4), 3: min(max_order, 3)}[dim]

    def fac(inner):
        kinds = ['D', 'D', 'D', 'F', 'C']
        if coordfun:
            kinds += ['X']
        if trans and not inner:
            kinds += ['T']
        k = draw(st.sampled_from(kinds))
        if k == 'D':
            return ['D', draw(st.integers(0, nf - 1)), draw(orders(dim, 2 if inner else hi)),
                    1 if linear else draw(st.sampled_from([1, 1, 1, 1, 2, 3 if dim == 1 and hi < 5 else 2, -1]) if not inner else st.sampled_from([1, 1, 2]))]
        if k == 'F':
            return ['D', draw(st.integers(0, nf - 1)), [0] * dim, draw(st.sampled_from([1, 1, 2, -1]) if not inner else st.just(1))]
        if k == 'C':
            return ['C', draw(st.integers(0, len(CONSTS) - 1)), 1]
        if k == 'X':
            return ['X', draw(st.integers(0, dim - 1)), draw(st.sampled_from([1, 1, 2]))]
        return ['T', draw(st.sampled_from(TRANS)), draw(st.integers(0, nf - 1)), draw(orders(dim, 2))]

    def term(inner):
        fs = [fac(inner) for _ in range(draw(st.integers(1, 2 if inner or linear else 3)))]
        if nested and not inner and draw(st.integers(0, 4)) == 0:
            o = draw(orders(dim, 2).filter(lambda o: sum(o) > 0))
            fs = fs[:1] + [['N', [term(True) for _ in range(draw(st.integers(1, 2)))], o]]
        return {'q': [draw(st.sampled_from([1, -1, 2, 3, -2, 5])), draw(st.sampled_from([1, 1, 2, 3]))], 'f': fs}
    return {'dim': dim, 'coords': names, 'funcs': funcs, 'terms': [term(False) for _ in range(draw(st.integers(1, max_terms)))]}


class Expr:
    def __init__(self, spec):
        self.spec = spec
        self.t = Symbol('t')
        self.x = tuple(Symbol(n) for n in spec['coords'])
        self.dx = tuple(Symbol('d' + n) for n in spec['coords'])
        self.funcs = [Function(n)(*(([self.t] if t else []) + [self.x[i] for i in vs]))
                      for n, t, vs in spec['funcs']]
        self.consts = [Symbol(c) for c in CONSTS]
        self.expr = sympy.Add(*[self.term(t) for t in spec['terms']])

    def D(self, f, o, evaluate=False):
        vc = [(v, n) for v, n in zip(self.x, o) if n]
        return Derivative(f, *vc) if vc else f

    def term(self, t):
        return Rational(*t['q']) * Mul(*[self.factor(f) for f in t['f']])

    def factor(self, f):
        if f[0] == 'D':
            return self.D(self.funcs[f[1]], f[2]) ** Integer(f[3])
        if f[0] == 'C':
            return self.consts[f[1]]
        if f[0] == 'X':
            return self.x[f[1]] ** Integer(f[2])
        if f[0] == 'T':
            a = self.D(self.funcs[f[2]], f[3])
            return {'recip': lambda: 1 / (2 + a ** 2), 'sqrt1': lambda: sympy.sqrt(1 + a ** 2)}.get(
                f[1], lambda: getattr(sympy, f[1])(a))()
        return self.D(sympy.Add(*[self.term(t) for t in f[1]]), f[2])


def is_trans(spec):
    return any(f[0] == 'T' for t in spec['terms'] for f in t['f'])


def labels(spec):
    out = {f"dim{spec['dim']}"}
    for t in spec['terms']:
        for f in t['f']:
            out.add({'D': 'product', 'C': 'const', 'X': 'coordinate', 'T': 'transcendental', 'N': 'nested'}[f[0]])
            o = f[2] if f[0] in 'DN' else f[3] if f[0] == 'T' else []
            if sum(o) and sum(1 for n in o if n) > 1:
                out.add('mixed')
            if o and max(o) >= 3:
                out.add('high-order')
    return out


def evaluate(e, fun, sym, mp, memo=None):
    """value of a derivative-free expression; fun(applied) and sym(symbol) give numbers"""
    memo = {} if memo is None else memo

    def num(q):
        return to_num(q, mpmath.mpf(0)) if mp else Q(q)

    def ev(e):
        if e in memo:
            return memo[e]
        memo[e] = v = go(e)
        return v

    def go(e):
        if isinstance(e, Symbol):
            return sym(e)
        if e.is_Rational:
            return num(Q(int(e.p), int(e.q)))
        if e.is_Add:
            return sum((ev(a) for a in e.args), num(0))
        if e.is_Mul:
            v = num(1)
            for a in e.args:
                v = v * ev(a)
            return v
        if e.is_Pow and e.args[1].is_Rational:
            b = ev(e.args[0])
            r = Q(int(e.args[1].p), int(e.args[1].q))
            if r.denominator == 1:
                return b ** int(r) if mp or b != 0 or r >= 0 else 1 / Q(0)
            if not mp:
                raise NeedFloat
            if b <= 0:
                raise ZeroDivisionError
            return b ** (mpmath.mpf(r.numerator) / r.denominator)
        if isinstance(e, AppliedUndef):
            return fun(e)
        if not mp:
            raise NeedFloat
        if e.is_Number or e.is_NumberSymbol:
            return mpmath.mpf(str(sympy.N(e, 90)))
        if isinstance(e, sympy.Function) and len(e.args) == 1 and hasattr(mpmath, type(e).__name__.lower()):
            return getattr(mpmath, type(e).__name__.lower())(ev(e.args[0]))
        if e.is_Pow:
            return mpmath.power(ev(e.args[0]), ev(e.args[1]))
        raise Violation(f'{type(e).__name__} in a discretised expression: {str(e)[:200]}')
    return ev(e)


def shift_of(arg, coords, steps):
    """arg = x + k*dx -> (axis, k); k is any rational; None if it is not of that form"""
    s = arg.free_symbols & set(coords)
    if len(s) != 1:
        return None
    x = s.pop()
    i = coords.index(x)
    k = (arg - x).expand().coeff(steps[i]) if arg != x else Integer(0)
    if not k.is_Rational or (arg - x - k * steps[i]).expand() != 0:
        return None
    return i, k
