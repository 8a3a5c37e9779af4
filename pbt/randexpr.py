"""Random expressions over random and deterministic quantities (JSON trees), and their reference
meaning: an expectation is the average over a finite sample space."""
from hypothesis import strategies as st
import sympy
from sympy import Derivative, Function, Integral, Rational, Symbol

from .core import OutOfDomain, Violation
from .sem import Env, Poly, Stream, average

T, X, Y = sympy.symbols('t x y')
OMEGA_SYM = sympy.symbols('omega')
COORDS = (T, X, Y)
RANDOM = [('X', (T, X)), ('Y', (T, X, Y)), ('Z', ()), ('W', (X,)), ('X_1', (T, X))]
DETERM = [('f', (X,)), ('g', (T, X)), ('h', (T, X, Y)), ('c', (T,)), ('g_1', (T, X, Y))]
SYMS = ['a', 'b', 'kappa']
OUT = (0, 1, 2)


class RefExpectation(Function):
    """inert stand-in: its value is the average of its argument"""
    nargs = 1

    def _eval_derivative(self, v):
        return Derivative(self, v, evaluate=False)


RefExpectation.__name__ = 'Expectation'


def leaf():
    return st.one_of(
        st.tuples(st.just('R'), st.integers(0, len(RANDOM) - 1)),
        st.tuples(st.just('R'), st.integers(0, len(RANDOM) - 1)),
        st.tuples(st.just('D'), st.integers(0, len(DETERM) - 1)),
        st.tuples(st.just('S'), st.integers(0, len(SYMS) - 1)),
        st.tuples(st.just('V'), st.integers(0, 2)),
        st.tuples(st.just('C'), st.integers(-3, 3), st.integers(1, 3))).map(list)


def bounds():
    """bounds of an integral over y: expressions that do not depend on y"""
    leaf = st.one_of(st.tuples(st.just('R'), st.sampled_from([0, 2, 3, 4])),
                     st.tuples(st.just('D'), st.sampled_from([0, 1, 3])),
                     st.tuples(st.just('S'), st.integers(0, len(SYMS) - 1))).map(list)
    two = st.lists(leaf, min_size=2, max_size=2)
    return st.one_of(leaf, leaf, st.tuples(st.sampled_from('+*'), two).map(list),
                     st.tuples(st.just('E'), leaf).map(list),
                     st.tuples(st.just('d'), leaf, st.just([1])).map(list))


def exprs(max_leaves=8, polynomial=False, nested=True, integrals=True):
    """JSON trees.  polynomial: only operations with polynomial values"""
    def extend(kids):
        two = st.lists(kids, min_size=2, max_size=3)
        ops = [st.tuples(st.just('+'), two), st.tuples(st.just('*'), two), st.tuples(st.just('*'), two),
               st.tuples(st.just('^'), kids, st.sampled_from([2, 2, 3] + ([] if polynomial else [-1, -2]))),
               st.tuples(st.just('d'), kids, st.lists(st.integers(0, 2), min_size=1, max_size=3))]
        if nested:
            ops.append(st.tuples(st.just('E'), kids))
        if not polynomial:
            ops.append(st.tuples(st.just('F'), st.sampled_from(['exp', 'sin', 'cos', 'tanh']), kids))
            # powers whose exponent is any expression
            ops.append(st.tuples(st.just('P'), st.sampled_from([2, 3, 1, 1]), kids, kids))
            # functions defined by pieces, of polynomial quantities
            poly = exprs(3, True, integrals=False)
            ops.append(st.tuples(st.just('M'), st.sampled_from(['Max', 'Min', 'Piecewise']), poly, poly))
        if integrals and polynomial:
            ops.append(st.tuples(st.just('I'), kids, st.lists(st.integers(1, 2), min_size=1, max_size=2, unique=True)))
            # the bound may be any expression, random ones included
            ops.append(st.tuples(st.just('J'), kids, st.just(2), bounds()))
        return st.one_of(ops).map(list)
    return st.recursive(leaf(), extend, max_leaves=max_leaves)


def build(e, E):
    """sympy expression; E: the expectation operator to use"""
    k = e[0]
    if k == 'R':
        n, args = RANDOM[e[1]]
        return Function(n)(*args, OMEGA_SYM)
    if k == 'D':
        n, args = DETERM[e[1]]
        return Function(n)(*args)
    if k == 'S':
        return Symbol(SYMS[e[1]])
    if k == 'V':
        return COORDS[e[1]]
    if k == 'C':
        return Rational(e[1], e[2])
    if k == '+':
        return sympy.Add(*[build(a, E) for a in e[1]])
    if k == '*':
        return sympy.Mul(*[build(a, E) for a in e[1]])
    if k == '^':
        b = build(e[1], E)
        if e[2] < 0 and b.is_zero:
            return sympy.S.One
        return b ** e[2]
    if k == 'd':
        return Derivative(build(e[1], E), *[COORDS[i] for i in e[2]])
    if k == 'E':
        return E(build(e[1], E))
    if k == 'F':
        return getattr(sympy, e[1])(build(e[2], E))
    if k == 'P':
        base = sympy.Integer(e[1]) if e[1] > 1 else 1 + build(e[2], E) ** 2
        return base ** build(e[3], E)
    if k == 'M':
        a, b = build(e[2], E), build(e[3], E)
        if e[1] == 'Piecewise':
            return sympy.Piecewise((a, b > 0), (2 * b, True))
        try:
            return getattr(sympy, e[1])(a, b)
        except ValueError as err:   # the stand-in of an expectation of a number can not be compared
            raise OutOfDomain(str(err)) from err
    if k == 'J':
        return Integral(build(e[1], E), (COORDS[e[2]], 1, build(e[3], E)))
    if k == 'G':
        return Function(e[1])(*[build(a, E) for a in e[2]], X)
    if k == 'I':
        return Integral(build(e[1], E), *[(COORDS[i], 0, i) for i in e[2]])
    raise AssertionError(k)


def is_random(e):
    """the outcome occurs outside every expectation (of the tree as written)"""
    k = e[0]
    if k == 'R':
        return True
    if k in 'DSVCE':
        return False
    if k in '+*':
        return any(is_random(a) for a in e[1])
    if k == 'F':
        return is_random(e[2])
    if k == 'P':
        return is_random(e[3]) or e[1] == 1 and is_random(e[2])
    if k == 'M':
        return is_random(e[2]) or is_random(e[3])
    if k == 'J':
        return is_random(e[1]) or is_random(e[3])
    return is_random(e[1])


def size(e):
    return 1 + sum(size(a) for a in (e[1] if e[0] in '+*' else [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)]))


def kinds(e):
    out = {e[0]}
    for a in (e[1] if e[0] in '+*' else [x for x in e[1:] if isinstance(x, list) and x and isinstance(x[0], str)]):
        out |= kinds(a)
    return out


class Masked:
    def __init__(self, args, stream, mp, c0=None):
        p = Poly(3, 2, stream, mp, c0=c0)
        keep = [c in args for c in COORDS]
        p.c = {a: v for a, v in p.c.items() if all(k or not i for i, k in zip(a, keep))}
        self.p = p

    def __call__(self, k, w=None):
        return self.p(k)


class PerOutcome:
    def __init__(self, args, stream, mp):
        self.m = [Masked(args, stream.fork(), mp) for _ in OUT]

    def __call__(self, k, w):
        if w is None:
            raise Violation('a realisation is left outside every expectation')
        return self.m[w](k)


def environment(seed, mp):
    st_ = Stream(seed)
    fields = {}
    for n, args in RANDOM:
        fields[Function(n)(*args, OMEGA_SYM)] = PerOutcome(args, st_.fork(), mp)
    for n, args in DETERM:
        fields[Function(n)(*args)] = Masked(args, st_.fork(), mp)
    return Env(3, {c: i for i, c in enumerate(COORDS)}, {c: st_.rational(2, 2) for c in COORDS},
               omega=OMEGA_SYM, symbols={Symbol(s): st_.rational(3, 2, nonzero=True) for s in SYMS},
               fields=fields, expect='Expectation', outcomes=OUT, mp=mp)


def mean_value(env, ref):
    return average([env.ev(ref, 0, w) for w in OUT]).c0
