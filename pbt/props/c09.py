"""C09  randomness classification"""
from hypothesis import strategies as st
import sympy

from .. import randexpr as rx
from ..core import Check, OutOfDomain, require

RULE = ("Random expression trees as in C08 plus undefined functions of expressions, matrices and "
        "equations of them; israndom is compared with a walk of the expression looking for the "
        "outcome variable outside every expectation. Non-trivial: the expression contains an "
        "expectation or is random with at least 3 nodes.")


def walk(e):
    """the definition, on the expression really built"""
    if type(e).__name__ == 'Expectation':
        return False
    if e == rx.OMEGA_SYM:
        return True
    if isinstance(e, sympy.Derivative):
        return walk(e.args[0])
    if isinstance(e, (sympy.MatrixBase,)):
        return any(walk(a) for a in e)
    return any(walk(a) for a in e.args)


def trees(n):
    base = rx.exprs(n, False)
    poly = rx.exprs(n, True)
    fun = st.tuples(st.just('G'), st.sampled_from(['G', 'K_1', '\\phi']),
                    st.lists(base, min_size=1, max_size=2)).map(list)
    sums = st.tuples(st.sampled_from('+*'), st.lists(st.one_of(base, fun, poly), min_size=2, max_size=3)).map(list)
    wrap = st.tuples(st.just('E'), st.one_of(fun, sums)).map(list)
    both = st.tuples(st.sampled_from('+*'), st.lists(st.one_of(wrap, base, fun), min_size=2, max_size=3)).map(list)
    return st.one_of(base, poly, fun, sums, both, wrap)


def strategy():
    return st.fixed_dictionaries({'a': trees(6), 'b': trees(4),
                                  'kind': st.sampled_from(['expr', 'expr', 'expr', 'eq', 'plain-eq', 'matrix', 'sympy-matrix', 'imatrix']),
                                  'pos': st.integers(0, 3)})


def run(case, rec):
    from sympkf import Eq, Expectation
    from sympkf.symbolic.random import israndom
    from sympkf.symbolic.util import Matrix
    A, B = rx.build(case['a'], Expectation), rx.build(case['b'], Expectation)
    kind = case['kind']
    rec.label(kind)
    if kind == 'expr':
        obj, want = A, walk(A)
    elif kind in ('eq', 'plain-eq'):
        obj = Eq(A, B) if kind == 'eq' else sympy.Eq(A, B, evaluate=False)
        if not isinstance(obj, sympy.Eq):
            raise OutOfDomain('trivial')
        want = walk(A) or walk(B)
    else:
        cls = {'matrix': Matrix, 'sympy-matrix': sympy.Matrix, 'imatrix': sympy.ImmutableMatrix}[kind]
        ent = [sympy.Integer(1), sympy.Symbol('a'), sympy.Function('f')(rx.X), A]
        ent[case['pos']], ent[3] = ent[3], ent[case['pos']]
        obj, want = cls(2, 2, ent), walk(A)
    rec.trivial_unless('E' in kinds_of(case) or (want and rx.size(case['a']) >= 3))
    before = str(obj)
    got = israndom(obj)
    require(bool(got) == want and got in (True, False),
            lambda: f'israndom({obj}) is {got}, but it should be {want}')
    require(str(obj) == before, 'the expression was modified by the query')
    require(bool(israndom(obj)) == want, 'second query differs')
    # invariance under renaming the other symbols
    names = {rx.T: sympy.Symbol('tau'), sympy.Symbol('a'): sympy.Symbol('z_1'), rx.Y: sympy.Symbol('o')}
    other = obj.xreplace(names)
    if not isinstance(other, sympy.logic.boolalg.BooleanAtom):
        require(bool(israndom(other)) == want, lambda: f'israndom({other}) differs from israndom({obj})')
    if kind == 'expr':
        e = Expectation(A)
        require(not israndom(e), lambda: f'israndom({e}) is true, for an expectation')
        require(bool(israndom(e + A)) == want or (e + A) == 0 or walk(e + A) != want,
                lambda: f'israndom({e + A}) is not {want}')


def kinds_of(case):
    def deep(e):
        out = {e[0]}
        for x in e[1:]:
            if isinstance(x, list):
                for y in ([x] if x and isinstance(x[0], str) else [z for z in x if isinstance(z, list)]):
                    if y and isinstance(y[0], str):
                        out |= deep(y)
        return out
    return deep(case['a']) | (deep(case['b']) if 'eq' in case['kind'] else set())


def strategy_has():
    return st.fixed_dictionaries({'a': rx.exprs(5, True), 'pure': st.integers(0, 3).map(lambda i: i == 3), 'pats': st.lists(st.integers(0, 4), min_size=0, max_size=3)})


def run_has(case, rec):
    """Expectation.has: the outcome is not visible in an expectation, everything else is"""
    from sympkf import Expectation
    A = rx.build(case['a'], Expectation)
    e = Expectation(A) if case['pure'] else Expectation(rx.build(['R', len(case['pats'])], Expectation) ** 2 * sympy.exp(A))
    pats = [[rx.OMEGA_SYM, rx.T, rx.X, rx.Y, sympy.Symbol('a')][i] for i in case['pats']]
    if type(e).__name__ != 'Expectation':
        raise OutOfDomain('not an expectation')
    inner = e.args[0]
    want = any(p != rx.OMEGA_SYM and p in inner.free_symbols for p in pats)
    rec.trivial_unless(bool(pats))
    got = e.has(*pats)
    # bound symbols of integrals and derivatives make `has` and free symbols differ
    if inner.atoms(sympy.Integral, sympy.Derivative):
        want = inner.xreplace({rx.OMEGA_SYM: sympy.Dummy()}).has(*[p for p in pats if p != rx.OMEGA_SYM]) if pats else False
    require(bool(got) == bool(want), lambda: f'{e}.has({pats}) is {got}')


CHECKS = [Check('israndom', strategy, run, 4000, 100000, cpu=20),
          Check('has', strategy_has, run_has, 600, 10000, cpu=20)]
