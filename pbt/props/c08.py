"""C08  the expectation operator"""
from hypothesis import strategies as st
import sympy
from sympy import Derivative, Integral, Mul

from .. import randexpr as rx
from ..core import Check, OutOfDomain, Violation, require
from ..sem import NeedFloat, Uninterpretable, close

RULE = ("Random expression trees over random functions, deterministic functions, symbols, "
        "coordinates, numbers, sums, products, powers, elementary functions, derivatives of one to "
        "three variables, integrals and nested expectations; the value of the result is compared "
        "with the average over a finite sample space, exactly. Non-trivial: the tree is random and "
        "has at least 3 nodes.")


def atoms_e(e):
    return {a for a in e.atoms(sympy.Function) if type(a).__name__ == 'Expectation'}


def outside(e):
    return e.xreplace({a: sympy.Dummy() for a in atoms_e(e)})


def det(e):
    return not outside(e).has(rx.OMEGA_SYM)


def judge(result, ref, seed, what):
    require(isinstance(result, sympy.Basic), lambda: f'{what}: result {result!r}')
    require(det(result), lambda: f'{what}: {result} still depends on the outcome')
    for mp in (False, True):
        for i in range(3):
            env = rx.environment(seed + 5003 * i, mp)
            try:
                want = rx.mean_value(env, ref)
                try:
                    got = env.value(result)
                except Uninterpretable as e:
                    raise Violation(f'{what}: {e} in {result}')
                require(close(got, want, mp), lambda: f'{what}: E[{ref}]\n   is {want}, tool gives '
                        f'{got} = {str(result)[:600]}')
                return
            except ZeroDivisionError:
                continue
            except NeedFloat:
                break
            except Uninterpretable:
                raise OutOfDomain('reference has no value')
    raise OutOfDomain('singular')


def normal_form(result, what):
    for a in atoms_e(result):
        arg = a.args[0]
        require(not det(arg), lambda: f'{what}: {a}: expectation of a deterministic quantity')
        require(not arg.is_Add, lambda: f'{what}: {a}: not linear')
        require(not isinstance(arg, Derivative), lambda: f'{what}: {a}: does not commute')
        require(not isinstance(arg, Integral) or not all(det(b) for l in arg.limits for b in l),
                lambda: f'{what}: {a}: does not commute')
        if arg.is_Mul:
            fs = [f for f in Mul.make_args(arg) if det(f)]
            require(not fs, lambda: f'{what}: {a}: deterministic factor {fs} not taken out')


def strategy(polynomial):
    return lambda: st.fixed_dictionaries({'e': rx.exprs(8, polynomial), 'seed': st.integers(0, 10 ** 6),
                                          'assume': st.lists(st.booleans(), min_size=8, max_size=8)})


def assumed(e, flags):
    """the same expression where some quantities of the same names are other ones (positive)"""
    new = {}
    for (n, args), k in zip(rx.DETERM, flags):
        if k:
            new[sympy.Function(n)(*args)] = sympy.Function(n, positive=True)(*args)
    for n, k in zip(rx.SYMS, flags[len(rx.DETERM):]):
        if k:
            new[sympy.Symbol(n)] = sympy.Symbol(n, positive=True)
    return e.xreplace(new)


def quantities(e):
    names = {n for n, _ in rx.DETERM} | set(rx.SYMS)
    found = [(f.func.__name__, bool(f.is_positive)) for f in e.atoms(sympy.core.function.AppliedUndef)]
    found += [(s.name, bool(s.is_positive)) for s in e.atoms(sympy.Symbol) if not s.is_Dummy]
    return {q for q in found if q[0] in names}


def run(case, rec):
    from sympkf import Expectation
    e = rx.build(case['e'], Expectation)
    ref = rx.build(case['e'], rx.RefExpectation)
    if any(x in (sympy.nan, sympy.zoo) for x in sympy.preorder_traversal(ref)):
        raise OutOfDomain('nan')
    rec.label(*['op ' + k for k in rx.kinds(case['e'])])
    rec.trivial_unless(rx.is_random(case['e']) and rx.size(case['e']) >= 3)
    result = Expectation(e)
    what = f'Expectation({e})'
    judge(result, ref, case['seed'], what)
    normal_form(result, what)
    if not rx.is_random(case['e']):
        require((result - e).expand() == 0 or result == e, lambda: f'{what}: deterministic, but gives {result}')
    again = Expectation(result)
    require(again == result or (again - result).expand() == 0,
            lambda: f'{what}: not idempotent: {again} from {result}')
    if any(case.get('assume', [])):
        other = assumed(e, case['assume'])
        alien = quantities(Expectation(other)) - quantities(other)
        require(not alien, lambda: f'{what}: with positive quantities of the same names, the result has other ones: {alien}')


def strategy_laws():
    p = rx.exprs(5, True)
    return st.fixed_dictionaries({
        'A': p, 'B': p, 'a': rx.exprs(3, True, nested=True, integrals=False), 'vars': st.lists(st.integers(0, 2), min_size=1, max_size=3),
        'law': st.sampled_from(['linear', 'derivative', 'integral', 'equation', 'plain-equation', 'matrix', 'tower', 'factor']),
        'base': st.sampled_from(['exp', 'exp', '2', 'a']), 'dets': st.lists(st.integers(0, 7), min_size=1, max_size=2),
        'rands': st.lists(st.integers(0, len(rx.RANDOM) - 1), min_size=1, max_size=2),
        'shape': st.tuples(st.integers(1, 3), st.integers(1, 3)).map(list), 'seed': st.integers(0, 10 ** 6)})


def run_laws(case, rec):
    from sympkf import Eq, Expectation
    from sympkf.symbolic.util import Matrix
    A, B = rx.build(case['A'], Expectation), rx.build(case['B'], Expectation)
    RA, RB = rx.build(case['A'], rx.RefExpectation), rx.build(case['B'], rx.RefExpectation)
    law, seed = case['law'], case['seed']
    rec.label(law)
    rec.trivial_unless(rx.is_random(case['A']) or rx.is_random(case['B']))
    if law == 'linear':
        a, ra = rx.build(case['a'], Expectation), rx.build(case['a'], rx.RefExpectation)
        if rx.is_random(case['a']):
            a, ra = Expectation(a), rx.RefExpectation(ra)
        result = Expectation(a * A + B)
        judge(result, ra * RA + RB, seed, f'Expectation({a * A + B})')
        normal_form(result, 'linear')
    elif law == 'derivative':
        vs = [rx.COORDS[i] for i in case['vars']]
        result = Expectation(Derivative(A, *vs))
        judge(result, Derivative(RA, *vs), seed, f'Expectation(Derivative({A}, {vs}))')
        want = Derivative(Expectation(A), *vs)
        require((result - want).doit().expand() == 0 or result == want,
                lambda: f'Expectation(Derivative({A}, {vs})) = {result} instead of {want}')
    elif law == 'integral':
        lims = [(rx.COORDS[i], 0, 1 + i) for i in sorted(set(case['vars']))]
        result = Expectation(Integral(A, *lims))
        judge(result, Integral(RA, *lims), seed, f'Expectation(Integral({A}, {lims}))')
    elif law == 'factor':
        # deterministic factors which sympy merges with random ones: exp(f) exp(X) = exp(f + X)
        base = {'exp': sympy.E, '2': sympy.Integer(2), 'a': sympy.Symbol('a', positive=True)}[case['base']]
        pool = [rx.build(['D', i], None) for i in range(len(rx.DETERM))] + [rx.build(['S', i], None) for i in range(len(rx.SYMS))]
        d = sympy.Add(*[pool[i] * (k + 1) for k, i in enumerate(case['dets'])])
        r = sympy.Mul(*[rx.build(['R', i], None) for i in case['rands']])
        result, want = Expectation(base ** (d + r)), base ** d * Expectation(base ** r)
        rec.label('factor ' + case['base'])
        require(sympy.expand(result - want) == 0 or sympy.expand(result / want) == 1 or sympy.simplify(result / want) == 1,
                lambda: f'Expectation({base ** (d + r)}) = {result}: the deterministic factor is not taken out, expected {want}')
        require(all(sum(map(bool, [det(t) for t in sympy.Add.make_args(a.args[0].as_base_exp()[1])])) == 0 for a in atoms_e(result)),
                lambda: f'Expectation({base ** (d + r)}) = {result}: the deterministic factor is not taken out')
    elif law in ('equation', 'plain-equation'):
        cls = Eq if law == 'equation' else (lambda l, r: sympy.Eq(l, r, evaluate=False))
        q = cls(A, B)
        if not isinstance(q, sympy.Eq):
            raise OutOfDomain('trivial equation')
        result = Expectation(q)
        if result in (sympy.true, sympy.false):
            raise OutOfDomain('trivial equation')
        require(isinstance(result, sympy.Eq), lambda: f'Expectation({q}) = {result} is not an equation')
        judge(result.args[0], RA, seed, f'left of Expectation({q})')
        judge(result.args[1], RB, seed, f'right of Expectation({q})')
        require(q.args[0] == A and q.args[1] == B, 'the equation was modified')
    elif law == 'matrix':
        n, m = case['shape']
        entries = [(A, RA), (B, RB), (A * B, RA * RB), (sympy.Integer(2), sympy.Integer(2))]
        ent = [entries[(i * 7 + seed) % 4] for i in range(n * m)]
        for cls in (Matrix, sympy.Matrix, sympy.ImmutableMatrix):
            M = cls(n, m, [e for e, _ in ent])
            result = Expectation(M)
            require(getattr(result, 'shape', None) == (n, m), lambda: f'Expectation({M}) = {result}')
            for i in range(n * m):
                judge(result[i // m, i % m], ent[i][1], seed, f'entry {i} of Expectation({M})')
    else:
        # E(A E(B)) = E(A) E(B)
        result = Expectation(A * Expectation(B))
        judge(result, RA * rx.RefExpectation(RB), seed, f'Expectation({A} * E[{B}])')
        normal_form(result, 'tower')


CHECKS = [
    Check('value_polynomial', strategy(True), run, 5000, 100000, cpu=20),
    Check('value', strategy(False), run, 4000, 80000, cpu=20),
    Check('laws', strategy_laws, run_laws, 2400, 50000, cpu=20),
]
