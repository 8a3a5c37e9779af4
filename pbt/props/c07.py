"""C07  completeness of the systems and exactness of the unclosed terms"""
from hypothesis import strategies as st
import sympy
from sympy import Derivative, Dummy, Function, Mul, Pow
from sympy.core.function import AppliedUndef

from .. import gen
from ..core import Check, require
from ..pkfcheck import (P1, P1M, P1S, P1T, P2A, P2D, P3, equations_input, case_strategy,
                        driven_case, no_trend, setup,
                        state_variables)

RULE = ("Random PDE systems as in C01 (linear ones up to order 7), and random linear transport equations. The system's "
        "equations, the randomness of each right-hand side, the shape of every remaining "
        "expectation and unclosed_terms are checked structurally; then all terms are closed. "
        "Non-trivial: the system keeps at least one unclosed term, or is a transport equation.")


def expectations(e):
    return {a for a in e.atoms(sympy.Function) if type(a).__name__ == 'Expectation'}


def outside(e):
    """the part of an expression outside expectations"""
    return e.xreplace({a: Dummy() for a in expectations(e)})


def factors(e):
    out = []
    for a in Mul.make_args(e):
        b, p = a.as_base_exp()
        if p.is_Integer and p > 0:
            out += [b] * int(p)
        else:
            out.append(a)
    return out


def reducible(term, eps, omega):
    """can normalisation, flatness, metric or skewness identities eliminate this expectation?"""
    arg = term.args[0]
    if not arg.has(omega):
        return 'deterministic'
    if arg.is_Add or isinstance(arg, Derivative) and not isinstance(arg.expr, AppliedUndef):
        return 'not expanded'
    fs = factors(arg)
    det = [f for f in fs if not f.has(omega)]
    if det:
        return 'deterministic factor'

    def order(f):
        if f in eps:
            return eps.index(f), 0
        if isinstance(f, Derivative) and f.expr in eps:
            return eps.index(f.expr), sum(n for _, n in f.variable_count)
        return None
    o = [order(f) for f in fs]
    if None in o:
        return None
    if len(o) == 1:
        return 'centred'
    if len(o) != 2:
        return None
    (a, m), (b, n) = o
    if a != b:
        return 'cross-covariance' if m == n == 0 else None
    if min(m, n) > 0:
        return 'product of derivatives'
    if max(m, n) <= 3:
        return 'normalisation, flatness, metric or skewness'
    return None


def check_system(system, pkf, built, form):
    tensor = {'in_metric': 'metric', 'in_aspect': 'aspect', 'in_diffusion': 'diffusion'}[form]
    want = [Derivative(v, built.t) for v in state_variables(pkf, built, tensor)]
    seen = [e.args[0] for e in system]
    require(len(seen) == len(want) and set(seen) == set(want),
            lambda: f"{form}: equations for {seen}\n   state variables {want}")
    eps = [pkf.fields[f].epsilon for f in built.fields]
    raw = [pkf.fields[f].error for f in built.fields] + [pkf.fields[f].random for f in built.fields]
    omega = [s for s in eps[0].free_symbols if s != built.t and s not in built.x][0]
    left = set()
    for e in system:
        rhs = e.args[1]
        no_trend(rhs, built.t, f"{form}, {e.args[0]}", built.xfuns)
        require(not outside(rhs).has(omega), lambda: f"{form}: realisation outside an expectation "
                f"in the trend of {e.args[0]}: {str(rhs)[:500]}")
        for r in raw:
            require(not rhs.has(r), lambda: f"{form}: raw random field {r} in the trend of {e.args[0]}")
        for term in expectations(rhs):
            why = reducible(term, eps, omega)
            require(why is None, lambda: f"{form}: {term} is left in the trend of {e.args[0]} but "
                    f"can be eliminated ({why})")
            left.add(term)
    return left


def run(case, rec):
    from sympkf import SymbolicPKF
    built, pkf = setup(case)
    form = case['then']
    rec.label(*gen.labels(case['pde']))
    left = check_system(pkf.in_metric, pkf, built, 'in_metric')
    got = set(pkf.unclosed_terms)
    require(got == left, lambda: f"unclosed_terms: missing {left - got}, unexpected {got - left}")
    rec.trivial_unless(bool(left))
    rec.label(f'unclosed{min(len(left), 6)}')
    if form != 'in_metric':
        other = check_system(getattr(pkf, form), pkf, built, form)
        require(other <= left, lambda: f"{form} has other unclosed terms: {other - left}")
    # closing every one of them closes the system
    closure = {term: Function(f'P_{i}')(built.t, *built.x) for i, term in enumerate(sorted(left, key=str))}
    pkf.set_closure(closure)
    for e in getattr(pkf, form):
        require(not expectations(e), lambda: f"{form}: closed, but still has {expectations(e)}")
    require(not pkf.unclosed_terms, lambda: f"closed, but unclosed_terms is {pkf.unclosed_terms}")


@st.composite
def quadratic(draw):
    """three fields; the trend of one is a sum of products of derivatives of each"""
    spec = draw(gen.pde_spec(dims=(1,), min_fields=3, max_fields=3, max_terms=1, max_order=0, linear=True, outer=False,
                             cfuns=False, xfuns=False, explicit=False))
    o = [draw(st.sampled_from([(1, 1), (0, 2), (1, 2), (0, 1), (0, 3), (1, 1)])) for _ in range(3)]
    spec['eqs'][draw(st.integers(0, 2))] = [{'q': [draw(st.sampled_from([1, -1, 2])), 1], 'f': [['p', i, [a], 1], ['p', i, [b], 1]]}
                                            for i, (a, b) in enumerate(o)]
    return spec


def quadratic_case():
    return st.fixed_dictionaries({'pde': quadratic(), 'seed': st.integers(0, 10 ** 6), 'form': st.sampled_from(['list', 'system']),
                                  'then': st.just('in_metric')})


def transport():
    def spec(draw_dim):
        return gen.pde_spec(dims=(draw_dim,), max_fields=1, max_terms=1, linear=True, max_order=0,
                            outer=False)
    return st.fixed_dictionaries({
        'pde': st.one_of(spec(1), spec(2), spec(3)),
        'speeds': st.lists(st.integers(0, 4), min_size=1, max_size=3),
        'flux': st.booleans(), 'form': st.sampled_from(['list', 'single', 'system'])})


def run_transport(case, rec):
    """u_t = - c.grad u (or - div(c u)) + linear source: closed, one and several dimensions"""
    from sympkf import SymbolicPKF
    built = gen.Built(case['pde'])
    u = built.fields[0]
    for i, x in enumerate(built.x):
        k = case['speeds'][i % len(case['speeds'])]
        c = [sympy.Symbol(f'c_{i}'), Function(f'c_{i}')(*built.x), Function(f'c_{i}')(built.t, *built.x),
             sympy.Integer(2), sympy.Symbol('s') * Function(f'c_{i}')(*built.x)][k]
        built.rhs[0] += -Derivative(c * u, x) if case['flux'] else -c * Derivative(u, x)
    built.equations = [sympy.Eq(Derivative(u, built.t), built.rhs[0], evaluate=False)]
    pkf = SymbolicPKF(equations_input(built, case['form']))
    rec.label(f'transport{built.dim}')
    rec.trivial_unless(True)
    left = check_system(pkf.in_metric, pkf, built, 'in_metric')
    require(not left and not pkf.unclosed_terms,
            lambda: f"transport equation {built.equations} has unclosed terms {left}")


THEN = lambda: st.sampled_from(['in_aspect', 'in_diffusion'])
METRIC = lambda: st.just('in_metric')
P1D = dict(dims=(1,), max_fields=1, max_terms=2, max_order=4, total_order=4)
P1Q = dict(dims=(1,), max_fields=1, max_terms=1, min_order=2, max_order=2, total_order=4, max_factors=1, trans=False,
           outer=False)
P1H = dict(dims=(1,), max_fields=1, max_terms=1, linear=True, min_order=5, max_order=7, outer=False, xfuns=False, cfuns=False,
           explicit=False)
P1C = dict(P1M, max_fields=2, max_order=1, max_terms=1)
CHECKS = [
    Check('complete', case_strategy(P1S, P1D, P1Q, P1C, dict(P1M, max_order=2, max_fields=2),
                                    dict(P1T, max_fields=1), extra={'then': METRIC}),
          run, 72, 3000, cpu=40),
    Check('forms', case_strategy(P1S, dict(P1D, max_terms=1, max_order=3, total_order=3), P1C,
                                 extra={'then': THEN}), run, 32, 1000, cpu=40),
    Check('driven', driven_case({'then': METRIC}), run, 24, 600, cpu=60),
    Check('quadratic', quadratic_case, run, 16, 600, cpu=60),
    Check('complete_nd', case_strategy(dict(P2D, min_order=2), dict(P2D, linear=True, min_order=2), P2A, extra={'then': METRIC}), run, 24, 500, cpu=40),
    Check('high', case_strategy(P1H, extra={'then': METRIC}), run, 16, 200, cpu=90),
    Check('transport', transport, run_transport, 32, 800, cpu=40),
]
