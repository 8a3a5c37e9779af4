"""Judging PKF systems against the reference model."""
import sympy
from hypothesis import strategies as st
from sympy import Derivative

from . import gen
from .core import OutOfDomain, Violation, require
from .pkfref import Reference
from .sem import NeedFloat, OMEGA, Uninterpretable, close


def env_value(env, expr, w=None, what=''):
    try:
        return env.value(expr, w)
    except Uninterpretable as e:
        raise Violation(f"{what}: {e}\n   in {str(expr)[:400]}") from e


def state_variables(pkf, built, tensor):
    """the unknowns of a full PKF system, in no particular order"""
    out = []
    for f in built.fields:
        mf = pkf.fields[f]
        out += [f, mf.variance]
        m = getattr(mf, tensor)
        out += [m[i, j] for i in range(built.dim) for j in range(i, built.dim)]
    return out + covariances(pkf, built)


def covariances(pkf, built):
    F = built.fields
    return [pkf.get_covariance(F[i], F[j]) for i in range(len(F)) for j in range(i + 1, len(F))]


def no_error(system, pkf, built, what):
    """errors are written with variances and normalised errors"""
    errors = {pkf.fields[f].error for f in built.fields}
    for eq in system:
        left = errors & eq.args[1].atoms(sympy.core.function.AppliedUndef)
        require(not left, lambda: f"{what}: {left} is not normalised in {str(eq)[:600]}")


def members(eq, what):
    require(hasattr(eq, 'args') and len(eq.args) == 2, lambda: f"{what}: not an equation: {eq}")
    return eq.args


def no_trend(rhs, time, what, given=()):
    """no trend, but those of given (exogenous) functions"""
    for d in rhs.atoms(Derivative):
        require(d.expr in given or time not in [v for v, _ in d.variable_count],
                lambda: f"{what}: time derivative {d} left in {str(rhs)[:300]}")


def judge(system, env, what, random_lhs=False, expected_lhs=None, order=False):
    """every equation `Derivative(F,t) = rhs`: rhs has the value of the trend of F"""
    seen = []
    for eq in system:
        lhs, rhs = members(eq, what)
        require(isinstance(lhs, Derivative), lambda: f"{what}: left-hand side {lhs} is not a trend")
        seen.append(lhs)
        no_trend(rhs, env.time, f"{what}, trend {lhs}", env.given)
        for w in (OMEGA if random_lhs else (None,)):
            want = env_value(env, lhs, w, f"{what} lhs")
            got = env_value(env, rhs, w, f"{what} rhs of {lhs}")
            require(close(got, want, env.mp), lambda: f"{what}: wrong trend for {lhs}\n"
                    f"   system gives {got}\n   reference    {want}\n   rhs = {str(rhs)[:600]}")
    if expected_lhs is not None:
        want = [Derivative(v, env.time) for v in expected_lhs]
        miss = [w for w in want if w not in seen]
        extra = [s for s in seen if s not in want]
        require(not miss and not extra and len(seen) == len(want),
                lambda: f"{what}: equations are not one per state variable: missing {miss}, "
                        f"unexpected {extra}, {len(seen)} equations for {len(want)} variables")


def with_reference(built, seed, fn, **kw):
    """run fn(reference) exactly; redo with 60-digit floats when exact rationals do not exist"""
    trans = gen.is_trans(built.spec)
    kw.setdefault('positive_mean', trans)
    for attempt in range(3):
        for mp in ((True,) if trans else (False, True)):
            try:
                return fn(Reference(built, seed + 1009 * attempt, mp=mp, **kw))
            except NeedFloat:
                continue
            except ZeroDivisionError:
                break
    raise OutOfDomain('singular')


def equations_input(built, form):
    """the ways a user hands a system over"""
    from sympkf import PDESystem
    if form == 'system':
        return PDESystem(list(built.equations))
    if form == 'single' and len(built.equations) == 1:
        return built.equations[0]
    if form == 'own-eq':
        from sympkf import Eq
        return [Eq(*e.args) for e in built.equations]
    return list(built.equations)


FORMS = ['list', 'system', 'single', 'own-eq']


def case_strategy(*profiles, extra=None):
    """a case: one PDE of one of the profiles, the way it is given, and a seed of the fields"""
    def build():
        d = {'pde': st.one_of([gen.pde_spec(**p) for p in profiles]),
             'seed': st.integers(0, 10 ** 6), 'form': st.sampled_from(FORMS)}
        if extra:
            d.update({k: v() for k, v in extra.items()})
        return st.fixed_dictionaries(d)
    return build


CO = [[['x'], ['x'], ['z'], ['\\lambda'], ['lon'], ['p_1']],
      [['x', 'y'], ['x', 'y'], ['lon', 'lat'], ['x', 'x_1'], ['r', '\\theta_0'], ['z', 'p'], ['y', 'X']],
      [['x', 'y', 'z'], ['x', 'y', 'z'], ['x_1', 'x_2', 'x_3'], ['r', '\\lambda', 'z']]]

# profiles of PDE systems, by cost of the derivation
P1 = dict(coords=CO, dims=(1,), max_fields=2, max_terms=3, max_order=3, total_order=3)
P1S = dict(coords=CO, dims=(1,), max_fields=1, max_terms=2, max_order=2, total_order=2)
P1T = dict(coords=CO, dims=(1,), max_fields=2, max_terms=2, max_order=1, total_order=1, max_factors=2,
           trans=True, recip=True, outer=False)
P1TP = dict(P1T, max_terms=1, max_fields=3, transprod=True)
P4 = dict(coords=CO, dims=(1,), min_fields=4, max_fields=4, max_terms=1, max_order=1, total_order=1, max_factors=1, max_power=1)
P1M = dict(coords=CO, dims=(1,), min_fields=2, max_fields=3, max_terms=2, max_order=1, total_order=2)
P1H = dict(coords=CO, dims=(1,), max_fields=1, max_terms=1, max_order=5, total_order=5, linear=True)
P2 = dict(coords=CO, shuffle_coords=True, dims=(2,), max_fields=2, max_terms=2, max_order=2, total_order=2)
P2A = dict(coords=CO, shuffle_coords=True, dims=(2,), max_fields=1, max_terms=2, max_order=1, total_order=1)
P2D = dict(coords=CO, shuffle_coords=True, dims=(2,), max_fields=1, max_terms=1, max_order=2, total_order=2)
P3 = dict(coords=CO, shuffle_coords=True, dims=(3,), max_fields=1, max_terms=2, max_order=1, total_order=1)
P3D = dict(coords=CO, shuffle_coords=True, dims=(3,), max_fields=1, max_terms=1, max_order=2, total_order=2, linear=True)


@st.composite
def driven(draw):
    """three 1D fields, one of them forced by a product of (derivatives of) the two others"""
    spec = draw(gen.pde_spec(coords=CO, dims=(1,), min_fields=3, max_fields=3, max_terms=1, max_order=1,
                             linear=True, outer=False, cfuns=False))
    i = draw(st.integers(0, 2))
    a, b = [j for j in range(3) if j != i]
    o = draw(st.sampled_from([(1, 1), (0, 1), (1, 0), (0, 0), (2, 1), (0, 2)]))
    term = {'q': [draw(st.sampled_from([1, -1, 2])), 1], 'f': [['p', a, [o[0]], 1], ['p', b, [o[1]], 1]]}
    spec['eqs'][i] = [term] + spec['eqs'][i][:draw(st.integers(0, 1))]
    for j in (a, b):
        if draw(st.booleans()):   # uncoupled
            spec['eqs'][j] = [{'q': [draw(st.sampled_from([1, -2])), 1], 'f': [['p', j, [draw(st.integers(0, 1))], 1]]}]
    return spec


def driven_case(extra=None):
    def build():
        d = {'pde': driven(), 'seed': st.integers(0, 10 ** 6), 'form': st.sampled_from(FORMS)}
        d.update({k: v() for k, v in (extra or {}).items()})
        return st.fixed_dictionaries(d)
    return build


def setup(case):
    """-> built, SymbolicPKF"""
    from sympkf import SymbolicPKF
    built = gen.Built(case['pde'])
    return built, SymbolicPKF(equations_input(built, case['form']))
