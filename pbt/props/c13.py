"""C13  generated finite-difference models compute the discretised trend"""
import numpy as np
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Symbol

from .. import models
from ..core import Check, OutOfDomain, Violation, require
from ..models import FiniteDifferences, System, build_class, captured, clean, ref_trend, supply

RULE = ("Random systems of 1-3 evolution equations (products, powers, known functions, explicit time, flux forms, "
        "mixed and high-order derivatives, exogenous functions, coefficient functions, constants, LaTeX names, 1-3 "
        "coordinates in any order), random periodic grids, states and constants. Orders: linear systems with derivatives up to order 12. The trend of the class defined by the "
        "generated code is compared with the right-hand sides evaluated with shifted copies of the fields, and, at two "
        "resolutions, with the exact right-hand sides of trigonometric fields. Non-trivial: the system has a spatial "
        "derivative.")
ASSUMPTIONS = ["all functions depend on all the coordinates of the system in the same order; space-dependent "
               "coefficients are functions, not the coordinates themselves; names are letters, digits and LaTeX "
               "marks and do not collide once cleaned"]


def grid_strategy():
    return st.fixed_dictionaries({
        'shape': st.lists(st.integers(3, 9), min_size=3, max_size=3),
        'steps': st.lists(st.sampled_from([0.25, 0.5, 0.75, 1.0, 1.5, 2.0]), min_size=3, max_size=3),
        'seed': st.integers(0, 10 ** 6), 'int': st.integers(0, 5).map(lambda k: k == 0)})


def strategy():
    return st.fixed_dictionaries({'s': models.system(), 'g': grid_strategy(), 'time': st.sampled_from([0.0, 0.5, 2.0, -1.25])})


def values(rng, shape):
    return rng.uniform(0.5, 1.6, shape)


def forcing(base, t, state):
    return base * (1 + 0.1 * t) + 0.05 * state[0]


def subclass(cls, exo, frozen=False):
    """the user's implementation of the exogenous functions: they depend on time and state"""
    if not exo:
        return cls

    class Forced(cls):
        def compute_exogenous(self, t, state):
            return [exo[name] if frozen else forcing(exo[name], t, state) for name in cls.exogenous_functions]
    return Forced


def compare(got, want, scale, what):
    require(np.shape(got) == want.shape, lambda: f'{what}: shape {np.shape(got)}, expected {want.shape}')
    ok = np.isfinite(want) & (np.abs(want) < 1e12)
    bad = ok & ~(np.abs(got - want) <= 1e-10 * (scale + np.abs(want) + 1e-3))
    if bad.any():
        i = tuple(int(k[0]) for k in np.nonzero(bad))
        raise Violation(f'{what}: equation {i[0]} at point {i[1:]}: {got[i]!r}, expected {want[i]!r}')


def instance(cls, g, dim, consts, cfun, scheme=None):
    shape = tuple(g['shape'][:dim])
    lengths = tuple(h * n for h, n in zip(g['steps'][:dim], shape))
    kw = {clean(c.name): v for c, v in consts.items()}
    kw.update({clean(f.func.__name__): v for f, v in cfun.items()})
    if scheme:
        kw['time_scheme'] = scheme
    with captured():
        return cls(shape=shape, lengths=lengths, **kw), shape, g['steps'][:dim]


def check_trend(equations, fields, exo, cfun, consts, x, t, g, time, what, builder_input=None):
    """generated trend == discretised right-hand sides"""
    from sympkf.symbolic import FDModelBuilder
    rng = np.random.default_rng(g['seed'])
    dim = len(x)
    shape = tuple(g['shape'][:dim])
    builder = FDModelBuilder(equations if builder_input is None else builder_input)
    cls = build_class(builder)
    require(tuple(cls.prognostic_functions) == tuple(clean(f.func.__name__) for f in fields),
            lambda: f'{what}: prognostic functions {cls.prognostic_functions}')
    vals = {f: values(rng, shape) for f in list(fields) + list(exo) + list(cfun)}
    syms = {c: float(rng.uniform(0.5, 1.5)) for c in consts}
    if g.get('int'):
        vals.update({f: rng.integers(1, 4, shape) * 1.0 for f in fields})
    cls = subclass(cls, {clean(f.func.__name__): vals[f] for f in exo})
    model, shape, steps = instance(cls, g, dim, syms, {f: vals[f] for f in cfun})
    state = np.array([vals[f] for f in fields])
    if g.get('int'):
        state = state.astype(int)
    keep = state.copy()
    with np.errstate(all='ignore'):
        got = model.trend(time, state)
        again = model.trend(time, state.copy())
    require(np.array_equal(state, keep), f'{what}: the state was modified')
    require(np.array_equal(got, again, equal_nan=True), f'{what}: the trend changes at the second call')
    rhs = [e.args[1] for e in equations]
    base = {f: vals[f] for f in exo}
    vals.update({f: forcing(base[f], time, state) for f in exo})
    der = FiniteDifferences(x, steps, vals)
    with np.errstate(all='ignore'):
        want, scale = ref_trend(rhs, time, vals, {**syms, t: time}, der, shape)
    compare(got, want, scale, what)
    # another state and another time
    vals2 = dict(vals)
    vals2.update({f: values(rng, shape) for f in fields})
    vals2.update({f: forcing(base[f], time + 1, np.array([vals2[g] for g in fields])) for f in exo})
    with np.errstate(all='ignore'):
        got2 = model.trend(time + 1, np.array([vals2[f] for f in fields]))
        want2, scale2 = ref_trend(rhs, time + 1, vals2, {**syms, t: time + 1}, FiniteDifferences(x, steps, vals2), shape)
    compare(got2, want2, scale2, what + ' (second state)')
    compare(got, want, scale, what + ' (first trend after the second call)')


def run(case, rec):
    s = System(case['s'])
    rec.label(*models.labels(case['s']))
    rec.trivial_unless(models.nontrivial(case['s']))
    used = [r.free_symbols for r in s.rhs]
    atoms = set().union(*[r.atoms(sympy.core.function.AppliedUndef) for r in s.rhs])
    exo = [f for f in s.exo if f in atoms]
    cfun = [f for f in s.cfun if f in atoms]
    consts = [c for c in s.consts if any(c in u for u in used)]
    before = str(s.equations)
    check_trend(s.equations, s.fields, exo, cfun, consts, s.x, s.t, case['g'], case['time'], 'trend',
                supply(s.equations, case['s']['form']))
    require(str(s.equations) == before, 'the equations were modified')


def strategy_orders():
    return st.fixed_dictionaries({
        's': models.high_orders(), 'time': st.just(0.0),
        'g': st.fixed_dictionaries({'shape': st.lists(st.integers(3, 9), min_size=3, max_size=3),
                                    'steps': st.lists(st.sampled_from([0.75, 1.0, 1.5]), min_size=3, max_size=3),
                                    'seed': st.integers(0, 10 ** 6)})})


# ---------------------------------------------------------------------------- convergence to the exact trend
def strategy_conv():
    return st.fixed_dictionaries({
        's': models.system(max_order=4, dims=(1, 1, 2), pos=True), 'seed': st.integers(0, 10 ** 6),
        'L': st.lists(st.sampled_from([1.0, 2.0, 3.0]), min_size=2, max_size=2)})


def run_conv(case, rec):
    from sympkf.symbolic import FDModelBuilder
    s = System(case['s'])
    spec = case['s']
    rec.label(*models.labels(spec))
    rec.trivial_unless(models.nontrivial(spec))
    dim = len(s.x)
    rng = np.random.default_rng(case['seed'])
    L = [2 * np.pi * l for l in case['L'][:dim]]
    cls = build_class(FDModelBuilder(supply(s.equations, spec['form'])))
    waves = {}
    exact = {}
    for f in s.funcs:
        e = sympy.Float(float(rng.uniform(1.0, 1.4)))
        for _ in range(2):
            k = [int(rng.integers(-1, 2)) for _ in s.x]
            ph = sum(ki * xi / sympy.Float(l) for ki, xi, l in zip(k, s.x, case['L'])) + float(rng.uniform(0, 6))
            e += sympy.Float(float(rng.uniform(0.1, 0.25))) * sympy.sin(ph)
        exact[f] = e
    syms = {c: float(rng.uniform(0.5, 1.5)) for c in s.consts}
    time = 0.75
    sub = {c: v for c, v in syms.items()}
    fns = {f: sympy.lambdify(s.x, e, 'numpy') for f, e in exact.items()}
    # exact derivatives are those of the trigonometric fields

    class Exact:
        def __init__(self, X):
            self.X = X

        def __call__(self, d):
            e = exact[d.args[0]].diff(*[(v, n) for v, n in d.args[1:]])
            return sympy.lambdify(s.x, e, 'numpy')(*self.X) + 0 * self.X[0]

    def error(n):
        shape = (n,) * dim
        h = [l / n for l in L]
        X = np.meshgrid(*[np.arange(n) * hi for hi in h], indexing='ij')
        vals = {f: fns[f](*X) + 0 * X[0] for f in s.funcs}
        c = subclass(cls, {clean(f.func.__name__): vals[f] for f in s.exo}, frozen=True)
        kw = {clean(k.name): v for k, v in syms.items()}
        kw.update({clean(f.func.__name__): vals[f] for f in s.cfun})
        with captured():
            m = c(shape=shape, lengths=tuple(L), **kw)
        got = m.trend(time, np.array([vals[f] for f in s.fields]))
        want, scale = ref_trend(s.rhs, time, vals, {**syms, s.t: time}, Exact(X), shape)
        return np.abs(got - want).reshape(len(s.fields), -1).max(1), scale.reshape(len(s.fields), -1).max(1)
    ns = (96, 192) if dim == 1 else (48, 96)
    (e1, sc), (e2, _) = error(ns[0]), error(ns[1])
    for i in range(len(s.fields)):
        require(e2[i] <= 0.3 * e1[i] + 1e-6 * (sc[i] + 1),
                lambda: f'equation {i}: the error with the exact trend goes from {e1[i]:.4g} with {ns[0]} points to '
                        f'{e2[i]:.4g} with {ns[1]} points: {str(s.equations[i])[:400]}')
        require(e1[i] <= 0.2 * (sc[i] + 1), lambda: f'equation {i}: error {e1[i]:.4g} with {ns[0]} points, terms {sc[i]:.4g}')


# ---------------------------------------------------------------------------- parametric Kalman filter systems
PDES = ['advection', 'burgers', 'diffusion', 'advdiff', 'advection2', 'divergence', 'coupled', 'reaction', 'swirl2']


def strategy_pkf():
    return st.fixed_dictionaries({
        'pde': st.sampled_from(PDES), 'coords': st.sampled_from(models.COORDS), 'swap': st.booleans(),
        'field': st.sampled_from(['u', 'T', '\\theta', 'q_{0}', 'c_0', 'U']), 'other': st.sampled_from(['v', 'h', '\\rho', 'k_1']),
        'kind': st.sampled_from(['in_metric', 'in_aspect']), 'name': st.sampled_from(['', 'PKF', 'toto']),
        'g': grid_strategy(), 'time': st.just(0.0)})


def pkf_system(case):
    from sympkf import SymbolicPKF
    from sympkf.symbolic.constants import t
    from sympkf.symbolic.pkfcas import LocGaussianClosure
    dim = 2 if case['pde'] in ('advection2', 'swirl2') else 1
    x = [Symbol(n) for n in case['coords'][:dim]]
    if case['swap']:
        x.reverse()
    F = lambda n: sympy.Function(n)(t, *x)
    u, v = F(case['field']), F(case['other'])
    nu = Symbol('\\nu')
    D = Derivative
    pde = case['pde']
    eqs = {
        'advection': lambda: [sympy.Eq(D(u, t), -v * D(u, x[0]))],
        'burgers': lambda: [sympy.Eq(D(u, t), -u * D(u, x[0]) + nu * D(u, x[0], 2))],
        'diffusion': lambda: [sympy.Eq(D(u, t), nu * D(u, x[0], 2))],
        'advdiff': lambda: [sympy.Eq(D(u, t), -v * D(u, x[0]) + nu * D(u, (x[0], 2)))],
        'advection2': lambda: [sympy.Eq(D(u, t), -v * D(u, x[0]) - nu * D(u, x[1]))],
        'divergence': lambda: [sympy.Eq(D(u, t), -D(v * u, x[0]))],
        'coupled': lambda: [sympy.Eq(D(u, t), -v * D(u, x[0])), sympy.Eq(D(v, t), -v * D(v, x[0]))],
        'reaction': lambda: [sympy.Eq(D(u, t), nu * u * (1 - u))],
        'swirl2': lambda: [sympy.Eq(D(u, t), -D(v, x[1]) * D(u, x[0]) + D(v, x[0]) * D(u, x[1]))],
    }[pde]()
    closure = {}
    if pde in ('burgers', 'diffusion', 'advdiff'):
        closure = LocGaussianClosure(u).closure(4)
    from sympkf.symbolic.util import PDESystem
    given = PDESystem(eqs, name=case['name']) if case['name'] else eqs
    pkf = SymbolicPKF(given, closure=closure) if closure else SymbolicPKF(given)
    return pkf, eqs, x, t


def run_pkf(case, rec):
    from sympkf.symbolic.random import Expectation
    pkf, eqs, x, t = pkf_system(case)
    system = getattr(pkf, case['kind'])
    rec.label(case['pde'], case['kind'])
    equations = [sympy.Eq(e.args[0], e.args[1], evaluate=False) for e in system]
    if any(e.atoms(Expectation) for e in equations):
        raise OutOfDomain('unclosed system')
    atoms = set().union(*[e.args[1].atoms(sympy.core.function.AppliedUndef) for e in equations])
    fields = [e.args[0].args[0] for e in equations]
    exo = sorted(atoms - set(fields), key=str)
    consts = set().union(*[e.args[1].free_symbols for e in equations]) - set(x) - {t}
    rec.trivial_unless(True)
    check_trend(equations, fields, exo, [], consts, tuple(x), t, case['g'], case['time'],
                f"{case['kind']} of {case['pde']}", system)


CHECKS = [
    Check('trend', strategy, run, 400, 12000, cpu=60),
    Check('orders', strategy_orders, run, 160, 4000, cpu=60),
    Check('converge', strategy_conv, run_conv, 64, 2500, cpu=60),
    Check('pkf', strategy_pkf, run_pkf, 32, 800, cpu=90),
]
