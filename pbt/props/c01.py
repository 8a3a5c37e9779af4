"""C01  mean dynamics = expectation of the second-order expansion"""
from ..core import Check, require
from .. import gen
from ..pkfcheck import (P1, P1H, P1M, P1T, P1TP, P2, P3D, P3, case_strategy, env_value, judge, members,
                        setup, with_reference)
from ..sem import OMEGA, close

RULE = ("Random PDE systems (1-3 fields, products of transcendental factors, 1D/2D/3D, random orders, powers, flux forms, coefficient "
        "and exogenous fields, constants, transcendental terms) and random polynomial mean, std, "
        "coefficient and unit-variance random error fields, all values exact (rationals, or 60 "
        "digits with roots/transcendentals). Non-trivial: the equation is nonlinear, so that the "
        "mean is coupled with second-order statistics.")


def run_mean(case, rec):
    built, pkf = setup(case)
    system = pkf.expectation_system
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(gen.is_nonlinear(case['pde']))

    def fn(ref):
        env = ref.env(pkf)
        # expectation_system speaks of E[random field]; its left-hand sides are their trends
        for f, eq in zip(built.fields, system):
            lhs, rhs = members(eq, 'expectation_system')
            want = ref.num(0) + ref.T_mean(f).c0
            for side, name in ((lhs, 'lhs'), (rhs, 'rhs')):
                got = env_value(env, side, None, f'expectation_system {name}')
                require(close(got, want, env.mp), lambda: f"mean trend of {f} ({name}): tool {got}, "
                        f"reference {want}\n   {str(eq)[:800]}")
        require(len(system) == len(built.fields), 'one mean equation per field')
    with_reference(built, case['seed'], fn)


def run_second_order(case, rec):
    """the second-order Reynolds equations: E of each equals the mean equation, and each
    realisation is the Taylor polynomial of degree 2"""
    built, pkf = setup(case)
    system = pkf.second_order_reynolds_system
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(gen.is_nonlinear(case['pde']))

    def fn(ref):
        env = ref.env(pkf)
        for i, eq in enumerate(system):
            rhs = members(eq, 'second order')[1]
            for w in OMEGA[:3]:
                j = ref._perturbed(i, 0, w)
                want = (j.eta_part(0) + j.eta_part(1) + j.eta_part(2)).c0
                got = env_value(env, rhs, w, 'second_order_reynolds_system')
                require(close(got, want, env.mp),
                        lambda: f"second-order Reynolds equation {i}: tool {got}, reference {want}"
                                f"\n   {str(eq)[:800]}")
    with_reference(built, case['seed'], fn)


def run_full(case, rec):
    """the mean equations at the head of the complete system (deterministic notation)"""
    built, pkf = setup(case)
    system = [e for e in pkf.in_metric if e.args[0].args[0] in built.fields]
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(gen.is_nonlinear(case['pde']))
    with_reference(built, case['seed'], lambda ref: judge(
        system, ref.env(pkf), 'mean equations of in_metric', expected_lhs=built.fields))


P1N = dict(P1, max_factors=3, max_order=2, total_order=3, recip=True)
MEAN = case_strategy(P1, P1T, P1TP, P1M, P1N, P2, P3, P3D, P1H)
CHECKS = [
    Check('mean', MEAN, run_mean, 260, 6000, cpu=60),
    Check('second_order', MEAN, run_second_order, 64, 2000, cpu=60),
    Check('full', case_strategy(dict(P1, max_order=1, total_order=2), P1T), run_full, 32, 1200, cpu=60),
]
