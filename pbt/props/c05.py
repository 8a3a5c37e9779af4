"""C05  error and normalised-error dynamics"""
from .. import gen
from ..core import Check, require
from ..pkfcheck import (P1, P1H, P1M, P1T, P2, P3, P3D, case_strategy, env_value, judge, members, no_error,
                        setup, with_reference)
from ..sem import OMEGA, close
from .c02 import nontrivial

RULE = ("Random PDE systems and random exact fields as in C01; error, normalised-error, linearised "
        "and mean-of-linearised equations are evaluated for each of the 8 outcomes of the sample "
        "space and compared with the exact tangent-linear term. Non-trivial: the system has a "
        "spatial derivative or a nonlinearity.")


def run_error(case, rec):
    built, pkf = setup(case)
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(nontrivial(case['pde']))
    system = pkf.error_system
    with_reference(built, case['seed'], lambda ref: judge(
        system, ref.env(pkf), 'error_system', random_lhs=True,
        expected_lhs=[pkf.fields[f].error for f in built.fields]))


def run_epsilon(case, rec):
    built, pkf = setup(case)
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(nontrivial(case['pde']))
    system = pkf.epsilon_system
    no_error(system, pkf, built, 'epsilon_system')
    with_reference(built, case['seed'], lambda ref: judge(
        system, ref.env(pkf), 'epsilon_system', random_lhs=True,
        expected_lhs=[pkf.fields[f].epsilon for f in built.fields]))


def run_linear(case, rec):
    built, pkf = setup(case)
    rec.label(*gen.labels(case['pde']))
    rec.trivial_unless(nontrivial(case['pde']))
    first, tl = pkf.first_order_reynolds_system, pkf.tl_expectation_system
    require(len(first) == len(tl) == len(built.fields), 'one linearised equation per field')

    def fn(ref):
        env = ref.env(pkf)
        for i in range(len(first)):
            for w in OMEGA[:4]:
                j = ref._perturbed(i, 0, w)
                full, mean = (j.eta_part(0) + j.eta_part(1)).c0, j.eta_part(0).c0
                got = env_value(env, members(first[i], 'linearised')[1], w, 'first_order_reynolds_system')
                require(close(got, full, env.mp), lambda: f"linearised equation {i}: tool {got}, "
                        f"reference {full}\n   {str(first[i])[:800]}")
            got = env_value(env, members(tl[i], 'tl expectation')[1], None, 'tl_expectation_system')
            require(close(got, mean, env.mp), lambda: f"mean of the linearised equation {i}: tool "
                    f"{got}, reference {mean}\n   {str(tl[i])[:800]}")
    with_reference(built, case['seed'], fn)


ALL = case_strategy(P1, P1T, P1M, P1H, P2, P3D)
CHECKS = [
    Check('error', ALL, run_error, 120, 4000, cpu=60),
    Check('linearised', ALL, run_linear, 64, 2000, cpu=60),
    Check('epsilon', case_strategy(P1, P1T, P1M, P2, P3), run_epsilon, 96, 3000, cpu=60),
]
