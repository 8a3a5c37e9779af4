"""C04  aspect and diffusion forms"""
from sympy import Derivative
from sympy.core.function import AppliedUndef

from .. import gen
from ..core import Check, require
from ..pkfcheck import (P1, P1M, P1S, P1T, P2A, case_strategy, judge, setup, state_variables,
                        with_reference)
from .c02 import nontrivial

RULE = ("Random PDE systems and random exact fields as in C01; in_aspect and in_diffusion are "
        "evaluated with s = g^-1, nu = s/2 and compared, equation by equation, with the exact "
        "trends; the set of equations, leftover functions and unevaluated derivatives are checked. "
        "Non-trivial: the system has a spatial derivative or a nonlinearity.")


def _run(form):
    tensor = {'in_aspect': 'aspect', 'in_diffusion': 'diffusion'}[form]

    def run(case, rec):
        built, pkf = setup(case)
        rec.label(*gen.labels(case['pde']), form)
        rec.trivial_unless(nontrivial(case['pde']))
        system = getattr(pkf, form)
        foreign = set()
        for f in built.fields:
            for other in ('metric', 'aspect', 'diffusion'):
                if other != tensor:
                    foreign |= set(getattr(pkf.fields[f], other))
        for eq in system:
            left = eq.args[1].atoms(AppliedUndef) & foreign
            require(not left, lambda: f"{form}: {left} left in {str(eq)[:500]}")
            for d in eq.args[1].atoms(Derivative):
                require(isinstance(d.expr, AppliedUndef) or type(d.expr).__name__ == 'Expectation',
                        lambda: f"{form}: unevaluated derivative {d} in the trend of {eq.args[0]}")
        with_reference(built, case['seed'], lambda ref: judge(
            system, ref.env(pkf), form, expected_lhs=state_variables(pkf, built, tensor)))
    return run


P1X = dict(P1M, max_fields=2, max_order=1, total_order=1)
P1D = dict(dims=(1,), max_fields=1, max_terms=2, max_order=3, total_order=3)
P1T1 = dict(P1T, max_fields=1, max_terms=1)
ONE = case_strategy(P1S, P1X, P1D, P1T1)
CHECKS = [
    Check('aspect_1d', ONE, _run('in_aspect'), 64, 2000, cpu=90),
    Check('diffusion_1d', ONE, _run('in_diffusion'), 64, 2000, cpu=90),
    Check('aspect_2d', case_strategy(dict(P2A, max_terms=1)), _run('in_aspect'), 24, 400, cpu=60),
    Check('diffusion_2d', case_strategy(dict(P2A, max_terms=1)), _run('in_diffusion'), 24, 400, cpu=60),
]
