"""C03  metric-tensor dynamics"""
from .. import gen
from ..core import Check
from ..pkfcheck import (P1, P1H, P1M, P1S, P1T, P2, P2A, P2D, P3, P3D, case_strategy, judge, setup,
                        with_reference)
from .c02 import nontrivial

RULE = ("Random PDE systems and random exact fields as in C01; every metric component's derived "
        "trend is evaluated and compared with the exact trend of E[d_i eps d_j eps]. Non-trivial: "
        "the system has a spatial derivative or a nonlinearity.")


def _run(which):
    def run(case, rec):
        built, pkf = setup(case)
        rec.label(*gen.labels(case['pde']))
        rec.trivial_unless(nontrivial(case['pde']))
        n = built.dim
        lhs = [pkf.fields[f].metric[i, j] for f in built.fields for i in range(n) for j in range(i, n)]
        system = [e for e in getattr(pkf, which)]
        if which == 'in_metric':
            system = [e for e in system if e.args[0].args[0] in lhs]
        with_reference(built, case['seed'], lambda ref: judge(
            system, ref.env(pkf), which, expected_lhs=lhs))
    return run


CHECKS = [
    Check('metric_1d', case_strategy(P1, P1T, dict(P1M, max_fields=2), P1S, P1H), _run('metric_system'),
          100, 3000, cpu=60),
    Check('metric_2d', case_strategy(P2A, P2A, P2D, dict(P2A, min_fields=2, max_fields=2)), _run('metric_system'), 56, 1500, cpu=90),
    Check('metric_3d', case_strategy(P3, P3, P3D), _run('metric_system'), 16, 300, cpu=90),
    Check('in_metric', case_strategy(P1S, P1S, P2A), _run('in_metric'), 40, 1000, cpu=60),
]
