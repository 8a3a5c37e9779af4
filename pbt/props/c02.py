"""C02  variance, standard-deviation and cross-covariance dynamics"""
from .. import gen
from ..core import Check, require
from ..pkfcheck import (P1, P1H, P1M, P1T, P2, P3, P3D, P4, case_strategy, covariances,
                        driven_case, judge, no_error, setup,
                        with_reference)

RULE = ("Random PDE systems and random exact fields as in C01; every derived trend of a variance, "
        "std or cross-covariance is evaluated and compared with the exact tangent-linear trend of "
        "its definition. Non-trivial: the system has a spatial derivative or a nonlinearity.")


def nontrivial(spec):
    return gen.spec_orders(spec) > 0 or gen.is_nonlinear(spec)


def _run(which):
    def run(case, rec):
        built, pkf = setup(case)
        rec.label(*gen.labels(case['pde']))
        rec.trivial_unless(nontrivial(case['pde']))
        if which == 'variance':
            system, lhs = pkf.variance_system, [pkf.fields[f].variance for f in built.fields]
        elif which == 'std':
            system, lhs = pkf.std_system, [pkf.fields[f].std for f in built.fields]
        elif which == 'covariance':
            system, lhs = pkf.cross_covariance_system, covariances(pkf, built)
            require((system is None) == (len(lhs) == 0) or not system,
                    'cross-covariance equations without couple')
            system = system or []
        else:
            lhs = [pkf.fields[f].variance for f in built.fields] + covariances(pkf, built)
            system = [e for e in getattr(pkf, which) if e.args[0].args[0] in lhs]
        no_error(system, pkf, built, f'{which} system')
        with_reference(built, case['seed'], lambda ref: judge(
            system, ref.env(pkf), f'{which} system', expected_lhs=lhs))
    return run


P1L = dict(P1M, max_order=2)
CHECKS = [
    Check('variance', case_strategy(P1, P1T, P1M, P1H, P2, P3D), _run('variance'), 120, 4000, cpu=60),
    Check('std', case_strategy(P1, P1M, P2, P3), _run('std'), 64, 2000, cpu=60),
    Check('covariance', case_strategy(P1M, P1L, P4, P4, dict(P2, min_fields=2), dict(P1T, min_fields=2),
                                      dict(P3, min_fields=2, max_fields=2)),
          _run('covariance'), 130, 3000, cpu=60),
    Check('driven', driven_case(), _run('covariance'), 32, 800, cpu=60),
    Check('in_metric', case_strategy(dict(P1M, max_order=1, total_order=1)), _run('in_metric'), 24, 800, cpu=60),
]
