"""C16  analysis of PDE systems"""
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Symbol
from sympy.core.function import AppliedUndef

from .. import models
from ..core import Check, require
from ..models import System, labels

RULE = ("Random systems with prognostic, exogenous, coefficient functions, constants (some are trainable scalars), known "
        "functions, flux forms and equations in any order, supplied as a single equation, a list or a system and with "
        "sympy or sympkf equations; the generator knows the role of each symbol. Non-trivial: at least two roles or two "
        "fields.")
ASSUMPTIONS = ["prognostic functions have the time as first argument"]


def strategy():
    return st.fixed_dictionaries({'s': models.system(max_order=4), 'eq': st.sampled_from(['sympy', 'sympkf', 'mixed']),
                                  'train': st.lists(st.booleans(), min_size=3, max_size=3),
                                  'partial': st.lists(st.integers(0, 5), min_size=4, max_size=4),
                                  'trends': st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), min_size=3, max_size=3),
                                  'time': st.lists(st.sampled_from([0, 0, 0, 1, 2]), min_size=2, max_size=2),
                                  'rewrite': st.sampled_from(['none', 'expand', 'doit', 'factor', 'shift', 'together']),
                                  'twins': st.lists(st.sampled_from([0, 0, 1, 2]), min_size=3, max_size=3),
                                  'short': st.lists(st.sampled_from([0, 0, 1]), min_size=3, max_size=3),
                                  'through': st.sampled_from(['PDESystem', 'PDESystem', 'SymbolicPKF', 'FDModelBuilder'])})


def run(case, rec):
    from sympkf.symbolic import FDModelBuilder, SymbolicPKF
    from sympkf.symbolic.util import Eq, PDESystem, TrainableScalar
    s = System(case['s'])
    rec.label(*labels(case['s']))
    rec.label(case['rewrite'], case['through'])
    sub, train = {}, []
    for c, flag in zip(s.consts, case['train']):
        if flag:
            train.append(TrainableScalar(c.name))
            sub[c] = train[-1]
    consts = [c for c in s.consts if c not in sub]
    # coefficient and exogenous functions may depend on some of the coordinates only
    flags = iter(case['partial'])
    funcs = list(s.funcs)
    for i, f in enumerate(funcs[len(s.fields):], len(s.fields)):
        drop = next(flags, 0)
        if len(s.x) > 1 and drop < len(s.x):
            args = [a for a in f.args if a != s.x[drop]]
            funcs[i] = f.func(*args)
            sub[f] = funcs[i]
            rec.label('partial-coordinates')
    # fields of different dimensions: one of them has all the coordinates
    fields = list(s.fields)
    full = [i for i, k in enumerate(case.get('short', [])) if not k]
    if case['through'] == 'PDESystem' and len(s.x) > 1 and full and full[0] < len(fields):
        for i, f in enumerate(fields):
            if case['short'][i]:
                fields[i] = funcs[i] = sub[f] = f.func(*f.args[:-1])
                rec.label('fields-of-different-dimensions')
    # the time is any argument of an exogenous function
    for i, f in enumerate(funcs[len(s.fields):len(s.fields) + len(s.exo)], len(s.fields)):
        k = case.get('time', [0, 0])[i % 2]
        if k and len(f.args) > 1 and case['through'] != 'FDModelBuilder':
            args = list(f.args[1:])
            args.insert(k, s.t)
            funcs[i] = sub[s.funcs[i]] = f.func(*args)
            rec.label('time-not-first')
    # constants of the same name as a function or a trainable scalar are other symbols
    twins = []
    if case['through'] == 'PDESystem':
        for k, kind in enumerate(case.get('twins', [])):
            pool = [[], [f.func.__name__ for f in funcs], [c.name for c in train]][kind]
            if pool:
                twins.append(Symbol(pool[k % len(pool)]))
                rec.label('constant-with-the-name-of-' + ['', 'a-function', 'a-trainable-scalar'][kind])
    consts += twins
    rhs = []
    for i, r in enumerate(s.rhs):
        r = r.xreplace(sub)
        # trends of exogenous functions
        if s.exo and case.get('trends', [0] * 3)[i % 3] and case['through'] != 'FDModelBuilder':
            g = funcs[len(s.fields) + i % len(s.exo)]
            d = Derivative(g, s.t)
            r = r + {1: d, 2: fields[0] * d, 3: Derivative(g, s.t, s.x[0]) if s.x[0] in g.args else -d}[case['trends'][i % 3]]
            rec.label('exogenous-trend')
        for c in twins[i:i + 2]:
            r = r + c * fields[0]
        r = {'none': lambda: r, 'expand': lambda: r.expand(), 'doit': lambda: r.doit(), 'factor': lambda: sympy.factor_terms(r),
             'together': lambda: sympy.together(r), 'shift': lambda: r + r.xreplace({}) * 2}[case['rewrite']]()
        rhs.append(r)
    mk = {'sympy': lambda i: sympy.Eq, 'sympkf': lambda i: Eq, 'mixed': lambda i: (sympy.Eq, Eq)[i % 2]}[case['eq']]
    eqs = [mk(i)(Derivative(f, s.t), r, evaluate=False) for i, (f, r) in enumerate(zip(fields, rhs))]
    keep, text = list(eqs), str(eqs)
    given = eqs[0] if len(eqs) == 1 and case['s']['form'] == 'Eq' else eqs
    if case['through'] == 'SymbolicPKF':
        p = SymbolicPKF(PDESystem(given) if case['s']['form'] == 'system' else given)
        require(list(p.fields) == s.fields, lambda: f'fields {list(p.fields)}')
        p = p.pde_system
    elif case['through'] == 'FDModelBuilder':
        p = FDModelBuilder(given).pde_system
        rhs = [r.doit() for r in rhs]
    else:
        p = PDESystem(given, name='toto')
        require(p.name == 'toto', lambda: f'name {p.name!r}')
    atoms = set().union(*[r.atoms(AppliedUndef) for r in rhs])
    free = set().union(*[r.free_symbols for r in rhs])
    exo = {f for f in funcs[len(s.fields):] if f in atoms and s.t in f.args}
    cfun = {f for f in funcs[len(s.fields):] if f in atoms and s.t not in f.args}
    want = {
        'prognostic_functions': fields, 'exogenous_functions': exo, 'constant_functions': cfun,
        'constants': {c for c in consts if c in free}, 'trainable_scalars': {c for c in train if c in free},
        'functions': atoms | set(fields), 'coordinates': (s.t,) + s.x, 'spatial_coordinates': s.x,
        'time_coordinate': s.t, 'spatial_derivatives': set().union(*[r.atoms(Derivative) for r in rhs])}
    timed = any(s.t in [v for v, _ in d.variable_count] for d in want['spatial_derivatives'])
    if timed:
        del want['spatial_derivatives']   # whether they are listed with the others is not stated
    rec.trivial_unless(len(s.fields) > 1 or sum(bool(want[k]) for k in ('exogenous_functions', 'constant_functions', 'constants')) > 1)
    for k, v in want.items():
        got = getattr(p, k)
        if isinstance(v, set):
            require(len(list(got)) == len(set(got)), lambda: f'{k}: {got}')
            got = set(got)
        elif k != 'time_coordinate':
            got, v = list(got), list(v)
        require(got == v, lambda: f'{k}: {got}, expected {v}\n   {text[:600]}')
    order = None if timed else max([0] + [sum(n for _, n in d.args[1:]) for d in want['spatial_derivatives']])
    require(timed or p.derivative_max_order == order, lambda: f'derivative_max_order {p.derivative_max_order}, expected {order}')
    if case['through'] != 'FDModelBuilder':
        require(list(p) == keep and [p[i] for i in range(len(keep))] == keep, 'the equations of the system')
    require(str(eqs) == text and eqs == keep, 'the equations were modified')
    shown = repr(p)
    for k in ('prognostic_functions', 'exogenous_functions', 'constant_functions'):
        for f in want[k]:
            require(str(f) in shown, lambda: f'{f} is not in the summary\n{shown}')


CHECKS = [Check('classify', strategy, run, 900, 30000, cpu=30)]
