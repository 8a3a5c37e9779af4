"""C15  models on a manifold"""
import numpy as np
import sympy
from hypothesis import strategies as st

from .. import models
from ..core import Check, Violation, require
from ..models import System, build_class, captured, clean, ref_trend, supply
from .c13 import PDES, compare, forcing, grid_strategy, pkf_system, subclass
from .c14 import SCHEMES, attributes, names, probe_scheme, used

RULE = ("Random systems as in C13. The base space given to the model is a stand-in with one linear operator per "
        "coordinate (a combination of shifts that differs from one coordinate to another), which records its calls; the "
        "trend is compared with the right-hand sides in which every derivative is the product of these operators. "
        "Non-trivial: the system has a spatial derivative.")
ASSUMPTIONS = ["the base space has the interface diff(field, coordinate, order, ...) and dimension"]


class Base:
    """stand-in for a discretised manifold"""

    def __init__(self, names, weights):
        self.names, self.weights, self.dimension = list(names), weights, len(names)
        self.calls = []

    def op(self, field, axis, n):
        a, b, c = self.weights[axis]
        for _ in range(n):
            field = a * np.roll(field, 1, axis) + b * field + c * np.roll(field, -1, axis)
        return field

    def diff(self, field, *args):
        require(len(args) % 2 == 0 and args, lambda: f'diff called with {args}')
        self.calls.append(args)
        out = np.array(field, float)
        for name, n in zip(args[::2], args[1::2]):
            require(name in self.names, lambda: f'diff called with the coordinate {name!r}, the space has {self.names}')
            require(int(n) == n and n >= 0, lambda: f'diff called with the order {n!r}')
            out = self.op(out, self.names.index(name), int(n))
        return out


def strategy():
    return st.fixed_dictionaries({'s': models.system(max_order=6), 'g': grid_strategy(), 'time': st.sampled_from([0.0, 0.5, -1.25]),
                                  'scheme': st.sampled_from([None] + SCHEMES), 'cls': st.sampled_from([None, 'Sphere', 'PKFModel'])})


def check(equations, fields, exo, cfun, consts, x, t, g, time, what, given, cls_name=None, scheme=None):
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    rng = np.random.default_rng(g['seed'])
    dim = len(x)
    shape = tuple(g['shape'][:dim])
    builder = ManifoldModelBuilder(given, class_name=cls_name)
    if cls_name:
        require(builder.class_name == cls_name, 'class name')
    cls = build_class(builder)
    S = type('S', (), {'x': x, 'fields': fields})
    attributes(cls, S, exo, cfun, consts, what)
    weights = [tuple(rng.uniform(-0.6, 0.6, 3)) for _ in x]
    base = Base([clean(v.name) for v in x], weights)
    vals = {f: rng.uniform(0.5, 1.6, shape) for f in list(fields) + list(exo) + list(cfun)}
    syms = {c: float(rng.uniform(0.5, 1.5)) for c in consts}
    basevals = {f: vals[f] for f in exo}
    cls = subclass(cls, {clean(f.func.__name__): vals[f] for f in exo})
    kw = {clean(c.name): v for c, v in syms.items()}
    kw.update({clean(f.func.__name__): vals[f] for f in cfun})
    if scheme:
        kw['time_scheme'] = scheme
    with captured() as out:
        model = cls(base, **kw)
    require('Warning' not in out.getvalue(), lambda: f'{what}: everything is given and it prints {out.getvalue()!r}')
    probe_scheme(model, scheme or 'rk4', what)
    require(model.base_space is base, f'{what}: another base space')
    if g.get('int'):
        vals.update({f: rng.integers(1, 4, shape) * 1.0 for f in fields})
    state = np.array([vals[f] for f in fields])
    if g.get('int'):
        state = state.astype(int)
    vals.update({f: forcing(basevals[f], time, state) for f in exo})
    keep = state.copy()
    with np.errstate(all='ignore'):
        got = model.trend(time, state)
    require(np.array_equal(state, keep), f'{what}: the state was modified')

    def der(d):
        f = vals[d.args[0]]
        for v, n in d.args[1:]:
            f = base.op(f, list(x).index(v), int(n))
        return f
    with np.errstate(all='ignore'):
        want, scale = ref_trend([e.args[1] for e in equations], time, vals, {**syms, t: time}, der, shape)
    compare(got, want, scale, what)
    # configuration: constants not given are reported, other dimensions are refused
    with captured() as out:
        m = cls(base)
    for n in names(consts) + names(cfun):
        require(f'`{n}`' in out.getvalue(), lambda: f'{what}: {n} is not given, it prints {out.getvalue()!r}')
        require(np.ndim(getattr(m, n)) == 0 and np.isnan(getattr(m, n)), f'{what}: {n} has a value')
    for other in (dim + 1, dim - 1):
        b = Base(base.names, weights)
        b.dimension = other
        try:
            with captured():
                cls(b, **kw)
        except (AssertionError, ValueError):
            continue
        raise Violation(f'{what}: a base space of dimension {other} is accepted with {dim} coordinates')


def run(case, rec):
    s = System(case['s'])
    rec.label(*models.labels(case['s']))
    rec.trivial_unless(models.nontrivial(case['s']))
    exo, cfun, consts = used(s)
    before = str(s.equations)
    check(s.equations, s.fields, exo, cfun, consts, s.x, s.t, case['g'], case['time'], 'trend',
          supply(s.equations, case['s']['form']), case['cls'], case['scheme'])
    require(str(s.equations) == before, 'the equations were modified')


def strategy_pkf():
    return st.fixed_dictionaries({
        'pde': st.sampled_from(PDES), 'coords': st.sampled_from(models.COORDS), 'swap': st.booleans(),
        'field': st.sampled_from(['u', 'T', '\\theta', 'q_{0}', 'c_0', 'U']), 'other': st.sampled_from(['v', 'h', '\\rho', 'k_1']),
        'kind': st.sampled_from(['in_metric', 'in_aspect']), 'name': st.just(''), 'g': grid_strategy(), 'time': st.just(0.0)})


def run_pkf(case, rec):
    from sympkf.symbolic.random import Expectation
    from ..core import OutOfDomain
    pkf, eqs, x, t = pkf_system(case)
    system = getattr(pkf, case['kind'])
    rec.label(case['pde'], case['kind'])
    equations = list(system)
    if any(e.atoms(Expectation) for e in equations):
        raise OutOfDomain('unclosed system')
    atoms = set().union(*[e.args[1].atoms(sympy.core.function.AppliedUndef) for e in equations])
    fields = [e.args[0].args[0] for e in equations]
    exo = sorted(atoms - set(fields), key=str)
    consts = set().union(*[e.args[1].free_symbols for e in equations]) - set(x) - {t}
    rec.trivial_unless(True)
    check(equations, fields, exo, [], sorted(consts, key=str), tuple(x), t, case['g'], case['time'], f"{case['kind']} of {case['pde']}", system)


CHECKS = [
    Check('trend', strategy, run, 900, 24000, cpu=60),
    Check('pkf', strategy_pkf, run_pkf, 24, 600, cpu=90),
]
