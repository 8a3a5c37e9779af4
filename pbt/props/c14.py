"""C14  configuration of generated model classes"""
import os
import shutil
import tempfile

import numpy as np
import sympy
from hypothesis import strategies as st

from .. import models
from ..core import Check, OutOfDomain, Violation, require
from ..models import System, build_class, captured, clean, supply
from .c13 import subclass

RULE = ("Random systems as in C13, random class names, shapes, lengths, time schemes and subsets of constants and "
        "coefficient functions, in sequences of constructions, with the documented value of every attribute as oracle; "
        "the module written to a scratch directory is executed and compared with the in-memory class. Non-trivial: the "
        "system has constants, coefficient functions or several dimensions.")
ASSUMPTIONS = ["names of constants and functions do not collide with the attributes of models"]

SCHEMES = ['rk4', 'rk2', 'euler', 'leapfrog', 'splitting']


def config():
    return st.fixed_dictionaries({
        'shape': st.one_of(st.none(), st.lists(st.integers(3, 12), min_size=3, max_size=3)),
        'lengths': st.one_of(st.none(), st.lists(st.sampled_from([1, 2, 0.5, 10.0, 3.25, 1000.0]), min_size=3, max_size=3)),
        'scheme': st.sampled_from([None] + SCHEMES),
        'given': st.lists(st.booleans(), min_size=6, max_size=6),
        'astuple': st.booleans()})


def strategy():
    return st.fixed_dictionaries({
        's': models.system(max_order=2, nested=False), 'cls': st.sampled_from([None, 'Burgers', 'My_Model', 'A', 'PKFModel2']),
        'name': st.sampled_from(['', 'toto', 'System']), 'seed': st.integers(0, 10 ** 6),
        'confs': st.lists(config(), min_size=1, max_size=3)})


def used(s):
    """functions and constants of the right-hand sides"""
    rhs = [r.doit() for r in s.rhs]
    atoms = set().union(*[r.atoms(sympy.core.function.AppliedUndef) for r in rhs])
    free = set().union(*[r.free_symbols for r in rhs])
    raw = set().union(*[r.atoms(sympy.core.function.AppliedUndef) | r.free_symbols for r in s.rhs])
    if raw - atoms - free - set(s.fields) - set(s.x) - {s.t}:
        raise OutOfDomain('terms that vanish')
    return ([f for f in s.exo if f in atoms], [f for f in s.cfun if f in atoms], [c for c in s.consts if c in free])


def names(fs):
    return sorted(clean(getattr(f, 'name', None) or f.func.__name__) for f in fs)


def attributes(cls, s, exo, cfun, consts, what):
    require(tuple(cls.coordinates) == tuple(clean(v.name) for v in s.x), lambda: f'{what}: coordinates {cls.coordinates}')
    require(tuple(cls.prognostic_functions) == tuple(clean(f.func.__name__) for f in s.fields),
            lambda: f'{what}: prognostic functions {cls.prognostic_functions}')
    for attr, fs in (('exogenous_functions', exo), ('constant_functions', cfun), ('constants', consts)):
        got = getattr(cls, attr, ())
        require(sorted(got) == names(fs), lambda: f'{what}: {attr} {got}, expected {names(fs)}')


def make(cls, conf, s, cfun, consts, rng, what):
    """an instance, its expected constants, and the checks of its construction"""
    dim = len(s.x)
    kw, want = {}, {}
    shape = conf['shape'] if conf['shape'] or dim < 3 else [4, 5, 6]
    full_shape = tuple(shape[:dim]) if shape else (100,) * dim
    wrap = tuple if conf['astuple'] else list
    if shape:
        kw['shape'] = wrap(shape[:dim])
    if conf['lengths']:
        kw['lengths'] = wrap(conf['lengths'][:dim])
    lengths = tuple(conf['lengths'][:dim]) if conf['lengths'] else (1.0,) * dim
    if conf['scheme']:
        kw['time_scheme'] = conf['scheme']
    flags = iter(conf['given'])
    for c in list(consts) + list(cfun):
        n = clean(getattr(c, 'name', None) or c.func.__name__)
        if next(flags):
            zero = rng.integers(0, 5)   # zero is a value like another one
            value = (0.0, 0, 1, 2.5)[zero] if zero < 4 else float(rng.uniform(0.5, 1.5))
            want[n] = kw[n] = value if c in consts else value * rng.uniform(0.5, 1.5, full_shape)
        else:
            want[n] = None
    keep = {k: (list(v) if isinstance(v, (list, tuple)) else np.copy(v) if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    with captured() as out:
        m = cls(**kw)
    for k, v in kw.items():
        require(np.array_equal(np.asarray(v), np.asarray(keep[k])), lambda: f'{what}: the argument {k} was modified')
    text = out.getvalue()
    for n, v in want.items():
        told = [l for l in text.splitlines() if f'`{n}`' in l]
        require(bool(told) == (v is None), lambda: f"{what}: {n} {'given' if v is not None else 'not given'}, printed: {text!r}")
    return m, full_shape, lengths, want, conf['scheme'] or 'rk4'


def state_of(m, shape, lengths, want, scheme, s, what):
    dim = len(s.x)
    require(tuple(m.shape) == shape, lambda: f'{what}: shape {m.shape}, expected {shape}')
    require(tuple(m.lengths) == lengths, lambda: f'{what}: lengths {m.lengths}, expected {lengths}')
    require(len(m.dx) == len(m.x) == len(m.X) == dim, lambda: f'{what}: {len(m.dx)} steps, {len(m.x)} coordinates, {len(m.X)} meshes')
    for k in range(dim):
        h = lengths[k] / shape[k]
        require(abs(m.dx[k] - h) <= 1e-12 * h, lambda: f'{what}: dx[{k}] = {m.dx[k]}, expected {h}')
        require(np.shape(m.x[k]) == (shape[k],) and np.allclose(m.x[k], np.arange(shape[k]) * h, rtol=1e-12, atol=0),
                lambda: f'{what}: x[{k}] = {m.x[k]}')
        X = np.asarray(m.X[k])
        ref = np.broadcast_to(np.reshape(np.arange(shape[k]) * h, [-1 if j == k else 1 for j in range(dim)]), shape)
        require(X.shape == shape and np.allclose(X, ref, rtol=1e-12, atol=0),
                lambda: f'{what}: the mesh X[{k}] of shape {X.shape} is not the coordinate {k} at the points of the grid {shape}')
    for n, v in want.items():
        got = getattr(m, n)
        if v is None:
            require(np.ndim(got) == 0 and np.isnan(got), lambda: f'{what}: {n} = {got!r}, not given')
        else:
            require(np.array_equal(got, v), lambda: f'{what}: {n} = {got!r}, given {v!r}')
    for k, c in enumerate(s.x):
        for step in (0, 1, -1, 2):
            idx = np.asarray(m.index(clean(c.name), step))
            require(np.array_equal(idx, (np.arange(shape[k]) + step) % shape[k]), lambda: f'{what}: index({c},{step}) = {idx}')
    probe_scheme(m, scheme, what)


def probe_scheme(m, scheme, what):
    """the time scheme is the requested one: integrate u' = 3 t^2 u"""
    tr = lambda t, u: 3 * t ** 2 * u
    u, dt, t = np.array([1.0, 2.0]), 0.5, 0.3
    if scheme == 'euler':
        want = u + dt * tr(t, u)
    elif scheme == 'rk2':
        want = u + dt * tr(t + dt / 2, u + dt / 2 * tr(t, u))
    elif scheme == 'rk4':
        k1 = tr(t, u); k2 = tr(t + dt / 2, u + dt / 2 * k1); k3 = tr(t + dt / 2, u + dt / 2 * k2); k4 = tr(t + dt, u + dt * k3)
        want = u + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    elif scheme == 'leapfrog':
        got = m.time_scheme(tr, t, [u, 2 * u], dt)
        require(np.allclose(got[0], 2 * u) and np.allclose(got[1], u + 2 * dt * tr(t, 2 * u)), f'{what}: the time scheme is not leapfrog')
        return
    else:
        got = m.time_scheme([{'update': lambda t, u, dt: u + dt}], t, u, dt)
        require(np.allclose(got, u + dt), f'{what}: the time scheme is not splitting')
        return
    require(np.allclose(m.time_scheme(tr, t, u, dt), want, rtol=1e-12), f'{what}: the time scheme is not {scheme}')


def trend_of(m, cls, shape, s, seed):
    rng = np.random.default_rng(seed)
    state = rng.uniform(0.5, 1.5, (len(s.fields),) + shape)
    with np.errstate(all='ignore'):
        try:
            return m.trend(0.5, state)
        except ZeroDivisionError:   # a python zero as a denominator
            return np.full_like(state, np.nan)


def run(case, rec):
    from sympkf.symbolic import FDModelBuilder
    from sympkf.symbolic.util import PDESystem
    s = System(case['s'])
    exo, cfun, consts = used(s)
    rec.label(*models.labels(case['s']))
    rec.label(f"instances{len(case['confs'])}")
    rec.trivial_unless(consts or cfun or len(s.x) > 1)
    rng = np.random.default_rng(case['seed'])
    before = str(s.equations)
    given = PDESystem(list(s.equations), name=case['name']) if case['name'] else supply(s.equations, case['s']['form'])
    builder = FDModelBuilder(given, class_name=case['cls'])
    expected = case['cls'] or case['name']
    if expected:
        require(builder.class_name == expected, f'class name {builder.class_name}, expected {expected}')
    code = builder.code
    require(builder.code == code, 'the code changes at the second call')
    again = FDModelBuilder(given, class_name=case['cls']).code
    require(again == code, lambda: 'another builder on the same system gives another code')
    require(str(s.equations) == before and (not isinstance(given, list) or str(given) == before), 'the equations were modified')
    cls = build_class(builder, expected or None)
    attributes(cls, s, exo, cfun, consts, 'class')
    ones = {}
    base = cls
    if exo:
        ones = {clean(f.func.__name__): 1.25 for f in exo}

        class Forced(cls):
            def compute_exogenous(self, t, state):
                return [ones[n] * np.ones(state.shape[1:]) for n in cls.exogenous_functions]
        cls = Forced
    made = []
    for i, conf in enumerate(case['confs']):
        made.append(make(cls, conf, s, cfun, consts, rng, f'instance {i}'))
        m, shape, lengths, want, scheme = made[-1]
        state_of(m, shape, lengths, want, scheme, s, f'instance {i}')
    ready = [(m, shape) for m, shape, _, want, _ in made if all(v is not None for n, v in want.items() if n in names(cfun))
             and np.prod(shape) <= 2000]
    first = [trend_of(m, cls, shape, s, case['seed']) for m, shape in ready]
    # independence: the configuration and the trend of each instance are kept whatever happens to the others
    if made:
        m, shape, lengths, want, scheme = made[-1]
        for n in list(want):
            setattr(m, n, 7.5)
            want[n] = 7.5
        for other in SCHEMES:
            m.set_time_scheme(other)
            probe_scheme(m, other, 'set_time_scheme')
        made[-1] = (m, shape, lengths, want, SCHEMES[-1])
        try:
            m.set_time_scheme('no such scheme')
        except ValueError:
            pass
        else:
            raise Violation('an unknown time scheme is accepted')
    for i, (m, shape, lengths, want, scheme) in enumerate(made):
        state_of(m, shape, lengths, want, scheme, s, f'instance {i} after the others')
    for (m, shape), f in list(zip(ready, first)):
        if made and m is made[-1][0]:
            continue
        require(np.array_equal(trend_of(m, cls, shape, s, case['seed']), f, equal_nan=True), 'the trend of an instance depends on another one')
    # wrong sizes are refused
    for key in ('shape', 'lengths'):
        for size in (len(s.x) - 1, len(s.x) + 1):
            try:
                with captured():
                    cls(**{'shape': (4,) * len(s.x), **{key: (3,) * size}})
            except ValueError:
                continue
            raise Violation(f'{key} of {size} dimensions accepted by a model of {len(s.x)}')
    # the module
    here = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='vp_c14_')
    try:
        os.chdir(tmp)
        with captured():
            builder.write_module()
        files = sorted(os.listdir(tmp))
        require(files == [builder.class_name.lower() + '.py'], lambda: f'write_module created {files}')
        with open(os.path.join(tmp, files[0])) as f:
            text = f.read()
    finally:
        os.chdir(here)
        shutil.rmtree(tmp, ignore_errors=True)
    ns = {}
    try:
        exec(compile(text, 'module', 'exec'), ns)
    except Exception as e:
        raise Violation(f'the written module does not run: {type(e).__name__}: {e}') from e
    require(builder.class_name in ns, 'the written module has no such class')
    mod = ns[builder.class_name]
    attributes(mod, s, exo, cfun, consts, 'module class')
    dim = len(s.x)
    shape = (5, 4, 6)[:dim]
    kw = {n: float(rng.uniform(0.5, 1.5)) for n in names(consts)}
    kw.update({n: rng.uniform(0.5, 1.5, shape) for n in names(cfun)})
    res = []
    for k in (base, mod):
        class Sub(k):
            def compute_exogenous(self, t, state):
                return [ones[n] * np.ones(state.shape[1:]) for n in k.exogenous_functions]
        with captured():
            res.append(trend_of(Sub(shape=shape, **kw), k, shape, s, case['seed']))
    require(np.array_equal(res[0], res[1], equal_nan=True), 'the written module computes another trend')


CHECKS = [Check('config', strategy, run, 480, 12000, cpu=60)]
