"""C23  ready-made dynamics: documented equations, models, forecasts"""
import numpy as np
import sympy
from hypothesis import strategies as st
from sympy import Derivative as D
from sympy import Function, Matrix, Symbol
from sympy.core.function import AppliedUndef

from ..core import Check, OutOfDomain, Violation, require
from ..models import build_class, captured, clean, ref_trend
from ..numeval import same_values

RULE = ("system: each ready-made system, its equations and those of its PKF systems (metric and aspect forms, closed as "
        "documented) have the values of the documented equations on random data. trend: the models built from them on "
        "random grids, states and coefficients, with any registered closure; the trend converges to the exact one of the "
        "documented equations, second order in the grid step. forecast: random smooth states of the Burgers PKF model are "
        "forecast to finite states which agree with an independent integration of the documented equations, and with the "
        "variance and length-scale of an ensemble of small errors propagated by the model of the same dynamics (square "
        "root of the initial covariance as members). Non-trivial: always (every case has derivatives); forecasts which "
        "the documented equations themselves cannot do (fronts, blow-up) are out of the domain.")
ASSUMPTIONS = ["ensembles: errors of 1e-3 the state, length-scales of more than 4 grid steps, before the formation of "
               "the front; tolerance 5 % of the variance and 12 % of the length-scale"]

t, x, y, z = sympy.symbols('t x y z')


def documented(name):
    """-> spatial coordinates, fields, documented right-hand sides (written from the papers and notebooks)"""
    k, e = Symbol('\\kappa'), Symbol('\\eta')
    F = Function
    u = F('u')(t, x)
    if name == 'Burgers':
        k = Symbol('kappa')
        return (x,), [u], [-u * D(u, x) + k * D(u, x, 2)]
    if name == 'burgers':
        return (x,), [u], [-u * D(u, x) + k * D(u, x, 2)]
    if name == 'kuramoto':
        return (x,), [u], [-u * D(u, x) - k * D(u, x, 2) - e * D(u, x, 4)]
    if name == 'diffusion':
        return (x,), [u], [k * D(u, x, 2)]
    if name == 'advection':
        c, w = F('c')(t, x), F('u')(x)
        return (x,), [c], [-w * D(c, x)]
    if name == 'advection_in_2D':
        c, w = F('c')(t, x, y), [F(n)(x, y) for n in 'uv']
        return (x, y), [c], [-w[0] * D(c, x) - w[1] * D(c, y)]
    if name == 'advection_in_3D':
        c, w = F('c')(t, x, y, z), [F(n)(x, y, z) for n in 'uvw']
        return (x, y, z), [c], [-w[0] * D(c, x) - w[1] * D(c, y) - w[2] * D(c, z)]
    if name == 'diffusion_in_2D':
        u = F('u')(t, x, y)
        a, b, c = [F('\\kappa_{%s}' % i)(x, y) for i in ('11', '12', '22')]
        return (x, y), [u], [a * D(u, x, 2) + 2 * b * D(u, x, y) + c * D(u, y, 2) + (D(a, x) + D(b, y)) * D(u, x)
                             + (D(b, x) + D(c, y)) * D(u, y)]
    raise KeyError(name)


NAMES = ['Burgers', 'burgers', 'kuramoto', 'diffusion', 'advection', 'advection_in_2D', 'diffusion_in_2D',
         'advection_in_3D']


def ready_made(name):
    from sympkf.symbolic import dynamics
    if name == 'Burgers':
        from sympkf.dynamics.burgers import Burgers
        return [Burgers.dynamics]
    return getattr(dynamics, name)


def tool(name):
    from sympkf import SymbolicPKF
    if name == 'Burgers':
        from sympkf.dynamics.burgers import Burgers
        return Burgers.pkf
    return SymbolicPKF(ready_made(name))


def documented_pkf(name, mf, form):
    """the documented PKF equations, {state variable: right-hand side}; closed with P18 where it is documented"""
    xs, (u,), (rhs,) = documented(name)
    V = mf.variance
    n = len(xs)
    T = mf.metric if form == 'metric' else mf.aspect
    T = Matrix(n, n, lambda i, j: T[i, j])
    out = {}
    if name.startswith('advection'):
        wind = [Function(c)(*xs) for c in 'uvw'[:n]]
        adv = lambda f: -sum(w * D(f, c) for w, c in zip(wind, xs))
        G = Matrix(n, n, lambda i, j: D(wind[i], xs[j]))        # (grad u)_ij = d_j u_i
        out[u], out[V] = rhs, adv(V)
        S = -T * G - G.T * T if form == 'metric' else G * T + T * G.T
        for i in range(n):
            for j in range(i, n):
                out[T[i, j]] = adv(T[i, j]) + S[i, j]
        return out
    if name in ('Burgers', 'burgers', 'diffusion'):
        k = Symbol('kappa') if name == 'Burgers' else Symbol('\\kappa')
        nl = 0 if name == 'diffusion' else 1
        q = T[0, 0]
        s = q if form == 'aspect' else 1 / q
        sx, sxx = D(s, x).doit(), D(s, x, 2).doit()
        Vx, Vxx, ux = D(V, x), D(V, x, 2), D(u, x)
        out[u] = rhs - nl * Vx / 2
        out[V] = nl * (-u * Vx - 2 * V * ux) + k * Vxx - k * Vx ** 2 / (2 * V) - 2 * V * k / s
        ds = (2 * k * s * Vx ** 2 / V ** 2 + k * Vx * sx / V - 2 * k * s * Vxx / V - 2 * k * sx ** 2 / s + k * sxx + 4 * k
              + nl * (-u * sx + 2 * s * ux))
        out[q] = ds if form == 'aspect' else -q ** 2 * ds
        return out
    if name == 'diffusion_in_2D':
        a, b, c = [Function('\\kappa_{%s}' % i)(x, y) for i in ('11', '12', '22')]
        K = Matrix([[a, b], [b, c]])
        out[u] = rhs
        gV = [D(V, x), D(V, y)]
        flux = sum(D(K[i, j] * gV[j], (x, y)[i]) for i in range(2) for j in range(2))
        g = T if form == 'metric' else T.inv()
        out[V] = flux - sum(K[i, j] * gV[i] * gV[j] for i in range(2) for j in range(2)) / (2 * V) - 2 * V * (K * g).trace()
        return out
    return {u: rhs - D(V, x) / 2}       # kuramoto: mean equation only


def closed(name, pkf, form):
    """the PKF system, closed as documented"""
    from sympkf import SymbolicPKF
    if name == 'Burgers':
        from sympkf.dynamics.burgers import Burgers
        if form == 'aspect':
            return Burgers.closed_pkf.in_aspect
        p = SymbolicPKF(ready_made(name))
        p.set_closure({Burgers.unclosed_term: Burgers.p18_closure['metric']})
        return p.in_metric
    if name in ('burgers', 'diffusion'):
        p = SymbolicPKF(ready_made(name))
        terms = list(p.unclosed_terms)
        require(len(terms) == 1, lambda: f'{name}: unclosed terms {terms}')
        g, s = [getattr(p.fields[list(p.fields)[0]], k)[0, 0] for k in ('metric', 'aspect')]
        p18 = 3 * g ** 2 - 2 * D(g, x, 2)
        p.set_closure({terms[0]: p18 if form == 'metric' else p18.subs(g, 1 / s).doit().expand()})
        return getattr(p, 'in_' + form)
    return getattr(pkf, 'in_' + form)


_pkf = {}


def cached(name, form):
    if (name, form) not in _pkf:
        p = tool(name)
        _pkf[name, form] = p, list(closed(name, p, form))
    return _pkf[name, form]


# ---------------------------------------------------------------- systems

def case_system():
    return st.fixed_dictionaries({'name': st.sampled_from(NAMES), 'form': st.sampled_from(['pde', 'metric', 'aspect']),
                                  'seed': st.integers(0, 10 ** 6)})


SLOW = [('diffusion_in_2D', 'aspect'), ('advection_in_3D', 'aspect')]


def case_slow():
    return st.fixed_dictionaries({'name': st.sampled_from([n for n, _ in SLOW]), 'form': st.just('aspect'),
                                  'seed': st.integers(0, 10 ** 6), 'slow': st.just(True)})


def run_system(case, rec):
    name, form = case['name'], case['form']
    if (name, form) in SLOW and not case.get('slow'):
        form = 'metric'
    rec.label(name, form)
    rec.trivial_unless(True)
    xs, fields, rhs = documented(name)
    if form == 'pde':
        eqs = list(ready_made(name))
        require(len(eqs) == 1, f'{name}: {len(eqs)} equations')
        require(eqs[0].args[0] == D(fields[0], t), lambda: f'{name}: {eqs[0]}, not an equation of {fields[0]}')
        same_values([(eqs[0].args[1], rhs[0])], xs, t, case['seed'], name)
        return
    pkf, system = cached(name, form)
    want = documented_pkf(name, pkf.fields[fields[0]], form)
    got = {e.args[0].args[0]: e.args[1] for e in system}
    pairs = []
    for f in want:
        require(f in got, lambda: f'{name} in {form}: no equation for {f}; {list(got)}')
        pairs.append((got[f], want[f]))
    require(not any(type(a).__name__ == 'Expectation' for e in got.values() for a in e.atoms(Function))
            or name in ('kuramoto', 'diffusion_in_2D'), lambda: f'{name} in {form} is not closed: {system}')
    same_values(pairs, xs, t, case['seed'], f'{name} in {form}')


# ---------------------------------------------------------------- trends of the models

def case_trend():
    return st.fixed_dictionaries({
        'name': st.sampled_from(NAMES + ['Burgers']), 'form': st.sampled_from(['pde', 'metric', 'aspect', 'aspect']),
        'seed': st.integers(0, 10 ** 6), 'L': st.lists(st.sampled_from([1.0, 2.0, 3.0]), min_size=3, max_size=3),
        'builtin': st.booleans()})


_cls = {}


def model_class(name, form):
    from sympkf.symbolic import FDModelBuilder
    if (name, form) not in _cls:
        eqs = ready_made(name) if form == 'pde' else cached(name, form)[1]
        _cls[name, form] = build_class(FDModelBuilder(eqs))
    return _cls[name, form]


def converges(make, fields, coefs, consts, rhs, xs, rng, periods, what, ns, positive=()):
    """trend of make(n, lengths, {name: value}) against the exact right-hand sides of trigonometric fields"""
    L = [2 * np.pi * l for l in periods]
    exact = {}
    for f in list(fields) + list(coefs):
        e = sympy.Float(float(rng.uniform(1.0, 1.4)))
        for _ in range(2):
            k = [int(rng.integers(-1, 2)) for _ in xs]
            ph = sum(ki * xi / sympy.Float(l) for ki, xi, l in zip(k, xs, periods)) + float(rng.uniform(0, 6))
            e += sympy.Float(float(rng.uniform(0.1, 0.25))) * sympy.sin(ph)
        exact[f] = e
    fns = {f: sympy.lambdify(xs, e, 'numpy') for f, e in exact.items()}
    syms = {c: float(rng.uniform(0.5, 1.5)) for c in consts}

    def error(n):
        h = [l / n for l in L]
        X = np.meshgrid(*[np.arange(n) * hi for hi in h], indexing='ij')
        vals = {f: fns[f](*X) + 0 * X[0] for f in fns}

        def der(d):
            e = exact[d.args[0]].diff(*[(v, m) for v, m in d.args[1:]])
            return sympy.lambdify(xs, e, 'numpy')(*X) + 0 * X[0]
        kw = {clean(c.name): v for c, v in syms.items()}
        kw.update({clean(f.func.__name__): vals[f] for f in coefs})
        with captured():
            m = make((n,) * len(xs), tuple(L), kw)
        state = np.array([vals[f] for f in fields])
        got = m.trend(0.0, state)
        require(np.shape(got) == state.shape, lambda: f'{what}: trend of shape {np.shape(got)} for a state {state.shape}')
        require(np.isfinite(got).all(), lambda: f'{what}: the trend is not finite')
        want, scale = ref_trend(rhs, 0.0, vals, {**syms, t: 0.0}, der, (n,) * len(xs))
        return np.abs(got - want).reshape(len(fields), -1).max(1), scale.reshape(len(fields), -1).max(1)
    (e1, sc), (e2, _) = error(ns[0]), error(ns[1])
    for i in range(len(fields)):
        require(e2[i] <= 0.3 * e1[i] + 1e-6 * (sc[i] + 1),
                lambda: f'{what}: the error of the trend of {fields[i]} goes from {e1[i]:.4g} with {ns[0]} points to '
                        f'{e2[i]:.4g} with {ns[1]} points')
        require(e1[i] <= 0.2 * (sc[i] + 1), lambda: f'{what}: error {e1[i]:.4g} of the trend of {fields[i]} with {ns[0]} '
                                                    f'points, terms {sc[i]:.4g}')


def run_trend(case, rec):
    name, form = case['name'], case['form']
    xs, fields, rhs = documented(name)
    if form != 'pde' and name in ('kuramoto', 'diffusion_in_2D'):
        form = 'pde'
    if name == 'advection_in_3D' and form == 'aspect':
        form = 'metric'
    rec.label(name, form)
    rec.trivial_unless(True)
    fields = list(fields)
    if form != 'pde':
        pkf, system = cached(name, form)
        want = documented_pkf(name, pkf.fields[fields[0]], form)
        fields = [e.args[0].args[0] for e in system]
        require(set(fields) == set(want), lambda: f'{name} in {form}: equations for {fields}')
        rhs = [want[f] for f in fields]
    atoms = set().union(*[r.atoms(AppliedUndef) for r in rhs])
    coefs = sorted(atoms - set(fields), key=str)
    consts = sorted(set().union(*[r.free_symbols for r in rhs]) - set(xs) - {t}, key=str)
    what = f'{name} ({form})'
    rng = np.random.default_rng(case['seed'])
    if name == 'Burgers' and form == 'aspect' and case['builtin']:
        from sympkf.dynamics.burgers import Burgers
        rec.label('Burgers(n)')

        def make(shape, lengths, kw):
            m = type(Burgers(shape[0]).model)
            return m(shape=shape, lengths=lengths, **kw)
    else:
        cls = model_class(name, form)
        require(tuple(cls.prognostic_functions) == tuple(clean(f.func.__name__) for f in fields),
                lambda: f'{what}: prognostic functions {cls.prognostic_functions}')

        def make(shape, lengths, kw):
            return cls(shape=shape, lengths=lengths, **kw)
    ns = {1: (96, 192), 2: (48, 96), 3: (24, 48)}[len(xs)]
    converges(make, fields, coefs, consts, rhs, xs, rng, case['L'][:len(xs)], what, ns)


# ---------------------------------------------------------------- forecasts

def case_forecast():
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['burgers', 'burgers', 'advection', 'diffusion', 'burgers-metric']),
        'n': st.sampled_from([81, 100, 121, 160]), 'umax': st.sampled_from([0.1, 0.25, 0.5, -0.4]),
        'lh': st.sampled_from([0.05, 0.06, 0.08]), 'kappa': st.sampled_from([0.0005, 0.001, 0.0025]),
        'std': st.sampled_from([0.001, 0.003]), 'modes': st.integers(1, 2), 'phase': st.integers(0, 100),
        'fraction': st.sampled_from([0.1, 0.25, 0.4]), 'varmod': st.sampled_from([0.0, 0.0, 0.2, 0.4]),
        'ensemble': st.booleans(), 'calls': st.sampled_from(['forecast', 'forecast', 'ensemble', 'predict'])})


def fd(v, dx, order):
    if order == 1:
        return (np.roll(v, -1) - np.roll(v, 1)) / (2 * dx)
    return (np.roll(v, -1) - 2 * v + np.roll(v, 1)) / dx ** 2


def reference(kind, coef, kappa, dx):
    """independent discretisation of the documented PKF equations, in aspect form"""
    nl = 1 if 'burgers' in kind else 0
    ka = 0 if kind == 'advection' else kappa

    def f(X):
        u, V, s = X
        ux, Vx, Vxx, sx, sxx = fd(u, dx, 1), fd(V, dx, 1), fd(V, dx, 2), fd(s, dx, 1), fd(s, dx, 2)
        w, wx = (coef, fd(coef, dx, 1)) if kind == 'advection' else (nl * u, nl * ux)
        du = -w * ux + ka * fd(u, dx, 2) - nl * Vx / 2
        dV = -w * Vx - 2 * nl * V * ux + ka * Vxx - ka * Vx ** 2 / (2 * V) - 2 * V * ka / s
        ds = (-w * sx + 2 * s * wx + 2 * ka * s * Vx ** 2 / V ** 2 + ka * Vx * sx / V - 2 * ka * s * Vxx / V
              - 2 * ka * sx ** 2 / s + ka * sxx + (4 * ka))
        return np.array([du, dV, ds])
    return f


def rk4(f, X, dt, steps):
    for _ in range(steps):
        k1 = f(X)
        k2 = f(X + dt / 2 * k1)
        k3 = f(X + dt / 2 * k2)
        k4 = f(X + dt * k3)
        X = X + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return X


def run_forecast(case, rec):
    kind, n = case['kind'], case['n']
    rec.label(kind, case['calls'], *(['ensemble'] if case['ensemble'] else []))
    rec.trivial_unless(True)
    L = 1.0
    dx = L / n
    xg = np.arange(n) * dx
    ph = case['phase'] / 100
    wave = np.cos(2 * np.pi * case['modes'] * (xg - ph))
    coef = case['umax'] * (1.0 + 0.5 * wave)
    umax = abs(case['umax']) * 1.5
    kappa = case['kappa']
    u0 = coef if 'burgers' in kind else np.sin(2 * np.pi * (xg - ph)) + 2
    V0 = case['std'] ** 2 * (1 + case['varmod'] * np.sin(2 * np.pi * xg + ph))
    s0 = np.full(n, case['lh'] ** 2)
    T = case['fraction'] / (abs(case['umax']) * 0.5 * 2 * np.pi * case['modes'])       # of the time of the front
    if kind == 'diffusion':
        T = min(T, case['fraction'] * case['lh'] ** 2 / kappa / 4)
    dt = 0.2 * min(dx / umax, dx ** 2 / (4 * kappa))
    steps = max(4, int(np.ceil(T / dt)))
    dt = T / steps
    X0 = np.array([u0, V0, s0])
    with np.errstate(all='ignore'):
        want = rk4(reference(kind, coef, kappa, dx), X0, dt, steps)
    if not (np.isfinite(want).all() and (want[1:] > 0).all()):
        raise OutOfDomain('the documented equations have no solution')
    # -- the forecast of the PKF model
    metric = kind == 'burgers-metric'
    if kind == 'burgers':
        from sympkf.dynamics.burgers import Burgers
        with captured():
            model = Burgers(n).model
        model.kappa = kappa
        require(tuple(model.shape) == (n,), lambda: f'Burgers({n}).model has shape {model.shape}')
        require(abs(model.lengths[0] - L) < 1e-12, lambda: f'Burgers({n}).model has length {model.lengths}')
    else:
        name = {'advection': 'advection', 'diffusion': 'diffusion', 'burgers-metric': 'burgers'}[kind]
        cls = model_class(name, 'metric' if metric else 'aspect')
        with captured():
            model = cls(shape=(n,), lengths=(L,), **({'u': coef} if kind == 'advection' else {'kappa': kappa}))
    X1 = X0.copy()
    if metric:
        X1[2] = 1 / X1[2]
    model.set_dt(dt)
    window = dt * np.arange(steps + 1)
    with np.errstate(all='ignore'):
        if case['calls'] == 'ensemble':
            out = model.ensemble_forecast(window, [X1, X1], parallel=False)
            got = out[window[-1]][1]
        elif case['calls'] == 'predict':
            got = model.forecast(window, X1, [window[0], window[-1]])[window[-1]]
        else:
            got = model.forecast(window, X1)[window[-1]]
    require(np.shape(got) == X0.shape, lambda: f'{kind}: forecast of shape {np.shape(got)}')
    require(np.isfinite(got).all(), lambda: f'{kind}: the forecast is not finite')
    got = np.array(got)
    if metric:
        got[2] = 1 / got[2]
    for i, nm in enumerate(['mean', 'variance', 'aspect']):
        scale = np.abs(want[i]).max()
        err = np.abs(got[i] - want[i]).max() / scale
        tol = 0.03 if metric else 0.01
        require(err <= tol, lambda: f'{kind}: the {nm} after {steps} steps differs by {err:.3g} (relative) from the '
                                    f'integration of the documented equations')
    # -- the ensemble of small errors
    if case['ensemble']:
        ensemble(case, kind, n, dx, xg, coef, kappa, u0, V0, window, dt, got)


def ensemble(case, kind, n, dx, xg, coef, kappa, u0, V0, window, dt, got):
    name = {'burgers': 'Burgers', 'burgers-metric': 'burgers'}.get(kind, kind)
    cls = model_class(name, 'pde')
    with captured():
        model = cls(shape=(n,), lengths=(1.0,), **({'u': coef} if kind == 'advection' else {'kappa': kappa}))
    model.set_dt(dt)
    d = (xg[:, None] - xg[None, :] + 0.5) % 1.0 - 0.5
    C = np.exp(-d ** 2 / (2 * case['lh'] ** 2))
    w, U = np.linalg.eigh(C)
    w = np.clip(w, 0, None)
    root = np.sqrt(V0)[:, None] * (U * np.sqrt(w))          # columns: members of an exact square root
    root = root[:, w > 1e-7 * w.max()]
    amp = np.sqrt(root.shape[1])
    h = 1e-3
    states = [np.array([u0 + h * amp * root[:, k]]) for k in range(root.shape[1])]
    states += [np.array([u0 - h * amp * root[:, k]]) for k in range(root.shape[1])]
    out = model.ensemble_forecast(window, states, [window[-1]], parallel=False)[window[-1]]
    E = np.array([o[0] for o in out])
    m = len(E) // 2
    err = (E[:m] - E[m:]) / (2 * h * amp)
    V = (err ** 2).sum(0)
    eps = err / np.sqrt(V)
    g = (((np.roll(eps, -1, 1) - np.roll(eps, 1, 1)) / (2 * dx)) ** 2).sum(0)
    e1 = np.abs(got[1] - V).max() / V.max()
    e2 = np.abs(np.sqrt(got[2] * g) - 1).max()
    require(e1 <= 0.05, lambda: f'{kind}: the forecast of variance differs by {e1:.3g} (relative) from that of an ensemble')
    require(e2 <= 0.12, lambda: f'{kind}: the forecast of length-scale differs by {e2:.3g} (relative) from that of an ensemble')


CHECKS = [
    Check('system', case_system, run_system, 80, 1500, cpu=90),
    Check('system_slow', case_slow, run_system, 0, 16, cpu=200),
    Check('trend', case_trend, run_trend, 64, 2500, cpu=90),
    Check('forecast', case_forecast, run_forecast, 64, 2500, cpu=90),
]
