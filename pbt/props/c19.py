"""C19  tangent-linear forecasts and propagators"""
import numpy as np
from hypothesis import strategies as st

from .. import dyn
from ..core import Check, OutOfDomain, require
from .c18 import saved, the_saved, the_window, window

RULE = ("Random nonlinear and linear time-dependent dynamics, windows, saved times, states and perturbations. Oracle: the "
        "derivative of the textbook time scheme along the trajectory, by complex-step differentiation (exact to rounding), "
        "with the bound of the finite perturbation; for linear models, the forecast of each state. Non-trivial: at "
        "least two variables or a nonlinear trend.")


def strategy():
    return st.fixed_dictionaries({
        'trend': dyn.trend_spec(), 'w': window(), 'saved': saved(), 'seed': st.integers(0, 10 ** 6),
        'scheme': st.sampled_from(['rk4', 'rk4', 'euler', 'rk2']), 'shape': st.sampled_from([[], [3]]),
        'h': st.sampled_from([None, 1e-4, 1e-5, 1e-6]), 'size': st.integers(1, 4), 'as': st.sampled_from(['list', 'array', 'generator']),
        'scales': st.lists(st.sampled_from([1, 1, 1, 1e-2, 1e-4, 1e-6, 0]), min_size=4, max_size=4)})


def derivative(spec, scheme, w, u, p):
    """derivative of the forecast in the direction p, and a bound of the second one"""
    f = lambda t, u: dyn.evaluate(spec, t, u)

    def go(u):
        out = [u]
        for a, b in zip(w[:-1], w[1:]):
            out.append(dyn.step(scheme, f, a, out[-1], b - a))
        return out
    d1 = [x.imag / 1e-30 for x in go(u + 1e-30j * p)]
    e = 1e-2
    up, dn, mid = go(u + e * p), go(u - e * p), go(u)
    d2 = [np.max(np.abs(a + b - 2 * c)) / e ** 2 for a, b, c in zip(up, dn, mid)]
    if not all(np.all(np.abs(x) < 50) for x in d1 + mid + up + dn) or max(d2) > 200:
        raise OutOfDomain('blow-up')
    return dict(zip(w, d1)), dict(zip(w, d2)), dict(zip(w, mid))


def run(case, rec):
    rng = np.random.default_rng(case['seed'])
    w = the_window(case['w'])
    ws = [float(t) for t in case['w']['w']]
    arg, want_times = the_saved(case['saved'], ws)
    if case['saved']['kind'] == 'with-others':
        arg = list(want_times)
    spec = case['trend']
    rec.label(case['w']['kind'], case['saved']['kind'], case['as'], f"h={case['h']}")
    rec.trivial_unless(spec['n'] > 1 or any(k in ('quad', 'cubic', 'sin') for _, k, *_ in spec['terms']))
    shape = [spec['n']] + case['shape']
    u = rng.uniform(-0.7, 0.7, shape)
    scales = case.get('scales', [1] * 4)[:case['size']]
    ps = [rng.uniform(-1, 1, shape) * s for s in scales]
    rec.label(*[f'perturbation {s:g}' for s in scales])
    # the derivative and the bound of the second one are homogeneous
    refs = [derivative(spec, case['scheme'], ws, u, p / (s or 1)) for p, s in zip(ps, scales)]
    keep, pkeep = u.copy(), [p.copy() for p in ps]
    given = {'list': lambda: ps, 'array': lambda: np.array(ps), 'generator': lambda: (p for p in ps)}[case['as']]()
    m = dyn.Poly(spec, time_scheme=case['scheme'])
    kw = {} if case['h'] is None else {'h': case['h']}
    h = case['h'] or 1e-4
    if arg is not None:
        kw['saved_times'] = arg
    ref, tl = m.forecast_tl(w, u, given, **kw)
    require(np.array_equal(u, keep) and all(np.array_equal(a, b) for a, b in zip(ps, pkeep)), 'the inputs were modified')
    require(sorted(ref) == sorted(want_times), lambda: f'reference trajectory at {sorted(ref)}')
    for t in want_times:
        require(np.allclose(ref[t], refs[0][2][t], rtol=1e-10, atol=1e-10), lambda: f'reference at {t}: {ref[t]}')
        require(len(tl[t]) == len(ps), lambda: f'{len(tl[t])} perturbations at {t}, expected {len(ps)}')
        for k, ((d1, d2, _), s) in enumerate(zip(refs, scales)):
            tol = 2 * h * s ** 2 * (d2[t] + 0.05 * d2[t] + 1e-3) + 2e-13 / h
            err = np.max(np.abs(np.asarray(tl[t][k]) - s * d1[t]))
            require(err <= tol, lambda: f'perturbation {k} at {t} (h={h}): {tl[t][k]}, derivative of the forecast {s * d1[t]} (bound {tol:.2g})')


def strategy_m():
    return st.fixed_dictionaries({
        'trend': dyn.trend_spec(n_max=6, linear=True), 'w': window(), 'seed': st.integers(0, 10 ** 6),
        'scheme': st.sampled_from(['rk4', 'rk4', 'euler', 'rk2'])})


def run_m(case, rec):
    rng = np.random.default_rng(case['seed'])
    w = the_window(case['w'])
    ws = [float(t) for t in case['w']['w']]
    spec = case['trend']
    n = spec['n']
    rec.label(f'n{n}', case['scheme'], case['w']['kind'])
    rec.trivial_unless(n > 1 and len(ws) > 1 and any(i != a for i, _, _, a, _, _ in spec['terms']))
    m = dyn.Lin(spec, time_scheme=case['scheme'])
    M = np.asarray(m.make_M(w))
    require(M.shape == (n, n), lambda: f'shape of the propagator {M.shape}')
    for _ in range(2):
        x = rng.uniform(-1, 1, n)
        want = m.forecast(ws, x)[ws[-1]]
        f = lambda t, u: dyn.evaluate(spec, t, u)
        ref = x
        for a, b in zip(ws[:-1], ws[1:]):
            ref = dyn.step(case['scheme'], f, a, ref, b - a)
        require(np.allclose(want, ref, rtol=1e-10, atol=1e-10), 'forecast')
        require(np.allclose(M @ x, ref, rtol=1e-9, atol=1e-9), lambda: f'M x = {M @ x}, forecast of x = {ref}')
    # the same model over another window of the same bounds, then with another scheme
    first = M.copy()
    fine = [ws[0]] if len(ws) == 1 else [t for a, b in zip(ws[:-1], ws[1:]) for t in (a, (a + b) / 2)] + [ws[-1]]
    for scheme in (case['scheme'], 'euler'):
        m.set_time_scheme(scheme)
        M2 = np.asarray(m.make_M(fine))
        ref = x
        for a, b in zip(fine[:-1], fine[1:]):
            ref = dyn.step(scheme, f, a, ref, b - a)
        require(np.allclose(M2 @ x, ref, rtol=1e-9, atol=1e-9), lambda: f'over {fine} ({scheme}): M x = {M2 @ x}, forecast of x = {ref}')
    require(np.array_equal(M, first), 'the first propagator was modified')
    m.set_time_scheme(case['scheme'])
    X = rng.uniform(-1, 1, (n,))
    _, tl = m.forecast_tl(w, x, [X], saved_times=[ws[-1]])
    require(np.allclose(tl[ws[-1]][0], M @ X, rtol=1e-6, atol=1e-8), 'the tangent-linear forecast of a linear model is not its propagator')


CHECKS = [
    Check('tangent', strategy, run, 240, 6000, cpu=60),
    Check('propagator', strategy_m, run_m, 160, 4000, cpu=60),
]
