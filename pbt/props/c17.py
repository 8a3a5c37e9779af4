"""C17  time schemes"""
import numpy as np
from hypothesis import strategies as st

from .. import dyn
from ..core import Check, OutOfDomain, Violation, require

RULE = ("Random time-dependent nonlinear trends (up to cubic, sine, forced), states (vectors and fields, some of integers), times, positive, "
        "negative and zero steps; one step of each scheme is compared with the textbook formula, and its local error with "
        "the exact flow (Taylor series of the solution) at three steps. Splittings are random lists of sub-models. "
        "Non-trivial: the trend depends on time or is nonlinear.")

ORDER = {'euler': 2, 'rk2': 3, 'rk4': 5, 'leapfrog': 3}


def state_strategy():
    return st.fixed_dictionaries({'trend': dyn.trend_spec(), 'shape': st.sampled_from([[], [3], [2, 2]]),
                                  't': st.sampled_from([0.0, 0.5, -1.0, 2.0, 10.0]), 'seed': st.integers(0, 10 ** 6),
                                  'dt': st.sampled_from([0.1, 0.5, 1.0, -0.25, -1.0, 0.0, 1e-3, 2.0]),
                                  'scheme': st.sampled_from(sorted(ORDER)),
                                  'how': st.sampled_from(['constructor', 'set', 'static']),
                                  'int': st.integers(0, 4).map(lambda k: k == 0)})


def nontrivial(spec):
    return any(k in ('quad', 'cubic', 'sin') or p for _, k, _, _, _, p in spec['terms'])


def state(case, rng):
    shape = [case['trend']['n']] + case['shape']
    return rng.integers(-2, 3, shape) if case.get('int') else rng.uniform(-1, 1, shape)


def scheme_of(case):
    if case['how'] == 'constructor':
        return dyn.Poly(case['trend'], time_scheme=case['scheme']).time_scheme
    m = dyn.Poly(case['trend'])
    if case['how'] == 'set':
        m.set_time_scheme(case['scheme'])
        return m.time_scheme
    return m.time_schemes[case['scheme']]


def run(case, rec):
    rec.label(case['scheme'], case['how'], 'backward' if case['dt'] < 0 else 'zero' if case['dt'] == 0 else 'forward')
    rec.trivial_unless(nontrivial(case['trend']))
    rng = np.random.default_rng(case['seed'])
    f = lambda t, u: dyn.evaluate(case['trend'], t, u)
    scheme, t, dt = scheme_of(case), case['t'], case['dt']
    u = state(case, rng)
    if case['scheme'] == 'leapfrog':
        v = state(case, rng)
        for states in ([u, v], (u.copy(), v.copy())):
            keep = [a.copy() for a in states]
            got = scheme(f, t, states, dt)
            require(all(np.array_equal(a, b) for a, b in zip(states, keep)), 'the input states were modified')
            want = dyn.step('leapfrog', f, t, keep, dt)
            require(len(got) == 2 and all(np.allclose(a, b, rtol=1e-12, atol=1e-12) for a, b in zip(got, want)),
                    lambda: f'leapfrog: {got}, expected {want}')
        return
    keep = u.copy()
    seen = []

    def g(t, u):
        seen.append((t, np.copy(u)))
        r = f(t, u)
        return r
    got = scheme(g, t, u, dt)
    require(np.array_equal(u, keep), 'the input state was modified')
    require(not np.shares_memory(got, u) or dt == 0, 'the new state shares the memory of the input state')
    want = dyn.step(case['scheme'], f, t, keep, dt)
    require(np.shape(got) == np.shape(want) and np.allclose(got, want, rtol=1e-12, atol=1e-12),
            lambda: f"{case['scheme']}: {got}, expected {want}")
    if dt == 0:
        require(np.array_equal(got, keep), 'a zero step changes the state')
    require(np.array_equal(scheme(f, t, u, dt), got), 'the scheme gives another state at the second call')
    # a trend which is the state itself (no copy)
    same = scheme(lambda t, u: u, t, u, dt)
    require(np.array_equal(u, keep), 'the input state was modified (trend u)')
    want = dyn.step(case['scheme'], lambda t, u: u * 1, t, keep, dt)
    require(np.allclose(same, want, rtol=1e-12, atol=1e-12), lambda: f"{case['scheme']}: {same}, expected {want} with the trend u")
    # a trend that allocates nothing new but reads the state given: the state given to the trend is not modified later
    before = [(a, b.copy()) for a, b in seen]
    require(all(np.array_equal(a[1], b[1]) for a, b in zip(seen, before)), 'states given to the trend')


def run_order(case, rec):
    rec.label(case['scheme'])
    rec.trivial_unless(nontrivial(case['trend']))
    rng = np.random.default_rng(case['seed'])
    f = lambda t, u: dyn.evaluate(case['trend'], t, u)
    scheme, t = scheme_of(case), case['t']
    if abs(t) > 2:
        raise OutOfDomain('far time')
    u = state(case, rng)
    sign = -1 if case['dt'] < 0 else 1
    p = ORDER[case['scheme']]
    h0 = {2: 2e-3, 3: 5e-3, 5: 2e-2}[p]
    r, e = [], []
    for k in range(3):
        h = sign * h0 / 2 ** k
        exact, tail = dyn.flow(case['trend'], t, u, h)
        if tail > 1e-16:
            raise OutOfDomain('the series of the solution does not converge')
        if case['scheme'] == 'leapfrog':
            old, tail = dyn.flow(case['trend'], t, u, -h)
            got = scheme(f, t, [old, u], h)[1]
        else:
            got = scheme(f, t, u, h)
        e.append((got - exact) / abs(h) ** p)
        r.append(float(np.max(np.abs(e[-1]))))
    noise = 3e-15 / (h0 / 4) ** p
    # the error / h^p is a + b h + c h^2 + ...: it may grow (from a zero of this polynomial), but then its differences do not
    d = [float(np.max(np.abs(b - a))) for a, b in zip(e[:-1], e[1:])]
    require(r[2] <= 1.4 * max(r[:2]) + noise or d[1] <= 1.2 * d[0] + noise, lambda: f"{case['scheme']}: local error / h^{p} is {r} at three halved steps")


@st.composite
def splitting(draw):
    n = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(['euler', 'rk2', 'rk4', 'update', 'nested']))
        spec = draw(dyn.trend_spec().filter(lambda s: True))
        spec = {'n': n, 'terms': [[i % n, k, c, a % n, b % n, p] for i, k, c, a, b, p in spec['terms']]}
        steps.append([kind, spec])
    return {'n': n, 'steps': steps, 't': draw(st.sampled_from([0.0, 0.5, -1.0])), 'dt': draw(st.sampled_from([0.1, 0.5, -0.25, 0.0])),
            'seed': draw(st.integers(0, 10 ** 6)), 'whole': draw(st.booleans())}


def run_splitting(case, rec):
    from sympkf.model import Model
    rec.label(*[k for k, _ in case['steps']])
    rec.trivial_unless(len(case['steps']) > 1)
    schemes = Model().time_schemes
    rng = np.random.default_rng(case['seed'])
    u = rng.uniform(-1, 1, (case['n'], 3))
    fs = [lambda t, u, s=s: dyn.evaluate(s, t, u) for _, s in case['steps']]

    def update(f):
        return lambda t, u, dt: u * np.cos(dt) + dt * f(t, u)
    tr = []
    for (kind, _), f in zip(case['steps'], fs):
        if kind == 'update':
            tr.append({'update': update(f)})
        elif kind == 'nested':
            tr.append({'trend': [{'trend': f, 'scheme': schemes['rk2']}, {'update': update(f)}], 'scheme': schemes['splitting']})
        else:
            tr.append({'trend': f, 'scheme': schemes[kind]})
    t, dt = case['t'], case['dt']

    def ref(u, t, dt):
        for (kind, _), f in zip(case['steps'], fs):
            if kind == 'update':
                u = update(f)(t, u, dt)
            elif kind == 'nested':
                u = update(f)(t, dyn.step('rk2', f, t, u, dt), dt)
            else:
                u = dyn.step(kind, f, t, u, dt)
        return u
    keep = u.copy()
    size = [sorted(d) for d in tr]
    if case['whole']:
        class M(Model):
            trend = tr
        m = M(time_scheme='splitting')
        times = [t, t + dt, t + 3 * dt] if dt else [t, t]
        traj = m.forecast(times, u)
        want = u
        for a, b in zip(times[:-1], times[1:]):
            want = ref(want, a, b - a)
        got = traj[times[-1]]
    else:
        got = schemes['splitting'](tr, t, u, dt)
        want = ref(keep, t, dt)
    if not np.all(np.abs(want) < 1e4):
        raise OutOfDomain('blow-up')
    require(np.array_equal(u, keep) and size == [sorted(d) for d in tr], 'the input was modified')
    require(np.allclose(got, want, rtol=1e-11, atol=1e-12), lambda: f'splitting: {got}, expected {want}')


CHECKS = [
    Check('formula', state_strategy, run, 900, 40000, cpu=20),
    Check('order', state_strategy, run_order, 500, 20000, cpu=20),
    Check('splitting', splitting, run_splitting, 300, 12000, cpu=20),
]
