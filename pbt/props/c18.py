"""C18  forecasts and ensembles"""
import numpy as np
from hypothesis import strategies as st

from .. import dyn
from ..core import Check, OutOfDomain, Violation, require

RULE = ("Random dynamics, schemes, windows (uniform, irregular, backward, a single instant; lists, tuples, arrays), saved "
        "times (none, one, any subset in any order, arrays) and ensembles (lists, arrays, generators; serial and with "
        "several processes); every state is compared with step-by-step application of the textbook scheme. Non-trivial: "
        "at least two steps.")


@st.composite
def window(draw):
    t0 = draw(st.sampled_from([0.0, 0.5, -1.0, 3.0, 0.0, 0.5, 40.0]))
    kind = draw(st.sampled_from(['uniform', 'irregular', 'backward', 'single']))
    n = 1 if kind == 'single' else draw(st.integers(2, 8))
    steps = draw(st.lists(st.sampled_from([0.05, 0.1, 0.2, 0.3, 0.002]), min_size=n, max_size=n))
    if kind == 'uniform':
        steps = [steps[0]] * n
    if kind == 'backward':
        steps = [-s for s in steps]
    w = [t0]
    for s in steps[1:]:
        w.append(w[-1] + s)
    return {'kind': kind, 'w': w, 'as': draw(st.sampled_from(['list', 'tuple', 'array']))}


def saved():
    return st.fixed_dictionaries({'kind': st.sampled_from(['all', 'one', 'subset', 'last', 'array', 'set', 'with-others', 'npfloat']),
                                  'pick': st.lists(st.integers(0, 7), min_size=0, max_size=8)})


def strategy():
    return st.fixed_dictionaries({
        'trend': dyn.trend_spec(), 'w': window(), 'saved': saved(), 'seed': st.integers(0, 10 ** 6),
        'scheme': st.sampled_from(['rk4', 'rk4', 'euler', 'rk2', 'leapfrog']), 'shape': st.sampled_from([[], [3]]),
        'split': st.integers(0, 7), 'int': st.integers(0, 5).map(lambda k: k == 0),
        'complex': st.integers(0, 4).map(lambda k: k == 0)})


def the_window(spec):
    return {'list': list, 'tuple': tuple, 'array': np.array}[spec['as']](spec['w'])


def the_saved(spec, w):
    w = list(w)
    picked = list(dict.fromkeys(w[i % len(w)] for i in spec['pick']))
    k = spec['kind']
    if k == 'all':
        return None, w
    if k in ('one', 'npfloat'):
        t = picked[0] if picked else w[0]
        return (float(t) if k == 'one' else np.float64(t)), [t]
    if k == 'last':
        return [w[-1]], [w[-1]]
    if k == 'with-others':
        return picked + [1e3, -1e3], picked
    if k == 'set':
        return set(picked), picked
    return (np.array(picked) if k == 'array' else picked), picked


def trajectory(spec, scheme, w, u):
    f = lambda t, u: dyn.evaluate(spec, t, u)
    out = [u]
    for a, b in zip(w[:-1], w[1:]):
        out.append(dyn.step(scheme, f, a, out[-1], b - a))
        if not np.all(np.abs(out[-1]) < 1e3):
            raise OutOfDomain('blow-up')
    return dict(zip(w, out))


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-10, equal_nan=True)


def init(case, rng):
    u = rng.uniform(-0.8, 0.8, [case['trend']['n']] + case['shape'])
    if case.get('int'):
        u = np.sign(u).astype(int)
    elif case.get('complex'):
        u = u + 1j * rng.uniform(-0.8, 0.8, u.shape)
    if case['scheme'] == 'leapfrog':
        return np.array([u, u + 0.01])
    return u


def run(case, rec):
    rng = np.random.default_rng(case['seed'])
    w = the_window(case['w'])
    ws = [float(t) for t in case['w']['w']]
    rec.label(case['w']['kind'], case['saved']['kind'], case['scheme'], 'complex' if case.get('complex') else 'real')
    rec.trivial_unless(len(ws) > 2)
    arg, want_times = the_saved(case['saved'], ws)
    u = init(case, rng)
    keep, wkeep = u.copy(), list(w)
    m = dyn.Poly(case['trend'], time_scheme=case['scheme'])
    full = trajectory(case['trend'], case['scheme'], ws, keep)
    args = [u] if arg is None and case['seed'] % 2 else [u, arg]
    akeep = list(arg) if isinstance(arg, (list, set, np.ndarray)) else arg
    got = m.forecast(w, *args)
    require(sorted(got) == sorted(want_times), lambda: f'forecast at {sorted(got)}, asked {sorted(want_times)}')
    for t in got:
        require(same(got[t], full[t]), lambda: f'forecast at {t}: {got[t]}, step by step: {full[t]}')
    require(np.array_equal(u, keep) and list(w) == wkeep, 'the initial state or the window was modified')
    require(arg is None or (list(arg) if isinstance(arg, (list, set, np.ndarray)) else arg) == akeep, 'saved_times was modified')
    p = m.predict(w, *args)
    want = [full[t] for t in ws if t in want_times]
    require(isinstance(p, np.ndarray) and len(p) == len(want) and all(same(a, b) for a, b in zip(p, want)),
            lambda: f'predict: {p}, expected {want}')
    require(np.array_equal(u, keep), 'the initial state was modified by predict')
    # the whole trajectory, and in two pieces
    whole = m.forecast(w, u)
    require(same(whole[ws[0]], keep), 'the trajectory does not start from the initial condition')
    i = case['split'] % len(ws)
    one = m.forecast(ws[:i + 1], u)
    two = m.forecast(ws[i:], one[ws[i]])
    require(all(same({**one, **two}[t], whole[t]) for t in ws), 'two half windows and one window give different states')
    again = m.forecast(w, u)
    require(all(np.array_equal(np.asarray(again[t]), np.asarray(whole[t]), equal_nan=True) for t in ws), 'a second forecast differs')


def strategy_ens():
    return st.fixed_dictionaries({
        'trend': dyn.trend_spec(), 'w': window(), 'saved': saved(), 'seed': st.integers(0, 10 ** 6),
        'scheme': st.sampled_from(['rk4', 'rk4', 'euler', 'rk2']), 'shape': st.sampled_from([[], [3]]),
        'size': st.integers(0, 12), 'as': st.sampled_from(['list', 'array', 'generator', 'tuple']),
        'parallel': st.sampled_from([True, False, None]), 'complex': st.integers(0, 4).map(lambda k: k == 0), 'nb_pool': st.sampled_from([1, 2, 3])})


def run_ens(case, rec):
    rng = np.random.default_rng(case['seed'])
    w = the_window(case['w'])
    ws = [float(t) for t in case['w']['w']]
    arg, want_times = the_saved(case['saved'], ws)
    rec.label(case['as'], f"parallel={case['parallel']}", case['saved']['kind'])
    rec.trivial_unless(case['size'] > 1 and len(ws) > 1)
    states = [init(case, rng) for _ in range(case['size'])]
    keep = [s.copy() for s in states]
    given = {'list': lambda: list(states), 'array': lambda: np.array(states), 'generator': lambda: (s for s in states),
             'tuple': lambda: tuple(states)}[case['as']]()
    m = dyn.Poly(case['trend'], time_scheme=case['scheme'])
    kw = {} if case['parallel'] is None else {'parallel': case['parallel']}
    if case['parallel'] is not False:
        kw['nb_pool'] = case['nb_pool']
    got = m.ensemble_forecast(w, given, arg, **kw) if arg is not None else m.ensemble_forecast(w, given, **kw)
    for t in want_times:
        require(t in got, lambda: f'no ensemble at {t}: {sorted(got)}')
        require(len(got[t]) == case['size'], lambda: f'{len(got[t])} members at {t}, expected {case["size"]}')
    require(all(not len(got[t]) for t in got if t not in want_times), 'members at instants which are not in the window')
    for k, s in enumerate(keep):
        full = trajectory(case['trend'], case['scheme'], ws, s)
        for t in want_times:
            require(same(got[t][k], full[t]), lambda: f'member {k} at {t}: {got[t][k]}, alone: {full[t]}')
    require(all(np.array_equal(a, b) for a, b in zip(states, keep)), 'the initial states were modified')


def strategy_window():
    return st.fixed_dictionaries({'start': st.sampled_from([None, 0.0, 1.0, -2.0, 0.3]), 'n': st.integers(0, 2000),
                                  'dt': st.sampled_from([0.1, 0.01, 1.0, 0.25, 1 / 3, 0.7, 1e-3, 60.0, 1]),
                                  'rest': st.sampled_from([0, 0, 0, 0.5, 0.6]), 'seed': st.integers(0, 9)})


def run_window(case, rec):
    from sympkf.model import IdentityModel
    rec.trivial_unless(case['n'] > 1)
    rec.label('multiple' if not case['rest'] else 'not-multiple')
    m = IdentityModel()
    m.set_dt(case['dt'])
    require(m.dt == case['dt'], 'dt')
    start = case['start'] or 0.0
    end = start + case['dt'] * (case['n'] + case['rest'])
    w = np.asarray(m.window(end) if case['start'] is None else m.window(end, start))
    want = start + case['dt'] * np.arange(case['n'] + 1)
    require(w.shape == want.shape and np.allclose(w, want, rtol=1e-9, atol=1e-9 * case['dt']),
            lambda: f"window({end}, {start}) with dt={case['dt']}: {len(w)} instants {w[:3]}..{w[-3:]}, expected {len(want)}")
    if case['n'] <= 50:
        u = np.arange(4.0).reshape(2, 2)
        f = m.forecast(w, u)
        require(len(f) == len(w) and all(np.array_equal(v, u) for v in f.values()), 'the identity model changes the state')


CHECKS = [
    Check('forecast', strategy, run, 900, 30000, cpu=30),
    Check('ensemble', strategy_ens, run_ens, 240, 6000, cpu=60),
    Check('window', strategy_window, run_window, 240, 8000, cpu=20),
]
