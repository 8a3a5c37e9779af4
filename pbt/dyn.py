"""Random numerical dynamics for the time-integration checks (module level: they must be picklable)."""
import numpy as np
from hypothesis import strategies as st

from sympkf.model import Model
from sympkf.model.model import LinearModel


@st.composite
def trend_spec(draw, n_max=3, linear=False, time=True):
    n = draw(st.integers(1, n_max))
    q = st.sampled_from([-1.0, -0.5, 0.25, 0.5, 0.75, 1.0, 0.1])
    terms = []
    for i in range(n):
        for _ in range(draw(st.integers(0 if i else 1, 3))):
            k = draw(st.sampled_from(['lin'] if linear else ['lin', 'lin', 'quad', 'cubic', 'sin', 'free']))
            terms.append([i, k, draw(q), draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1)),
                          draw(st.sampled_from([0, 0, 1, 2, 'cos'] if time else [0]))])
    return {'n': n, 'terms': terms}


def evaluate(spec, t, u):
    u = np.asarray(u)
    out = np.zeros(u.shape, dtype=np.result_type(u.dtype, float))
    for i, k, c, a, b, p in spec['terms']:
        w = c * (np.cos(t) if p == 'cos' else t ** p)
        out[i] = out[i] + w * {'lin': lambda: u[a], 'quad': lambda: u[a] * u[b], 'cubic': lambda: u[a] * u[b] * u[i],
                               'sin': lambda: np.sin(u[a]), 'free': lambda: np.ones(u.shape[1:])}[k]()
    return out


class Poly(Model):
    def __init__(self, spec, **kw):
        super().__init__(**kw)
        self.spec = spec

    def trend(self, t, state):
        return evaluate(self.spec, t, state)


class Lin(LinearModel):
    def __init__(self, spec, **kw):
        super().__init__(**kw)
        self.spec, self.n = spec, spec['n']

    def trend(self, t, state):
        return evaluate(self.spec, t, state)


def step(scheme, f, t, u, dt):
    """the textbook schemes"""
    if scheme == 'euler':
        return u + dt * f(t, u)
    if scheme == 'rk2':
        return u + dt * f(t + dt / 2, u + dt / 2 * f(t, u))
    if scheme == 'rk4':
        k1 = f(t, u)
        k2 = f(t + dt / 2, u + dt / 2 * k1)
        k3 = f(t + dt / 2, u + dt / 2 * k2)
        k4 = f(t + dt, u + dt * k3)
        return u + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    if scheme == 'leapfrog':
        return [u[1], u[0] + 2 * dt * f(t, u[1])]
    raise ValueError(scheme)


def flow(spec, t, u, dt, degree=14):
    """exact solution over dt, from its Taylor expansion (recursive, on truncated series in the time step)"""
    n = spec['n']
    ser = [[np.asarray(u[i], float)] for i in range(n)]

    def mul(a, b, m):
        return [sum(a[j] * b[k - j] for j in range(k + 1)) for k in range(m)]
    cosr = [np.cos(t), -np.sin(t), -np.cos(t), np.sin(t)]
    fact = [1.0]
    for k in range(1, degree + 2):
        fact.append(fact[-1] * k)
    zero = np.zeros(np.shape(u)[1:])
    for m in range(1, degree + 1):
        rhs = [zero] * n
        sc = {}

        def sincos(a):
            if a not in sc:
                s, c = [np.sin(ser[a][0])], [np.cos(ser[a][0])]
                for k in range(1, m):
                    s.append(sum(j * ser[a][j] * c[k - j] for j in range(1, k + 1)) / k)
                    c.append(-sum(j * ser[a][j] * s[k - j] for j in range(1, k + 1)) / k)
                sc[a] = s
            return sc[a]
        for i, k, c, a, b, p in spec['terms']:
            tm = {'cos': lambda: [cosr[j % 4] / fact[j] for j in range(m)], 0: lambda: [1.0] + [0.0] * (m - 1),
                  1: lambda: ([t, 1.0] + [0.0] * m)[:m], 2: lambda: ([t * t, 2 * t, 1.0] + [0.0] * m)[:m]}[p]()
            v = {'lin': lambda: ser[a], 'quad': lambda: mul(ser[a], ser[b], m),
                 'cubic': lambda: mul(mul(ser[a], ser[b], m), ser[i], m), 'sin': lambda: sincos(a),
                 'free': lambda: [zero + 1.0] + [zero] * (m - 1)}[k]()
            rhs[i] = rhs[i] + c * mul(tm, v, m)[m - 1]
        for i in range(n):
            ser[i].append(rhs[i] / m)
    out = [sum(s * dt ** k for k, s in enumerate(x)) for x in ser]
    tail = max(float(np.max(np.abs(x[-1] * dt ** degree))) for x in ser)
    return np.array(out), tail
