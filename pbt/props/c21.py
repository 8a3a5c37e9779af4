"""C21  Gaussian closures"""
from fractions import Fraction as Q
from math import factorial

import mpmath
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Symbol

from .. import models
from ..core import Check, Violation, require
from ..sem import Env, Jet, NeedFloat, Poly, Stream, Uninterpretable, close, jet_inv, _fun

RULE = ("Random fields (1-3 coordinates, names in LaTeX) and histories of requests (closures and Taylor expansions at "
        "random orders, in metric or not, the answers being altered by the user in between). Each value is evaluated at "
        "random smooth tensors and compared with the derivative at zero separation of the correlation function, computed "
        "with truncated power series. Non-trivial: order at least two.")
ASSUMPTIONS = ["heterogeneous closures in one dimension (sympy's series do not end in several dimensions), local "
               "Gaussian closures in one to three dimensions"]


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(['het', 'het', 'loc', 'loc', 'loc']))
    dim = 1 if kind == 'het' else draw(st.sampled_from([1, 2, 2, 3]))
    top = {('het', 1): 4, ('loc', 1): 8, ('loc', 2): 6, ('loc', 3): draw(st.sampled_from([3, 3, 4]))}[kind, dim]
    reqs = draw(st.lists(st.tuples(st.sampled_from(['closure_by_order', 'closure', 'taylor', 'in_metric_by_order', 'in_metric_by_order']),
                                   st.integers(0, top), st.booleans()).map(list), min_size=1, max_size=4))
    return {'kind': kind, 'dim': dim, 'names': draw(st.permutations(draw(st.sampled_from(models.COORDS))[:dim])),
            'field': draw(st.sampled_from(['u', 'T', '\\theta', 'q_{0}', 'c_0', 'U'])), 'asfield': draw(st.booleans()),
            'reqs': reqs, 'seed': draw(st.integers(0, 10 ** 6))}


class Reference:
    """Taylor coefficients in the separation d of the correlation rho(x, x+d) at random smooth tensors"""

    def __init__(self, case, mf, x, t, seed, kmax):
        self.dim, self.k = len(x), kmax
        n = self.dim
        s = Stream(seed)
        mp = self.mp = True
        self.ids = {}
        # a diagonally dominant tensor: diagonal around 2, off-diagonal around 1/4
        tens = {}
        for i in range(n):
            for j in range(i, n):
                p = Poly(n, kmax + 1, s.fork(), mp, c0=Q(2 + s.int(0, 3), 1) if i == j else Q(1, 4 + s.int(0, 3)))
                tens[i, j] = tens[j, i] = p
        self.x, self.t = x, t
        self.tens = tens
        point = {v: s.rational(2, 2) for v in x}
        self.point = point
        self.axes = {v: i for i, v in enumerate(x)}

    def jet(self, p, k):
        return p(k)

    def separation(self, i, k):
        a = [0] * (self.dim + 1)
        a[i] = 1
        return Jet({tuple(a): mpmath.mpf(1)}, k, self.dim)

    def local(self, g):
        """exp(-1/2 d.g.d): g constant matrix of values"""
        q = None
        for i in range(self.dim):
            for j in range(self.dim):
                v = (self.separation(i, self.k) * self.separation(j, self.k)).scale(-g[i][j] / 2)
                q = v if q is None else q + v
        return _fun('exp', q)

    def heterogeneous(self, sx, sy):
        """1D: sx value, sy jet in the separation"""
        tot = sy + sx
        norm = sy.pow(Q(1, 4)).scale(sx ** mpmath.mpf('0.25')) * tot.scale(mpmath.mpf('0.5')).pow(Q(-1, 2))
        d = self.separation(0, self.k)
        return norm * _fun('exp', -(d * d * jet_inv(tot)))


def alphas(dim, n):
    if dim == 1:
        return [(n,)]
    return [(i,) + r for i in range(n + 1) for r in alphas(dim - 1, n - i)]


def run(case, rec):
    with mpmath.workdps(60):
        _run(case, rec)


def _run(case, rec):
    from sympkf.symbolic.constants import t
    from sympkf.symbolic.pkfcas import Closure, Field, LocGaussianClosure
    from sympkf.symbolic.random import Expectation
    x = tuple(Symbol(n) for n in case['names'])
    dim = len(x)
    u = Function(case['field'])(t, *x)
    mf = Field(u)
    cls = {'het': Closure, 'loc': LocGaussianClosure}[case['kind']]
    c = cls(Field(u) if case['asfield'] else u)
    top = max(o for _, o, _ in case['reqs'])
    rec.label(case['kind'], f'dim{dim}', f'order{top}', f"requests{len(case['reqs'])}")
    rec.trivial_unless(top >= 2)
    eps = mf.epsilon
    term = {}
    for o in range(top + 1):
        for a in alphas(dim, o):
            vc = [(v, n) for v, n in zip(x, a) if n]
            term[a] = Expectation(eps * sympy.diff(eps, *vc) if vc else eps * eps)
    ref = Reference(case, mf, x, t, case['seed'], top)
    axes, point = ref.axes, ref.point
    two = range(dim)
    metric = lambda i, j: mf.metric_func(i, j)
    aspect = lambda i, j: mf.aspect_func(i, j)

    def environment(which, polys):
        fields = {}
        for i in two:
            for j in range(i, dim):
                fields[which(i, j)] = polys[i, j]
                fields[which(j, i)] = polys[i, j]
        return Env(dim, axes, point, time=t, fields=fields, mp=True)

    def value(env, e, what):
        try:
            return env.value(sympy.sympify(e))
        except Uninterpretable as err:
            raise Violation(f'{what}: {err}: {str(e)[:400]}') from err

    g0 = [[ref.tens[i, j](0).c0 for j in two] for i in two]
    if case['kind'] == 'loc':
        env_of = {False: environment(metric, ref.tens), True: environment(metric, ref.tens)}
        rho = {False: ref.local(g0), True: ref.local(g0)}
    else:
        s = ref.tens[0, 0]
        # metric: g is the random field, s = 1/g
        k = top + 1
        inv = jet_inv(s(k + 2))

        class Inverse:
            def __call__(self, k, w=None):
                return jet_inv(s(k))
        env_of = {False: environment(aspect, {(0, 0): s}), True: environment(metric, {(0, 0): s})}
        rho = {False: ref.heterogeneous(s(0).c0, s(top)), True: ref.heterogeneous(1 / s(0).c0, jet_inv(s(top)))}

    def expected(a, in_metric):
        v = rho[in_metric].c.get(tuple(a) + (0,), mpmath.mpf(0))
        for n in a:
            v = v * factorial(n)
        if case['kind'] == 'het' and in_metric and sum(a) == 2:
            v = -s(0).c0       # by definition of the metric
        return v

    def judge(d, order, in_metric, what):
        got = dict(d)
        want = {term[a]: a for o in range(order + 1) for a in alphas(dim, o)}
        require(set(got) == set(want), lambda: f'{what}: values for {sorted(map(str, got))[:8]}, expected {sorted(map(str, want))[:8]}')
        for k, a in want.items():
            v, w = value(env_of[in_metric], got[k], what), expected(a, in_metric)
            require(close(v, w, True), lambda: f'{what}: {k} = {str(got[k])[:300]} has value {mpmath.nstr(v, 15)}, derivative {a} of the correlation: {mpmath.nstr(w, 15)}')

    history = []
    for how, order, spoil in case['reqs']:
        what = f"{cls.__name__}.{how}({order}) after {history}"
        history.append(f'{how}({order})')
        if how == 'taylor':
            e = c.taylor(order)
            dx = [Symbol('d' + v.name) for v in x]
            e = sympy.expand(e)
            for o in range(order):
                for a in alphas(dim, o):
                    co = e
                    for v, n in zip(dx, a):
                        co = sympy.sympify(co).coeff(v, n)
                    f = mpmath.mpf(1)
                    for n in a:
                        f = f * factorial(n)
                    v, w = value(env_of[False], co, what), expected(a, False) / f
                    require(close(v, w, True), lambda: f'{what}: coefficient {a} of {str(e)[:300]} has value {v}, expected {w}')
            continue
        if how == 'in_metric_by_order' and order < 2:
            continue            # the metric is the term of order two
        res = getattr(c, how)(order)
        if how == 'closure':
            judge(res, order, False, what)
        else:
            require(sorted(res) == list(range(order + 1)), lambda: f'{what}: orders {sorted(res)}')
            flat = {}
            for o in res:
                n = len(flat)
                flat.update(res[o])
                require(len(flat) == n + len(alphas(dim, o)), lambda: f'{what}: {len(res[o])} terms of order {o}')
            judge(flat, order, how == 'in_metric_by_order', what)
        if spoil:              # the user alters the answer
            for v in list(res):
                if isinstance(res[v], dict):
                    for kk in list(res[v]):
                        res[v][kk] = Symbol('altered')
                else:
                    res[v] = Symbol('altered')


def strategy_corr():
    return st.fixed_dictionaries({'dim': st.sampled_from([1, 1, 2]), 'names': st.sampled_from(models.COORDS), 'seed': st.integers(0, 10 ** 6),
                                  'field': st.sampled_from(['u', '\\theta', 'q_{0}'])})


def run_corr(case, rec):
    """the correlation functions are the documented ones"""
    from sympkf.symbolic.constants import t
    from sympkf.symbolic.pkfcas import Closure, Field, LocGaussianClosure
    dim = case['dim']
    x = tuple(Symbol(n) for n in case['names'][:dim])
    u = Function(case['field'])(t, *x)
    mf = Field(u)
    rec.label(f'dim{dim}')
    rec.trivial_unless(True)
    s = Stream(case['seed'])
    px, py = [s.rational(2, 3) for _ in x], [s.rational(2, 3) for _ in x]
    m = mpmath.mp.clone() if False else mpmath

    def tensor():
        return [[None] * dim for _ in x]

    def spd():
        a = tensor()
        for i in range(dim):
            for j in range(i, dim):
                a[i][j] = a[j][i] = Q(2 + s.int(0, 3)) if i == j else Q(1, 3 + s.int(0, 3))
        return sympy.Matrix(dim, dim, lambda i, j: sympy.Rational(a[i][j].numerator, a[i][j].denominator))
    tx, ty = spd(), spd()
    rx, ry = [sympy.Matrix([sympy.Rational(q.numerator, q.denominator) for q in p]) for p in (px, py)]

    def at(e, mat):
        """values of the tensor functions at the two points"""
        sub = {}
        for p, val in ((rx, tx), (ry, ty)):
            for i in range(dim):
                for j in range(dim):
                    sub[mat[i, j].subs(dict(zip(x, p)))] = val[i, j]
        return sympy.N(sympy.sympify(e).xreplace(sub), 30)
    d = rx - ry
    same = list(px) == list(py)
    args = (tuple(rx), tuple(ry))

    def check(got, want, what):
        if same:
            return
        require(got.is_number and abs(got - sympy.N(want, 30)) < 1e-20, lambda: f'{what}: {got}, expected {sympy.N(want, 15)}')
    norm = lambda a, b: (a.det() * b.det()) ** sympy.Rational(1, 4) / ((a + b) / 2).det() ** sympy.Rational(1, 2)
    c, l = Closure(u), LocGaussianClosure(u)
    check(at(c.correlation(*args), mf.aspect), norm(tx, ty) * sympy.exp(-(d.T * (tx + ty).inv() * d)[0]), 'Closure.correlation')
    check(at(c.correlation_in_diffusion(*args), mf.diffusion), norm(tx, ty) * sympy.exp(-(d.T * (tx + ty).inv() * d)[0] / 2),
          'correlation_in_diffusion')
    check(at(l.correlation(*args), mf.metric), sympy.exp(-(d.T * tx * d)[0] / 2), 'LocGaussianClosure.correlation')
    check(at(l.correlation(*args, metric=False), mf.aspect), sympy.exp(-(d.T * tx.inv() * d)[0] / 2), 'LocGaussianClosure.correlation(metric=False)')


CHECKS = [
    Check('closure', strategy, run, 120, 4000, cpu=90),
    Check('correlation', strategy_corr, run_corr, 80, 3000, cpu=60),
]
