"""Reference model of the parametric-Kalman-filter dynamics.

From concrete random fields, the quantities a PKF system speaks of (mean, variance, normalised
error, metric/aspect/diffusion tensors, cross-covariances) and their exact time derivatives are
computed from their *definitions*:

  e = sigma*eps, V = E[e^2], V12 = E[e1 e2], g_ij = E[d_i eps d_j eps], s = g^-1, nu = s/2,
  mean trend  = E of the 2nd-order Taylor expansion of the dynamics about the mean,
  error trend = 1st-order (tangent-linear) term of that expansion.
"""
from fractions import Fraction as Q

import mpmath

from .sem import (OMEGA, Cached, Env, Jet, Poly, Stream, UnitRandom, average, jet_inv, mat_inv,
                  mat_mul, to_num)


class Reference:
    def __init__(self, built, seed, mp=False, positive_mean=False, eps_degree=2):
        self.b, self.mp = built, mp
        n = self.n = built.dim
        st = Stream(seed)
        self.coords = {x: i for i, x in enumerate(built.x)}
        self.point = {x: st.rational(2, 2) for x in built.x}
        self.symbols = {c: st.rational(3, 2, nonzero=True) for c in built.consts}
        self.det = {}
        for f in built.cfuns + built.xfuns:
            self.det[f] = Poly(n, 5 if n == 1 else 3, st.fork(), mp)
        self.mean, self.std, self.eps = {}, {}, {}
        for f in built.fields:
            c0 = abs(st.rational(3, 2, nonzero=True)) if positive_mean else None
            self.mean[f] = Poly(n, 6 if n == 1 else 4, st.fork(), mp, c0=c0)
            self.std[f] = Poly(n, 6 if n == 1 else 4, st.fork(), mp,
                               c0=abs(st.rational(3, 2, nonzero=True)))
            self.eps[f] = UnitRandom(n, st.fork(), eps_degree, 3 + (n == 3), mp)
        self.err = {f: Cached(lambda k, w, f=f: self.std[f](k) * self.eps[f](k, w))
                    for f in built.fields}
        more = Stream(seed + 7)
        self.symbols[built.t] = more.rational(3, 2, nonzero=True)
        self.given_trends = {f: Poly(n, 5 if n == 1 else 3, more.fork(), mp) for f in built.xfuns}
        self._expansion = {}
        self._T = {}

    def num(self, q):
        return to_num(q, mpmath.mpf(0)) if self.mp else Q(q)

    # -- perturbed dynamics: F(mean + eta*e)
    def _perturbed(self, i, k, w):
        key = (i, k, w)
        if key not in self._expansion:
            fields = dict(self.det)
            for f in self.b.fields:
                def prov(kk, _w, f=f):
                    m, e = self.mean[f](kk), self.err[f](kk, w)
                    c = dict(m.c)
                    for a, v in e.c.items():
                        c[a[:-1] + (1,)] = v
                    return Jet(c, kk, self.n, 2)
                fields[f] = prov
            env = Env(self.n, self.coords, self.point, time=self.b.t, symbols=self.symbols,
                      fields=fields, trends=self.given_trends, mp=self.mp, eta=2)
            self._expansion[key] = env.ev(self.b.rhs[i], k)
        return self._expansion[key]

    def idx(self, f):
        return self.b.fields.index(f)

    def memo(self, key, k, make):
        j = self._T.get(key)
        if j is None or j.k < k:
            j = self._T[key] = make()
        return j.trunc(k)

    def T_mean(self, f, k=0):
        i = self.idx(f)
        return self.memo(('mean', f), k, lambda: average(
            [(lambda J: J.eta_part(0) + J.eta_part(1) + J.eta_part(2))(self._perturbed(i, k, w))
             for w in OMEGA]))

    def T_err(self, f, w, k=0):
        i = self.idx(f)
        return self.memo(('err', f, w), k, lambda: self._perturbed(i, k, w).eta_part(1))

    def V(self, f, k=0):
        s = self.std[f](k)
        return s * s

    def T_V(self, f, k=0):
        return self.memo(('V', f), k, lambda: average(
            [self.err[f](k, w) * self.T_err(f, w, k) for w in OMEGA]).scale(2))

    def T_std(self, f, k=0):
        return self.T_V(f, k) * jet_inv(self.std[f](k)).scale(self.num(Q(1, 2)))

    def cov(self, f, g, k=0):
        return self.memo(('cov', f, g), k, lambda: average(
            [self.err[f](k, w) * self.err[g](k, w) for w in OMEGA]))

    def T_cov(self, f, g, k=0):
        return self.memo(('Tcov', f, g), k, lambda: average(
            [self.err[f](k, w) * self.T_err(g, w, k) + self.err[g](k, w) * self.T_err(f, w, k)
             for w in OMEGA]))

    def T_eps(self, f, w, k=0):
        def make():
            s = self.std[f](k)
            inv = jet_inv(s)
            return (self.T_err(f, w, k) * inv
                    - self.err[f](k, w) * self.T_V(f, k) * inv * inv * inv.scale(self.num(Q(1, 2))))
        return self.memo(('eps', f, w), k, make)

    def unit(self, i):
        return [1 if j == i else 0 for j in range(self.n)]

    def metric(self, f, k=0):
        def make(i, j):
            return self.memo(('g', f, i, j), k, lambda: average(
                [self.eps[f](k + 1, w).diff(self.unit(i)) * self.eps[f](k + 1, w).diff(self.unit(j))
                 for w in OMEGA]))
        return [[make(i, j) for j in range(self.n)] for i in range(self.n)]

    def T_metric(self, f, k=0):
        def make(i, j):
            def m():
                out = []
                for w in OMEGA:
                    e, te = self.eps[f](k + 1, w), self.T_eps(f, w, k + 1)
                    out.append(e.diff(self.unit(i)) * te.diff(self.unit(j))
                               + e.diff(self.unit(j)) * te.diff(self.unit(i)))
                return average(out)
            return self.memo(('Tg', f, i, j), k, m)
        return [[make(i, j) for j in range(self.n)] for i in range(self.n)]

    def aspect(self, f, k=0):
        key = ('s', f)
        m = self._T.get(key)
        if m is None or m[0][0].k < k:
            m = self._T[key] = mat_inv(self.metric(f, k))
        return m

    def T_aspect(self, f, k=0):
        s = self.aspect(f, k)
        m = mat_mul(mat_mul(s, self.T_metric(f, k)), s)
        return [[-x for x in r] for r in m]

    # -- environment in which the outputs of the tool are evaluated
    def env(self, pkf):
        """`pkf` only supplies the *names* of the statistics (public attributes of its fields)"""
        fields, trends = dict(self.det), dict(self.given_trends)
        for f in self.b.fields:
            mf = pkf.fields[f]
            fields[f] = self.mean[f]
            fields[mf.variance] = lambda k, w, f=f: self.V(f, k)
            fields[mf.std] = lambda k, w, f=f: self.std[f](k)
            fields[mf.epsilon] = self.eps[f]
            fields[mf.error] = self.err[f]
            fields[mf.random] = lambda k, w, f=f: self.mean[f](k) + self.err[f](k, w)
            trends[f] = lambda k, w, f=f: self.T_mean(f, k)
            trends[mf.variance] = lambda k, w, f=f: self.T_V(f, k)
            trends[mf.std] = lambda k, w, f=f: self.T_std(f, k)
            trends[mf.epsilon] = lambda k, w, f=f: self.T_eps(f, w, k)
            trends[mf.error] = lambda k, w, f=f: self.T_err(f, w, k)
            trends[mf.random] = lambda k, w, f=f: self.T_mean(f, k) + self.T_err(f, w, k)
            half = self.num(Q(1, 2))
            for i in range(self.n):
                for j in range(i, self.n):
                    fields[mf.metric[i, j]] = lambda k, w, f=f, i=i, j=j: self.metric(f, k)[i][j].trunc(k)
                    trends[mf.metric[i, j]] = lambda k, w, f=f, i=i, j=j: self.T_metric(f, k)[i][j].trunc(k)
                    fields[mf.aspect[i, j]] = lambda k, w, f=f, i=i, j=j: self.aspect(f, k)[i][j].trunc(k)
                    trends[mf.aspect[i, j]] = lambda k, w, f=f, i=i, j=j: self.T_aspect(f, k)[i][j].trunc(k)
                    fields[mf.diffusion[i, j]] = lambda k, w, f=f, i=i, j=j: self.aspect(f, k)[i][j].trunc(k).scale(half)
                    trends[mf.diffusion[i, j]] = lambda k, w, f=f, i=i, j=j: self.T_aspect(f, k)[i][j].trunc(k).scale(half)
        F = self.b.fields
        for i in range(len(F)):
            for j in range(i + 1, len(F)):
                c = pkf.get_covariance(F[i], F[j])
                fields[c] = lambda k, w, f=F[i], g=F[j]: self.cov(f, g, k)
                trends[c] = lambda k, w, f=F[i], g=F[j]: self.T_cov(f, g, k)
        omega = [s for s in pkf.fields[F[0]].epsilon.free_symbols
                 if s != self.b.t and s not in self.b.x]
        assert len(omega) == 1
        out = Env(self.n, self.coords, self.point, time=self.b.t, omega=omega[0],
                  symbols=self.symbols, fields=fields, trends=trends, expect='Expectation',
                  mp=self.mp)
        out.given = set(self.given_trends)
        return out
