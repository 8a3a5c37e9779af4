"""C12  finite differences"""
from fractions import Fraction as Q
import hashlib

import mpmath
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Symbol
from sympy.core.function import AppliedUndef

from .. import grid
from ..core import Check, OutOfDomain, Violation, require
from ..sem import Env, NeedFloat, Poly, Stream, Uninterpretable, to_num

RULE = ("Random expressions (products, powers, compositions, nested derivatives of any mixture of 1-3 "
        "coordinates) and random polynomial fields. err(h) = discretised - exact is evaluated exactly "
        "(or with 120 digits) at two tiny steps: err(h)/h^2 must converge. Non-trivial: the "
        "expression has a spatial derivative.")
ASSUMPTIONS = ["spatial derivatives only, integer orders, coordinates without step symbols of their own "
               "(no constant named like a step)"]
DPS = 400       # err(h) is lost in h**-18 at h = 1e-12


def strategy():
    return st.fixed_dictionaries({'e': grid.expression(max_order=5), 'seed': st.integers(0, 10 ** 6)})


def grid_only(out, ex, functions, what):
    """nothing but grid values of the functions of the expression and steps"""
    require(not out.atoms(Derivative, sympy.Subs, sympy.Integral), lambda: f'{what}: derivative left in {str(out)[:400]}')
    allowed = set(ex.consts) | set(ex.x) | {ex.t} | set(ex.dx)
    extra = {s for s in out.free_symbols if s not in allowed}
    require(not extra, lambda: f'{what}: unknown symbols {extra} in {str(out)[:300]}')
    by = {f.func.__name__: f for f in functions}
    for a in out.atoms(AppliedUndef):
        f = by.get(a.func.__name__)
        require(f is not None and len(f.args) == len(a.args), lambda: f'{what}: unknown function {a}')
        for v, arg in zip(f.args, a.args):
            if v == ex.t:
                require(arg == ex.t, lambda: f'{what}: {a} is shifted in time')
                continue
            s = grid.shift_of(arg, ex.x, ex.dx)
            require(s is not None and ex.x[s[0]] == v and s[1].is_Integer,
                    lambda: f'{what}: {a} is not a value on the grid of {f}')


class Data:
    """polynomial test functions"""

    def __init__(self, ex, seed, mp, degrees=None):
        st_ = Stream(seed)
        self.ex, self.mp = ex, mp
        self.n = len(ex.x)
        self.point = {v: st_.rational(2, 2, nonzero=True) for v in ex.x}
        self.consts = {c: abs(st_.rational(3, 2, nonzero=True)) for c in ex.consts}
        self.ratio = [abs(st_.rational(3, 2, nonzero=True)) for _ in ex.x]
        self.p = {}
        self.st = st_
        for f in ex.funcs:
            p = Poly(self.n, degrees or {1: 8, 2: 6, 3: 5}[self.n], st_.fork(), mp, c0=abs(st_.rational(3, 1, nonzero=True)))
            keep = [i for i, v in enumerate(ex.x) if v in f.args]
            p.c = {a: v for a, v in p.c.items() if all(i in keep or not o for i, o in enumerate(a[:-1]))}
            self.p[f.func.__name__] = p

    def num(self, q):
        return to_num(q, mpmath.mpf(0)) if self.mp else Q(q)

    def exact(self, e):
        env = Env(self.n, {v: i for i, v in enumerate(self.ex.x)}, self.point, time=self.ex.t,
                  symbols=self.consts, fields={f: self.p[f.func.__name__] for f in self.ex.funcs}, mp=self.mp)
        return env.value(e)

    def discrete(self, e, h):
        ex = self.ex
        steps = [self.num(h * r) for r in self.ratio]
        table = {v: self.num(self.point[v]) for v in ex.x}
        table.update({d: s for d, s in zip(ex.dx, steps)})
        table.update({c: self.num(v) for c, v in self.consts.items()})
        memo = {}

        def fun(a):
            off = [self.num(0)] * self.n
            for arg in a.args:
                if arg == ex.t:
                    continue
                i, k = grid.shift_of(arg, ex.x, ex.dx)
                off[i] = self.num(Q(int(k.p), int(k.q))) * steps[i]
            v = self.num(0)
            for al, c in self.p[a.func.__name__].c.items():
                m = c
                for o, d in zip(al[:-1], off):
                    if o:
                        m = m * d ** o
                v = v + m
            return v
        return grid.evaluate(e, fun, lambda s: table[s], self.mp, memo)


H = (Q(1, 10 ** 9), Q(1, 10 ** 12))


def second_order(ex, source, out, seed, what, degrees=None):
    """(out - source)/h^2 converges"""
    for attempt in range(3):
        for mp in (False, True):
            try:
                with mpmath.workdps(DPS):
                    d = Data(ex, seed + 31 * attempt, mp, degrees)
                    exact = d.exact(source)
                    r = [(d.discrete(out, h) - exact) / d.num(h) ** 2 for h in H]
                    require(abs(r[0] - r[1]) <= (abs(r[0]) + abs(r[1]) + 1) * d.num(Q(1, 10000)),
                            lambda: f'{what}: not second order: error/h^2 is {float(r[0]):.6g} at h=1e-9 and '
                            f'{float(r[1]):.6g} at h=1e-12\n   {str(source)[:300]}\n   -> {str(out)[:600]}')
                return
            except NeedFloat:
                continue
            except (ZeroDivisionError, ValueError, TypeError) as e:
                if isinstance(e, ZeroDivisionError):
                    break
                raise
            except Uninterpretable as e:
                raise Violation(f'{what}: {e}') from e
    raise OutOfDomain('singular')


def opaque_value(e, mp, seed):
    """every function call and symbol has its own unrelated value"""
    def val(s):
        h = int.from_bytes(hashlib.sha256(f'{seed}:{s}'.encode()).digest()[:4], 'big')
        q = Q(h % 8999 + 1000, 3001)
        return to_num(q, mpmath.mpf(0)) if mp else q
    return grid.evaluate(e, val, val, mp)


def run(case, rec):
    from sympkf.symbolic.finite_difference import finite_difference
    ex = grid.Expr(case['e'])
    rec.label(*grid.labels(case['e']))
    ders = ex.expr.atoms(Derivative)
    rec.trivial_unless(bool(ders))
    before = str(ex.expr)
    out = finite_difference(ex.expr)
    require(str(ex.expr) == before, 'the expression was modified')
    grid_only(out, ex, ex.funcs, 'finite_difference')
    second_order(ex, ex.expr, out, case['seed'], 'finite_difference')
    # each derivative is discretised on its own and the rest is kept: independent grid values
    done = ex.expr.doit()
    sub = {d: finite_difference(d) for d in done.atoms(Derivative)}
    want = done.xreplace(sub)
    if not want.atoms(Derivative):
        for mp in (False, True):
            try:
                with mpmath.workdps(60):
                    a, b = opaque_value(out, mp, case['seed']), opaque_value(want, mp, case['seed'])
                    require(a == b if not mp else abs(a - b) <= mpmath.mpf(10) ** -25 * (abs(a) + abs(b) + 1),
                            lambda: f'the rest of the expression is changed: {before[:300]}\n   -> {str(out)[:500]}\n'
                                    f'   derivative by derivative: {str(want)[:500]}')
                break
            except NeedFloat:
                continue
            except ZeroDivisionError:
                raise OutOfDomain('singular')


def strategy_single():
    return st.fixed_dictionaries({'e': grid.expression(max_terms=1, max_order=1, trans=False, nested=False),
                                  'order': st.lists(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(5, 12)), min_size=3, max_size=3),
                                  'seq': st.integers(0, 23),
                                  'how': st.sampled_from(['finite_difference', 'finite_difference_derivative', 'get_subs_derivative']),
                                  'seed': st.integers(0, 10 ** 6)})


def run_single(case, rec):
    """one derivative: grid values, consistency, exactness on polynomials of degree <= order+1"""
    from sympkf.symbolic import finite_difference as fd
    from itertools import permutations
    spec = case['e']
    ex = grid.Expr(spec)
    f = ex.funcs[0]
    lim = {1: 12, 2: 8, 3: 6}[len(ex.x)]
    o, left = [], lim
    for v, n in zip(ex.x, case['order']):
        n = min(n, left) if v in f.args else 0
        left -= n
        o.append(n)
    if not sum(o):
        raise OutOfDomain('no derivative')
    vc = [(v, n) for v, n in zip(ex.x, o) if n]
    vc = list(permutations(vc))[case['seq'] % len(list(permutations(vc)))]
    d = Derivative(f, *vc)
    rec.label(case['how'], f'order{sum(o)}', f'vars{len(vc)}')
    rec.trivial_unless(True)
    if case['how'] == 'get_subs_derivative':
        out = fd.get_subs_derivative(d)
        if len(vc) > 1:
            out = fd.finite_difference(out)
    else:
        out = getattr(fd, case['how'])(d)
    grid_only(out, ex, [f], case['how'])
    require({a.func for a in out.atoms(AppliedUndef)} == {f.func}, 'other functions appear')
    second_order(ex, d, out, case['seed'], case['how'], max({1: 8, 2: 6, 3: 5}[len(ex.x)], sum(o) + 2))
    # exactness, at a large step
    st_ = Stream(case['seed'])
    data = Data(ex, case['seed'], False)
    p = data.p[f.func.__name__]
    from itertools import product
    p.c = {}
    for a in product(*[range(n + 2) if v in f.args else (0,) for v, n in zip(ex.x, o)]):
        p.c[a + (0,)] = st_.rational(3, 2, nonzero=True)
    a, b = data.exact(d), data.discrete(out, Q(3, 7))
    require(a == b, lambda: f"{case['how']}({d}) is not exact on polynomials of degree <= order+1: {b}, exact {a}\n   {out}")


def strategy_system():
    return st.fixed_dictionaries({'e': st.lists(grid.expression(max_terms=2, max_order=3, dims=(1, 2)), min_size=1, max_size=3),
                                  'how': st.sampled_from(['function', 'pdesystem', 'iterate']),
                                  'cls': st.sampled_from(['sympy', 'sympkf']), 'seed': st.integers(0, 10 ** 6)})


def run_system(case, rec):
    from sympkf import Eq, PDESystem, t
    from sympkf.symbolic.finite_difference import finite_difference, finite_difference_system
    specs = [dict(e, dim=case['e'][0]['dim'], coords=case['e'][0]['coords']) for e in case['e']
             if e['dim'] == case['e'][0]['dim']]
    exs, eqs = [], []
    for i, s in enumerate(specs):
        s = dict(s, funcs=[[f'{n}_{i}' if j == 0 else n, True, v] for j, (n, tt, v) in enumerate(s['funcs'])])
        e = grid.Expr(s)
        full = sympy.Function(s['funcs'][0][0])(t, *e.x)
        cls = Eq if case['cls'] == 'sympkf' else sympy.Eq
        eqs.append(cls(Derivative(full, t), e.expr, evaluate=False))
        exs.append(e)
    if any(not isinstance(q, sympy.Eq) for q in eqs):
        raise OutOfDomain('trivial')
    rec.label(case['how'], f'n{len(eqs)}')
    rec.trivial_unless(any(q.args[1].atoms(Derivative) for q in eqs))
    given = list(eqs)
    before = [str(q) for q in eqs]
    if case['how'] == 'function':
        out = finite_difference_system(given)
    elif case['how'] == 'iterate':
        out = finite_difference_system(PDESystem(given))
    else:
        out = PDESystem(given).finite_difference
    require(len(out) == len(eqs), lambda: f'{len(out)} equations for {len(eqs)}')
    require(given == eqs and [str(q) for q in eqs] == before, 'the system was modified')
    for q, r, e in zip(eqs, out, exs):
        require(len(r.args) == 2, lambda: f'not an equation: {r}')
        require(r.args[0] == q.args[0], lambda: f'left-hand side {q.args[0]} became {r.args[0]}')
        grid_only(r.args[1], e, e.funcs, 'system')
        second_order(e, q.args[1], r.args[1], case['seed'], 'system')


def strategy_shift():
    return st.fixed_dictionaries({'coords': st.sampled_from(grid.COORDS), 'perm': st.permutations([0, 1, 2]),
                                  'dim': st.integers(1, 3), 'time': st.integers(0, 2),
                                  'k': st.lists(st.tuples(st.integers(-6, 6), st.sampled_from([1, 1, 2])).map(list), min_size=4, max_size=4)})


def run_shift(case, rec):
    """get_displacement and get_function_coordinates invert grid shifts"""
    from sympkf.symbolic.finite_difference import get_displacement
    from sympkf.symbolic.util import get_coordinates, get_function_coordinates
    names = [case['coords'][i] for i in case['perm']][:case['dim']]
    if case['time']:
        names = ['t'] + names
    x = [Symbol(n) for n in names]
    dx = [Symbol('d' + n) for n in names]
    k = [sympy.Rational(*q) for q in case['k']]
    if case['time'] == 1:
        k[0] = sympy.Integer(0)
    f = sympy.Function('u')(*[a + q * b for a, b, q in zip(x, dx, k)])
    rec.label(f'dim{case["dim"]}')
    rec.trivial_unless(any(k[:len(x)]))
    got = get_displacement(f)
    require(list(got) == k[:len(x)], lambda: f'displacement of {f} is {got}, not {k[:len(x)]}')
    for g in (get_function_coordinates, get_coordinates):
        cx, cdx = g(f)
        require(list(cx) == x and list(cdx) == dx, lambda: f'{g.__name__}({f}) is {cx}, {cdx}')


CHECKS = [Check('expression', strategy, run, 400, 20000, cpu=12),
          Check('single', strategy_single, run_single, 400, 8000, cpu=15),
          Check('system', strategy_system, run_system, 100, 4000, cpu=15),
          Check('shifts', strategy_shift, run_shift, 400, 10000, cpu=10)]
