"""C25  code of discretised expressions"""
import keyword

import numpy as np
import sympy
from hypothesis import strategies as st
from sympy import Function, Integer, Mul, Rational, Symbol
from sympy.core.function import AppliedUndef

from .. import grid
from ..core import Check, OutOfDomain, Violation, require
from ..models import CONSTS, COORDS, FIELDS, clean

RULE = ("Random expressions (sums, products, integer and fractional powers, elementary functions) of functions at shifted points of a grid and at other "
        "time levels, of steps and constants, and discretised random expressions; the code is evaluated on arrays of a "
        "periodic grid. Non-trivial: some function is shifted.")
ASSUMPTIONS = ["all functions depend on the same space coordinates in the same order, with the time first if any; names stay "
               "distinct once translated; coordinates themselves do not occur outside the functions"]


TRANS = ['sin', 'cos', 'exp', 'tanh', 'log', 'cosh']


@st.composite
def shifted(draw):
    dim = draw(st.sampled_from([1, 1, 2, 2, 3]))
    coords = draw(st.permutations(draw(st.sampled_from(COORDS))[:dim]))
    taken = {clean(c) for c in coords} | {'d' + clean(c) for c in coords}
    n = draw(st.integers(1, 3))
    names = draw(st.lists(st.sampled_from([f for f in FIELDS if clean(f) not in taken]), min_size=n, max_size=n, unique_by=clean))
    taken |= {clean(f) for f in names}
    consts = draw(st.lists(st.sampled_from([c for c in CONSTS if clean(c) not in taken]), max_size=2, unique_by=clean))
    shift = st.sampled_from([0, 0, 0, 1, -1, 1, -1, 2, -2, 3, -5, 12])

    def fac():
        k = draw(st.sampled_from(['F', 'F', 'F', 'F', 'S', 'S', 'T'] + (['C'] if consts else [])))
        if k == 'F':
            return ['F', draw(st.integers(0, n - 1)), draw(st.sampled_from([0, 0, 0, 1, -1, 2, -3])),
                    draw(st.lists(shift, min_size=dim, max_size=dim)), draw(st.sampled_from([[1, 1], [1, 1], [2, 1], [-1, 1], [3, 2], [1, 3]]))]
        if k == 'T':
            return ['T', draw(st.sampled_from(TRANS)), draw(st.integers(0, n - 1)), draw(st.lists(shift, min_size=dim, max_size=dim))]
        if k == 'S':
            return ['S', draw(st.integers(-1, dim - 1)), draw(st.sampled_from([-1, -2, 1, 2]))]
        return ['C', draw(st.integers(0, len(consts) - 1)), draw(st.sampled_from([1, 2, -1]))]

    def term():
        return {'q': [draw(st.sampled_from([1, -1, 2, -5])), draw(st.sampled_from([1, 2, 3]))],
                'f': [fac() for _ in range(draw(st.integers(1, 3)))]}
    terms = [term() for _ in range(draw(st.integers(1, 4)))]
    return {'coords': coords, 'names': [[f, draw(st.booleans())] for f in names], 'consts': consts, 'terms': terms,
            'outer': draw(st.sampled_from([None, None, -1, 2, 3])), 'form': draw(st.sampled_from(['Code', 'Code', 'function'])),
            'shape': draw(st.lists(st.integers(1, 6), min_size=dim, max_size=dim)), 'seed': draw(st.integers(0, 10 ** 6))}


class Grid:
    """stands for a model on a periodic grid"""

    def __init__(self, coords, shape, steps):
        self.size = {clean(c): n for c, n in zip(coords, shape)}
        self.dx = steps

    def index(self, coord, step):
        return (np.arange(self.size[coord]) + step) % self.size[coord]


def expression(case):
    t, dt = Symbol('t'), Symbol('dt')
    x = [Symbol(c) for c in case['coords']]
    dx = [Symbol('d' + c) for c in case['coords']]
    funcs = [(Function(f), timed) for f, timed in case['names']]

    def fac(f):
        if f[0] == 'F':
            g, timed = funcs[f[1]]
            return g(*(([t + f[2] * dt] if timed else []) + [a + k * d for a, k, d in zip(x, f[3], dx)])) ** Rational(*f[4])
        if f[0] == 'T':
            g, timed = funcs[f[2]]
            return getattr(sympy, f[1])(g(*(([t] if timed else []) + [a + k * d for a, k, d in zip(x, f[3], dx)])) / 2)
        if f[0] == 'S':
            return (dt if f[1] < 0 else dx[f[1]]) ** Integer(f[2])
        return Symbol(case['consts'][f[1]]) ** Integer(f[2])
    e = sympy.Add(*[Rational(*s['q']) * Mul(*[fac(f) for f in s['f']]) for s in case['terms']])
    return e if case['outer'] is None else e ** Integer(case['outer'])


def value(e, x, dx, vals, table, jitter=None):
    """reference: value on the grid, by rolling arrays; jitter alters the value of each grid point a little"""
    memo = {}
    t, dt = Symbol('t'), Symbol('dt')

    def fun(a):
        level = 0
        args = list(a.args)
        if t in args[0].free_symbols:
            level = int((args[0] - t).coeff(dt))
            args = args[1:]
        v = vals[a.func.__name__, level]
        for i, arg in enumerate(args):
            k = int((arg - x[i]).expand().coeff(dx[i]))
            v = np.roll(v, -k, axis=i)
        if jitter is not None:
            if a not in memo:
                memo[a] = 1 + 1e-10 * jitter.uniform(-1, 1, np.shape(v))
            v = v * memo[a]
        return v

    def ev(e):
        if isinstance(e, Symbol):
            return table[e]
        if e.is_Rational:
            return float(e)
        if e.is_Add:
            return sum(ev(a) for a in e.args)
        if e.is_Mul:
            return np.prod(np.broadcast_arrays(*[ev(a) for a in e.args]), axis=0)
        if e.is_Pow:
            return ev(e.args[0]) ** ev(e.args[1])
        if isinstance(e, AppliedUndef):
            return fun(e)
        if type(e).__name__ in TRANS:
            return getattr(np, type(e).__name__)(ev(e.args[0]))
        raise OutOfDomain(f'{type(e).__name__} in an expression of grid values')
    return ev(e)


def check(e, coords, shape, funcs, consts, rng, form, what):
    from sympkf.symbolic import finite_difference as fd
    x, dx = [Symbol(c) for c in coords], [Symbol('d' + c) for c in coords]
    t, dt = Symbol('t'), Symbol('dt')
    before = str(e)
    if form == 'Code':
        c = fd.Code(e)
        code = c.code
        require(c.code == code and repr(c) == code, lambda: f'{what}: the code changes when it is asked again')
    else:
        code = fd.code_finite_difference(e, lambda k, step: f'self.index({k},{step})', lambda k: f"self.dx['{k}']")
    require(str(e) == before, lambda: f'{what}: the expression was modified')
    steps = {clean(c): float(s) for c, s in zip(coords, rng.uniform(0.5, 2, len(coords)))}
    steps['t'] = float(rng.uniform(0.5, 2))
    table = {d: steps[clean(c)] for c, d in zip(coords, dx)}
    table[dt] = steps['t']
    table.update({Symbol(c): float(rng.uniform(0.5, 1.5)) for c in consts})
    ns = {k: getattr(np, k) for k in TRANS + ['sqrt']}
    ns.update({'np': np, 'self': Grid(coords, shape, steps)})
    ns.update({clean(c): table[Symbol(c)] for c in consts})
    # a step is in the grid when some function depends on its coordinate, else it is a symbol of the user
    for d in [dt] + dx:
        ns.setdefault(clean(d.name), table[d])
    vals = {}
    for f in funcs:
        for k in range(-3, 4):
            v = vals[f, k] = rng.uniform(0.5, 1.5, shape)
            name = clean(f) + (f'p{k}' if k > 0 else f'm{-k}' if k < 0 else '')
            if name in ns:
                raise OutOfDomain('names which are the same once translated')
            ns[name] = v
    with np.errstate(all='ignore'):
        want = value(e, x, dx, vals, table)
        near = value(e, x, dx, vals, table, np.random.default_rng(0))
    keep = {n: v.copy() for n, v in ns.items() if isinstance(v, np.ndarray)}
    try:
        with np.errstate(all='ignore'):
            got = eval(compile(code, 'code', 'eval'), {'__builtins__': {}}, ns)
    except Exception as err:
        raise Violation(f'{what}: the code of {before[:300]} does not run: {type(err).__name__}: {err}\n  {code[:600]}') from err
    require(all(np.array_equal(ns[n], v) for n, v in keep.items()), 'the code modifies the arrays')
    got, want = np.broadcast_to(got, shape), np.broadcast_to(want, shape)
    ok = np.isfinite(want) & (np.abs(want) < 1e9) & (np.abs(want - near) < 1e-7 * (1 + np.abs(want)))
    if not ok.any():
        raise OutOfDomain('singular')
    scale = 1 + np.max(np.abs(want[ok]))
    return got, want, ok, scale, code


def compare(res, what, before):
    got, want, ok, scale, code = res
    require(np.allclose(got[ok], want[ok], rtol=1e-6, atol=1e-9 * scale),
            lambda: f'{what}: the code of {before[:300]} has the value {got.ravel()[:4]}, expected {want.ravel()[:4]}\n  {code[:600]}')


def run(case, rec):
    e = expression(case)
    used = [f for s in case['terms'] for f in s['f'] if f[0] == 'F']
    rec.label(f"dim{len(case['coords'])}", case['form'], *(['time'] if any(f[2] and case['names'][f[1]][1] for f in used) else []))
    rec.trivial_unless(any(any(f[3]) or f[2] for f in used))
    rng = np.random.default_rng(case['seed'])
    compare(check(e, case['coords'], tuple(case['shape']), [f for f, _ in case['names']], case['consts'], rng, case['form'], 'Code'),
            'Code', str(e))


def discretised():
    return st.fixed_dictionaries({'e': grid.expression(max_terms=2, trans=False, coordfun=False),
                                  'shape': st.lists(st.integers(9, 11), min_size=3, max_size=3), 'seed': st.integers(0, 10 ** 6)})


def run_discretised(case, rec):
    from sympkf.symbolic.finite_difference import Code, finite_difference
    spec = dict(case['e'])
    spec['funcs'] = [[n, timed, list(range(spec['dim']))] for n, timed, _ in spec['funcs']]
    ex = grid.Expr(spec)
    names = [n for n, _, _ in spec['funcs']]
    all_names = [clean(n) for n in names + list(spec['coords']) + grid.CONSTS] + ['d' + clean(c) for c in spec['coords']] + ['dt', 't']
    if len(set(all_names)) < len(all_names):
        raise OutOfDomain('names which are the same once translated')
    rec.label(*grid.labels(spec))
    rec.trivial_unless(bool(ex.expr.atoms(sympy.Derivative)))
    rng = np.random.default_rng(case['seed'])
    out = finite_difference(ex.expr)
    compare(check(out, spec['coords'], tuple(case['shape'][:spec['dim']]), names, grid.CONSTS, rng, 'Code', 'Code of finite differences'),
            'Code of finite differences', str(out))


CHECKS = [
    Check('shifts', shifted, run, 900, 30000, cpu=20),
    Check('discretised', discretised, run_discretised, 160, 6000, cpu=40),
]
