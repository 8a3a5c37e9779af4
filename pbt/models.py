"""Random evolution systems for the model builders, and the reference trend: right-hand sides evaluated on
periodic grids with their derivatives replaced by a rule."""
import contextlib
import io
import keyword
import math

import numpy as np
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Eq, Function, Integer, Mul, Rational, Symbol
from sympy.core.function import AppliedUndef

from .core import OutOfDomain, Violation, require

COORDS = [['x', 'y', 'z'], ['y', 'x', 'z'], ['x', 'x1', 'x2'], ['\\lambda', '\\varphi', 'z'], ['lon', 'lat', 'pp'],
          ['depth', 'dist', 'dd'], ['z', 'zz', 'dz_0'], ['r', 'phi', 'dr_0'], ['s', 'm', 'b'], ['d', 'e', 'dd_1'],
          ['x_1', 'x_2', 'x_3'], ['x_{1}', 'x^{2}', 'xi'],
          ['X', 'y', 'Z'], ['s', 'B', 'm'], ['x', 'X', 'h']]
FIELDS = ['u', 'v', 'w', 'U', '\\kappa', 'c_0', '\\theta', 'f^1', 'A', '\\bar{u}', 'h_{12}', 'T', 'q', '\\rho', 'V_{u}',
          'g_{u,xx}', 'Zeta', 'chi', 'Du', 'uu', 'u1', "u'", '\\hat v', 'T_{*}', 'c^+', '\\dot{q}']
CONSTS = ['a', '\\nu', '\\alpha', 'D_0', 'k', '\\lambda_0', 'c_{1}', 'beta', 'K', '\\mu^2', 'Pr', 'I0', 'R', 'E0', 'nu', '\\nu_{i+1}', "a'", '1/k']
TRANS = ['sin', 'cos', 'exp', 'tanh', 'recip', 'sqrt1', 'log1', 'atan', 'gauss', 'root', 'abs']
TRANSK = ['expk', 'powk', 'cosk', 'kpow']


def clean(name):
    """identifiers the generated code is documented to use (see C24)"""
    for a, b in (('\\', ''), ('{', ''), ('}', '')):
        name = name.replace(a, b)
    name = ''.join(c if c.isalnum() or c == '_' else '_' for c in name)
    if name[:1].isdigit():
        name = '_' + name
    return name + '_' if keyword.iskeyword(name) else name


def orders(dim, hi):
    if dim == 1:
        return st.integers(0, hi).map(lambda n: [n])
    return st.lists(st.sampled_from([0, 0, 1, 1, 2, 3 if dim == 2 else 2]), min_size=dim, max_size=dim).filter(
        lambda o: sum(o) <= hi)


@st.composite
def system(draw, max_fields=3, max_order=4, dims=(1, 1, 2, 2, 3), trans=True, nested=True, time=True, pos=True, rich=False):
    """rich: several functions and constants of each role, all of them in the equations"""
    dim = draw(st.sampled_from(list(dims)))
    coords = draw(st.permutations(draw(st.sampled_from(COORDS))[:dim]))
    taken = set(coords)
    pool = [n for n in FIELDS if n not in taken]
    nf = draw(st.integers(1, max_fields))
    ne = draw(st.sampled_from([2, 3, 4] if rich else [0, 0, 0, 1, 2]))
    nc = draw(st.sampled_from([2, 3, 4] if rich else [0, 0, 1, 2]))
    names = draw(st.lists(st.sampled_from(pool), min_size=nf + ne + nc, max_size=nf + ne + nc, unique_by=clean))
    consts = draw(st.lists(st.sampled_from([c for c in CONSTS if clean(c) not in {clean(n) for n in names + list(coords)}]),
                           min_size=3 if rich else 0, max_size=5 if rich else 3, unique_by=clean))
    if draw(st.integers(0, 5)) == 0:
        # a name made with that of another function: the fields u and du
        i = draw(st.integers(0, len(names) - 1))
        j = draw(st.integers(0, len(names) + len(consts) - 1))
        new = 'd' + names[i]
        if i != j and clean(new) not in {clean(k) for k in names + consts + list(coords)} | {'d' + clean(c) for c in coords}:
            if j < len(names):
                names[j] = new
            else:
                consts[j - len(names)] = new
    n = len(names)
    hi = {1: max_order, 2: min(max_order, 4), 3: min(max_order, 3)}[dim]

    def fac(inner):
        kinds = ['D', 'D', 'D', 'F'] + (['C', 'C'] if consts else [])
        if trans and not inner:
            kinds += ['T']
        if time and not inner:
            kinds += ['t'] if draw(st.integers(0, 5)) == 0 else []
        k = draw(st.sampled_from(kinds))
        f = draw(st.integers(0, n - 1))
        if k == 'D':
            return ['D', f, draw(orders(dim, 2 if inner else hi)), draw(st.sampled_from([1, 1, 1, 1, 2, 3]) if not inner else st.just(1))]
        if k == 'F':
            return ['D', f, [0] * dim, draw(st.sampled_from([1, 1, 2, -1, -2] if pos else [1, 1, 2]) if not inner else st.sampled_from([1, 1, 2]))]
        if k == 'C':
            return ['C', draw(st.integers(0, len(consts) - 1)), draw(st.sampled_from([1, 1, 2, -1]))]
        if k == 't':
            return ['t', draw(st.sampled_from(['t', 'cos']))]
        if consts and draw(st.integers(0, 2)) == 0:
            # a constant as an argument or as an exponent
            return ['T', draw(st.sampled_from(TRANSK)), f, draw(orders(dim, 1)), draw(st.integers(0, len(consts) - 1))]
        return ['T', draw(st.sampled_from(TRANS if pos else TRANS[:-2])), f, draw(orders(dim, 1))]

    def term(inner):
        fs = [fac(inner) for _ in range(draw(st.integers(1, 2 if inner else 3)))]
        if nested and not inner and draw(st.integers(0, 3)) == 0:
            o = draw(orders(dim, 2).filter(lambda o: sum(o) > 0))
            fs = fs[:1] + [['N', [term(True) for _ in range(draw(st.integers(1, 2)))], o]]
        return {'q': [draw(st.sampled_from([1, -1, 2, 3, -2, 5])), draw(st.sampled_from([1, 1, 2, 3]))], 'f': fs}

    eqs = [[term(False) for _ in range(draw(st.integers(1, 3)))] if draw(st.integers(0, 12)) else [] for _ in range(nf)]
    if rich:
        eqs[0] = eqs[0] + [{'q': [1, 1], 'f': [['D', i, draw(orders(dim, 1)), 1]]} for i in range(nf, n)] + [
            {'q': [2, 1], 'f': [['C', i, 1], ['D', 0, [0] * dim, 1]]} for i in range(len(consts))]
    return {'dim': dim, 'coords': list(coords), 'fields': names[:nf], 'exo': names[nf:nf + ne], 'cfun': names[nf + ne:],
            'consts': consts, 'eqs': eqs,
            'form': draw(st.sampled_from(['list', 'system', 'Eq'])),
            'order': draw(st.integers(0, 5))}


@st.composite
def high_orders(draw):
    """linear systems with derivatives of high and neighbouring orders"""
    dim = draw(st.sampled_from([1, 1, 2, 2, 3]))
    coords = draw(st.permutations(draw(st.sampled_from(COORDS))[:dim]))
    nf = draw(st.integers(1, 2))
    names = draw(st.lists(st.sampled_from([n for n in FIELDS if n not in coords]), min_size=nf, max_size=nf, unique_by=clean))
    hi = {1: 12, 2: 6, 3: 4}[dim]
    order = (st.integers(1, hi).map(lambda n: [n]) if dim == 1 else
             st.lists(st.integers(0, 3 if dim == 2 else 2), min_size=dim, max_size=dim).filter(lambda o: 0 < sum(o) <= hi))

    def term(o):
        return {'q': [draw(st.sampled_from([1, -1, 2, 3])), 1], 'f': [['D', draw(st.integers(0, nf - 1)), o, 1]]}

    def equation():
        ts = [draw(order) for _ in range(draw(st.integers(1, 3)))]
        if draw(st.booleans()):
            # the same variables with other orders
            o = ts[0]
            ts.append(o[::-1] if dim > 1 else [max(1, o[0] - draw(st.integers(1, 9)))])
        return [term(o) for o in ts]
    return {'dim': dim, 'coords': list(coords), 'fields': names, 'exo': [], 'cfun': [], 'consts': [],
            'eqs': [equation() for _ in range(nf)], 'form': 'list', 'order': 0}


class System:
    def __init__(self, spec):
        from sympkf.symbolic.constants import t
        self.spec, self.t = spec, t
        self.x = tuple(Symbol(n) for n in spec['coords'])
        mk = lambda n, time: Function(n)(*(((t,) if time else ()) + self.x))
        self.fields = [mk(n, True) for n in spec['fields']]
        self.exo = [mk(n, True) for n in spec['exo']]
        self.cfun = [mk(n, False) for n in spec['cfun']]
        self.funcs = self.fields + self.exo + self.cfun
        self.consts = [Symbol(c) for c in spec['consts']]
        self.rhs = [sympy.Add(*[self.term(t_) for t_ in ts]) for ts in spec['eqs']]
        self.equations = [Eq(Derivative(f, t), r, evaluate=False) for f, r in zip(self.fields, self.rhs)]

    def D(self, f, o):
        vc = [(v, n) for v, n in zip(self.x, o) if n]
        return Derivative(f, *vc) if vc else f

    def term(self, t):
        return Rational(*t['q']) * Mul(*[self.factor(f) for f in t['f']])

    def factor(self, f):
        if f[0] == 'D':
            return self.D(self.funcs[f[1]], f[2]) ** Integer(f[3])
        if f[0] == 'C':
            return self.consts[f[1]] ** Integer(f[2])
        if f[0] == 't':
            return self.t if f[1] == 't' else sympy.cos(self.t)
        if f[0] == 'T':
            fn = self.funcs[f[2]]
            a = self.D(fn, f[3])
            if len(f) > 4:
                k = self.consts[f[4]]
                return {'expk': lambda: sympy.exp(-k * a ** 2), 'powk': lambda: (1 + a ** 2) ** k,
                        'cosk': lambda: sympy.cos(k * a), 'kpow': lambda: 2 ** (k * a)}[f[1]]()
            return {'recip': lambda: 1 / (2 + a ** 2), 'sqrt1': lambda: sympy.sqrt(1 + a ** 2),
                    'log1': lambda: sympy.log(2 + a ** 2), 'gauss': lambda: sympy.exp(-a ** 2 / 2) / sympy.sqrt(sympy.pi),
                    'root': lambda: sympy.sqrt(fn) if f[2] % 2 else fn ** Rational(-3, 2),
                    'abs': lambda: sympy.Abs(a)}.get(f[1], lambda: getattr(sympy, f[1])(a))()
        return self.D(sympy.Add(*[self.term(t) for t in f[1]]), f[2])


def labels(spec):
    out = {f"dim{spec['dim']}", f"fields{len(spec['fields'])}"}
    for k in ('exo', 'cfun', 'consts'):
        if spec[k]:
            out.add(k)
    for eq in spec['eqs']:
        for t in eq:
            for f in t['f']:
                out.add({'D': 'product', 'C': 'const', 't': 'time', 'T': 'transcendental', 'N': 'flux-form'}[f[0]])
                o = f[2] if f[0] in 'DN' else f[3] if f[0] == 'T' else []
                if sum(1 for n in o if n) > 1:
                    out.add('mixed')
                if sum(o) >= 3:
                    out.add('high-order')
    return out


def nontrivial(spec):
    def der(t):
        return any((f[0] in 'DN' and sum(f[2])) or (f[0] == 'T' and sum(f[3])) for f in t['f'])
    return any(der(t) for eq in spec['eqs'] for t in eq)


# --------------------------------------------------------------------------- evaluation on grids
FUN = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'tanh': np.tanh, 'sinh': np.sinh,
       'cosh': np.cosh, 'atan': np.arctan, 'Abs': np.abs, 'sign': np.sign, 'asin': np.arcsin}


def ev(e, funs, syms, der, mag=False):
    """value of a sympy expression; mag: sum of the moduli of its terms (a scale for rounding errors)"""
    if isinstance(e, AppliedUndef):
        v = funs[e]
        return np.abs(v) if mag else v
    if isinstance(e, Derivative):
        v = der(e)
        return np.abs(v) if mag else v
    if e.is_Number or e.is_NumberSymbol:
        return abs(float(e)) if mag else float(e)
    if e.is_Symbol:
        return abs(syms[e]) if mag else syms[e]
    if e.is_Add:
        return sum(ev(a, funs, syms, der, mag) for a in e.args)
    if e.is_Mul:
        out = 1.0
        for a in e.args:
            out = out * ev(a, funs, syms, der, mag)
        return out
    if e.is_Pow:
        p = e.args[1]
        if mag and p.is_negative:
            return np.abs(ev(e, funs, syms, der))
        b = ev(e.args[0], funs, syms, der, mag)
        if p.is_Integer:
            return np.power(np.asarray(b, float), float(p)) if int(p) < 0 else b ** int(p)
        return np.power(b, ev(p, funs, syms, der))
    name = e.func.__name__
    if name in FUN:
        v = FUN[name](ev(e.args[0], funs, syms, der))
        return np.abs(v) + 1 if mag else v
    raise Violation(f'unexpected {name} in {str(e)[:200]}')


def shift(arr, ks):
    """values at the points of indexes +k in a periodic grid"""
    for ax, k in enumerate(ks):
        if k:
            arr = np.roll(arr, -k, axis=ax)
    return arr


class FiniteDifferences:
    """derivative -> its discretisation by sympkf, interpreted with np.roll"""

    def __init__(self, x, dx, values):
        self.x, self.dx, self.values = x, dx, values
        self.cache = {}

    def __call__(self, d):
        if d not in self.cache:
            self.cache[d] = self.compute(d)
        return self.cache[d]

    def compute(self, d):
        from sympkf.symbolic.finite_difference import finite_difference
        from .grid import shift_of
        fd = finite_difference(d)
        steps = {Symbol('d' + v.name): h for v, h in zip(self.x, self.dx)}
        f = d.args[0]
        base = self.values[f]
        cache = {}
        dxs = tuple(steps)
        for a in fd.atoms(AppliedUndef):
            ks = [0] * len(self.x)
            for arg in a.args:
                s = shift_of(arg, self.x, dxs) if arg.free_symbols & set(self.x) else None
                if s is not None:
                    ks[s[0]] = int(s[1])
            cache[a] = shift(base, ks)
        return ev(fd, cache, steps, None)


def ref_trend(rhs, t, funs, syms, der, shape):
    """values of the right-hand sides, and a scale of their terms"""
    out, scale = [], []
    for r in rhs:
        r = sympy.sympify(r).doit()
        out.append(np.broadcast_to(ev(r, funs, syms, der), shape))
        scale.append(np.broadcast_to(ev(r, funs, syms, der, True), shape))
    return np.array(out, float), np.array(scale, float)


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def build_class(builder, name=None):
    """the class defined by the generated code"""
    code = builder.code
    ns = {}
    try:
        exec(compile(code, '<generated>', 'exec'), ns)
    except Exception as e:
        raise Violation(f'the generated code does not run: {type(e).__name__}: {e}\n{code[:3000]}') from e
    name = name or builder.class_name
    require(name in ns, lambda: f'no class {name} in the generated code')
    return ns[name]


def supply(equations, form):
    """the ways of giving equations to the builders"""
    from sympkf.symbolic.util import PDESystem
    if form == 'Eq' and len(equations) == 1:
        return equations[0]
    if form == 'system':
        return PDESystem(list(equations))
    return list(equations)
