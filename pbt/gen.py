"""Generators of PDE systems (plain JSON specifications) and their translation into sympy."""
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Integer, Mul, Rational, Symbol, symbols

T = symbols('t')

# names a user would give; latex names included (cleaned names stay distinct)
COORDS = [['x'], ['x', 'y'], ['x', 'y', 'z']]
FIELDS = ['u', 'v', 'c', 'A', 'B', 'h', '\\theta', 'q_1', '\\rho', 'T', '\\bar{u}', 'w', 'humidity_air', 'humidity_soil']
CONSTS = ['\\varepsilon', 'kappa', '\\kappa', 'nu', 'a', 'b', '\\alpha', '\\beta_{1}', 'D_0', 'g', 'f']
CFUNS = ['U', 'W', '\\kappa_{11}', 'phi', 'm', 'c_0']
TRANS = ['sin', 'cos', 'exp', 'tanh', 'sqrt', 'log', 'recip', 'cbrt']
TRANSK = ['expk', 'powk', 'upow', 'sink']  # transcendental terms with a constant inside
XFUNS = ['F', 'S', '\\psi', 'r']


def ordtuple(dim, lo, hi):
    """multi-index of total order in [lo, hi]"""
    return st.integers(lo, hi).flatmap(
        lambda k: st.lists(st.integers(0, dim - 1), min_size=k, max_size=k).map(
            lambda l: [l.count(i) for i in range(dim)]))


@st.composite
def pde_spec(draw, dims=(1,), max_fields=2, max_terms=3, max_order=3, max_factors=2, outer=True,
             linear=False, consts=True, cfuns=True, xfuns=True, latex=True, max_power=3,
             coords=None, min_fields=1, const_deriv=True, shuffle_coords=False, mult_order=None,
             total_order=None, recip=False, trans=False, min_order=0, explicit=True, transprod=False):
    dim = draw(st.sampled_from(list(dims)))
    nf = draw(st.integers(min_fields, max_fields))

    def names(pool, n):
        pool = pool if latex else [p for p in pool if '\\' not in p and '_' not in p]
        return draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    fields = names(FIELDS, nf)
    nc = draw(st.integers(0, 2)) if consts else 0
    nk = draw(st.integers(0, 2 if dim == 1 else 1)) if cfuns else 0
    nx = draw(st.integers(0, 1)) if xfuns else 0
    cs, ks, xs = names(CONSTS, nc), names(CFUNS, nk), names(XFUNS, nx)
    ks = [k for k in ks]
    co = list(COORDS[dim - 1]) if coords is None else list(draw(st.sampled_from(coords[dim - 1])))
    if shuffle_coords:
        co = draw(st.permutations(co))
    eqs = []
    # sometimes a field whose trend does not depend on the fields: a source, or nothing
    still = draw(st.integers(0, nf - 1)) if nf > 1 and draw(st.integers(0, 7)) == 0 else -1
    for n in range(nf):
        terms = []
        if n == still:
            eqs.append([{'q': [2, 1], 'f': [['x', 0, [0] * dim, 1] if nx else ['k', 0, [0] * dim, 1]]}] if (nk or nx) and draw(st.booleans()) else [])
            continue
        for _ in range(draw(st.integers(1, max_terms))):
            left = max_order if total_order is None else total_order
            fac = []
            nfac = 1 if linear else draw(st.integers(1, max_factors))
            for j in range(nfac):
                hi = min(max_order, left)
                o = draw(ordtuple(dim, min(min_order, hi) if j == 0 else 0, hi))
                left -= sum(o)
                p = 1
                if sum(o) == 0 and not linear:
                    p = draw(st.integers(1, max_power)) if draw(st.booleans()) else 1
                    if recip and draw(st.integers(0, 5)) == 0:
                        p = -p
                elif not linear and left >= sum(o) and max_power > 1 and draw(st.integers(0, 4)) == 0:
                    p = 2
                    left -= sum(o)
                fac.append(['p', draw(st.integers(0, nf - 1)), o, p])
            if nk and draw(st.booleans()):
                o = draw(ordtuple(dim, 0, min(1, left))) if const_deriv else [0] * dim
                left -= sum(o)
                fac.append(['k', draw(st.integers(0, nk - 1)), o, 1])
            if nx and draw(st.booleans()):
                o = draw(ordtuple(dim, 1, 1)) if left >= 1 and draw(st.integers(0, 3)) == 0 else [0] * dim
                left -= sum(o)
                # the exogenous function, its derivative, its trend
                fac.append(['x', draw(st.integers(0, nx - 1)), o, 1] + ([1] if explicit and draw(st.integers(0, 3)) == 0 else []))
            if explicit and draw(st.integers(0, 9)) == 0:
                kinds = ['x', 'x', 'x2', 't', 'tx'] + (['sin', 'exp'] if trans else [])
                fac.append(['e', draw(st.integers(0, dim - 1)), [0] * dim, 1, draw(st.sampled_from(kinds))])
            if trans and draw(st.booleans()):
                name = draw(st.sampled_from(TRANS + (TRANSK if nc else [])))
                o = [0] * dim
                if left >= 1 and name not in ('sqrt', 'log', 'upow') and draw(st.integers(0, 3)) == 0:
                    o = draw(ordtuple(dim, 1, 1))
                    left -= 1
                fac = fac[:1] if draw(st.booleans()) else []
                if transprod:
                    # products of transcendental factors
                    for other in draw(st.lists(st.sampled_from(['sin', 'cos', 'exp', 'tanh', 'recip', 'cbrt']), min_size=1, max_size=2)):
                        fac.append(['n', draw(st.integers(0, nf - 1)), [0] * dim, 1, other])
                fac.append(['n', draw(st.integers(0, nf - 1)), o, 1, name]
                           + ([draw(st.integers(0, nc - 1))] if name in TRANSK else []))
            t = {'q': [draw(st.sampled_from([1, -1, 2, -3, 5])), draw(st.sampled_from([1, 1, 2, 3]))],
                 'f': fac}
            if nc and draw(st.booleans()):
                t['c'] = [draw(st.integers(0, nc - 1))]
            if outer and left >= 1 and draw(st.integers(0, 3)) == 0:
                t['d'] = draw(ordtuple(dim, 1, min(2, left)))
            terms.append(t)
        if draw(st.integers(0, 7)) == 0 and (nk or nx):
            terms.append({'q': [1, 1], 'f': [['x', 0, [0] * dim, 1] if nx else ['k', 0, [0] * dim, 1]]})
        eqs.append(terms)
    return {'dim': dim, 'coords': co, 'fields': fields, 'consts': cs, 'cfuns': ks, 'xfuns': xs,
            'eqs': eqs}


class Built:
    """sympy objects of a PDE specification"""

    def __init__(self, spec):
        self.spec = spec
        self.dim = spec['dim']
        self.t = T
        self.x = tuple(Symbol(c) for c in spec['coords'])
        self.fields = [Function(n)(T, *self.x) for n in spec['fields']]
        self.consts = [Symbol(n) for n in spec['consts']]
        self.cfuns = [Function(n)(*self.x) for n in spec['cfuns']]
        self.xfuns = [Function(n)(T, *self.x) for n in spec['xfuns']]
        self.rhs = [sympy.Add(*[self.term(t) for t in eq]) for eq in spec['eqs']]
        self.equations = [sympy.Eq(Derivative(f, T), r, evaluate=False)
                          for f, r in zip(self.fields, self.rhs)]

    def deriv(self, f, o, trend=0):
        vc = [(self.t, trend)] * bool(trend) + [(x, n) for x, n in zip(self.x, o) if n]
        return Derivative(f, *vc) if vc else f

    def term(self, t):
        pool = {'p': self.fields, 'k': self.cfuns, 'x': self.xfuns}
        out = Rational(*t['q'])
        for c in t.get('c', []):
            out = out * self.consts[c]
        body = Mul(*[self.trans(f) if f[0] == 'n' else self.explicit(f) if f[0] == 'e' else
                     self.deriv(pool[f[0]][f[1]], f[2], *f[4:]) ** Integer(f[3]) for f in t['f']])
        if t.get('d'):
            vc = [(x, n) for x, n in zip(self.x, t['d']) if n]
            body = Derivative(body, *vc)
        return out * body

    def explicit(self, f):
        x, t = self.x[f[1]], self.t
        return {'x': x, 'x2': x ** 2, 't': t, 'tx': 1 + t * x, 'sin': sympy.sin(x), 'exp': sympy.exp(-x)}[f[4]]

    def trans(self, f):
        a = self.deriv(self.fields[f[1]], f[2])
        name = f[4]
        if name == 'recip':
            return 1 / (1 + a ** 2)
        if name == 'sqrt':
            return sympy.sqrt(a)
        if name == 'cbrt':
            return sympy.sqrt(1 + a ** 2)
        if name in TRANSK:
            k = self.consts[f[5]]
            return {'expk': sympy.exp(-k * a ** 2), 'powk': (1 + a ** 2) ** k, 'upow': a ** k,
                    'sink': sympy.sin(k * a)}[name]
        return getattr(sympy, name)(a)

    def uses(self):
        """function applications which really appear in the right-hand sides"""
        s = set()
        for r in self.rhs:
            s |= r.atoms(sympy.core.function.AppliedUndef)
        return s


def spec_orders(spec):
    """largest derivative order of a term"""
    m = 0
    for eq in spec['eqs']:
        for t in eq:
            m = max(m, max([sum(f[2]) for f in t['f']] + [0]) + sum(t.get('d') or []))
    return m


def is_nonlinear(spec):
    return any(sum(abs(f[3]) for f in t['f'] if f[0] == 'p') > 1 or any(f[0] == 'n' for f in t['f'])
               for eq in spec['eqs'] for t in eq)


def is_trans(spec):
    return any(f[0] == 'n' or f[0] == 'e' and f[4] in ('sin', 'exp') for eq in spec['eqs'] for t in eq for f in t['f'])


def labels(spec):
    out = {f"dim{spec['dim']}", f"fields{len(spec['fields'])}", f"order{spec_orders(spec)}"}
    out.add('nonlinear' if is_nonlinear(spec) else 'linear')
    if is_trans(spec):
        out.add('transcendental')
    for eq in spec['eqs']:
        if not any(f[0] in 'pn' for t in eq for f in t['f']):
            out.add('stationary-error')
        for t in eq:
            if t.get('d'):
                out.add('flux-form')
            if any(f[0] == 'k' for f in t['f']):
                out.add('coefficient-field')
            if any(f[0] == 'x' for f in t['f']):
                out.add('exogenous')
            if any(f[0] == 'x' and len(f) > 4 for f in t['f']):
                out.add('exogenous-trend')
            if any(f[0] == 'e' for f in t['f']):
                out.add('explicit-coordinate')
            if t.get('c'):
                out.add('constant')
            if any(f[3] < 0 for f in t['f']):
                out.add('reciprocal')
    return out
