"""C20  equation arithmetic and expression utilities"""
import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Integer, Mul, Rational, Symbol
from sympy.core.function import AppliedUndef

from .. import models
from ..core import Check, OutOfDomain, Violation, require
from ..models import System
from ..numeval import same_values

RULE = ("Random equations between random expressions in fields, derivatives and constants: each operation is compared, by "
        "value at random polynomial fields, with the same operation on the two members. Utilities are compared with their "
        "definition (Leibniz and Taylor formulas for substituted derivatives; shifts chosen by the generator). Non-trivial: "
        "both members are not zero (equations), at least two terms or variables (utilities).")
ASSUMPTIONS = ["an isolated term occurs linearly in the equation and nowhere else"]


def side(dim=2):
    return models.system(max_fields=2, max_order=3, dims=(1, 2), trans=False, nested=False, time=False, pos=False)


def strategy_eq():
    return st.fixed_dictionaries({
        's': models.system(max_fields=3, max_order=3, dims=(1, 2, 2), trans=False, time=False, pos=False),
        'op': st.sampled_from(['neg', 'add', 'sub', 'rmul', 'lmul', 'imul', 'imul-eq', 'subs', 'subs-pair', 'doit', 'expand',
                               'isolate', 'isolate', 'isolate', 'chain']),
        'c': st.integers(-3, 3), 'den': st.integers(1, 3), 'k': st.integers(0, 5), 'extra': st.integers(0, 5),
        'kind': st.sampled_from(['number', 'symbol', 'field', 'derivative', 'sum']), 'seed': st.integers(0, 10 ** 6)})


def sides(s):
    rhs = list(s.rhs) + [s.fields[0], s.rhs[0] * 2 + 1, Derivative(s.fields[0], s.x[0])]
    return rhs


def run_eq(case, rec):
    from sympkf.symbolic.util import Eq
    s = System(case['s'])
    seed = case['seed']
    rhs = sides(s)
    A, B = rhs[case['k'] % len(rhs)], rhs[(case['k'] + 1 + case['extra']) % len(rhs)]
    C, D = rhs[case['extra'] % len(rhs)], rhs[(case['extra'] + 1) % len(rhs)]
    sym = Symbol('zeta')
    factor = {'number': lambda: Rational(case['c'], case['den']), 'symbol': lambda: sym,
              'field': lambda: s.fields[0], 'derivative': lambda: Derivative(s.fields[0], s.x[-1]),
              'sum': lambda: s.fields[0] + sym - 2}[case['kind']]()
    op = case['op']
    rec.label(op, case['kind'] if 'mul' in op else 'sides')
    e1, e2 = Eq(A, B, evaluate=False), Eq(C, D, evaluate=False)
    keep = (str(e1), str(e2))
    rec.trivial_unless(A != 0 and B != 0)

    def same(got, want, what):
        """got: equation (or a truth value when its members are the same)"""
        if isinstance(got, sympy.logic.boolalg.BooleanAtom):
            if got:
                same_values([(want[0], want[1])], s.x, s.t, seed, f'{what} is an identity', mp=False, positive=True)
            else:
                num = (want[0] - want[1]).doit().expand()
                require(num.is_number and num != 0, lambda: f'{what} is false: {want}')
            return
        require(type(got).__name__ == type(e1).__name__ and isinstance(got, Eq), lambda: f'{what}: type {type(got)}')
        same_values([(got.args[0], want[0]), (got.args[1], want[1])], s.x, s.t, seed, what, mp=False, positive=True)

    if op == 'neg':
        same(-e1, (-A, -B), '-e')
    elif op == 'add':
        same(e1 + e2, (A + C, B + D), 'e1 + e2')
    elif op == 'sub':
        same(e1 - e2, (A - C, B - D), 'e1 - e2')
    elif op == 'rmul':
        same(e1 * factor, (A * factor, B * factor), f'e * ({factor})')
    elif op == 'lmul':
        same(factor * e1, (A * factor, B * factor), f'({factor}) * e')
    elif op == 'imul':
        e = e1
        e *= factor
        same(e, (A * factor, B * factor), f'e *= {factor}')
    elif op == 'imul-eq':
        e = e1
        e *= e2
        same(e, (A * C, B * D), 'e1 *= e2')
    elif op in ('subs', 'subs-pair'):
        # a constant, or a field, is replaced everywhere in both members
        old = s.consts[0] if s.consts and case['c'] % 2 else s.fields[-1]
        new = {'number': lambda: Integer(2), 'symbol': lambda: sym}.get(case['kind'], lambda: s.fields[0] + sym * s.x[0])()
        if old == s.fields[0] and new.has(old):
            new = sym + s.x[0]
        got = e1.subs({old: new}) if op == 'subs' else e1.subs(old, new)
        ref = lambda e: e.subs(old, new).doit()
        if isinstance(got, Eq):
            got = got.doit()
        same(got, (ref(A), ref(B)), f'subs {old} -> {new}')
    elif op == 'doit':
        got = e1.doit()
        same(got, (A, B), 'doit')
        flux = [d for d in got.atoms(Derivative) if not isinstance(d.args[0], AppliedUndef)]
        require(not flux, lambda: f'doit leaves {flux}')
    elif op == 'expand':
        got = e1.expand()
        same(got, (A, B), 'expand')
        if isinstance(got, Eq):
            for m in got.args:
                require(not m.is_Mul or not any(a.is_Add for a in m.args), lambda: f'expand leaves {m}')
    elif op == 'chain':
        total, scaled = e1 + e2, e2 * factor
        if isinstance(total, Eq):
            total = total * factor
        if not isinstance(total, Eq) or not isinstance(scaled, Eq):   # an identity has no members left
            if not isinstance(total, Eq):
                same(total, ((A + C) * factor, (B + D) * factor), '(e1 + e2) * f')
            if not isinstance(scaled, Eq):
                same(scaled, (C * factor, D * factor), 'e2 * f')
            return
        got = total - scaled
        same(got, (A * factor, B * factor), '(e1 + e2) * f - e2 * f')
    else:
        isolate(case, s, A, B, same, rec)
        return
    require(keep == (str(e1), str(e2)), 'the operands were modified')


def isolate(case, s, A, B, same, rec):
    from sympkf.symbolic.util import Eq
    f = Function('phi')(s.t, *s.x)
    what = [Derivative(f, s.t), f, Symbol('zeta'), Derivative(f, s.x[0], s.x[-1]), Derivative(f, s.t), Derivative(f, s.x[0])][case['extra'] % 6]
    coef = [Integer(1), Integer(-1), Rational(case['den'] + 1, 3), Symbol('b'), s.fields[0] ** 2 + 2, s.fields[0]][case['k'] % 6]
    other = f ** 2 + f * s.fields[0] if case['extra'] in (0, 3, 4) else Integer(0)
    place = case['seed'] % 3
    A, B = A + other, B
    if place == 0:
        e = Eq(coef * what + A, B, evaluate=False)
        want = (B - A) / coef
    elif place == 1:
        e = Eq(A, coef * what + B, evaluate=False)
        want = (A - B) / coef
    else:
        e = Eq(coef * what + A, B - 3 * coef * what, evaluate=False)
        want = (B - A) / coef / 4
    if (A - B).atoms(Derivative) and any(d.args[0] != dd for d in (A - B).atoms(Derivative) for dd in d.args[0].atoms(AppliedUndef)):
        raise OutOfDomain('unevaluated flux')
    rec.trivial_unless(True)
    keep = str(e)
    got = e.isolate(what)
    require(str(e) == keep, 'the equation was modified')
    if isinstance(got, sympy.logic.boolalg.BooleanAtom):
        require(bool(got) and (want - what).simplify() == 0, lambda: f'isolate({what}) in {keep} is {got}')
        return
    require(isinstance(got, Eq) and got.args[0] == what, lambda: f'isolate({what}) has {got.args[0]} on the left')
    require(not got.args[1].has(what), lambda: f'isolate({what}): {what} is also on the right: {got.args[1]}')
    same_values([(got.args[1], want)], s.x, s.t, case['seed'], f'isolate({what}) in {keep}', mp=False, positive=True)


# ---------------------------------------------------------------------------- substituted derivatives
@st.composite
def strategy_shift(draw):
    dim = draw(st.integers(1, 3))
    nf = draw(st.integers(1, 3))
    return {'dim': dim, 'names': draw(st.sampled_from(models.COORDS))[:dim],
            'factors': [[draw(st.sampled_from(['f', 'g', 'h', '\\rho'])), draw(st.booleans()),
                         draw(st.lists(st.sampled_from([0, 1, 1, -1, 2, -3]), min_size=dim, max_size=dim))] for _ in range(nf)],
            'm': draw(st.lists(st.sampled_from([0, 1, 1, 2, 3]), min_size=3, max_size=3).filter(lambda m: sum(m) < 6)), 'q': draw(st.sampled_from([1, -2, 3])), 'seed': draw(st.integers(0, 10 ** 6)),
            'plain': draw(st.booleans()), 'h0': draw(st.booleans())}


def run_shift(case, rec):
    """derivatives with respect to steps, one coordinate after the other (as in a Taylor expansion)"""
    from sympkf.symbolic.util import remove_eval_derivative
    x = [Symbol(n) for n in case['names']]
    t = Symbol('t')
    h = [Symbol(f'h_{i}') for i in range(len(x))]
    fs = [Function(n)(*(([t] if time else []) + x)) for n, time, _ in case['factors']]
    shifts = [c for _, _, c in case['factors']]
    orders = case['m'][:len(x)]
    rec.label(f"dim{case['dim']}", f'order{sum(orders)}', f'factors{len(fs)}')
    rec.trivial_unless(any(m and any(c[i] for c in shifts) for i, m in enumerate(orders)))
    extra = x[0] * Derivative(fs[0], x[0]) + Symbol('a') if case['plain'] else Integer(0)
    cur = case['q'] * Mul(*[f.xreplace({v: v + k * s for v, k, s in zip(x, c, h)}) for f, c in zip(fs, shifts)])
    for s, m in zip(h, orders):
        d = (cur.diff(s, m) if m else cur).subs(s, 0)
        d = d + extra if s == h[-1] else d
        for q in d.atoms(Derivative):
            if any(not v.is_Symbol for v, _ in q.args[1:]):
                raise OutOfDomain('sympy gives a derivative with respect to an expression')
        keep = str(d)
        cur = remove_eval_derivative(d)
        require(str(d) == keep, 'the expression was modified')
        require(not cur.atoms(sympy.Subs), lambda: f'{cur} has substitutions')
    # Leibniz and Taylor formulas
    terms = [(Integer(case['q']), [[0] * len(x) for _ in fs])]
    for i, m in enumerate(orders):
        for _ in range(m):
            new = []
            for c, al in terms:
                for k in range(len(fs)):
                    if shifts[k][i]:
                        a2 = [list(a) for a in al]
                        a2[k][i] += 1
                        new.append((c * shifts[k][i], a2))
            terms = new
    want = extra + sympy.Add(*[c * Mul(*[sympy.diff(f, *[(v, n) for v, n in zip(x, a)]) for f, a in zip(fs, al)]) for c, al in terms])
    same_values([(cur, want)], tuple(x), t, case['seed'], 'remove_eval_derivative', mp=False, positive=False)


# ---------------------------------------------------------------------------- helpers
@st.composite
def strategy_help(draw):
    dim = draw(st.integers(1, 3))
    return {'dim': dim, 'names': draw(st.permutations(draw(st.sampled_from(models.COORDS))[:dim])), 'time': draw(st.booleans()),
            'f': draw(st.sampled_from(['u', '\\rho', 'c_0', 'd', 'dx'])),
            'shift': draw(st.lists(st.sampled_from([[0, 1], [1, 1], [-1, 1], [3, 2], [-5, 2], [2, 1]]), min_size=3, max_size=3)),
            'orders': draw(st.lists(st.integers(0, 4), min_size=3, max_size=3)), 'n': draw(st.integers(1, 4)), 'm': draw(st.integers(0, 2)),
            'seed': draw(st.integers(0, 10 ** 6)), 's': draw(models.system(max_fields=2, max_order=2, trans=True, nested=False, time=False)),
            'seq': draw(st.booleans())}


def run_help(case, rec):
    from sympkf.symbolic import util
    x = [Symbol(n) for n in case['names']]
    t = util.time_coordinate
    args = ([t] if case['time'] else []) + x
    f = Function(case['f'])(*args)
    rec.label(f"dim{case['dim']}")
    rec.trivial_unless(len(args) > 1)
    # coordinates of a function evaluated on a grid
    dx = {v: Symbol('d' + v.name) for v in args}
    sub = {v: v + Rational(*k) * dx[v] for v, k in zip(x, case['shift'])}
    for g in (f, f.xreplace(sub), f.subs(sub)):
        for fn in (util.get_coordinates, util.get_function_coordinates):
            got = fn(g)
            require([list(a) for a in got] == [args, [dx[v] for v in args]], lambda: f'{fn.__name__}({g}) is {got}')
    # partial and total orders
    o = [(v, n) for v, n in zip(x, case['orders']) if n]
    if o:
        d = Derivative(f, *(o if case['seq'] else reversed(o)))
        require(util.get_derivative_partial_orders(d) == dict(o), lambda: f'partial orders of {d}: {util.get_derivative_partial_orders(d)}')
        require(util.get_total_order(d) == sum(n for _, n in o), lambda: f'total order of {d}: {util.get_total_order(d)}')
        if case['time']:
            trend = Derivative(f, t)
            for e in (sympy.Eq(trend, d + f), sympy.Eq(trend, f * d), sympy.Eq(trend + d, 0), sympy.Eq(trend, 0),
                      sympy.Eq(trend, Derivative(f, t, 2)), sympy.Eq(Derivative(f, t, 3) + d * trend, f)):
                require(util.get_trend(e) == trend, lambda: f'get_trend({e}) is {util.get_trend(e)}')
    # upper triangles
    n, m = case['n'], case['n'] + case['m']
    ent = [[Symbol(f'm{i}_{j}') if (i + j + case['seed']) % 4 else f * (i - j) for j in range(m)] for i in range(n)]
    want = [ent[i][j] for i in range(n) for j in range(i, m)]
    for M in (util.Matrix(ent), sympy.Matrix(ent), sympy.ImmutableMatrix(ent)):
        got = util.upper_triangle(M)
        require(list(got) == want, lambda: f'upper_triangle: {got}, expected {want}')
    require(list(util.Matrix(ent).upper_triangle) == want, 'Matrix.upper_triangle')
    # coordinate systems
    cs = util.CoordinateSystem(tuple(x))
    require(list(cs) == x and list(cs) == x, 'iteration on the coordinates')
    a = Symbol('a')
    for e in (f, a * f ** 2, sympy.sin(f), f * sympy.exp(a * f)):
        g = cs.gradient(e)
        require(g.shape == (len(x), 1), lambda: f'shape of the gradient {g.shape}')
        same_values([(g[i].doit(), sympy.diff(e, v)) for i, v in enumerate(x)], tuple(x), t, case['seed'], 'gradient', positive=True)
    vec = [f ** (i + 1) * a + f for i in range(len(x))]
    dv = cs.div(util.Matrix(vec) if case['seq'] else vec)
    same_values([(sympy.sympify(dv).doit(), sympy.Add(*[sympy.diff(c, v) for c, v in zip(vec, x)]))], tuple(x), t, case['seed'], 'div')
    require(cs.is_compatible(f) is True, f'{f} is not compatible with {x}')
    partial = Function('p')(*([t] + x[1:]))
    require(cs.is_compatible(partial) is False, f'{partial} is compatible with {x}')
    for bad in (lambda: cs.gradient(partial * f), lambda: cs.div([f] * (len(x) - 1) + [partial])):
        try:
            bad()
        except ValueError:
            continue
        raise Violation(f'{partial} is accepted in the coordinates {x}')


def run_compare(case, rec):
    from sympkf.symbolic.util import CompareEquation, CompareExpression
    s = System(case['s'])
    a = s.rhs[0]
    b = s.rhs[-1] + (a if case['seq'] else 0)
    rec.label(f"dim{case['s']['dim']}")
    rec.trivial_unless(a.is_Add or b.is_Add)

    def judge(c, a, b, what):
        one, two = [e.expand() for e in (a, b)]
        ta, tb = set(sympy.Add.make_args(one)), set(sympy.Add.make_args(two))
        require(set(c.common) == ta & tb, lambda: f'{what}: common {c.common}, expected {ta & tb}')
        require([set(v) for v in c.specific] == [ta - tb, tb - ta], lambda: f'{what}: specific {c.specific}')
        require([set(v) for v in c.sets] == [ta, tb], lambda: f'{what}: sets {c.sets}')
        for e, spec in zip((a, b), c.specific):
            same_values([(sympy.Add(*c.common, *spec), e)], s.x, s.t, case['seed'], f'{what}: terms', positive=True)
    keep = str(a), str(b)
    judge(CompareExpression(a, b), a, b, 'CompareExpression')
    c = CompareEquation(sympy.Eq(s.fields[0], a, evaluate=False), sympy.Eq(b, a, evaluate=False))
    judge(c.lhs, s.fields[0], b, 'CompareEquation.lhs')
    judge(c.rhs, a, a, 'CompareEquation.rhs')
    require(keep == (str(a), str(b)), 'the expressions were modified')


CHECKS = [
    Check('equation', strategy_eq, run_eq, 700, 20000, cpu=30),
    Check('substituted', strategy_shift, run_shift, 240, 8000, cpu=30),
    Check('helpers', strategy_help, run_help, 240, 8000, cpu=30),
    Check('compare', strategy_help, run_compare, 160, 6000, cpu=30),
]
