"""C24  rendering of expressions and systems, names of variables"""
import keyword
import re

import sympy
from hypothesis import strategies as st
from sympy import Derivative, Function, Symbol
from sympy.core.function import AppliedUndef
from sympy.printing.latex import LatexPrinter
from sympy.printing.str import StrPrinter

from .. import gen, models
from .. import randexpr as rx
from ..core import Check, OutOfDomain, require
from ..pkfcheck import P1M, P1S, P2A, case_strategy, setup

RULE = ("expression: random expression trees with expectations in products, sums, powers, quotients, functions, derivatives, "
        "integrals, equations and matrices; LaTeX is the one an independent printer gives, up to the style of brackets; "
        "the text is that of a plain function. system: every equation, unclosed term, "
        "internal identity and summary derived from random systems renders likewise. code: the variables of models generated from random systems (mixed and neighbouring orders of derivatives included) are valid and distinct. names: random names made of letters, "
        "Greek letters, accents, indices, exponents, primes and signs are translated to identifiers, the same ones at "
        "every call, clean names to themselves; names which differ by more than marks keep distinct identifiers, as do "
        "all the statistics of a system. Non-trivial: an expectation is rendered, or the name has marks.")
ASSUMPTIONS = ["brackets of any kind and size, exponents of an expectation before or after its argument; names of fields "
               "which are not concatenations of one another (V_{u}{v} is V_uv)"]


class Printer(LatexPrinter):
    """independent rendering of the expectation; style 0: E(X)^2, 1: E^2(X)"""
    style = 0

    def _print_Expectation(self, e, exp=None):
        arg = r'\left(%s\right)' % self._print(e.args[0])
        p = '' if exp is None else '^{%s}' % exp
        return r'{\mathbb E}' + (arg + p if self.style == 0 else p + arg)


class Text(StrPrinter):
    def _print_Expectation(self, e):
        return 'Expectation(%s)' % self._print(e.args[0])


def normal(tex):
    tex = tex.replace(r'\left', '').replace(r'\right', '')
    tex = re.sub(r'\\[bB]ig+[lr]?|\\[,;:! ]|[{}\s]', '', tex)
    return tex.replace('[', '(').replace(']', ')')


def rendered(obj, what):
    got = sympy.latex(obj)
    require(isinstance(got, str) and got, lambda: f'{what}: LaTeX is {got!r}')
    want = []
    for style in (0, 1):
        p = Printer()
        p.style = style
        want.append(p.doprint(obj))
    require(normal(got) in [normal(w) for w in want],
            lambda: f'{what}: LaTeX of {str(obj)[:400]}\n  is       {got[:600]}\n  expected {want[0][:600]}')
    for a, b in (('{', '}'), (r'\left', r'\right')):
        require(len(re.findall(re.escape(a) + ('(?![a-z])' if len(a) > 1 else ''), got)) ==
                len(re.findall(re.escape(b) + ('(?![a-z])' if len(a) > 1 else ''), got)),
                lambda: f'{what}: unbalanced {a} {b} in {got[:600]}')
    if isinstance(obj, sympy.MatrixBase):
        for e in obj:
            rendered(e, what)
        return got
    text, expected = str(obj), Text().doprint(obj)
    require(text == expected, lambda: f'{what}: text {text[:400]}\n  expected {expected[:400]}')
    require(isinstance(sympy.pretty(obj, use_unicode=False), str) and repr(obj), f'{what}: no text')
    return got


def case_expression():
    return st.fixed_dictionaries({'e': rx.exprs(max_leaves=7, nested=True), 'p': rx.exprs(max_leaves=6, polynomial=True),
                                  'which': st.sampled_from('eep'), 'n': st.sampled_from([1, 2, 3, -1, -2, 5]),
                                  'root': st.sampled_from(['none', 'sqrt', 'symbol', 'half', 'exp']),
                                  'wrap': st.sampled_from(['none', 'eq', 'derivative', 'matrix', 'ratio', 'unevaluated',
                                                           'list'])})


def run_expression(case, rec):
    from sympkf.symbolic.random import Expectation
    tree = case[case['which']]
    try:
        ref = rx.build(tree, rx.RefExpectation)
    except Exception:
        raise OutOfDomain('no such expression')
    if ref.has(sympy.zoo, sympy.nan, sympy.oo):
        raise OutOfDomain('infinite')
    e = Expectation(rx.build(tree, Expectation))
    rec.label(case['wrap'], case['root'])
    rec.trivial_unless(e.has(Expectation))
    e = e ** case['n']
    e = {'none': lambda: e, 'sqrt': lambda: sympy.sqrt(e), 'symbol': lambda: e ** Symbol('n'),
         'half': lambda: e ** sympy.Rational(-3, 2), 'exp': lambda: sympy.exp(e)}[case['root']]()
    if not isinstance(e, sympy.Basic) or e.has(sympy.zoo, sympy.nan):
        raise OutOfDomain('infinite')
    x = rx.X
    obj = {'none': lambda: e, 'eq': lambda: sympy.Eq(Derivative(Function('f')(x), x), e, evaluate=False),
           'derivative': lambda: Derivative(e, x, 2) ** 2 if e.has(x) else e, 'matrix': lambda: sympy.Matrix([[e, x], [1, e ** 2]]),
           'ratio': lambda: x * e / (1 + e), 'list': lambda: e,
           'unevaluated': lambda: Expectation(e * Function('X')(x, rx.OMEGA_SYM), evaluate=False) ** 2}[case['wrap']]()
    got = rendered(obj, 'expression')
    if case['wrap'] == 'list':
        tex = sympy.latex([obj, {obj: x}, (obj,)])
        require(tex.count(got) >= 3, lambda: f'LaTeX of a list with {got[:300]}: {tex[:600]}')


# ---------------------------------------------------------------- derived systems

def run_system(case, rec):
    from sympkf.symbolic.random import Expectation
    from sympkf.symbolic.util import PDESystem
    spec = case['pde']
    names = spec['fields'] + spec['consts'] + spec['cfuns'] + spec['xfuns'] + spec['coords']
    if len({models.clean(n) for n in names}) < len(names):
        raise OutOfDomain('names')
    built, pkf = setup(case)
    rec.label(*gen.labels(spec))
    eqs = list(pkf.in_metric) + (list(pkf.in_aspect) if built.dim == 1 and len(built.fields) == 1 else [])
    eqs += list(pkf.epsilon_system) + list(pkf.error_system)
    rec.trivial_unless(any(e.args[1].has(Expectation) for e in eqs))
    for e in eqs:
        got = rendered(e, 'equation')
        require(got.count(r'\mathbb') == count(e), lambda: f'{got.count("mathbb")} expectations rendered in {e}')
    for u in pkf.unclosed_terms:
        rendered(u, 'unclosed term')
    for a, b in list(pkf.subs_tree.items())[:12]:
        rendered(a, 'identity')
        rendered(b, 'identity')
    text = repr(PDESystem(list(built.equations)))
    # the summary lists the functions and constants of the system
    uses = built.uses()
    for f in built.fields + [f for f in built.cfuns + built.xfuns if f in uses]:
        require(str(f) in text, lambda: f'{f} is not in the summary\n{text}')
    identifiers(pkf, built)


def identifiers(pkf, built):
    """all the statistics have distinct identifiers"""
    from sympkf.symbolic.tool import clean_latex_name
    quantities = []
    for f in built.fields:
        mf = pkf.fields[f]
        quantities += [f, mf.variance, mf.std, mf.error, mf.epsilon]
        for name in ('metric', 'aspect', 'diffusion'):
            m = getattr(mf, name)
            quantities += [m[i, j] for i in range(built.dim) for j in range(i, built.dim)]
    F = built.fields
    quantities += [pkf.get_covariance(F[i], F[j]) for i in range(len(F)) for j in range(i + 1, len(F))]
    require(len(set(quantities)) == len(quantities), lambda: f'the statistics are not distinct: {quantities}')
    codes = {}
    for q in quantities:
        c = clean_latex_name(q.func)
        require(valid(c), lambda: f'{q.func} is translated to {c!r}')
        require(codes.setdefault(c, q) == q, lambda: f'{q} and {codes[c]} have the same identifier {c}')


def combined():
    """names which are made of the same letters: A + B -> AB"""
    pool = st.lists(st.sampled_from(['A', 'B', 'u', 'O', '2', '\\rho']), min_size=1, max_size=3).map(''.join).filter(
        lambda n: not n[0].isdigit())
    groups = st.lists(st.sampled_from(['A', 'B']), min_size=1, max_size=3).map(''.join)
    return st.fixed_dictionaries({'names': st.one_of(*[st.lists(g, min_size=2, max_size=5, unique=True) for g in (pool, groups, groups)]),
                                  'dim': st.integers(1, 2)})


def run_combined(case, rec):
    from sympkf import SymbolicPKF
    if len({models.clean(n) for n in case['names']}) < len(case['names']):
        raise OutOfDomain('names')
    x = sympy.symbols('x y')[:case['dim']]
    fields = [Function(n)(gen.T, *x) for n in case['names']]
    built = type('B', (), {'fields': fields, 'dim': len(x)})
    pkf = SymbolicPKF([sympy.Eq(Derivative(f, gen.T), -f) for f in fields])
    pairs = [a + b for i, a in enumerate(case['names']) for b in case['names'][i + 1:]]
    rec.trivial_unless(len(set(pairs + case['names'])) < len(pairs + case['names']))
    identifiers(pkf, built)
    for i, f in enumerate(fields):
        for g in fields[:i]:
            require(pkf.get_covariance(f, g) == pkf.get_covariance(g, f), lambda: f'covariance of {f} and {g}')


def count(e):
    return sum(1 for a in sympy.preorder_traversal(e) if type(a).__name__ == 'Expectation')


# ---------------------------------------------------------------- names

LETTERS = list('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ')
GREEK = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'varepsilon', 'zeta', 'eta', 'theta', 'iota', 'kappa', 'lambda', 'mu',
         'nu', 'xi', 'pi', 'rho', 'sigma', 'tau', 'phi', 'varphi', 'chi', 'psi', 'omega', 'Gamma', 'Delta', 'Theta',
         'Lambda', 'Xi', 'Pi', 'Sigma', 'Phi', 'Psi', 'Omega']
WORDS = ['Pr', 'Re', 'CO_2', 'temperature', 'u10', 'lon', 'lat', 'O3', 'mask', 'wind_speed', 'in', 'is', 'as', 'not', 'or',
         'if', 'class', 'for', 'None', 'del', 'pass', 'with', 'def', 'match', 'self_']
KINDS = ['letter', 'letter', 'greek', 'greek', 'word']
ACCENT = ['bar', 'hat', 'tilde', 'dot', 'vec', 'mathbf', 'mathrm', 'mathcal']


def base():
    return st.one_of(st.sampled_from(LETTERS), st.sampled_from(['\\' + g for g in GREEK]), st.sampled_from(WORDS))


@st.composite
def name(draw):
    b = draw(base())
    if draw(st.integers(0, 3)) == 0:
        a = draw(st.sampled_from(ACCENT))
        b = draw(st.sampled_from(['\\%s{%s}', '\\%s %s', '{\\%s{%s}}'])) % (a, b)
    if draw(st.integers(0, 7)) == 0:
        b = '{%s}' % b
    if draw(st.booleans()):
        i = draw(st.sampled_from(['0', '1', '12', 'i', 'ij', 'i,j', 'xx', 'x,y', 'u,xx', 'max', '\\alpha', '*', 'i+1', 'k-1', '1/2']))
        b += draw(st.sampled_from(['_{%s}', '_%s']) if len(i) == 1 else st.just('_{%s}')) % i
    if draw(st.integers(0, 2)) == 0:
        b += '^' + draw(st.sampled_from(['2', '{2}', '+', '-', '{n}', '{-1}', '\\ast', '{(k)}']))
    if draw(st.integers(0, 5)) == 0:
        b += draw(st.sampled_from(["'", "''", '*']))
    return b


def valid(s):
    return isinstance(s, str) and s.isidentifier() and not keyword.iskeyword(s)


def case_names():
    return st.fixed_dictionaries({'names': st.lists(name(), min_size=2, max_size=6, unique=True),
                                  'as': st.sampled_from(['str', 'symbol', 'function', 'class'])})


def run_names(case, rec):
    from sympkf.symbolic.tool import clean_latex_name
    x = Symbol('x')
    give = {'str': lambda n: n, 'symbol': Symbol, 'function': lambda n: Function(n), 'class': lambda n: Function(n)(x).func}
    out = {}
    for n in case['names']:
        arg = give[case['as']](n)
        c = clean_latex_name(arg)
        require(valid(c), lambda: f'{n!r} is translated to {c!r}, not an identifier')
        require(clean_latex_name(arg) == c and clean_latex_name(n) == c, lambda: f'{n!r} is translated to several names')
        require(clean_latex_name(c) == c, lambda: f'{n!r} is translated to {c!r}, itself translated to {clean_latex_name(c)!r}')
        if valid(n):
            require(c == n, lambda: f'the clean name {n!r} is translated to {c!r}')
        # letters and digits are kept, in their order
        keep = lambda s: [ch for ch in s if ch.isalnum()]
        require(keep(c) == keep(n), lambda: f'{n!r} is translated to {c!r}: letters and digits changed')
        out[n] = c
        rec.label('marks' if n != c else 'clean')
    rec.trivial_unless(any(n != c for n, c in out.items()))
    for a in out:
        for b in out:
            if models.clean(a) != models.clean(b):
                require(out[a] != out[b], lambda: f'{a!r} and {b!r} have the same identifier {out[a]!r}')


def case_code():
    return st.fixed_dictionaries({'s': st.one_of(models.system(), models.high_orders(), models.high_orders()),
                                  'builder': st.sampled_from(['FD', 'manifold'])})


def run_code(case, rec):
    """identifiers of the generated code"""
    from sympkf.symbolic import FDModelBuilder
    from sympkf.symbolic.model_builder_manifold import ManifoldModelBuilder
    s = models.System(case['s'])
    rec.label(*models.labels(case['s']))
    cls = {'FD': FDModelBuilder, 'manifold': ManifoldModelBuilder}[case['builder']]

    def table():
        b = cls(list(s.equations))
        out = [(f.as_keyvar, f.as_symbolic) for f in b.functions]
        out += [(c.as_keyvar, c.as_symbolic) for c in b.constants]
        out += [(d.as_keyvar, d.as_symbolic) for d in b.spatial_derivatives]
        out += [(f.trend, ('trend', f.as_symbolic)) for f in b.prognostic_functions]
        for role in (b.prognostic_functions, b.exogenous_functions, b.constant_functions):
            for f in role:
                require((f.as_keyvar, f.as_symbolic) in out, lambda: f'{f.as_symbolic} is {f.as_keyvar} in its role')
        return out, [(c.as_keyvar, c.as_symbolic) for c in b.spatial_coordinates]
    out, coords = table()
    rec.trivial_unless(len(out) > 2)
    for names in (out, coords):
        codes = {}
        for c, q in names:
            require(valid(c), lambda: f'{q} is translated to {c!r}')
            require(codes.setdefault(c, q) == q, lambda: f'{q} and {codes[c]} have the same identifier {c} in the generated code')
    require(len({str(q) for _, q in coords}) == len(s.x), lambda: f'coordinates {coords}')
    again = table()
    require(sorted(map(str, again[0])) == sorted(map(str, out)) and again[1] == coords, 'other identifiers at the second translation')


CHECKS = [
    Check('code', case_code, run_code, 160, 4000, cpu=30),
    Check('expression', case_expression, run_expression, 400, 12000, cpu=30),
    Check('combined', combined, run_combined, 300, 3000, cpu=20),
    Check('system', case_strategy(P1S, P1S, dict(P1M, max_terms=1, total_order=1), dict(P2A, max_terms=1)), run_system, 40, 1000, cpu=60),
    Check('names', case_names, run_names, 1500, 60000, cpu=10),
]
