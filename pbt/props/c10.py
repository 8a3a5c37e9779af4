"""C10  internal statistical identities and reduction trees"""
from hypothesis import strategies as st
import sympy
from sympy import Derivative, Function, Symbol

from .. import gen
from ..core import Check, require
from ..pkfcheck import env_value, setup, with_reference
from ..pkfref import Reference
from ..sem import Env, OMEGA, Stream, UnitRandom, close, multi_indices

RULE = ("Random centred normalised fields (rational unit-vector fields on 8 outcomes) evaluate both "
        "sides of every identity exactly. Non-trivial: the tree holds at least one entry, or the "
        "closure of a system of at least two fields or two dimensions.")
ASSUMPTIONS = ["identities are evaluated on random fields with 8 outcomes and random rational "
               "Taylor coefficients at a random rational point"]

NAMES = [['x', 'y', 'z'], ['y', 'x', 'z'], ['z', 'x_1', 'x'], ['\\lambda', 'p', 'q'], ['r', 's', 'v'],
         ['x', 'x1', 'x2']]
TOP = {1: 7, 2: 5, 3: 4}


def dspec():
    """degrees relative to the largest of the dimension"""
    return st.lists(st.sampled_from([3, 2, 4, 5, None, 1, 6, 7, 0]), min_size=1, max_size=4)


def strategy_tree():
    return st.fixed_dictionaries({
        'dim': st.sampled_from([1, 1, 2, 2, 3]), 'names': st.sampled_from(NAMES),
        'field': st.sampled_from(['u', 'V', '\\theta', 'h^1']), 'asks': dspec(),
        'mutate': st.booleans(), 'direct': st.sampled_from([None, True, False]),
        'tfirst': st.booleans(), 'seed': st.integers(0, 10 ** 6)})


def expected_pairs(dim, degree):
    out = set()
    al = [a for a in multi_indices(dim, degree) if sum(a) >= 1]
    for a in al:
        for b in al:
            if sum(a) + sum(b) <= degree:
                out.add(tuple(sorted([a, b])))
    return out


def factors(term, eps, x):
    """orders (a, b) of a term E[D^a eps D^b eps], or None"""
    if type(term).__name__ != 'Expectation' or len(term.args) != 1:
        return None
    body = term.args[0]
    out = []
    for f, n in body.as_powers_dict().items():
        if not n.is_Integer or n <= 0:
            return None
        if f == eps:
            o = (0,) * len(x)
        elif isinstance(f, Derivative) and f.expr == eps:
            o = [0] * len(x)
            for v, c in f.variable_count:
                if v not in x:
                    return None
                o[x.index(v)] += int(c)
            o = tuple(o)
        else:
            return None
        out += [o] * int(n)
    return tuple(sorted(out)) if len(out) == 2 else None


def run_tree(case, rec):
    from sympkf.symbolic.pkfcas import Field, UnivariateTree
    dim, t = case['dim'], Symbol('t')
    x = tuple(Symbol(n) for n in case['names'][:dim])
    mf = Field(Function(case['field'])(t, *x))
    eps, omega = mf.epsilon, None
    omega = [s for s in eps.free_symbols if s != t and s not in x]
    require(len(omega) == 1, lambda: f'the error field {eps} has no single outcome variable')
    if case['direct'] is None:
        tree = mf.subs_tree
    else:
        tree = UnivariateTree(eps, x, self_substitute=case['direct'])
    stream = Stream(case['seed'])
    unit = UnitRandom(dim, stream.fork(), 2, 3)
    env = Env(dim, {v: i for i, v in enumerate(x)}, {v: stream.rational(2, 2) for v in x}, time=t,
              omega=omega[0], fields={eps: unit}, expect='Expectation')
    top, biggest, judged = TOP[dim], 0, {}
    rec.label(f'dim{dim}', f"asks{len(case['asks'])}")
    for ask in case['asks']:
        deg = None if ask is None else min(ask, top)
        got = tree() if deg is None else tree(deg)
        deg = biggest if deg is None else deg
        biggest = max(biggest, deg)
        rec.label(f'degree{deg}')
        if deg >= 2:
            rec.trivial_unless(True)
        seen = {}
        for key, value in got.items():
            o = factors(key, eps, x)
            require(o is not None, lambda: f'tree({deg}): entry {key} is not a product of two derivatives of the error')
            seen[o] = key
        want = expected_pairs(dim, deg)
        require(set(seen) == want, lambda: f'tree({deg}) asked in sequence {case["asks"]}: missing '
                f'{sorted(want - set(seen))[:4]}, unexpected {sorted(set(seen) - want)[:4]}')
        require(len(got) == len(want), lambda: f'tree({deg}): {len(got)} entries for {len(want)} products')
        for key, value in got.items():
            if judged.get(key) == value:
                continue
            judged[key] = value
            a = env_value(env, key, None, f'tree({deg})')
            b = env_value(env, value, None, f'tree({deg})[{key}]')
            require(close(a, b, False), lambda: f'tree({deg}): {key} is {a} but its substitution '
                    f'{value} is {b}')
            if case['direct'] is not False:
                for e in sympy.sympify(value).atoms(type(key)):
                    o = factors(e, eps, x)
                    require(o is not None and not any(o[0]), lambda: f'tree({deg})[{key}] still has {e}, '
                            f'not of the form E[eps D eps]')
        if case['mutate'] and got:
            got.pop(next(iter(got)))
            got[Symbol('junk')] = 0


CL = [dict(dims=(1, 1, 2, 3), max_fields=3, max_terms=1, max_order=1, total_order=1, linear=True, outer=False)]


def strategy_closure():
    return st.fixed_dictionaries({'pde': gen.pde_spec(**CL[0]), 'form': st.sampled_from(['list', 'system']),
                                  'derive': st.sampled_from(['no', 'metric', 'asked']),
                                  'degrees': st.lists(st.integers(0, 5), min_size=3, max_size=3),
                                  'seed': st.integers(0, 10 ** 6)})


def run_closure(case, rec):
    built, pkf = setup(case)
    n, F = built.dim, built.fields
    rec.label(f'dim{n}', f'fields{len(F)}', case['derive'])
    rec.trivial_unless(n > 1 or len(F) > 1)
    if case['derive'] == 'metric':
        pkf.in_metric
    closure = pkf.internal_closure
    if case['derive'] == 'asked':
        again = pkf.internal_closure
        require(again == closure, 'the internal closure changes when asked twice')
    E = type(next(iter(closure)))
    needed = []
    for f in F:
        mf = pkf.fields[f]
        needed += [mf.error, mf.error ** 2, mf.epsilon, mf.epsilon ** 2]
        needed += [mf.epsilon * built.deriv(mf.epsilon, a) for a in multi_indices(n, 3) if sum(a)]
    for i in range(len(F)):
        for j in range(i + 1, len(F)):
            a, b = pkf.fields[F[i]], pkf.fields[F[j]]
            needed += [a.error * b.error, a.epsilon * b.epsilon]
    keys = set(closure)
    for m in needed:
        require(any(k.args[0] == m for k in keys if len(k.args) == 1),
                lambda: f'the internal closure has no entry for E[{m}]')

    trees = {}
    if n < 3:
        top = {1: 5, 2: 4}[n]
        for f, d in zip(F, case['degrees']):
            pkf.fields[f].subs_tree(min(d, top))
            trees[f] = min(d, top)
        table = pkf.subs_tree
        per = {f: 0 for f in F}
        for key in table:
            for f in F:
                if factors(key, pkf.fields[f].epsilon, built.x) is not None:
                    per[f] += 1
        for f in F:
            # the derivation may have asked for more than this check did
            least = len(expected_pairs(n, trees[f]))
            require(per[f] >= least, lambda: f'subs_tree: {per[f]} entries for {f} at degree {trees[f]}, {least} expected')
    else:
        table = {}

    def check(ref):
        env = ref.env(pkf)
        for name, d in (('internal closure', closure), ('subs_tree', table)):
            for key, value in d.items():
                a = env_value(env, key, None, name)
                b = env_value(env, sympy.sympify(value), None, f'{name}[{key}]')
                require(close(a, b, env.mp), lambda: f'{name}: {key} is {a} but is replaced with {value} = {b}')
    with_reference(built, case['seed'], check)


CHECKS = [Check('tree', strategy_tree, run_tree, 88, 3000, cpu=60),
          Check('closure', strategy_closure, run_closure, 64, 3000, cpu=60)]
