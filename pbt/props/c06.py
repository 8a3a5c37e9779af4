"""C06  closures: faithful application, independence of the call history"""
from hypothesis import strategies as st
import sympy
from sympy import Derivative, Function, Integer, Symbol

from .. import gen
from ..core import Check, require
from ..numeval import same_values
from ..pkfcheck import equations_input

RULE = ("Random small PDE systems with unclosed terms (1D, 1-2 fields) and random histories of "
        "operations over two tool objects built from one shared closure dictionary: read a form, "
        "read open systems or unclosed terms, set a partial closure (random values, overriding). "
        "After each read the system is compared, by value, with the open system of a fresh object "
        "in which closed expectations are replaced; at the end with a fresh object given the total "
        "closure at once. Non-trivial: a closure is set after a form has been read.")

FORMS = ['in_metric', 'in_aspect', 'in_diffusion']
OPENS = ['metric_system', 'variance_system', 'expectation_system', 'cross_covariance_system',
         'epsilon_system']


def value(kind, pkf, built, i):
    """closure values a user would give, in terms of the metric, of coefficients or unknowns"""
    f = built.fields[i % len(built.fields)]
    mf = pkf.fields[f]
    g = mf.metric[0, 0]
    x = built.x[0]
    return [Integer(0), 3 * g ** 2, 3 * g ** 2 - 2 * Derivative(g, x, 2),
            Function('p')(built.t, *built.x), Symbol('p_0') * g, Integer(-2) * mf.variance,
            sympy.Rational(1, 2) * f * g, -Function('q')(*built.x) ** 2][kind % 8]


def strategy():
    op = st.one_of(
        st.tuples(st.just('read'), st.integers(0, 1), st.sampled_from(FORMS)),
        st.tuples(st.just('set'), st.integers(0, 1),
                  st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), min_size=0, max_size=3)),
        st.tuples(st.just('unclosed'), st.integers(0, 1), st.just(0)),
        st.tuples(st.just('open'), st.integers(0, 1), st.sampled_from(OPENS)))
    items = st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), min_size=1, max_size=3)
    some = st.lists(op, min_size=0, max_size=3)
    # the shape that matters: read, close, read again, among other operations
    ops = st.tuples(some, st.sampled_from(FORMS), st.lists(op, max_size=2), items, some,
                    st.sampled_from(FORMS), st.integers(0, 1)).map(
        lambda v: [list(o) for o in
                   list(v[0]) + [('read', v[6], v[1])] + list(v[2]) + [('set', v[6], v[3])]
                   + list(v[4]) + [('read', v[6], v[5])]])
    one = gen.pde_spec(dims=(1,), max_fields=1, max_terms=1, max_order=2, total_order=2)
    two = gen.pde_spec(dims=(1,), min_fields=2, max_fields=2, max_terms=1, max_order=1, total_order=1,
                       max_power=1, outer=False)
    return st.fixed_dictionaries({
        'pde': st.one_of(one, one, one, two), 'diffuse': st.just(True), 'ops': ops,
        'init': st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), max_size=2).map(
            lambda l: [list(x) for x in l]),
        'seed': st.integers(0, 10 ** 6)})


def run(case, rec):
    from sympkf import SymbolicPKF
    built = gen.Built(case['pde'])
    if case['diffuse'] and built.dim == 1 and len(built.fields) == 1:
        f = built.fields[0]
        built.rhs[0] = built.rhs[0] + Symbol('kappa_0') * Derivative(f, built.x[0], 2)
        built.equations = [sympy.Eq(Derivative(f, built.t), built.rhs[0], evaluate=False)]
    fresh = SymbolicPKF(list(built.equations))
    open_systems = {}

    def open_of(name):
        if name not in open_systems:
            open_systems[name] = getattr(fresh, name)
        return open_systems[name]
    terms = sorted(fresh.unclosed_terms, key=str)

    def closure_of(l):
        return {terms[i % len(terms)]: value(k, fresh, built, i) for i, k in l} if terms else {}
    tensors = {'in_metric': 'metric', 'in_aspect': 'aspect', 'in_diffusion': 'diffusion'}

    def convert(v, form):
        if form == 'in_metric':
            return v
        sub = {}
        for f in built.fields:
            mf = fresh.fields[f]
            m = getattr(mf, tensors[form])
            inv = m.inv()
            for i in range(built.dim):
                for j in range(i, built.dim):
                    sub[mf.metric[i, j]] = inv[i, j] / (1 if form == 'in_aspect' else 2)
        return v.subs(sub)

    def compare(system, name, closure, what):
        ref = open_of(name)
        if ref is None or system is None:
            require(ref is None and system is None, f'{what}: one system is None')
            return
        require(len(ref) == len(system), f'{what}: {len(system)} equations instead of {len(ref)}')
        pairs = []
        for a, b in zip(system, ref):
            require(a.args[0] == b.args[0], lambda: f'{what}: trend {a.args[0]} instead of {b.args[0]}')
            rhs = b.args[1]
            if closure:
                rhs = rhs.xreplace({k: convert(v, name) for k, v in closure.items()}).doit()
            pairs.append((a.args[1], rhs))
        same_values(pairs, built.x, built.t, case['seed'], what, mp=True)

    shared = closure_of(case['init'])
    user = dict(shared)
    objs = [SymbolicPKF(list(built.equations), closure=shared) for _ in range(2)]
    models = [dict(shared), dict(shared)]
    given = []
    read = [False, False]
    rec.label(*gen.labels(case['pde']), f'terms{min(len(terms), 5)}')
    for op, o, arg in case['ops']:
        obj, model = objs[o], models[o]
        if op == 'set':
            c = closure_of(arg)
            obj.set_closure(c)
            given.append((c, dict(c)))
            model.update(c)
            if read[o] and c:
                rec.nontrivial = True
                rec.label('closed-after-read')
        elif op == 'read':
            compare(getattr(obj, arg), arg, model, f'{arg} after {case["ops"]}')
            read[o] = True
            rec.label(arg)
        elif op == 'unclosed':
            got = obj.unclosed_terms
            if not any(type(a).__name__ == 'Expectation' for v in model.values()
                       for a in v.atoms(sympy.Function)):
                left = set(terms) - set(model)
                extra = got - left
                require(not extra, lambda: f'unclosed_terms reports closed terms {extra}')
        else:
            compare(getattr(obj, arg), arg, None, f'open {arg}')
    require(shared == user, 'the closure dictionary given at construction was modified')
    for c, copy in given:
        require(c == copy, 'the closure dictionary given to set_closure was modified')
    require(set(objs[0].closure.items()) == set(models[0].items()) and
            set(objs[1].closure.items()) == set(models[1].items()),
            'closure does not report what was set')
    # the same total closure, given at once
    form = FORMS[case['seed'] % 3]
    once = SymbolicPKF(list(built.equations), closure=models[0])
    compare(getattr(once, form), form, models[0], f'{form} with a total closure')
    compare(getattr(objs[0], form), form, models[0], f'{form} at the end')


CHECKS = [Check('history', strategy, run, 44, 2000, cpu=90)]
