"""C11  multi-index derivative orders"""
from collections import Counter
from itertools import product

from hypothesis import strategies as st
from sympy import Derivative, Function, Symbol

from ..core import Check, Violation, require

RULE = ("Coordinates (1-5 symbols, list or tuple), orders and degrees are drawn; the enumeration is "
        "compared with the brute-force set of multi-indices, every representation is converted into "
        "every other, malformed orders must raise TypeError. Non-trivial: at least two coordinates "
        "and total order at least two (conversions), or a malformed order of the right container.")
ASSUMPTIONS = ["orders are Python ints >= 0 ; negative, numpy, sympy and boolean orders, dicts, sets and "
               "strings are outside what the documentation describes and are not judged"]

POOL = ['x', 'y', 'z', 'x0', 'x1', 'x2', 't', '\\lambda', 'lon', 'lat', 'd', 'alpha']
TOPDEG = {1: 12, 2: 9, 3: 7, 4: 6, 5: 4}


def coords():
    return st.fixed_dictionaries({'names': st.lists(st.sampled_from(POOL), min_size=1, max_size=5, unique=True),
                                  'list': st.booleans()})


def make(c):
    x = [Symbol(n) for n in c['names']]
    return x if c['list'] else tuple(x)


def strategy_enum():
    return st.fixed_dictionaries({'c': coords(), 'degree': st.integers(0, 12),
                                  'partial': st.integers(0, 3),
                                  'high': st.sampled_from([0] * 12 + [30, 100, 127, 128, 129, 255, 256, 300])})


def run_enum(case, rec):
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as P
    x = make(case['c'])
    n = len(x)
    deg = min(case['degree'], TOPDEG[n])
    if case.get('high') and n <= 2:      # high degrees
        deg = case['high']
    rec.label(f'dim{n}', f'degree{deg}' if deg <= 12 else 'high-degree')
    rec.trivial_unless(n >= 2 and deg >= 2)
    it = P.all_of_degree(x, deg)
    if case['partial']:              # another enumeration going on at the same time
        other = iter(P.all_of_degree(x, deg + 1 if n < 4 else deg))
        for _ in range(case['partial']):
            next(other, None)
    items = list(it)
    got = Counter(tuple(p.as_tuple) for p in items)
    want = {(deg,)} if n == 1 else {(i, deg - i) for i in range(deg + 1)} if n == 2 else {a for a in product(range(deg + 1), repeat=n) if sum(a) == deg}
    require(set(got) == want, lambda: f'all_of_degree({x},{deg}): missing {sorted(want - set(got))[:5]}, '
                                      f'unexpected {sorted(set(got) - want)[:5]}')
    double = [a for a, c in got.items() if c > 1]
    require(not double, lambda: f'all_of_degree({x},{deg}): {double[:5]} given more than once')
    for p in items[:40] + items[40:][-40:]:
        consistent(p, x, tuple(p.as_tuple), P)


def consistent(p, x, order, P):
    n = len(x)
    require(p.as_tuple == order and isinstance(p.as_tuple, tuple) and all(type(o) is int for o in p.as_tuple),
            lambda: f'{order}: as_tuple is {p.as_tuple!r}')
    require(list(p.coordinates) == list(x), lambda: f'{order}: coordinates are {p.coordinates}')
    cp = list(p.as_couples)
    require(all(len(c) == 2 for c in cp) and [c[0] for c in cp] == [v for v in x if v in [c[0] for c in cp]]
            and {v: o for v, o in cp if o} == {v: o for v, o in zip(x, order) if o}
            and len({c[0] for c in cp}) == len(cp), lambda: f'{order}: as_couples is {cp}')
    sq = p.as_sequence
    require(list(sq) == [v for v, o in zip(x, order) for _ in range(o)], lambda: f'{order}: as_sequence is {sq}')
    for form in (p.as_tuple, p.as_couples, p.as_sequence):
        q = p.new(form)
        require(q == p and q.as_tuple == order, lambda: f'{order} on {x}: {form} converts to {q.as_tuple}')
        r = P(x, form)
        require(r == p and r.as_tuple == order, lambda: f'{order} on {x}: {form} builds {r.as_tuple}')


def strategy_conv():
    return st.fixed_dictionaries({
        'c': coords(), 'order': st.lists(st.integers(0, 4), min_size=5, max_size=5),
        'order2': st.lists(st.integers(0, 4), min_size=5, max_size=5),
        'perm': st.randoms(use_true_random=False).map(lambda r: [r.randrange(10 ** 6) for _ in range(24)]),
        'split': st.booleans(), 'dropzero': st.booleans(), 'form': st.sampled_from(['tuple', 'couples', 'sequence', 'one', 'tseq'])})


def run_conv(case, rec):
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as P
    x = make(case['c'])
    n = len(x)
    order = tuple(case['order'][:n])
    form = case['form']
    keys = case['perm']
    if form == 'tuple':
        given = order
    elif form == 'couples':
        couples = []
        for v, o in zip(x, order):
            if case['split'] and o >= 2:
                couples += [(v, 1), (v, o - 1)]
            elif o or not case['dropzero']:
                couples.append((v, o))
        given = [c for _, c in sorted(zip(keys, couples), key=lambda k: k[0])]
    elif form in ('sequence', 'tseq'):
        seq = [v for v, o in zip(x, order) for _ in range(o)]
        given = [c for _, c in sorted(zip(keys, seq), key=lambda k: k[0])]
        if form == 'tseq':
            if not given:
                given = []
            else:
                given = tuple(given)
    else:
        i = keys[0] % n
        order = tuple(order[i] if j == i else 0 for j in range(n))
        given = (x[i], order[i])
    rec.label(form, f'dim{n}')
    rec.trivial_unless(n >= 2 and sum(order) >= 2)
    before = list(given)
    p = P(x, given)
    require(list(given) == before, lambda: f'{before} was modified into {given}')
    consistent(p, x, order, P)
    # copies
    q = p.copy()
    require(q == p and q.as_tuple == order and q is not p, 'the copy differs')
    other = tuple(case['order2'][:n])
    m = q.new(other)
    require(m.as_tuple == other and q.as_tuple == order and p.as_tuple == order,
            lambda: f'new({other}) gives {m.as_tuple} and leaves {q.as_tuple}')
    require((m == p) is (other == order), lambda: f'{other} == {order} is {m == p}')
    try:
        q._as_tuple = other
    except AttributeError:
        pass
    require(p.as_tuple == order, 'changing the copy changes the original')
    s = p.as_sequence
    s.append(x[0])
    c = p.as_couples
    c.append((x[0], 7))
    consistent(p, x, order, P)
    # orders over other coordinates are different orders
    y = [Symbol(v.name + '_o') for v in x]
    w = P(y if case['c']['list'] else tuple(y), order)
    require(not (w == p), 'orders over different coordinates are equal')
    # agreement with sympy's derivatives
    f = Function('f')(*x)
    if sum(order) <= 6:
        d = Derivative(f, *p.as_couples, evaluate=True)
        e = f.diff(*p.as_sequence) if p.as_sequence else f
        require(d == e, lambda: f'{p.as_couples} and {p.as_sequence} are not the same derivative')


BAD = ['long', 'short', 'float', 'alien-seq', 'alien-couple', 'mixed', 'couple-float', 'one-alien',
       'one-float', 'number', 'none', 'alien-in-tuple']


def strategy_bad():
    return st.fixed_dictionaries({'c': coords(), 'order': st.lists(st.integers(0, 4), min_size=5, max_size=5),
                                  'kind': st.sampled_from(BAD), 'pos': st.integers(0, 9), 'alien': st.sampled_from(['w', 'X', 'tau'])})


def run_bad(case, rec):
    from sympkf.symbolic.pkfcas import PartialOrderDerivative as P
    x = make(case['c'])
    n, pos = len(x), case['pos']
    order = tuple(case['order'][:n])
    w = Symbol(case['alien'])
    seq = [v for v, o in zip(x, order) for _ in range(o)]
    couples = [(v, o) for v, o in zip(x, order)]
    kind = case['kind']
    if kind == 'long':
        bad = order + (1,) * (1 + pos % 2)
    elif kind == 'short':
        bad = order[:-1]
        if not bad:
            bad = order + (0, 1)
    elif kind == 'float':
        bad = tuple(float(o) + (0.5 if pos % 2 else 0.) if i == pos % n else o for i, o in enumerate(order))
    elif kind == 'alien-seq':
        bad = seq[:]
        bad.insert(pos % (len(seq) + 1), w)
    elif kind == 'alien-couple':
        bad = couples[:]
        bad.insert(pos % (n + 1), (w, 1 + pos % 2))
    elif kind == 'mixed':
        bad = seq + [(x[0], 1)]
        if pos % 2:
            bad = [(x[0], 1)] + seq + [x[-1]]
        if all(isinstance(b, tuple) for b in bad):
            bad = bad + [x[0]]
    elif kind == 'couple-float':
        bad = [(v, o + 0.5) if i == pos % n else (v, o) for i, (v, o) in enumerate(couples)]
    elif kind == 'one-alien':
        bad = (w, 1 + pos % 3)
    elif kind == 'one-float':
        bad = (x[pos % n], 1.5)
    elif kind == 'number':
        bad = pos
    elif kind == 'none':
        bad = None
    else:
        bad = tuple(w if i == pos % n else o for i, o in enumerate(order))
    rec.label(kind)
    rec.trivial_unless(kind not in ('number', 'none'))
    for call in (lambda: P(x, bad), lambda: P(x, order).new(bad)):
        try:
            p = call()
        except TypeError:
            continue
        except Exception as e:
            raise Violation(f'{bad!r} on {x} raised {type(e).__name__}, not TypeError') from e
        raise Violation(f'{bad!r} on {x} was accepted as {p.as_tuple}')


CHECKS = [Check('enumeration', strategy_enum, run_enum, 400, 20000, cpu=30),
          Check('conversion', strategy_conv, run_conv, 1600, 60000, cpu=10),
          Check('malformed', strategy_bad, run_bad, 800, 20000, cpu=10)]
