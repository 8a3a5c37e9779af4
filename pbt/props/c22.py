"""C22  derivations are natural: renaming, reordering, splitting, processes"""
import json
import os
import subprocess
import sys

import sympy
from hypothesis import strategies as st
from sympy import Derivative
from sympy.core.function import AppliedUndef

from .. import gen, models
from ..core import Check, OutOfDomain, Violation, require
from ..pkfcheck import (P1, P1M, P1S, P1T, P2A, env_value, equations_input, members, setup, with_reference)
from ..sem import close
from .c02 import nontrivial

RULE = ("rename: random PDE systems derived twice, once with the fields, constants, functions and coordinates renamed "
        "(exchanged names included) and the equations in another order; the first system, renamed, has the values of "
        "the second on random exact fields, equation by equation, and as many unclosed terms. "
        "split: a right-hand side a R1 + b R2; the trends of all statistics are a times those of R1 plus b times "
        "those of R2 on random exact fields. "
        "process: a list of PDE systems and evolution systems derived in two fresh processes with random hash seeds, "
        "computer-algebra cache settings and orders of derivation; systems, unclosed terms and generated code are "
        "identical. Non-trivial: the system has a spatial derivative or a nonlinearity.")
ASSUMPTIONS = ["names which do not collide once combined (V_u, g_u,xx, ...) or cleaned"]

# ---------------------------------------------------------------- renaming

NFIELDS = ['u', 'v', 'w', 'c', 'h', 'A', 'B', 'q_1', '\\theta', '\\rho', 'Z', '\\bar{u}', 'f_0']
NLONG = ['concentration_O3', 'concentration_NO2', 'concentration', 'concentration_of_water_vapour']
NCONSTS = ['kappa', '\\kappa', 'nu', 'a', 'b', '\\alpha', 'k_2', 'zz', 'g', 'B_0', '\\mu']
NCFUNS = ['U', 'W', 'phi', 'm', 'a_0', 'zeta', '\\kappa_{11}']
NXFUNS = ['F', 'S', '\\psi', 'r', 'a_1', 'Q']
NCOORDS = [['x', 'y', 'z'], ['y', 'x', 'w'], ['z', 'x', 'y'], ['a', 'b', 'c_3'], ['lon', 'lat', 'p'],
           ['\\phi_0', 'r_0', '\\lambda'], ['x_2', 'x_1', 'x_0']]


M = dict(P1M, max_terms=1)
M2 = dict(P2A, min_fields=2, max_fields=2, max_terms=1, max_power=1)


def rename_case():
    def uniq(pool, n):
        return st.permutations(pool).map(lambda p: list(p[:n]))
    pde = st.one_of([gen.pde_spec(**p) for p in (P1S, dict(P1, max_terms=2, total_order=2), M, M, M, P1T, P2A, M2)])
    return st.fixed_dictionaries({
        'pde': pde, 'seed': st.integers(0, 10 ** 6), 'form': st.sampled_from(['list', 'system', 'own-eq']),
        'fields': st.one_of(uniq(NFIELDS, 3), uniq(NFIELDS, 3), uniq(NLONG, 3)), 'consts': uniq(NCONSTS, 2), 'cfuns': uniq(NCFUNS, 2), 'xfuns': uniq(NXFUNS, 1),
        'coords': st.sampled_from(NCOORDS), 'order': st.permutations([0, 1, 2]).map(list),
        'which': st.sampled_from(['in_metric', 'in_metric', 'in_aspect', 'in_diffusion'])})


def renamed(case):
    """-> specification of the renamed and reordered system, order[new index] = old index"""
    s = case['pde']
    n = len(s['fields'])
    order = [i for i in case['order'] if i < n]
    new = {i: k for k, i in enumerate(order)}
    names = case['fields'][:n]
    clash = set(names)
    out = dict(s, coords=case['coords'][:s['dim']], fields=[names[i] for i in order])
    for key, pool in (('consts', case['consts']), ('cfuns', case['cfuns']), ('xfuns', case['xfuns'])):
        out[key] = [p if p not in clash else p + 'z' for p in pool[:len(s[key])]]
        clash |= set(out[key])
    eqs = []
    for i in order:
        terms = []
        for t in s['eqs'][i]:
            terms.append(dict(t, f=[[f[0], new[f[1]]] + f[2:] if f[0] in 'pn' else f for f in t['f']]))
        eqs.append(terms)
    out['eqs'] = eqs
    return out, order


def collides(spec):
    names = spec['fields'] + spec['consts'] + spec['cfuns'] + spec['xfuns'] + spec['coords'] + ['t', 'omega']
    return len(set(names)) < len(names)


class Renaming:
    def __init__(self, symbols, heads):
        self.symbols, self.heads = symbols, heads

    def __call__(self, e):
        if isinstance(e, sympy.Symbol):
            return self.symbols.get(e, e)
        if not getattr(e, 'args', None):
            return e
        args = [self(a) for a in e.args]
        if isinstance(e, AppliedUndef) and e.func in self.heads:
            return self.heads[e.func](*args)
        return e.func(*args)


def state_pairs(pa, ba, pb, bb, order):
    """the corresponding statistics of the two tools"""
    old = [ba.fields[i] for i in order]
    out = []
    for f, g in zip(old, bb.fields):
        a, b = pa.fields[f], pb.fields[g]
        out += [(f, g), (a.variance, b.variance), (a.std, b.std), (a.epsilon, b.epsilon), (a.error, b.error),
                (a.random, b.random)]
        for name in ('metric', 'aspect', 'diffusion'):
            ma, mb = getattr(a, name), getattr(b, name)
            out += [(ma[i, j], mb[i, j]) for i in range(ba.dim) for j in range(i, ba.dim)]
    for i in range(len(old)):
        for j in range(i + 1, len(old)):
            out.append((pa.get_covariance(old[i], old[j]), pb.get_covariance(bb.fields[i], bb.fields[j])))
    return out


def run_rename(case, rec):
    from sympkf import SymbolicPKF
    if collides(case['pde']):
        raise OutOfDomain('names')
    spec, order = renamed(case)
    if collides(spec):
        raise OutOfDomain('names')
    which = case['which'] if len(spec['fields']) * spec['dim'] == 1 else 'in_metric'
    rec.label(which, *gen.labels(spec))
    rec.trivial_unless(nontrivial(spec))
    if order != sorted(order):
        rec.label('reordered')
    if set(spec['fields']) & set(case['pde']['fields']):
        rec.label('names-reused')
    ba, pa = setup(case)
    bb = gen.Built(spec)
    pb = SymbolicPKF(equations_input(bb, case['form']))
    sa = [members(e, which) for e in getattr(pa, which)]
    sb = dict(members(e, which) for e in getattr(pb, which))
    ua, ub = pa.unclosed_terms, pb.unclosed_terms
    pairs = state_pairs(pa, ba, pb, bb, order) + list(zip(ba.cfuns + ba.xfuns, bb.cfuns + bb.xfuns))
    symbols = dict(zip(list(ba.x) + ba.consts, list(bb.x) + bb.consts))
    heads = {a.func: b.func for a, b in pairs}
    ren = Renaming(symbols, heads)
    require(len(ua) == len(ub), lambda: f'{len(ua)} unclosed terms {ua}, {len(ub)} after renaming: {ub}')
    require(len(sa) == len(sb), lambda: f'{len(sa)} equations, {len(sb)} after renaming')

    def compare(ref):
        env = ref.env(pb)
        for lhs, rhs in sa:
            l2, r2 = ren(lhs), ren(rhs)
            require(l2 in sb, lambda: f'{which}: no equation for {l2} after renaming; {list(sb)}')
            a, b = env_value(env, r2, None, f'{lhs} renamed'), env_value(env, sb[l2], None, f'{l2}')
            require(close(a, b, env.mp), lambda: f'{which}: trend of {lhs}, once renamed, is {a}, but the renamed '
                    f'system gives {b}\n  {str(r2)[:400]}\n  {str(sb[l2])[:400]}')
    with_reference(bb, case['seed'], compare)


# ---------------------------------------------------------------- splitting

def split_case():
    pde = st.one_of([gen.pde_spec(**p) for p in (P1, P1S, P1S, dict(P1M, max_fields=2), P1T, P2A)])
    q = st.sampled_from([[1, 1], [-1, 1], [2, 1], [1, 3], [-5, 2]])
    return st.fixed_dictionaries({
        'pde': pde, 'seed': st.integers(0, 10 ** 6), 'form': st.sampled_from(['list', 'system']),
        'a': q, 'b': q, 'side': st.lists(st.sampled_from([0, 1, 2]), min_size=12, max_size=12),
        'which': st.sampled_from(['in_metric', 'in_metric', 'in_aspect'])})


class Partial(gen.Built):
    """a system whose equation i is sum_j coefficient(term j) term j"""

    def __init__(self, spec, weight):
        super().__init__(spec)
        self.rhs, k = [], 0
        for eq in spec['eqs']:
            r = 0
            for term in eq:
                r += weight(k) * self.term(term)
                k += 1
            self.rhs.append(sympy.sympify(r))
        self.equations = [sympy.Eq(Derivative(f, self.t), r, evaluate=False) for f, r in zip(self.fields, self.rhs)]


def run_split(case, rec):
    from sympkf import SymbolicPKF
    spec = case['pde']
    if collides(spec):
        raise OutOfDomain('names')
    which = case['which'] if len(spec['fields']) * spec['dim'] == 1 else 'in_metric'
    rec.label(which, *gen.labels(spec))
    a, b = sympy.Rational(*case['a']), sympy.Rational(*case['b'])
    nt = sum(len(e) for e in spec['eqs'])
    side = [case['side'][k % 12] for k in range(nt)]
    # side 0: in R1, 1: in R2, 2: in both
    one = Partial(spec, lambda k: int(side[k] != 1))
    two = Partial(spec, lambda k: int(side[k] != 0))
    both = Partial(spec, lambda k: {0: a, 1: b, 2: a + b}[side[k]])
    if any(r == 0 for s in (one, two, both) for r in s.rhs):
        rec.label('stationary-part')
    rec.trivial_unless(nontrivial(spec) and len(set(side)) > 1)
    tools = [SymbolicPKF(equations_input(s, case['form'])) for s in (both, one, two)]
    full, r1, r2 = [dict(members(e, which) for e in getattr(p, which)) for p in tools]
    require(set(full) == set(r1) == set(r2), lambda: f'{which}: equations {list(full)}, {list(r1)}, {list(r2)}')

    def compare(ref):
        env = ref.env(tools[0])
        for lhs in full:
            v = env_value(env, full[lhs], None, str(lhs))
            v1, v2 = env_value(env, r1[lhs], None, str(lhs)), env_value(env, r2[lhs], None, str(lhs))
            want = env.num(a) * v1 + env.num(b) * v2
            require(close(v, want, env.mp), lambda: f'{which}: trend {lhs} of {a} R1 + {b} R2 is {v}, the parts give '
                    f'{want} ({v1}, {v2})\n  {both.rhs}\n  R1 {one.rhs}\n  R2 {two.rhs}')
    with_reference(both, case['seed'], compare)


# ---------------------------------------------------------------- processes

def process_case():
    small = [gen.pde_spec(**p, explicit=False) for p in (P1S, P1S, dict(P1M, max_fields=2, max_terms=1, total_order=1, max_factors=1), dict(P2A, max_terms=1),
                                          dict(P1, max_terms=2, total_order=2))]
    item = st.one_of(st.tuples(st.just('pkf'), st.one_of(small)).map(list),
                     st.tuples(st.just('model'), models.system()).map(list),
                     st.tuples(st.just('model'), models.system(max_fields=2, max_order=2, rich=True)).map(list))
    config = st.fixed_dictionaries({'hash': st.integers(0, 4000), 'cache': st.sampled_from(['yes', 'yes', 'no', '50'])})
    return st.fixed_dictionaries({
        'items': st.lists(item, min_size=2, max_size=3), 'a': config, 'b': config,
        'order': st.permutations([0, 1, 2]).map(list)})


WORKER = """
import sys, json, warnings
warnings.filterwarnings('ignore')
sys.path[:0] = json.loads(sys.argv[1])
from pbt.props.c22 import derive
json.dump(derive(json.load(sys.stdin)), sys.stdout)
"""


def spy(fn):
    try:
        return fn()
    except Exception as e:   # the same outcome in every process
        return f'raised {type(e).__name__}: {e}'


def derive(job):
    """what a user gets from each item, derived in the given order -> list of {name: text}"""
    from sympkf import FDModelBuilder, SymbolicPKF
    out = {}
    for i in job['order']:
        kind, spec = job['items'][i]
        res = {}
        if kind == 'pkf':
            built = gen.Built(spec)
            pkf = SymbolicPKF(list(built.equations))
            for name in ('in_metric', 'in_aspect')[:3 - spec['dim'] * len(spec['fields'])]:
                res[name] = spy(lambda: [str(e) for e in getattr(pkf, name)])
            res['unclosed'] = spy(lambda: sorted(map(str, pkf.unclosed_terms)))
            closed = spy(lambda: set_closure(pkf))
            res['closed'] = spy(lambda: [str(e) for e in pkf.in_metric])
            if spec['dim'] == 1 or len(spec['fields']) == 1:
                res['code'] = spy(lambda: FDModelBuilder(pkf.in_metric, class_name='M').code)
        else:
            from ..models import System
            s = System(spec)
            res['code'] = spy(lambda: FDModelBuilder(s.equations, class_name='M').code)
        out[i] = res
    return [out[i] for i in sorted(out)]


def set_closure(pkf):
    pkf.set_closure({term: sympy.Integer(2) for term in pkf.unclosed_terms})


def launch(job, config):
    env = dict(os.environ, PYTHONHASHSEED=str(config['hash']))
    env.pop('SYMPY_USE_CACHE', None)
    if config['cache'] == 'no':
        env['SYMPY_USE_CACHE'] = 'no'
    elif config['cache'] != 'yes':
        env['SYMPY_CACHE_SIZE'] = config['cache']
    paths = [p for p in sys.path if p]
    return subprocess.Popen([sys.executable, '-c', WORKER, json.dumps(paths)], stdin=subprocess.PIPE, text=True,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)


def run_process(case, rec):
    items = [i for i in case['items']]
    n = len(items)
    order = [k for k in case['order'] if k < n]
    rec.label(*[k for k, _ in items], *['cache-' + case[c]['cache'] for c in 'ab'])
    if order != sorted(order):
        rec.label('other-order')
    rec.trivial_unless(any(k == 'model' or nontrivial(s) for k, s in items) and case['a'] != case['b'])
    jobs = [({'items': items, 'order': list(range(n))}, case['a']), ({'items': items, 'order': order}, case['b'])]
    out = []
    procs = [launch(j, c) for j, c in jobs]
    try:
        for p, (job, config) in zip(procs, jobs):
            o, e = p.communicate(json.dumps(job), timeout=170)
            if p.returncode != 0:
                raise Violation(f'a process with {config} failed: {e[-600:]}')
            out.append(json.loads(o))
    except subprocess.TimeoutExpired:
        raise OutOfDomain('too long')
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.communicate()
    for i, (ra, rb) in enumerate(zip(*out)):
        for name in ra:
            require(not str(ra[name]).startswith('raised'), lambda: f'item {i}, {name}: {ra[name]}')
            require(ra[name] == rb[name], lambda: f'item {i}: {name} differs between processes {case["a"]} and '
                    f'{case["b"]} (order {order})\n {first(ra[name], rb[name])}')


def first(a, b):
    a = a if isinstance(a, list) else str(a).split('\n')
    b = b if isinstance(b, list) else str(b).split('\n')
    for x, y in zip(a, b):
        if x != y:
            return f'{x[:500]}\n {y[:500]}'
    return f'{len(a)} and {len(b)} items'


CHECKS = [
    Check('rename', rename_case, run_rename, 48, 2500, cpu=40),
    Check('split', split_case, run_split, 32, 2500, cpu=40),
    Check('process', process_case, run_process, 16, 400, cpu=60),
]
