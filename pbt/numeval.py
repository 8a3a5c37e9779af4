"""Comparing expressions by value: every applied function (and every expectation) is an independent
random polynomial field, every symbol an independent number."""
import sympy
from sympy.core.function import AppliedUndef

from .core import OutOfDomain, Violation, require
from .sem import Env, NeedFloat, Poly, Stream, Uninterpretable, close


def opaque(exprs):
    """Replace expectations by plain functions of the coordinates they depend on."""
    atoms = set()
    for e in exprs:
        atoms |= {a for a in e.atoms(sympy.Function) if type(a).__name__ == 'Expectation'}
    sub = {}
    for i, a in enumerate(sorted(atoms, key=str)):
        args = [s for s in sorted(a.free_symbols, key=str) if s.name != 'omega']
        sub[a] = sympy.Function(f'expectation{i}')(*args)
    return [e.xreplace(sub) for e in exprs], sub


def environment(exprs, coords, time, seed, mp=True, degree=3, positive=True):
    funcs, syms = set(), set()
    for e in exprs:
        funcs |= e.atoms(AppliedUndef)
        syms |= e.free_symbols
    n = len(coords)
    st = Stream(seed)
    fields = {f: Poly(n, degree, st.fork(), mp, c0=abs(st.rational(3, 2, nonzero=True)) if positive else None)
              for f in sorted(funcs, key=str)}
    symbols = {s: abs(st.rational(3, 2, nonzero=True)) for s in sorted(syms, key=str)
               if s not in coords}
    more = Stream(seed + 13)
    trends = {f: Poly(n, degree, more.fork(), mp) for f in sorted(funcs, key=str) if time in f.free_symbols}
    return Env(n, {x: i for i, x in enumerate(coords)},
               {x: st.rational(2, 2) for x in coords}, time=time, symbols=symbols, fields=fields, trends=trends, mp=mp)


def same_values(pairs, coords, time, seed, what, mp=True, degree=3, positive=True):
    """pairs of expressions have equal values (as functions) at random data"""
    flat, _ = opaque([e for p in pairs for e in p])
    for attempt in range(3):
        env = environment(flat, coords, time, seed + 7919 * attempt, mp, degree, positive)
        try:
            for i in range(0, len(flat), 2):
                try:
                    a, b = env.value(flat[i]), env.value(flat[i + 1])
                except Uninterpretable as e:
                    raise Violation(f"{what}: {e}") from e
                require(close(a, b, mp), lambda: f"{what}: {str(flat[i])[:500]}\n   has value {a}, "
                        f"expected {b} of {str(flat[i + 1])[:500]}")
            return
        except ZeroDivisionError:
            continue
        except NeedFloat:
            return same_values(pairs, coords, time, seed, what, True, degree, True)
    raise OutOfDomain('singular')
