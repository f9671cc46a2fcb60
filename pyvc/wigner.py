"""Contracts of wigner3j/6j/9j: real-valued functions of their arguments with the standard symmetries.

The stub canonicalises the arguments (column permutations, simultaneous sign change of the lower row), so that calls
related by a symmetry become the same term; selection rules and bounds come from solve.axioms_for.
"""
from __future__ import annotations
import z3
from .core import ENG, SNum, SBool, Sym, Unsupported, lift, W3, W6, W9, PARITY, rv, to_frac
from .ring import RING
from .runtime import contains_sym


def real():
    from sympy.physics.wigner import wigner_3j, wigner_6j, wigner_9j
    return wigner_3j, wigner_6j, wigner_9j


def concrete(k, args):
    from sympy import N, Rational
    f = real()[k]
    try:
        return float(N(f(*[Rational(str(to_frac(a))) for a in args])))
    except ValueError:
        return 0.0


_keys, _c6, _c3 = {}, {}, {}


def key(t):
    r = _keys.get(t.get_id())
    if r is None:
        r = _keys[t.get_id()] = (t, key_(t))
    return r[1]


def memo(table, f, args):
    k = tuple(x.get_id() for x in args)
    r = table.get(k)
    if r is None:
        r = table[k] = (args, f(*args))
    return r[1]


def key_(t):
    return str(RING.rf_key(t)) if hasattr(RING, 'rf_key') else str(z3.simplify(t).sexpr())


def args_of(a):
    r = [lift(x) for x in a]
    if any(x is None for x in r):
        raise Unsupported('wigner symbol of a non-number')
    return r


def w6(*a):
    if not any(contains_sym(x) for x in a):
        return concrete(1, a)
    t = [x.r for x in args_of(a)]
    return SNum(memo(_c6, canon6, t), 'float')


def canon6(a, b, c, d, e, f):
    """column permutations and exchange of upper/lower in two columns"""
    best = None
    import itertools
    cols = [(a, d), (b, e), (c, f)]
    ks = [(key(x), key(y)) for x, y in cols]
    for p in itertools.permutations(range(3)):
        for flip in ((0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
            kk = tuple(ks[i][1] if s else ks[i][0] for i, s in zip(p, flip)) + \
                tuple(ks[i][0] if s else ks[i][1] for i, s in zip(p, flip))
            if best is None or kk < best[0]:
                up = [cols[i][1] if s else cols[i][0] for i, s in zip(p, flip)]
                dn = [cols[i][0] if s else cols[i][1] for i, s in zip(p, flip)]
                best = (kk, up + dn)
    return W6(*best[1])


def w3(*a):
    if not any(contains_sym(x) for x in a):
        return concrete(0, a)
    t = [x.r for x in args_of(a)]
    c = RING.const_of(t[3] + t[4] + t[5])
    if c is not None and c != 0:
        return SNum(rv(0), 'float')
    term, odd, J = memo(_c3, canon3, t)
    v = SNum(term, 'float')
    if odd:
        v = v * SNum(parity(J), 'float')
    return v


def parity(J):
    """(-1)**J for an integer-valued real term"""
    num, den = RING.rf(J)
    if RING.int_valued(num, den):
        return PARITY(RING.poly_to_z3(num, real=False))
    return PARITY(RING.floor(J))


def canon3(a, b, c, d, e, f):
    """returns (W3 term, sign-needed, j1+j2+j3)"""
    import itertools
    cols = [(a, d), (b, e), (c, f)]
    best = None
    for p in itertools.permutations(range(3)):
        odd = p in ((0, 2, 1), (1, 0, 2), (2, 1, 0))
        for neg in (False, True):
            up = [cols[i][0] for i in p]
            dn = [(-cols[i][1] if neg else cols[i][1]) for i in p]
            kk = tuple(key(x) for x in up + dn)
            if best is None or kk < best[0]:
                best = (kk, up + dn, odd != neg)
    args = [simp(x) for x in best[1]]
    return W3(*args), best[2], a + b + c


def simp(t):
    return RING.to_z3(RING.rf(t))


def w9(*a):
    if not any(contains_sym(x) for x in a):
        return concrete(2, a)
    t = [x.r for x in args_of(a)]
    return SNum(W9(*t), 'float')
