"""Function contracts used at call sites in place of the callee's body.

Each contract is itself an obligation: the harness of the property named in `proved` executes the body (contracts switched off)
and proves it equal to the contract's result.  A contract applies only where its precondition is evident; otherwise the body runs.
A function that is no longer found under its name simply keeps its body.
"""
import sys
import types

import z3

from .core import SNum, to_real, lift, And, Or, Not, mkbool, bterm
from .rope import SStr, Frac, half_of, mkstr
from . import wigner

R = z3.RealSort()
HFS = z3.Function('HFSHIFT', R, R, R, R, R, R, R)
GF = z3.Function('GFACTOR', R, R, R, R, R)
ZS = z3.Function('ZSHIFT', R, R, R, R, R)
NA = object()

ENABLED = set()
ABSTRACT = {'atom.HFLevel.compute_hf_shift', 'atom.HFLevel.compute_gF', 'atom.ZLevel.shift_Hz'}     # their results are uninterpreted
USED = {}
TABLE = {}


def contract(path, home, text):
    def deco(f):
        TABLE[path] = (f, home, text)
        return f
    return deco


def wrap(path, body):
    spec = TABLE[path][0]

    def stub(*a, **k):
        if path in ENABLED and not k:
            try:
                r = spec(*a)
            except (AttributeError, TypeError):
                r = NA
            if r is not NA:
                USED[path] = USED.get(path, 0) + 1
                return r
        return body(*a, **k)
    stub.__name__ = getattr(body, '__name__', path)
    stub.__vc_body__ = body
    return stub


def install():
    for path in TABLE:
        mod, *rest = path.split('.')
        m = sys.modules.get('atomtoolkit.' + mod)
        if m is None:
            continue
        if len(rest) == 2:
            c = m.__dict__.get(rest[0])
            f = c.__dict__.get(rest[1]) if isinstance(c, type) else None
            if isinstance(f, types.FunctionType):
                type.__setattr__(c, rest[1], wrap(path, f))
            elif isinstance(f, property) and isinstance(f.fget, types.FunctionType):
                type.__setattr__(c, rest[1], property(wrap(path, f.fget), f.fset, f.fdel))
        else:
            f = m.__dict__.get(rest[0])
            if callable(f):
                g = wrap(path, f)
                for n, mm in list(sys.modules.items()):
                    if n.split('.')[0] == 'atomtoolkit':
                        for a, v in list(mm.__dict__.items()):
                            if v is f:
                                mm.__dict__[a] = g


# ---------------------------------------------------------------------------------------------
@contract('util.float_to_frac', 'C01', 'the canonical text of a half-integer; text that is already canonical is returned unchanged')
def float_to_frac(f):
    if isinstance(f, SNum):
        n = half_of(f)
        return NA if n is None else mkstr([Frac(n)])
    if isinstance(f, SStr) and len(f.toks) == 1 and isinstance(f.toks[0], Frac):
        return f
    return NA


@contract('util.frac_to_float', 'C01', 'the half-integer a canonical text denotes')
def frac_to_float(f):
    if isinstance(f, SStr) and len(f.toks) == 1 and isinstance(f.toks[0], Frac):
        return SNum(to_real(f.toks[0].t) / 2, 'float')
    return NA


def nums(*vs):
    """lifted arguments, or None unless all are numbers and one is symbolic"""
    xs = [lift(v) for v in vs]
    if any(x is None for x in xs) or not any(isinstance(v, SNum) for v in vs):
        return None
    return xs


@contract('atom.HFLevel.compute_hf_shift', 'C05', 'the Casimir formula: a function of A, B, C, I, J and F only')
def hf_shift(self):
    m = self.manifold
    if nums(self.atom.I, self.term.J, self.term.F) is None:
        return NA
    return SNum(HFS(*[x.r for x in nums(m.hfA_Hz, m.hfB_Hz, m.hfC_Hz, self.atom.I, self.term.J, self.term.F)]), 'float')


@contract('atom.HFLevel.compute_gF', 'C06', 'gJ [F(F+1)+J(J+1)-I(I+1)]/(2F(F+1)), 0 for F=0: a function of gJ, I, J and F only')
def g_factor(self):
    if nums(self.atom.I, self.term.J, self.term.F) is None:
        return NA
    return SNum(GF(*[x.r for x in nums(self.manifold.lande, self.atom.I, self.term.J, self.term.F)]), 'float')


@contract('atom.ZLevel.shift_Hz', 'C06', 'gF mF mu_B B + quadratic coefficient * B^2: a function of gF, mF, B and the coefficient only')
def z_shift(self):
    v = (self.gF, self.term.mF, self.atom.B_gauss, self.quadratic_zeeman)
    if nums(*v) is None:
        return NA
    return SNum(ZS(*[x.r for x in nums(*v)]), 'float')


def true(x):
    return mkbool(bterm(x))


def fine_rules(J0, J1, p0, p1, internal):
    """E1, M1, E2 selection rules between levels of one atom"""
    d1 = And(J1 - J0 <= 1, J0 - J1 <= 1, J0 + J1 >= 1)
    d2 = And(J1 - J0 <= 2, J0 - J1 <= 2, J0 + J1 >= 2)
    same = p0 == p1
    return (And(d1, Not(same)), And(d1, same), And(d2, same, not internal))


@contract('atom.Transition.transition_allowed', 'C10', 'the E1, M1 and E2 selection rules on J and parity')
def fine_allowed(self):
    a, b = self.E_1, self.E_2
    if type(a) is not type(b) or nums(a.term.J, b.term.J) is None:
        return NA
    return fine_rules(a.term.J, b.term.J, a.term.parity, b.term.parity, a is b)


def hf_rules(init, I, J0, J1, F0, F1):
    s = {k: wigner.w6(J0, J1, k, F1, F0, I) for k in (1, 2)}
    return tuple(And(true(p), s[k] != 0) for p, k in zip(init, (1, 1, 2)))


@contract('atom.HFTransition.transition_allowed', 'C10', "the parent's types for which {J0 J1 k; F1 F0 I} is not zero")
def hf_allowed(self):
    a, b = self.E_1, self.E_2
    v = (a.atom.I, a.term.J, b.term.J, a.term.F, b.term.F)
    if nums(*v) is None:
        return NA
    return hf_rules(self.parent.allowed_types if self.parent is not None else (True,) * 3, *v)


def z_rules(init, F0, F1, m0, m1):
    s = {k: Or(*[wigner.w3(F1, k, F0, -m1, q, m0) != 0 for q in range(-k, k + 1)]) for k in (1, 2)}
    return tuple(And(true(p), s[k]) for p, k in zip(init, (1, 1, 2)))


@contract('atom.ZTransition.transition_allowed', 'C10', "the parent's types for which (F1 k F0; -m1 q m0) is not zero for some q")
def z_allowed(self):
    a, b = self.E_1, self.E_2
    v = (a.term.F, b.term.F, a.term.mF, b.term.mF)
    if nums(*v) is None:
        return NA
    return z_rules(self.parent.allowed_types, *v)


def recoupled(kind, n):
    """three rows of one length: L (a letter of the alphabet exists for it), S and the amplitude, functions of the arguments and the row"""
    def spec(*a):
        if len(a) != n or nums(*a) is None:
            return NA
        rs = [lift(x).r for x in a]
        fs = [z3.Function(f'{kind}_{c}', *([R] * n + [z3.IntSort()] * (c != 'N') + [R if c == 'A' else z3.IntSort()])) for c in 'NLSA']
        i = z3.Int(f'{kind}_row')
        L, s, x = (f(*rs, i) for f in fs[1:])
        from . import seq, models
        cnt = fs[0](*rs)
        dim = z3.If(cnt >= 1, cnt, 1)
        cols = [SNum(to_real(L % 21), 'float'), SNum(to_real(z3.If(s >= 0, s, -s)) / 2, 'float'), SNum(x, 'float')]
        return models.NP().stack([seq.SymSeq([seq.Seg([i], [dim], [(z3.BoolVal(True), c)])]) for c in cols])
    return spec


for _kind, _n in (('JJ', 7), ('JK', 7), ('LK', 5)):
    contract(f'transition_strengths.{_kind}_to_LS', 'C18', 'three rows of one length, at least 1: L between 0 and 20, S half-integer and not negative, amplitude')(recoupled(_kind, _n))
    ABSTRACT.add(f'transition_strengths.{_kind}_to_LS')
