"""Proofs of the function contracts of pyvc/contracts.py on the bodies of the functions.

Each is run by the property it belongs to (home) and again, under names starting with 'contract:', by every property whose
proofs use the contract at call sites.
"""
from pyvc.harness import ENG, Real, Half, Int, Str, Not, And, Or, Iff
from pyvc.rope import SStr, Frac, Dec, Flt, mkstr
from pyvc.core import SNum, to_real, mkbool, bterm
from pyvc import wigner as W, contracts as K
from props.common import one_level, two_levels, casimir, gfactor, MU_B

FTF, TOF = 'util.float_to_frac', 'util.frac_to_float'
SHIFT, GF, ZS = 'atom.HFLevel.compute_hf_shift', 'atom.HFLevel.compute_gF', 'atom.ZLevel.shift_Hz'
FINE, HF, ZEE = ('atom.%s.transition_allowed' % c for c in ('Transition', 'HFTransition', 'ZTransition'))
TEXT = (FTF, TOF)


def canonical(n):
    """the canonical text of n/2"""
    return mkstr([Dec(n / 2)] if ENG.branch(n % 2 == 0) else [Dec(n), '/2'])


def write_read(S):
    u = S.lib.util

    def write():
        x = Half('n', None)
        n = K.half_of(x)
        s = u.float_to_frac(x)
        S.eq('write', s, canonical(n))
        S.eq('write', s, mkstr([Frac(n)]))
        S.check('read', u.frac_to_float(s) == x)
        S.check('read', u.frac_to_float(mkstr([Frac(n)])) == x)
        S.eq('text-unchanged', u.float_to_frac(s), s)
        S.eq('text-unchanged', u.float_to_frac(mkstr([Frac(n)])), s)
    S.run('write-read', write, body=TEXT)


def hf_shift(S):
    S.use(*TEXT)

    def shift():
        a, lv, I, J, E = one_level(S.lib, 0.0)
        s = S.generic(lv.values())
        v = s.shift_Hz
        S.check('formula', v == casimir(I, J, s.term.F, Real('A'), Real('B'), Real('C')))
        S.check('formula', s.compute_hf_shift() == v)
        S.check('level', s.level_Hz == E + v)
    S.run('shift', shift, body=(SHIFT,))


def g_factor(S):
    S.use(*TEXT)

    def gf():
        a, lv, I, J, E = one_level(S.lib)
        h = S.generic(lv.values())
        z = S.generic(h.values())
        spec = gfactor(Real('g'), I, J, h.term.F)
        for x in (h, z):
            S.check('gF', x.gF == spec)
            S.check('gF', x.compute_gF() == spec)
    S.run('gF', gf, body=(GF,))


def z_shift(S):
    S.use(*TEXT, SHIFT, GF)

    def shift():
        a, lv, I, J, E = one_level(S.lib)
        h = S.generic(lv.values())
        z = S.generic(h.values())
        lin = z.gF * z.term.mF * MU_B * Real('field')
        S.check('shift', z.shift_Hz == lin)
        z.quadratic_zeeman = q = Real('quad')
        S.check('shift', z.shift_Hz == lin + q * Real('field') ** 2)
    S.run('zeeman-shift', shift, body=(ZS,))


def same(S, name, got, spec):
    S.check(name, len(got) == 3)
    for g, s in zip(got, spec):
        S.check(name, Iff(mkbool(bterm(g)), mkbool(bterm(s))))


def fine_allowed(S):
    at = S.lib
    S.use(*TEXT)
    for p0, p1 in ((1, 1), (1, -1), (-1, 1), (-1, -1)):
        def fine(p0=p0, p1=p1):
            a, l0, l1, I, J0, J1, E0, E1 = two_levels(at, p0, p1, 0.0)
            t = at.atom.Transition(l0, l1)
            same(S, 'fine', t.allowed_types, K.fine_rules(J0, J1, p0, p1, False))
            # for levels of one atom (J differing by an integer) that is: not from J=0 to J=0
            D = t.allowed_types
            S.check('fine', Or(Not((J0 - J1).is_integer()),
                               Iff(Or(mkbool(bterm(D[0])), mkbool(bterm(D[1]))), And(J1 - J0 <= 1, J0 - J1 <= 1, Not(And(J0 == 0, J1 == 0))))))
        S.run(f'fine{p0:+}{p1:+}', fine, body=(FINE,))

    def internal():
        a, lv, I, J, E = one_level(at, 0.0)
        t = at.atom.Transition(lv, lv)
        same(S, 'fine-internal', t.allowed_types, K.fine_rules(J, J, 1, 1, True))
    S.run('internal', internal, body=(FINE,))


def pair(S, p0, p1):
    """a fine transition and one between arbitrary hyperfine sublevels of its levels"""
    at = S.lib
    a, l0, l1, I, J0, J1, E0, E1 = two_levels(at, p0, p1, 0.0)
    t = at.atom.Transition(l0, l1)
    h0, h1 = S.generic(l0.values()), S.generic(l1.values())
    return t, h0, h1, at.atom.HFTransition(h0, h1, parent=t), I


def hf_allowed(S):
    S.use(*TEXT, SHIFT, GF, FINE)
    for p0, p1 in ((1, -1), (1, 1)):
        def hf(p0=p0, p1=p1):
            t, h0, h1, ht, I = pair(S, p0, p1)
            same(S, 'hyperfine', ht.allowed_types, K.hf_rules(t.allowed_types, I, h0.term.J, h1.term.J, h0.term.F, h1.term.F))
        S.run(f'hyperfine{p0:+}{p1:+}', hf, body=(HF,))


def z_allowed(S):
    S.use(*TEXT, SHIFT, GF, FINE, HF)
    for p0, p1 in ((1, -1), (1, 1)):
        def zee(p0=p0, p1=p1):
            t, h0, h1, ht, I = pair(S, p0, p1)
            z0, z1 = S.generic(h0.values()), S.generic(h1.values())
            zt = S.lib.atom.ZTransition(z0, z1, parent=ht)
            same(S, 'zeeman', zt.allowed_types, K.z_rules(ht.allowed_types, h0.term.F, h1.term.F, z0.term.mF, z1.term.mF))
        S.run(f'zeeman{p0:+}{p1:+}', zee, body=(ZEE,))


PROOFS = {FTF: write_read, TOF: write_read, SHIFT: hf_shift, GF: g_factor, ZS: z_shift, FINE: fine_allowed, HF: hf_allowed, ZEE: z_allowed}
