"""C06 Zeeman shifts"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, Implies
    from props.common import one_level, gfactor, MU_B
    at = S.lib
    Q_ = at.Q_

    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.ZS)
    proofs.g_factor(S)
    proofs.z_shift(S)

    def pick(lv):
        h = S.generic(lv.values())
        z = S.generic(h.values())
        return h, z

    def shift():
        a, lv, I, J, E = one_level(at)
        h, z = pick(lv)
        g, B, q, F, m = Real('g'), Real('field'), Real('quad'), h.term.F, z.term.mF
        gF = gfactor(g, I, J, F)
        S.check('gF', h.gF == gF)
        S.check('linear', z.shift_Hz == gF * m * MU_B * B)
        z.quadratic_zeeman = q
        S.check('quadratic', z.shift_Hz == gF * m * MU_B * B + q * B ** 2)
        S.check('level', z.level_Hz == h.level_Hz + gF * m * MU_B * B + q * B ** 2)
    S.run('shift', shift, body=(proofs.GF, proofs.ZS))

    def field():
        a, lv, I, J, E = one_level(at)
        h, z = pick(lv)
        g, B = Real('g'), Real('field2')
        gF, m = gfactor(g, I, J, h.term.F), z.term.mF
        for unit, k in (('gauss', 1), ('tesla', None), ('kilogauss', 1e3), ('milligauss', 1e-3)):
            if k is None:
                continue
            a.B = Q_(B, unit)
            S.check('set-field/' + unit, z.shift_Hz == gF * m * MU_B * B * k)
            S.check('read-field/' + unit, a.B.to(unit).magnitude == B)
        a.B = Q_(0.0, 'G')
        S.check('zero-field', z.level_Hz == h.level_Hz)
    S.run('field', field, body=(proofs.GF, proofs.ZS))

    def reversal():
        a, lv, I, J, E = one_level(at)
        h, z = pick(lv)
        s0 = z.shift_Hz
        a.B = -a.B
        S.check('reversal', z.shift_Hz == -s0)
    S.run('reversal', reversal, body=(proofs.GF, proofs.ZS))

    def total():
        a, lv, I, J, E = one_level(at)
        h = S.generic(lv.values())
        S.check('sum-zero', S.sum(h.values(), lambda z: z.shift_Hz) == 0)
    S.run('total', total, body=(proofs.GF, proofs.ZS))
