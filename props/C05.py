"""C05 hyperfine shifts"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, Implies
    from props.common import one_level, casimir
    at = S.lib
    Q_ = at.Q_

    S.use(*proofs.TEXT, proofs.SHIFT)
    proofs.hf_shift(S)

    def stretched():
        a, lv, I, J, E = one_level(at, 0.0)
        s = S.generic(lv.values())
        ENG.assume(s.term.F == I + J)
        spec = Real('A') * I * J
        if J >= 1 and I >= 1:
            spec = spec + Real('B') / 4
        if J >= 1.5 and I >= 1.5:
            spec = spec + Real('C')
        S.check('stretched-state', s.shift_Hz == spec)
    S.run('stretched', stretched, body=(proofs.SHIFT,))

    def centroid():
        a, lv, I, J, E = one_level(at, 0.0)
        S.check('centroid', S.sum(lv.values(), lambda s: (2 * s.term.F + 1) * s.shift_Hz) == 0)
    S.run('centroid', centroid, body=(proofs.SHIFT,))

    def changed():
        # coefficients changed after the sublevels exist, in another unit
        a, lv, I, J, E = one_level(at, 0.0)
        s = S.generic(lv.values())
        A, B, C = Real('A2'), Real('B2'), Real('C2')
        lv.hfA, lv.hfB, lv.hfC = Q_(A, 'MHz'), Q_(B, 'GHz'), Q_(C, 'kHz')
        S.check('units/formula', s.shift_Hz == casimir(I, J, s.term.F, A * 1e6, B * 1e9, C * 1e3))
        S.check('units/read-back', lv.hfA.to('Hz').magnitude == A * 1e6)
        S.check('units/read-back', lv.hfB.to('MHz').magnitude == B * 1e3)
        S.check('units/read-back', lv.hfC.to('kHz').magnitude == C)
    S.run('units', changed, body=(proofs.SHIFT,))

    def defaults():
        I, J, E = Half('2I'), Half('2J'), Real('E')
        a = at.atom.Atom('X', I=I)
        lv = at.atom.EnergyLevel(at.term.Term('3d', '2D', J), Q_(E, 'Hz'), lande=1.0)
        a.add_level(lv)
        S.check('default-coefficients', S.generic(lv.values()).shift_Hz == 0)
    S.run('defaults', defaults, body=(proofs.SHIFT,))
