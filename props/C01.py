"""C01 quantum-number and orbital-letter notation; also proves the contracts of float_to_frac and frac_to_float"""
from props import proofs
from props.proofs import canonical

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, Str, Not
    from pyvc.rope import SStr, Frac, Dec, Flt, mkstr
    from pyvc.core import SNum, to_real
    import z3
    u = S.lib.util

    proofs.write_read(S)

    def write_int():
        i = Int('i')
        S.eq('write-int', u.float_to_frac(i), mkstr([Dec(i.t)]))
        S.eq('write-int', u.float_to_frac(mkstr([Dec(i.t)])), mkstr([Dec(i.t)]))
        S.check('read-int', u.frac_to_float(mkstr([Dec(i.t)])) == i)
        S.check('read-number', u.frac_to_float(i) == i)
        x = Real('x')
        S.check('read-number', u.frac_to_float(x) == x)
    S.run('write-int', write_int)

    def text():
        n = Int('n')
        x = SNum(to_real(n.t) / 2, 'float')
        S.eq('decimal-text', u.float_to_frac(SStr([Flt(x.t)])), canonical(n.t))
        a = Str('a', lacks='/')
        b = Str('b', lacks='/')
        t = a + '/' + b
        S.eq('fraction-text-unchanged', u.float_to_frac(t), t)
        S.check('absent', u.float_to_frac(None) is None)
        S.check('absent', u.frac_to_float(None) is None)
        S.check('absent', u.let_to_l('') is None)
    S.run('text', text)

    def letters():
        # finite domains are enumerated completely
        for i, ch in enumerate(LETTERS):
            S.check('letters', u.let_to_l(ch) == i)
            S.check('letters', u.let_to_l(ch.lower()) == i)
            S.check('letters', u.l_to_let(i) == ch)
            S.check('letters', u.l_to_let(float(i)) == ch)
        for o in range(128):
            if chr(o).upper() not in LETTERS:
                S.raises('reject-character', Exception, lambda: u.let_to_l(chr(o)))
    S.run('letters', letters)

    def rejected():
        s = Str('s')
        ENG.assume(s.__vc_len__() >= 2)
        S.raises('reject-long', Exception, lambda: u.let_to_l(s))
        x = Real('x')
        ENG.assume(Not(x.is_integer()))
        S.raises('reject-noninteger', Exception, lambda: u.l_to_let(x))
    S.run('rejected', rejected)

    def large():
        i = Int('i')
        ENG.assume(i > 20)
        S.raises('reject-large', Exception, lambda: u.l_to_let(i))
    S.run('large', large)
