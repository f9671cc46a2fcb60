from .lib import *


def run(C):
    at = lib()
    u = at.util
    L = C.n(3000, 60000)
    for n in list(range(-L, L + 1)):
        x = n / 2
        exp = frac(Fr(n, 2))
        with C.case('write-read', x):
            s = u.float_to_frac(x)
            C.eq('write', s, exp, x)
            C.eq('read', u.frac_to_float(exp), x, exp)
            C.eq('text-unchanged', u.float_to_frac(exp) if '/' in exp else exp, exp, exp)
            if n % 7 == 0 and abs(n) < 400:
                C.eq('decimal-text', u.float_to_frac(repr(x)), exp, repr(x))
                C.eq('decimal-text', u.float_to_frac(str(x)), exp, str(x))
                if n % 2 == 0:
                    C.eq('write-int', u.float_to_frac(n // 2), exp, n // 2)
                    C.eq('write-int', u.float_to_frac(exp), exp, exp)
                C.eq('read-number', u.frac_to_float(x), x, x)
    import numpy as np
    for x in np.arange(-6, 6.5, .5):
        C.eq('write', u.float_to_frac(x), frac(Fr(float(x))), x)
    for x in (10 ** 6 + .5, -10 ** 6 - .5, 2.0 ** 40, 2.0 ** 40 + .5):
        C.eq('write', u.float_to_frac(x), frac(Fr(x)) if Fr(x).denominator == 1 else f'{Fr(x).numerator}/2', x)
    C.eq('absent', u.float_to_frac(None), None, None)
    C.eq('absent', u.frac_to_float(None), None, None)
    C.eq('absent-letter', u.let_to_l(''), None, '')
    for i, ch in enumerate(LETTERS):
        with C.case('letters', ch):
            C.eq('letter-to-l', u.let_to_l(ch), i, ch)
            C.eq('letter-to-l', u.let_to_l(ch.lower()), i, ch.lower())
            C.eq('l-to-letter', u.l_to_let(i), ch, i)
            C.eq('l-to-letter', u.l_to_let(float(i)), ch, float(i))
    for o in range(128):
        ch = chr(o)
        if ch.upper() not in LETTERS:
            C.raises('reject-char', Exception, lambda: u.let_to_l(ch), ch)
    for s in ['SP', 'PD', 'SPD', 'ss', 'Dx', 'F ', ' F', '2P', 'SPDFG', LETTERS, 'GH', 'XYZ']:
        C.raises('reject-long', Exception, lambda: u.let_to_l(s), s)
    for x in [.5, 1.5, 2.25, 19.5, .1, 3.999]:
        C.raises('reject-noninteger', Exception, lambda: u.l_to_let(x), x)
    C.raises('reject-text', Exception, lambda: u.l_to_let('P'), 'P')
