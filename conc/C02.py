from .lib import *


def run(C):
    at = lib()
    u, T = at.util, at.term.Term
    r = C.rng

    def chk(conf, term, coup, q, par):
        inp = (conf, term)
        with C.case('parse', inp):
            C.eq('coupling', u.get_term_coupling(term), coup, term)
            names = ['lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']
            got = u.get_quantum_nums(conf, term)
            exp = tuple(None if q.get(n) is None else float(q[n]) for n in names)
            C.check('quantum-numbers', len(got) == 9 and all((g is None) == (e is None) and (e is None or float(g) == e)
                                                             for g, e in zip(got, exp)), inp, got, exp)
            t = T(conf, term, J=1.0 if r.random() < .5 else '3/2')
            C.eq('parity', t.parity, par, inp)
            C.eq('term-coupling', t.coupling, coup, inp)
            got = tuple(getattr(t, n) for n in names)
            C.check('term-quantum-numbers', all((g is None) == (e is None) and (e is None or float(g) == e)
                                                for g, e in zip(got, exp)), inp, got, exp)

    def star():
        return r.choice(['', '*'])

    def mult():
        return r.choice(list(range(1, 10)) + [10, 11, 12])

    def jj():
        return half(r, 0, 23)

    N = C.n(600, 15000)
    for i in range(len(LETTERS)):
        for m in range(1, 13):
            for st in ('', '*'):
                chk(f'{r.randint(1, 9)}d2', f'{m}{LETTERS[i]}{st}', 'LS', dict(l=i, s=Fr(m - 1, 2)), -1 if st else 1)
    for _ in range(N):
        a, b = r.randrange(21), r.randrange(21)
        ms, mo, jc, k, st = mult(), mult(), jj(), jj(), star()
        low = r.randrange(0, 8)
        # JK: parent in <>, outer electron letter or second term in the configuration
        shell = r.choice(['4f13', '5p5', '3d9', '2p5'])
        if r.random() < .6:
            conf = f'{shell}.({ms}{LETTERS[a]}{star()}<{frac(jc)}>).{r.randint(2, 19)}{LETTERS[low].lower()}'
            lo = low
        else:
            conf = f'{shell}.({ms}{LETTERS[a]}{star()}<{frac(jc)}>).5d.6s.({mult()}{LETTERS[b]})'
            if r.random() < .4:
                conf = conf[:-1] + '*)'
            lo = b
        chk(conf, f'{mo}[{frac(k)}]{st}', 'JK', dict(lc=a, sc=Fr(ms - 1, 2), lo=lo, so=Fr(mo - 1, 2), jc=jc, k=k), -1 if st else 1)
        # LK
        l = r.randrange(21)
        conf = f'{shell}.({ms}{LETTERS[a]}{star()}).{r.randint(2, 19)}{LETTERS[low].lower()}'
        lo = low
        if r.random() < .4:
            conf = f'{shell}.({ms}{LETTERS[a]}{star()}).5d2.({mult()}{LETTERS[b]}{star()})'
            lo = b
        t1 = r.choice(['', '*'])
        term = f'{LETTERS[l]}{t1} {mo}[{frac(k)}]{st}'
        chk(conf, term, 'LK', dict(lc=a, sc=Fr(ms - 1, 2), lo=lo, so=Fr(mo - 1, 2), l=l, k=k), -1 if '*' in term else 1)
        # JJ
        jc, jo = jj(), jj()
        oterm = r.random() < .5
        o = f'{mo}{LETTERS[b]}{star()}' if oterm else f'{r.randint(2, 9)}{LETTERS[low].lower()}'
        conf = f'{shell}.({ms}{LETTERS[a]}{star()}<{frac(jc)}>).{"5d2.(" + o if oterm else o}<{frac(jo)}>' + (')' if oterm else '')
        term = f'({frac(jc)},{r.choice(["", " "])}{frac(jo)}){st}'
        chk(conf, term, 'JJ', dict(lc=a, sc=Fr(ms - 1, 2), lo=b if oterm else low, so=Fr(mo - 1, 2) if oterm else 0, jc=jc, jo=jo),
            -1 if st else 1)
    for t in ['2[3/2]', '3[4]*', '1[11/2]']:
        C.eq('coupling', u.get_term_coupling(t), 'JK', t)
    for L in LETTERS:
        C.eq('coupling', u.get_term_coupling(f'{L} 2[3/2]'), 'LK', L)
        C.eq('coupling', u.get_term_coupling(f'{L}* 3[4]*'), 'LK', L)
    for t in ['(2, 1/2)', '(7/2,1)*']:
        C.eq('coupling', u.get_term_coupling(t), 'JJ', t)
    for t in ['', '*', '3']:
        inp = t
        with C.case('unknown', inp):
            C.eq('absent-numbers', u.get_quantum_nums('3d', t), (None,) * 9, inp)
