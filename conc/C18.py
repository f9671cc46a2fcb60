from .lib import *


def run(C):
    at = lib()
    import atomtoolkit.transition_strengths as ts
    u = at.util
    r = C.rng

    def rd(pairs):
        return sorted((f'{int(2 * s + 1)}{LETTERS[int(l)]}', 100 * p) for l, s, p in pairs)

    def verify(kind, arr, read, spec, ls, ss, J, inp):
        """spec(L, S) -> squared amplitude"""
        import numpy as np
        arr = np.array(arr)
        cols = [tuple(float(x) for x in c) for c in arr.T]
        exp = [(float(L), float(S)) for L in ls for S in ss]
        C.check('every-LS-once', sorted(c[:2] for c in cols) == sorted(exp), inp, [c[:2] for c in cols], exp)
        tot = 0.0
        for L, S, x in cols:
            tot += x * x
            e = spec(H(L), H(S))
            C.close('amplitude', abs(x), math.sqrt(e), (inp, L, S), abs_=1e-10)
            if not tri(H(L), H(S), H(J)):
                C.check('cannot-form-J', abs(x) < 1e-12, (inp, L, S), x)
        C.close('unitary', tot, 1.0, inp, abs_=1e-9)
        got = read()
        want = [(f'{int(2 * S + 1)}{LETTERS[int(L)]}', 100 * spec(H(L), H(S))) for L, S in exp if spec(H(L), H(S)) > 1e-14]
        C.eq('readable-terms', sorted(t for t, _ in got), sorted(t for t, _ in want), inp)
        gw = sorted(want)
        for (t, p), (t2, p2) in zip(sorted(got), gw):
            C.close('readable-percent', p, p2, (inp, t), abs_=.00501, rel=1e-9)
            C.check('readable-rounded', abs(p * 100 - round(p * 100)) < 1e-6, (inp, t), p)

    for _ in range(C.n(250, 4000)):
        lc, lo = r.randint(0, 4), r.randint(0, 4)
        sc, so = half(r, 0, 4), half(r, 0, 3)
        jc = r.choice(rng_list(abs(lc - sc), lc + sc))
        ls, ss = rng_list(abs(lc - lo), lc + lo), rng_list(abs(sc - so), sc + so)
        kind = r.choice(['JJ', 'JK', 'LK'])
        if kind == 'JJ':
            jo = r.choice(rng_list(abs(lo - so), lo + so))
            J = r.choice(rng_list(abs(jc - jo), jc + jo))
            args = (J, jc, jo, lc, sc, lo, so)
            f, rdf = ts.JJ_to_LS, u.readable_JJ_to_LS
            spec = lambda L, S: float((2 * jc + 1) * (2 * jo + 1) * (2 * L + 1) * (2 * S + 1)) * w9(lc, sc, jc, lo, so, jo, L, S, J) ** 2  # noqa
        elif kind == 'JK':
            K = r.choice(rng_list(abs(jc - lo), jc + lo))
            J = r.choice(rng_list(abs(K - so), K + so))
            args = (J, jc, K, lc, sc, lo, so)
            f, rdf = ts.JK_to_LS, u.readable_JK_to_LS
            spec = lambda L, S: float((2 * jc + 1) * (2 * L + 1) * (2 * K + 1) * (2 * S + 1) * w6sq(sc, lc, jc, lo, K, L)[1] * w6sq(L, sc, K, so, J, S)[1])  # noqa
        else:
            L0 = r.randint(0, 6)
            ls = [Fr(L0)]
            K = r.choice(rng_list(abs(L0 - sc), L0 + sc))
            J = r.choice(rng_list(abs(K - so), K + so))
            args = (J, L0, K, sc, so)
            f, rdf = ts.LK_to_LS, u.readable_LK_to_LS
            spec = lambda L, S: float((2 * K + 1) * (2 * S + 1) * w6sq(L0, sc, K, so, J, S)[1])  # noqa
        fl = tuple(float(x) for x in args)
        inp = (kind, fl)
        with C.case('recoupling', inp):
            verify(kind, f(*fl), lambda: rdf(*fl), spec, ls, ss, J, inp)
    for conf, term, J, f, a in [('4f13.(2F*<7/2>).6s<1/2>', '(7/2,1/2)*', 3.0, u.readable_JJ_to_LS, (3.0, 3.5, .5, 3, .5, 0, 0.0))]:
        pass
    for t in ['2S', '3P*', '4F']:
        with C.case('term-LS', t):
            C.eq('term-LS', [tuple(x) for x in u.term_to_LS('3d', t, 1.5)], [(t, 100.0)], t)
    for _ in range(C.n(30, 300)):
        lc, sc, lo = r.randint(0, 3), half(r, 0, 3), r.randint(0, 3)
        jc = r.choice(rng_list(abs(lc - sc), lc + sc))
        K = r.choice(rng_list(abs(jc - lo), jc + lo))
        J = r.choice([K + Fr(1, 2), abs(K - Fr(1, 2))])
        conf = f'4f13.({int(2 * sc + 1)}{LETTERS[lc]}<{frac(jc)}>).5{LETTERS[lo].lower()}'
        with C.case('term-JK', (conf, K, J)):
            C.eq('term-JK', u.term_to_LS(conf, f'2[{frac(K)}]', float(J)),
                 u.readable_JK_to_LS(float(J), float(jc), float(K), lc, float(sc), lo, .5), (conf, str(K), str(J)))
        L0 = r.randint(0, 4)
        K = r.choice(rng_list(abs(L0 - sc), L0 + sc))
        J = r.choice([K + Fr(1, 2), abs(K - Fr(1, 2))])
        conf = f'4f13.({int(2 * sc + 1)}{LETTERS[lc]}).5{LETTERS[lo].lower()}'
        with C.case('term-LK', (conf, K, J)):
            C.eq('term-LK', u.term_to_LS(conf, f'{LETTERS[L0]} 2[{frac(K)}]', float(J)),
                 u.readable_LK_to_LS(float(J), L0, float(K), float(sc), .5), (conf, str(L0), str(K), str(J)))
