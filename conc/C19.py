from .lib import *


def gls(J, L, S):
    return float(1 + Fr(10023, 10000) * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1)))


def run(C):
    at = lib()
    A, T, M, Q_ = at.atom, at.term.Term, at.term.MultiTerm, at.Q_
    r = C.rng

    def comp(J):
        """(conf, term, g) of a component with total J"""
        J = H(J)
        for _ in range(200):
            kind = r.choice(['LS', 'LS', 'JJ', 'JK', 'LK'])
            st = r.choice(['', '*'])
            if kind == 'LS':
                t = term_for(r, J, False)
                return CONFS[r.randrange(len(CONFS))], t + st, gls(J, LETTERS.index(t[1]), Fr(int(t[0]) - 1, 2)) if J else 0.0
            lc, lo, sc = r.randint(0, 3), r.randint(0, 3), half(r, 0, 3)
            jc = r.choice(rng_list(abs(lc - sc), lc + sc))
            ss = rng_list(abs(sc - Fr(1, 2)), sc + Fr(1, 2))
            if kind == 'JJ':
                so = half(r, 1, 3)
                jo = r.choice(rng_list(abs(lo - so), lo + so))
                if not tri(jc, jo, J):
                    continue
                g = 0.0
                for L in rng_list(abs(lc - lo), lc + lo):
                    for S in rng_list(abs(sc - so), sc + so):
                        w = float((2 * jc + 1) * (2 * jo + 1) * (2 * L + 1) * (2 * S + 1)) * w9(lc, sc, jc, lo, so, jo, L, S, J) ** 2
                        g += w * gls(J, L, S) if J else 0
                return (f'4f13.({int(2 * sc + 1)}{LETTERS[lc]}*<{frac(jc)}>).5d2.({int(2 * so + 1)}{LETTERS[lo]}<{frac(jo)}>)',
                        f'({frac(jc)},{frac(jo)})' + st, g)
            so = Fr(r.randint(0, 2), 2)
            ss = rng_list(abs(sc - so), sc + so)
            if kind == 'JK':
                ks = [k for k in rng_list(abs(jc - lo), jc + lo) if tri(k, so, J)]
                if not ks:
                    continue
                K = r.choice(ks)
                g = 0.0
                for L in rng_list(abs(lc - lo), lc + lo):
                    for S in ss:
                        w = float((2 * jc + 1) * (2 * L + 1) * (2 * K + 1) * (2 * S + 1) * w6sq(sc, lc, jc, lo, K, L)[1] * w6sq(L, sc, K, so, J, S)[1])
                        g += w * gls(J, L, S) if J else 0
                return f'4f13.({int(2 * sc + 1)}{LETTERS[lc]}*<{frac(jc)}>).6{LETTERS[lo].lower()}', f'{int(2 * so + 1)}[{frac(K)}]' + st, g
            L = r.randint(0, 5)
            ks = [k for k in rng_list(abs(L - sc), L + sc) if tri(k, so, J)]
            if not ks:
                continue
            K = r.choice(ks)
            g = sum(float((2 * K + 1) * (2 * S + 1) * w6sq(L, sc, K, so, J, S)[1]) * gls(J, L, S) if J else 0 for S in ss)
            return f'4f13.({int(2 * sc + 1)}{LETTERS[lc]}*).6{LETTERS[lo].lower()}', f'{LETTERS[L]} {int(2 * so + 1)}[{frac(K)}]' + st, g

    for _ in range(C.n(500, 8000)):
        J = half(r, 0, 9)
        n = r.choice([1, 1, 2, 3])
        pc = [100.0] if n == 1 and r.random() < .6 else [r.uniform(1, 60) for _ in range(n)]
        with C.case('lande', (str(J), pc)):
            cs = [comp(J) for _ in range(n)]
            if any(c is None for c in cs):
                continue
            inp = (str(J), [c[:2] for c in cs], pc)
            ts = [T(c[0], c[1], float(J), percentage=p) for c, p in zip(cs, pc)]
            term = ts[0] if n == 1 and r.random() < .5 else M(*ts)
            a = A.Atom('X', I=float(half(r, 0, 3)))
            l = A.EnergyLevel(term, Q_(1.0, 'THz'), parent=a if r.random() < .3 else None)
            e = 0.0 if J == 0 else sum(c[2] * p / 100 for c, p in zip(cs, pc))
            C.close('estimate', float(l.lande), e, inp, rel=1e-8, abs_=1e-9)
            g = r.choice([0.0, r.uniform(-2, 3), 1.5])
            l = A.EnergyLevel(term, Q_(1.0, 'THz'), lande=g)
            C.eq('given', l.lande, g, (inp, g))
            if n == 1 and cs[0][0] in CONFS:
                C.close('estimate', float(A.EnergyLevel(ts[0], Q_(1.0, 'THz')).compute_gJ()), e, inp, rel=1e-8, abs_=1e-9)
