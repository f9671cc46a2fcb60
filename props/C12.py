"""C12 relative strengths of subtransitions and their sum rules

The sum rules are derived from the strengths the code computes and two instances of the orthogonality of the Wigner symbols,
which are assumed as lemmas over all F=|J-I|..J+I and all mF=-F..F.
"""
ASSUMES = ["lemma (assumed): sum over F' of (2F'+1)(2J+1){Jo F' I; F J k}^2 = 1 for coupled F, and sum over q, m' of (2F+1)(F k F'; -m q m')^2 = 1 (orthogonality of the Wigner 6j and 3j symbols)"]
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, And, Or, Not
    from pyvc import wigner as W, seq as Q, runtime as RT
    from pyvc.core import mkbool, bterm
    from props.common import level
    at = S.lib
    Q_ = at.Q_
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.ZS, proofs.FINE, proofs.HF, proofs.ZEE)

    def pair(p0, p1, A='sym'):
        I, J0, J1 = Half('2I'), Half('2J0'), Half('2J1')
        a = at.atom.Atom('X', I=I)
        l0 = level(at, J0, Real('E0'), '0', p0, '3d', '2D', hf=False)
        l1 = level(at, J1, Real('E1'), '1', p1, '4f', '2F', hf=False)
        a.add_level(l0)
        a.add_level(l1)
        Av = Real('Acoef')
        t = at.atom.Transition(l0, l1, A=None if A is None else Q_(Av, 'MHz'))
        return a, l0, l1, t, I, J0, J1, Av * 1e6

    def true(x):
        return mkbool(bterm(x))

    def rank(types):
        return 1 if true(types[0]) or true(types[1]) else 2 if true(types[2]) else 0

    def hf(t, x, y):
        return at.atom.HFTransition(x, y, parent=t)

    def zee(t, x, y):
        return at.atom.ZTransition(x, y, parent=t)

    PAR = ((1, -1), (1, 1))

    def hf_spec(k, I, J0, J1, F0, F1):
        return (2 * F0 + 1) * (2 * F1 + 1) * W.w6(J1, F1, I, F0, J0, k) ** 2 if k else 0.0

    def z_spec(k, F0, F1, m0, m1):
        r = 0.0
        for q in range(-k, k + 1):
            r = r + W.w3(F0, k, F1, -m0, q, m1) ** 2
        return r if k else 0.0

    for p0, p1 in PAR:
        def strength(p0=p0, p1=p1):
            a, l0, l1, t, I, J0, J1, A = pair(p0, p1)
            S.check('A', And(t.A.to('Hz').magnitude == A, t.rel_strength == 1.0))
            x, y = S.generic(l0.values()), S.generic(l1.values())
            h = hf(t, x, y)
            s = hf_spec(rank(t.allowed_types), I, J0, J1, x.term.F, y.term.F)
            S.check('hyperfine/strength', h.rel_strength == s)
            S.check('hyperfine/A', h.A.to('Hz').magnitude == s * A)
            u, v = S.generic(x.values()), S.generic(y.values())
            z = zee(h, u, v)
            sz = z_spec(rank(h.allowed_types), x.term.F, y.term.F, u.term.mF, v.term.mF)
            S.check('zeeman/strength', z.rel_strength == sz)
            S.check('zeeman/A', z.A.to('Hz').magnitude == sz * s * A)
        S.run(f'strength{p0:+}{p1:+}', strength)

    def absent():
        a, l0, l1, t, I, J0, J1, A = pair(1, -1, None)
        h = hf(t, S.generic(l0.values()), S.generic(l1.values()))
        z = zee(h, S.generic(h.E_1.values()), S.generic(h.E_2.values()))
        for i in (t, h, z):
            S.check('absent', And(i.A is None, i.rel_strength == 1.0))
    S.run('absent', absent)

    def sum_q(f, k):
        r = 0.0
        for q in range(-k, k + 1):
            r = r + f(q)
        return r

    for side in (0, 1):
        for p0, p1 in PAR:
            def multiplet(side=side, p0=p0, p1=p1):
                a, l0, l1, t, I, J0, J1, A = pair(p0, p1)
                k = rank(t.allowed_types)
                if k == 0:
                    return
                own, other = (l0, l1) if side == 0 else (l1, l0)
                x = S.generic(own.values())
                F, J, Jo = x.term.F, own.term.J, other.term.J

                def w6(f):
                    fa, fb = (F, f) if side == 0 else (f, F)
                    return W.w6(J1, fb, I, fa, J0, k)
                # orthogonality of 6j symbols: sum over F' of (2F'+1)(2J+1){Jo F' I; F J k}^2 = 1 when (J, Jo, k) and (J, I, F) are triangles
                Fs = Q.sym_arange(RT.b_abs(Jo - I), Jo + I + 1)
                ENG.assume(S.sum(Fs, lambda f: (2 * f + 1) * w6(f) ** 2) * (2 * J + 1) == 1)
                tot = S.sum(other.values(), lambda y: (hf(t, x, y) if side == 0 else hf(t, y, x)).rel_strength)
                S.check('hyperfine/sum-rule', tot == (2 * F + 1) / (2 * J + 1))
            S.run(f'hyperfine-sum/{side}{p0:+}{p1:+}', multiplet)

            def zsum(side=side, p0=p0, p1=p1):
                a, l0, l1, t, I, J0, J1, A = pair(p0, p1)
                x, y = S.generic(l0.values()), S.generic(l1.values())
                h = hf(t, x, y)
                k = rank(h.allowed_types)
                if k == 0:
                    return
                own, other = (x, y) if side == 0 else (y, x)
                z = S.generic(own.values())
                m, F = z.term.mF, own.term.F

                def w3(n, q):
                    ma, mb = (m, n) if side == 0 else (n, m)
                    return W.w3(x.term.F, k, y.term.F, -ma, q, mb)
                # orthogonality of 3j symbols: sum over q, m' of (2F+1)(F k F'; -m q m')^2 = 1 when (F, F', k) is a triangle
                lem = S.sum(Q.sym_arange(-other.term.F, other.term.F + 1), lambda n: sum_q(lambda q: w3(n, q) ** 2, k))
                ENG.assume(lem * (2 * F + 1) == 1)
                tot = S.sum(other.values(), lambda w: (zee(h, z, w) if side == 0 else zee(h, w, z)).rel_strength)
                S.check('zeeman/sum-rule', tot == 1 / (2 * F + 1))
            S.run(f'zeeman-sum/{side}{p0:+}{p1:+}', zsum)

    # totals: the sum rule of every F (mF) added up over the level
    def totals():
        I, J = Half('2I'), Half('2J')
        a = at.atom.Atom('X', I=I)
        lv = a.add_level(level(at, J, Real('E'), hf=False))
        S.check('hyperfine/total', S.sum(lv.values(), lambda s: (2 * s.term.F + 1) / (2 * J + 1)) == 2 * I + 1)
        h = S.generic(lv.values())
        S.check('zeeman/total', S.sum(h.values(), lambda z: 1 / (2 * h.term.F + 1)) == 1)
    S.run('totals', totals)
