"""C20 tensor transition strengths obey angular-momentum algebra

The sum rule is derived from the strengths the code computes and two instances of the orthogonality of the Wigner symbols, which
are assumed as lemmas over all final F and mF.
"""
ASSUMES = ['lemma (assumed): orthogonality of the Wigner 3j symbols over final M and q, and of the 6j symbols over final F']


def prove(S):
    from pyvc.harness import ENG, Real, Half, And, Or, Not
    from pyvc.core import SComplex
    from pyvc import wigner as W, seq as Q, runtime as RT
    import sys
    ts = sys.modules['atomtoolkit.transition_strengths']
    at = S.lib
    import numpy
    np = sys.modules['atomtoolkit.transition_strengths'].np

    def state(q=None):
        """quantum numbers of two sublevels of levels of one atom (M1=M0+q)"""
        I, J0, J1 = Half('2I'), Half('2J0'), Half('2J1')
        F0, F1 = Half('2F0'), Half('2F1')
        M0 = Half('2M0', None)
        M1 = Half('2M1', None) if q is None else M0 + q
        for F, J in ((F0, J0), (F1, J1)):
            ENG.assume(And(F <= I + J, F >= I - J, F >= J - I, (F - I - J).is_integer()))
        for M, F in ((M0, F0), (M1, F1)):
            ENG.assume(And(M <= F, M >= -F, (M - F).is_integer()))
        return I, J0, F0, M0, J1, F1, M1

    def spec(k, q, I, J0, F0, M0, J1, F1, M1):
        return (2 * F0 + 1) * (2 * F1 + 1) * W.w6(J0, J1, k, F1, F0, I) ** 2 * W.w3(F1, k, F0, -M1, q, M0) ** 2

    def tri(a, b, c):
        return And(a <= b + c, b <= a + c, c <= a + b)

    for k in (1, 2):
        def component(k=k):
            s = I, J0, F0, M0, J1, F1, M1 = state()
            for q in range(-k, k + 1):
                v = ts.tkq_transition_strength(I, k, q, *s[1:])
                m = ts.tkq_mel(I, k, q, *s[1:])
                S.check('component/strength', v == spec(k, q, *s))
                S.check('component/squared-element', m ** 2 == v)
                for c in (M1 == M0 + q, tri(J0, J1, k), tri(F0, F1, k)):
                    S.check('component/vanishes', Or(c, And(v == 0, m == 0)))
        S.run(f'component/k{k}', component)

        def total(k=k):
            I, J0, J1, F0, M0 = Half('2I'), Half('2J0'), Half('2J1'), Half('2F0'), Half('2M0', None)
            ENG.assume(And(F0 <= I + J0, F0 >= I - J0, F0 >= J0 - I, (F0 - I - J0).is_integer()))
            ENG.assume(And(M0 <= F0, M0 >= -F0, (M0 - F0).is_integer(), (J0 - J1).is_integer(), tri(J0, J1, k)))
            Fs = Q.sym_arange(RT.b_abs(J1 - I), J1 + I + 1)

            def of_F(F1):
                Ms = Q.sym_arange(-F1, F1 + 1)
                got = S.sum(Ms, lambda M1: total_q(lambda q: ts.tkq_transition_strength(I, k, q, J0, F0, M0, J1, F1, M1)))
                w6 = W.w6(J0, J1, k, F1, F0, I)
                want = (2 * F1 + 1) * w6 ** 2
                # orthogonality of 3j symbols: for a triangle, sum over M1, q of (2F0+1)(F1 k F0; -M1 q M0)^2 = 1
                lemma = Or(Not(tri(F0, F1, k)),
                           (2 * F0 + 1) * S.sum(Ms, lambda M1: total_q(lambda q: W.w3(F1, k, F0, -M1, q, M0) ** 2)) == 1)
                S.check('sum/zeeman', Or(Not(lemma), got == want))
                return want

            def total_q(f):
                r = 0.0
                for q in range(-k, k + 1):
                    r = r + f(q)
                return r
            # orthogonality of 6j symbols: sum over F1 of (2F1+1)(2J0+1){J0 J1 k; F1 F0 I}^2 = 1
            ENG.assume((2 * J0 + 1) * S.sum(Fs, lambda F1: (2 * F1 + 1) * W.w6(J0, J1, k, F1, F0, I) ** 2) == 1)
            S.check('sum/total', S.sum(Fs, of_F) == 1 / (2 * J0 + 1))
        S.run(f'sum/k{k}', total)

    def vec(n):
        v = [Real(f'{n}{i}') for i in 'xyz']
        ENG.assume(v[0] ** 2 + v[1] ** 2 + v[2] ** 2 > 0)
        return v

    def arr(v, c=1):
        return np.array([x * c for x in v])

    for kind in ('E1', 'M1'):
        f, g, av = (getattr(ts, kind + n) for n in ('_transition_strength_geom', '_mel_geom', '_transition_strength_avg'))

        def geom(f=f, g=g, kind=kind):
            s = state()
            v = vec('e')
            n2 = v[0] ** 2 + v[1] ** 2 + v[2] ** 2
            t = {q: spec(1, q, *s) for q in (-1, 0, 1)}
            x = f(arr(v), *s)
            S.check('E1-M1/strength', x * n2 == t[0] * v[2] ** 2 + (t[1] + t[-1]) * (v[0] ** 2 + v[1] ** 2) / 2)
        S.run(f'{kind}/strength', geom)

        for q in (-1, 0, 1, None):
            def element(f=f, g=g, q=q):
                s = I, J0, F0, M0, J1, F1, M1 = state(q)
                if q is None:
                    ENG.assume(Or(M1 - M0 > 1, M0 - M1 > 1, Not((M1 - M0).is_integer())))
                v = vec('e')
                m = SComplex.lift(g(arr(v), *s))
                S.check('E1-M1/squared-element', m.re ** 2 + m.im ** 2 == f(arr(v), *s))
            S.run(f'{kind}/element/{q}', element)

        def direction(f=f, g=g, kind=kind):
            s = state()
            v, c = vec('e'), Real('c')
            ENG.assume(c > 0)
            S.check('E1-M1/direction', f(arr(v, c), *s) == f(arr(v), *s))
            S.check('E1-M1/direction', f(arr(v, -c), *s) == f(arr(v), *s))
            S.eq('E1-M1/element-direction', g(arr(v, c), *s), g(arr(v), *s))
        S.run(f'{kind}/direction', direction)

        def average(f=f, av=av):
            s = state()
            a = av(*s)
            S.check('E1-M1/average', a == sum((spec(1, q, *s) for q in (-1, 0, 1)), 0.0) / 3)
            S.check('E1-M1/average', a == sum((f(np.array([float(i == j) for j in range(3)]), *s) for i in range(3)), 0.0) / 3)
        S.run(f'{kind}/average', average)

    def e2_direction():
        s = state()
        e, w, c, d = vec('e'), vec('k'), Real('c'), Real('d')
        ENG.assume(And(c > 0, d > 0))
        S.check('E2/direction', ts.E2_transition_strength_geom(arr(e, c), arr(w, d), *s) == ts.E2_transition_strength_geom(arr(e), arr(w), *s))
        S.eq('E2/element-direction', ts.E2_mel_geom(arr(e, c), arr(w, d), *s), ts.E2_mel_geom(arr(e), arr(w), *s))
    S.run('E2/direction', e2_direction)

    def e2_vanish():
        s = I, J0, F0, M0, J1, F1, M1 = state()
        ENG.assume(Or(Not(tri(J0, J1, 2)), Not(tri(F0, F1, 2)), M1 - M0 > 2, M0 - M1 > 2, Not((M1 - M0).is_integer())))
        e, w = vec('e'), vec('k')
        S.check('E2/vanishes', ts.E2_transition_strength_geom(arr(e), arr(w), *s) == 0)
        S.eq('E2/vanishes', ts.E2_mel_geom(arr(e), arr(w), *s), 0.0)
        S.check('E2/vanishes', ts.E2_transition_strength_avg(*s) == 0)
    S.run('E2/vanishes', e2_vanish)

    for q in (-2, -1, 0, 1, 2):
        def e2_parts(q=q):
            # a transition with M1-M0 = +-1, +-2 is driven by the corresponding component of the symmetric tensor eps k
            s = I, J0, F0, M0, J1, F1, M1 = state(q)
            e, w = vec('e'), vec('k')
            n2 = (e[0] ** 2 + e[1] ** 2 + e[2] ** 2) * (w[0] ** 2 + w[1] ** 2 + w[2] ** 2)
            x = ts.E2_transition_strength_geom(arr(e), arr(w), *s)
            m = SComplex.lift(ts.E2_mel_geom(arr(e), arr(w), *s))
            m2 = m.re ** 2 + m.im ** 2
            if q == 0:
                return
            c = (e[0] * w[0] - e[1] * w[1]) ** 2 + (e[0] * w[1] + e[1] * w[0]) ** 2 if abs(q) == 2 else \
                (e[0] * w[2] + e[2] * w[0]) ** 2 + (e[1] * w[2] + e[2] * w[1]) ** 2
            S.check('E2/strength-squared', x * n2 == spec(2, q, *s) * c)
            S.check('E2/element-squared', m2 * n2 == spec(2, q, *s) * c)
        S.run(f'E2/parts/{q}', e2_parts)
