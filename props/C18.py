"""C18 recoupling to LS is a unitary change of basis

That the squared amplitudes sum to one is derived from the amplitudes the code computes and an instance of the orthogonality of the
6j or 9j symbols, which is assumed as a lemma for the coupled state.
"""
ASSUMES = ['lemma (assumed): orthogonality of the 9j symbols over (L,S) (JJ), of the 6j symbols over S (LK), over L and over S (JK), for a valid coupled state']

LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'


def prove(S):
    from pyvc.harness import ENG, Half, Int, And, Or, Not, Implies
    from pyvc import wigner as W, seq as Q, runtime as RT
    from pyvc.rope import to_str, lit_at
    from pyvc.core import SNum, s_int
    from pyvc.core import lift
    from pyvc.rope import SStr, code_of
    import sys
    import z3
    at = S.lib
    ts, u = sys.modules['atomtoolkit.transition_strengths'], at.util
    len, list = S.len, S.list

    def tri(a, b, c):
        return And(a <= b + c, b <= a + c, c <= a + b)

    def couple(a, b, n):
        """an angular momentum that a and b can form"""
        k = Int(n)
        c = a + b - k
        ENG.assume(And(k >= 0, c >= a - b, c >= b - a))
        return c

    def orbital(n):
        x = Int(n)
        ENG.assume(x >= 0)
        return x

    def state(kind):
        """a valid coupled state: arguments, candidates for L and S, specification of the squared amplitude, lemma"""
        sc, so = Half('2sc'), Half('2so')
        spins = Q.sym_arange(RT.b_abs(sc - so), sc + so + 1)
        if kind == 'LK':
            l = orbital('l')
            K = couple(l, sc, 'k')
            J = couple(K, so, 'j')

            def amp2(L, s):
                return (2 * K + 1) * (2 * s + 1) * W.w6(l, sc, K, so, J, s) ** 2
            lemma = lambda: S.sum(spins, lambda s: amp2(l, s)) == 1
            return (J, l, K, sc, so), None, spins, amp2, lemma, J, l
        lc, lo = orbital('lc'), orbital('lo')
        jc = couple(lc, sc, 'jc')
        ls = Q.sym_arange(RT.b_abs(lc - lo), lc + lo + 1)
        if kind == 'JJ':
            jo = couple(lo, so, 'jo')
            J = couple(jc, jo, 'j')

            def amp2(L, s):
                return (2 * jc + 1) * (2 * jo + 1) * (2 * L + 1) * (2 * s + 1) * W.w9(lc, sc, jc, lo, so, jo, L, s, J) ** 2
            lemma = lambda: S.sum(ls, lambda L: S.sum(spins, lambda s: amp2(L, s))) == 1
            return (J, jc, jo, lc, sc, lo, so), ls, spins, amp2, lemma, J, lc + lo
        K = couple(jc, lo, 'k')
        J = couple(K, so, 'j')

        def first(L):
            return (2 * jc + 1) * (2 * L + 1) * W.w6(sc, lc, jc, lo, K, L) ** 2

        def amp2(L, s):
            return first(L) * (2 * K + 1) * (2 * s + 1) * W.w6(L, sc, K, so, J, s) ** 2
        lemma = lambda: S.sum(ls, first) == 1
        return (J, jc, K, lc, sc, lo, so), ls, spins, amp2, lemma, J, lc + lo

    OBS = z3.Function('OBSERVE', z3.IntSort(), z3.RealSort(), z3.RealSort())

    def observe(text, pct):
        return SNum(OBS(text.code() if isinstance(text, SStr) else code_of(text), lift(pct).r), 'float')

    FN = {'JJ': 'JJ_to_LS', 'JK': 'JK_to_LS', 'LK': 'LK_to_LS'}

    def number(x, lo, hi):
        return And(x >= lo, x <= hi, (x - lo).is_integer())

    for kind in FN:
        f, read = getattr(ts, FN[kind]), getattr(u, 'readable_' + FN[kind])

        def columns(kind=kind, f=f):
            args, ls, spins, amp2, lemma, J, _ = state(kind)
            rows = f(*args)
            S.check(kind + '/rows', len(rows) == 3)
            Ls, Ss, A = rows
            n = len(spins) if ls is None else len(ls) * len(spins)
            # in range, pairwise different and as many as there are candidates: each candidate exactly once
            S.check(kind + '/every-LS-once', And(n >= 1, len(Ls) == n, len(Ss) == n, len(A) == n))
            cols = Q.seq_of(RT.b_zip(Ls, Ss, A))
            (L, s, a), i = cols.generic('i')
            (L2, s2, a2), j = cols.generic('j')
            l0 = args[1] if ls is None else ls[0]
            S.check(kind + '/every-LS-once', And(number(L, l0, args[1] if ls is None else ls[0] + len(ls) - 1),
                                                 number(s, spins[0], spins[0] + len(spins) - 1)))
            S.check(kind + '/every-LS-once', Implies(And(L == L2, s == s2), And(*[x == y for x, y in zip(i, j)])))
            S.check(kind + '/amplitude', a ** 2 == amp2(L, s))
            S.check(kind + '/cannot-form-J', Or(tri(L, s, J), a == 0))
        S.run(f'{kind}/columns', columns)

        def unitary(kind=kind, f=f):
            args, ls, spins, amp2, lemma, J, _ = state(kind)
            Ls, Ss, A = f(*args)
            total = S.sum(A, lambda a: a ** 2)
            if kind != 'JK':
                S.check(kind + '/unitary', Or(Not(lemma()), total == 1))
                return
            # two steps: over S for each L that can form K with sc, then over L
            J, jc, K, lc, sc, lo, so = args

            def first(L):
                return (2 * jc + 1) * (2 * L + 1) * W.w6(sc, lc, jc, lo, K, L) ** 2

            def second(L):
                return S.sum(spins, lambda s: (2 * K + 1) * (2 * s + 1) * W.w6(L, sc, K, so, J, s) ** 2)
            S.check('JK/unitary', total == S.sum(ls, lambda L: first(L) * second(L)))
            L = S.generic(ls)
            S.check('JK/unitary', Or(And(tri(L, sc, K), second(L) != 1), second(L) == 1, first(L) == 0))
        S.run(f'{kind}/unitary', unitary)

    S.use(*['transition_strengths.' + f for f in FN.values()])
    for kind in FN:
        f, read = getattr(ts, FN[kind]), getattr(u, 'readable_' + FN[kind])

        def readable(kind=kind, f=f, read=read):
            args, ls, spins, amp2, lemma, J, top = state(kind)
            ENG.assume(top <= 20)
            out = read(*args)
            Ls, Ss, A = f(*args)
            cols = Q.comp('list', RT.b_zip(Ls, Ss, A), lambda c: c[2] != 0, lambda c: c)
            S.check(kind + '/readable', len(out) == len(cols))
            # the same terms with the same percentages: equal sums of an arbitrary function of them
            want = S.sum(cols, lambda c: observe(to_str(s_int(2 * c[1] + 1)) + lit_at(LETTERS, s_int(c[0])), RT.b_round(100 * c[2] ** 2, 2)))
            S.check(kind + '/readable', S.sum(out, lambda e: observe(*e)) == want)
        S.run(f'{kind}/readable', readable)
