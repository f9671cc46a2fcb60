"""C19 Lande g-factors are the percentage-weighted LS values"""
ASSUMES = ['mixtures: proved for up to 4 components written in one label; the 6j/9j symbols are uninterpreted']
from props import proofs

SYM = {'LS': '2D', 'JJ': '(2,1/2)', 'JK': '2[3/2]', 'LK': 'P 2[3/2]'}


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, And, Or
    from pyvc import wigner as W, seq as Q, runtime as RT
    at = S.lib
    Q_ = at.Q_
    S.use(*proofs.TEXT)

    def gls(J, L, s):
        return 1 + 1.0023 * (J * (J + 1) + s * (s + 1) - L * (L + 1)) / (2 * J * (J + 1))

    def orbital(n):
        l = Int(n)
        ENG.assume(l >= 0)
        return l

    def component(kind, J, i=''):
        """(component with symbolic quantum numbers, g of its LS decomposition)"""
        lc, lo, l = orbital('lc' + i), orbital('lo' + i), orbital('l' + i)
        sc, so, s, jc, jo, k = (Half(f'2{n}' + i) for n in ('sc', 'so', 's', 'jc', 'jo', 'k'))
        if kind in ('JK', 'LK'):
            # K and the outer spin form J
            n = Int('n' + i)
            k = J + so - n
            ENG.assume(And(n >= 0, k >= J - so, k >= so - J))
        pc = Real('percentage' + i)
        nums = {'LS': (None,) * 6 + (l, s, None), 'JJ': (lc, sc, lo, so, jc, jo, None, None, None),
                'JK': (lc, sc, lo, so, jc, None, None, None, k), 'LK': (lc, sc, lo, so, None, None, l, None, k)}[kind]
        t = at.term.Term('4f13', SYM[kind], J, percentage=pc, quantum_nums=nums)

        def g():
            if kind == 'LS':
                return gls(J, l, s)
            spins = Q.sym_arange(RT.b_abs(sc - so), sc + so + 1)
            if kind == 'LK':
                return S.sum(spins, lambda x: (2 * k + 1) * (2 * x + 1) * W.w6(l, sc, k, so, J, x) ** 2 * gls(J, l, x))
            ls = Q.sym_arange(RT.b_abs(lc - lo), lc + lo + 1)

            def weight(L, x):
                if kind == 'JJ':
                    return (2 * jc + 1) * (2 * jo + 1) * (2 * L + 1) * (2 * x + 1) * W.w9(lc, sc, jc, lo, so, jo, L, x, J) ** 2
                return (2 * jc + 1) * (2 * L + 1) * (2 * k + 1) * (2 * x + 1) * W.w6(sc, lc, jc, lo, k, L) ** 2 * W.w6(L, sc, k, so, J, x) ** 2
            return S.sum(ls, lambda L: S.sum(spins, lambda x: weight(L, x) * gls(J, L, x)))
        return t, pc, g

    for kind in SYM:
        def one(kind=kind):
            J = Half('2J')
            t, pc, g = component(kind, J)
            l = at.atom.EnergyLevel(at.term.MultiTerm(t), Q_(Real('E'), 'Hz'))
            if J == 0:
                S.check('estimate/J=0', l.lande == 0)
            else:
                S.check('estimate/' + kind, l.lande == pc / 100 * g())
            S.check('estimate/again', l.compute_gJ() == l.lande)
        S.run('component/' + kind, one)

        def bare(kind=kind):
            # a level made from a term that is no multi-component term
            J = Half('2J')
            t, pc, g = component(kind, J)
            l = at.atom.EnergyLevel(t, Q_(Real('E'), 'Hz'))
            m = at.atom.EnergyLevel(at.term.MultiTerm(t), Q_(Real('E'), 'Hz'))
            S.check('estimate/single-term', l.lande == m.lande)
        S.run('bare/' + kind, bare)

    # the contributions of the components add up, each as if it were alone
    for kinds in ('LS LS', 'LS JJ', 'LS JK', 'LS LK', 'JJ LK', 'JK LK', 'LK LK', 'LS LS LS', 'LS LS LS LS'):
        def mixed(kinds=kinds.split()):
            J = Half('2J')
            cs = [component(k, J, str(i)) for i, k in enumerate(kinds)]
            E = Q_(Real('E'), 'Hz')
            if len(kinds) > 2:
                for a, b in zip(cs, cs[1:]):
                    ENG.assume(a[1] > b[1])
            alone = [at.atom.EnergyLevel(at.term.MultiTerm(c[0]), E).lande for c in cs]
            for order in ([0, 1], [1, 0]) if len(kinds) == 2 else ([0, 1, 2], [2, 0, 1]) if len(kinds) == 3 else ([3, 1, 0, 2],):
                l = at.atom.EnergyLevel(at.term.MultiTerm(*[cs[i][0] for i in order]), E)
                S.check('mixture', l.lande == sum(alone, 0.0))
        S.run('mixture/' + kinds.replace(' ', '-'), mixed)

    def given():
        J, g = Half('2J'), Real('g')
        for kind in SYM:
            t, _, _ = component(kind, J)
            S.check('given', at.atom.EnergyLevel(t, Q_(Real('E'), 'Hz'), lande=g).lande == g)
            S.check('given', at.atom.EnergyLevel(at.term.MultiTerm(t), Q_(Real('E'), 'Hz'), g).lande == g)
    S.run('given', given)
