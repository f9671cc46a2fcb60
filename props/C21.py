"""C21 line shapes have the documented peak, width and symmetry"""
ASSUMES = ['modulated Lorentzian: point by point for any number of sidebands; on whole grids for at most one sideband pair']


def prove(S):
    from pyvc.harness import ENG, Real, Int, And, EXP
    import importlib
    ls = importlib.import_module('atomtoolkit.render.lineshapes')
    np, jv = ls.np, ls.jv
    len = S.len

    def arr(*xs):
        return np.array(list(xs))

    def width(n='gamma'):
        g = Real(n)
        ENG.assume(g > 0)
        return g

    def lor(x, x0, g, a):
        return a * g ** 2 / (4 * (x - x0) ** 2 + g ** 2)

    def gau(x, x0, s, a):
        return a * np.exp(-(x - x0) ** 2 / (2 * s ** 2))

    def mod(x, x0, g, a, depth, n, f):
        """carrier and n pairs of sidebands"""
        from pyvc import seq as Q
        def pair(i):
            return (lor(x, x0 + i * f, g, a) + lor(x, x0 - i * f, g, a)) * jv(i, depth) ** 2
        r = lor(x, x0, g, a * jv(0, depth) ** 2)
        if type(n) is int:
            for i in range(1, n + 1):
                r = r + pair(i)
            return r
        return r + S.sum(Q.sym_range(1, n + 1), pair)

    def lorentz():
        x, x0, a, d, g = Real('x'), Real('x0'), Real('a'), Real('d'), width()
        L = ls.lorentzian
        S.check('lorentz/value', L(x, x0, g, a) == lor(x, x0, g, a))
        S.check('lorentz/value', L(x, x0, gamma=g, ampl=a) == lor(x, x0, g, a))
        S.check('lorentz/value', L(x, x0, g) == lor(x, x0, g, 1.0))
        S.check('lorentz/centre', L(x0, x0, g, a) == a)
        S.check('lorentz/half-width', And(L(x0 + g / 2, x0, g, a) == a / 2, L(x0 - g / 2, x0, g, a) == a / 2))
        S.check('lorentz/symmetric', L(x0 + d, x0, g, a) == L(x0 - d, x0, g, a))
        ENG.assume(a > 0)
        S.check('lorentz/positive', L(x, x0, g, a) > 0)
        S.check('lorentz/peak', L(x, x0, g, a) <= a)
        S.eq('lorentz/array', list(L(arr(x, d), x0, g, a)), [lor(x, x0, g, a), lor(d, x0, g, a)])
    S.run('lorentz', lorentz)

    def gauss():
        x, x0, a, d, s = Real('x'), Real('x0'), Real('a'), Real('d'), width('sigma')
        G = ls.gaussian
        S.check('gauss/value', G(x, x0, s, a) == gau(x, x0, s, a))
        S.check('gauss/value', G(x, x0, sigma=s, ampl=a) == gau(x, x0, s, a))
        S.check('gauss/value', G(x, x0, s) == gau(x, x0, s, 1.0))
        S.check('gauss/centre', G(x0, x0, s, a) == a)
        S.check('gauss/symmetric', G(x0 + d, x0, s, a) == G(x0 - d, x0, s, a))
        S.eq('gauss/array', list(G(arr(x, d), x0, s, a)), [gau(x, x0, s, a), gau(d, x0, s, a)])
        ENG.assume(a > 0)
        S.check('gauss/peak', And(G(x, x0, s, a) <= a, G(x, x0, s, a) > 0))
    S.run('gauss', gauss)

    def modulated():
        x, y, x0, a, g, depth, f, n = Real('x'), Real('y'), Real('x0'), Real('a'), width(), Real('depth'), Real('f'), Int('n')
        ENG.assume(n >= 0)
        M = ls.mod_lorentzian
        S.check('modulated/value', M(x, x0, g, a, depth, n, f) == mod(x, x0, g, a, depth, n, f))
        S.check('modulated/value', M(x, x0, g, ampl=a, depth=depth, num_sidebands=n, mod_freq_GHz=f) == mod(x, x0, g, a, depth, n, f))
    S.run('modulated', modulated)

    def modulated_array():
        x, y, x0, a, g, depth, f = Real('x'), Real('y'), Real('x0'), Real('a'), width(), Real('depth'), Real('f')
        for n in (0, 1):
            v = ls.mod_lorentzian(arr(x, y), x0, g, a, depth, n, f)
            S.check('modulated/array', len(v) == 2)
            S.check('modulated/array', v[0] == mod(x, x0, g, a, depth, n, f))
            S.check('modulated/array', v[1] == mod(y, x0, g, a, depth, n, f))
    S.run('modulated-array', modulated_array)

    def natural(kind):
        """(options handed to the line shape, full width, amplitude)"""
        A, a = Real('A'), Real('a')
        ENG.assume(A >= 0)
        if kind == 'none':
            return {}, 0.0, 1.0
        if kind == 'ampl':
            return {'ampl': a}, 0.0, a
        if kind == 'A':
            return {'A_coeff': A}, A, 1.0
        return {'A_coeff': A, 'ampl': a}, A, a

    for shape in ('lorentz', 'gauss', 'mod'):
        for kind in ('none', 'ampl', 'A', 'both'):
            def obj(shape=shape, kind=kind):
                kw, A, a = natural(kind)
                x, x0, g, depth, f, n = Real('x'), Real('x0'), width(), Real('depth'), Real('f'), Int('n')
                ENG.assume(And(n >= 0, f > 0))
                if shape == 'lorentz':
                    s, w = ls.LorentzianLineShape(g), g + A
                    want = lambda x: lor(x, x0, w, a)                                       # noqa
                    half = lambda p: p * w                                                  # noqa
                elif shape == 'gauss':
                    s, w = ls.GaussianLineShape(g), g
                    want = lambda x: gau(x, x0, g, a)                                       # noqa
                    half = lambda p: p * g                                                  # noqa
                else:
                    s, w = ls.ModLorentzianLineShape(g, depth, f, n), g + A / (2 * np.pi * 1e6)
                    want = lambda x: mod(x, x0, w, a, depth, n, f)                          # noqa
                    half = lambda p: f * n + p * w                                          # noqa
                S.check(shape + '/function', s.shape_func(x, x0, **kw) == want(x))
                p = Real('padding')
                S.check(shape + '/width', s.width_func(padding=p, **kw) == half(p))
                S.check(shape + '/width', s.width_func(**kw) == half(20.0))
                # the grid; the values on it are the line shape at its points
                m = Int('points')
                ENG.assume(m >= 2)
                if shape == 'mod':
                    return
                X, Y = s.compute(x0, num_points=m, padding=p, **kw)
                S.check(shape + '/grid', And(len(X) == m, len(Y) == m))
                S.check(shape + '/grid', And(X[0] == x0 - half(p), X[m - 1] == x0 + half(p)))
                k = Int('k')
                ENG.assume(And(k >= 0, k < m))
                S.check(shape + '/grid', X[k] - X[0] == 2 * half(p) * k / (m - 1))
                S.check(shape + '/values', Y[k] == want(X[k]))
                X, Y = s.compute(x0, **kw)
                S.check(shape + '/default-points', And(len(X) == 1000, len(Y) == 1000))
            S.run(f'{shape}/{kind}', obj)

    for n in (0, 1):
        def mod_grid(n=n):
            kw, A, a = natural('both')
            x0, g, depth, f, p = Real('x0'), width(), Real('depth'), Real('f'), Real('padding')
            s, w = ls.ModLorentzianLineShape(g, depth, f, n), g + A / (2 * np.pi * 1e6)
            m, k = Int('points'), Int('k')
            ENG.assume(And(m >= 2, k >= 0, k < m, f > 0))
            X, Y = s.compute(x0, num_points=m, padding=p, **kw)
            h = f * n + p * w
            S.check('mod/grid', And(len(X) == m, len(Y) == m, X[0] == x0 - h, X[m - 1] == x0 + h, X[k] - X[0] == 2 * h * k / (m - 1)))
            S.check('mod/values', Y[k] == mod(X[k], x0, w, a, depth, n, f))
            S.check('mod/default-points', len(s.compute(x0, **kw)[1]) == 1000)
        S.run(f'mod-grid/{n}', mod_grid)
