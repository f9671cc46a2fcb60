from .lib import *


def run(C):
    lib()
    import numpy as np
    from scipy.special import jv
    import atomtoolkit.render.lineshapes as ls
    r = C.rng

    def lor(x, x0, g, a=1.0):
        return a * g * g / (4 * (x - x0) ** 2 + g * g)

    def gau(x, x0, s, a=1.0):
        return a * math.exp(-(x - x0) ** 2 / (2 * s * s))

    def mod(x, x0, g, a, depth, n, f):
        t = lor(x, x0, g, a * jv(0, depth) ** 2)
        for i in range(1, n + 1):
            t += (lor(x, x0 + i * f, g, 1) + lor(x, x0 - i * f, g, 1)) * a * jv(i, depth) ** 2
        return t
    for _ in range(C.n(600, 15000)):
        x0, g, a = r.choice([0.0, r.uniform(-1e3, 1e3)]), r.choice([r.uniform(.01, 50), 1.0]), r.uniform(.1, 5)
        d = r.uniform(0, 5) * g
        inp = (x0, g, a, d)
        with C.case('shape', inp):
            L, G = ls.lorentzian, ls.gaussian
            C.close('lorentz-centre', float(L(x0, x0, g, a)), a, inp)
            C.close('lorentz-centre', float(L(x0, x0, g)), 1.0, inp)
            C.close('lorentz-half', float(L(x0 + g / 2, x0, g, ampl=a)), a / 2, inp)
            C.close('lorentz-half', float(L(x0 - g / 2, x0, g, ampl=a)), a / 2, inp)
            C.close('lorentz-symmetric', float(L(x0 + d, x0, g, a)), float(L(x0 - d, x0, g, a)), inp)
            C.check('lorentz-positive', L(x0 + d * 100, x0, g, a) > 0, inp)
            C.close('lorentz', float(L(x0 + d, x0, g, a)), lor(x0 + d, x0, g, a), inp)
            C.close('gauss', float(G(x0 + d, x0, g, a)), gau(x0 + d, x0, g, a), inp)
            C.close('gauss-centre', float(G(x0, x0, g, a)), a, inp)
            C.close('gauss-symmetric', float(G(x0 + d, x0, g, a)), float(G(x0 - d, x0, g, a)), inp)
            xs = np.linspace(x0 - 3 * g, x0 + 3 * g, 7)
            for v, x in zip(L(xs, x0, g, a), xs):
                C.close('lorentz-array', float(v), lor(x, x0, g, a), (inp, x))
            for v, x in zip(G(xs, x0, g, a), xs):
                C.close('gauss-array', float(v), gau(x, x0, g, a), (inp, x))
        depth, n, f = r.uniform(0, 4), r.randint(0, 7), r.uniform(.1, 20)
        inp = (x0, g, a, depth, n, f)
        with C.case('modulated', inp):
            xs = np.linspace(x0 - 3 * f - g, x0 + 4 * f + g, 9)
            for v, x in zip(ls.mod_lorentzian(xs, x0, g, a, depth, n, f), xs):
                C.close('modulated', float(v), mod(x, x0, g, a, depth, n, f), (inp, x))
            A, pad, npt = r.choice([None, r.uniform(0, 1e7)]), r.uniform(1, 30), r.choice([2, 5, 1000, 37])
            kw = {} if A is None else {'A_coeff': A}
            if r.random() < .6:
                kw['ampl'] = a
            am = kw.get('ampl', 1.0)
            for nm in ('lorentz', 'mod', 'gauss'):
                if nm == 'lorentz':
                    s, w = ls.LorentzianLineShape(g), g + (A or 0)
                    half_, fn = pad * w, lambda x: lor(x, x0, w, am)
                elif nm == 'mod':
                    s, w = ls.ModLorentzianLineShape(g, depth, f, n), g + (A or 0) / (1e6 * 2 * math.pi)
                    half_, fn = f * n + pad * w, lambda x: mod(x, x0, w, am, depth, n, f)
                else:
                    s = ls.GaussianLineShape(g)
                    half_, fn = pad * g, lambda x: gau(x, x0, g, am)
                i2 = (inp, nm, kw, pad, npt)
                C.close(nm + '-width', float(s.width_func(padding=pad, **kw)), half_, i2)
                xs, ys = s.compute(x0, num_points=npt, padding=pad, **kw)
                C.check(nm + '-grid', len(xs) == len(ys) == npt, i2, len(xs))
                C.close(nm + '-grid', float(xs[0]), x0 - half_, i2, abs_=1e-9)
                C.close(nm + '-grid', float(xs[-1]), x0 + half_, i2, abs_=1e-9)
                C.close(nm + '-grid', float(xs[0] + xs[-1]) / 2, x0, i2, abs_=1e-6 * half_)
                for i in {0, 1, npt // 2, npt - 1}:
                    C.close(nm + '-values', float(ys[i]), fn(float(xs[i])), (i2, i), abs_=1e-14, rel=1e-7)
                xs, ys = s.compute(x0, **kw)
                C.check(nm + '-default-grid', len(xs) == 1000, i2)
                xs = np.linspace(x0 - 3 * g, x0 + 3 * f, 5)
                for v, x in zip(s.shape_func(xs, x0, **kw), xs):
                    C.close(nm + '-values', float(v), fn(float(x)), (i2, x), abs_=1e-14)
        if r.random() < .2:
            s = ls.ModLorentzianLineShape(g, depth, f)
            n = s.num_sidebands
            C.check('auto-sidebands', (depth / 2) ** n <= .01 * math.factorial(n) and all((depth / 2) ** k > .01 * math.factorial(k) for k in range(n)),
                    (depth,), n)
