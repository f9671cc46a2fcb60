"""C08 transition frequencies follow the levels"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, And, Or, Not
    from props.common import two_levels, level
    at = S.lib
    Q_ = at.Q_
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.ZS, proofs.FINE, proofs.HF, proofs.ZEE)
    C = 299792458.0
    UNITS = (('Hz', 1), ('GHz', 1e9), ('THz', 1e12), ('1/cm', 100 * C))

    def absdiff(name, got, x, y):
        d = x - y
        S.check(name, And(got >= 0, Or(got == d, got == -d)))

    def make(depth, p0=1, p1=-1):
        a, l0, l1, *_ = two_levels(at, p0, p1)
        t = at.atom.Transition(l0, l1)
        ts, x, y = [t], l0, l1
        for i in range(depth):
            x, y = S.generic(x.values()), S.generic(y.values())
            t = (at.atom.HFTransition, at.atom.ZTransition)[i](x, y, parent=t)
            ts.append(t)
        return a, l0, l1, ts, x, y

    for depth, kind in enumerate(('fine', 'hyperfine', 'zeeman')):
        def report(depth=depth, kind=kind):
            a, l0, l1, ts, x, y = make(depth)
            t = ts[-1]
            S.check(f'{kind}/levels', And(t.E_1 is x, t.E_2 is y))
            absdiff(f'{kind}/frequency', t.freq_Hz, x.level_Hz, y.level_Hz)
            S.check(f'{kind}/upper', t.E_upper.level_Hz >= t.E_lower.level_Hz)
            S.check(f'{kind}/upper', Or(And(t.E_upper is x, t.E_lower is y), And(t.E_upper is y, t.E_lower is x)))
            S.check(f'{kind}/quantity', t.freq.to('MHz').magnitude * 1e6 == t.freq_Hz)
        S.run(f'{kind}/report', report)

        def follow(depth=depth, kind=kind):
            # energies, coefficients and field changed after the transition was made
            a, l0, l1, ts, x, y = make(depth)
            l0.level = Q_(Real('new energy'), 'GHz')
            l1.hfA = Q_(Real('new A'), 'MHz')
            a.B = Q_(Real('new field'), 'G')
            absdiff(f'{kind}/follows', ts[-1].freq_Hz, x.level_Hz, y.level_Hz)
        S.run(f'{kind}/follow', follow)

        for u, k in UNITS if depth < 2 else UNITS[::3]:
            def tune(depth=depth, kind=kind, u=u, k=k):
                a, l0, l1, ts, x, y = make(depth)
                h0, h1 = S.generic(l0.values()), S.generic(l1.values())
                z0, z1 = S.generic(h0.values()), S.generic(h1.values())
                inner = [h.level_Hz - l.level_Hz for h, l in ((h0, l0), (h1, l1), (z0, l0), (z1, l1), (x, l0), (y, l1))]
                before = [t.freq_Hz for t in ts]
                t = ts[-1]
                up, lo = t.E_upper, t.E_lower
                p = ts[0]
                v = Real('target')
                # the transition and its parents point the same way, and stay so
                for q in ts[:-1]:
                    ENG.assume((q.E_upper is q.E_1) == (up is t.E_1))
                ENG.assume(v > 0)
                d = v * k - before[-1]
                for f in before[:-1]:
                    ENG.assume(f + d > 0)
                t.freq = Q_(v, u)
                n = f'{kind}/set/'
                S.check(n + 'reports', t.freq_Hz == v * k)
                S.check(n + 'reports', t.freq.to(u).magnitude == v)
                for q, f in zip(ts[:-1], before):
                    S.check(n + 'parents', q.freq_Hz == f + d)
                S.check(n + 'upper', up.level_Hz - lo.level_Hz == v * k)
                after = [h.level_Hz - l.level_Hz for h, l in ((h0, l0), (h1, l1), (z0, l0), (z1, l1), (x, l0), (y, l1))]
                for b, c in zip(inner, after):
                    S.check(n + 'structure-kept', b == c)
            S.run(f'{kind}/set/{u}', tune)
