"""C07 energies add up; edits are rigid"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half
    from props.common import one_level, level
    at = S.lib
    Q_ = at.Q_
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.ZS)
    C = 299792458.0
    UNITS = (('Hz', 1), ('MHz', 1e6), ('THz', 1e12), ('1/cm', 100 * C))

    def nodes(lv, kind):
        """an arbitrary (sub)level of the given depth"""
        x = lv
        for _ in range(kind):
            x = S.generic(x.values())
        return x

    def additive():
        a, lv, I, J, E = one_level(at)
        S.check('additive/level', lv.level_Hz == E)
        h = S.generic(lv.values())
        z = S.generic(h.values())
        S.check('additive/hyperfine', h.level_Hz == E + h.shift_Hz)
        S.check('additive/zeeman', z.level_Hz == E + h.shift_Hz + z.shift_Hz)
        for x in (lv, h, z):
            for u, k in UNITS:
                S.check('units', x.level.to(u).magnitude * k == x.level_Hz)
            S.check('shift-quantity', x.shift.to('Hz').magnitude == x.shift_Hz)
    S.run('additive', additive)

    for depth, name in enumerate(('level', 'hyperfine', 'zeeman')):
        for u, k in UNITS:
            def edit(depth=depth, name=name, u=u, k=k):
                a, lv, I, J, E = one_level(at)
                o = level(at, Half('2J9'), Real('E9'), '9', -1, '4f', '2F')
                a.add_level(o)
                oh = S.generic(o.values())
                oz = S.generic(oh.values())
                # arbitrary other sublevels of the same level
                h = S.generic(lv.values())
                z = S.generic(h.values())
                x = nodes(lv, depth)
                track = [lv, h, z, x]
                others = [o, oh, oz]
                before = [(t.level_Hz, t.shift_Hz) for t in track]
                ob = [(t.level_Hz, t.shift_Hz) for t in others]
                co = (lv.hfA_Hz, lv.hfB_Hz, lv.hfC_Hz, lv.lande, o.hfA_Hz, o.hfB_Hz, o.hfC_Hz, o.lande)
                v = Real('target')
                x.level = Q_(v, u)
                n = f'edit-{name}/'
                S.check(n + 'reads-back', x.level_Hz == v * k)
                S.check(n + 'reads-back', x.level.to(u).magnitude == v)
                d = v * k - before[3][0]
                for t, (e, s) in zip(track, before):
                    S.check(n + 'rigid', t.level_Hz == e + d)
                    if t is not lv:
                        S.check(n + 'shifts-kept', t.shift_Hz == s)
                for t, (e, s) in zip(others, ob):
                    S.check(n + 'others-kept', t.level_Hz == e)
                    S.check(n + 'others-kept', t.shift_Hz == s)
                co2 = (lv.hfA_Hz, lv.hfB_Hz, lv.hfC_Hz, lv.lande, o.hfA_Hz, o.hfB_Hz, o.hfC_Hz, o.lande)
                for p, q in zip(co, co2):
                    S.check(n + 'coefficients-kept', p == q)
            S.run(f'edit-{name}/{u}', edit)
