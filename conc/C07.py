from .lib import *
CC = 299792458.0


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng
    conv = {'Hz': 1.0, 'MHz': 1e6, 'THz': 1e12, '1/cm': 100 * CC, 'GHz': 1e9}
    for _ in range(C.n(120, 2500)):
        I = half(r, 0, 5)
        lvs = rand_levels(r, 2, I, maxJ2=5)
        B = r.choice([0.0, r.uniform(-5, 5)])
        inp0 = (str(I), lvs, B)
        with C.case('hierarchy', inp0):
            a = mk_atom(at, lvs, I, B)
            l, o = a.levels[lvs[0].name], a.levels[lvs[1].name]

            def nodes(x):
                out = [x]
                for h in x.values():
                    out.append(h)
                    out += list(h.values())
                return out

            def snap(x):
                return [(n.level_Hz, n.shift_Hz if n is not x else None) for n in nodes(x)]

            def additive(x):
                for h in x.values():
                    C.close('additive', h.level_Hz, x.level_Hz + h.shift_Hz, inp0, rel=1e-12, abs_=.5)
                    for z in h.values():
                        C.close('additive', z.level_Hz, x.level_Hz + h.shift_Hz + z.shift_Hz, inp0, rel=1e-12, abs_=.5)
                        C.close('units', z.level.to('1/cm').magnitude, z.level_Hz / (100 * CC), inp0)
                        C.close('units', z.level.to('GHz').magnitude, z.level_Hz / 1e9, inp0)
                    C.close('units', h.level.to('THz').magnitude, h.level_Hz / 1e12, inp0)
                C.close('units', x.level.to('Hz').magnitude, x.level_Hz, inp0)
            C.close('base', l.level_Hz, lvs[0].E, inp0)
            additive(l)
            s0 = snap(l)
            for rep in range(3):
                target = r.choice(nodes(l))
                un = r.choice(list(conv))
                val = r.uniform(-.5, 6) * 1e14 if r.random() < .92 else 0.0
                if r.random() < .3:  # small moves matter as well
                    val = target.level_Hz + r.choice([-1, 1]) * 10 ** r.uniform(1.5, 9)
                inp = (inp0, target.name, val / conv[un], un)
                so, sl = snap(o), snap(l)
                coefs = (l.hfA_Hz, l.hfB_Hz, l.hfC_Hz, l.lande, o.hfA_Hz)
                i0 = [n for n in nodes(l)].index(target)
                how = r.random()
                if how < .75 or un == '1/cm':
                    target.level = Q_(val / conv[un], un)
                else:
                    val = sl[i0][0] + 1e9
                    target.level += Q_(1e9, 'Hz')
                C.close('reads-back', target.level_Hz, val, inp, rel=1e-12, abs_=1.0)
                C.close('reads-back', target.level.to(un).magnitude, val / conv[un], inp, rel=1e-11, abs_=1.0 / conv[un])
                s1 = snap(l)
                d = s1[i0][0] - sl[i0][0]
                C.check('rigid', all(abs((x[0] - y[0]) - d) < 2.0 for x, y in zip(s1, sl)), inp)
                C.check('shifts-kept', all((x[1] is None) or abs(x[1] - y[1]) <= 1e-9 * max(1, abs(x[1])) for x, y in zip(s1, sl)), inp)
                C.check('others-kept', snap(o) == so, inp)
                C.eq('coefficients-kept', (l.hfA_Hz, l.hfB_Hz, l.hfC_Hz, l.lande, o.hfA_Hz), coefs, inp)
                additive(l)
