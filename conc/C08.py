from .lib import *
CC = 299792458.0


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng
    units = {'Hz': lambda f: f, 'GHz': lambda f: f / 1e9, 'THz': lambda f: f / 1e12, '1/cm': lambda f: f / (100 * CC),
             'nm': lambda f: CC / f * 1e9, 'um': lambda f: CC / f * 1e6}
    for _ in range(C.n(60, 1000)):
        I = half(r, 0, 4)
        lvs = rand_levels(r, 2, I, maxJ2=5, hf=3e9)
        p, q = lvs
        if allowed3(p.J, q.J, p.parity, q.parity, False) == (False, False, False) and r.random() < .9:
            continue
        B = r.choice([0.0, r.uniform(-3, 3), r.uniform(-3e4, 3e4)])
        f0 = r.choice([None, r.uniform(1, 9) * 1e14])
        inp0 = (str(I), lvs, B, f0)
        with C.case('frequency', inp0):
            a = mk_atom(at, lvs, I, B)
            l0, l1 = a.levels[p.name], a.levels[q.name]
            t = at.atom.Transition(l0, l1, freq=None if f0 is None else Q_(f0, 'Hz'))
            up = l1 if l1.level_Hz > l0.level_Hz else l0
            C.check('upper', t.E_upper is up and t.E_lower is (l0 if up is l1 else l1), inp0)
            a.add_transition(t)
            if f0 is not None:
                C.close('set-on-add', t.freq_Hz, f0, inp0, rel=1e-12, abs_=1)
            subs = t.subtransitions()

            def chk(x, inp):
                C.close('difference', x.freq_Hz, abs(x.E_1.level_Hz - x.E_2.level_Hz), inp, rel=1e-13, abs_=1e-3)
                C.close('difference', x.freq.to('THz').magnitude, x.freq_Hz / 1e12, inp)
                C.close('wavelength', x.wl.to('nm').magnitude, CC / x.freq_Hz * 1e9, inp)

            def struct():
                return [(h.shift_Hz, [z.shift_Hz for z in h.values()]) for l in (l0, l1) for h in l.values()]
            pick = [t]
            if subs:
                s = r.choice(subs)
                C.check('upper', s.E_upper.level_Hz >= s.E_lower.level_Hz, inp0)
                pick.append(s)
                zz = s.subtransitions()
                if zz:
                    z = r.choice(zz)
                    C.check('upper', z.E_upper.level_Hz >= z.E_lower.level_Hz, inp0)
                    pick.append(z)
            for x in pick:
                chk(x, inp0)
            for rep in range(4):
                x = r.choice(pick)
                un = r.choice(list(units))
                f = r.uniform(1, 9) * 1e14
                old, st = [y.freq_Hz for y in pick], struct()
                inp = (inp0, type(x).__name__, x.name, units[un](f), un)
                v = Q_(units[un](f), un)
                if r.random() < .5:
                    x.set_frequency(v)
                else:
                    x.freq = v
                C.close('set', x.freq_Hz, f, inp, rel=1e-11, abs_=1)
                new = [y.freq_Hz for y in pick]
                d = new[pick.index(x)] - old[pick.index(x)]
                C.check('parents-follow', all(abs((n - o) - d) < 3 for n, o in zip(new, old)), inp, new, old)
                C.check('structure-kept', all(abs(u[0] - v[0]) <= 1e-6 and all(abs(m - n) <= 1e-6 for m, n in zip(u[1], v[1]))
                                              for u, v in zip(st, struct())), inp)
                for y in pick:
                    chk(y, inp)
            for mv in range(3):
                # levels may be moved (even past each other) by their energies, coefficients and the field
                l = r.choice([l0, l1])
                w = r.random()
                if w < .7:
                    l.level = Q_(r.choice([l0, l1]).level_Hz + r.choice([-1, 1]) * r.uniform(1e9, 3e14), 'Hz')
                elif w < .85:
                    l.hfA = Q_(r.uniform(-2, 2), 'GHz')
                else:
                    a.B = Q_(r.uniform(-30, 30), 'G')
                for y in pick:
                    chk(y, (inp0, 'after moving', l.name, l.level_Hz))
    for _ in range(C.n(40, 400)):
        # internal transitions, in fields of any strength
        I = half(r, 0, 4)
        lv = rand_levels(r, 1, I, maxJ2=4, hf=3e9)
        B = r.choice([0.0, r.uniform(-3, 3), r.uniform(-3e3, 3e3)])
        with C.case('internal', (str(I), lv, B)):
            a = mk_atom(at, lv, I, B)
            a.populate_internal_transitions()
            l = a.levels[lv[0].name]
            t = list(a.transitions.values())[0]
            C.check('difference', t.freq_Hz == 0 and t.E_1 is l and t.E_2 is l, (lv, B))
            for h in t.values():
                C.check('upper', h.E_upper.level_Hz >= h.E_lower.level_Hz and {id(h.E_upper), id(h.E_lower)} == {id(h.E_1), id(h.E_2)}, (lv, B, h.name))
                C.close('difference', h.freq_Hz, abs(h.E_1.level_Hz - h.E_2.level_Hz), (lv, B, h.name), abs_=1e-3)
                if r.random() < .5:
                    for z in h.values():
                        C.check('upper', z.E_upper.level_Hz >= z.E_lower.level_Hz and {id(z.E_upper), id(z.E_lower)} == {id(z.E_1), id(z.E_2)}, (lv, B, z.name))
                        C.close('difference', z.freq_Hz, abs(z.E_1.level_Hz - z.E_2.level_Hz), (lv, B, z.name), abs_=1e-3)
