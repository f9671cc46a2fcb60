from .lib import *


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng
    top = C.n(9, 13)
    for i in range(top):
        for j in range(top):
            I, J = Fr(i, 2), Fr(j, 2)
            g, B = r.uniform(-2, 3), r.uniform(-50, 50)
            inp = (str(I), str(J), g, B)
            with C.case('zeeman', inp):
                a = at.atom.Atom('X', I=float(I), B=Q_(B, 'G'))
                lv = LV(None, '3d', term_for(r, J), J, 0.0, r.uniform(-1e9, 1e9), 0, 0, g)
                l = a.add_level(mk_level(at, lv))
                for F in Fs(I, J):
                    h = l[f'F={frac(F)}']
                    gf = gF_of(g, I, J, F)
                    C.close('gF', h.gF, gf, (inp, str(F)), abs_=1e-13)
                    zs = {m: h[f'mF={frac(m)}'] for m in mFs(F)}
                    q = {}

                    def verify(Bg, tag):
                        tot = 0.0
                        for m, z in zs.items():
                            e = gf * float(m) * MU_B * Bg + q.get(m, 0.0) * Bg ** 2
                            C.close('shift', z.shift_Hz, e, (inp, str(F), str(m), tag), abs_=1e-6)
                            C.close('level', z.level_Hz - h.level_Hz, e, (inp, str(F), str(m), tag), abs_=1e-4, rel=1e-6)
                            tot += z.shift_Hz - q.get(m, 0.0) * Bg ** 2
                        C.close('sum-zero', tot, 0.0, (inp, str(F), tag), abs_=1e-4)
                    verify(B, 'constructed')
                    b2 = r.uniform(-1, 1)
                    a.B = Q_(b2, 'kilogauss')
                    verify(b2 * 1000, 'kilogauss')
                    C.close('read-field', a.B.to('G').magnitude, b2 * 1000, inp)
                    a.B = Q_(-b2, 'kilogauss')
                    verify(-b2 * 1000, 'reversed')
                    m = r.choice(list(zs))
                    q[m] = r.uniform(-1e4, 1e4)
                    zs[m].quadratic_zeeman = q[m]
                    verify(-b2 * 1000, 'quadratic')
                    a.B = Q_(0.0, 'G')
                    for m, z in zs.items():
                        C.eq('zero-field', z.level_Hz, h.level_Hz, (inp, str(F), str(m)))
                    a.B = Q_(B * 1e3, 'milligauss')
                    verify(B, 'milligauss')
                    a.B = Q_(B, 'G')
