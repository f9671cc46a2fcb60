from .lib import *

UN = {'Hz': 1, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, 'THz': 1e12}


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng
    top = C.n(10, 15)
    cases = [(Fr(i, 2), Fr(j, 2)) for i in range(top) for j in range(top)]
    for h in chosen(C.hints, '2I', '2J'):
        try:
            cases.insert(0, (Fr(int(h[0]), 2), Fr(int(h[1]), 2)))
        except (ValueError, TypeError):
            pass
    for I, J in cases:
        for _ in range(1 if not C.thorough else 3):
            A, B, Cc = (r.choice([0, 1, 1]) * r.uniform(-3, 3) for _ in range(3))
            uA, uB, uC = (r.choice(list(UN)[:4]) for _ in range(3))
            inp = (str(I), str(J), (A, uA), (B, uB), (Cc, uC))
            with C.case('shift', inp):
                a = at.atom.Atom('X', I=float(I))
                E = r.choice([0.0, 1e12, 5e14])
                l = at.atom.EnergyLevel(at.term.Term('3d', term_for(r, J), float(J)), Q_(E, 'Hz'), lande=1.0,
                                        hfA=Q_(A, uA), hfB=Q_(B, uB), hfC=Q_(Cc, uC))
                a.add_level(l)

                def verify(x, y, z, tag):
                    mean = tot = 0.0
                    sc = max(abs(x) * float(I * J + 1), abs(y), abs(z), 1e-30) * 10
                    for F in Fs(I, J):
                        s = l[f'F={frac(F)}']
                        e = hf_shift(I, J, F, x, y, z)
                        C.close('formula', s.shift_Hz, e, (inp, str(F), tag), abs_=1e-11 * sc)
                        C.close('shift-quantity', s.shift.to('Hz').magnitude, e, (inp, str(F), tag), abs_=1e-11 * sc)
                        mean += float(2 * F + 1) * s.shift_Hz
                        tot += float(2 * F + 1)
                        if E == 0:
                            C.close('level', s.level_Hz, e, (inp, str(F), tag), abs_=1e-10 * sc)
                    C.close('centroid', mean / tot, 0.0, (inp, tag), abs_=1e-10 * sc)
                    F = I + J
                    st = x * float(I * J) + (y / 4 if I >= 1 and J >= 1 else 0) + (z if I >= Fr(3, 2) and J >= Fr(3, 2) else 0)
                    C.close('stretched', l[f'F={frac(F)}'].shift_Hz, st, (inp, tag), abs_=1e-10 * sc)
                verify(A * UN[uA], B * UN[uB], Cc * UN[uC], 'given')
                C.close('read-back', l.hfA.to(uA).magnitude, A, inp, abs_=1e-9)
                x, y, z = (r.uniform(-2, 2) for _ in range(3))
                u2 = r.choice(['MHz', 'GHz', 'kHz'])
                l.hfA, l.hfB, l.hfC = Q_(x, u2), Q_(y, u2), Q_(z, u2)
                k = UN[u2]
                verify(x * k, y * k, z * k, 'changed')
                l.hfB = Q_(0.5, 'GHz')
                verify(x * k, 5e8, z * k, 'changed B only')
                C.close('read-back', l.hfC.to(u2).magnitude, z, inp)
                w = Q_(r.uniform(-1, 1) * 0.01, '1/cm')
                l.hfA = w
                verify(w.magnitude * 100 * 299792458.0, 5e8, z * k, 'wavenumber')
