from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for _ in range(C.n(120, 2500)):
        I, J0 = half(r, 0, 7), half(r, 0, 7)
        J1 = J0 + r.randint(-2, 2)
        if J1 < 0:
            continue
        p0, p1 = r.random() < .5, r.random() < .5
        Av = r.choice([None, r.uniform(.1, 200)])
        inp = (str(I), str(J0), str(J1), p0, p1, Av)
        with C.case('strengths', inp):
            a = A.Atom('X', I=float(I))
            up = r.random() < .5
            l0 = a.add_level(mk_level(at, LV(None, '1s', term_for(r, J0, p0), J0, 1e13 if up else 9e14, 1e9)))
            l1 = a.add_level(mk_level(at, LV(None, '2s', term_for(r, J1, p1), J1, 5e14, 2e9)))
            t = A.Transition(l0, l1, A=None if Av is None else Q_(Av, 'MHz'))
            a.add_transition(t)
            par = tuple(bool(x) for x in t.allowed_types)
            k = 1 if par[0] or par[1] else 2 if par[2] else 0
            if Av is not None:
                C.close('A', t.A.to('Hz').magnitude, Av * 1e6, inp)
            else:
                C.check('A-absent', t.A is None and t.rel_strength == 1.0, inp)
            hfs = []
            for x in l0.sublevels():
                for y in l1.sublevels():
                    h = A.HFTransition(x, y, parent=t)
                    F0, F1 = H(x.term.F), H(y.term.F)
                    i2 = (inp, str(F0), str(F1))
                    if Av is None:
                        C.check('A-absent', h.A is None and h.rel_strength == 1.0, i2)
                        continue
                    e = float((2 * F0 + 1) * (2 * F1 + 1) * w6sq(J1, F1, I, F0, J0, k)[1]) if k else 0.0
                    C.close('hyperfine', h.rel_strength, e, i2, abs_=1e-12)
                    C.close('hyperfine-A', h.A.to('Hz').magnitude, e * Av * 1e6, i2, abs_=1e-5)
                    hfs.append((F0, F1, h))
            if k and Av is not None:
                tot = sum(h.rel_strength for _, _, h in hfs)
                if tri(J0, Fr(k), J1):
                    C.close('multiplet-sum', tot, float(2 * I + 1), inp, abs_=1e-10)
                    for F0 in Fs(I, J0):
                        C.close('sum-rule', sum(h.rel_strength for f, _, h in hfs if f == F0), float((2 * F0 + 1) / (2 * J0 + 1)), (inp, str(F0)))
                    for F1 in Fs(I, J1):
                        C.close('sum-rule', sum(h.rel_strength for _, f, h in hfs if f == F1), float((2 * F1 + 1) / (2 * J1 + 1)), (inp, str(F1)))
            for F0, F1, h in r.sample(hfs, min(2, len(hfs))):
                ha = tuple(bool(v) for v in h.allowed_types)
                kz = 1 if ha[0] or ha[1] else 2 if ha[2] else 0
                zs = []
                for u in h.E_1.sublevels():
                    for v in h.E_2.sublevels():
                        z = A.ZTransition(u, v, parent=h)
                        m0, m1 = H(u.term.mF), H(v.term.mF)
                        e = float(sum(w3sq(F0, kz, F1, -m0, q, m1)[1] for q in range(-kz, kz + 1))) if kz else 0.0
                        C.close('zeeman', z.rel_strength, e, (inp, str(F0), str(F1), str(m0), str(m1)), abs_=1e-12)
                        C.close('zeeman-A', z.A.to('Hz').magnitude, e * h.A.to('Hz').magnitude, (inp, str(F0), str(F1), str(m0), str(m1)), abs_=1e-5)
                        zs.append((m0, m1, z))
                if kz and tri(F0, Fr(kz), F1):
                    for m in mFs(F0):
                        C.close('zeeman-sum', sum(z.rel_strength for x, _, z in zs if x == m), 1 / float(2 * F0 + 1), (inp, str(F0), str(F1), str(m)))
                    for m in mFs(F1):
                        C.close('zeeman-sum', sum(z.rel_strength for _, x, z in zs if x == m), 1 / float(2 * F1 + 1), (inp, str(F0), str(F1), str(m)))
                    C.close('zeeman-total', sum(z.rel_strength for _, _, z in zs), 1.0, inp)
            # the registered subtransitions carry the same strengths
            if Av is not None:
                for s in t.subtransitions():
                    F0, F1 = H(s.E_1.term.F), H(s.E_2.term.F)
                    e = float((2 * F0 + 1) * (2 * F1 + 1) * w6sq(J1, F1, I, F0, J0, k)[1]) if k else 0.0
                    C.close('registered', s.rel_strength, e, (inp, str(F0), str(F1)), abs_=1e-12)
