from .lib import *


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng

    def tup(x):
        return tuple(bool(v) for v in x)
    top = C.n(12, 20)
    for i in range(top):
        for j in range(top):
            for p0 in (1, -1):
                for p1 in (1, -1):
                    J0, J1 = Fr(i, 2), Fr(j, 2)
                    inp = (str(J0), str(J1), p0, p1)
                    with C.case('fine', inp):
                        a = at.atom.Atom('X', I=float(half(r, 0, 5)))
                        l0 = a.add_level(mk_level(at, LV(None, '1s', term_for(r, J0, p0 < 0), J0, r.uniform(0, 9) * 1e13)))
                        l1 = a.add_level(mk_level(at, LV(None, '2s', term_for(r, J1, p1 < 0), J1, r.uniform(0, 9) * 1e14)))
                        t = at.atom.Transition(l0, l1)
                        C.eq('fine', tup(t.allowed_types), allowed3(J0, J1, p0, p1, False), inp)
                        if i == j and p0 == p1:
                            t = at.atom.Transition(l0, l0)
                            C.eq('fine-internal', tup(t.allowed_types), allowed3(J0, J0, p0, p0, True), inp)
    at_ = at.atom
    for _ in range(C.n(150, 4000)):
        I = half(r, 0, 6)
        J0 = half(r, 0, 7)
        J1 = J0 + r.randint(-2, 2) if r.random() < .9 else half(r, 0, 7)
        if J1 < 0:
            continue
        p0, p1 = r.random() < .5, r.random() < .5
        inp = (str(I), str(J0), str(J1), p0, p1)
        with C.case('sub', inp):
            a = at_.Atom('X', I=float(I))
            l0 = a.add_level(mk_level(at, LV(None, '1s', term_for(r, J0, p0), J0, 1e13, 1e9)))
            l1 = a.add_level(mk_level(at, LV(None, '2s', term_for(r, J1, p1), J1, 5e14, 1e9)))
            par = at_.Transition(l0, l1) if r.random() < .9 else at_.Transition(l0, l0)
            if par.E_2 is l0:
                J1 = J0
            pa = tup(par.allowed_types)
            hs = [(x, y) for x in par.E_1.sublevels() for y in par.E_2.sublevels()]
            for x, y in r.sample(hs, min(5, len(hs))):
                h = at_.HFTransition(x, y, parent=par)
                F0, F1 = H(x.term.F), H(y.term.F)
                ha = allowed_hf(pa, I, J0, J1, F0, F1)
                C.eq('hyperfine', tup(h.allowed_types), ha, (inp, str(F0), str(F1)))
                zs = [(u, v) for u in x.sublevels() for v in y.sublevels()]
                for u, v in r.sample(zs, min(6, len(zs))):
                    z = at_.ZTransition(u, v, parent=h)
                    C.eq('zeeman', tup(z.allowed_types), allowed_z(ha, F0, F1, H(u.term.mF), H(v.term.mF)),
                         (inp, str(F0), str(F1), u.term.mF, v.term.mF))
