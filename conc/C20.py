from .lib import *


def run(C):
    at = lib()
    import numpy as np
    import atomtoolkit.transition_strengths as ts
    r = C.rng

    def Tq(k, q, I, J0, F0, M0, J1, F1, M1):
        return float((2 * F0 + 1) * (2 * F1 + 1) * w6sq(J0, J1, k, F1, F0, I)[1] * w3sq(F1, k, F0, -M1, q, M0)[1])

    def state(r, k=None):
        while True:
            I, J0 = half(r, 0, 5), half(r, 0, 6)
            J1 = J0 + r.randint(-2, 2)
            if J1 < 0:
                continue
            F0, F1 = r.choice(Fs(I, J0)), r.choice(Fs(I, J1))
            M0 = r.choice(mFs(F0))
            M1 = r.choice(mFs(F1))
            if r.random() < .75 and abs(M0 + (q := r.randint(-2, 2))) <= F1:
                M1 = M0 + q
            return I, J0, F0, M0, J1, F1, M1
    fl = lambda s: tuple(float(x) for x in s)  # noqa
    for _ in range(C.n(900, 15000)):
        s = I, J0, F0, M0, J1, F1, M1 = state(r)
        k = r.choice([1, 2])
        q = r.randint(-k, k)
        inp = (k, q, fl(s))
        with C.case('component', inp):
            v = ts.tkq_transition_strength(float(I), k, q, *fl(s[1:]))
            m = ts.tkq_mel(float(I), k, q, *fl(s[1:]))
            e = Tq(k, q, *s)
            C.close('strength', float(v), e, inp, abs_=1e-13)
            C.close('squared-element', float(m) ** 2, e, inp, abs_=1e-13)
            if M1 != M0 + q or not tri(J0, Fr(k), J1) or not tri(F0, Fr(k), F1):
                C.check('vanishes', abs(v) < 1e-14 and abs(m) < 1e-14, inp, (v, m))
    for _ in range(C.n(25, 400)):
        I, J0, F0, M0, J1, _, _ = state(r)
        k = r.choice([1, 2])
        inp = (k, float(I), float(J0), float(F0), float(M0), float(J1))
        with C.case('sum', inp):
            tot = sum(float(ts.tkq_transition_strength(float(I), k, q, float(J0), float(F0), float(M0), float(J1), float(F1), float(M1)))
                      for F1 in Fs(I, J1) for M1 in mFs(F1) for q in range(-k, k + 1))
            C.close('sum', tot, 1 / float(2 * J0 + 1) if tri(J0, Fr(k), J1) else 0.0, inp, abs_=1e-10)

    def vec():
        while True:
            v = [r.choice([0.0, r.uniform(-1, 1), r.uniform(-1, 1)]) for _ in range(3)]
            if sum(x * x for x in v) > .01:
                return v
    for _ in range(C.n(300, 6000)):
        s = I, J0, F0, M0, J1, F1, M1 = state(r)
        v = vec()
        sc = r.choice([2.0, 1e-3, -1.0, 17.5])
        inp = (v, fl(s))
        with C.case('geometric', inp):
            e = np.array(v)
            n2 = sum(x * x for x in v)
            t = {q: Tq(1, q, *s) for q in (-1, 0, 1)}
            tr, ax = (v[0] ** 2 + v[1] ** 2) / n2, v[2] ** 2 / n2
            spec = t[0] * ax + .5 * tr * (t[1] + t[-1])
            for f, g, nm in ((ts.E1_transition_strength_geom, ts.E1_mel_geom, 'E1'), (ts.M1_transition_strength_geom, ts.M1_mel_geom, 'M1')):
                a = fl(s)
                C.close(nm + '-geometric', float(f(e, *a)), spec, inp, abs_=1e-13)
                C.close(nm + '-direction', float(f(e * sc, *a)), spec, (inp, sc), abs_=1e-13)
                C.close(nm + '-element-squared', abs(complex(g(e, *a))) ** 2, spec, inp, abs_=1e-13)
                C.close(nm + '-element-direction', abs(complex(g(e * sc, *a))) ** 2, spec, (inp, sc), abs_=1e-13)
                av = sum(float(f(np.array(x), *a)) for x in ([1., 0, 0], [0, 1., 0], [0, 0, 1.])) / 3
                C.close(nm + '-average', av, sum(t.values()) / 3, inp, abs_=1e-13)
            C.close('E1-average', float(ts.E1_transition_strength_avg(*fl(s))), sum(t.values()) / 3, inp, abs_=1e-13)
            C.close('M1-average', float(ts.M1_transition_strength_avg(*fl(s))), sum(t.values()) / 3, inp, abs_=1e-13)
    for _ in range(C.n(300, 6000)):
        s = I, J0, F0, M0, J1, F1, M1 = state(r)
        if r.random() < .5:
            e = vec()
            w = vec()
            kk = [e[1] * w[2] - e[2] * w[1], e[2] * w[0] - e[0] * w[2], e[0] * w[1] - e[1] * w[0]]
            if sum(x * x for x in kk) < .01:
                continue
        else:
            e, kk = vec(), vec()
        inp = (e, kk, fl(s))
        with C.case('E2', inp):
            a = fl(s)
            e, kk = np.array(e), np.array(kk)
            x = float(ts.E2_transition_strength_geom(e, kk, *a))
            m = complex(ts.E2_mel_geom(e, kk, *a))
            s1, s2 = r.choice([2.0, .01, 30.0, -1.0]), r.choice([2.0, .01, -5.0])
            C.close('E2-direction', float(ts.E2_transition_strength_geom(e * s1, kk * s2, *a)), x, (inp, s1, s2), abs_=1e-12)
            C.close('E2-element-direction', abs(complex(ts.E2_mel_geom(e * s1, kk * s2, *a))), abs(m), (inp, s1, s2), abs_=1e-12)
            t2 = {q: Tq(2, q, *s) for q in range(-2, 3)}
            C.check('E2-nonnegative', x > -1e-14, inp, x)
            if max(t2.values()) == 0:
                C.check('E2-vanishes', abs(x) < 1e-13 and abs(m) < 1e-13, inp, (x, m))
                C.check('E2-average-vanishes', abs(float(ts.E2_transition_strength_avg(*a))) < 1e-14, inp)
            E, K = e / np.linalg.norm(e), kk / np.linalg.norm(kk)
            # q=+-1, +-2 parts of the strength are the squared moduli of the matrix element's coefficients
            q = int(M1 - M0) if (M1 - M0).denominator == 1 else 9
            if abs(q) in (1, 2):
                c2 = ((E[0] * K[0] - E[1] * K[1]) ** 2 + (E[0] * K[1] + E[1] * K[0]) ** 2 if abs(q) == 2 else
                      (E[0] * K[2] + E[2] * K[0]) ** 2 + (E[1] * K[2] + E[2] * K[1]) ** 2)
                C.close('E2-element-squared', abs(m) ** 2, t2[q] * c2, inp, abs_=1e-13)
                C.close('E2-strength-squared', x, t2[q] * c2, inp, abs_=1e-13)
