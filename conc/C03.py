from .lib import *


def run(C):
    at = lib()
    T, M = at.term.Term, at.term.MultiTerm
    r = C.rng
    ATTR = ['conf', 'term', 'parity', 'J', 'coupling', 'percentage', 'lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k']
    GRAB = ATTR + ['F', 'mF', 'J_frac', 'F_frac', 'mF_frac', 'name', 'term_name', 'short_name', 'quantum_nums']

    def snap(t):
        return tuple(getattr(t, a) for a in GRAB)

    def rand_term(J, pct=100.0, F=None, mF=None):
        kind = r.randrange(4)
        if kind <= 1:
            conf, term = r.choice(CONFS), term_for(r, J)
        elif kind == 2:
            conf, term = f'4f13.(2F*<{r.choice(["5/2", "7/2"])}>).6s', f'{r.choice([2, 1, 3])}[{frac(J)}]' + r.choice(['', '*'])
        else:
            conf, term = '4f13.(2F*<7/2>).6s<1/2>', '(7/2,1/2)*'
        fmt = r.choice([float, frac])
        return conf, term, T(conf, term, fmt(J), F=None if F is None else r.choice([float, frac])(F),
                             mF=None if mF is None else r.choice([float, frac])(mF), percentage=pct)

    for _ in range(C.n(600, 20000)):
        J = half(r)
        I = half(r)
        F = r.choice([None] + Fs(I, J))
        mF = r.choice([None, None, half(r, -5, 5)]) if F is None else r.choice([None] + mFs(F))
        with C.case('naming', (J, F, mF)):
            conf, term, t = rand_term(J, r.choice([100.0, 55.0, 3.5]), F, mF)
            inp = (conf, term, J, F, mF)
            tail = '' if F is None else f' F={frac(F)}'
            tail += '' if mF is None else f' mF={frac(mF)}'
            C.eq('full-name', t.name, f'{conf} {term}{frac(J)}{tail}', inp)
            C.eq('short-name', t.short_name, f'mF={frac(mF)}' if mF is not None else f'F={frac(F)}' if F is not None else f'{term}{frac(J)}', inp)
            C.eq('numbers', (t.J, t.F, t.mF), (float(J), None if F is None else float(F), None if mF is None else float(mF)), inp)
    for _ in range(C.n(400, 10000)):
        J = half(r)
        n = r.randint(1, 4)
        with C.case('multi', (J, n)):
            PS = [80.0, 61.0, 40.0, 33.5, 12.0, 9.0, 5.0, 1.0, 100.0]
            pcts = r.sample(PS, n) if r.random() < .6 else [r.choice(PS[:3]) for _ in range(n)]
            F0 = r.choice([None, None] + Fs(half(r), J))
            comps = [rand_term(J, p, F=F0)[2] for p in pcts]
            mt = M(*comps)
            inp = (str(J), [(c.conf, c.term, c.percentage) for c in comps], F0)
            order = list(mt.terms)  # components of equal percentage may come in any order
            C.check('components-kept', len(mt) == n and sorted(map(id, order)) == sorted(map(id, comps))
                    and all(x.percentage >= y.percentage for x, y in zip(order, order[1:])), inp, [str(x) for x in mt.terms], [str(x) for x in comps])
            C.check('components-kept', all(mt[i] is order[i] for i in range(len(order))), inp)
            for a in GRAB:
                C.eq('leading-attributes', getattr(mt, a), getattr(order[0], a), (inp, a))
            before = [snap(c) for c in comps]
            if F0 is None:
                F1 = r.choice(Fs(half(r), J))
                cp = mt.make_term_copy(F=float(F1))
                expF, expm = float(F1), None
            else:
                m1 = r.choice(mFs(F0))
                if r.random() < .5:
                    cp = mt.make_term_copy(mF=float(m1))
                else:
                    cp = mt.make_term_copy(F=float(F0) + 1, mF=float(m1))
                expF, expm = float(F0), float(m1)
            inp2 = (inp, expF, expm)
            C.check('copy-components', len(cp) == n, inp2, len(cp), n)
            left = list(order)
            for c in cp.terms:
                o = next((o for o in left if (o.conf, o.term, o.percentage) == (c.conf, c.term, c.percentage)), None)
                if not C.check('copy-keeps', o is not None, (inp2, str(c))):
                    continue
                left.pop(next(i for i, x in enumerate(left) if x is o))
                for a in ATTR + ['quantum_nums']:
                    C.eq('copy-keeps', getattr(c, a), getattr(o, a), (inp2, a))
                C.eq('copy-F-mF', (c.F, c.mF), (expF, expm), inp2)
                tl = f' F={frac(Fr(expF))}' + ('' if expm is None else f' mF={frac(Fr(expm))}')
                C.eq('copy-name', c.name, f'{o.conf} {o.term}{frac(J)}{tl}', inp2)
            C.check('original-unchanged', [snap(c) for c in comps] == before and len(mt) == n, inp2)
            one = comps[0]
            c1 = one.make_term_copy(F=2.0) if one.F is None else one.make_term_copy(mF=0.0)
            C.eq('copy-F-mF', (c1.F, c1.mF), (2.0, None) if one.F is None else (one.F, 0.0), inp2)
            C.eq('copy-keeps', c1.percentage, one.percentage, inp2)
