from .lib import *
CC = 299792458.0


def run(C):
    at = lib()
    import pandas as pd
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for rep in range(C.n(80, 1200)):
        n = r.randint(1, 8) if rep % 40 else r.randint(100, 300)
        I = half(r, 0, 5)
        lvs = rand_levels(r, n, I, maxJ2=6)
        two = r.random() < .7
        three = two and r.random() < .5
        rows = []
        for l in lvs:
            g = r.choice([None, r.uniform(.1, 2)])
            p1 = r.choice([100.0, r.uniform(50, 90)])
            sec = two and p1 < 100 and r.random() < .8
            rows.append(dict(lv=l, g=g, p=p1, c2='7f' if sec else None, t2=term_for(r, l.J) if sec else '', p2=r.uniform(1, 40) if sec else float('nan')))
            x, third = rows[-1], sec and three and r.random() < .7
            x.update(c3='8f' if third else None, t3=term_for(r, l.J) if third else '', p3=r.uniform(1, 40) if third else float('nan'))
        dec = r.random() < .4
        d = {'J': [(str(float(x['lv'].J)) if dec else frac(x['lv'].J)) for x in rows],
             'Lande': [float('nan') if x['g'] is None else x['g'] for x in rows],
             'Configuration': [x['lv'].conf for x in rows], 'Term': [x['lv'].term for x in rows], 'Percentage': [x['p'] for x in rows]}
        if two:
            d.update({'Configuration_2': [x['c2'] for x in rows], 'Term_2': [x['t2'] for x in rows], 'Percentage_2': [x['p2'] for x in rows]})
        if three:
            d.update({'Configuration_3': [x['c3'] for x in rows], 'Term_3': [x['t3'] for x in rows], 'Percentage_3': [x['p3'] for x in rows]})
        wn = [l['lv'].E / (100 * CC) for l in rows]
        num = r.choice([None, None, r.randint(1, n)])
        B = r.choice([0.0, 3.5])
        inp = (str(I), [(x['lv'], x['g'], x['p'], x['c2'], x['t2'], x['p2'], x['c3'], x['t3'], x['p3']) for x in rows], num, B)
        with C.case('levels', inp):
            df = pd.DataFrame({'Level (cm-1)': pd.Series(wn, dtype='pint[cm**-1]'), **d})
            a = A.Atom.from_dataframe(df, 'Xx', I=float(I), num_levels=num, B=Q_(B, 'G'))
            use = rows if num is None else rows[:num]
            C.check('atom', a.name == 'Xx' and a.I == float(I) and abs(a.B_gauss - B) < 1e-12, inp)
            names = []
            for x in use:
                l = x['lv']
                p2 = x['p2'] if x['c2'] else -1
                lead = (x['c2'], x['t2']) if p2 > x['p'] else (l.conf, l.term)
                names.append(f'{lead[0]} {lead[1]}{frac(l.J)}')
            C.check('one-per-row', sorted(a.levels.keys()) == sorted(names), inp, sorted(a.levels.keys()), sorted(names))
            for x, nm in zip(use, names):
                l = a.levels[nm]
                C.close('energy', l.level_Hz, x['lv'].E, (inp, nm), rel=1e-12, abs_=1)
                C.eq('J', l.term.J, float(x['lv'].J), (inp, nm))
                comps = [(x['lv'].conf, x['lv'].term, x['p'])] + [(x[f'c{q}'], x[f't{q}'], x[f'p{q}']) for q in (2, 3) if x[f'c{q}']]
                comps.sort(key=lambda c: -c[2])
                C.eq('components', [(t.conf, t.term, t.percentage) for t in l.term.terms], comps, (inp, nm))
                if x['g'] is not None:
                    C.close('lande', l.lande, x['g'], (inp, nm))
                else:
                    J = x['lv'].J
                    e = 0.0
                    if J:
                        for _, t, p in comps:
                            L, S = LETTERS.index(t[1]), Fr(int(t[0]) - 1, 2)
                            e += p / 100 * float(1 + Fr(10023, 10000) * (J * (J + 1) + S * (S + 1) - L * (L + 1)) / (2 * J * (J + 1)))
                    C.close('lande-estimated', float(l.lande), e, (inp, nm), rel=1e-9, abs_=1e-9)
            # transitions
            trs = []
            used = set()
            for _ in range(r.randint(1, 8)):
                x, y = r.choice(rows), r.choice(rows)
                nx_, ny = (f'{q["lv"].conf} {q["lv"].term}{frac(q["lv"].J)}' for q in (x, y))
                if x is y or frozenset((nx_, ny)) in used:
                    continue
                used.add(frozenset((nx_, ny)))
                trs.append((x['lv'], y['lv'], nx_, ny, None, r.choice([None, r.uniform(.1, 99)])))
            if r.random() < .5:
                q = LV('no 2S1/2', 'no', '2S', Fr(1, 2), 1.0)
                trs.insert(r.randint(0, len(trs)), (q, lvs[0], 'no 2S1/2', lvs[0].name, None, 2.0))
            if not trs:
                continue
            if r.random() < .5 and len(trs) > 0:
                i = r.randrange(len(trs))
                trs[i] = trs[i][:4] + (r.uniform(1, 9) * 1e14,) + trs[i][5:]
            tdf = pd.DataFrame({'conf_l': [t[0].conf for t in trs], 'term_l': [t[0].term for t in trs], 'j_l': [float(t[0].J) for t in trs],
                                'conf_u': [t[1].conf for t in trs], 'term_u': [t[1].term for t in trs], 'j_u': [str(float(t[1].J)) for t in trs]})
            tdf['freq'] = pd.Series([None if t[4] is None else Q_(t[4], 'Hz') for t in trs], dtype=object)
            tdf['A'] = pd.Series([None if t[5] is None else Q_(t[5], 'MHz') for t in trs], dtype=object)
            i2 = (inp, [(t[2], t[3], t[4], t[5]) for t in trs])
            before = {k: a.levels[k].level_Hz for k in a.levels.keys()}
            a.populate_transitions_df(tdf)
            ok = [t for t in trs if t[2] in names and t[3] in names]
            C.eq('transitions-added', {frozenset(k) for k in a.transitions.keys()}, {frozenset((t[2], t[3])) for t in ok}, i2)
            C.eq('transition-count', len(a.transitions), len(ok), i2)
            for t in ok:
                x = a.transitions[t[2], t[3]]
                C.check('endpoints', {x.E_1.name, x.E_2.name} == {t[2], t[3]} and x.E_1 is a.levels[x.E_1.name] and x.E_2 is a.levels[x.E_2.name], (i2, t[2], t[3]))
                if t[5] is None:
                    C.check('A', x.A is None, (i2, t[2]))
                else:
                    C.close('A', x.A.to('MHz').magnitude, t[5], (i2, t[2], t[3]))
                if t[4] is not None:
                    C.close('frequency', x.freq_Hz, t[4], (i2, t[2], t[3]), rel=1e-11, abs_=1)
                else:
                    C.check('no-frequency', x.set_freq is None, (i2, t[2], t[3]))
            if not any(t[4] for t in ok):
                C.eq('levels-kept', {k: a.levels[k].level_Hz for k in a.levels.keys()}, before, i2)
