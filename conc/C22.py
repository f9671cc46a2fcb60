from .lib import *


def run(C):
    at = lib()
    Q_ = at.Q_
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from atomtoolkit.render.grotrian import Grotrian
    A = at.atom
    r = C.rng

    def drawn(l, strat, **kw):
        g = Grotrian()
        g.add_level(l, strategy=strat, **kw)
        fig, ax = plt.subplots()
        try:
            g.render(ax)
        finally:
            plt.close(fig)
        return g.lines_df

    def box_ok(row, box, tol=1e-9):
        return all(box[0] - tol <= p[0] <= box[2] + tol and box[1] - tol * (1 + abs(p[1])) <= p[1] <= box[3] + tol * (1 + abs(p[1])) for p in (row['p0'], row['p1']))

    for _ in range(C.n(45, 700)):
        I, J = half(r, 0, 5), half(r, 0, 5)
        lv = LV(None, '3d', term_for(r, J), J, r.uniform(0, 9) * 1e14, r.uniform(.1, 3) * 1e9 * r.choice([1, -1]), r.uniform(-1, 1) * 1e8, 0, r.uniform(.5, 2))
        B = r.choice([0.0, r.uniform(.5, 20)])
        kw = {}
        if r.random() < .6:
            kw['width'] = r.uniform(.2, 3)
        if r.random() < .5:
            kw['x0'] = r.uniform(-3, 3)
        if r.random() < .5:
            kw['x1'] = r.uniform(-1, 1)
        if r.random() < .4:
            kw['y0'] = r.uniform(0, 900)
        if r.random() < .4:
            kw['y1'] = r.uniform(-5, 5)
        if r.random() < .5:
            kw['hf_scale'] = r.choice([1.0, 1e4, 1e5])
        if r.random() < .5:
            kw['z_scale'] = r.uniform(.5, 10)
        sq = r.choice([None, None, True, False, 'val'])
        if sq == 'val':
            kw['squeeze'] = float(r.choice(Fs(I, J)))
        elif sq is not None:
            kw['squeeze'] = sq
        sp = r.choice([None, 'realistic', 'schematic', 1.0])
        if sp is not None:
            kw['spacing'] = sp
        sw = r.choice([None, 'degeneracy', 'schematic'])
        if sw is not None:
            kw['sublevel_width'] = sw
        inp = (str(I), lv, B, kw)
        with C.case('diagram', inp):
            a = A.Atom('X', I=float(I), B=Q_(B, 'G'))
            J1 = J + 1 if r.random() < .5 else J
            g0 = a.add_level(mk_level(at, LV(None, '1s', term_for(r, J1), J1, -1.0 if r.random() < .5 else 1e15 * 5)))
            l = a.add_level(mk_level(at, lv))
            W = kw.get('width', .8)
            x = kw.get('x0', float(J)) + kw.get('x1', 0)
            y = kw.get('y0', lv.E / 1e12) + kw.get('y1', 0)
            hs, zs = kw.get('hf_scale', 1e4), kw.get('z_scale', 5.0)
            S = I + J
            if kw.get('squeeze', True) is False:
                S = max(Fs(I, H(a.levels[0].term.J)))
            elif kw.get('squeeze', True) is not True:
                S = Fr(kw['squeeze'])
            # gross
            df = drawn(r.choice([l, l.sublevels()[0], l.sublevels()[0].sublevels()[0]]) if r.random() < .3 and 'x0' in kw else l, 'gross', **kw)
            C.check('gross-one-line', len(df) == 1 and bool(df['show'][0]) and df['level'][0] is l, inp)
            p0, p1 = df['p0'][0], df['p1'][0]
            tol = dict(abs_=1e-9, rel=1e-9)
            C.close('gross-x', p0[0], x - W / 2, inp, **tol)
            C.close('gross-x', p1[0], x + W / 2, inp, **tol)
            C.close('gross-y', p0[1], y, inp, **tol)
            C.close('gross-y', p1[1], y, inp, **tol)
            # hyperfine
            df = drawn(l, r.choice(['hf', 'hyperfine']), **kw)
            shown = [row for _, row in df.iterrows() if row['show']]
            C.check('hf-once', sorted(id(s['level']) for s in shown) == sorted(id(s) for s in l.sublevels()), inp)
            hid = [row for _, row in df.iterrows() if not row['show'] and row['level'] is l]
            C.check('box', len(hid) == 1 and all(box_ok(s, hid[0]['bbox']) for s in shown), inp)
            ys = []
            for s in sorted(shown, key=lambda s: s['level'].term.F):
                F = H(s['level'].term.F)
                p0, p1 = s['p0'], s['p1']
                C.close('hf-flat', p0[1], p1[1], (inp, str(F)), **tol)
                C.close('hf-centred', (p0[0] + p1[0]) / 2, x, (inp, str(F)), **tol)
                w = W * float((2 * F + 1) / (2 * S + 1)) if kw.get('sublevel_width') != 'schematic' else W
                C.close('hf-width', p1[0] - p0[0], w, (inp, str(F)), **tol)
                if kw.get('spacing') != 'schematic':
                    C.close('hf-y', p0[1], y + hs * hf_shift(I, J, F, lv.A, lv.B, lv.C) / 1e12, (inp, str(F)), **tol)
                ys.append(p0[1])
            if kw.get('spacing') == 'schematic' and len(ys) > 2:
                d = [q - p for p, q in zip(ys, ys[1:])]
                C.check('hf-schematic', max(d) - min(d) <= 1e-9 * (1 + abs(max(d)) + abs(y)) , inp, d)
            # zeeman
            df = drawn(l, r.choice(['z', 'zeeman']), **kw)
            shown = [row for _, row in df.iterrows() if row['show']]
            al = [z for h in l.sublevels() for z in h.sublevels()]
            C.check('z-once', sorted(id(s['level']) for s in shown) == sorted(map(id, al)), inp)
            hid = [row for _, row in df.iterrows() if not row['show'] and row['level'] is l]
            C.check('box', len(hid) == 1 and all(box_ok(s, hid[0]['bbox']) for s in shown), inp)
            for h in l.sublevels():
                hb = [row for _, row in df.iterrows() if not row['show'] and row['level'] is h]
                C.check('box', len(hb) == 1 and all(box_ok(s, hb[0]['bbox']) for s in shown if s['level'].parent is h), inp)
            ws = [s['p1'][0] - s['p0'][0] for s in shown]
            C.check('z-equal-width', max(ws) - min(ws) < 1e-9 * W, inp, ws)
            pitch = None
            byF = {}
            for s in shown:
                z = s['level']
                m, F = z.term.mF, H(z.term.F)
                c = (s['p0'][0] + s['p1'][0]) / 2 - x
                if abs(m) > .1:
                    pitch = pitch or c / m
                    C.close('z-pitch', c, pitch * m, (inp, z.name), **tol)
                else:
                    C.close('z-pitch', c, 0.0, (inp, z.name), abs_=1e-9)
                C.close('z-flat', s['p0'][1], s['p1'][1], (inp, z.name), **tol)
                if kw.get('spacing') != 'schematic':
                    sh = hf_shift(I, J, F, lv.A, lv.B, lv.C) + zs * gF_of(lv.g, I, J, F) * m * MU_B * B
                    C.close('z-y', s['p0'][1], y + hs * sh / 1e12, (inp, z.name), **tol)
                if F <= S:
                    C.check('z-fits', s['p0'][0] >= x - W / 2 - 1e-9 and s['p1'][0] <= x + W / 2 + 1e-9, (inp, z.name), (s['p0'], s['p1']))
                byF.setdefault(F, []).append((s['p0'][0], s['p1'][0]))
            for F, segs in byF.items():
                segs.sort()
                C.check('z-disjoint', all(p[1] <= q[0] + 1e-12 for p, q in zip(segs, segs[1:])), (inp, str(F)), segs)
