from .lib import *


def run(C):
    at = lib()
    r = C.rng
    acc = ['values', 'sublevels', 'keys', 'items', 'iter', 'getitem', 'len', 'add', 'atom']
    top = C.n(9, 13)
    big = [(r.randint(0, 20), r.randint(0, 30)) for _ in range(C.n(10, 60))]
    for i2, j2 in [(x, y) for x in range(0, top) for y in range(0, top)] + big:
        if True:
            I, J = Fr(i2, 2), Fr(j2, 2)
            for how in (acc if C.thorough else r.sample(acc, 3)):
                inp = (str(I), str(J), how)
                with C.case('sublevels', inp):
                    lv = LV(None, '3d', term_for(r, J), J, 1e14, 1e9, 1e7, 1e5)
                    a = at.atom.Atom('X', I=float(I) if r.random() < .6 else frac(I))
                    l = mk_level(at, lv)
                    if how == 'add':
                        a.add_level(l, populate_sublevels=True)
                    elif how == 'atom':
                        a = at.atom.Atom('X', I=float(I), levels=[l])
                    else:
                        a.add_level(l)
                    exp = Fs(I, J)
                    ks = [f'F={frac(F)}' for F in exp]

                    def force(x, k0):
                        if how == 'values':
                            return list(x.values())
                        if how == 'keys':
                            return list(x.keys())
                        if how == 'items':
                            return list(x.items())
                        if how == 'iter':
                            return list(iter(x))
                        if how == 'getitem':
                            return x[k0]
                        if how == 'len':
                            return len(x)
                        return x.sublevels()
                    r0 = force(l, ks[-1])
                    C.eq('F-keys', list(l.keys()), ks, inp)
                    C.eq('F-iter', list(l), ks, inp)
                    subs = l.sublevels()
                    C.check('same-objects', list(map(id, subs)) == list(map(id, l.values())) and len(l) == len(ks), inp)
                    if how in ('values', 'sublevels'):
                        C.check('same-objects', list(map(id, subs)) == list(map(id, r0)), inp)
                    C.eq('F-values', [s.term.F for s in subs], [float(F) for F in exp], inp)
                    tot = 0
                    for F, s in zip(exp, subs):
                        C.check('F-linkage', s.parent is l and s.manifold is l and s.atom is a and l[f'F={frac(F)}'] is s, inp)
                        C.eq('F-term', (s.term.J, s.term.mF), (float(J), None), inp)
                        C.eq('F-name', s.name, f'{l.name} F={frac(F)}', inp)
                        ms = mFs(F)
                        force(s, f'mF={frac(ms[0])}')
                        C.eq('mF-keys', list(s.keys()), [f'mF={frac(m)}' for m in ms], (inp, F))
                        C.eq('mF-values', [z.term.mF for z in s.values()], [float(m) for m in ms], (inp, F))
                        tot += len(s)
                        for m, z in zip(ms, s.sublevels()):
                            C.check('mF-linkage', z.parent is s and z.manifold is l and z.atom is a and s[f'mF={frac(m)}'] is z, (inp, F, m))
                            C.eq('mF-term', (z.term.J, z.term.F), (float(J), float(F)), (inp, F, m))
                            C.eq('mF-name', z.name, f'{l.name} F={frac(F)} mF={frac(m)}', (inp, F, m))
                            C.eq('mF-leaf', len(z), 0, (inp, F, m))
                    C.eq('multiplicity', tot, int((2 * I + 1) * (2 * J + 1)), inp)
