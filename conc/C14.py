from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for _ in range(C.n(100, 2000)):
        I = r.choice([Fr(0), half(r, 0, 5), half(r, 0, 5)])
        n = r.randint(1, 6)
        lvs = rand_levels(r, n, I, alias=True, maxJ2=r.choice([5, 5, 14]))
        inp = (str(I), lvs)
        with C.case('access', inp):
            a = A.Atom('X', I=float(I))
            objs = {}
            for i, lv in enumerate(lvs):
                l = mk_level(at, lv)
                w = r.random()
                if w < .5:
                    a.add_level(l)
                elif w < .75:
                    a.levels.append(l)
                else:
                    lv.alias = f'given{i}'
                    if r.random() < .5:
                        a.add_level(l, alias=lv.alias)
                    else:
                        a.levels[lv.alias] = l
                objs[lv.name] = l
                C.eq('level-name', l.name, lv.name, inp)
                if r.random() < .2:
                    lv.alias2 = f'late{i}'
                    l.alias = lv.alias2
                # after every addition everything stays reachable
                done = lvs[:i + 1]
                C.check('keys', set(a.levels.keys()) == {x.name for x in done} == set(a.levels) and len(a.levels) == i + 1
                        and set(a.levels.list_names()) == {x.name for x in done}, inp)
                C.check('values', {id(x) for x in a.levels.values()} == {id(objs[x.name]) for x in done}, inp)
                for x in done:
                    C.check('by-name', a.levels[x.name] is objs[x.name], (inp, x.name))
                    if x.alias:
                        C.check('by-alias', a.levels[x.alias] is objs[x.name], (inp, x.alias))
                    if getattr(x, 'alias2', None):
                        C.check('by-alias', a.levels[x.alias2] is objs[x.name], (inp, x.alias2))
            for k, v in zip(a.levels.keys(), a.levels.values()):
                C.check('name-is-key', v.name == k, (inp, k))
            order = [objs[l.name] for l in sorted(lvs, key=lambda l: l.E)]
            for i in range(-n, n):
                C.check('by-position', a.levels[i] is order[i], (inp, i))
            for _ in range(4):
                x, y, s = r.choice([None, r.randint(-n, n)]), r.choice([None, r.randint(-n, n)]), r.choice([None, 1, 2, -1])
                C.check('by-slice', list(map(id, a.levels[x:y:s])) == list(map(id, order[x:y:s])), (inp, x, y, s))
            for i in (n, -n - 1, n + 5):
                C.raises('no-position', IndexError, lambda: a.levels[i], (inp, i))
            lv = r.choice(lvs)
            l = objs[lv.name]
            keys = [lv.name]
            for F in Fs(I, lv.J):
                kF = f'F={frac(F)}'
                h = a.levels[f'{lv.name} {kF}']
                C.check('hyperfine', h is l[kF] and h.name == f'{lv.name} {kF}' and h.term.F == float(F) and h.manifold is l, (inp, kF))
                for m in mFs(F):
                    km = f'mF={frac(m)}'
                    z = a.levels[f'{lv.name} {kF} {km}']
                    C.check('zeeman', z is h[km] and z is l[kF][km] and z.name == f'{lv.name} {kF} {km}' and z.term.mF == float(m), (inp, kF, km))
                    if I == 0:
                        C.check('mJ', a.levels[f'{lv.name} mJ={frac(m)}'] is z and l[f'mJ={frac(m)}'] is z, (inp, km))
                C.raises('unknown', KeyError, lambda: a.levels[f'{lv.name} {kF} mF={frac(F + 1)}'], (inp, kF))
            C.raises('unknown', KeyError, lambda: a.levels[f'{lv.name} F={frac(I + lv.J + 1)}'], inp)
            C.raises('unknown', KeyError, lambda: l[f'F={frac(I + lv.J + 1)}'], inp)
            C.raises('unknown', KeyError, lambda: a.levels['nothing'], inp)
            C.raises('unknown', KeyError, lambda: a.levels[lv.name + 'x'], inp)
            C.raises('unknown', KeyError, lambda: a.levels['nothing F=1'], inp)
            C.raises('unknown', KeyError, lambda: a.levels['nothing F=1 mF=0'], inp)
            if I == 0:
                C.raises('unknown', KeyError, lambda: a.levels[f'{lv.name} mJ={frac(lv.J + 1)}'], inp)
            # moving a level changes the order only
            mv = r.choice(lvs)
            objs[mv.name].level = Q_(r.uniform(0, 9e13), 'Hz')
            order = sorted(objs.values(), key=lambda x: x.level_Hz)
            C.check('by-position', [a.levels[i] is order[i] for i in range(n)] == [True] * n, (inp, 'moved', mv.name))
