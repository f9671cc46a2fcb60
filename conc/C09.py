from .lib import *


def run(C):
    at = lib()
    Q_ = at.Q_
    r = C.rng
    EL, T, TR = at.atom.EnergyLevel, at.atom.Term if hasattr(at.atom, 'Term') else at.term.Term, at.atom.Transition
    for _ in range(C.n(500, 12000)):
        n = r.randint(2, 7)
        log = []
        with C.case('history', log):
            a = at.atom.Atom('X')
            lv = []
            # specification: energies, set edges
            E = [r.uniform(0, 9) * 1e14 for _ in range(n)]
            n0 = r.randint(0, n)
            for i in range(n):
                l = EL(T(f'{i + 1}p', '2P', .5), Q_(E[i], 'Hz'))
                lv.append(l)
                if i < n0:
                    a.add_level(l)
                else:
                    # in atom anyway: levels must belong to one for transitions between them
                    a.add_level(l, alias=f'L{i}')
            idx = {id(l): i for i, l in enumerate(lv)}
            trans = {}
            setf = {}

            def comp(i):
                seen, todo = {i}, [i]
                while todo:
                    x = todo.pop()
                    for (u, v) in setf:
                        for p, q in ((u, v), (v, u)):
                            if p == x and q not in seen:
                                seen.add(q)
                                todo.append(q)
                return seen
            cur = lambda: [l.level_Hz for l in lv]  # noqa
            for step in range(r.randint(2, 9)):
                op = r.random()
                before = cur()
                if op < .15:
                    i = len(lv)
                    e = r.uniform(0, 9) * 1e14
                    l = EL(T(f'{i + 1}p', '2P', .5), Q_(e, 'Hz'))
                    lv.append(l)
                    a.add_level(l)
                    log.append(('level', i, e))
                    C.check('untouched', cur()[:-1] == before and lv[-1].level_Hz == l.level_Hz, log)
                    continue
                if op < .55 or not trans:
                    i, j = r.sample(range(len(lv)), 2)
                    if frozenset((i, j)) in trans:
                        continue
                    fr = None if r.random() < .35 else r.uniform(.5, 9) * 1e14
                    if fr is not None and j in comp(i):
                        continue
                    merged = comp(i) | comp(j)
                    t = TR(lv[i], lv[j], freq=None if fr is None else Q_(fr, 'Hz'))
                    if r.random() < .5 or fr is None:
                        a.add_transition(t)
                    else:
                        a.add_transition(t)
                    trans[frozenset((i, j))] = t
                    log.append(('transition', i, j, fr))
                    if fr is None:
                        C.check('untouched', cur() == before, log, cur(), before)
                        continue
                    setf[(i, j)] = fr
                    moved = merged
                else:
                    k = r.choice(list(trans))
                    t = trans[k]
                    i, j = tuple(k)
                    fr = r.uniform(.5, 9) * 1e14
                    key = (i, j) if (i, j) in setf else (j, i) if (j, i) in setf else None
                    if key is None and j in comp(i):
                        continue
                    merged = comp(i) | comp(j)
                    if key is not None:
                        setf[key] = fr
                    else:
                        setf[(i, j)] = fr
                    w = r.random()
                    v = Q_(fr, 'Hz') if w < .4 else Q_(fr / 1e12, 'THz') if w < .7 else Q_(299792458.0 / fr * 1e9, 'nm')
                    if r.random() < .5:
                        t.set_frequency(v)
                    else:
                        t.freq = v
                    log.append(('set', i, j, str(v)))
                    moved = merged
                # obligations
                now = cur()
                scale = max(map(abs, now)) + 1e14
                for (u, v), f in setf.items():
                    tt = trans[frozenset((u, v))]
                    C.close('satisfied', tt.freq_Hz, f, log, rel=1e-11, abs_=1e-13 * scale)
                    C.check('orientation', tt.E_upper.level_Hz > tt.E_lower.level_Hz, log)
                C.check('untouched', all(abs(now[x] - before[x]) <= 1e-12 * scale for x in range(len(lv)) if x not in moved), log)
                low = min(moved, key=lambda x: before[x])
                C.check('lowest-stays', abs(now[low] - before[low]) <= 1e-12 * scale, log, now[low], before[low])
