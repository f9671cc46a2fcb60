from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for _ in range(C.n(300, 6000)):
        n = r.randint(2, 6)
        lvs = rand_levels(r, n, 0, maxJ2=5, alias=True)
        inp0 = None
        with C.case('decay', lvs):
            a = mk_atom(at, lvs, half(r, 0, 3) if r.random() < .3 else 0)
            L = [a.levels[l.name] for l in lvs]
            edges = {}
            eqA = r.random() < .3
            for i in range(n):
                for j in range(i):
                    if r.random() < .6:
                        Av = (r.choice([1.0, 2.5]) if eqA else r.uniform(.01, 300)) if r.random() < .93 else None
                        un = r.choice(['MHz', 'kHz', 'GHz', '1/s'])
                        x, y = (i, j) if r.random() < .5 else (j, i)
                        sc = {'MHz': 1e6, 'kHz': 1e3, 'GHz': 1e9, '1/s': 1.0}[un]
                        if r.random() < .6 or Av is None:
                            t = A.Transition(L[x], L[y], A=None if Av is None else Q_(Av, un))
                            a.add_transition(t)
                        else:
                            t = A.Transition(L[x], L[y])
                            a.add_transition(t)
                            t.A = Q_(Av, un)
                        edges[(i, j)] = None if Av is None else Av * sc
            if r.random() < .3:
                a.populate_internal_transitions()
            elif r.random() < .3:
                # a transition within a level never counts as a decay, whatever its A coefficient
                x = r.randrange(n)
                a.add_transition(A.Transition(L[x], L[x], A=r.choice([None, Q_(r.uniform(1, 9), 'MHz')])))
            inp0 = (lvs, {(lvs[i].name, lvs[j].name): v for (i, j), v in edges.items()})
            for i in range(n):
                dec = {}
                for (x, y), v in edges.items():
                    if i in (x, y):
                        o = y if x == i else x
                        if lvs[o].E < lvs[i].E:
                            dec[lvs[o].name] = v
                for key in {lvs[i].name, lvs[i].alias or lvs[i].name}:
                    inp = (inp0, key)
                    if any(v is None for v in dec.values()):
                        C.raises('missing-A', ValueError, lambda: a.compute_branching_ratios(key), inp)
                        C.raises('missing-A', ValueError, lambda: a.state_lifetime(key), inp)
                        continue
                    tot = sum(dec.values())
                    b = a.compute_branching_ratios(key)
                    C.check('decay-levels', set(b) == set(dec), inp, b, dec)
                    for k2, v in dec.items():
                        C.close('ratio', float(b.get(k2, -1)), v / tot, inp)
                    if dec:
                        C.close('sum-one', float(sum(b.values())), 1.0, inp)
                    t = a.state_lifetime(key)
                    if dec:
                        C.close('lifetime', t.to('s').magnitude, 2 * math.pi / tot, inp)
                    else:
                        C.check('infinite', t.to('s').magnitude == math.inf, inp, t)
