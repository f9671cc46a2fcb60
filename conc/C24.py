from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for _ in range(C.n(70, 1200)):
        n = r.randint(1, 6)
        I = half(r, 0, 3)
        lvs = rand_levels(r, n, I, maxJ2=r.choice([5, 9, 17]))
        if r.random() < .1:
            lvs = []
        allowed = r.choice([(True, True, True), (True, False, False), (False, True, False), (False, False, True), (True, False, True),
                            (False, True, True), (True, True, False), (False, False, False)])
        inp = (lvs, allowed)
        with C.case('populate', inp):
            a = mk_atom(at, lvs, I)
            pre = {}
            for _ in range(r.choice([0, 0, 1, 2])):
                if len(lvs) < 2:
                    break
                x, y = r.sample(lvs, 2)
                k = frozenset((x.name, y.name))
                if k in pre:
                    continue
                t = A.Transition(a.levels[x.name], a.levels[y.name], A=Q_(r.uniform(1, 9), 'MHz'))
                a.add_transition(t)
                pre[k] = (t, t.A)
            en = {k: a.levels[k].level_Hz for k in a.levels.keys()}
            a.populate_transitions(allowed)

            def verify(tag):
                exp = set(pre)
                for i, x in enumerate(lvs):
                    for y in lvs[:i]:
                        al = allowed3(x.J, y.J, x.parity, y.parity, False)
                        if any(p and q for p, q in zip(al, allowed)):
                            exp.add(frozenset((x.name, y.name)))
                got = [frozenset(k) for k in a.transitions.keys() if k[0] != k[1]]
                C.check('exactly-allowed', set(got) == exp and len(got) == len(exp), (inp, tag), got, exp)
                for k in exp:
                    x, y = tuple(k)
                    t = a.transitions[x, y]
                    C.check('endpoints', {id(t.E_1), id(t.E_2)} == {id(a.levels[x]), id(a.levels[y])} and t.atom is a, (inp, tag, x, y))
                    if k in pre:
                        C.check('kept', t is pre[k][0] and t.A == pre[k][1], (inp, tag, x, y))
                C.eq('energies-kept', {k: a.levels[k].level_Hz for k in a.levels.keys()}, en, (inp, tag))
            verify('first')
            ids = {tuple(k): id(a.transitions[k]) for k in a.transitions.keys()}
            a.populate_transitions(allowed)
            verify('again')
            C.eq('idempotent', {tuple(k): id(a.transitions[k]) for k in a.transitions.keys()}, ids, inp)
            a2 = mk_atom(at, lvs, I)
            a2.populate_internal_transitions()
            C.check('internal', sorted(map(tuple, a2.transitions.keys())) == sorted((l.name, l.name) for l in lvs), inp)
            for l in lvs:
                t = a2.transitions[l.name, l.name]
                C.check('internal-ends', t.E_1 is a2.levels[l.name] and t.E_2 is t.E_1, (inp, l.name))
