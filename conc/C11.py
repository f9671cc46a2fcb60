from .lib import *


def pairs_of(par, I, l0, l1):
    out = []
    for x in l0.sublevels():
        for y in l1.sublevels():
            if any(allowed_hf(par, I, H(l0.term.J), H(l1.term.J), H(x.term.F), H(y.term.F))):
                out.append((x, y))
    return out


def check_set(C, t, exp, inp, internal):
    subs = t.subtransitions()
    C.check('len', len(t) == len(subs) == len(list(t.keys())), inp)
    got = []
    for k, s in t.items():
        C.check('belongs', s.parent is t and s.atom is t.atom, inp)
        lo, up = (s.E_lower, s.E_upper) if internal else (s.E_1, s.E_2) if t.E_lower is t.E_1 else (s.E_2, s.E_1)
        C.check('filed', tuple(k) == (lo.term.short_name, up.term.short_name), (inp, k))
        C.check('found', t[k] is s, (inp, k))
        got.append((id(s.E_1), id(s.E_2)))
    e = [(id(x), id(y)) for x, y in exp]
    if internal:
        C.eq('exactly-allowed', {frozenset(g) for g in got}, {frozenset(x) for x in e}, inp)
        C.check('no-duplicates', len({frozenset(g) for g in got}) == len(got), inp)
    else:
        C.check('exactly-allowed', sorted(got) == sorted(e), inp, [(str(s.E_1), str(s.E_2)) for s in subs],
                [(str(x), str(y)) for x, y in exp])
        C.check('no-duplicates', len(set(got)) == len(got), inp)
    C.check('iteration', list(t) == list(t.keys()) and [id(x) for x in t.values()] == [id(x) for x in subs], inp)


def run(C):
    at = lib()
    A = at.atom
    r = C.rng
    todo = []
    for _ in range(C.n(90, 2000)):
        todo.append((half(r, 0, 6), half(r, 0, 7), None, r.random() < .5, r.random() < .5))
    for I, J0, _, p0, p1 in todo:
        J1 = J0 + r.randint(-2, 2)
        if J1 < 0:
            continue
        internal = r.random() < .15
        how = r.choice(['values', 'items', 'keys', 'iter', 'len', 'explicit', 'sub', 'readd'])
        B = r.choice([0.0, 2.0])
        inp = (str(I), str(J0), str(J1), p0, p1, internal, how, B)
        with C.case('subtransitions', inp):
            a = A.Atom('X', I=float(I), B=at.Q_(B, 'G'))
            order = r.random() < .5
            close = r.random() < .3     # the hyperfine structures of the levels overlap
            A0 = r.choice([1e9, 0.0])
            l0 = a.add_level(mk_level(at, LV(None, '1s', term_for(r, J0, p0), J0, (5e14 + (1e8 if order else -1e8)) if close else 1e13 if order else 6e14, A0, 1e6 if A0 else 0, 0, 1.1)))
            l1 = a.add_level(mk_level(at, LV(None, '2s', term_for(r, J1, p1), J1, 5e14, 2e9, 0, 0, .7)))
            if internal:
                l1 = l0
            t = A.Transition(l0, l1)
            a.add_transition(t)
            par = tuple(bool(x) for x in t.allowed_types)
            if how == 'explicit':
                t.populate_subtransitions()
            elif how == 'readd':
                len(t)
                a.add_transition(t)
            else:
                {'values': t.values, 'items': t.items, 'keys': t.keys, 'iter': lambda: list(t), 'len': lambda: len(t),
                 'sub': t.subtransitions}[how]()
            exp = pairs_of(par, I, l0, l1)
            check_set(C, t, exp, inp, internal)
            subs = t.subtransitions()
            for s in r.sample(subs, min(3, len(subs))):
                F0, F1 = H(s.E_1.term.F), H(s.E_2.term.F)
                ha = allowed_hf(par, I, H(s.E_1.term.J), H(s.E_2.term.J), F0, F1)
                ez = [(u, v) for u in s.E_1.sublevels() for v in s.E_2.sublevels()
                      if any(allowed_z(ha, F0, F1, H(u.term.mF), H(v.term.mF)))]
                if r.random() < .5:
                    len(s)
                else:
                    s.populate_subtransitions()
                check_set(C, s, ez, (inp, str(F0), str(F1)), s.E_1 is s.E_2)
            if how == 'readd':
                b = A.Atom('Y', I=float(I))
                b.add_level(l0), b.add_level(l1)
                b.add_transition(t)
                C.check('re-added', t.atom is b and all(s.atom is b for s in t.values()), inp)
                check_set(C, t, exp, inp, internal)
