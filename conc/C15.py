from .lib import *


def run(C):
    at = lib()
    A, Q_ = at.atom, at.Q_
    r = C.rng
    for _ in range(C.n(130, 2500)):
        I = r.choice([Fr(0), half(r, 0, 5), half(r, 0, 5)])
        n = r.randint(2, 5)
        lvs = rand_levels(r, n, I, alias=True, maxJ2=5)
        B = r.choice([0.0, 1.0])
        inp0 = (str(I), lvs, B)
        with C.case('access', inp0):
            a = A.Atom('X', I=float(I), B=Q_(B, 'G'))
            objs = {}
            trs = {}
            names = [l.name for l in lvs]
            pend = list(lvs)
            while pend or r.random() < .5:
                if pend and (len(objs) < 2 or r.random() < .6):
                    lv = pend.pop()
                    objs[lv.name] = a.add_level(mk_level(at, lv))
                    continue
                x, y = r.sample(list(objs), 2)
                if frozenset((x, y)) in trs:
                    if not pend:
                        break
                    continue
                al = f'T{len(trs)}' if r.random() < .5 else None
                w = r.random()
                if w < .5:
                    t = A.Transition(objs[x], objs[y], alias=al)
                    a.add_transition(t)
                elif w < .7:
                    t = a.add_transition((x, y), alias=al)
                elif w < .85:
                    t = a.add_transition((objs[x], objs[y]), alias=al)
                else:
                    t = A.Transition(objs[x], objs[y])
                    a.transitions.append(t)
                    if al:
                        t.alias = al
                trs[frozenset((x, y))] = (t, al)
            if r.random() < .2 and objs:
                x = r.choice(list(objs))
                objs[x].level = Q_(r.uniform(0, 2e14), 'Hz')
            if trs and r.random() < .4:
                # aliases can be given and moved at any time
                k1 = r.choice(list(trs))
                al = r.choice([v[1] for v in trs.values() if v[1]] + ['moved'])
                trs[k1][0].alias = al
                trs = {k: (t, None if v == al else v) for k, (t, v) in trs.items()}
                trs[k1] = (trs[k1][0], al)
            order = sorted(objs.values(), key=lambda l: l.level_Hz)
            C.eq('count', len(a.transitions), len(trs), inp0)
            for i in range(n):
                for j in range(n):
                    if i == j:
                        continue
                    x, y = names[i], names[j]
                    k = frozenset((x, y))
                    inp = (inp0, x, y)
                    px, py = order.index(objs[x]), order.index(objs[y])
                    if k not in trs:
                        C.raises('no-transition', KeyError, lambda: a.transitions[x, y], inp)
                        C.raises('no-transition', KeyError, lambda: a.transitions[objs[x], objs[y]], inp)
                        C.raises('no-transition', KeyError, lambda: a.transitions[px, py], inp)
                        C.raises('no-transition', KeyError, lambda: a.transitions[f'{x} F={frac(I + lvs[i].J)}', f'{y} F={frac(I + lvs[j].J)}'], inp)
                        continue
                    t, al = trs[k]
                    C.check('by-names', a.transitions[x, y] is t, inp)
                    C.check('by-objects', a.transitions[objs[x], objs[y]] is t, inp)
                    C.check('by-positions', a.transitions[px, py] is t, inp)
                    if al:
                        C.check('by-alias', a.transitions[al] is t, (inp, al))
                    if r.random() < .5:
                        continue
                    exp = {}
                    par = tuple(bool(v) for v in t.allowed_types)
                    for u in objs[x].sublevels():
                        for v in objs[y].sublevels():
                            ok = any(allowed_hf(par, I, lvs[i].J, lvs[j].J, H(u.term.F), H(v.term.F)))
                            if ok:
                                exp[u, v] = 1
                            elif r.random() < .3:
                                C.raises('no-subtransition', KeyError, lambda: a.transitions[u.name, v.name], (inp, u.name, v.name))
                    pl = list(exp)
                    for u, v in r.sample(pl, min(5, len(pl))):
                        s = a.transitions[u.name, v.name]
                        i2 = (inp, u.name, v.name)
                        C.check('hyperfine', {id(s.E_1), id(s.E_2)} == {id(u), id(v)} and s.parent is t, i2, (str(s.E_1), str(s.E_2)))
                        C.check('hyperfine-order', a.transitions[v.name, u.name] is s, i2)
                        C.check('hyperfine-objects', a.transitions[u, v] is s, i2)
                        lo, up = (u, v) if u.parent is t.E_lower else (v, u)
                        kk = (lo.term.short_name, up.term.short_name)
                        C.check('hyperfine-index', t[kk] is s, i2)
                        ha = tuple(bool(q) for q in s.allowed_types)
                        zp = [(p, q) for p in u.sublevels() for q in v.sublevels()
                              if any(allowed_z(ha, H(u.term.F), H(v.term.F), H(p.term.mF), H(q.term.mF)))]
                        for p, q in r.sample(zp, min(3, len(zp))):
                            z = a.transitions[p.name, q.name]
                            i3 = (inp, p.name, q.name)
                            C.check('zeeman', {id(z.E_1), id(z.E_2)} == {id(p), id(q)} and z.parent is s, i3, (str(z.E_1), str(z.E_2)))
                            C.check('zeeman-order', a.transitions[q.name, p.name] is z, i3)
                            lo, up = (p, q) if p.parent is s.E_lower else (q, p)
                            C.check('zeeman-index', s[lo.term.short_name, up.term.short_name] is z, i3)
                            if I == 0:
                                m = a.transitions[f'{x} mJ={frac(H(p.term.mF))}', f'{y} mJ={frac(H(q.term.mF))}']
                                C.check('mJ', m is z, i3)
            C.raises('no-transition', KeyError, lambda: a.transitions['nothing', names[0]], inp0)
            C.raises('no-transition', KeyError, lambda: a.transitions[names[0], 'nothing'], inp0)
