"""C13 branching ratios and lifetimes follow from the A coefficients

The level has an arbitrary number of transitions to others, whose energies and A coefficients are arbitrary functions of an index.
"""
from props import proofs

UNITS = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9, '1/s': 1.0}


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, Bool, And, Or, Not
    from pyvc import seq as Q, runtime as RT
    from pyvc.rope import to_str
    from props.common import level, listof, family
    import math
    from pyvc import models
    NP = models.NP()
    at = S.lib
    Q_, Tr = at.Q_, at.atom.Transition
    S.use(*proofs.TEXT, proofs.FINE)

    def atom(unit, flip, missing=None, alias=None):
        """a level X with n transitions to others (and a chain among the others)"""
        n = Int('n')
        ENG.assume(n >= 0)
        E0 = Real('E')
        E, A = family('En', lambda e: e != E0), family('A', lambda x: x > 0)
        X = level(at, Half('2J'), E0, conf='x', hf=False)
        ls = listof(n, lambda i: level(at, 0.5, E(i), conf='c' + to_str(i), hf=False, lande=1.0))
        def tr(i):
            a, b = (ls[i], X) if flip else (X, ls[i])
            return Tr(a, b, A=Q_(A(i) / UNITS[unit], unit))
        ts = listof(n, tr)
        other = level(at, 1.5, Real('Eo'), conf='o', hf=False)
        ENG.assume(Real('Eo') != E0)
        a = at.atom.Atom('X', I=0.0, levels=[X, other], transitions=ts)
        if alias is not None:
            X.alias = alias
        return a, X, ls, n, E0, E, A, other

    for unit, flip in (('Hz', False), ('MHz', True), ('1/s', False)):
        def ratios(unit=unit, flip=flip):
            a, X, ls, n, E0, E, A, other = atom(unit, flip)
            r = RT.b_range(n)
            down = Q.comp('list', r, lambda i: E(i) < E0, lambda i: A(i))
            some = S.len(down) > 0
            ENG.assume(some)
            total = S.sum(down, lambda x: x)
            b = a.compute_branching_ratios(X.name)
            S.check('ratios/levels', S.len(b) == S.len(down))
            i = Int('k')
            ENG.assume(And(i >= 0, i < n, E(i) < E0))
            S.check('ratios/value', b[ls[i].name] == A(i) / total)
            S.check('ratios/positive', b[ls[i].name] > 0)
            S.check('ratios/sum', S.sum(b.values(), lambda x: x) == 1)
        S.run(f'ratios/{unit}', ratios)

        def life(unit=unit, flip=flip):
            a, X, ls, n, E0, E, A, other = atom(unit, flip)
            down = Q.comp('list', RT.b_range(n), lambda i: E(i) < E0, lambda i: A(i))
            total = S.sum(down, lambda x: x)
            m = a.state_lifetime(X.name).to('s').magnitude
            if isinstance(m, float) and m == math.inf:
                S.check('lifetime/infinite', S.len(down) == 0)
            else:
                S.check('lifetime/finite', S.len(down) > 0)
                S.check('lifetime/value', m * total == 2 * NP.pi)
        S.run(f'lifetime/{unit}', life)

        def missing(unit=unit, flip=flip):
            # one more transition, whose A coefficient is not known
            a, X, ls, n, E0, E, A, other = atom(unit, flip)
            a.add_transition(Tr(other, X) if flip else Tr(X, other))
            if Real('Eo') < E0:
                S.raises('missing-A', ValueError, lambda: a.compute_branching_ratios(X.name))
                S.raises('missing-A', ValueError, lambda: a.state_lifetime(X.name))
            else:
                # it leads upward from the level: nothing changes
                b, t = a.compute_branching_ratios(X.name), a.state_lifetime(X.name)
                S.check('upward-irrelevant', S.len(b) == S.len(Q.comp('list', RT.b_range(n), lambda i: E(i) < E0, lambda i: A(i))))
        S.run(f'missing/{unit}', missing)

    def two_families(order, within):
        """a level, known as nick as well, with two families of transitions whose coefficients have different units"""
        n = Int('n')
        ENG.assume(n >= 0)
        E0 = Real('E')
        fams = [(family(f'E{q}n', lambda e: e != E0), family(f'A{q}n', lambda x: x > 0)) for q in '12']
        X = level(at, Half('2J'), E0, conf='x', hf=False)
        ls = [listof(n, lambda i, E=E, c=c: level(at, 0.5, E(i), conf=c + to_str(i), hf=False, lande=1.0)) for c, (E, A) in zip('cd', fams)]
        ts = [listof(n, lambda i, A=A, l=l, u=u: Tr(*((X, l[i]) if order else (l[i], X)), A=Q_(A(i) / UNITS[u], u)))
              for u, l, (E, A) in zip(('kHz', 'MHz'), ls, fams)]
        a = at.atom.Atom('X', I=0.0, levels=[X], transitions=ts[0] + ts[1])
        X.alias = 'nick'
        if within:
            a.add_transition(Tr(X, X, A=Q_(Real('Aself'), 'MHz')))
        ds = [Q.comp('list', RT.b_range(n), lambda i, E=E: E(i) < E0, lambda i, A=A: A(i)) for E, A in fams]
        return a, X, n, E0, fams, ls, S.len(ds[0]) + S.len(ds[1]), S.sum(ds[0], lambda x: x) + S.sum(ds[1], lambda x: x)

    for order in (False, True):
        def mixed(order=order):
            a, X, n, E0, fams, ls, count, total = two_families(order, order)
            ENG.assume(count > 0)
            b = a.compute_branching_ratios('nick')
            S.check('mixed/levels', S.len(b) == count)
            i = Int('k')
            ENG.assume(And(i >= 0, i < n))
            for (E, A), l in zip(fams, ls):
                if E(i) < E0:
                    S.check('mixed/value', b[l[i].name] == A(i) / total)
            S.check('mixed/sum', S.sum(b.values(), lambda x: x) == 1)
        S.run(f'mixed/{order}', mixed)

        def mixed_life(order=order):
            a, X, n, E0, fams, ls, count, total = two_families(order, order)
            m = a.state_lifetime('nick').to('s').magnitude
            if isinstance(m, float) and m == math.inf:
                S.check('mixed/infinite', count == 0)
            else:
                S.check('mixed/lifetime', m * total == 2 * NP.pi)
        S.run(f'mixed-lifetime/{order}', mixed_life)
