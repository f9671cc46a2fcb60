"""C14 all ways of addressing a level reach the same level

The atom has an arbitrary number of further levels with arbitrary energies.
"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, Str, And, Or, Not
    from pyvc import contracts as K
    from pyvc.rope import mkstr, Frac, to_str
    from props.common import level, listof, family
    at = S.lib
    Q_ = at.Q_
    len, list = S.len, S.list
    S.use(*proofs.TEXT)

    def fr(x):
        return mkstr([Frac(K.half_of(x))])

    def atom(how, nuclear=True):
        """an atom with n levels of one kind and one further level"""
        n = Int('n')
        ENG.assume(n >= 0)
        I = Half('2I') if nuclear else 0.0
        J = Half('2J')
        E = family('En')
        ls = listof(n, lambda i: level(at, 0.5, E(i), conf='c' + to_str(i), hf=False, lande=1.0))
        X = level(at, J, Real('E'), conf='x', hf=False)
        a = at.atom.Atom('X', I=I, levels=ls)
        if how == 'append':
            a.levels.append(X)
        elif how == 'set':
            a.levels['nick'] = X
        elif how == 'alias':
            a.add_level(X, alias='nick')
        else:
            a.add_level(X)
        return a, X, ls, n, I, J

    for how in ('add', 'append', 'set', 'alias'):
        def names(how=how):
            a, X, ls, n, I, J = atom(how)
            name = 'x 2D' + fr(J)
            S.eq('name', X.name, name)
            S.check('by-name', a.levels[name] is X)
            S.check('count', And(len(a.levels) == n + 1, len(a.levels.keys()) == n + 1, len(a.levels.values()) == n + 1))
            i = Int('k')
            ENG.assume(And(i >= 0, i < n))
            S.check('by-name', a.levels['c' + to_str(i) + ' 2D1/2'] is ls[i])
            S.check('by-name', ls[i] is not X)
            if how in ('set', 'alias'):
                S.check('by-alias', a.levels['nick'] is X)
            X.alias = 'late'
            ls[i].alias = 'other'
            S.check('by-alias', a.levels['late'] is X)
            S.check('by-alias', a.levels['other'] is ls[i])
            S.check('by-name', a.levels[name] is X)
            v = S.generic(a.levels.values())
            S.check('name-is-key', a.levels[v.name] is v)
            S.raises('unknown', KeyError, lambda: a.levels['nothing'])
            S.raises('unknown', KeyError, lambda: a.levels['c' + to_str(n) + ' 2D1/2'])
        S.run(f'names/{how}', names)

    for conf in ('x', 'Str'):
        def sub(conf=conf):
            I, J = Half('2I'), Half('2J')
            c = Str('conf', lacks='=') if conf == 'Str' else conf
            a = at.atom.Atom('X', I=I)
            o = level(at, 0.5, Real('Eo'), conf='o', sym='4F', hf=False)
            X = level(at, J, Real('E'), conf=c, hf=False)
            a.add_level(o)
            a.add_level(X)
            X.alias = 'nick'
            h = S.generic(X.values())
            F = h.term.F
            n = X.name + ' F=' + fr(F)
            S.eq('hyperfine/name', h.name, n)
            S.check('hyperfine', And(a.levels[n] is h, X['F=' + fr(F)] is h, a.levels[X.name]['F=' + fr(F)] is h, a.levels['nick']['F=' + fr(F)] is h))
            z = S.generic(h.values())
            m = z.term.mF
            nz = n + ' mF=' + fr(m)
            S.eq('zeeman/name', z.name, nz)
            S.check('zeeman', And(a.levels[nz] is z, h['mF=' + fr(m)] is z, X['F=' + fr(F)]['mF=' + fr(m)] is z))
            # keys that denote nothing
            b = Half('x')
            ENG.assume(Or(b < I - J, b < J - I, b > I + J))
            S.raises('unknown-sublevel', KeyError, lambda: a.levels[X.name + ' F=' + fr(b)])
            S.raises('unknown-sublevel', KeyError, lambda: a.levels['nothing F=' + fr(F)])
            S.raises('unknown-sublevel', KeyError, lambda: a.levels['nothing F=' + fr(F) + ' mF=' + fr(m)])
            y = Half('y', None)
            ENG.assume(Or(y > F, y < -F))
            S.raises('unknown-sublevel', KeyError, lambda: a.levels[n + ' mF=' + fr(y)])
        S.run(f'sublevels/{conf}', sub)

        def mj(conf=conf):
            J = Half('2J')
            c = Str('conf', lacks='=') if conf == 'Str' else conf
            a = at.atom.Atom('X', I=0.0)
            X = level(at, J, Real('E'), conf=c, hf=False)
            a.add_level(X)
            k = Int('k')
            ENG.assume(And(k >= 0, k <= 2 * J))
            m = k - J
            z = a.levels[X.name + ' mJ=' + fr(m)]
            S.check('mJ', And(z.term.mF == m, z.manifold is X))
            S.check('mJ', And(X['mJ=' + fr(m)] is z, X['F=' + fr(J)]['mF=' + fr(m)] is z, a.levels[X.name + ' F=' + fr(J) + ' mF=' + fr(m)] is z))
            y = Half('y', None)
            ENG.assume(Or(y > J, y < -J))
            S.raises('unknown-sublevel', KeyError, lambda: a.levels[X.name + ' mJ=' + fr(y)])
        S.run(f'mJ/{conf}', mj)

    def text():
        # levels with arbitrary distinct configurations
        a = at.atom.Atom('X', I=0.0)
        c = [Str('conf0', lacks='='), Str('conf1', lacks='=')]
        ls = [level(at, Half(f'2J{i}'), Real(f'E{i}'), conf=c[i], hf=False) for i in (0, 1)]
        ENG.assume(Not(ls[0].name == ls[1].name))
        for l in ls:
            a.add_level(l)
        for l in ls:
            S.check('text/by-name', a.levels[l.name] is l)
        S.check('text/count', len(a.levels) == 2)
    S.run('text', text)

    for how in ('add', 'alias'):
        def positions(how=how):
            a, X, ls, n, I, J = atom(how)
            k, l = Int('k'), Int('l')
            ENG.assume(And(k >= 0, k < l, l <= n))
            x, y = a.levels[k], a.levels[l]
            S.check('position/order', x.level_Hz <= y.level_Hz)
            S.check('position/distinct', x is not y)
            S.check('position/member', And(a.levels[x.name] is x, a.levels[y.name] is y))
            S.check('position/same', a.levels[k] is x)
            S.check('position/from-the-end', a.levels[k - n - 1] is x)
            part = a.levels[k:l]
            S.check('position/slice', And(len(part) == l - k, part[0] is x))
            j = Int('j')
            ENG.assume(And(j >= 0, j < l - k))
            S.check('position/slice', part[j] is a.levels[k + j])
            S.check('position/slice', len(a.levels[:k]) == k)
            S.check('position/slice', len(a.levels[k:]) == n + 1 - k)
            S.check('position/slice', a.levels[k:][j] is a.levels[k + j])
            S.raises('position/none', IndexError, lambda: a.levels[n + 1])
            S.raises('position/none', IndexError, lambda: a.levels[-n - 2])
        S.run(f'positions/{how}', positions)
