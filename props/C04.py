"""C04 sublevels are complete: every F and mF exactly once"""
from props import proofs


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, Str, And, Or, Not
    from pyvc import contracts as K
    from pyvc.rope import mkstr, Frac
    from props.common import level, coefs
    at = S.lib
    Q_ = at.Q_
    len, list, iter = S.len, S.list, S.list
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF)

    def fr(x):
        return mkstr([Frac(K.half_of(x))])

    def any_index(n, tag='k'):
        k = Int(tag)
        ENG.assume(And(k >= 0, k < n))
        return k

    TOUCH = {
        'values': lambda x: x.values(),
        'sublevels': lambda x: x.sublevels(),
        'keys': lambda x: x.keys(),
        'items': lambda x: x.items(),
        'iter': lambda x: iter(x),
        'len': lambda x: len(x),
    }

    def make(how, comps=1):
        """a level of an atom, with the sublevels requested or to be generated on demand"""
        I, J, E = Half('2I'), Half('2J'), Real('E')
        a = at.atom.Atom('X', I=I)
        conf, sym = Str('conf'), '2D'
        hf = dict(zip(('hfA', 'hfB', 'hfC'), [Q_(x, 'Hz') for x in coefs()]))
        ts = [at.term.Term(conf if i == 0 else f'c{i}', sym, J, percentage=50.0 - 10 * i) for i in range(comps)]
        l = at.atom.EnergyLevel(ts[0] if comps == 1 else at.term.MultiTerm(*ts), Q_(E, 'Hz'), lande=Real('g'), **hf)
        if how == 'requested':
            a.add_level(l, populate_sublevels=True)
        elif how == 'atom':
            a = at.atom.Atom('X', I=I, levels=[l])
        else:
            a.add_level(l)
        return a, l, I, J, conf + ' ' + sym + fr(J)

    def check(ob, x, q, first, n, up, top, atom, names):
        """the sublevels of x are those with q = first, first+1, ... (n of them)"""
        S.check(ob + '/count', len(x) == n)
        keys, vals, subs, items, it = list(x.keys()), list(x.values()), x.sublevels(), list(x.items()), list(x)
        for s in (keys, vals, subs, items, it):
            S.check(ob + '/count', len(s) == n)
        k = any_index(n, 'k' + q)
        v = first + k
        key = f'{q}=' + fr(v)
        S.eq(ob + '/key', keys[k], key)
        S.eq(ob + '/key', it[k], key)
        S.eq(ob + '/key', items[k][0], key)
        s = vals[k]
        S.check(ob + '/same-objects', subs[k] is s)
        S.check(ob + '/same-objects', items[k][1] is s)
        S.check(ob + '/same-objects', x[key] is s)
        S.check(ob + '/value', getattr(s.term, q) == v)
        S.check(ob + '/parent', And(s.parent is x, s.manifold is top, s.atom is atom))
        S.eq(ob + '/name', s.name, names + f' {q}=' + fr(v))
        return s, v

    for how in ('values', 'sublevels', 'keys', 'items', 'iter', 'len', 'index', 'requested', 'atom'):
        def sub(how=how):
            a, l, I, J, name = make(how)
            big = I >= J
            lo, n = (I - J, 2 * J + 1) if big else (J - I, 2 * I + 1)
            if how in TOUCH:
                TOUCH[how](l)
            elif how == 'index':
                # the very first access is by key
                l['F=' + fr(lo + any_index(n, 'k0'))]
            s, F = check('hyperfine', l, 'F', lo, n, l, l, a, name)
            S.check('hyperfine/term', And(s.term.J == J, s.term.mF is None))
            S.eq('level/name', l.name, name)
            if how in TOUCH:
                TOUCH[how](s)
            elif how == 'index':
                s['mF=' + fr(-F + any_index(2 * F + 1, 'k1'))]
            z, m = check('zeeman', s, 'mF', -F, 2 * F + 1, s, l, a, s.name)
            S.check('zeeman/term', And(z.term.J == J, z.term.F == F))
            S.check('zeeman/leaf', len(z) == 0)
        S.run(f'sublevels/{how}', sub)

    def total():
        a, l, I, J, name = make('values')
        S.check('multiplicity', S.sum(l.values(), lambda s: len(s)) == (2 * I + 1) * (2 * J + 1))
    S.run('total', total)

    def foreign():
        # keys that denote no sublevel
        a, l, I, J, name = make('values')
        h = Half('x')
        ENG.assume(Or(h < I - J, h < J - I, h > I + J))
        S.raises('no-other-key', KeyError, lambda: l['F=' + fr(h)])
        s = S.generic(l.values())
        m = Half('y', None)
        ENG.assume(Or(m > s.term.F, m < -s.term.F))
        S.raises('no-other-key', KeyError, lambda: s['mF=' + fr(m)])
    S.run('foreign', foreign)

    def multi():
        a, l, I, J, name = make('values', 2)
        big = I >= J
        lo, n = (I - J, 2 * J + 1) if big else (J - I, 2 * I + 1)
        s, F = check('components/hyperfine', l, 'F', lo, n, l, l, a, name)
        z, m = check('components/zeeman', s, 'mF', -F, 2 * F + 1, s, l, a, s.name)
        S.check('components/kept', And(len(s.term) == 2, len(z.term) == 2))
        S.check('components/term', And(z.term.F == F, z.term.J == J))
    S.run('components', multi)

    def two():
        # levels do not share sublevels
        I, J0, J1 = Half('2I'), Half('2J0'), Half('2J1')
        a = at.atom.Atom('X', I=I)
        l0, l1 = level(at, J0, Real('E0'), '0', 1, '3d', '2D'), level(at, J1, Real('E1'), '1', 1, '4f', '2F')
        a.add_level(l0)
        a.add_level(l1, populate_sublevels=True)
        S.check('separate', S.sum(l0.values(), lambda s: len(s)) == (2 * I + 1) * (2 * J0 + 1))
        S.check('separate', S.sum(l1.values(), lambda s: len(s)) == (2 * I + 1) * (2 * J1 + 1))
        h0, h1 = S.generic(l0.values()), S.generic(l1.values())
        S.check('separate', And(h0.parent is l0, h1.parent is l1, h0.term.J == J0, h1.term.J == J1))
    S.run('two-levels', two)
