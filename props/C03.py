"""C03 terms name, compare and copy themselves consistently

Configuration and term symbol are arbitrary texts where the obligation allows it, otherwise texts of the documented forms with
symbolic numbers and letters.  Multi-component terms are treated with one, two and three components (bounded in this one respect),
with arbitrary percentages.
"""
ASSUMES = ['multi-component terms: one, two and three components (bounded in this one respect), percentages arbitrary']
from props import proofs


def prove(S):
    import itertools
    from pyvc.harness import ENG, Real, Half, Int, Str, Char, And, Or, Not, Implies
    from pyvc.rope import mkstr, Dec, Frac
    from pyvc import contracts as K
    at = S.lib
    T, M = at.term.Term, at.term.MultiTerm
    S.use(*proofs.TEXT)
    LET = 'SPDFGHIKLMNOQRTUVWXYZ'
    QN = ('lc', 'sc', 'lo', 'so', 'jc', 'jo', 'l', 's', 'k')

    def fr(x):
        return Frac(K.half_of(x))

    def symbol(form, tag=''):
        """(term symbol, parity, coupling)"""
        n, c = Int('mult' + tag), Char('letter' + tag, LET)
        ENG.assume(n >= 1)
        k = Half('k' + tag)
        star = form.endswith('*')
        s = ['*'] if star else []
        f = form.rstrip('*')
        toks = {'LS': [Dec(n.t), c, *s], 'JK': [Dec(n.t), '[', fr(k), ']', *s],
                'LK': [c, *s, ' ', Dec(n.t), '[', fr(k), ']'], 'JJ': ['(', fr(k), ', ', fr(Half('k2' + tag)), ')', *s]}[f]
        t = ''
        for x in toks:
            t = t + (x if isinstance(x, str) or not isinstance(x, (Dec, Frac)) else mkstr([x]))
        return t, -1 if star else 1, f

    def quanta(tag=''):
        return tuple(Real(q + tag) for q in QN)

    FORMS = ('LS', 'LS*', 'JK', 'JK*', 'LK', 'LK*', 'JJ', 'JJ*')

    def make(form, F=False, mF=False, tag='', J=None, pct=100.0, as_text=False):
        conf = Str('conf' + tag)
        term, parity, coupling = symbol(form, tag)
        J = Half('J') if J is None else J
        kw = {}
        if F:
            kw['F'] = Half('F')
        if mF:
            kw['mF'] = Half('mF', None)
        q = quanta(tag)
        arg = {k: mkstr([fr(v)]) if as_text else v for k, v in kw.items()}
        t = T(conf, term, mkstr([fr(J)]) if as_text else J, percentage=pct, quantum_nums=q, **arg)
        return t, dict(conf=conf, term=term, J=J, parity=parity, coupling=coupling, percentage=pct, **dict(zip(QN, q))), kw

    def name_of(spec, kw):
        n = spec['conf'] + ' ' + spec['term'] + mkstr([fr(spec['J'])])
        for k in ('F', 'mF'):
            if k in kw:
                n = n + f' {k}=' + mkstr([fr(kw[k])])
        return n

    def short_of(spec, kw):
        for k in ('mF', 'F'):
            if k in kw:
                return f'{k}=' + mkstr([fr(kw[k])])
        return spec['term'] + mkstr([fr(spec['J'])])

    def describe(ob, t, spec, kw, keep=None):
        """t is as the specification says"""
        S.eq(ob + '/name', t.name, name_of(spec, kw))
        S.eq(ob + '/short-name', t.short_name, short_of(spec, kw))
        for k, v in spec.items():
            S.eq(ob + '/' + ('J' if k == 'J' else 'attributes'), getattr(t, k), v)
        for k in ('F', 'mF'):
            if k in kw:
                S.check(ob + '/F-mF', getattr(t, k) == kw[k])
                S.eq(ob + '/F-mF', getattr(t, k + '_frac'), mkstr([fr(kw[k])]))
            else:
                S.check(ob + '/F-mF', getattr(t, k) is None)
                S.check(ob + '/F-mF', getattr(t, k + '_frac') is None)

    for form in FORMS:
        for F, mF in ((0, 0), (1, 0), (1, 1), (0, 1)):
            def naming(form=form, F=F, mF=mF):
                for txt in (False, True):
                    t, spec, kw = make(form, F, mF, as_text=txt, pct=Real('pct'))
                    describe('term', t, spec, kw)
            S.run(f'naming/{form}{"F" * F}{"m" * mF}', naming)

    def snap(t):
        return [getattr(t, k) for k in ('conf', 'term', 'J', 'F', 'mF', 'parity', 'coupling', 'percentage', 'name', 'short_name', 'term_name',
                                        'J_frac', 'F_frac', 'mF_frac') + QN]

    def unchanged(ob, t, s0):
        for x, y in zip(snap(t), s0):
            S.check(ob, True if x is y else (x is None) == (y is None))
            if x is not y and x is not None and y is not None:
                S.eq(ob, x, y)

    for form in ('LS', 'LS*', 'JJ', 'JK*', 'LK'):
        def copies(form=form):
            t, spec, kw = make(form, pct=Real('pct'))
            s0 = snap(t)
            F, m = Half('F1'), Half('m1', None)
            c = t.make_term_copy(F=F)
            describe('copy', c, spec, {'F': F})
            unchanged('copy/original', t, s0)
            s1 = snap(c)
            z = c.make_term_copy(mF=m)
            describe('copy', z, spec, {'F': F, 'mF': m})
            unchanged('copy/original', c, s1)
            z = c.make_term_copy(F=Half('F2'), mF=m)
            describe('copy', z, spec, {'F': F, 'mF': m})
            unchanged('copy/original', t, s0)
        S.run(f'copies/{form}', copies)

    for n in (1, 2, 3):
        for F in (0, 1):
            def multi(n=n, F=F):
                J = Half('J')
                comps = [make(('LS', 'LS*', 'JJ')[i], F, 0, str(i), J, Real(f'pct{i}')) for i in range(n)]
                ts = [c[0] for c in comps]
                snaps = [snap(t) for t in ts]
                mt = M(*ts)
                S.check('multi/components', len(mt) == n)
                order = [mt[i] for i in range(n)]
                S.check('multi/components', all(any(x is t for x in order) for t in ts))
                for x, y in zip(order, order[1:]):
                    S.check('multi/order', x.percentage >= y.percentage)
                lead = order[0]
                for k in ('conf', 'term', 'J', 'F', 'mF', 'parity', 'coupling', 'percentage', 'name', 'short_name', 'term_name',
                          'J_frac', 'F_frac', 'mF_frac', 'quantum_nums') + QN:
                    S.check('multi/leading', getattr(mt, k) is getattr(lead, k))
                new = {'mF': Half('m1', None)} if F else {'F': Half('F1')}
                c = mt.make_term_copy(**new)
                S.check('multi/copy-components', len(c) == n)
                kw = {**comps[0][2], **new}
                left = list(range(n))
                for i in range(n):
                    # the copy of each component, found by its configuration text
                    j = next(j for j in left if c[i].conf is comps[j][1]['conf'])
                    left.remove(j)
                    describe('multi/copy', c[i], comps[j][1], kw)
                for x, y in zip(c.terms, c.terms[1:]):
                    S.check('multi/order', x.percentage >= y.percentage)
                for t, s0 in zip(ts, snaps):
                    unchanged('multi/original', t, s0)
                S.check('multi/original', all(mt[i] is order[i] for i in range(n)) and len(mt) == n)
            S.run(f'multi/{n}{"F" * F}', multi)
