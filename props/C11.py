"""C11 subtransitions are exactly the allowed pairs of sublevels"""
from props import proofs

HOWS = ('values', 'items', 'keys', 'iter', 'len', 'getitem', 'subtransitions', 'explicit')


def prove(S):
    from pyvc.harness import ENG, Real, Half, Int, Str, And, Or, Not, Iff
    from pyvc import contracts as K
    from pyvc.core import mkbool, bterm
    from props.common import two_levels, one_level
    at = S.lib
    Q_ = at.Q_
    len, list = S.len, S.list
    S.use(*proofs.TEXT, proofs.SHIFT, proofs.GF, proofs.ZS, proofs.FINE, proofs.HF, proofs.ZEE)

    def any_(ts):
        return Or(*[mkbool(bterm(x)) for x in ts])

    def access(t, how):
        if how == 'values':
            t.values()
        elif how == 'first':
            pass        # the obligation's own access is the first one
        elif how == 'items':
            t.items()
        elif how == 'keys':
            t.keys()
        elif how == 'iter':
            S.list(t)
        elif how == 'len':
            S.len(t)
        elif how == 'getitem':
            try:
                t['F=1', 'F=2']
            except KeyError:
                pass
        elif how == 'subtransitions':
            t.subtransitions()
        else:
            t.populate_subtransitions()

    def key(t, s):
        internal = t.E_1 is t.E_2
        lo, up = (s.E_lower, s.E_upper) if internal else (s.E_1, s.E_2) if t.E_lower is t.E_1 else (s.E_2, s.E_1)
        return lo.term.short_name, up.term.short_name

    def there(name, t, rules, lookup=False):
        """an arbitrary pair of sublevels is there exactly if it is allowed"""
        internal = t.E_1 is t.E_2
        keys = t.keys()         # before the pair is chosen
        x, y = S.generic(t.E_1.values()), S.generic(t.E_2.values())
        lo, up = (x, y) if internal or t.E_lower is t.E_1 else (y, x)
        k = (lo.term.short_name, up.term.short_name)
        one, two = k in keys, internal and k[::-1] in keys
        S.check(name + '/exactly-allowed', Iff(Or(one, two), any_(rules(x, y))))
        if internal:
            S.check(name + '/once', Or(x is y, Not(And(one, two))))
        if lookup and (one or two):
            s = t[k]
            S.check(name + '/sublevels', Or(And(s.E_1 is x, s.E_2 is y), And(internal, s.E_1 is y, s.E_2 is x)))

    def sound(name, t, atom):
        """what is there belongs there"""
        s = S.generic(t.values())
        S.check(name + '/belongs', And(s.parent is t, s.atom is atom))
        S.check(name + '/joins', And(s.E_1.parent is t.E_1, s.E_2.parent is t.E_2))
        S.check(name + '/allowed', any_(s.allowed_types))
        S.check(name + '/filed', t[key(t, s)] is s)

    def case(name, make, how, checks, rules):
        def run(check):
            t, atom = make()
            access(t, how)
            if check == 'sound':
                sound(name, t, atom)
            elif check == 'complete':
                there(name, t, rules(t), True)
            elif check == 'there':
                there(name, t, rules(t))
            else:
                S.check(f'{name}/same', And(len(t) == len(t.keys()), len(t) == len(t.values()), len(t) == len(t.items()), len(t) == len(t.subtransitions())))
        for check in checks:
            S.run(f'{name}/{how}/{check}', lambda check=check: run(check))

    def hyperfine(p0, p1, again=None, internal=False, hf=False):
        def make():
            a, l0, l1, I, J0, J1, E0, E1 = two_levels(at, p0, p1, 0.0, hf=hf)
            t = at.atom.Transition(l0, l0 if internal else l1)
            a.add_transition(t)
            if again is not None:
                t.values()
                a2 = a
                if again == 'another':
                    a2 = at.atom.Atom('Y', I=I)
                    a2.add_level(l0)
                    a2.add_level(l1)
                a2.add_transition(t)
                return t, a2
            return t, a
        return make

    def hf_rules(t):
        I, J0, J1 = t.E_1.atom.I, t.E_1.term.J, t.E_2.term.J
        return lambda x, y: K.hf_rules(t.allowed_types, I, J0, J1, x.term.F, y.term.F)

    def zeeman(p0, p1, internal=False):
        def make():
            a, l0, l1, I, J0, J1, E0, E1 = two_levels(at, p0, p1, 0.0, hf=False)
            t = at.atom.Transition(l0, l0 if internal else l1)
            a.add_transition(t)
            x = S.generic(l0.values())
            y = x if internal else S.generic(l1.values())
            return at.atom.HFTransition(x, y, parent=t), a
        return make

    def z_rules(t):
        ty, F0, F1 = t.allowed_types, t.E_1.term.F, t.E_2.term.F
        return lambda x, y: K.z_rules(ty, F0, F1, x.term.mF, y.term.mF)

    case('zeeman-internal', zeeman(1, 1, True), 'first', ('sound', 'there'), z_rules)
    case('zeeman', zeeman(1, -1), 'first', ('sound', 'there'), z_rules)
    case('internal', hyperfine(1, 1, internal=True), 'first', ('sound', 'complete'), hf_rules)
    case('hyperfine-same-parity', hyperfine(1, 1), 'first', ('sound', 'there'), hf_rules)
    case('hyperfine', hyperfine(1, -1, hf=True), 'first', ('sound', 'complete'), hf_rules)
    case('hyperfine', hyperfine(1, -1), 'len', ('same',), hf_rules)
    for how in HOWS:
        case('hyperfine', hyperfine(1, -1), how, ('there', 'sound') if how == 'explicit' else ('there',), hf_rules)
    case('readded', hyperfine(1, -1, 'same'), 'first', ('sound', 'there'), hf_rules)
    case('readded-elsewhere', hyperfine(1, -1, 'another'), 'first', ('sound', 'there'), hf_rules)
