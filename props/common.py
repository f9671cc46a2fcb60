"""Building blocks shared by the property harnesses: symbolic levels and atoms."""
from pyvc.harness import ENG, Real, Half, Int, Str, Char, And, Or, Not, Implies, sqrt, Bool

MU_B = 1.39962449361e6


def coefs(tag=''):
    return [Real(x + tag) for x in 'ABC']


def level(at, J, E, tag='', parity=1, conf='3d', sym='2D', lande='sym', hf=True):
    """an EnergyLevel with symbolic energy, hyperfine coefficients and Lande factor"""
    Q_ = at.Q_
    kw = {}
    if hf:
        A, B, C = coefs(tag)
        kw = dict(hfA=Q_(A, 'Hz'), hfB=Q_(B, 'Hz'), hfC=Q_(C, 'Hz'))
    g = Real('g' + tag) if lande == 'sym' else lande
    if parity == -1:
        sym = sym + '*'
    return at.atom.EnergyLevel(at.term.Term(conf, sym, J), Q_(E, 'Hz'), lande=g, **kw)


def one_level(at, B=None):
    I, J = Half('2I'), Half('2J')
    E = Real('E')
    a = at.atom.Atom('X', I=I, B=at.Q_(Real('field') if B is None else B, 'G'))
    lv = level(at, J, E)
    a.add_level(lv)
    return a, lv, I, J, E


def two_levels(at, p0=1, p1=-1, B=None, hf=True):
    I, J0, J1 = Half('2I'), Half('2J0'), Half('2J1')
    E0, E1 = Real('E0'), Real('E1')
    a = at.atom.Atom('X', I=I, B=at.Q_(Real('field') if B is None else B, 'G'))
    l0 = level(at, J0, E0, '0', p0, '3d', '2D', hf=hf)
    l1 = level(at, J1, E1, '1', p1, '4f', '2F', hf=hf)
    a.add_level(l0)
    a.add_level(l1)
    return a, l0, l1, I, J0, J1, E0, E1


def casimir(I, J, F, A, B, C):
    """specification of the hyperfine shift; branches on the (symbolic) spins"""
    K = (F * (F + 1) - I * (I + 1) - J * (J + 1)) / 2
    spec = A * K
    if J >= 1 and I >= 1:
        spec = spec + B * (3 * K ** 2 + 1.5 * K - I * (I + 1) * J * (J + 1)) / (2 * I * (2 * I - 1) * J * (2 * J - 1))
    if J >= 1.5 and I >= 1.5:
        N = I * (I + 1) * J * (J + 1)
        spec = spec + C * (10 * K ** 3 + 20 * K ** 2 + 2 * K * (-3 * N + I * (I + 1) + J * (J + 1) + 3) - 5 * N) / \
            (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
    return spec


def gfactor(g, I, J, F):
    if F == 0:
        return 0.0
    return g * (F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1))


def family(name, law=None):
    """an arbitrary function of an index; law: what holds of each of its values"""
    import z3
    from pyvc.core import SNum
    f = z3.Function(name, z3.IntSort(), z3.RealSort())
    if law is not None:
        i = z3.Int('i')
        ENG.frames[-1].universals.append(z3.ForAll([i], law(SNum(f(i), 'float')).t, patterns=[f(i)]))
    return lambda i: SNum(f(i.t), 'float')


def listof(n, f):
    """the list [f(0), .., f(n-1)]"""
    from pyvc import seq as Q, runtime as RT
    return Q.comp('list', RT.b_range(n), lambda i: True, f)
