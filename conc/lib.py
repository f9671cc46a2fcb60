"""Concrete contract checking of the unmodified code: generators, independent oracles, recording.

Runs in its own process (no transformation, no models), imports atomtoolkit from /repo.  It evaluates the contracts of a
property on concrete inputs: to replay counterexamples of the deductive checker and as a bounded stand-in for obligations
the checker could not discharge.
"""
import contextlib
import io
import math
import os
import random
import sys
import traceback
import warnings
from fractions import Fraction as Fr
from functools import lru_cache

REPO = os.environ.get('VERIF_REPO', '/repo')
LETTERS = 'SPDFGHIKLMNOQRTUVWXYZ'


class Conc:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random(f'{prop}-{seed}')
        self.fails, self.evals, self.distinct, self.samples = [], 0, set(), []
        self.where = None
        self.hints = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else 6 * quick) if self.thorough else quick

    def rec(self, name, inp):
        self.evals += 1
        d = (name, repr(inp))
        if d not in self.distinct and len(self.distinct) < 400000:
            self.distinct.add(d)
            if len(self.samples) < 4000:
                self.samples.append(d)

    def fail(self, name, inp, got=None, exp=None):
        if sum(f['obligation'] == name for f in self.fails) < 3 and len(self.fails) < 30:
            self.fails.append({'obligation': name, 'input': repr(inp)[:2000], 'got': repr(got)[:600], 'expected': repr(exp)[:600]})

    def check(self, name, cond, inp, got=None, exp=None):
        self.rec(name, inp)
        if not cond:
            self.fail(name, inp, got, exp)
        return bool(cond)

    def eq(self, name, got, exp, inp):
        return self.check(name, got == exp and type(got == exp) is not NotImplemented, inp, got, exp)

    def close(self, name, got, exp, inp, rel=1e-9, abs_=1e-12):
        try:
            ok = math.isclose(got, exp, rel_tol=rel, abs_tol=abs_)
        except TypeError:
            ok = abs(got - exp) <= max(abs_, rel * max(abs(got), abs(exp)))
        return self.check(name, ok, inp, got, exp)

    def raises(self, name, exc, fn, inp):
        self.rec(name, inp)
        try:
            r = fn()
        except exc:
            return True
        except Exception as e:
            self.fail(name, inp, f'{type(e).__name__}: {e}', f'raises {exc}')
            return False
        self.fail(name, inp, r, f'raises {exc}')
        return False

    @contextlib.contextmanager
    def case(self, name, inp):
        """code exceptions inside are violations of `name`"""
        try:
            yield
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            at = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb][-3:]
            self.rec(name, inp)
            self.fail(name + '/no-exception', inp, f'{type(e).__name__}: {e} at {at}', 'no exception')


# ------------------------------------------------------------------------------------------------ oracles

def f_(n):
    n = Fr(n)
    assert n.denominator == 1 and n >= 0, n
    return math.factorial(int(n))


def tri(a, b, c):
    return a + b >= c and b + c >= a and a + c >= b and (a + b + c).denominator == 1


def H(x):
    return Fr(x).limit_denominator(2) if not isinstance(x, Fr) else x


def _delta(a, b, c):
    return Fr(f_(a + b - c) * f_(a - b + c) * f_(-a + b + c), f_(a + b + c + 1))


@lru_cache(None)
def w3sq(j1, j2, j3, m1, m2, m3):
    """(sign, square) of the 3j symbol"""
    j1, j2, j3, m1, m2, m3 = map(H, (j1, j2, j3, m1, m2, m3))
    if m1 + m2 + m3 != 0 or not tri(j1, j2, j3) or any(abs(m) > j or (j - m).denominator != 1 for j, m in ((j1, m1), (j2, m2), (j3, m3))):
        return 0, Fr(0)
    pre = _delta(j1, j2, j3) * f_(j1 + m1) * f_(j1 - m1) * f_(j2 + m2) * f_(j2 - m2) * f_(j3 + m3) * f_(j3 - m3)
    s = Fr(0)
    t0, t1 = max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2)
    t = Fr(t0)
    while t <= t1:
        s += Fr((-1) ** int(t), f_(t) * f_(j3 - j2 + t + m1) * f_(j3 - j1 + t - m2) * f_(j1 + j2 - j3 - t) * f_(j1 - t - m1) * f_(j2 - t + m2))
        t += 1
    sg = (-1) ** int(j1 - j2 - m3)
    v = s * s * pre
    return (0 if v == 0 else sg * (1 if s > 0 else -1)), v


def w3(*a):
    s, v = w3sq(*map(H, a))
    return s * math.sqrt(v)


@lru_cache(None)
def w6sq(a, b, c, d, e, f):
    a, b, c, d, e, f = map(H, (a, b, c, d, e, f))
    ts = ((a, b, c), (a, e, f), (d, b, f), (d, e, c))
    if min(a, b, c, d, e, f) < 0 or not all(tri(*t) for t in ts):
        return 0, Fr(0)
    pre = Fr(1)
    for t in ts:
        pre *= _delta(*t)
    s = Fr(0)
    t = max(a + b + c, a + e + f, d + b + f, d + e + c)
    hi = min(a + b + d + e, b + c + e + f, a + c + d + f)
    while t <= hi:
        den = 1
        for x in ts:
            den *= f_(t - sum(x))
        den *= f_(a + b + d + e - t) * f_(b + c + e + f - t) * f_(a + c + d + f - t)
        s += Fr((-1) ** int(t) * f_(t + 1), den)
        t += 1
    v = s * s * pre
    return (0 if v == 0 else (1 if s > 0 else -1)), v


def w6(*a):
    s, v = w6sq(*map(H, a))
    return s * math.sqrt(v)


@lru_cache(None)
def w9(*a):
    j11, j12, j13, j21, j22, j23, j31, j32, j33 = map(H, a)
    tot = 0.0
    x = max(abs(j11 - j33), abs(j21 - j32), abs(j12 - j23))
    hi = min(j11 + j33, j21 + j32, j12 + j23)
    while x <= hi:
        tot += (-1) ** int(2 * x) * (2 * x + 1) * w6(j11, j21, j31, j32, j33, x) * w6(j12, j22, j32, j21, x, j23) * w6(j13, j23, j33, x, j11, j12)
        x += 1
    return float(tot)


def frac(x):
    """canonical text of a half-integer"""
    x = H(x)
    return str(x.numerator) if x.denominator == 1 else f'{x.numerator}/2'


def rng_list(lo, hi):
    """lo, lo+1, ..., hi"""
    r, x = [], H(lo)
    while x <= H(hi):
        r.append(x)
        x += 1
    return r


def Fs(I, J):
    return rng_list(abs(H(J) - H(I)), H(J) + H(I))


def mFs(F):
    return rng_list(-H(F), H(F))


MU_B = 1.39962449361e6  # Hz/G


def casimir(I, J, F):
    I, J, F = H(I), H(J), H(F)
    K = (F * (F + 1) - I * (I + 1) - J * (J + 1)) / 2
    N = I * (I + 1) * J * (J + 1)
    q = o = Fr(0)
    if I >= 1 and J >= 1:
        q = (3 * K * K + Fr(3, 2) * K - N) / (2 * I * (2 * I - 1) * J * (2 * J - 1))
    if I >= Fr(3, 2) and J >= Fr(3, 2):
        o = (10 * K ** 3 + 20 * K ** 2 + 2 * K * (-3 * N + I * (I + 1) + J * (J + 1) + 3) - 5 * N) / \
            (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
    return float(K), float(q), float(o)


def hf_shift(I, J, F, A, B, C):
    k, q, o = casimir(I, J, F)
    return A * k + B * q + C * o


def gF_of(gJ, I, J, F):
    I, J, F = H(I), H(J), H(F)
    return 0.0 if F == 0 else gJ * float((F * (F + 1) + J * (J + 1) - I * (I + 1)) / (2 * F * (F + 1)))


def allowed3(J0, J1, p0, p1, same):
    J0, J1 = H(J0), H(J1)
    d = abs(J1 - J0)
    return (d <= 1 and J0 + J1 >= 1 and p0 != p1, d <= 1 and J0 + J1 >= 1 and p0 == p1,
            d <= 2 <= J0 + J1 and p0 == p1 and not same)


def allowed_hf(par, I, J0, J1, F0, F1):
    a, b = w6sq(J0, J1, 1, F1, F0, I)[1] != 0, w6sq(J0, J1, 2, F1, F0, I)[1] != 0
    return par[0] and a, par[1] and a, par[2] and b


def allowed_z(par, F0, F1, m0, m1):
    def nz(k):
        return any(w3sq(F1, k, F0, -H(m1), q, m0)[1] != 0 for q in range(-k, k + 1))
    return par[0] and nz(1), par[1] and nz(1), par[2] and nz(2)


# ------------------------------------------------------------------------------------------------ building atoms

def half(rng, lo=0, hi=9):
    return Fr(rng.randint(lo, hi), 2)


CONFS = ['1s', '2s', '2p', '3p', '3d', '4d', '4f', '5f', '5g', '6s', '6p', '7s', '7p.8d', '9s2']


def lib():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    warnings.simplefilter('ignore')
    import atomtoolkit
    import atomtoolkit.atom
    return atomtoolkit


class LV:
    """specification of one level"""
    def __init__(self, name, conf, term, J, E, A=0.0, B=0.0, C=0.0, g=None, alias=None):
        self.name, self.conf, self.term, self.J, self.E = name, conf, term, J, E
        self.A, self.B, self.C, self.g, self.alias = A, B, C, g, alias

    @property
    def parity(self):
        return -1 if '*' in self.term else 1

    def __repr__(self):
        return f'({self.name!r}, E={self.E}Hz, A={self.A}, B={self.B}, C={self.C}, g={self.g}, alias={self.alias})'


def term_for(rng, J, odd=None):
    """an LS term that can have this J"""
    J = H(J)
    s2 = rng.choice([x for x in range(0, 5) if (x - 2 * J) % 2 == 0])
    S = Fr(s2, 2)
    L = rng.choice([l for l in range(0, 12) if abs(l - S) <= J <= l + S])
    odd = rng.random() < .5 if odd is None else odd
    return f'{s2 + 1}{LETTERS[L]}' + ('*' if odd else '')


def rand_levels(rng, n, I, maxJ2=7, hf=1e9, spacing=1e13, alias=False, intJ=None):
    out, used = [], set()
    base = rng.choice([0.0, 1e12])
    kind = rng.randint(0, 1) if intJ is None else intJ
    for i in range(n):
        while True:
            J = Fr(2 * rng.randint(0, maxJ2 // 2) + kind, 2)
            conf, term = rng.choice(CONFS), term_for(rng, J)
            name = f'{conf} {term}{frac(J)}'
            if name not in used:
                used.add(name)
                break
        E = base + i * spacing + rng.random() * spacing * .4
        r = lambda s: rng.choice([0.0, rng.uniform(-1, 1) * s, rng.uniform(-1, 1) * s])  # noqa
        out.append(LV(name, conf, term, J, E, r(hf), r(hf * .5), r(hf * .01), rng.choice([None, rng.uniform(-.5, 3)]),
                      f'alias{i}' if alias and rng.random() < .7 else None))
    rng.shuffle(out)
    return out


def mk_level(at, lv):
    Q_ = at.Q_
    return at.atom.EnergyLevel(at.atom.Term(lv.conf, lv.term, float(lv.J)), Q_(lv.E, 'Hz'), lande=lv.g, alias=lv.alias,
                               hfA=Q_(lv.A, 'Hz'), hfB=Q_(lv.B, 'Hz'), hfC=Q_(lv.C, 'Hz'))


def mk_atom(at, levels, I=0, B=0.0):
    a = at.atom.Atom('X', I=float(I), B=at.Q_(B, 'G'))
    for lv in levels:
        a.add_level(mk_level(at, lv))
    return a


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        yield


def chosen(hints, *names):
    """values the deductive checker proposed for the named inputs"""
    out = []
    for h in hints:
        if all(n in h for n in names):
            out.append(tuple(h[n] for n in names))
    return out
