"""Ring normaliser: the first back end.

A z3 arithmetic term is read as a rational function over Q in its maximal non-arithmetic
sub-terms ("atoms").  Two terms whose cross-multiplied difference is the zero polynomial are
equal wherever the denominators are non-zero (the symbolic executor emits a separate, forked
check for every division, so that side condition is always part of the path condition).

Coefficients come from decimal float literals.  A residual coefficient smaller than REL_TOL
times the largest coefficient that entered the comparison is rounding noise of a literal that
the code computes in floating point (6**0.5, 2./3.) and is treated as zero: machine arithmetic
is read as mathematical.
"""
from fractions import Fraction
from math import gcd
import z3

REL_TOL = Fraction(1, 10 ** 11)
ONE = Fraction(1)


class TooBig(Exception):
    pass


MAX_TERMS = 60000


class Poly:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(i):
        return Poly({((i, 1),): ONE})

    def __add__(self, o):
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    def neg(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + o.neg()

    def scale(self, c):
        return Poly({m: v * c for m, v in self.d.items()}) if c else Poly({})

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 4000000:
            raise TooBig()
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono_mul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        if len(d) > MAX_TERMS:
            raise TooBig()
        return Poly(d)

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def is_zero(self):
        return not self.d

    def as_const(self):
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def maxabs(self):
        return max((abs(c) for c in self.d.values()), default=Fraction(0))

    def atoms(self):
        return {a for m in self.d for a, _ in m}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


PERMS = [((0, 1, 2), False), ((1, 2, 0), False), ((2, 0, 1), False), ((0, 2, 1), True), ((1, 0, 2), True), ((2, 1, 0), True)]


def core_parity(n):
    return z3.Function('PARITY', z3.IntSort(), z3.RealSort())(n)


class Ring:
    """Atom table + memoised translation of z3 terms."""

    def __init__(self):
        self.ids = {}          # canonical key -> atom id
        self.terms = []        # atom id -> a representative z3 term (Real or Int sort)
        self.memo = {}         # z3 ast id -> (num, den)
        self.keep = []         # keep asts alive so ids stay unique
        self.sq = {}           # atom id of SQRT(x) -> (num, den) of x
        self.inv = {}
        self.par = set()       # atoms PARITY(..), whose square is 1

    # -- atoms -----------------------------------------------------------------------------
    def atom(self, key, term):
        i = self.ids.get(key)
        if i is None:
            i = len(self.terms)
            self.ids[key] = i
            self.terms.append(term)
        return i

    def key_of(self, t):
        """canonical text of a term (arguments of uninterpreted functions in ring normal form)"""
        if z3.is_arith(t):
            n, d = self.rf(t)
            return ('rf', self.poly_key(n), self.poly_key(d))
        if z3.is_quantifier(t) and t.is_lambda() and t.num_vars() == 1 and z3.is_arith(t.body()):
            # the bound variables of nested lambdas have different names (seq.canon_lambda)
            v = z3.Const(t.var_name(0), t.var_sort(0))
            return ('lam', t.var_name(0), self.key_of(z3.substitute_vars(t.body(), v)))
        return ('x', t.sexpr())

    def poly_key(self, p):
        return tuple(sorted((tuple(m), str(c)) for m, c in p.d.items()))

    # -- translation -----------------------------------------------------------------------
    def rf(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._rf(t)
            r = self.reduce(r)
            self.memo[k] = r
            self.keep.append(t)
        return r

    def reduce(self, r):
        n, d = r
        n, d = self.reduce_sqrt(n, d)
        n, d = self.drop_squares(n), self.drop_squares(d)
        if n.is_zero():
            return n, Poly.const(1)
        c = d.as_const()
        if c is not None and c != 1:
            return n.scale(1 / c), Poly.const(1)
        return n, d

    def reduce_sqrt(self, n, d):
        """SQRT(x)**2 -> x (x >= 0 is an obligation emitted where SQRT is applied)"""
        for _ in range(6):
            hit = None
            for p in (n, d):
                for m in p.d:
                    for a, e in m:
                        if a in self.sq and e >= 2:
                            hit = a
                            break
                    if hit is not None:
                        break
                if hit is not None:
                    break
            if hit is None:
                return n, d
            xn, xd = self.sq[hit]
            n, nd = self.sub_sq(n, hit, xn, xd)
            d, dd = self.sub_sq(d, hit, xn, xd)
            n, d = n * dd, d * nd
        return n, d

    def sub_sq(self, p, a, xn, xd):
        # highest power of a**2
        hi = 0
        for m in p.d:
            for b, e in m:
                if b == a:
                    hi = max(hi, e // 2)
        if hi == 0:
            return p, Poly.const(1)
        out = Poly({})
        for m, c in p.d.items():
            e = dict(m).get(a, 0)
            q, r = divmod(e, 2)
            rest = tuple(x for x in m if x[0] != a)
            if r:
                rest = tuple(sorted(rest + ((a, 1),)))
            out = out + Poly({rest: c}) * xn.pow(q) * xd.pow(hi - q)
        return out, xd.pow(hi)

    def _rf(self, t):
        one = Poly.const(1)
        if z3.is_int_value(t):
            return Poly.const(t.as_long()), one
        if z3.is_rational_value(t):
            return Poly.const(t.as_fraction()), one
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k == z3.Z3_OP_ADD:
                n, d = self.rf(ch[0])
                for c in ch[1:]:
                    n, d = radd((n, d), self.rf(c))
                return n, d
            if k == z3.Z3_OP_SUB:
                n, d = self.rf(ch[0])
                for c in ch[1:]:
                    a, b = self.rf(c)
                    n, d = radd((n, d), (a.neg(), b))
                return n, d
            if k == z3.Z3_OP_UMINUS:
                n, d = self.rf(ch[0])
                return n.neg(), d
            if k == z3.Z3_OP_MUL:
                n, d = one, one
                for c in ch:
                    a, b = self.rf(c)
                    n, d = n * a, d * b
                return n, d
            if k == z3.Z3_OP_DIV:
                a, b = self.rf(ch[0])
                c, e = self.rf(ch[1])
                if c.is_zero():
                    return self.as_atom(t)
                return a * e, b * c
            if k == z3.Z3_OP_POWER:
                e = ch[1]
                if z3.is_int_value(e) or z3.is_rational_value(e):
                    f = e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long())
                    if f.denominator == 1 and abs(f) <= 12:
                        a, b = self.rf(ch[0])
                        n = int(f)
                        return (a.pow(n), b.pow(n)) if n >= 0 else (b.pow(-n), a.pow(-n))
            if k == z3.Z3_OP_TO_REAL:
                return self.rf(ch[0])
            if k == z3.Z3_OP_TO_INT:
                n, d = self.rf(ch[0])
                f = self.floor_poly(n, d, t)
                if f is not None:
                    return f, one
            if k == z3.Z3_OP_IDIV and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
                n, d = self.rf(ch[0])
                f = self.floor_poly(n.scale(Fraction(1, ch[1].as_long())), d, t)
                if f is not None:
                    return f, one
        return self.as_atom(t)

    def floor_poly(self, n, d, t=None):
        """floor(n/d) for a polynomial in integer atoms with rational coefficients, in a canonical form"""
        if d.as_const() != 1:
            return None
        c = 1
        for m, co in n.d.items():
            c = c * co.denominator // gcd(c, co.denominator)
            for a, _ in m:
                if not z3.is_int(self.terms[a]):
                    return None
        if c == 1:
            return n
        if c > 10 ** 6:
            return None
        p = {m: int(co * c) for m, co in n.d.items()}
        b = {m: v % c for m, v in p.items()}
        a = Poly({m: Fraction((v - b[m]) // c) for m, v in p.items() if v != b[m]})
        bp = Poly({m: Fraction(v) for m, v in b.items() if v})
        if not bp.d:
            return a
        x = bp.as_const()
        if x is not None:
            return a + Poly.const(int(x) // c)
        key = ('idiv', self.poly_key(bp), c)
        i = self.ids.get(key)
        if i is None:
            term = self.poly_to_z3(bp, real=False) / z3.IntVal(c)
            self.keep.append(term)
            i = self.atom(key, term)
            self.memo[term.get_id()] = (Poly.atom(i), Poly.const(1))
        return a + Poly.atom(i)

    def floor(self, t):
        """canonical integer term for the floor of a real term"""
        try:
            n, d = self.rf(t)
            f = self.floor_poly(n, d)
        except TooBig:
            f = None
        return z3.ToInt(t) if f is None else self.poly_to_z3(f, real=False)

    def int_valued(self, n, d):
        if d.as_const() != 1:
            return False
        for m, c in n.d.items():
            if c.denominator != 1:
                return False
            for a, _ in m:
                if not z3.is_int(self.terms[a]):
                    return False
        return True

    def parity(self, p):
        """(-1)**p for a polynomial with integer coefficients in integer atoms: the product of the parities of its odd monomials"""
        sign, r = 1, {}
        for m, c in p.d.items():
            if int(c) % 2 == 0:
                continue
            if not m:
                sign = -sign
                continue
            m = tuple((a, 1) for a, _ in m)
            r[m] = r.get(m, 0) + 1
        out = ()
        for m, e in r.items():
            if e % 2:
                key = ('PARITY', m)
                i = self.ids.get(key)
                if i is None:
                    term = core_parity(self.poly_to_z3(Poly({m: Fraction(1)}), real=False))
                    self.keep.append(term)
                    i = self.atom(key, term)
                    self.par.add(i)
                    self.memo[term.get_id()] = (Poly.atom(i), Poly.const(1))
                out = mono_mul(out, ((i, 1),))
        return Poly({out: Fraction(sign)}), Poly.const(1)

    def drop_squares(self, p):
        """PARITY**2 = 1"""
        if not self.par or not any(a in self.par and e > 1 for m in p.d for a, e in m):
            return p
        out = {}
        for m, c in p.d.items():
            m = tuple((a, e % 2 if a in self.par else e) for a, e in m if not (a in self.par and e % 2 == 0))
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return Poly(out)

    def wigner(self, t, name):
        """3j and 6j symbols up to their symmetries"""
        ch = [self.rf(c) for c in t.children()]
        cols = list(zip(ch[:3], ch[3:]))

        def k(r):
            return (self.poly_key(r[0]), self.poly_key(r[1]))

        best = None
        for p, odd in PERMS:
            if name == 'W6':
                for flip in ((0, 0, 0), (1, 1, 0), (1, 0, 1), (0, 1, 1)):
                    cc = [(cols[i][1], cols[i][0]) if s else cols[i] for i, s in zip(p, flip)]
                    a = [c[0] for c in cc] + [c[1] for c in cc]
                    kk = tuple(k(x) for x in a)
                    if best is None or kk < best[0]:
                        best = (kk, a, False)
            else:
                for neg in (False, True):
                    a = [cols[i][0] for i in p] + [(cols[i][1][0].neg(), cols[i][1][1]) if neg else cols[i][1] for i in p]
                    kk = tuple(k(x) for x in a)
                    if best is None or kk < best[0]:
                        best = (kk, a, odd != neg)
        key, a, odd = best
        i = self.ids.get((name,) + key)
        if i is None:
            term = t.decl()(*[self.to_z3(x) for x in a])
            self.keep.append(term)
            i = self.atom((name,) + key, term)
            self.memo[term.get_id()] = (Poly.atom(i), Poly.const(1))
        r = Poly.atom(i)
        if odd:
            J = radd(radd(ch[0], ch[1]), ch[2])
            n = J[0] if self.int_valued(*J) else self.floor_poly(*J)
            if n is None:
                return None
            r = r * self.parity(n)[0]
        return r, Poly.const(1)

    def as_atom(self, t):
        if z3.is_app(t) and t.num_args() > 0:
            name = t.decl().name()
            if name in ('W3', 'W6'):
                r = self.wigner(t, name)
                if r is not None:
                    return r
            if name == 'PARITY':
                n, d = self.rf(t.children()[0])
                if self.int_valued(n, d):
                    return self.parity(n)
            key = (name,) + tuple(self.key_of(c) for c in t.children())
        else:
            key = ('c', t.sexpr(), t.sort().name())
        i = self.atom(key, t)
        if z3.is_app(t) and t.decl().name() == 'SQRT' and i not in self.sq:
            self.sq[i] = self.rf(t.children()[0])
        return Poly.atom(i), Poly.const(1)

    # -- queries ---------------------------------------------------------------------------
    def diff(self, a, b):
        (n1, d1), (n2, d2) = self.rf(a), self.rf(b)
        if d1.d == d2.d:
            l, r, den = n1, n2, d1
        else:
            l, r, den = n1 * d2, n2 * d1, d1 * d2
        scale = max(l.maxabs(), r.maxabs())
        diff, den = self.reduce_sqrt(l - r, den)
        return self.drop_squares(diff), scale

    def equal(self, a, b):
        try:
            d, scale = self.diff(a, b)
        except TooBig:
            return None
        if d.is_zero():
            return True
        if scale and d.maxabs() <= REL_TOL * scale:
            # every residual coefficient is literal-rounding noise
            return True
        return None

    def const_of(self, t):
        try:
            n, d = self.rf(t)
        except TooBig:
            return None
        if d.as_const() == 1:
            return n.as_const()
        return None

    # -- back to z3 ------------------------------------------------------------------------
    def poly_to_z3(self, p, real=True):
        if not p.d:
            return z3.RealVal(0) if real else z3.IntVal(0)
        ts = []
        for m, c in sorted(p.d.items(), key=lambda kv: str(kv[0])):
            fs = []
            if c != 1 or not m:
                fs.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
            for a, e in m:
                x = self.terms[a]
                if real and z3.is_int(x):
                    x = z3.ToReal(x)
                fs += [x] * e
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        r = ts[0]
        for x in ts[1:]:
            r = r + x
        return r

    def to_z3(self, r):
        n, d = r
        t = self.poly_to_z3(n)
        if d.as_const() == 1:
            return t
        return t / self.poly_to_z3(d)


def radd(x, y):
    a, b = x
    c, d = y
    if b.d == d.d:
        return a + c, b
    if b.as_const() == 1:
        return a * d + c, d
    if d.as_const() == 1:
        return a + c * b, b
    return a * d + c * b, b * d


RING = Ring()
