"""Symbolic strings: ropes of literals, decimal renderings of integers, float renderings and opaque pieces."""
from __future__ import annotations
import z3

from .core import (ENG, SNum, SBool, Sym, Unsupported, And, Or, Not, mkbool, lift, to_real, rv)
from .ring import RING

_codes = {}
_code_list = []


def code_of(s):
    if s not in _codes:
        _codes[s] = len(_codes) + 1000
        _code_list.append(s)
    return z3.IntVal(_codes[s])


CAT = z3.Function('STRCAT', z3.IntSort(), z3.IntSort(), z3.IntSort())
DECF = z3.Function('STRDEC', z3.IntSort(), z3.IntSort())
FLTF = z3.Function('STRFLT', z3.RealSort(), z3.IntSort())
HASF = z3.Function('STRHAS', z3.IntSort(), z3.IntSort(), z3.BoolSort())     # (string, char code)
LENF = z3.Function('STRLEN', z3.IntSort(), z3.IntSort())
ENDSF = z3.Function('STRENDS', z3.IntSort(), z3.IntSort(), z3.BoolSort())
STARTSF = z3.Function('STRSTARTS', z3.IntSort(), z3.IntSort(), z3.BoolSort())
FLOATOF = z3.Function('STRFLOAT', z3.IntSort(), z3.RealSort())
UPPERF = z3.Function('STRUPPER', z3.IntSort(), z3.IntSort())

DIGITS = set('0123456789')


class Dec:
    """decimal rendering of an integer term"""
    __slots__ = ('t', 'nonneg')

    def __init__(self, t, nonneg=False):
        self.t = t
        self.nonneg = nonneg

    def code(self):
        return DECF(self.t)

    def sub(self, f):
        return Dec(f(self.t), self.nonneg)

    def same(self, o):
        return isinstance(o, Dec) and RING.equal(to_real(self.t), to_real(o.t)) is True

    def __repr__(self):
        return f'<{z3.simplify(self.t)}>'


FRACF = z3.Function('STRFRAC', z3.IntSort(), z3.IntSort())


class Frac:
    """canonical text of the half-integer t/2: the decimal rendering of t/2 for even t, of t followed by '/2' for odd t"""
    __slots__ = ('t',)
    nonempty = True
    length = None
    substr_lacks = ()

    def __init__(self, t):
        self.t = t

    def code(self):
        return FRACF(self.t)

    def sub(self, f):
        return Frac(f(self.t))

    def same(self, o):
        return isinstance(o, Frac) and RING.equal(to_real(self.t), to_real(o.t)) is True

    def cannot(self, ch):
        return ch not in DIGITS and ch not in '-/'

    def even(self):
        return ENG.branch(self.t % 2 == 0)

    def expand(self):
        if self.even():
            return [Dec(RING.floor(to_real(self.t) / 2))]
        return [Dec(self.t), '/2']

    def __repr__(self):
        return f'<{z3.simplify(self.t)}/2>'


def half_of(x):
    """the integer term 2x when x is a number known to be a half-integer, else None"""
    if not isinstance(x, SNum):
        return None
    n, d = RING.rf(2 * x.r)
    if not RING.int_valued(n, d):
        return None
    return RING.poly_to_z3(n, real=False)


def expanded(toks):
    out = []
    for t in toks:
        out += t.expand() if isinstance(t, Frac) else [t]
    return norm(out)


def has_frac(toks):
    return any(isinstance(t, Frac) for t in toks)


class Flt:
    """str() of a float"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def code(self):
        return FLTF(self.t)

    def sub(self, f):
        return Flt(f(self.t))

    def same(self, o):
        return isinstance(o, Flt) and RING.equal(self.t, o.t) is True

    def __repr__(self):
        return f'<float {z3.simplify(self.t)}>'


class Opq:
    """an arbitrary string; term: z3 Int code; lacks: characters it is known not to contain;
    chars: if not None, all its characters belong to this set; length: exact length or None"""
    __slots__ = ('t', 'lacks', 'chars', 'nonempty', 'length', 'name', 'substr_lacks')

    def __init__(self, name, t=None, lacks='', chars=None, nonempty=False, length=None, substr_lacks=()):
        self.name = name
        self.t = z3.Int('str:' + name) if t is None else t
        self.lacks = frozenset(lacks)
        self.chars = None if chars is None else frozenset(chars)
        self.nonempty = nonempty or bool(length)
        self.length = length
        self.substr_lacks = tuple(substr_lacks)

    def code(self):
        return self.t

    def sub(self, f):
        return Opq(self.name, f(self.t), self.lacks, self.chars, self.nonempty, self.length, self.substr_lacks)

    def same(self, o):
        return isinstance(o, Opq) and self.t.eq(o.t)

    def cannot(self, ch):
        return ch in self.lacks or (self.chars is not None and ch not in self.chars)

    def __repr__(self):
        return f'<{self.t}>'


def norm(toks):
    out = []
    for t in toks:
        if isinstance(t, Dec):
            c = RING.const_of(to_real(t.t))
            if c is not None and c.denominator == 1:
                t = str(int(c))
        elif isinstance(t, Frac):
            c = RING.const_of(to_real(t.t))
            if c is not None and c.denominator == 1:
                t = str(int(c) // 2) if c % 2 == 0 else str(int(c)) + '/2'
        if isinstance(t, str):
            if not t:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += t
                continue
        out.append(t)
    return out


def mkstr(toks):
    toks = norm(toks)
    if not toks:
        return ''
    if len(toks) == 1 and isinstance(toks[0], str):
        return toks[0]
    return SStr(toks)


def toks_of(x):
    if isinstance(x, str):
        return [x] if x else []
    if isinstance(x, SStr):
        return list(x.toks)
    raise Unsupported(f'not a string: {type(x)}')


class SStr(Sym):
    __slots__ = ('toks',)

    def __init__(self, toks):
        self.toks = tuple(toks)

    # -- identity ---------------------------------------------------------------------------
    def code(self):
        cs = [code_of(t) if isinstance(t, str) else t.code() for t in self.toks]
        r = cs[-1]
        for c in reversed(cs[:-1]):
            r = CAT(c, r)
        return r

    def sub(self, f):
        return mkstr([t if isinstance(t, str) else t.sub(f) for t in self.toks])

    def __hash__(self):
        return 0x57A1

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return str_eq(self, o)
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (str, SStr)):
            return Not(str_eq(self, o))
        return NotImplemented

    def _noord(self, o):
        raise Unsupported('ordering of symbolic strings')

    __lt__ = __gt__ = __le__ = __ge__ = _noord

    def __bool__(self):
        n = self.__vc_len__()
        return bool(n != 0)

    # -- building -----------------------------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(list(self.toks) + toks_of(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (str, SStr)):
            return mkstr(toks_of(o) + list(self.toks))
        return NotImplemented

    def join(self, it):
        return str_join(self, it)

    def format(self, *a, **k):
        raise Unsupported('format on a symbolic string')

    # -- inspection ------------------------------------------------------------------------------
    def __vc_len__(self):
        n = SNum(z3.IntVal(0), 'int')
        for t in self.toks:
            if isinstance(t, str):
                n = n + len(t)
            elif isinstance(t, Opq) and t.length is not None:
                n = n + t.length
            else:
                L = LENF(t.code())
                lo = 1 if (isinstance(t, (Dec, Frac, Flt)) or t.nonempty) else 0
                ENG.assume(L >= lo)
                n = n + SNum(L, 'int')
        return n

    def __len__(self):
        raise Unsupported('C-level len of a symbolic string')

    def __contains__(self, x):
        return bool(str_contains(self, x))

    def __iter__(self):
        if all(isinstance(t, str) or (isinstance(t, Opq) and t.length == 1) for t in self.toks):
            r = []
            for t in self.toks:
                r += list(t) if isinstance(t, str) else [SStr([t])]
            return iter(r)
        if has_frac(self.toks):
            return iter(mkstr(expanded(self.toks)))
        raise Unsupported('iteration over a symbolic string')

    def __getitem__(self, k):
        if isinstance(k, SNum):
            k = k.__index__()
        if has_frac(self.toks):
            try:
                return self._item(k)
            except Unsupported:
                return mkstr(expanded(self.toks))[k]
        return self._item(k)

    def _item(self, k):
        if isinstance(k, int):
            if k >= 0:
                for t in self.toks:
                    n = known_len(t)
                    if n is None:
                        return first_char(t, k, self)
                    if k < n:
                        return t[k] if isinstance(t, str) else SStr([t])
                    k -= n
                raise IndexError('string index out of range')
            k = -k - 1
            for t in reversed(self.toks):
                n = known_len(t)
                if n is None:
                    return last_char(t, k, self)
                if k < n:
                    return t[-1 - k] if isinstance(t, str) else SStr([t])
                k -= n
            raise IndexError('string index out of range')
        if isinstance(k, slice) and k.step is None:
            if k.start is not None and k.start < 0 and k.stop is None:
                return self._suffix(-k.start)
            if k.start in (None, 0) and k.stop is not None and k.stop < 0:
                return self._drop_suffix(-k.stop)
            if k.start is not None and k.start >= 0 and k.stop is None:
                need = k.start
                out = list(self.toks)
                while need:
                    if not out:
                        return ''
                    n = known_len(out[0])
                    if n is None:
                        raise Unsupported('slice into an opaque string')
                    if n <= need:
                        out.pop(0)
                        need -= n
                    else:
                        out[0] = out[0][need:]
                        need = 0
                return mkstr(out)
        raise Unsupported('slice of a symbolic string')

    def _suffix(self, n):
        out, need = [], n
        for t in reversed(self.toks):
            L = known_len(t)
            if L is None:
                if isinstance(t, Opq):
                    return OpaqueSuffix(self, n)
                raise Unsupported('suffix of a symbolic string')
            if isinstance(t, str) and L > need:
                t = t[-need:]
                L = need
            out.insert(0, t)
            need -= L
            if need == 0:
                break
        return mkstr(out)

    def _drop_suffix(self, n):
        out = list(self.toks)
        need = n
        while need:
            if not out:
                return ''
            L = known_len(out[-1])
            if L is None:
                raise Unsupported('dropping a suffix of a symbolic string')
            if L <= need:
                out.pop()
                need -= L
            else:
                out[-1] = out[-1][:-need]
                need = 0
        return mkstr(out)

    def startswith(self, p, *a):
        if a or not isinstance(p, (str, SStr, tuple)):
            raise Unsupported('startswith')
        if isinstance(p, tuple):
            return Or(*[self.startswith(x) for x in p])
        return str_starts(self, p)

    def endswith(self, p, *a):
        if a or not isinstance(p, (str, SStr, tuple)):
            raise Unsupported('endswith')
        if isinstance(p, tuple):
            return Or(*[self.endswith(x) for x in p])
        return str_ends(self, p)

    def split(self, sep=None, maxsplit=-1):
        return str_split(self, sep, maxsplit)

    def rsplit(self, sep=None, maxsplit=-1):
        return str_rsplit(self, sep, maxsplit)

    def partition(self, sep):
        a = str_split(self, sep, 1)
        return (a[0], sep, a[1]) if len(a) == 2 else (self, '', '')

    def rpartition(self, sep):
        a = str_rsplit(self, sep, 1)
        return (a[0], sep, a[1]) if len(a) == 2 else ('', '', self)

    def replace(self, a, b, n=-1):
        if n != -1 or not isinstance(a, str) or not a:
            raise Unsupported('replace')
        parts = str_split(self, a, -1)
        out = []
        for i, p in enumerate(parts):
            if i:
                out += toks_of(b)
            out += toks_of(p)
        return mkstr(out)

    def count(self, x):
        return len(str_split(self, x, -1)) - 1

    def find(self, x):
        raise Unsupported('find in a symbolic string')

    index = find

    def strip(self, cs=None):
        return self.lstrip(cs).rstrip(cs) if True else self

    def lstrip(self, cs=None):
        cs = ' \t\n\r' if cs is None else cs
        t = self.toks[0]
        if isinstance(t, str):
            u = t.lstrip(cs)
            if u:
                return mkstr([u] + list(self.toks[1:]))
            r = mkstr(self.toks[1:])
            return r.lstrip(cs)
        if isinstance(t, (Dec, Frac, Flt)) or (all(t.cannot(c) for c in cs) and t.nonempty):
            return self
        raise Unsupported('lstrip of an opaque string')

    def rstrip(self, cs=None):
        cs = ' \t\n\r' if cs is None else cs
        t = self.toks[-1]
        if isinstance(t, str):
            u = t.rstrip(cs)
            if u:
                return mkstr(list(self.toks[:-1]) + [u])
            r = mkstr(self.toks[:-1])
            return r.rstrip(cs)
        if isinstance(t, (Dec, Frac, Flt)) or (all(t.cannot(c) for c in cs) and t.nonempty):
            return self
        raise Unsupported('rstrip of an opaque string')

    def removesuffix(self, p):
        if self.endswith(p):
            return self[:-len(p)]
        return self

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p):]
        return self

    def _case(self, f, uf):
        out = []
        for t in self.toks:
            if isinstance(t, str):
                out.append(f(t))
            elif isinstance(t, (Dec, Frac)):
                out.append(t)
            elif isinstance(t, Opq) and t.chars is not None and all(f(c) == c for c in t.chars):
                out.append(t)
            elif isinstance(t, Opq) and t.chars is not None and t.length == 1:
                out.append(Opq(t.name + '.up', uf(t.t), chars={f(c) for c in t.chars}, length=1))
            else:
                raise Unsupported('case conversion of an opaque string')
        return mkstr(out)

    def upper(self):
        return self._case(str.upper, UPPERF)

    def lower(self):
        raise Unsupported('lower of an opaque string')

    def _cls(self, f):
        vals = set()
        for t in self.toks:
            if isinstance(t, str):
                vals.add(f(t))
            elif isinstance(t, Opq) and t.chars is not None and t.nonempty:
                vals |= {f(c) for c in t.chars}
            else:
                raise Unsupported('character class of an opaque string')
        if vals == {True}:
            return True
        if len(self.toks) == 1 and vals == {False}:
            return False
        raise Unsupported('character class of an opaque string')

    def isupper(self):
        return self._cls(str.isupper)

    def islower(self):
        return self._cls(str.islower)

    def isdigit(self):
        if len(self.toks) == 1 and isinstance(self.toks[0], Dec):
            return mkbool(self.toks[0].t >= 0)
        if has_frac(self.toks):
            x = mkstr(expanded(self.toks))
            return x.isdigit()
        return self._cls(str.isdigit)

    def isalpha(self):
        return self._cls(str.isalpha)

    def encode(self, *a):
        raise Unsupported('encode')

    # -- conversion ----------------------------------------------------------------------------
    def __vc_float__(self):
        if has_frac(self.toks):
            x = mkstr(expanded(self.toks))
            return SNum(rv(float(x)), 'float') if isinstance(x, str) else x.__vc_float__()
        if len(self.toks) == 1:
            t = self.toks[0]
            if isinstance(t, Dec):
                return SNum(to_real(t.t), 'float')
            if isinstance(t, Flt):
                return SNum(t.t, 'float')
        if any(isinstance(t, str) and any(ch in t for ch in '/=*[]()<> \'') for t in self.toks):
            raise ValueError(f'could not convert string to float: {self!r}')
        raise Unsupported('float() of a symbolic string')

    def __vc_int__(self, *a):
        if has_frac(self.toks):
            x = mkstr(expanded(self.toks))
            return int(x, *a) if isinstance(x, str) else x.__vc_int__(*a)
        if not a and len(self.toks) == 1 and isinstance(self.toks[0], Dec):
            return SNum(self.toks[0].t, 'int')
        raise Unsupported('int() of a symbolic string')

    def __vc_str__(self):
        return self

    def __repr__(self):
        return '"' + ''.join(t if isinstance(t, str) else repr(t) for t in self.toks) + '"'

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class OpaqueSuffix(Sym):
    """s[-n:] of an opaque string: only comparable"""
    __hash__ = None

    def __init__(self, s, n):
        self.s, self.n = s, n

    def __eq__(self, o):
        if isinstance(o, str) and len(o) == self.n:
            return str_ends(self.s, o)
        raise Unsupported('comparison with an opaque suffix')

    def __ne__(self, o):
        return Not(self.__eq__(o))


def known_len(t):
    if isinstance(t, str):
        return len(t)
    if isinstance(t, Opq):
        return t.length
    return None


def first_char(t, k, s):
    if isinstance(t, Opq) and k == 0:
        f = ENG.facts.get(('first', t.t.get_id()))
        if f is not None:
            return f
    if isinstance(t, Dec) and k == 0:
        if ENG.branch(t.t < 0):
            return '-'
        return SStr([Opq(f'd0({t.t})', z3.Function('FIRSTDIGIT', z3.IntSort(), z3.IntSort())(t.t), chars=DIGITS, length=1)])
    raise Unsupported('index into an opaque string')


def last_char(t, k, s):
    if isinstance(t, Opq) and k == 0:
        f = ENG.facts.get(('last', t.t.get_id()))
        if f is not None:
            return f
    if isinstance(t, Dec) and k == 0:
        return SStr([Opq(f'dn({t.t})', z3.Function('LASTDIGIT', z3.IntSort(), z3.IntSort())(t.t), chars=DIGITS, length=1)])
    raise Unsupported('index into an opaque string')


# ---------------------------------------------------------------------------------------------
def boundary_after(toks, i):
    """the characters after token i cannot continue a decimal number"""
    if i + 1 >= len(toks):
        return True
    n = toks[i + 1]
    if isinstance(n, str):
        return n[0] not in DIGITS
    if isinstance(n, Opq):
        return n.nonempty and all(n.cannot(d) for d in DIGITS)
    return False


def boundary_after_frac(toks, i):
    """the characters after token i can continue neither a decimal number nor a fraction"""
    if i + 1 >= len(toks):
        return True
    n = toks[i + 1]
    if isinstance(n, str):
        return n[0] not in DIGITS and n[0] != '/'
    if isinstance(n, Opq):
        return n.nonempty and all(n.cannot(d) for d in DIGITS | {'/'})
    return False


FRAC_LIT = __import__('re').compile(r'-?[0-9]+(/2)?')


def frac_prefix(s):
    """(length, twice the value) of the leading canonical half-integer of a literal; value None if not canonical"""
    m = FRAC_LIT.match(s)
    if not m:
        return 0, None
    x = m.group()
    n = x[:-2] if x.endswith('/2') else x
    v = int(n)
    if str(v) != n or (x.endswith('/2') and v % 2 == 0):
        return len(x), None
    return len(x), v if x.endswith('/2') else 2 * v


def boundary_before(toks, i):
    if i == 0:
        return True
    p = toks[i - 1]
    if isinstance(p, str):
        return p[-1] not in DIGITS and p[-1] != '-'
    if isinstance(p, Opq):
        return p.nonempty and all(p.cannot(d) for d in DIGITS | {'-'})
    return False


def lit_dec_prefix(s):
    """length of the leading -?digits run"""
    i = 1 if s[:1] == '-' else 0
    j = i
    while j < len(s) and s[j] in DIGITS:
        j += 1
    return j if j > i else 0


def canonical_int(s):
    try:
        return str(int(s)) == s
    except ValueError:
        return False


def str_eq(a, b):
    A, B = toks_of(a), toks_of(b)
    conds = []
    # left to right
    while A and B:
        x, y = A[0], B[0]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return False
            A = norm([x[n:]] + A[1:])
            B = norm([y[n:]] + B[1:])
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            if x.same(y):
                A, B = A[1:], B[1:]
                continue
            if isinstance(x, Dec) and isinstance(y, Dec) and boundary_after(A, 0) and boundary_after(B, 0):
                conds.append(x.t == y.t)
                A, B = A[1:], B[1:]
                continue
            if isinstance(x, (Dec, Frac)) and isinstance(y, (Dec, Frac)) and boundary_after_frac(A, 0) and boundary_after_frac(B, 0):
                conds.append((x.t if isinstance(x, Frac) else 2 * x.t) == (y.t if isinstance(y, Frac) else 2 * y.t))
                A, B = A[1:], B[1:]
                continue
            if isinstance(x, Frac) or isinstance(y, Frac):
                if not (isinstance(x, Opq) or isinstance(y, Opq)):
                    return eq_expanded(conds, A, B)
            if isinstance(x, Opq) and isinstance(y, Opq) and x.length is not None and x.length == y.length:
                conds.append(x.t == y.t)
                A, B = A[1:], B[1:]
                continue
            break
        if isinstance(y, Dec):
            A, B, x, y = B, A, y, x
        if isinstance(x, Dec) and isinstance(y, str):
            k = lit_dec_prefix(y)
            if k == 0:
                return False
            if k == len(y) and not boundary_after(B, 0):
                break
            if not boundary_after(A, 0):
                break
            if not canonical_int(y[:k]):
                return False
            conds.append(x.t == int(y[:k]))
            A = A[1:]
            B = norm([y[k:]] + B[1:])
            continue
        if isinstance(y, Frac):
            A, B, x, y = B, A, y, x
        if isinstance(x, Frac) and isinstance(y, str):
            k, v = frac_prefix(y)
            if k == 0:
                if y == '-' and len(B) > 1:
                    return eq_expanded(conds, A, B)
                return False
            if k == len(y) and not boundary_after_frac(B, 0) or not boundary_after_frac(A, 0) or y[k:k + 1] == '/':
                return eq_expanded(conds, A, B)
            if v is None:
                return False
            conds.append(x.t == v)
            A = A[1:]
            B = norm([y[k:]] + B[1:])
            continue
        if isinstance(y, Opq):
            A, B, x, y = B, A, y, x
        if isinstance(x, Opq) and isinstance(y, str):
            if x.length is not None and len(y) >= x.length:
                piece = y[:x.length]
                if any(x.cannot(c) for c in piece):
                    return False
                conds.append(x.t == code_of(piece))
                A = A[1:]
                B = norm([y[x.length:]] + B[1:])
                continue
            if x.nonempty and x.cannot(y[0]):
                return False
        break
    # right to left
    while A and B:
        x, y = A[-1], B[-1]
        if isinstance(x, str) and isinstance(y, str):
            n = min(len(x), len(y))
            if x[-n:] != y[-n:]:
                return False
            A = norm(A[:-1] + [x[:-n]])
            B = norm(B[:-1] + [y[:-n]])
            continue
        if not isinstance(x, str) and not isinstance(y, str):
            if x.same(y):
                A, B = A[:-1], B[:-1]
                continue
            if isinstance(x, Dec) and isinstance(y, Dec) and boundary_before(A, len(A) - 1) and boundary_before(B, len(B) - 1):
                conds.append(x.t == y.t)
                A, B = A[:-1], B[:-1]
                continue
            break
        if isinstance(x, Frac) or isinstance(y, Frac):
            break
        if isinstance(y, Dec):
            A, B, x, y = B, A, y, x
        if isinstance(x, Dec) and isinstance(y, str):
            if y[-1] not in DIGITS:
                return False
            break
        if isinstance(y, Opq):
            A, B, x, y = B, A, y, x
        if isinstance(x, Opq) and isinstance(y, str):
            if x.nonempty and x.cannot(y[-1]):
                return False
        break
    c = z3.And(*conds) if conds else z3.BoolVal(True)
    if not A and not B:
        return mkbool(c)
    if not A or not B:
        R = A or B
        if any(isinstance(t, (str, Dec, Frac, Flt)) or t.nonempty for t in R):
            return False
        return mkbool(z3.And(c, *[t.code() == code_of('') for t in R], *[LENF(t.code()) == 0 for t in R]))
    if len(A) == 1 and isinstance(A[0], Opq) or len(B) == 1 and isinstance(B[0], Opq):
        if not (len(A) == 1 and isinstance(A[0], Opq)):
            A, B = B, A
        x = A[0]
        # a character the opaque string cannot contain
        for t in B:
            if isinstance(t, str) and any(x.cannot(ch) for ch in t):
                return False
            if isinstance(t, (Dec, Frac)) and all(x.cannot(d) for d in DIGITS):
                return False
            if isinstance(t, str) and any(p in t for p in x.substr_lacks):
                return False
        rb = SStr(B) if not (len(B) == 1 and isinstance(B[0], str)) else None
        cb = code_of(B[0]) if rb is None else rb.code()
        return mkbool(z3.And(c, x.code() == cb, *([LENF(x.code()) == len(B[0])] if rb is None and x.length is None else [])))
    if has_frac(A) or has_frac(B):
        return eq_expanded(conds, A, B)
    # unequal because one side certainly contains a character the other certainly lacks
    for P, Q in ((A, B), (B, A)):
        for t in P:
            if isinstance(t, str):
                for ch in t:
                    if all((isinstance(q, str) and ch not in q) or (isinstance(q, Dec) and ch not in DIGITS and ch != '-')
                           or (isinstance(q, Opq) and q.cannot(ch)) for q in Q):
                        return False
    return mkbool(z3.And(c, SStr(A).code() == SStr(B).code()))


def eq_expanded(conds, A, B):
    """decide the rest of a comparison on the decimal forms of the half-integers (forks on their parities)"""
    r = str_eq(mkstr(expanded(A)), mkstr(expanded(B)))
    return And(*[mkbool(c) for c in conds], r)


def has_char(t, ch):
    """z3 Bool / bool: token contains the character"""
    if isinstance(t, Frac):
        if ch == '-':
            return t.t < 0
        if ch == '/':
            return t.t % 2 == 1
        if ch not in DIGITS:
            return False
        raise Unsupported('digit search in a fraction rendering')
    if isinstance(t, str):
        return ch in t
    if isinstance(t, Dec):
        if ch == '-':
            return t.t < 0
        if ch not in DIGITS:
            return False
        raise Unsupported('digit search in a decimal rendering')
    if isinstance(t, Flt):
        if ch in '/ =*[](){}<>':
            return False
        raise Unsupported('character search in a float rendering')
    if t.cannot(ch):
        return False
    if t.chars is not None and t.nonempty and t.chars == {ch}:
        return True
    return HASF(t.t, code_of(ch))


def str_contains(s, x):
    if isinstance(s, SStr) and all(isinstance(t, str) for t in s.toks):
        s = ''.join(s.toks)
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(s, str):
        # symbolic needle in a literal haystack
        n = x.__vc_len__()
        subs = sorted({s[i:j] for i in range(len(s)) for j in range(i + 1, len(s) + 1)}) if len(s) <= 30 else None
        if len(x.toks) == 1 and isinstance(x.toks[0], Opq) and x.toks[0].length == 1:
            t = x.toks[0]
            if t.chars is not None and all(c in s for c in t.chars):
                return True
            if t.chars is not None and not any(c in s for c in t.chars):
                return False
            return Or(*[mkbool(t.t == code_of(c)) for c in s if not t.cannot(c)])
        if subs is None:
            raise Unsupported('symbolic needle in a long literal')
        return Or(*[str_eq(x, u) for u in subs] + [mkbool(to_real(lift(n).t) == 0)])
    if not isinstance(x, str):
        raise Unsupported('symbolic needle in a symbolic string')
    if x == '':
        return True
    toks = list(s.toks)
    if len(x) == 1:
        return Or(*[h if isinstance(h, bool) else mkbool(h) for h in (has_char(t, x) for t in toks)])
    res = []
    for i, t in enumerate(toks):
        if isinstance(t, str):
            if x in t:
                return True
        elif isinstance(t, Opq):
            if not any(t.cannot(c) for c in x) and not any(p in x for p in t.substr_lacks):
                if t.chars is None:
                    res.append(mkbool(HASF(t.t, code_of(x))))
                else:
                    raise Unsupported('substring search in an opaque string')
        elif isinstance(t, Frac):
            if all(c in DIGITS or c in '-/' for c in x):
                return str_contains(mkstr(expanded(toks)), x)
        elif isinstance(t, Dec):
            if all(c in DIGITS or c == '-' for c in x):
                raise Unsupported('digit search')
    # matches across token boundaries
    for i in range(len(toks) - 1):
        for k in range(1, len(x)):
            if may_end(toks[:i + 1], x[:k]) and may_start(toks[i + 1:], x[k:]):
                raise Unsupported(f'substring {x!r} may straddle pieces of {s!r}')
    return Or(*res) if res else False


def may_end(toks, p):
    """could the concatenation of toks end in p?  (over-approximation)"""
    if not p:
        return True
    if not toks:
        return False
    t = toks[-1]
    if isinstance(t, str):
        n = min(len(t), len(p))
        if t[-n:] != p[-n:]:
            return False
        return may_end(toks[:-1], p[:-n]) if n < len(p) else True
    if isinstance(t, Dec):
        if p[-1] not in DIGITS:
            return False
        return True
    if isinstance(t, Flt):
        return p[-1] in DIGITS or p[-1] in 'fn'
    if t.cannot(p[-1]):
        return (not t.nonempty) and may_end(toks[:-1], p)
    return True


def may_start(toks, p):
    if not p:
        return True
    if not toks:
        return False
    t = toks[0]
    if isinstance(t, str):
        n = min(len(t), len(p))
        if t[:n] != p[:n]:
            return False
        return may_start(toks[1:], p[n:]) if n < len(p) else True
    if isinstance(t, Dec):
        return p[0] in DIGITS or p[0] == '-'
    if isinstance(t, Flt):
        return p[0] in DIGITS or p[0] in '-in'
    if t.cannot(p[0]):
        return (not t.nonempty) and may_start(toks[1:], p)
    return True


def str_ends(s, p):
    toks = toks_of(s)
    if not isinstance(p, str):
        raise Unsupported('endswith(symbolic)')
    while p:
        if not toks:
            return False
        t = toks[-1]
        if isinstance(t, str):
            n = min(len(t), len(p))
            if t[-n:] != p[-n:]:
                return False
            p = p[:-n]
            toks = norm(toks[:-1] + [t[:-n]])
            continue
        if isinstance(t, Opq):
            if t.length is not None and t.length <= len(p):
                raise Unsupported('endswith through a character variable')
            if t.nonempty and t.cannot(p[-1]):
                return False
            if len(toks) == 1 or t.nonempty and len(p) == 1:
                # may be shorter than p: the predicate is about the whole (sub)string
                return mkbool(ENDSF(SStr(toks).code() if len(toks) > 1 else t.code(), code_of(p)))
            return mkbool(ENDSF(SStr(toks).code(), code_of(p)))
        if isinstance(t, Dec):
            if p[-1] not in DIGITS:
                return False
        if isinstance(t, Frac):
            if t.cannot(p[-1]) or p[-1] == '-':
                return False
            return str_ends(mkstr(expanded(toks)), p)
        raise Unsupported('endswith on a number')
    return True


def str_starts(s, p):
    toks = toks_of(s)
    if not isinstance(p, str):
        raise Unsupported('startswith(symbolic)')
    while p:
        if not toks:
            return False
        t = toks[0]
        if isinstance(t, str):
            n = min(len(t), len(p))
            if t[:n] != p[:n]:
                return False
            p = p[n:]
            toks = norm([t[n:]] + toks[1:])
            continue
        if isinstance(t, Opq):
            if t.nonempty and t.cannot(p[0]):
                return False
            return mkbool(STARTSF(SStr(toks).code() if len(toks) > 1 else t.code(), code_of(p)))
        if isinstance(t, Dec):
            if p[0] not in DIGITS and p[0] != '-':
                return False
        if isinstance(t, Frac):
            if t.cannot(p[0]) or p[0] == '/':
                return False
            return str_starts(mkstr(expanded(toks)), p)
        raise Unsupported('startswith on a number')
    return True


def _sep_possible(t, sep):
    if isinstance(t, Dec):
        return all(c in DIGITS or c == '-' for c in sep)
    if isinstance(t, Flt):
        return not any(c in '/ =*' for c in sep)
    return not any(t.cannot(c) for c in sep) and sep not in t.substr_lacks


def _check_straddle(toks, sep):
    for i in range(len(toks) - 1):
        for k in range(1, len(sep)):
            if may_end(toks[:i + 1], sep[:k]) and may_start(toks[i + 1:], sep[k:]):
                raise Unsupported('separator may straddle pieces')


def str_split(s, sep, maxsplit=-1):
    if not isinstance(sep, str) or not sep:
        raise Unsupported('split without a literal separator')
    toks = list(s.toks) if isinstance(s, SStr) else toks_of(s)
    if has_frac(toks) and any(c in '-/' or c in DIGITS for c in sep):
        toks = expanded(toks)
    _check_straddle(toks, sep)
    parts = [[]]
    n = 0
    for t in toks:
        if not isinstance(t, str):
            if (maxsplit < 0 or n < maxsplit) and _sep_possible(t, sep):
                if isinstance(t, Opq) and ENG.branch(HASF(t.t, code_of(sep))):
                    raise Unsupported('split inside an opaque string')
            parts[-1].append(t)
            continue
        rest = t
        while (maxsplit < 0 or n < maxsplit) and sep in rest:
            a, rest = rest.split(sep, 1)
            parts[-1].append(a)
            parts.append([])
            n += 1
        parts[-1].append(rest)
    return [mkstr(p) for p in parts]


def str_rsplit(s, sep, maxsplit=-1):
    if not isinstance(sep, str) or not sep:
        raise Unsupported('rsplit without a literal separator')
    toks = list(s.toks)
    if has_frac(toks) and any(c in '-/' or c in DIGITS for c in sep):
        toks = expanded(toks)
    parts = [[]]
    n = 0
    for idx in range(len(toks) - 1, -1, -1):
        t = toks[idx]
        if maxsplit >= 0 and n >= maxsplit:
            parts[0].insert(0, t)
            continue
        # a separator that straddles this token and the next one
        if idx + 1 < len(toks):
            for k in range(1, len(sep)):
                if may_end(toks[:idx + 1], sep[:k]) and may_start(toks[idx + 1:], sep[k:]):
                    raise Unsupported('separator may straddle pieces')
        if not isinstance(t, str):
            if _sep_possible(t, sep):
                if isinstance(t, Opq) and ENG.branch(HASF(t.t, code_of(sep))):
                    raise Unsupported('rsplit inside an opaque string')
            parts[0].insert(0, t)
            continue
        rest = t
        while (maxsplit < 0 or n < maxsplit) and sep in rest:
            rest, b = rest.rsplit(sep, 1)
            parts[0].insert(0, b)
            parts.insert(0, [])
            n += 1
        parts[0].insert(0, rest)
    return [mkstr(p) for p in parts]


def str_join(sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out += toks_of(sep)
        out += toks_of(x)
    return mkstr(out)


def to_str(x):
    """hooked str()"""
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SNum):
        if x.py == 'int':
            return mkstr([Dec(x.t)])
        c = RING.const_of(x.r)
        if c is not None:
            return str(float(c))
        return SStr([Flt(x.t)])
    if isinstance(x, SBool):
        return 'True' if ENG.branch(x.t) else 'False'
    f = getattr(x, '__vc_str__', None)
    if f is not None:
        return f()
    if isinstance(x, (list, tuple, dict)) and contains_sym(x):
        return SStr([Opq(ENG_name('repr'))])
    c = type(x).__str__
    r = c(x)
    return r


def contains_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(contains_sym(y, depth - 1) for y in list(x.values()) + list(x.keys()))
    return False


def ENG_name(base):
    return str(ENG.fresh(base, 'int'))


def lit_at(lit, k):
    """the character of a literal at a symbolic position"""
    n = len(lit)
    t = k.t
    if ENG.branch(t < 0):
        if ENG.branch(t < -n):
            raise IndexError('string index out of range')
        t = t + n
    elif ENG.branch(t >= n):
        raise IndexError('string index out of range')
    num, den = RING.rf(to_real(t))
    if RING.int_valued(num, den):
        t = RING.poly_to_z3(num, real=False)
    r = code_of(lit[-1])
    for i in range(n - 2, -1, -1):
        r = z3.If(t == i, code_of(lit[i]), r)
    return SStr([Opq('char', r, chars=lit, length=1)])


def lit_find(lit, x):
    """position of a one-character symbolic string in a literal (-1 if absent)"""
    if len(x.toks) != 1 or not isinstance(x.toks[0], Opq) or x.toks[0].length != 1:
        raise Unsupported('find in a literal')
    c = x.toks[0]
    r = z3.IntVal(-1)
    for i in range(len(lit) - 1, -1, -1):
        if not c.cannot(lit[i]):
            r = z3.If(c.t == code_of(lit[i]), z3.IntVal(i), r)
    return SNum(r, 'int')


def Str(name, **kw):
    """harness input: an arbitrary string"""
    s = SStr([Opq(name, **kw)])
    ENG.inputs[name] = s
    return s


def Char(name, chars):
    return Str(name, chars=chars, length=1)
