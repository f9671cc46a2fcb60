"""Path-forking symbolic execution of the real code, with proof obligations.

The functions of /repo are executed by CPython itself on proxy values (SNum, SBool, SStr, SymSeq, ...).
Whenever control flow depends on a proxy, Engine.branch() explores both outcomes that the path
condition allows; loops over collections of symbolic length are cut (see seq.py).  Every claim is a
verification condition  path-condition => claim  handed to the back ends in solve.py.
"""
from __future__ import annotations
import math
import numbers
from fractions import Fraction

import z3

from .ring import RING


class Unsupported(BaseException):
    """the code left the subset the executor can treat"""


class Infeasible(BaseException):
    """the current path contradicts an assumption"""


class Deadline(BaseException):
    """time budget exhausted"""


class Stop(BaseException):
    """abandon the current path silently (used by cut loops)"""


# ---------------------------------------------------------------------------------------------
#  uninterpreted functions with instantiated axioms
# ---------------------------------------------------------------------------------------------
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SQRT = z3.Function('SQRT', R, R)
EXP = z3.Function('EXP', R, R)
PARITY = z3.Function('PARITY', I, R)        # (-1)**n
W3 = z3.Function('W3', R, R, R, R, R, R, R)
W6 = z3.Function('W6', R, R, R, R, R, R, R)
W9 = z3.Function('W9', R, R, R, R, R, R, R, R, R, R)
BESSEL = z3.Function('BESSEL', R, R, R)
VOIGT = z3.Function('VOIGT', R, R, R, R)
ROUND = z3.Function('ROUND', R, I, R)
POW = z3.Function('POW', R, R, R)
FACT = z3.Function('FACT', I, R)
PIF = z3.Function('PI', I, R)


def pi():
    return SNum(PIF(z3.IntVal(0)), 'float')


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported(f'non-finite constant {x}')
    f = Fraction(repr(x))
    if x and sum(ch.isdigit() for ch in repr(x).split('e')[0].lstrip('-0.').rstrip('0')) >= 15:
        # a rounded quotient: the simple rational within two units in the last place, if there is one
        tol = abs(f) * Fraction(45, 10 ** 17)
        if abs(x) > 1e-300:
            g = 1 / Fraction(f'{1 / x:.11e}')
            if abs(g - f) <= tol:
                return g
        g = Fraction(x).limit_denominator(10 ** 6)
        if g and abs(g - f) <= tol:
            return g
    return f


def rv(x):
    f = to_frac(x)
    return z3.RealVal(str(f))


# ---------------------------------------------------------------------------------------------
class Frame:
    def __init__(self, prefix, owner=()):
        self.prefix = list(prefix)
        self.trail = []
        self.pc = []
        self.alts = []
        self.effects = []
        self.owner = owner          # index constants of the generic iteration this frame explores
        self.counter = 0
        self.obligations = []
        self.universals = []
        self.cleanups = []
        self.reads = []
        self.instances = []
        self.mutations = []
        self.case = ()


class PathResult:
    def __init__(self, fr, kind, value):
        self.pc, self.kind, self.value, self.effects, self.universals = fr.pc, kind, value, fr.effects, fr.universals
        self.reads = fr.reads
        self.mutations, self.case = fr.mutations, fr.case


def _fast_getters():
    """z3's Python API asks for the error code after every call; these getters cannot fail on the terms z3 itself returned"""
    for n in ('inc_ref', 'dec_ref', 'get_ast_id', 'get_ast_kind', 'get_sort', 'get_sort_kind', 'get_app_decl', 'get_decl_kind', 'get_app_num_args',
              'is_eq_ast', 'is_finite_set_sort', 'solver_inc_ref', 'solver_dec_ref'):
        f = getattr(z3.z3core, 'Z3_' + n, None)
        if f is not None and f.__defaults__ and hasattr(f.__defaults__[-1], 'Check'):
            f.__defaults__[-1].Check = lambda ctx: None


_fast_getters()


class Node:
    """a term with what the traversals need to know about it (z3's Python API is slow)"""
    __slots__ = ('t', 'id', 'kids', 'app', 'quant', 'name', 'kind', 'const', 'bound', 'value')

    def __init__(self, t, i, kids, quant):
        self.t, self.id, self.kids, self.quant = t, i, kids, quant
        self.app = not quant and z3.is_app(t)
        if self.app:
            d = t.decl()
            self.name, self.kind = d.name(), d.kind()
        else:
            self.name, self.kind = '', None
        self.const = self.app and not kids and self.kind == z3.Z3_OP_UNINTERPRETED
        self.bound = (not quant and not self.app) or (not quant and any(k.bound for k in kids))     # contains a bound variable
        self.value = self.app and not kids and (z3.is_rational_value(t) or z3.is_int_value(t))


_nodes = {}


def node(t):
    n = _nodes.get(t.get_id())
    if n is None:
        stack = [(t, None)]
        while stack:
            x, ch = stack.pop()
            i = x.get_id()
            if ch is None:
                if i in _nodes:
                    continue
                q = z3.is_quantifier(x)
                ch = [x.body()] if q else x.children()
                stack.append((x, ch))
                stack.extend((c, None) for c in ch)
            elif i not in _nodes:
                _nodes[i] = Node(x, i, tuple(_nodes[c.get_id()] for c in ch), z3.is_quantifier(x))
        n = _nodes[t.get_id()]
    return n


def nodes(ts, binders=False):
    """the distinct subterms; binders: also those below quantifiers"""
    seen = set()
    stack = [node(t) for t in ts]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        if binders or not n.quant:
            stack.extend(n.kids)


class Engine:
    MAX_PATHS = 4000

    def __init__(self):
        self.frames = []
        self.oblig = None           # current obligation sink: solve.Session
        self.branch_cache = {}
        self.facts = {}             # structural facts about opaque strings
        self.stats = dict(branches=0, paths=0, checks=0)
        self.gcounter = 0
        self.stamp = {}             # id(obj) -> (owner tuple, obj)
        self.deadline = None
        self.inputs = {}            # name -> SNum (for counterexamples)

    # -- exploration ------------------------------------------------------------------------
    def explore(self, fn, owner=(), assumptions=()):
        out = []
        work = [[]]
        while work:
            prefix = work.pop()
            fr = Frame(prefix, owner)
            if not self.frames:
                self.new_path()
            fr.pc.extend(assumptions)
            self.frames.append(fr)
            try:
                try:
                    v = fn()
                    out.append(PathResult(fr, 'ret', v))
                except (Infeasible, Stop):
                    pass
                except Exception as e:      # an exception of the code under verification
                    out.append(PathResult(fr, 'exc', e))
            finally:
                for c in fr.cleanups:
                    c()
                assert self.frames.pop() is fr
            work.extend(fr.alts)
            self.stats['paths'] += 1
            if len(out) > self.MAX_PATHS:
                raise Unsupported('path explosion')
        return out

    def pc(self):
        r = []
        for f in self.frames:
            r.extend(f.pc)
        return r

    def universals(self):
        r = []
        for f in self.frames:
            r.extend(f.universals)
        return r

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.frames[-1].pc.append(c)
        self.unchecked = True

    unchecked = False

    def check_feasible(self):
        from . import solve
        if solve.feasible(self.pc(), self.universals()) is False:
            raise Infeasible()

    def branch(self, c, why=None):
        if isinstance(c, SBool):
            c = c.t
        if isinstance(c, bool):
            return c
        c = quick_simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.frames:
            raise Unsupported('symbolic branch outside an exploration')
        fr = self.frames[-1]
        if len(self.frames) > 1 and self.lift_branches:
            lv = self.level_of(c)
            if lv < len(self.frames):
                return self.branch_at(lv, c)
        pos = len(fr.trail)
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
        else:
            from . import solve
            self.stats['branches'] += 1
            pc, uni = self.pc(), self.universals()
            t = solve.feasible(pc + [c], uni)
            if t is False:
                d = False
                if self.unchecked and solve.feasible(pc + [z3.Not(c)], uni) is False:
                    raise Infeasible()
                self.unchecked = False
            else:
                f = solve.feasible(pc + [z3.Not(c)], uni)
                d = True
                if f is not False:
                    fr.alts.append(fr.trail + [False])
        fr.trail.append(d)
        fr.pc.append(c if d else z3.Not(c))
        return d

    lift_branches = True

    def level_of(self, c):
        """the outermost frame (1-based) at which every symbol of the condition is meaningful"""
        lv = 1
        owners = {}
        for n, f in enumerate(self.frames):
            for i in f.owner:
                owners[i] = n + 1
        for k, n in symbols(c):
            o = owners.get(k)
            lv = max(lv, n if o is None else o)
        return lv

    def branch_at(self, lv, c):
        """a case split that does not depend on the generic element is made outside the cut loop"""
        from . import solve
        fr = self.frames[lv - 1]
        pos = len(fr.trail)
        if pos < len(fr.prefix):
            d = fr.prefix[pos]
        else:
            self.stats['branches'] += 1
            pc = []
            for f in self.frames[:lv]:
                pc.extend(f.pc)
            uni = self.universals()
            if solve.feasible(pc + [c], uni) is False:
                d = False
            else:
                d = True
                if solve.feasible(pc + [z3.Not(c)], uni) is not False:
                    fr.alts.append(fr.trail + [False])
        fr.trail.append(d)
        fr.pc.append(c if d else z3.Not(c))
        # the inner path may contradict the decision
        allpc = self.pc()
        if solve.feasible(allpc, self.universals()) is False:
            raise Infeasible()
        return d

    # -- objects --------------------------------------------------------------------------
    def owner(self):
        r = ()
        for f in self.frames:
            r = r + tuple(f.owner)
        return r

    def note_write(self, obj):
        """called on every attribute write on an object of an instrumented class"""
        cur = self.owner()
        s = self.stamp.get(id(obj))
        if s is None:
            self.stamp[id(obj)] = (cur, obj)
        elif s[0] != cur:
            raise Unsupported(f'generic loop iteration writes to an outer {type(obj).__name__}')

    def owned_by(self, obj):
        s = self.stamp.get(id(obj))
        return s[0] if s else ()

    def fresh(self, base, sort='real'):
        """deterministic within a path (re-execution yields the same names)"""
        if self.frames:
            fr = self.frames[-1]
            fr.counter += 1
            name = f'{base}!{len(self.frames)}.{fr.counter}'
        else:
            self.gcounter += 1
            name = f'{base}!g{self.gcounter}'
        if sort == 'real':
            return z3.Real(name)
        if sort == 'int':
            return z3.Int(name)
        return z3.Bool(name)


ENG = Engine()
_symbols = {}


def symbols(c):
    """(id, the frame its name belongs to) of the uninterpreted constants of c"""
    r = _symbols.get(c.get_id())
    if r is None:
        out = []
        for n in nodes([c], True):
            if n.const:
                b = n.name.rfind('!')
                lv = int(n.name[b + 1:n.name.index('.', b)]) if b >= 0 and '.' in n.name[b:] and n.name[b + 1] != 'g' else 1
                out.append((n.id, lv))
        r = _symbols[c.get_id()] = (c, out)
    return r[1]


def quick_simplify(c):
    c = z3.simplify(c)
    if z3.is_true(c) or z3.is_false(c):
        return c
    # try the ring normaliser on (in)equalities whose difference is constant
    if z3.is_app(c):
        k = c.decl().kind()
        neg = False
        a = c
        if k == z3.Z3_OP_NOT:
            neg = True
            a = c.children()[0]
            k = a.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(a.children()[0]):
            x, y = a.children()
            if k == z3.Z3_OP_EQ:
                p = zero_product(x, y)
                if p is not None:
                    p = quick_simplify(z3.Or(*[quick_simplify(f == (0 if z3.is_int(f) else rv(0))) for f in p]))
                    return quick_simplify(z3.Not(p)) if neg else p
            if RING.equal(x, y):
                v = k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE)
                return z3.BoolVal(v != neg)
            v = RING.const_of(to_real(x) - to_real(y))
            if v is not None:
                r = {z3.Z3_OP_EQ: v == 0, z3.Z3_OP_LE: v <= 0, z3.Z3_OP_GE: v >= 0,
                     z3.Z3_OP_LT: v < 0, z3.Z3_OP_GT: v > 0}[k]
                return z3.BoolVal(r != neg)
    return c


def zero_product(x, y):
    """non-constant factors of x when  x == y  says that a product vanishes"""
    for a, b in ((x, y), (y, x)):
        if (z3.is_rational_value(b) and b.as_fraction() == 0) or (z3.is_int_value(b) and b.as_long() == 0):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_MUL:
                fs = []
                stack = [a]
                while stack:
                    t = stack.pop()
                    k = t.decl().kind()
                    if k == z3.Z3_OP_MUL:
                        stack.extend(t.children())
                    elif z3.is_rational_value(t) or z3.is_int_value(t):
                        if RING.const_of(to_real(t)) == 0:
                            return None
                    else:
                        fs.append(t)
                if len(fs) > 1 or (fs and len(fs) < len(a.children())):
                    return fs
    return None


def to_real(t):
    return z3.ToReal(t) if z3.is_int(t) else t


# ---------------------------------------------------------------------------------------------
class Sym:
    """base class of all proxies"""
    __array_ufunc__ = None


class SBool(Sym):
    __slots__ = ('t',)
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.branch(self.t)

    def __and__(self, o):
        return mkbool(z3.And(self.t, bterm(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.t, bterm(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.t == bterm(o))
        return NotImplemented

    def __ne__(self, o):
        if isinstance(o, (SBool, bool)):
            return mkbool(self.t != bterm(o))
        return NotImplemented

    # numeric use of a bool
    def _num(self):
        return SNum(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)), 'int')

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __repr__(self):
        return f'SBool({self.t})'


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool,)):
        return z3.BoolVal(x)
    if z3.is_bool(x):
        return x
    import numpy as np
    if isinstance(x, np.bool_):
        return z3.BoolVal(bool(x))
    return z3.BoolVal(bool(x))


def mkbool(t):
    t = quick_simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SBool(t)


def And(*xs):
    return mkbool(z3.And(*[bterm(x) for x in xs])) if xs else True


def Or(*xs):
    return mkbool(z3.Or(*[bterm(x) for x in xs])) if xs else False


def Not(x):
    return mkbool(z3.Not(bterm(x)))


def Implies(a, b):
    return mkbool(z3.Implies(bterm(a), bterm(b)))


def Iff(a, b):
    return mkbool(bterm(a) == bterm(b))


def is_number(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.integer, np.floating)) and not isinstance(x, Sym)


def lift(x):
    """number -> SNum or None"""
    if isinstance(x, SNum):
        return x
    if isinstance(x, SBool):
        return x._num()
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return SNum(z3.IntVal(int(x)), 'int')
    if isinstance(x, (int, np.integer)):
        return SNum(z3.IntVal(int(x)), 'int')
    if isinstance(x, (float, Fraction, np.floating)):
        f = float(x) if not isinstance(x, Fraction) else x
        if f != f or f in (float('inf'), float('-inf')):
            return None
        return SNum(rv(f), 'float')
    return None


def _is_complex(x):
    import numpy as np
    return isinstance(x, (complex, np.complexfloating, SComplex))


class SNum(Sym):
    __slots__ = ('t', 'py')

    def __init__(self, t, py=None):
        self.t = t
        self.py = py or ('int' if z3.is_int(t) else 'float')

    # -- arithmetic -------------------------------------------------------------------------
    @property
    def r(self):
        return to_real(self.t)

    def _bin(self, o, f, rev=False):
        import numpy as np
        if _is_complex(o):
            a, b = SComplex.lift(self), SComplex.lift(o)
            if rev:
                a, b = b, a
            return getattr(a, f)(b)
        if isinstance(o, np.ndarray):
            return elementwise(self, o, f, rev)
        b = lift(o)
        if b is None:
            if isinstance(o, (float, np.floating)):
                raise Unsupported('arithmetic with a non-finite float')
            return NotImplemented
        a = self
        if rev:
            a, b = b, a
        return getattr(SNum, '_op' + f)(a, b)

    def _op__add__(a, b):
        if a.py == b.py == 'int':
            return mknum(a.t + b.t, 'int')
        return mknum(a.r + b.r, 'float')

    def _op__sub__(a, b):
        if a.py == b.py == 'int':
            return mknum(a.t - b.t, 'int')
        return mknum(a.r - b.r, 'float')

    def _op__mul__(a, b):
        if a.py == b.py == 'int':
            return mknum(a.t * b.t, 'int')
        return mknum(a.r * b.r, 'float')

    def _op__truediv__(a, b):
        if ENG.branch(b.r == 0):
            raise ZeroDivisionError('float division by zero')
        return mknum(a.r / b.r, 'float')

    def _op__floordiv__(a, b):
        if ENG.branch(b.r == 0):
            raise ZeroDivisionError('division by zero')
        if a.py == b.py == 'int':
            if z3.is_int_value(b.t) and b.t.as_long() > 0:
                return mknum(a.t / b.t, 'int')
            raise Unsupported('// by a symbolic int')
        return mknum(z3.ToReal(RING.floor(a.r / b.r)), 'float')

    def _op__mod__(a, b):
        if ENG.branch(b.r == 0):
            raise ZeroDivisionError('modulo by zero')
        bc = RING.const_of(b.r)
        if bc is None:
            raise Unsupported('% by a symbolic number')
        if bc.denominator == 1 and bc > 0:
            n, d = RING.rf(a.r)
            if RING.int_valued(n, d):
                it = RING.poly_to_z3(n, real=False)
                t = it % z3.IntVal(int(bc))
                return mknum(t, 'int') if a.py == b.py == 'int' else SNum(z3.ToReal(t), 'float')
        t = a.r - b.r * z3.ToReal(RING.floor(a.r / b.r))
        return mknum(t, 'float')

    def _op__pow__(a, b):
        c = RING.const_of(b.r)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 16:
                n = int(c)
                if n < 0:
                    if ENG.branch(a.r == 0):
                        raise ZeroDivisionError('0.0 cannot be raised to a negative power')
                    r = SNum(rv(1), 'float')
                    for _ in range(-n):
                        r = r * a
                    return mknum(1 / r.r, 'float')
                if n == 0:
                    return SNum(z3.IntVal(1), 'int') if a.py == b.py == 'int' else SNum(rv(1), 'float')
                r = a
                for _ in range(n - 1):
                    r = r * a
                return r if a.py == b.py == 'int' else mknum(r.r, 'float')
            if c.denominator == 2:
                if ENG.branch(a.r < 0):
                    raise Unsupported('complex power of a negative number')
                n = abs(c.numerator)
                base = sqrt(a)
                r = base
                for _ in range(n - 1):
                    r = r * base
                if c < 0:
                    return SNum(rv(1), 'float') / r
                return r
        ca = RING.const_of(a.r)
        if ca == -1:
            n, d = RING.rf(b.r)
            if RING.int_valued(n, d):
                it = RING.poly_to_z3(n, real=False)
                return SNum(PARITY(z3.simplify(it)), 'float')
            # an integer by the path condition?
            from . import solve
            fl = RING.floor(b.r)
            if solve.prove(ENG.pc(), z3.ToReal(fl) == b.r, ENG.universals(), timeout=3000).proved:
                return SNum(PARITY(fl), 'float')
            raise Unsupported('(-1)**x with x not known to be an integer')
        return SNum(POW(a.r, b.r), 'float')

    def __add__(self, o):
        return self._bin(o, '__add__')

    def __radd__(self, o):
        return self._bin(o, '__add__', True)

    def __sub__(self, o):
        return self._bin(o, '__sub__')

    def __rsub__(self, o):
        return self._bin(o, '__sub__', True)

    def __mul__(self, o):
        return self._bin(o, '__mul__')

    def __rmul__(self, o):
        return self._bin(o, '__mul__', True)

    def __truediv__(self, o):
        return self._bin(o, '__truediv__')

    def __rtruediv__(self, o):
        return self._bin(o, '__truediv__', True)

    def __floordiv__(self, o):
        return self._bin(o, '__floordiv__')

    def __rfloordiv__(self, o):
        return self._bin(o, '__floordiv__', True)

    def __mod__(self, o):
        return self._bin(o, '__mod__')

    def __rmod__(self, o):
        return self._bin(o, '__mod__', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        if mod is not None:
            raise Unsupported('3-argument pow')
        return self._bin(o, '__pow__')

    def __rpow__(self, o):
        return self._bin(o, '__pow__', True)

    def __neg__(self):
        return mknum(-self.t, self.py)

    def __pos__(self):
        return self

    def __abs__(self):
        c = RING.const_of(self.r)
        if c is not None:
            return self if c >= 0 else mknum(-self.t, self.py)
        return AbsNum(self)

    # -- comparison -------------------------------------------------------------------------
    def _cmp(self, o, f):
        import numpy as np
        if isinstance(o, np.ndarray):
            return elementwise(self, o, f, False)
        if isinstance(o, (float, np.floating)) and not math.isfinite(o):
            o = float(o)
            if o != o:
                return f == '__ne__'
            return {'__lt__': o > 0, '__le__': o > 0, '__gt__': o < 0, '__ge__': o < 0,
                    '__eq__': False, '__ne__': True}[f]
        b = lift(o)
        if b is None:
            return NotImplemented
        if self.py == b.py == 'int':
            x, y = self.t, b.t
        else:
            x, y = self.r, b.r
        t = {'__lt__': lambda: x < y, '__le__': lambda: x <= y, '__gt__': lambda: x > y,
             '__ge__': lambda: x >= y, '__eq__': lambda: x == y, '__ne__': lambda: x != y}[f]()
        return mkbool(t)

    def __lt__(self, o):
        return self._cmp(o, '__lt__')

    def __le__(self, o):
        return self._cmp(o, '__le__')

    def __gt__(self, o):
        return self._cmp(o, '__gt__')

    def __ge__(self, o):
        return self._cmp(o, '__ge__')

    def __eq__(self, o):
        return self._cmp(o, '__eq__')

    def __ne__(self, o):
        return self._cmp(o, '__ne__')

    def __hash__(self):
        return 0x51A7

    def __bool__(self):
        return ENG.branch(self.r != 0)

    # -- float API --------------------------------------------------------------------------
    def is_integer(self):
        n, d = RING.rf(self.r)
        if RING.int_valued(n, d):
            return True
        return mkbool(z3.IsInt(self.r))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return SNum(rv(0), 'float')

    def conjugate(self):
        return self

    def item(self):
        return self

    def sqrt(self):
        return sqrt(self)

    def __round__(self, n=None):
        if n is None:
            raise Unsupported('round(x) of a symbolic number')
        return SNum(ROUND(self.r, lift(n).t), 'float')

    def __float__(self):
        raise Unsupported('C-level float() of a symbolic number')

    def __int__(self):
        raise Unsupported('C-level int() of a symbolic number')

    def __index__(self):
        c = RING.const_of(self.r)
        if self.py == 'int' and c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported('symbolic number used as a C-level index')

    def __format__(self, spec):
        if spec == '':
            return repr(self)
        raise Unsupported('C-level format of a symbolic number')

    def __repr__(self):
        return f'⟨{z3.simplify(self.t)}⟩'

    __str__ = __repr__

    # copying
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mknum(t, py=None):
    return SNum(t, py)


def elementwise(a, arr, f, rev):
    import numpy as np
    import operator
    op = {'__add__': operator.add, '__sub__': operator.sub, '__mul__': operator.mul,
          '__truediv__': operator.truediv, '__pow__': operator.pow, '__mod__': operator.mod,
          '__floordiv__': operator.floordiv,
          '__lt__': operator.lt, '__le__': operator.le, '__gt__': operator.gt, '__ge__': operator.ge,
          '__eq__': operator.eq, '__ne__': operator.ne}[f]
    out = np.empty(arr.shape, dtype=object)
    for i in np.ndindex(arr.shape):
        out[i] = op(arr[i], a) if rev else op(a, arr[i])
    return out if arr.shape else out.item()


def sqrt(x):
    x = lift(x)
    c = RING.const_of(x.r)
    if c is not None and c >= 0:
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            return SNum(rv(Fraction(p, q)), 'float')
    if not nonneg_product(x.r) and ENG.branch(x.r < 0):
        raise Unsupported('square root of a negative number')
    out, t = square_content(x.r)
    if out is None:
        return SNum(SQRT(x.r), 'float')
    return SNum(out * SQRT(t), 'float')


def nonneg_product(t):
    """a product of factors that are each known to be nonnegative"""
    from . import solve
    fs, stack = [], [t]
    while stack:
        x = stack.pop()
        if z3.is_mul(x):
            stack.extend(x.children())
        else:
            fs.append(x)
    return len(fs) > 1 and bool(ENG.frames) and all(solve.feasible(ENG.pc() + [f < 0], ENG.universals()) is False for f in fs)


def square_content(t):
    """t = g**2 * rest with a monomial g of known sign: (|g|, rest)"""
    from . import solve
    try:
        n, d = RING.rf(t)
    except Exception:
        return None, t
    if d.as_const() is None or len(n.d) < 1:
        return None, t
    common = None
    for m in n.d:
        e = dict(m)
        common = e if common is None else {a: min(k, e.get(a, 0)) for a, k in common.items() if e.get(a, 0)}
    g = None
    for a, k in (common or {}).items():
        if k < 2:
            continue
        x = RING.terms[a]
        x = z3.ToReal(x) if z3.is_int(x) else x
        pc, uni = ENG.pc(), ENG.universals()
        if solve.feasible(pc + [x < 0], uni) is False:
            v = x
        elif solve.feasible(pc + [x > 0], uni) is False:
            v = -x
        else:
            continue
        h = k // 2
        for _ in range(h):
            g = v if g is None else g * v
        t = RING.to_z3((div_mono(n, a, 2 * h), d))
        n, d = RING.rf(t)
    return g, t


def div_mono(p, a, k):
    out = {}
    for m, c in p.d.items():
        e = dict(m)
        e[a] -= k
        out[tuple(sorted((b, j) for b, j in e.items() if j))] = c
    return type(p)(out)


class AbsNum(SNum):
    """|x|: the case split on the sign is made only where the value itself is needed"""
    __slots__ = ('of',)
    __hash__ = None

    def __init__(self, of):
        self.of, self.py = of, of.py

    @property
    def t(self):
        return self.of.t if ENG.branch(self.of.r >= 0) else (-self.of).t

    def __abs__(self):
        return self

    def _cmp(self, o, f):
        if f in ('__le__', '__lt__', '__ge__', '__gt__') and lift(o) is not None and not isinstance(o, AbsNum):
            a, b = self.of._cmp(o, f), (-self.of)._cmp(o, f)
            return And(a, b) if f in ('__le__', '__lt__') else Or(a, b)
        return SNum._cmp(self, o, f)


def s_abs(x):
    return abs(x)


class SComplex(Sym):
    """complex number with symbolic parts"""
    __slots__ = ('re', 'im')
    __hash__ = None

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def lift(x):
        if isinstance(x, SComplex):
            return x
        import numpy as np
        if isinstance(x, (complex, np.complexfloating)):
            return SComplex(lift(x.real), lift(x.imag))
        n = lift(x)
        return None if n is None else SComplex(n, lift(0.0))

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)

    def _b(self, o):
        import numpy as np
        if isinstance(o, np.ndarray):
            return None
        return SComplex.lift(o)

    def __add__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else SComplex(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else SComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = self._b(o)
        return NotImplemented if o is None else SComplex(o.re - self.re, o.im - self.im)

    def __mul__(self, o):
        o = self._b(o)
        if o is None:
            return NotImplemented
        return SComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self._b(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * SComplex(o.re, -o.im)
        return SComplex(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        return SComplex.lift(o) / self

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def __pow__(self, n):
        if isinstance(n, int) and 0 < n < 9:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        raise Unsupported('complex power')

    def conjugate(self):
        return SComplex(self.re, -self.im)

    def __eq__(self, o):
        o = self._b(o)
        if o is None:
            return NotImplemented
        return And(self.re == o.re, self.im == o.im)

    def __ne__(self, o):
        e = self.__eq__(o)
        return NotImplemented if e is NotImplemented else Not(e)

    def __repr__(self):
        return f'({self.re} + {self.im} j)'


# numeric tower membership so that libraries treat proxies as numbers
numbers.Number.register(SNum)
numbers.Number.register(SComplex)


def s_float(x):
    """hooked float()"""
    if isinstance(x, SNum):
        return SNum(x.r, 'float')
    if isinstance(x, SBool):
        return SNum(x._num().r, 'float')
    if hasattr(x, '__vc_float__'):
        return x.__vc_float__()
    return float(x)


def s_int(x, *a):
    """hooked int(): truncation toward zero"""
    if isinstance(x, SBool):
        return x._num()
    if isinstance(x, SNum):
        if x.py == 'int':
            return x
        n, d = RING.rf(x.r)
        if RING.int_valued(n, d):
            return SNum(RING.poly_to_z3(n, real=False), 'int')
        if ENG.branch(x.r >= 0):
            return SNum(RING.floor(x.r), 'int')
        return SNum(-RING.floor(-x.r), 'int')
    if hasattr(x, '__vc_int__'):
        return x.__vc_int__(*a)
    return int(x, *a)


# ---------------------------------------------------------------------------------------------
#  harness-level helpers
# ---------------------------------------------------------------------------------------------
def Int(name, lo=None):
    s = SNum(z3.Int(name), 'int')
    ENG.inputs[name] = s
    if lo is not None:
        ENG.assume(s.t >= lo)
    return s


def Real(name, lo=None):
    s = SNum(z3.Real(name), 'float')
    ENG.inputs[name] = s
    if lo is not None:
        ENG.assume(s.t >= rv(lo))
    return s


def Bool(name):
    s = SBool(z3.Bool(name))
    ENG.inputs[name] = s
    return s


def Half(name, lo=0):
    """a half-integer quantum number name/2 with name >= lo"""
    n = Int(name)
    if lo is not None:
        ENG.assume(n.t >= lo)
    return SNum(to_real(n.t) / 2, 'float')
