"""Hooks called by the transformed source (see transform.py) and the builtin functions it sees."""
from __future__ import annotations
import builtins
import operator
import types
from fractions import Fraction

import numpy as np
import z3

from . import seq as Q
from . import core
from .core import sqrt, Deadline, ENG, SNum, SBool, SComplex, Sym, Unsupported, lift, mkbool, bterm, s_float, s_int, s_abs
from .rope import lit_at, lit_find, SStr, str_contains, str_join, to_str, toks_of, mkstr
from .seq import SymSeq, VDict, VSet, VSeqIter, LoopBreak, LoopReturn, is_symbolic_iter, seq_of

NameError = builtins.NameError
realdict = dict
UNPACK = object()


def contains_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (tuple, list)):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, np.ndarray) and x.dtype == object:
        return any(contains_sym(y, depth - 1) for y in x.ravel())
    return False


# -- strings ------------------------------------------------------------------------------------
def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = b_repr(v)
        elif conv == 115 or conv == 97:
            v = to_str(v)
        if spec is None or (isinstance(spec, str) and spec == ''):
            s = v if isinstance(v, (str, SStr)) else b_format(v)
        else:
            s = b_format(v, spec)
        out.append(s)
    if all(isinstance(s, str) for s in out):
        return ''.join(out)
    r = ''
    for s in out:
        r = r + s if not (isinstance(r, str) and isinstance(s, SStr) and r == '') else s
    return r


def b_format(v, spec=''):
    if isinstance(v, SStr) or isinstance(v, SNum):
        if spec == '':
            return to_str(v)
        return v.__format__(spec)
    if spec == '':
        return to_str(v)
    return builtins.format(v, spec)


def strmod(fmt, args):
    if not contains_sym(args):
        return fmt % args
    if not isinstance(args, tuple):
        args = (args,)
    import re
    parts = re.split(r'(%[sdr])', fmt)
    out, k = '', 0
    for p in parts:
        if p in ('%s', '%d', '%r'):
            v = args[k]
            k += 1
            if p == '%d':
                v = s_int(v)
            out = out + to_str(v)
        elif '%' in p:
            raise Unsupported('% formatting')
        else:
            out = out + p
    return out


def strformat(fmt, a, k):
    import string
    if not any(contains_sym(x) for x in a) and not any(contains_sym(x) for x in k.values()) and \
            not any(getattr(type(x), '__vc_instrumented__', False) for x in a):
        return fmt.format(*a, **k)
    out, auto = '', 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out = out + lit
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported('format field')
        if spec:
            raise Unsupported('format spec')
        if conv == 'r':
            v = b_repr(v)
        out = out + to_str(v)
    return out


def lift_str(s):
    return s if isinstance(s, SStr) else SStr(toks_of(s))


# -- operators ----------------------------------------------------------------------------------
def in_(a, b):
    if isinstance(b, SStr):
        return str_contains(b, a)
    if isinstance(b, str):
        if isinstance(a, SStr):
            return str_contains(lift_str(b), a)
        return a in b
    if isinstance(b, SymSeq):
        return Q.seq_contains(b, a)
    if isinstance(b, VSeqIter):
        return Q.seq_contains(b.seq, a)
    if isinstance(b, (VDict, VSet)):
        return b.__contains__(a)
    f = getattr(type(b), '__vc_contains__', None)
    if f is not None:
        return f(b, a)
    if isinstance(b, (tuple, list, set, frozenset, dict, type({}.keys()), type({}.values()))):
        if isinstance(a, str) and not isinstance(b, (tuple, list)) and a in b:
            return True
        if contains_sym(a) or any(contains_sym(x) for x in b):
            for x in b:
                if x is a or Q.eq_branch(x, a):
                    return True
            return False
        return a in b
    if getattr(type(b), '__vc_instrumented__', False):
        c = getattr(type(b), '__contains__', None)
        if c is not None and not is_mixin(c):
            return c(b, a)
        return in_(a, b_iter(b))
    return a in b


def is_mixin(f):
    return getattr(f, '__module__', '') in ('collections.abc', '_collections_abc')


def is_(a, b):
    if isinstance(a, SStr) or isinstance(b, SStr):
        if isinstance(a, str) and a == '' or isinstance(b, str) and b == '':
            return eq(a, b)
        return a is b
    if isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
        return mkbool(bterm(a) == bterm(b))
    a, b = untype(a), untype(b)
    return a is b


def untype(x):
    return x.real if isinstance(x, TypeHook) else x


def eq(a, b):
    if isinstance(a, TypeHook) or isinstance(b, TypeHook):
        return untype(a) is untype(b)
    return a == b


def ne(a, b):
    r = eq(a, b)
    if isinstance(a, TypeHook) or isinstance(b, TypeHook):
        return not r
    return a != b


def add(a, b):
    if isinstance(a, str) and isinstance(b, SStr):
        return lift_str(a) + b
    if isinstance(a, list) and isinstance(b, SymSeq):
        return b.__radd__(a)
    if isinstance(a, Sym) or isinstance(b, Sym):
        r = NotImplemented
        if isinstance(a, SymSeq) or isinstance(b, SymSeq):
            pass
    return a + b


def pow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, SNum):
        return b.__rpow__(a)
    if type(b) is float and b == 0.5 and type(a) in (int, float) and a > 0 and ENG.frames:
        return sqrt(a)      # exact, not rounded
    return a ** b


def iadd(a, b):
    if isinstance(a, list):
        guard_mutation(a)
        if isinstance(b, (SymSeq, VSeqIter)) and not is_symbolic_iter(b):
            b = list(seq_of(b).items_concrete())
        a += b
        return a
    if isinstance(a, str) and isinstance(b, SStr):
        return lift_str(a) + b
    a += b
    return a


def unpack(v, n):
    if isinstance(v, (tuple, list)):
        if len(v) != n:
            raise ValueError(f'cannot unpack {len(v)} values into {n}')
        return v
    if isinstance(v, (SymSeq, VSeqIter)) or getattr(type(v), '__vc_seq__', None):
        s = seq_of(v)
        if not s.concrete:
            m = b_len(s)
            if not (m == n):
                raise ValueError('unpack')
            return [s[i] for i in range(n)]
        xs = s.items_concrete()
        if len(xs) != n:
            raise ValueError(f'cannot unpack {len(xs)} values into {n}')
        return xs
    if isinstance(v, np.ndarray):
        return list(v)
    xs = list(b_iter(v))
    if len(xs) != n:
        raise ValueError('unpack')
    return xs


def slice(a, b, c):
    return builtins.slice(a, b, c)


def conc_index(n, k):
    """concretise a symbolic index into a container of concrete length n"""
    k = k.num() if hasattr(k, 'num') else k
    for i in range(n):
        if k == i:
            return i
    for i in range(-1, -n - 1, -1):
        if k == i:
            return i
    raise IndexError('index out of range')


def getitem(o, k):
    if isinstance(o, (SStr, SymSeq, VDict)):
        return o[k]
    if isinstance(o, (str, tuple, list, range)):
        if isinstance(k, (SNum, Q.FlatIdx)):
            if isinstance(k, SNum) and k.py != 'int':
                raise TypeError('indices must be integers or slices, not float')
            if isinstance(o, str) and isinstance(k, SNum) and len(o) > 4:
                return lit_at(o, k)
            return o[conc_index(len(o), k)]
        if isinstance(k, builtins.slice) and any(isinstance(x, SNum) for x in (k.start, k.stop, k.step)):
            return SymSeq([Q.single(x) for x in o])[k] if not isinstance(o, str) else lift_str(o)[k]
        return o[k]
    if isinstance(o, dict):
        if contains_sym(k) or any(contains_sym(x) for x in o):
            for x in o:
                if Q.eq_branch(x, k):
                    return o[x]
            raise KeyError(k)
        return o[k]
    if isinstance(o, np.ndarray):
        if isinstance(k, SNum):
            return o[conc_index(len(o), k)]
        if isinstance(k, tuple) and any(isinstance(x, SNum) for x in k):
            k = tuple(conc_index(o.shape[i], x) if isinstance(x, SNum) else x for i, x in enumerate(k))
        return o[k]
    return o[k]


def guard_mutation(o):
    if isinstance(o, (list, dict, set)) and ENG.frames:
        cur = ENG.owner()
        if cur and ENG.owned_by(o) != cur:
            raise Unsupported('generic iteration mutates a plain container of an outer scope')


def setitem(o, k, v):
    guard_mutation(o)
    if isinstance(o, dict) and contains_sym(k):
        raise Unsupported('symbolic key in a plain dict')
    if isinstance(o, list) and isinstance(k, SNum):
        k = conc_index(len(o), k)
    if isinstance(o, np.ndarray):
        if isinstance(k, SNum):
            k = conc_index(len(o), k)
        if o.dtype != object and contains_sym(v):
            raise Unsupported('symbolic store into a numeric array')
        if ENG.owner():
            raise Unsupported('array store in a generic iteration')
    o[k] = v


def delitem(o, k):
    guard_mutation(o)
    if isinstance(o, dict) and contains_sym(k):
        raise Unsupported('symbolic key in a plain dict')
    del o[k]


def augitem(o, k, op, v):
    setitem(o, k, getattr(operator, op)(getitem(o, k), v))


MUT = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'add', 'discard', 'update',
       'setdefault', 'difference_update', 'intersection_update', 'appendleft', 'popleft'}


def method(o, name):
    if isinstance(o, str):
        def f(*a, **k):
            if name == 'format':
                return strformat(o, a, k)
            if name == 'join':
                return str_join(o, a[0])
            if any(isinstance(x, SStr) or contains_sym(x) for x in a):
                if name in ('index', 'find') and len(a) == 1 and isinstance(a[0], SStr):
                    r = lit_find(o, a[0])
                    if name == 'index' and bool(r < 0):
                        raise ValueError('substring not found')
                    return r
                return getattr(lift_str(o), name)(*a, **k)
            return getattr(o, name)(*a, **k)
        return f
    if isinstance(o, SStr):
        if name == 'format':
            return o.format
        return getattr(o, name)
    if name in MUT:
        guard_mutation(o)
    if isinstance(o, list):
        if name == 'extend':
            def f(it):
                if is_symbolic_iter(it):
                    raise Unsupported('plain list extended by a symbolic sequence')
                o.extend(seq_of(it).items_concrete() if isinstance(it, (SymSeq, VSeqIter, VDict)) else it)
            return f
        if name == 'sort':
            def f(key=None, reverse=False):
                o[:] = b_sorted(o, key=key, reverse=reverse).items_concrete()
            return f
        if name in ('index', 'count', 'remove'):
            return lambda *a: getattr(SymSeq([Q.single(x) for x in o]), name)(*a) if name != 'remove' else o.remove(*a)
    return getattr(o, name)


def note_new(x):
    if ENG.frames and ENG.owner():
        ENG.stamp[id(x)] = (ENG.owner(), x)
    return x


def newlist(*xs):
    if not ENG.frames:
        return list(xs)
    return SymSeq([Q.single(x) for x in xs], 'list')


def newdict(*items):
    if not ENG.frames:
        d = {}
        for k, v in items:
            if k is UNPACK:
                d.update(v)
            else:
                d[k] = v
        return d
    d = VDict()
    for k, v in items:
        if k is UNPACK:
            d.update(v)
        else:
            d[k] = v
    return d


def newset(*xs):
    return Q.make_set(list(xs))


# -- loops and comprehensions ----------------------------------------------------------------------
class Res:
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


def isunbound(d, k):
    return k not in d or d[k] is Q.UNBOUND


def broke(r):
    return r.kind == 'break'


def returned(r):
    return r.kind == 'return'


def forloop(it, body, names, get, put):
    try:
        if is_symbolic_iter(it):
            b = Q.forloop(it, body, names, get, put)
        else:
            n = 0
            for x in plain_iter(it):
                n += 1
                if n > 200000:
                    raise Unsupported('runaway loop')
                body(x)
    except LoopBreak:
        return Res('break')
    except LoopReturn as e:
        return Res('return', e.v)
    return Res('end')


def plain_iter(it):
    if isinstance(it, (SymSeq, VDict, VSeqIter)) or hasattr(type(it), '__vc_seq__'):
        s = seq_of(it)
        if not s.concrete:
            raise Unsupported('plain iteration over a symbolic sequence')
        return builtins.iter(s.items_concrete())
    if isinstance(it, SStr):
        return builtins.iter(it)
    if getattr(type(it), '__vc_instrumented__', False):
        if '__iter__' in dir(type(it)) and not is_mixin(type(it).__iter__):
            return plain_iter(type(it).__iter__(it))
    return builtins.iter(it)


def comp(kind, it, cond, elt):
    r = Q.comp(kind, it, cond, elt)
    if kind == 'list' and isinstance(r, list) and ENG.frames:
        return SymSeq([Q.single(x) for x in r], 'list')
    return r


def chain(it):
    return Q.chain_from_iterable(it)


def collect(kind, it):
    if kind == 'list':
        return b_list(it)
    if kind == 'set':
        return Q.make_set(list(plain_iter(it)))
    d = VDict()
    for k, v in plain_iter(it):
        d[k] = v
    return d


# -- classes --------------------------------------------------------------------------------------
def cls(c):
    try:
        c.__vc_instrumented__ = True
    except Exception:
        return c
    old = c.__setattr__
    if not getattr(old, '_vc', False) and old is object.__setattr__:
        def sa(self, n, v):
            if ENG.frames:
                try:
                    cur = object.__getattribute__(self, n)
                except AttributeError:
                    cur = UNPACK
                if cur is not v:
                    ENG.note_write(self)
            object.__setattr__(self, n, v)
        sa._vc = True
        c.__setattr__ = sa
    return c


# -- builtin types --------------------------------------------------------------------------------
class TypeHook:
    def __init__(self, real, call, test):
        self.real, self.call, self.test = real, call, test

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __getattr__(self, n):
        r = getattr(self.real, n)
        if n == '__name__':
            return r

        def f(*a, **k):
            if a and isinstance(a[0], Sym):
                return getattr(a[0], n)(*a[1:], **k)
            return r(*a, **k)
        return f if callable(r) else r

    def __mro_entries__(self, bases):
        return (self.real,)

    def __eq__(self, o):
        return untype(o) is self.real

    def __ne__(self, o):
        return untype(o) is not self.real

    def __hash__(self):
        return hash(self.real)

    def __or__(self, o):
        return self.real | untype(o)

    def __ror__(self, o):
        return untype(o) | self.real

    def __getitem__(self, k):
        return self.real[k]

    def __repr__(self):
        return repr(self.real)


def c_str(*a, **k):
    if len(a) == 1 and not k:
        return to_str(a[0])
    return builtins.str(*a, **k)


def b_list(it=()):
    if not ENG.frames:
        if isinstance(it, (SymSeq, VDict, VSeqIter)) or hasattr(type(it), '__vc_seq__'):
            return seq_of(it).copy()
        return builtins.list(plain_iter(it))
    if isinstance(it, SymSeq):
        r = it.copy()
        r.kind = 'list'
        return r
    s = seq_of(it) if not isinstance(it, (str, SStr)) else SymSeq([Q.single(x) for x in it])
    return SymSeq(s.segs, 'list')


def b_tuple(it=()):
    if isinstance(it, (SymSeq, VDict, VSeqIter)) or hasattr(type(it), '__vc_seq__'):
        s = seq_of(it)
        if s.concrete:
            return tuple(s.items_concrete())
        return SymSeq(s.segs, 'tuple')
    return builtins.tuple(plain_iter(it))


def b_dict(*a, **k):
    if not ENG.frames and not (a and isinstance(a[0], Sym)):
        return builtins.dict(*a, **k)
    return VDict(*a, **k)


def b_set(it=()):
    return Q.make_set(builtins.list(plain_iter(it)))


def b_bool(x=False):
    return True if x else False


def t_float(x):
    return isinstance(x, SNum) and x.py == 'float'


def t_int(x):
    return isinstance(x, SNum) and x.py == 'int' or isinstance(x, SBool)


H = {
    'float': TypeHook(float, s_float, t_float),
    'int': TypeHook(int, s_int, t_int),
    'str': TypeHook(str, c_str, lambda x: isinstance(x, SStr)),
    'list': TypeHook(list, b_list, lambda x: isinstance(x, SymSeq) and x.kind == 'list'),
    'tuple': TypeHook(tuple, b_tuple, lambda x: isinstance(x, SymSeq) and x.kind == 'tuple'),
    'dict': TypeHook(dict, b_dict, lambda x: isinstance(x, VDict)),
    'set': TypeHook(set, b_set, lambda x: isinstance(x, VSet)),
    'bool': TypeHook(bool, b_bool, lambda x: isinstance(x, SBool)),
    'complex': TypeHook(complex, lambda *a: SComplex.lift(a[0]) if len(a) == 1 and isinstance(a[0], Sym) else complex(*a),
                        lambda x: isinstance(x, SComplex)),
}
BYREAL = {h.real: h for h in H.values()}


def b_isinstance(x, t):
    if isinstance(t, tuple):
        return any(b_isinstance(x, y) for y in t)
    t = untype(t)
    if isinstance(t, types.UnionType):
        return any(b_isinstance(x, y) for y in t.__args__)
    if isinstance(x, Sym):
        if t in BYREAL:
            return BYREAL[t].test(x)
        import numbers
        import collections.abc as abc
        if isinstance(x, SNum):
            if t in (numbers.Number, numbers.Real, numbers.Complex):
                return True
            if t in (numbers.Integral, numbers.Rational):
                return x.py == 'int'
            if t in (np.floating, np.integer, np.number, np.float64, np.int64, np.generic):
                raise Unsupported('numpy scalar test on a proxy')
        if isinstance(x, SymSeq):
            if t in (abc.Sequence, abc.Iterable, abc.Collection, abc.Sized):
                return True
            if t is np.ndarray:
                return x.kind == 'ndarray'
        if isinstance(x, VDict) and t in (abc.Mapping, abc.MutableMapping, abc.Iterable):
            return True
        if t is object:
            return True
        if isinstance(t, type) and issubclass(t, Sym):
            return isinstance(x, t)
        return False
    return builtins.isinstance(x, t)


def b_type(x, *a):
    if a:
        return builtins.type(x, *a)
    if isinstance(x, Sym):
        for h in H.values():
            if h.test(x):
                return h
        if isinstance(x, SymSeq):
            return np.ndarray if x.kind == 'ndarray' else H['list']
    t = builtins.type(x)
    return BYREAL.get(t, t)


def b_len(x):
    f = getattr(type(x), '__vc_len__', None)
    if f is not None:
        return f(x)
    if getattr(type(x), '__vc_instrumented__', False) and hasattr(type(x), '__len__'):
        return type(x).__len__(x)
    return len(x)


def b_iter(x, *a):
    if a:
        raise Unsupported('iter with sentinel')
    if isinstance(x, VSeqIter):
        return x
    if isinstance(x, (SymSeq, VDict)) or hasattr(type(x), '__vc_seq__'):
        s = seq_of(x)
        if s.concrete:
            return builtins.iter(s.items_concrete())
        return VSeqIter(s)
    if getattr(type(x), '__vc_instrumented__', False) and hasattr(type(x), '__iter__') and not is_mixin(type(x).__iter__):
        return type(x).__iter__(x)
    return builtins.iter(x)


def b_next(it, *d):
    if isinstance(it, VSeqIter):
        for s in it.seq.segs:
            if s.single:
                return s.cases[0][1]
            break
        else:
            if d:
                return d[0]
            raise StopIteration
        return first_of(it.seq, d)
    return builtins.next(it, *d)


def first_of(seq, d):
    """first element of a filtered family: an index for which the filter holds and none before it does"""
    s = seq.segs[0]
    js = [ENG.fresh('first', 'int') for _ in s.idx]
    m = list(zip(s.idx, js))
    has = ENG.fresh('has', 'bool')
    if ENG.branch(has):
        ENG.assume(z3.And(*s.dom(js)))
        g = z3.substitute(s.guard(), *m)
        ENG.assume(g)
        if len(js) == 1:
            ENG.frames[-1].universals.append(z3.ForAll(s.idx, z3.Implies(
                z3.And(s.idx[0] >= 0, s.idx[0] < js[0]), z3.Not(s.guard()))))
        ENG.check_feasible()
        return s.at(js)
    ENG.frames[-1].universals.append(z3.ForAll(s.idx, z3.Not(z3.And(*s.dom(), s.guard()))))
    rest = SymSeq(seq.segs[1:])
    if not rest.segs:
        if d:
            return d[0]
        raise StopIteration
    return b_next(VSeqIter(rest), *d)


def b_sum(it, start=0):
    if is_symbolic_iter(it):
        return Q.sym_sum(seq_of(it), start)
    r = start
    for x in plain_iter(it):
        r = r + x
    return r


def _minmax(sign):
    def f(*a, key=None, **k):
        if len(a) == 1:
            if is_symbolic_iter(a[0]):
                return Q.minmax(seq_of(a[0]), sign, key)
            xs = builtins.list(plain_iter(a[0]))
        else:
            xs = builtins.list(a)
        if not xs:
            if 'default' in k:
                return k['default']
            raise ValueError('arg is an empty sequence')
        kf = key or (lambda v: v)
        best, kb = xs[0], kf(xs[0])
        for x in xs[1:]:
            kx = kf(x)
            if (kx > kb) if sign > 0 else (kx < kb):
                best, kb = x, kx
        return best
    return f


def b_sorted(it, key=None, reverse=False):
    if is_symbolic_iter(it):
        return Q.sorted_seq(seq_of(it), key, reverse)
    xs = builtins.list(plain_iter(it))
    kf = key or (lambda v: v)
    if not any(contains_sym(x) or contains_sym(kf(x)) for x in xs):
        r = sorted(xs, key=key, reverse=reverse)
    else:
        r = []
        for x in xs:        # stable insertion sort
            kx = kf(x)
            i = len(r)
            while i > 0 and ((kf(r[i - 1]) < kx) if reverse else (kx < kf(r[i - 1]))):
                i -= 1
            r.insert(i, x)
    return SymSeq([Q.single(x) for x in r], 'list') if ENG.frames else r


def b_any(it):
    if is_symbolic_iter(it):
        return Q.sym_all(seq_of(it), neg=True)
    for x in plain_iter(it):
        if x:
            return True
    return False


def b_all(it):
    if is_symbolic_iter(it):
        return Q.sym_all(seq_of(it))
    for x in plain_iter(it):
        if not x:
            return False
    return True


def b_abs(x):
    if isinstance(x, Sym):
        return s_abs(x)
    return builtins.abs(x)


def b_round(x, n=None):
    if isinstance(x, SNum):
        return x.__round__(n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def b_range(*a):
    if any(isinstance(x, (SNum, Q.FlatIdx)) for x in a):
        return Q.sym_range(*a)
    return builtins.range(*a)


def b_zip(*its, strict=False):
    if any(is_symbolic_iter(i) for i in its):
        return Q.sym_zip(*its)
    return builtins.zip(*[plain_iter(i) for i in its])


def b_enumerate(it, start=0):
    if is_symbolic_iter(it):
        return Q.sym_enumerate(it, start)
    return builtins.enumerate(plain_iter(it), start)


def b_reversed(it):
    if is_symbolic_iter(it):
        return Q.sym_reversed(it)
    return builtins.reversed(builtins.list(plain_iter(it)))


def b_map(f, *its):
    if any(is_symbolic_iter(i) for i in its):
        return Q.sym_map(f, *its)
    return builtins.map(f, *[plain_iter(i) for i in its])


def b_filter(f, it):
    if is_symbolic_iter(it):
        return Q.sym_filter(f, it)
    return builtins.filter(f, plain_iter(it))


def b_repr(x):
    if isinstance(x, SStr):
        return x          # only used in messages
    if isinstance(x, Sym):
        return to_str(x)
    return builtins.repr(x)


def b_divmod(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return (a // b, a % b)
    return builtins.divmod(a, b)


def b_hash(x):
    if isinstance(x, Sym):
        raise Unsupported('hash of a proxy')
    return builtins.hash(x)


def b_pow(a, b, m=None):
    return pow(a, b)


def b_getattr(o, n, *d):
    if isinstance(n, SStr):
        raise Unsupported('getattr with a symbolic name')
    return builtins.getattr(o, n, *d)


FS = {}         # ghost file system: filled by models.py


def b_open(*a, **k):
    from . import models
    return models.ghost_open(*a, **k)


def make_builtins(imp):
    d = dict(builtins.__dict__)
    d.update({k: v for k, v in H.items()})
    d.update(isinstance=b_isinstance, type=b_type, len=b_len, iter=b_iter, next=b_next, sum=b_sum, max=_minmax(1),
             min=_minmax(-1), sorted=b_sorted, any=b_any, all=b_all, abs=b_abs, round=b_round, range=b_range, zip=b_zip,
             enumerate=b_enumerate, reversed=b_reversed, map=b_map, filter=b_filter, repr=b_repr, divmod=b_divmod,
             hash=b_hash, pow=b_pow, format=b_format, open=b_open, getattr=b_getattr,
             print=lambda *a, **k: None, __import__=imp)
    return d
