"""Collections of symbolic length, loop cuts, sums."""
from __future__ import annotations
import types
import z3

from .core import (ENG, SNum, SBool, SComplex, Sym, Unsupported, Infeasible, And, Or, Not, Implies, mkbool, bterm, lift,
                   to_real, rv, quick_simplify, Frame)
from .ring import RING, Poly, TooBig
from .rope import SStr, Opq, str_eq, mkstr
from . import core, solve

IZ = z3.IntSort()
RZ = z3.RealSort()
SUMF = z3.Function('SUM', IZ, z3.ArraySort(IZ, RZ), RZ)
PROP_INT = {}          # z3 ast id of SNum lens -> shape


class Poison(Sym):
    """value that the loop cut could not track"""

    def __init__(self, why):
        object.__setattr__(self, '_why', why)

    def _bad(self, *a, **k):
        raise Unsupported('use of untracked loop variable: ' + object.__getattribute__(self, '_why'))

    def __getattr__(self, n):
        self._bad()
    __setattr__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __eq__ = __ne__ = _bad
    __bool__ = __iter__ = __getitem__ = __len__ = __call__ = __lt__ = __gt__ = __le__ = __ge__ = __contains__ = _bad
    __hash__ = None

    def __repr__(self):
        return '<poison>'


UNBOUND = object()
_idx_n = [0]


def fresh_idx(base='k'):
    return ENG.fresh('ix' + base, 'int')


def occurs(c, t):
    if isinstance(t, (SNum, SBool)):
        t = t.t
    i = c.get_id()
    return i in term_ids(t)


_ids = {}


def term_ids(t):
    """ids of all subterms, those below binders included"""
    r = _ids.get(t.get_id())
    if r is None:
        seen = {n.id for n in core.nodes([t], True)}
        r = _ids[t.get_id()] = (t, seen)
    return r[1]


# ---------------------------------------------------------------------------------------------
#  substitution in object graphs
# ---------------------------------------------------------------------------------------------
class Subst:
    def __init__(self, pairs, tokens):
        self.pairs = [(a, b) for a, b in pairs if not a.eq(b)]
        self.tokens = set(tokens)       # owner tokens (index const ids) of the family being instantiated
        self.memo = {}
        self.keep = []
        self.terms, self.arrays = {}, None
        self.cur = ENG.owner()

    def term(self, t):
        if not self.pairs:
            return t
        k = t.get_id()
        r = self.terms.get(k)
        if r is None:
            if not self.arrays:
                n = len(self.pairs)
                a, b = (z3.Ast * n)(), (z3.Ast * n)()
                for j, (x, y) in enumerate(self.pairs):
                    assert x.sort().eq(y.sort())
                    a[j], b[j] = x.as_ast(), y.as_ast()
                self.arrays = n, a, b
            r = self.terms[k] = (t, z3.z3._to_expr_ref(z3.Z3_substitute(t.ctx.ref(), t.as_ast(), *self.arrays), t.ctx))
        return r[1]

    def num(self, x):
        return SNum(self.term(x.t), x.py)

    def obj(self, v):
        if v is None or isinstance(v, (str, int, float, complex, bool, type, types.ModuleType, bytes)):
            return v
        if isinstance(v, SNum):
            r = self.num(v)
            return r
        if isinstance(v, FlatIdx):
            return FlatIdx([self.term(x) for x in v.idx], [self.term(x) for x in v.dims])
        if isinstance(v, SBool):
            return mkbool(self.term(v.t))
        if isinstance(v, SStr):
            return v.sub(self.term)
        if isinstance(v, SComplex):
            return SComplex(self.obj(v.re), self.obj(v.im))
        k = id(v)
        if k in self.memo:
            return self.memo[k]
        self.keep.append(v)
        f = getattr(type(v), '__vc_subst__', None)
        if f is not None:
            own = getattr(v, 'stamp', None)
            if not own or not isinstance(v, (SymSeq, VDict)):
                r = f(v, self)
                self.memo[k] = r
                return r
            root, terms, new = self.origin(v, own)
            if new is None:
                return v
            at = point(tuple(root.stamp), new)
            hit = at.table.get(id(root))
            if hit is None:
                r = f(v, self)
                at.enter(root, r, new)
            else:
                r = hit[1]
            self.memo[k] = r
            return r
        if isinstance(v, tuple):
            xs = [self.obj(x) for x in v]
            r = v if all(a is b for a, b in zip(xs, v)) else tuple(xs)
            self.memo[k] = r
            return r
        if isinstance(v, list):
            r = self.memo[k] = []
            r.extend(self.obj(x) for x in v)
            return r
        if isinstance(v, dict):
            r = self.memo[k] = {}
            for a, b in v.items():
                r[self.obj(a)] = self.obj(b)
            return r
        import numpy as np
        if isinstance(v, np.ndarray):
            if v.dtype != object:
                return v
            r = np.empty(v.shape, dtype=object)
            self.memo[k] = r
            for i in np.ndindex(v.shape):
                r[i] = self.obj(v[i])
            return r
        if isinstance(v, types.MethodType):
            return types.MethodType(v.__func__, self.obj(v.__self__))
        if isinstance(v, types.FunctionType):
            if v.__closure__ and any(_is_symbolic_cell(c) for c in v.__closure__):
                raise Unsupported('closure inside a generalised value')
            return v
        owner = ENG.owned_by(v)
        cls = type(v)
        if not owner:
            if hasattr(v, '_magnitude') and hasattr(v, '_units'):
                # a quantity is a value: it has no identity of its own
                m = self.obj(v._magnitude)
                r = self.memo[k] = v if m is v._magnitude else cls(m, v._units)
                return r
            if self.foreign(v):
                raise Unsupported('family member inside an object of a library: ' + cls.__name__)
            return v            # an outer object: shared
        if not hasattr(v, '__dict__') and not slots_of(cls):
            return v
        root, terms, new = self.origin(v, owner)
        if new is None:
            return v
        at = point(owner_of(root), new)
        hit = at.table.get(id(root))
        if hit is not None:
            self.memo[k] = hit[1]
            return hit[1]
        r = cls.__new__(cls)
        self.memo[k] = r
        ENG.stamp[id(r)] = (self.cur, r)
        at.enter(root, r, new)
        for n, x in state_of(v):
            object.__setattr__(r, n, self.obj(x))
        record(root, new, r)
        return r

    def foreign(self, v):
        """does an object that no code under verification allocated hold a value that depends on the index"""
        try:
            st = [x for _, x in state_of(v)]
        except Exception:
            return False
        ts = [y for x in st for y in (x if isinstance(x, (list, tuple)) else [x])]
        ts = [x.t for x in ts if isinstance(x, (SNum, SBool))]
        return any(a.get_id() in term_ids(t) for t in ts for a, _ in self.pairs)

    def origin(self, v, owner):
        """the family member v is an instance of, its index terms, and these after the substitution (None: unchanged)"""
        o = ORIG.get(id(v))
        root, terms = (o[0], o[1]) if o is not None and o[2] is v else (v, [TOK[i] for i in owner])
        new = [quick_term(self.term(t)) for t in terms]
        return root, terms, None if all(a.eq(b) for a, b in zip(terms, new)) else new


# ---------------------------------------------------------------------------------------------
#  members of families: one object per member, whichever way it is reached
# ---------------------------------------------------------------------------------------------
TOK = {}                # index constant id -> constant
DIMS = {}               # index constant id -> its bound
ORIG = {}               # id(instance) -> (family template, index terms, instance)
POINTS = {}             # index constant ids -> the Points reached on this path


class Point:
    """one index vector of a family and the members instantiated there"""

    def __init__(self, terms):
        self.terms, self.table = terms, {}

    def enter(self, root, r, new):
        self.table[id(root)] = (root, r)
        ORIG[id(r)] = (root, new, r)
        if ENG.frames:
            t = self.table
            ENG.frames[-1].cleanups.append(lambda: t.pop(id(root), None))


def owner_of(root):
    return tuple(ENG.owned_by(root)) or tuple(getattr(root, 'stamp', None) or ())


def point(tokens, terms):
    ps = POINTS.setdefault(tokens, [])
    for p in ps:
        if all(RING.equal(to_real(a), to_real(b)) for a, b in zip(p.terms, terms)):
            return p
    own = [TOK[i] for i in tokens]
    for p in ps:
        if p.table and ENG.branch(z3.And(*[a == b for a, b in zip(p.terms, terms)])):
            return p
    p = Point(terms)
    ps.append(p)
    if ENG.frames:
        ENG.frames[-1].cleanups.append(lambda: _drop(ps, p))
    return p


def contents(v):
    """what the mutable state of an object consists of, comparable by identity"""
    out = []
    for n, x in state_of(v):
        if isinstance(x, VDict):
            out.append((n, x, tuple(x.entries)))
        elif isinstance(x, SymSeq):
            out.append((n, x, tuple(x.segs)))
        elif isinstance(x, list):
            out.append((n, x, tuple(x)))
        elif isinstance(x, dict):
            out.append((n, x, tuple(x.items())))
        else:
            out.append((n, x, None))
    return out


def record(root, terms, r):
    if ENG.frames and ENG.frames[-1].owner:
        ENG.frames[-1].instances.append((root, terms, r, contents(r)))


def unchanged(a, b):
    if a is b:
        return True
    if isinstance(a, (SNum, SBool)) and isinstance(b, (SNum, SBool)):
        return a.t.eq(b.t)
    if type(a) is type(b) and isinstance(a, (str, int, float, bool, tuple)):
        try:
            return bool(a == b) if not isinstance(a, tuple) else all(unchanged(x, y) for x, y in zip(a, b)) and len(a) == len(b)
        except Unsupported:
            return False
    return False


def mutations(fr):
    """what the iteration just explored has changed in members of families: (template, terms, {attribute: value})"""
    out = []
    for root, terms, r, before in fr.instances:
        old = {n: (x, c) for n, x, c in before}
        ch = {}
        now = contents(r)
        for n, x, c in now:
            if n not in old:
                ch[n] = x
                continue
            x0, c0 = old[n]
            if not unchanged(x, x0):
                ch[n] = x
            elif c is not None and (len(c) != len(c0) or any(a is not b and not unchanged(a, b) for a, b in zip(c, c0))):
                raise Unsupported(f'a generic iteration fills {type(r).__name__}.{n} of the elements it goes through')
        if len(now) < len(old):
            raise Unsupported('deleted attribute in a generic iteration')
        if ch:
            out.append((root, terms, ch))
    return out


def merged(paths, guards, whole):
    """one set of changes out of those of the paths.  A family whose elements differ by case has one template per case."""
    by = [{(id(root), n): (root, terms, v) for root, terms, ch in r.mutations for n, v in ch.items()} for r in paths]
    out = []
    for k in dict.fromkeys(k for m in by for k in m):
        root, terms, v = next(m[k] for m in by if k in m)
        mine = [i for i, r in enumerate(paths) if id(root) in r.case]
        if not mine:
            mine = range(len(paths))
            if not whole:
                raise Unsupported('a generic iteration over a part of a family changes other objects')
        if not all(k in by[i] and all(a.eq(b) for a, b in zip(by[i][k][1], terms)) for i in mine):
            raise Unsupported('a generic iteration changes some of the elements it goes through')
        vs, gs = [by[i][k][2] for i in mine], [guards[i] for i in mine]
        if not all(unchanged(x, vs[0]) for x in vs):
            if all(isinstance(x, (SNum, int, float)) and not isinstance(x, bool) for x in vs):
                v = lift(vs[-1]).r
                for g, x in list(zip(gs, vs))[-2::-1]:
                    v = z3.If(g, lift(x).r, v)
                v = SNum(v, 'float')
            elif all(isinstance(x, (SBool, bool)) for x in vs):
                v = bterm(vs[-1])
                for g, x in list(zip(gs, vs))[-2::-1]:
                    v = z3.If(g, bterm(x), v)
                v = mkbool(v)
            else:
                raise Unsupported('a generic iteration changes the elements it goes through, depending on the element')
        out.append((root, terms, {k[1]: v}))
    return out


def generalise(seg, idx, dims, paths, guards):
    """every member of the family has been changed by the iteration that treated it"""
    if not any(r.mutations for r in paths):
        return
    for root, terms, ch in merged(paths, guards, not seg.guarded()):
        tokens = owner_of(root)
        left = list(idx)
        own = [TOK[i] for i in tokens]
        for t, c in zip(terms, own):
            i = next((i for i in left if i.eq(t)), None)
            if i is not None:
                left.remove(i)
                d = z3.substitute(DIMS[c.get_id()], *zip(own, terms))
                if not RING.equal(to_real(dims[[x.eq(i) for x in idx].index(True)]), to_real(d)):
                    raise Unsupported('a generic iteration changes part of a family')
            elif not t.eq(c):
                raise Unsupported('a generic iteration changes an element that is not its own')
        if left:
            raise Unsupported('a generic iteration changes elements repeatedly')
        targets = [(own, root)] + [(p.terms, e[1]) for p in POINTS.get(tokens, ()) for e in [p.table.get(id(root))] if e is not None]
        for at, obj in targets:
            pairs = [(t, a) for t, a in zip(terms, at)]
            sub = Subst(pairs, [t.get_id() for t in terms])
            for n, x in ch.items():
                object.__setattr__(obj, n, sub.obj(x))


def _new_path():
    SETTLED.clear()
    COUNTS.clear()
    POINTS.clear()
    ORIG.clear()


def _is_symbolic_cell(c):
    try:
        return isinstance(c.cell_contents, Sym)
    except ValueError:
        return False


def slots_of(cls):
    r = []
    for c in cls.__mro__:
        s = c.__dict__.get('__slots__', ())
        r += [s] if isinstance(s, str) else list(s)
    return [x for x in r if not x.startswith('__')]


def state_of(v):
    r = list(getattr(v, '__dict__', {}).items())
    for s in slots_of(type(v)):
        try:
            r.append((s, object.__getattribute__(v, s)))
        except AttributeError:
            pass
    return r


# ---------------------------------------------------------------------------------------------
class Seg:
    """elements  value(i)  for i in the box 0<=i_d<dims_d (lexicographic order); cases are mutually exclusive,
    an index for which no case holds contributes no element"""

    def __init__(self, idx, dims, cases):
        self.idx, self.dims, self.cases = list(idx), list(dims), list(cases)
        self.cache = []

    @property
    def single(self):
        return not self.idx

    def dom(self, terms=None):
        ts = self.idx if terms is None else terms
        m = list(zip(self.idx, ts))
        return [z3.And(t >= 0, t < (z3.substitute(d, *m) if m else d)) for t, d in zip(ts, self.dims)]

    def guarded(self):
        return not (len(self.cases) == 1 and z3.is_true(self.cases[0][0]))

    def guard(self):
        return z3.Or(*[g for g, _ in self.cases]) if self.cases else z3.BoolVal(False)

    def at(self, terms):
        """the element at the given index terms (its case must hold; forks over the cases)"""
        if self.single:
            return self.cases[0][1]
        terms = [quick_term(t) for t in terms]
        for ts, obj in self.cache:
            if all(RING.equal(to_real(a), to_real(b)) for a, b in zip(ts, terms)):
                return obj
        if any(stateful(v) for _, v in self.cases):
            for ts, obj in self.cache:
                if ENG.branch(z3.And(*[a == b for a, b in zip(ts, terms)])):
                    return obj
        sub = Subst(list(zip(self.idx, terms)), [ix.get_id() for ix in self.idx])
        rest = self.cases
        obj = UNBOUND
        for n, (g, v) in enumerate(rest):
            if ENG.branch(sub.term(g)):
                obj = sub.obj(v)
                break
        if obj is UNBOUND:
            raise Skip()
        entry = (terms, obj)
        self.cache.append(entry)
        if ENG.frames:
            cache = self.cache
            ENG.frames[-1].cleanups.append(lambda: _drop(cache, entry))
        return obj

    def subst(self, sub):
        # rename nothing: index constants are globally unique
        s = Seg(self.idx, [sub.term(d) for d in self.dims], [(sub.term(g), sub.obj(v)) for g, v in self.cases])
        return s

    def count(self):
        if self.single:
            return SNum(z3.IntVal(1), 'int')
        if not self.guarded():
            n = z3.IntVal(1)
            for d in self.dims:
                n = n * d
            return SNum(n if len(self.dims) > 1 else self.dims[0], 'int')
        gs = [g for g, _ in self.cases]
        k = (tuple(i.get_id() for i in self.idx), tuple(g.get_id() for g in gs))
        if k in COUNTS:
            t = COUNTS[k][0]
        else:
            t = seg_sum(self, [(g, SNum(rv(1), 'float')) for g in gs]).t
            if len(ENG.frames) == 1:        # what it was simplified by holds for the rest of the path
                COUNTS[k] = (t, gs, self.idx)
        n, d = RING.rf(t)
        return SNum(RING.poly_to_z3(n, real=False) if RING.int_valued(n, d) else COUNTI(t), 'int')


COUNTI = z3.Function('COUNTI', RZ, IZ)


def _drop(cache, entry):
    for i, e in enumerate(cache):
        if e is entry:
            del cache[i]
            return


class Skip(Exception):
    pass


def quick_term(t):
    if isinstance(t, SNum):
        t = t.t
    if isinstance(t, int):
        return z3.IntVal(t)
    return t


def stateful(v, depth=4):
    """does the value contain objects whose identity or mutation can matter"""
    if v is None or isinstance(v, (str, int, float, complex, bool, Sym, type)):
        return isinstance(v, (SymSeq, VDict))
    if isinstance(v, (tuple, list)):
        return any(stateful(x, depth - 1) for x in v)
    return bool(ENG.owned_by(v)) or True


def single(v):
    return Seg([], [], [(z3.BoolVal(True), v)])


class FlatIdx(Sym):
    """position in a multi-dimensional family, as an int"""
    __hash__ = None

    def __init__(self, idx, dims):
        self.idx, self.dims = idx, dims

    def num(self):
        n = self.idx[0]
        for i, d in zip(self.idx[1:], self.dims[1:]):
            n = n * d + i
        return SNum(n, 'int')

    def __getattr__(self, n):
        return getattr(self.num(), n)

    def __add__(self, o):
        return self.num() + o

    def __radd__(self, o):
        return o + self.num()

    def __sub__(self, o):
        return self.num() - o

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __eq__(self, o):
        return self.num() == o

    def __lt__(self, o):
        return self.num() < o


class ShapedLen(SNum):
    """len() of a multi-dimensional family: remembers the box"""
    __slots__ = ('dims',)
    __hash__ = SNum.__hash__


class SymSeq(Sym):
    """list / iterator of symbolic length"""
    __hash__ = None

    def __init__(self, segs=(), kind='list'):
        self.segs = list(segs)
        self.kind = kind
        self.stamp = ENG.owner()

    # -- structure --------------------------------------------------------------------------
    @property
    def concrete(self):
        return all(s.single for s in self.segs)

    def items_concrete(self):
        return [s.cases[0][1] for s in self.segs]

    def __vc_subst__(self, sub):
        r = SymSeq((), self.kind)
        sub.memo[id(self)] = r
        r.segs = [s.subst(sub) for s in self.segs]
        return r

    def __vc_len__(self):
        note_read(self)
        if len(self.segs) == 1 and not self.segs[0].single and not self.segs[0].guarded() and len(self.segs[0].dims) > 1:
            n = self.segs[0].count()
            r = ShapedLen(n.t, 'int')
            r.dims = self.segs[0].dims
            return r
        n = SNum(z3.IntVal(0), 'int')
        for s in self.segs:
            n = n + s.count()
        c = RING.const_of(n.r)
        return int(c) if c is not None else n

    def __len__(self):
        n = self.__vc_len__()
        if isinstance(n, int):
            return n
        raise Unsupported('C-level len of a symbolic sequence')

    def __bool__(self):
        return bool(self.__vc_len__() != 0)

    def __iter__(self):
        if self.concrete:
            return iter(self.items_concrete())
        raise Unsupported('iteration over a symbolic sequence outside a loop cut')

    def __getitem__(self, k):
        note_read(self)
        if isinstance(k, FlatIdx):
            for s in self.segs:
                if len(self.segs) == 1 and len(s.dims) == len(k.dims) and not s.guarded() and \
                        all(RING.equal(to_real(a), to_real(b)) for a, b in zip(s.dims, k.dims)):
                    return s.at(k.idx)
            k = k.num()
        if isinstance(k, slice):
            return self._slice(k)
        if isinstance(k, bool) or not isinstance(k, (int, SNum)):
            raise TypeError('list indices must be integers or slices')
        if self.concrete and isinstance(k, int):
            return self.items_concrete()[k]
        kk = lift(k)
        if kk.py != 'int':
            raise TypeError('list indices must be integers or slices, not float')
        n = lift(self.__vc_len__())
        if isinstance(k, int):
            neg = k < 0
        else:
            neg = ENG.branch(kk.t < 0)
        pos = (kk + n) if neg else kk
        if ENG.branch(z3.Or(pos.t < 0, pos.t >= n.t)):
            raise IndexError('list index out of range')
        off = pos
        for s in self.segs:
            if s.guarded() and not s.single:
                raise Unsupported('index into a filtered sequence')
            c = s.count()
            if s is self.segs[-1] or ENG.branch(off.t < c.t):
                if s.single:
                    return s.cases[0][1]
                if len(s.dims) == 1:
                    return s.at([off.t])
                raise Unsupported('flat index into a multi-dimensional family')
            off = off - c
        raise IndexError('list index out of range')

    def _slice(self, k):
        if self.concrete and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
            return SymSeq([single(x) for x in self.items_concrete()[k]], 'list')
        if k.start is None and k.stop is None and k.step is None:
            return SymSeq(self.segs, 'list')
        if len(self.segs) == 1 and len(self.segs[0].dims) == 1 and not self.segs[0].guarded() and k.step in (None, 1):
            s = self.segs[0]
            n = SNum(s.dims[0], 'int')

            def clamp(x, default):
                if x is None:
                    return default
                x = lift(x)
                if ENG.branch(x.t < 0):
                    x = x + n
                    if ENG.branch(x.t < 0):
                        return lift(0)
                if ENG.branch(x.t > n.t):
                    return n
                return x
            a, b = clamp(k.start, lift(0)), clamp(k.stop, n)
            if ENG.branch(a.t >= b.t):
                return SymSeq([], 'list')
            if isinstance(s, PermSeg):
                return SymSeq([PermSeg(s.perm, s.segs, s.off + a.t, (b - a).t)], 'list')
            j = fresh_idx()
            sub = Subst([(s.idx[0], j + a.t)], [s.idx[0].get_id()])
            return SymSeq([Seg([j], [(b - a).t], [(sub.term(g), sub.obj(v)) for g, v in s.cases])], 'list')
        raise Unsupported(f'slice of a symbolic sequence {[(type(s).__name__, s.dims) for s in self.segs]} {k}')

    # -- mutation ---------------------------------------------------------------------------
    def _outer(self):
        return self.stamp != ENG.owner()

    def append(self, x):
        if self._outer():
            ENG.frames[-1].effects.append((self, 'append', (x,)))
            return
        self.segs.append(single(x))

    def extend(self, it):
        if self._outer():
            raise Unsupported('extend of an outer list in a generic iteration')
        self.segs += as_segs(it)

    def insert(self, k, x):
        if self._outer():
            raise Unsupported('insert into an outer list in a generic iteration')
        if k == 0:
            self.segs.insert(0, single(x))
            return
        if self.concrete:
            self.segs.insert(k, single(x))
            return
        raise Unsupported('insert')

    def pop(self, k=-1):
        if self._outer() or not self.concrete:
            raise Unsupported('pop')
        return self.segs.pop(k).cases[0][1]

    def remove(self, x):
        raise Unsupported('remove')

    def sort(self, key=None, reverse=False):
        if self._outer():
            raise Unsupported('sort')
        self.segs = [single(x) for x in sorted(self.items_concrete(), key=key, reverse=reverse)] if self.concrete else None
        if self.segs is None:
            raise Unsupported('sort of a symbolic sequence')

    def reverse(self):
        if not self.concrete:
            raise Unsupported('reverse')
        self.segs.reverse()

    def copy(self):
        note_read(self)
        return SymSeq(self.segs, self.kind)

    def clear(self):
        if self._outer():
            raise Unsupported('clear')
        self.segs = []

    def index(self, x):
        if self.concrete:
            for i, y in enumerate(self.items_concrete()):
                if y is x or y == x:
                    return i
            raise ValueError
        raise Unsupported('index')

    def count(self, x):
        if self.concrete:
            return sum(1 for y in self.items_concrete() if y is x or y == x)
        raise Unsupported('count')

    def _vc_family(self, op, idx, dims, cases):
        assert op == 'append'
        self.segs.append(Seg(idx, dims, [(g, a[0]) for g, a in cases]))

    def __add__(self, o):
        if self.kind == 'ndarray' or getattr(o, 'kind', '') == 'ndarray':
            return self._ew(o, lambda a, b: a + b)
        if isinstance(o, (list, SymSeq)):
            return SymSeq(self.segs + as_segs(o), 'list')
        return NotImplemented

    def __radd__(self, o):
        if self.kind == 'ndarray':
            return self._ew(o, lambda a, b: b + a)
        if isinstance(o, (list, SymSeq)):
            return SymSeq(as_segs(o) + self.segs, 'list')
        return NotImplemented

    def __iadd__(self, o):
        if self.kind == 'ndarray':
            return self + o
        self.extend(o)
        return self

    def _ew(self, o, f):
        """elementwise operation of an array with a scalar or an array of the same shape"""
        import numpy as np
        if isinstance(o, np.ndarray):
            o = SymSeq([single(x) for x in o], 'ndarray')
        if isinstance(o, SymSeq):
            if self.concrete and o.concrete:
                a, b = self.items_concrete(), o.items_concrete()
                if len(a) != len(b):
                    raise ValueError('operands could not be broadcast together')
                return SymSeq([single(f(x, y)) for x, y in zip(a, b)], 'ndarray')
            z = sym_zip(self, o)
            return SymSeq([MapSeg(g, lambda p: f(p[0], p[1])) for g in seq_of(z).segs], 'ndarray')
        if lift(o) is None and not isinstance(o, SComplex):
            return NotImplemented
        return SymSeq([single(f(g.cases[0][1], o)) if g.single else MapSeg(g, lambda x: f(x, o)) for g in self.segs], 'ndarray')

    def _arr(self, o, f):
        if self.kind != 'ndarray' and getattr(o, 'kind', '') != 'ndarray':
            return NotImplemented
        return self._ew(o, f)

    def __sub__(self, o):
        return self._arr(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arr(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._arr(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._arr(o, lambda a, b: b / a)

    def __pow__(self, o):
        return self._arr(o, lambda a, b: a ** b)

    def __neg__(self):
        return self._arr(0, lambda a, b: -a)

    def __mul__(self, n):
        if self.kind == 'ndarray' or getattr(n, 'kind', '') == 'ndarray':
            return self._ew(n, lambda a, b: a * b)
        if isinstance(n, int) and self.concrete:
            return SymSeq([single(x) for x in self.items_concrete() * n], 'list')
        raise Unsupported('list repetition')

    def __rmul__(self, n):
        if self.kind == 'ndarray':
            return self._ew(n, lambda a, b: b * a)
        return self.__mul__(n)

    def sum(self, *a, **k):
        if a or k:
            raise Unsupported('sum options')
        return sym_sum(self)

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def __eq__(self, o):
        if isinstance(o, (list, tuple)) or isinstance(o, SymSeq):
            if isinstance(o, SymSeq):
                if not o.concrete:
                    raise Unsupported('equality of symbolic sequences')
                o = o.items_concrete()
            if self.concrete:
                me = self.items_concrete()
                if len(me) != len(o):
                    return False
                return all((a is b) or bool(a == b) for a, b in zip(me, o))
            if len(o) == 0:
                return self.__vc_len__() == 0
            raise Unsupported('equality of symbolic sequences')
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return NotImplemented if r is NotImplemented else Not(r)

    def __repr__(self):
        if self.concrete:
            return repr(self.items_concrete())
        return '<seq ' + ', '.join(repr(s.cases) if s.single else f'family{s.dims}:{s.cases}' for s in self.segs) + '>'

    # -- harness API ------------------------------------------------------------------------
    def generic(self, tag='g'):
        """an arbitrary element: forks over the segments; a fresh index constrained to the domain"""
        for n, s in enumerate(self.segs):
            last = n == len(self.segs) - 1
            pick = True if last else ENG.branch(ENG.fresh('pick', 'bool'))
            if not pick:
                continue
            if s.single:
                return s.cases[0][1], []
            js = [ENG.fresh(f'{tag}{d}', 'int') for d in range(len(s.idx))]
            for c in s.dom(js):
                ENG.assume(c)
            m = list(zip(s.idx, js))
            ENG.assume(z3.substitute(s.guard(), *m))
            ENG.check_feasible()
            try:
                return s.at(js), [SNum(j, 'int') for j in js]
            except Skip:
                raise Infeasible()
        raise Infeasible()


class VSeqIter(Sym):
    """one-shot iterator"""

    def __init__(self, seq):
        self.seq = seq


def as_segs(it):
    if isinstance(it, SymSeq):
        note_read(it)
        return list(it.segs)
    if isinstance(it, VDict):
        return it.keys().segs
    if isinstance(it, VSeqIter):
        return list(it.seq.segs)
    f = getattr(it, '__vc_seq__', None)
    if f is not None:
        return as_segs(f())
    return [single(x) for x in it]


def is_symbolic_iter(it):
    if isinstance(it, SymSeq):
        return not it.concrete
    if isinstance(it, VDict):
        return not it.concrete
    if isinstance(it, VSeqIter):
        return is_symbolic_iter(it.seq)
    if hasattr(type(it), '__vc_seq__'):
        return is_symbolic_iter(it.__vc_seq__())
    if hasattr(type(it), '__vc_loop__'):
        return True
    f = getattr(type(it), '__iter__', None)
    if f is not None and getattr(type(it), '__vc_instrumented__', False):
        r = it.__iter__()
        return is_symbolic_iter(r)
    return False


def seq_of(it, kind='list'):
    if isinstance(it, SymSeq):
        note_read(it)
        return it
    if isinstance(it, VDict):
        return it.keys()
    if isinstance(it, VSeqIter):
        return it.seq
    f = getattr(type(it), '__vc_seq__', None)
    if f is not None:
        return it.__vc_seq__()
    if getattr(type(it), '__vc_instrumented__', False) and hasattr(it, '__iter__'):
        return seq_of(it.__iter__())
    return SymSeq([single(x) for x in it], kind)


def seq_contains(seq, x):
    """x in seq"""
    if isinstance(seq, SymSeq):
        note_read(seq)
    res = []
    for s in seq.segs:
        if s.single:
            v = s.cases[0][1]
            if v is x:
                return True
            res.append(eq_value(v, x))
        else:
            js = solve_keys(s, x, lambda v: v)
            if js is None:
                raise Unsupported('membership in a family')
            res += [mkbool(c) for _, c in js]
    return Or(*res) if res else False


def eq_value(a, b):
    """a == b as SBool/bool without forking"""
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return And(*[eq_value(x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
        return str_eq(a, b)
    r = (a == b)
    if isinstance(r, (bool, SBool)):
        return r
    if r is NotImplemented:
        return False
    return bool(r)


def solutions(seg, key, keyof):
    """per case of the family: (guard, keyof(value) == key, the index terms for which it holds); None when that cannot be computed"""
    sols = []
    for g, v in seg.cases:
        e = eq_value(keyof(v), key)
        if e is False:
            continue
        e = z3.simplify(bterm(e))
        if z3.is_false(e):
            continue
        sol = solve_for(seg.idx, e)
        if sol is None:
            sol = solve_for(seg.idx, z3.And(e, g))
        if sol is None:
            if solve.feasible(ENG.pc() + seg.dom() + [g, e], ()) is False:
                continue
            return None
        sols.append((g, e, sol))
    return sols


def same_terms(xs, ys):
    return all(RING.equal(to_real(a), to_real(b)) for a, b in zip(xs, ys))


def solve_index(seg, key, keyof):
    """index terms i with keyof(value(i)) == key, as (terms, z3 condition), assuming the keys are injective;
    None when no solution can be computed"""
    sols = solutions(seg, key, keyof)
    if not sols:
        return None if sols is None else ([z3.IntVal(0)] * len(seg.idx), z3.BoolVal(False))

    def covers(first):
        for g, e, s in sols:
            if not same_terms(first, s):
                ne = z3.Or(*[a != b for a, b in zip(first, s)])
                if solve.feasible(ENG.pc() + seg.dom() + [g, e, ne], ()) is not False:
                    return False
        return True
    first = next((s for _, _, s in sols if covers(s)), None)
    if first is None:
        return None
    m = list(zip(seg.idx, first))
    cond = z3.Or(*[z3.And(z3.substitute(g, *m), z3.substitute(e, *m)) for g, e, _ in sols])
    return first, cond


def solve_keys(seg, key, keyof):
    """the members of the family with this key, as [(index terms, condition)]; None when they cannot be computed"""
    one = solve_index(seg, key, keyof)
    if one is not None:
        return [(one[0], z3.And(*seg.dom(one[0]), one[1]))]
    sols = solutions(seg, key, keyof)
    if sols is None:
        return None
    out = []
    for _, _, s in sols:
        if not any(same_terms(s, t) for t, _ in out):
            m = list(zip(seg.idx, s))
            out.append((s, z3.And(*seg.dom(s), z3.Or(*[z3.And(z3.substitute(g, *m), z3.substitute(e, *m)) for g, e, _ in sols]))))
    return out


def conj(e):
    if z3.is_and(e):
        r = []
        for c in e.children():
            r += conj(c)
        return r
    return [e]


def solve_for(idx, e):
    """solve the conjunction e for the index constants"""
    eqs = [c for c in conj(e) if z3.is_eq(c)]
    sol = {}
    for _ in range(len(idx) + 1):
        for c in eqs:
            a, b = c.children()
            m = list(sol.values())
            if m:
                a, b = z3.substitute(a, *m), z3.substitute(b, *m)
            if z3.is_arith(a):
                r = solve_linear(idx, sol, a, b)
                if r is not None:
                    sol[r[0].get_id()] = r
                    continue
                r = unify_apps(idx, sol, a, b)
                if r is not None:
                    for x in r:
                        sol[x[0].get_id()] = x
    if len(sol) < len(idx):
        return None
    out = []
    for i in idx:
        t = sol[i.get_id()][1]
        for _ in range(len(idx)):
            t = z3.substitute(t, *sol.values())
        out.append(t)
    return out


def solve_linear(idx, sol, a, b):
    try:
        n, d = RING.rf(to_real(a) - to_real(b))
    except TooBig:
        return None
    for i in idx:
        if i.get_id() in sol:
            continue
        at = RING.ids.get(('c', i.sexpr(), i.sort().name()))
        if at is None:
            continue
        mono = ((at, 1),)
        if mono in n.d and sum(1 for m in n.d for x, _ in m if x == at) == 1:
            co = n.d[mono]
            rest = Poly({m: -c / co for m, c in n.d.items() if m != mono})
            if RING.int_valued(rest, Poly.const(1)):
                t = RING.poly_to_z3(rest, real=False)
            else:
                t = RING.floor(RING.poly_to_z3(rest))
            if any(occurs(j, t) for j in idx if j.get_id() not in sol and not j.eq(i)):
                continue
            return (i, t)
    return None


def unify_apps(idx, sol, a, b):
    """f(i) == f(t): candidate i := t"""
    def is_uf(t):
        return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
    if is_uf(a) and is_uf(b) and a.decl().eq(b.decl()):
        r = []
        for x, y in zip(a.children(), b.children()):
            if not z3.is_arith(x):
                continue
            free = [i for i in idx if i.get_id() not in sol and (occurs(i, x) or occurs(i, y))]
            if free:
                s = solve_linear(free, {}, x, y)
                if s is None:
                    s2 = unify_apps(free, {}, x, y)
                    if s2 is None:
                        return None
                    r += s2
                else:
                    r.append(s)
        return r or None
    return None


# ---------------------------------------------------------------------------------------------
#  dictionaries
# ---------------------------------------------------------------------------------------------
MISSING = object()


def note_read(c):
    """a generic iteration reads the whole of a container that exists outside it"""
    if c._outer():
        for f in ENG.frames:
            if f.owner and any(e[0] is c for e in f.effects):
                raise Unsupported(f'reading a {"dict" if isinstance(c, VDict) else "list"} that the generic iteration wrote')
        if ENG.frames:
            ENG.frames[-1].reads.append((c, MISSING, z3.BoolVal(True)))


class DictView(SymSeq):
    """keys()/values()/items() — a live snapshot (the code never mutates while holding one)"""


class VDict(Sym):
    """dict with symbolic keys and/or families of entries"""
    __hash__ = None

    def __init__(self, *a, **k):
        self.entries = []          # Seg with values (key, value)
        self.stamp = ENG.owner()
        if a:
            src = a[0]
            if isinstance(src, VDict):
                self.entries = list(src.entries)
            elif isinstance(src, dict):
                for x, y in src.items():
                    self._set(x, y)
            else:
                for x, y in src:
                    self._set(x, y)
        for x, y in k.items():
            self._set(x, y)

    @property
    def concrete(self):
        return all(e.single for e in self.entries)

    def __vc_subst__(self, sub):
        r = VDict()
        sub.memo[id(self)] = r
        r.entries = [e.subst(sub) for e in self.entries]
        return r

    def _outer(self):
        return self.stamp != ENG.owner()

    def _noread(self):
        note_read(self)

    def _written(self, k):
        """what the generic iteration has written under k; a read of what was there before must not meet a write of another iteration"""
        if self._outer():
            for f in reversed(ENG.frames):
                for c, op, args in reversed(f.effects) if f.owner else ():
                    if c is self:
                        if op != 'setitem':
                            raise Unsupported('reading a dict that the generic iteration wrote')
                        if args[0] is k or eq_branch(args[0], k):
                            return args[1]
            ENG.frames[-1].reads.append((self, k, z3.BoolVal(True)))
        return MISSING

    # -- writing ------------------------------------------------------------------------------
    def _set(self, k, v):
        for n, e in enumerate(self.entries):
            if e.single:
                k0 = e.cases[0][1][0]
                if k0 is k or eq_branch(k0, k):
                    self.entries[n] = single((k0, v))
                    return
            else:
                sol = solve_index(e, k, lambda kv: kv[0])
                if sol is None:
                    raise Unsupported('dict update against a family of keys')
                if ENG.branch(z3.And(*e.dom(sol[0]), sol[1])):
                    raise Unsupported('dict update of a family member')
        self.entries.append(single((k, v)))

    def __setitem__(self, k, v):
        if self._outer():
            ENG.frames[-1].effects.append((self, 'setitem', (k, v)))
            return
        self._set(k, v)

    def _vc_family(self, op, idx, dims, cases):
        if op != 'setitem':
            raise Unsupported(op)
        seg = Seg(idx, dims, cases)
        check_injective(seg, lambda kv: kv[0])
        for e in self.entries:
            check_disjoint(e, seg)
        self.entries.append(seg)

    def __delitem__(self, k):
        if self._outer():
            fx = ENG.frames[-1].effects
            for n in reversed(range(len(fx))):
                c, op, args = fx[n]
                if c is self and op == 'setitem' and (args[0] is k or eq_branch(args[0], k)):
                    del fx[n]
                    if self.lookup(k) is MISSING:
                        return
                    break
            raise Unsupported('deletion in a generic iteration')
        for n, e in enumerate(self.entries):
            if e.single:
                if eq_branch(e.cases[0][1][0], k):
                    del self.entries[n]
                    return
            else:
                sol = solve_index(e, k, lambda kv: kv[0])
                if sol is None:
                    raise Unsupported('deletion from a family')
                if ENG.branch(z3.And(*e.dom(sol[0]), sol[1])):
                    ne = z3.Or(*[i != t for i, t in zip(e.idx, sol[0])])
                    self.entries[n] = Seg(e.idx, e.dims, [(z3.And(g, ne), v) for g, v in e.cases])
                    return
        raise KeyError(k)

    def pop(self, k, *d):
        v = self.get(k, MISSING)
        if v is MISSING:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return v

    def setdefault(self, k, d=None):
        v = self.get(k, MISSING)
        if v is MISSING:
            self[k] = d
            return d
        return v

    def update(self, o=(), **kw):
        if isinstance(o, VDict):
            for e in o.entries:
                if not e.single:
                    if self._outer():
                        raise Unsupported('update')
                    for x in self.entries:
                        check_disjoint(x, e)
                    self.entries.append(e)
                else:
                    self[e.cases[0][1][0]] = e.cases[0][1][1]
        elif isinstance(o, dict):
            for x, y in o.items():
                self[x] = y
        else:
            for x, y in o:
                self[x] = y
        for x, y in kw.items():
            self[x] = y

    def clear(self):
        if self._outer():
            raise Unsupported('clear')
        self.entries = []

    def copy(self):
        return VDict(self)

    # -- reading ------------------------------------------------------------------------------
    def lookup(self, k):
        v = self._written(k)
        if v is not MISSING:
            return v
        for e in reversed(self.entries):
            if e.single:
                k0, v = e.cases[0][1]
                if k0 is k or eq_branch(k0, k):
                    return v
            else:
                sols = solve_keys(e, k, lambda kv: kv[0])
                if sols is None:
                    raise Unsupported(f'lookup of {k!r} in a family of keys {e.cases[0][1][0]!r}')
                for sol, cond in sols:
                    if ENG.branch(cond):
                        try:
                            return e.at(sol)[1]
                        except Skip:
                            raise Unsupported('dict lookup')
        return MISSING

    def __getitem__(self, k):
        v = self.lookup(k)
        if v is MISSING:
            raise KeyError(k)
        return v

    def get(self, k, d=None):
        v = self.lookup(k)
        return d if v is MISSING else v

    def __contains__(self, k):
        return self.lookup(k) is not MISSING

    def _view(self, f):
        self._noread()
        return DictView([Seg(e.idx, e.dims, [(g, f(v)) for g, v in e.cases]) if False else MapSeg(e, f) for e in self.entries], 'view')

    def keys(self):
        return self._view(lambda kv: kv[0])

    def values(self):
        return self._view(lambda kv: kv[1])

    def items(self):
        return self._view(lambda kv: kv)

    def __iter__(self):
        return iter(self.keys())

    def __vc_len__(self):
        keys = self.keys()
        return DictLen(self, keys) if any(e.guarded() and not e.single for e in self.entries) else keys.__vc_len__()

    @staticmethod
    def _member(e, cond):
        """does one of the instances of the family that the path has met belong to it"""
        pts = {}
        for ts, _ in list(getattr(e, 'cache', ())) + list(getattr(getattr(e, 'seg', None), 'cache', ())):
            pts[tuple(t.get_id() for t in ts)] = ts
        return any(solve.prove(ENG.pc(), z3.substitute(cond, *zip(e.idx, ts)), ENG.universals(), 2000).proved for ts in pts.values())

    def _settle(self):
        """case split: a family of entries that depend on a condition has a member, or is left out"""
        if len(ENG.frames) != 1:
            return
        for e in list(self.entries):
            if e.single or not e.guarded() or id(e) in SETTLED:
                continue
            js = [ENG.fresh('some', 'int') for _ in e.idx]
            m = list(zip(e.idx, js))
            cond = z3.And(*e.dom(), e.guard())
            if self._member(e, cond):
                SETTLED[id(e)] = e
                continue
            if ENG.branch(ENG.fresh('nonempty', 'bool')):
                ENG.assume(z3.substitute(cond, *m))
                ENG.check_feasible()
                SETTLED[id(e)] = e
            else:
                ENG.frames[-1].universals.append(z3.ForAll(e.idx, z3.Not(cond)))
                ENG.check_feasible()
                self.entries = [x for x in self.entries if x is not e]

    def __len__(self):
        return len(self.keys())

    def __bool__(self):
        n = self.__vc_len__()
        r = n != 0
        return r if isinstance(r, bool) else bool(r)

    def __eq__(self, o):
        if isinstance(o, (VDict, dict)):
            if self.concrete and (isinstance(o, dict) or o.concrete):
                if len(self) != len(o):
                    return False
                for k, v in zip(self.keys(), self.values()):
                    w = o.get(k, MISSING)
                    if w is MISSING or not (w is v or bool(w == v)):
                        return False
                return True
            raise Unsupported('dict equality')
        return NotImplemented

    def __or__(self, o):
        r = VDict(self)
        r.update(o)
        return r

    def __repr__(self):
        return 'VDict{' + ', '.join(map(lambda e: repr(e.cases), self.entries)) + '}'


SETTLED = {}
COUNTS = {}             # counts of families with conditions, on this path


class DictLen(SNum):
    """the number of entries of a dict; asking whether there are any is a case split"""
    __slots__ = ('of', 'view', '_t')
    __hash__ = None

    def __init__(self, of, view):
        self.of, self.view, self._t, self.py = of, view, None, 'int'

    @property
    def t(self):
        if self._t is None:
            n = self.view.__vc_len__()
            n = z3.IntVal(n) if isinstance(n, int) else n.t
            if len(ENG.frames) > 1:
                return n
            self._t = n
        return self._t

    def _some(self):
        self.of._settle()
        if any(e.single or not e.guarded() and len(e.dims) == 0 or id(e) in SETTLED for e in self.of.entries):
            return True
        return None if self.of.entries else False

    def __eq__(self, o):
        if o == 0 and isinstance(o, int):
            r = self._some()
            if r is not None:
                return not r
        return SNum.__eq__(self, o)

    def __ne__(self, o):
        if o == 0 and isinstance(o, int):
            r = self._some()
            if r is not None:
                return r
        return SNum.__ne__(self, o)

    def __gt__(self, o):
        if o == 0 and isinstance(o, int):
            return self != 0
        return SNum.__gt__(self, o)


class MapSeg(Seg):
    """a projection of another segment, sharing its instance cache (object identity is preserved)"""

    def __init__(self, base, f):
        self.base, self.f = base, f
        self.idx, self.dims = base.idx, base.dims
        self.cache = []

    @property
    def cases(self):
        return [(g, self.f(v)) for g, v in self.base.cases]

    def at(self, terms):
        return self.f(self.base.at(terms))

    def subst(self, sub):
        return MapSeg(self.base.subst(sub), self.f)


def eq_branch(a, b):
    if a is b:
        return True
    e = eq_value(a, b)
    return ENG.branch(e) if isinstance(e, SBool) else bool(e)


def check_injective(seg, keyof):
    """keys of different indices differ (otherwise the cut would misread overwriting)"""
    other = [ENG.fresh('inj', 'int') for _ in seg.idx]
    m = list(zip(seg.idx, other))
    doms = seg.dom() + seg.dom(other)
    sub = Subst(m, [i.get_id() for i in seg.idx])
    for n, (g, v) in enumerate(seg.cases):
        for g2, v2 in seg.cases[n:]:        # the other pairs are the same up to the names of the indices
            e = bterm(eq_value(keyof(v), sub.obj(keyof(v2))))
            goal = z3.And(*[a == b for a, b in m])
            pc = ENG.pc() + doms + [g, sub.term(g2), e]
            if v is not v2:
                goal_ok = solve.prove(pc, goal, ENG.universals(), 4000).proved
            else:
                goal_ok = solve.prove(pc, goal, ENG.universals(), 4000).proved
            if not goal_ok:
                raise Unsupported('keys inserted by a loop may collide')


def check_disjoint(a, b):
    if not a.single and not b.single:
        pass
    for g, v in a.cases:
        for g2, v2 in b.cases:
            e = eq_value(v[0], v2[0])
            if e is False:
                continue
            pc = ENG.pc() + (a.dom() if not a.single else []) + (b.dom() if not b.single else []) + [g, g2]
            if not solve.prove(pc, z3.Not(bterm(e)), ENG.universals(), 4000).proved:
                raise Unsupported('dict entries inserted by a loop may overwrite others')


# ---------------------------------------------------------------------------------------------
#  loop cut
# ---------------------------------------------------------------------------------------------
def cut_context(seg):
    """assumptions for the generic iteration; its element"""
    return seg.dom()


def explore_generic(seg, fn, want_effects=True):
    """run fn(element) for a generic index of the family; returns fresh idx and the list of path results"""
    # fresh index constants: the same family may be iterated several times, also nested
    idx = [fresh_idx() for _ in seg.idx]
    m = list(zip(seg.idx, idx))
    dims = [z3.substitute(d, *m) for d in seg.dims]
    dom = [z3.And(i >= 0, i < d) for i, d in zip(idx, dims)]
    owner = tuple(i.get_id() for i in idx)
    _keep.extend(idx)
    for i, d in zip(idx, dims):
        TOK[i.get_id()], DIMS[i.get_id()] = i, d
    ghost = GHOST[0]
    pc0 = ENG.pc()
    if solve.feasible(pc0 + dom, ()) is False:
        return idx, dims, []

    def run():
        try:
            x = seg.at(idx)
        except Skip:
            return SKIPPED
        ENG.frames[-1].case = {id(e[0]) for e in ENG.frames[-1].instances}
        v = fn(x)
        if not ghost:
            ENG.frames[-1].mutations = mutations(ENG.frames[-1])
        return v

    res = ENG.explore(run, owner=owner, assumptions=dom)
    out = []
    for r in res:
        if r.kind == 'ret' and r.value is SKIPPED:
            continue
        g = [c for c in r.pc if not any(c is d for d in dom)]
        guard = z3.And(*g) if g else z3.BoolVal(True)
        guard = z3.simplify(guard) if g else guard
        out.append((guard, r))
        for e in r.universals:
            raise Unsupported('universal fact inside a generic iteration')
    rets = [r for r in res if r.kind == 'ret']
    generalise(seg, idx, dims, rets, [z3.And(*[c for c in r.pc if not any(c is d for d in dom)]) for r in rets])
    exc = [(g, r) for g, r in out if r.kind == 'exc']
    ok = [(g, r) for g, r in out if r.kind != 'exc']
    reads = [(c, k, z3.And(*dom, g, a)) for g, r in out for c, k, a in r.reads]
    for _, r in ok:
        r.reads = reads
    if not ghost and ENG.frames:
        ENG.frames[-1].reads += reads
    for g, r in exc:
        # some iteration raises: take that branch with a skolem index, or none does
        js = [ENG.fresh('exc', 'int') for _ in idx]
        mm = list(zip(idx, js))
        cond = z3.substitute(z3.And(*dom, g), *mm)
        if not idx_occurs(idx, g) and not any(idx_occurs(idx, d) for d in dims):
            # independent of the index: raises iff the domain is non-empty
            cond2 = z3.And(g, *[d > 0 for d in dims])
            if ENG.branch(cond2):
                raise r.value
            continue
        bvar = ENG.fresh('raises', 'bool')
        if ENG.branch(bvar):
            ENG.assume(cond)
            ENG.check_feasible()
            raise r.value
        ENG.frames[-1].universals.append(z3.ForAll(idx, z3.Not(z3.And(*dom, g))))
    return idx, dims, ok


GHOST = [False]
_keep = []
SKIPPED = object()


def idx_occurs(idx, t):
    return any(occurs(i, t) for i in idx)


def apply_effects(idx, dims, paths):
    """generalise the writes of a generic iteration"""
    groups = {}
    order = []
    for g, r in paths:
        seen = {}
        for cont, op, args in r.effects:
            n = seen.get((id(cont), op), 0)
            seen[(id(cont), op)] = n + 1
            key = (id(cont), op, n)
            if key not in groups:
                groups[key] = (cont, op, [])
                order.append(key)
            groups[key][2].append((g, args))
    for key in order:
        cont, op, cases = groups[key]
        if ENG.frames and getattr(cont, 'stamp', None) is not None and cont.stamp != ENG.owner():
            # nested cut: the container belongs to an outer scope still
            ENG.frames[-1].effects.append((cont, 'family', (op, idx, dims, cases)))
        else:
            if op == 'family':
                # flatten: inner family inside this family
                for g, (op2, idx2, dims2, cases2) in cases:
                    cont._vc_family(op2, list(idx) + list(idx2), list(dims) + list(dims2),
                                    [(z3.And(g, g2), a) for g2, a in cases2])
            else:
                cont._vc_family(op, idx, dims, cases)
    # containers that were both read and written by the iterations
    if not paths:
        return
    other = [ENG.fresh('other', 'int') for _ in idx]
    m = list(zip(idx, other))
    sub = Subst(m, [i.get_id() for i in idx])
    dom = [z3.And(j >= 0, j < z3.substitute(d, *m)) for j, d in zip(other, dims)]
    for key in order:
        cont, op, cases = groups[key]
        for c, k, a in paths[0][1].reads:
            if c is not cont:
                continue
            for g, args in cases:
                if k is MISSING or op != 'setitem':
                    raise Unsupported('a generic iteration reads a container that the loop writes')
                e = bterm(eq_value(k, sub.obj(args[0])))
                if not z3.is_false(z3.simplify(e)) and not solve.prove(ENG.pc() + [a] + dom + [sub.term(g), e], z3.And(*[x == y for x, y in m]), ENG.universals(), 4000).proved:
                    raise Unsupported('a generic iteration reads what another iteration may write')


class LoopBreak(Exception):
    pass


class LoopReturn(Exception):
    def __init__(self, v):
        self.v = v


def forloop(it, body, names, get, put, orelse=None):
    """for x in it: body(x)   with the assigned variables names of the enclosing function"""
    f = getattr(type(it), '__vc_loop__', None)
    if f is not None:
        return it.__vc_loop__(body, names, get, put)
    seq = seq_of(it)
    for s in list(seq.segs):
        if s.single:
            try:
                body(s.cases[0][1])
            except LoopBreak:
                return None
            continue
        cut_for(s, body, names, get, put)
    return None


def snapshot_val(v):
    return v


def cut_for(seg, body, names, get, put):
    pre = get()
    hav = {}
    consts = {}
    for n in names:
        v = pre.get(n, UNBOUND)
        if isinstance(v, SNum) or (isinstance(v, (int, float)) and not isinstance(v, bool)):
            c = ENG.fresh('carry_' + n, 'real')
            consts[n] = (c, v)
            hav[n] = SNum(c, 'float') if not (isinstance(v, int) or getattr(v, 'py', '') == 'int') else SNum(z3.ToInt(c), 'int')
            if isinstance(v, int) or getattr(v, 'py', '') == 'int':
                ci = ENG.fresh('carryi_' + n, 'int')
                consts[n] = (ci, v)
                hav[n] = SNum(ci, 'int')
        elif v is UNBOUND:
            hav[n] = UNBOUND
        elif isinstance(v, (SymSeq, VDict)) or not isinstance(v, (Sym, str, bool, type(None), tuple, list, dict)):
            hav[n] = v              # an object: the name must stay bound to it
        else:
            hav[n] = Poison(n)

    def run(x):
        put(hav)
        body(x)
        return get()

    try:
        idx, dims, paths = explore_generic(seg, run)
    finally:
        put(pre)
    for g, r in paths:
        if r.kind == 'exc':
            raise Unsupported('loop control')
    post = {}
    for n in names:
        v0 = pre.get(n, UNBOUND)
        h = hav[n]
        finals = [(g, r.value.get(n, UNBOUND)) for g, r in paths]
        if all(f is h for _, f in finals):
            post[n] = v0
            continue
        if n in consts and all(isinstance(f, (SNum, int, float)) for _, f in finals):
            c = consts[n][0]
            cases = []
            ok = True
            for g, f in finals:
                e = lift(f).r - to_real(c)
                try:
                    nn, dd = RING.rf(e)
                except TooBig:
                    ok = False
                    break
                at = RING.ids.get(('c', c.sexpr(), c.sort().name()))
                if at in nn.atoms() or at in dd.atoms() or occurs(c, g) or any(occurs(c, RING.terms[a]) for a in (nn.atoms() | dd.atoms())):
                    ok = False
                    break
                cases.append((g, SNum(RING.to_z3((nn, dd)), 'float')))
            if ok:
                s2 = Seg(idx, dims, cases)
                tot = seg_sum(s2, cases)
                allint = all(getattr(f, 'py', 'int' if isinstance(f, int) else 'float') == 'int' for _, f in finals) and \
                    (isinstance(v0, int) or getattr(v0, 'py', '') == 'int')
                r = lift(v0) + tot
                if allint:
                    c0 = RING.rf(r.r)
                    if RING.int_valued(*c0):
                        r = SNum(RING.poly_to_z3(c0[0], real=False), 'int')
                    else:
                        r = SNum(RING.floor(r.r), 'int')
                post[n] = r
                continue
        if n in consts:
            # not a plain reduction: any use of the carried value elsewhere is unsound to keep
            if any(uses_const(consts[n][0], g, r) for g, r in paths):
                raise Unsupported(f'loop-carried variable {n} is not a sum')
        if all(f is finals[0][1] for _, f in finals) and finals and not isinstance(finals[0][1], Sym) and \
                not ENG.owned_by(finals[0][1]) and v0 is finals[0][1]:
            post[n] = v0
            continue
        post[n] = Poison(n) if finals else v0
    for n, (c, v) in consts.items():
        for g, r in paths:
            for cont, op, args in r.effects:
                if mentions(c, args):
                    raise Unsupported(f'loop-carried variable {n} is stored')
            if occurs(c, g):
                raise Unsupported(f'loop-carried variable {n} decides a branch')
    put({**pre, **post})
    apply_effects(idx, dims, paths)


def uses_const(c, g, r):
    return occurs(c, g)


def mentions(c, v, depth=3):
    if isinstance(v, (SNum, SBool)):
        return occurs(c, v.t)
    if isinstance(v, SStr):
        return occurs(c, v.code())
    if depth and isinstance(v, (tuple, list)):
        return any(mentions(c, x, depth - 1) for x in v)
    if depth and ENG.owned_by(v):
        return any(mentions(c, x, depth - 1) for _, x in state_of(v))
    return False


# ---------------------------------------------------------------------------------------------
#  comprehensions
# ---------------------------------------------------------------------------------------------
def comp(kind, it, cond, elt):
    """[elt for x in it if cond]"""
    if not is_symbolic_iter(it):
        if hasattr(type(it), '__vc_seq__') or isinstance(it, (SymSeq, VDict, VSeqIter)) or \
                getattr(type(it), '__vc_instrumented__', False):
            it = seq_of(it).items_concrete()
        if kind == 'gen':
            return (elt(x) for x in it if cond(x))
        if kind == 'list':
            return [elt(x) for x in it if cond(x)]
        if kind == 'set':
            return make_set([elt(x) for x in it if cond(x)])
        d = VDict()
        for x in it:
            if cond(x):
                k, v = elt(x)
                d[k] = v
        return d
    seq = seq_of(it)
    out = []
    for s in seq.segs:
        if s.single:
            x = s.cases[0][1]
            if cond(x):
                out.append(single(elt(x)))
            continue

        def fn(x):
            if not cond(x):
                return SKIPPED
            return elt(x)
        idx, dims, paths = explore_generic(s, fn)
        apply_effects(idx, dims, paths)
        cases = [(g, r.value) for g, r in paths]
        if cases:
            out.append(Seg(idx, dims, simplify_cases(idx, dims, cases)))
    if kind == 'dict':
        d = VDict()
        for s in out:
            if s.single:
                d[s.cases[0][1][0]] = s.cases[0][1][1]
            else:
                d._vc_family('setitem', s.idx, s.dims, s.cases)
        return d
    if kind == 'set':
        raise Unsupported('set of symbolic size')
    r = SymSeq(out, 'list')
    return VSeqIter(r) if kind == 'gen' else r


def simplify_cases(idx, dims, cases):
    if len(cases) == 1:
        g, v = cases[0]
        if not z3.is_true(g):
            dom = [z3.And(i >= 0, i < d) for i, d in zip(idx, dims)]
            if solve.prove(ENG.pc() + dom, g, (), 2000, quick=True).proved:
                return [(z3.BoolVal(True), v)]
    return cases


def make_set(xs):
    try:
        if not any(isinstance(x, Sym) for x in xs):
            return set(xs)
    except TypeError:
        pass
    out = []
    for x in xs:
        if not any(eq_branch(x, y) for y in out):
            out.append(x)
    return VSet(out)


class VSet(Sym):
    __hash__ = None

    def __init__(self, xs=()):
        self.xs = list(xs)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __contains__(self, x):
        return any(eq_branch(x, y) for y in self.xs)

    def add(self, x):
        if x not in self:
            self.xs.append(x)

    def __eq__(self, o):
        return len(self) == len(o) and all(x in self for x in o)


# ---------------------------------------------------------------------------------------------
#  sums
# ---------------------------------------------------------------------------------------------
def faulhaber(p, n):
    """sum_{k<n} k**p as a polynomial in n"""
    from fractions import Fraction
    from math import comb
    # Bernoulli numbers B_1 = -1/2
    B = [Fraction(0)] * (p + 1)
    for m in range(p + 1):
        B[m] = Fraction(1) if m == 0 else -sum(Fraction(comb(m + 1, j)) * B[j] for j in range(m)) / (m + 1)
    t = rv(0)
    np_ = n
    for j in range(p + 1):
        co = Fraction(comb(p + 1, j)) * B[j] / (p + 1)
        e = p + 1 - j
        term = rv(co)
        for _ in range(e):
            term = term * np_
        t = t + term
    return t


def sum_over(k, n, body):
    """closed / canonical form of  sum_{0<=k<n} body(k)   (n >= 0 under the path condition)"""
    for p in {id(p): p for p in PERMS.values()}.values():
        # a sum over all positions of a sorted list is one over the list
        if occurs(k, body) and RING.equal(to_real(p.n), to_real(n)):
            j = z3.Int('perm!j')
            b = z3.substitute(body, (p.f(k), j))
            if occurs(j, b) and not occurs(k, b):
                body = z3.substitute(b, (j, k))
    num, den = RING.rf(body)
    kat = RING.atom(('c', k.sexpr(), k.sort().name()), k)

    def dep(at):
        return at == kat or occurs(k, RING.terms[at])

    den_dep = any(dep(a) for a in den.atoms())
    den_t = RING.poly_to_z3(den)
    N = to_real(n)
    total = rv(0)
    groups = {}
    for m, c in num.d.items():
        ind = tuple((a, e) for a, e in m if not dep(a))
        d = tuple((a, e) for a, e in m if dep(a))
        groups.setdefault(d, {})[ind] = c
    for d, coeffs in groups.items():
        co = RING.poly_to_z3(Poly(coeffs))
        if not den_dep and all(a == kat for a, _ in d):
            p = d[0][1] if d else 0
            s = faulhaber(p, N) if p else N
        else:
            mono = RING.poly_to_z3(Poly({d: 1}))
            if den_dep:
                mono = mono / den_t
            s = SUMF(n if z3.is_int(n) else RING.floor(n), canon_lambda(k, mono))
        total = total + co * s
    if not den_dep and den.as_const() != 1:
        total = total / den_t
    return total


_lam = {}


def depth(t, memo={}):
    """nesting of binders"""
    r = memo.get(t.get_id())
    if r is None:
        r = 1 + depth(t.body()) if z3.is_quantifier(t) else max((depth(c) for c in t.children()), default=0)
        memo[t.get_id()] = (t, r)
        return r
    return r[1]


def canon_lambda(k, body):
    """lambda with a bound variable of a fixed name: structural equality is ring equality of the bodies"""
    v = z3.Int('·' * (1 + depth(body)))
    b = z3.substitute(body, (k, v))
    num, den = RING.rf(b)
    key = (RING.poly_key(num), RING.poly_key(den))
    r = _lam.get(key)
    if r is None:
        b = RING.to_z3((num, den))
        r = z3.Lambda([v], b)
        _lam[key] = r
    return r


def seg_sum(seg, cases):
    """sum over the family of the case values (numbers); cases: (guard, SNum)"""
    body = rv(0)
    # cases with the same value need not be told apart
    groups = []
    for g, v in cases:
        x = lift(v).r
        for gr in groups:
            if RING.equal(gr[1], x):
                gr[0].append(g)
                break
        else:
            groups.append(([g], x))
    for gs, x in groups:
        g = gs[0] if len(gs) == 1 else z3.Or(*gs)
        if len(gs) > 1 and solve.prove(ENG.pc() + seg.dom(), g, (), 3000, quick=True).proved:
            g = z3.BoolVal(True)
        if not z3.is_true(z3.simplify(g)):
            g = canon_guard(g, seg)
            if z3.is_false(g):
                continue
            if not z3.is_true(g):
                x = x * z3.If(g, rv(1), rv(0))
        body = body + x
    idx, dims = list(seg.idx), list(seg.dims)
    t = body
    for k, n in reversed(list(zip(idx, dims))):
        t = sum_over(k, n, t)
    return SNum(t, 'float')


def canon_guard(g, seg):
    """drop conjuncts implied by the domain; sort"""
    dom = seg.dom()
    pc = ENG.pc() + dom
    out = []
    for c in conj(z3.simplify(g)):
        if solve.prove(pc, c, (), 1000, quick=True).proved:
            continue
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    out.sort(key=lambda c: c.sexpr())
    return z3.And(*out) if len(out) > 1 else out[0]


def sym_sum(seq, start=0):
    tot = start
    for s in seq.segs:
        if s.single:
            tot = tot + s.cases[0][1]
            continue
        vals = [(g, v) for g, v in s.cases]
        if all(lift(v) is not None for _, v in vals):
            allint = all(lift(v).py == 'int' for _, v in vals)
            t = seg_sum(s, vals)
            if allint:
                c0 = RING.rf(t.r)
                t = SNum(RING.poly_to_z3(c0[0], real=False), 'int') if RING.int_valued(*c0) else SNum(RING.floor(t.r), 'int')
            tot = tot + t
        elif all(isinstance(v, SComplex) for _, v in vals):
            tot = tot + SComplex(seg_sum(s, [(g, v.re) for g, v in vals]), seg_sum(s, [(g, v.im) for g, v in vals]))
        else:
            q = quantity_sum(s, vals)
            if q is None:
                raise Unsupported('sum of non-numbers')
            tot = tot + q
    return tot


def quantity_sum(s, vals):
    """sum of pint quantities with one common unit"""
    units = {str(getattr(v, 'units', None)) for _, v in vals}
    if len(units) == 1 and 'None' not in units:
        u = vals[0][1].units
        return seg_sum(s, [(g, v.magnitude) for g, v in vals]) * u
    return None


def elementwise_seq(seq, o, f):
    """map f(x, o)"""
    out = []
    for s in seq.segs:
        out.append(Seg(s.idx, s.dims, [(g, f(v, o)) for g, v in s.cases]))
    return SymSeq(out, seq.kind)


def minmax(seq, sign, key=None):
    """max (sign=1) / min (sign=-1) of a family whose elements are numbers"""
    if key is not None:
        raise Unsupported('max with key over a symbolic sequence')
    best = None
    for s in seq.segs:
        if s.single:
            v = s.cases[0][1]
        else:
            if s.guarded() or len(s.dims) != 1 or len(s.cases) != 1:
                raise Unsupported('max over a filtered family')
            n = s.dims[0]
            if ENG.branch(n <= 0):
                continue
            x = lift(s.cases[0][1])
            k = s.idx[0]
            a = z3.substitute(x.t, (k, z3.IntVal(0)))
            b = z3.substitute(x.t, (k, n - 1))
            nxt = z3.substitute(x.r, (k, k + 1)) - x.r
            num, den = RING.rf(nxt)
            at = RING.ids.get(('c', k.sexpr(), k.sort().name()))
            if any(z == at or occurs(k, RING.terms[z]) for z in num.atoms() | den.atoms()):
                raise Unsupported('max over a non-linear family')
            up = ENG.branch(RING.to_z3((num, den)) * sign >= 0)
            v = SNum(b if up else a, x.py)
        if best is None:
            best = v
        else:
            best = v if ENG.branch(bterm((v > best) if sign > 0 else (v < best))) else best
    if best is None:
        raise ValueError('max() arg is an empty sequence')
    return best


def sym_all(seq, neg=False):
    """all(seq) / any(seq) (neg)"""
    for s in seq.segs:
        if s.single:
            v = bool(s.cases[0][1])
            if v == neg:
                return neg
            continue
        conds = [z3.Implies(g, bterm(v) if not neg else z3.Not(bterm(v))) for g, v in s.cases]
        allc = z3.And(*s.dom())
        body = z3.And(*conds)
        # does it hold for every index?
        if solve.prove(ENG.pc() + s.dom(), body, ENG.universals(), 3000, quick=True).proved:
            continue
        b = ENG.fresh('all', 'bool')
        if ENG.branch(b):
            ENG.frames[-1].universals.append(z3.ForAll(s.idx, z3.Implies(allc, body)))
            continue
        js = [ENG.fresh('wit', 'int') for _ in s.idx]
        m = list(zip(s.idx, js))
        ENG.assume(z3.substitute(z3.And(allc, z3.Not(body)), *m))
        ENG.check_feasible()
        return neg
    return not neg


def sym_range(*a):
    """range() with symbolic bounds and step 1"""
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(hi, FlatIdx):
        hi = hi.num()
    if st != 1:
        raise Unsupported('range with a symbolic bound and a step')
    if isinstance(hi, ShapedLen) and lo == 0:
        idx = [fresh_idx('f') for _ in hi.dims]
        return SymSeq([Seg(idx, hi.dims, [(z3.BoolVal(True), FlatIdx(idx, hi.dims))])], 'range')
    lo, hi = lift(lo), lift(hi)
    if lo.py != 'int' or hi.py != 'int':
        raise TypeError("'float' object cannot be interpreted as an integer")
    n = hi - lo
    if ENG.branch(n.t <= 0):
        return SymSeq([], 'range')
    k = fresh_idx('r')
    return SymSeq([Seg([k], [z3.simplify(n.t)], [(z3.BoolVal(True), SNum(z3.simplify(k + lo.t), 'int'))])], 'range')


def sym_arange(*a):
    """np.arange with symbolic bounds: lo, lo+1, ... < hi   (step 1)"""
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi = lift(lo), lift(hi)
    st = lift(st)
    c = RING.const_of(st.r)
    if c is None or c <= 0:
        raise Unsupported('arange with a symbolic step')
    span = (hi - lo)
    q = (span / st)
    # number of elements: ceil((hi-lo)/step)
    n, d = RING.rf(q.r)
    if RING.int_valued(n, d):
        cnt = RING.poly_to_z3(n, real=False)
    else:
        cnt = -RING.floor(-q.r)
    if ENG.branch(cnt <= 0):
        return SymSeq([], 'ndarray')
    k = fresh_idx('a')
    py = 'int' if lo.py == hi.py == 'int' and st.py == 'int' else 'float'
    v = (SNum(z3.simplify(lo.t + k * z3.IntVal(int(c))), 'int') if py == 'int' else
         SNum(RING.to_z3(RING.rf(lo.r + z3.ToReal(k) * st.r)), 'float'))
    return SymSeq([Seg([k], [z3.simplify(cnt)], [(z3.BoolVal(True), v)])], 'ndarray')


def sym_product(*its):
    """itertools.product"""
    seqs = [seq_of(i) for i in its]
    out = []

    def rec(n, segs):
        if n == len(seqs):
            out.append(ProdSeg(list(segs)) if any(not s.single for s in segs) else
                       single(tuple(s.cases[0][1] for s in segs)))
            return
        for s in seqs[n].segs:
            rec(n + 1, segs + [s])
    order_matters_ok = all(len(q.segs) <= 1 for q in seqs[1:])
    rec(0, [])
    if not order_matters_ok:
        pass        # a product of multi-segment sequences is enumerated segment-wise: as a multiset it is the same
    return VSeqIter(SymSeq(out, 'iter'))


class ProdSeg(Seg):
    """cartesian product of segments (index constants renamed apart)"""

    def __init__(self, parts):
        self.parts = parts
        self.ren = []
        self.idx, self.dims = [], []
        for p in parts:
            idx = [fresh_idx('p') for _ in p.idx]
            m = list(zip(p.idx, idx))
            self.ren.append((idx, m))
            self.idx += idx
            self.dims += [z3.substitute(d, *m) if m else d for d in p.dims]
        self.cache = []

    @property
    def cases(self):
        res = [([], [])]
        for p, (idx, m) in zip(self.parts, self.ren):
            sub = Subst(m, [i.get_id() for i in p.idx])
            res = [(gs + [sub.term(g)], vs + [sub.obj(v)]) for gs, vs in res for g, v in p.cases]
        return [(z3.And(*gs) if len(gs) > 1 else gs[0], tuple(vs)) for gs, vs in res]

    def guarded(self):
        return any(p.guarded() for p in self.parts)

    def guard(self):
        return z3.And(*[z3.substitute(p.guard(), *m) if m else p.guard() for p, (i, m) in zip(self.parts, self.ren)])

    def at(self, terms):
        out = []
        k = 0
        for p in self.parts:
            n = len(p.idx)
            out.append(p.at(terms[k:k + n]))
            k += n
        return tuple(out)

    def subst(self, sub):
        return ProdSeg([p.subst(sub) for p in self.parts])


class PairSeg(ProdSeg):
    """the pairs (x_i, x_j) with i <= j of one family"""

    def __init__(self, part):
        super().__init__([part, part])
        if len(self.idx) != 2:
            raise Unsupported('pairs from a multi-dimensional family')
        self.le = self.idx[0] <= self.idx[1]

    @property
    def cases(self):
        return [(z3.And(self.le, g), v) for g, v in ProdSeg.cases.fget(self)]

    def guarded(self):
        return True

    def guard(self):
        return z3.And(self.le, super().guard())

    def at(self, terms):
        if not ENG.branch(terms[0] <= terms[1]):
            raise Skip()
        return super().at(terms)

    def subst(self, sub):
        return PairSeg(self.parts[0].subst(sub))


def sym_pairs(it):
    """itertools.combinations_with_replacement(it, 2)"""
    segs = seq_of(it).segs
    out = []
    for n, s in enumerate(segs):
        out.append(single((s.cases[0][1],) * 2) if s.single else PairSeg(s))
        for t in segs[n + 1:]:
            out.append(single((s.cases[0][1], t.cases[0][1])) if s.single and t.single else ProdSeg([s, t]))
    return VSeqIter(SymSeq(out, 'iter'))


def sym_zip(*its):
    seqs = [seq_of(i) for i in its]
    if all(q.concrete for q in seqs):
        return SymSeq([single(t) for t in zip(*[q.items_concrete() for q in seqs])], 'iter')
    if all(len(q.segs) == 1 and not q.segs[0].single and not q.segs[0].guarded() for q in seqs):
        s0 = seqs[0].segs[0]
        if all(len(q.segs[0].dims) == len(s0.dims) and
               all(RING.equal(to_real(a), to_real(b)) for a, b in zip(q.segs[0].dims, s0.dims)) for q in seqs):
            return SymSeq([ZipSeg([q.segs[0] for q in seqs])], 'iter')
    raise Unsupported('zip of symbolic sequences of different structure')


class ZipSeg(Seg):
    def __init__(self, parts):
        self.parts = parts
        self.idx = [fresh_idx('z') for _ in parts[0].idx]
        m = list(zip(parts[0].idx, self.idx))
        self.dims = [z3.substitute(d, *m) for d in parts[0].dims]
        self.cache = []

    @property
    def cases(self):
        vs = []
        for p in self.parts:
            sub = Subst(list(zip(p.idx, self.idx)), [i.get_id() for i in p.idx])
            vs.append(sub.obj(p.cases[0][1]))
        return [(z3.BoolVal(True), tuple(vs))]

    def guarded(self):
        return False

    def at(self, terms):
        return tuple(p.at(terms) for p in self.parts)

    def subst(self, sub):
        return ZipSeg([p.subst(sub) for p in self.parts])


class EnumSeg(Seg):
    def __init__(self, base, start):
        self.base, self.start = base, start
        self.idx, self.dims = base.idx, base.dims
        self.cache = []

    @property
    def cases(self):
        return [(g, (SNum(self.idx[0] + self.start.t, 'int'), v)) for g, v in self.base.cases]

    def guarded(self):
        return self.base.guarded()

    def at(self, terms):
        return (SNum(quick_term(terms[0]) + self.start.t, 'int'), self.base.at(terms))

    def subst(self, sub):
        return EnumSeg(self.base.subst(sub), sub.num(self.start))


def sym_enumerate(it, start=0):
    seq = seq_of(it)
    if seq.concrete:
        return SymSeq([single((i + start, x)) for i, x in enumerate(seq.items_concrete())], 'iter')
    out = []
    off = lift(start)
    for s in seq.segs:
        if s.single:
            out.append(single((off, s.cases[0][1])))
            off = off + 1
        else:
            if s.guarded() or len(s.dims) != 1:
                raise Unsupported('enumerate of a filtered family')
            out.append(EnumSeg(s, off))
            off = off + s.count()
    return SymSeq(out, 'iter')


def sym_reversed(it):
    seq = seq_of(it)
    out = []
    for s in reversed(seq.segs):
        if s.single:
            out.append(s)
        else:
            if len(s.dims) != 1:
                raise Unsupported('reversed')
            j = fresh_idx('v')
            sub = Subst([(s.idx[0], s.dims[0] - 1 - j)], [s.idx[0].get_id()])
            out.append(Seg([j], s.dims, [(sub.term(g), sub.obj(v)) for g, v in s.cases]))
    return SymSeq(out, 'iter')


def sym_map(f, *its):
    seq = seq_of(its[0]) if len(its) == 1 else sym_zip(*its)
    r = comp('list', seq, lambda x: True, (lambda x: f(x)) if len(its) == 1 else (lambda x: f(*x)))
    return VSeqIter(r) if isinstance(r, SymSeq) else iter(r)


def sym_filter(f, it):
    r = comp('list', seq_of(it), (lambda x: f(x)) if f is not None else (lambda x: x), lambda x: x)
    return VSeqIter(r) if isinstance(r, SymSeq) else iter(r)


def sym_chain(*its):
    out = []
    for i in its:
        out += as_segs(i)
    return VSeqIter(SymSeq(out, 'iter'))


def chain_from_iterable(its):
    if is_symbolic_iter(its):
        seq = seq_of(its)
        out = []
        for s in seq.segs:
            if s.single:
                out += as_segs(s.cases[0][1])
                continue
            for g, v in s.cases:
                for t in as_segs(v):
                    out.append(Seg(list(s.idx) + list(t.idx), list(s.dims) + list(t.dims),
                                   [(z3.And(g, g2), v2) for g2, v2 in t.cases]))
        return VSeqIter(SymSeq(out, 'iter'))
    if isinstance(its, (SymSeq, VDict, VSeqIter)):
        its = seq_of(its).items_concrete()
    out = []
    for i in its:
        out += as_segs(i)
    return VSeqIter(SymSeq(out, 'iter'))


# ---------------------------------------------------------------------------------------------
#  sorted(): the list in another order
# ---------------------------------------------------------------------------------------------
PERMS = solve.PERMS          # name -> Perm


class Perm:
    """position in the sorted list -> position in the list: a bijection that puts the keys in order"""

    def __init__(self, name, n, pieces):
        self.name, self.n, self.pieces = name, n, pieces
        self.f = z3.Function('PERM!' + name, z3.IntSort(), z3.IntSort())
        self.g = z3.Function('INV!' + name, z3.IntSort(), z3.IntSort())

    def key(self, p):
        r = None
        for off, cnt, idx, K in reversed(self.pieces):
            x = z3.substitute(K, (idx, p - off)) if idx is not None else K
            r = x if r is None else z3.If(p < off + cnt, x, r)
        return r

    def facts(self, app):
        t = app.arg(0)
        back = self.g(app) if app.decl().name().startswith('PERM!') else self.f(app)
        return [z3.Implies(z3.And(t >= 0, t < self.n), z3.And(app >= 0, app < self.n, back == t))]

    def order(self, apps):
        out = []
        for i, a in enumerate(apps):
            for b in apps[:i]:
                s, t = a.arg(0), b.arg(0)
                for x, y, p, q in ((s, t, a, b), (t, s, b, a)):
                    out.append(z3.Implies(z3.And(x >= 0, x < y, y < self.n), self.key(p) <= self.key(q)))
        return out


class PermSeg(Seg):
    def __init__(self, perm, segs, off=None, n=None):
        self.perm, self.segs, self.off = perm, segs, z3.IntVal(0) if off is None else off
        n = perm.n if n is None else n
        r = fresh_idx('r')
        TOK[r.get_id()], DIMS[r.get_id()] = r, n
        _keep.append(r)
        self.idx, self.dims, self.cache = [r], [n], []

    def guarded(self):
        return False

    def guard(self):
        return z3.BoolVal(True)

    def at(self, terms):
        p = self.perm.f(quick_term(z3.simplify(terms[0] + self.off)))
        last = len(self.segs) - 1
        for j, (s, (off, cnt, idx, K)) in enumerate(zip(self.segs, self.perm.pieces)):
            if j == last or ENG.branch(p < off + cnt):
                return s.cases[0][1] if s.single else s.at([p if z3.is_int_value(off) and off.as_long() == 0 else p - off])

    @property
    def cases(self):
        raise Unsupported('direct use of a sorted family')

    def subst(self, sub):
        ts = [self.perm.n, self.off, self.dims[0]] + [K for _, _, _, K in self.perm.pieces]
        if any(occurs(a, t) for a, _ in sub.pairs for t in ts):
            raise Unsupported('sorted list that depends on an index')
        return self


def same_there(idx, g, x, y):
    """g says idx == t, and x is what y is at t (an element that was looked at on its own)"""
    for c in (g.children() if z3.is_and(g) else [g]):
        if z3.is_eq(c) and z3.is_int(c.arg(0)):
            for i, t in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if i.eq(idx) and not occurs(idx, t):
                    a, b = z3.substitute(x, (idx, t)), z3.substitute(y, (idx, t))
                    return z3.simplify(a).eq(z3.simplify(b)) or RING.to_z3(RING.rf(a)).eq(RING.to_z3(RING.rf(b)))
    return False


def sorted_seq(seq, key, reverse):
    kf = key or (lambda v: v)
    off = z3.IntVal(0)
    pieces, sig = [], []
    for s in seq.segs:
        if s.single:
            cnt, idx, v = z3.IntVal(1), None, kf(s.cases[0][1])
            K = lift(v)
        else:
            if len(s.dims) != 1 or s.guarded():
                raise Unsupported('sorted() of a filtered sequence')
            ks = comp('list', SymSeq([s]), lambda x: True, kf).segs[0]
            cnt, idx = s.dims[0], ks.idx[0]
            vals = [(g, lift(v)) for g, v in ks.cases]
            if any(v is None for _, v in vals):
                raise Unsupported('sorted() by keys that are not numbers')
            K = vals[-1][1]
            for g, v in reversed(vals[:-1]):
                if not same_there(idx, g, v.r, K.r):
                    K = SNum(z3.If(g, v.r, K.r), 'float')
        if K is None:
            raise Unsupported('sorted() by keys that are not numbers')
        k = K.r if not reverse else -K.r
        pieces.append((off, cnt, idx, k))
        sig.append(f'{cnt.sexpr()}:{(canon_lambda(idx, k) if idx is not None else RING.to_z3(RING.rf(k))).sexpr()}')
        off = z3.simplify(off + cnt)
    sig = '|'.join(sig)
    p = PERMS.get(sig)
    if p is None:
        p = PERMS[sig] = Perm(str(len(PERMS)), off, pieces)
        PERMS['PERM!' + p.name] = PERMS['INV!' + p.name] = p
    return SymSeq([PermSeg(p, seq.segs)], 'list')
