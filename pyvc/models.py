"""Models (contracts) of the library functions the verified code calls: numpy, networkx, itertools, functools, tqdm, ...

Everything in this file is trusted; MODELLED lists it for the evidence files.
"""
from __future__ import annotations
import functools
import itertools
import types
import warnings as _warnings

import networkx as nx
import numpy as np
import z3

from . import core, seq as Q, runtime as RT
from .core import ENG, SNum, SBool, SComplex, Sym, Unsupported, lift, sqrt, mkbool, bterm, EXP, rv, s_abs
from .ring import RING
from .rope import SStr, to_str
from .seq import SymSeq, VDict, VSeqIter, Seg, single, is_symbolic_iter, seq_of

MODELLED = {
    'numpy': 'arange repeat tile array stack sum prod any all abs sqrt exp linalg.norm dot outer zeros ones linspace (mathematical reals)',
    'networkx': 'Graph add_node add_edge nodes edges adj subgraph edge_subgraph connected_components dfs_edges '
                'get_node_attributes get_edge_attributes (undirected simple graph with insertion order)',
    'sympy': 'wigner_3j/6j/9j as uninterpreted functions with selection-rule, symmetry and orthogonality axioms',
    'scipy.special': 'jv, voigt_profile as uninterpreted functions; pi as a constant between 3.14159 and 3.1416',
    'pint': 'executed as is on symbolic magnitudes (unit conversion factors are the real ones)',
    'itertools/functools/tqdm/warnings': 'product chain; lru_cache is dropped (memoisation not modelled); progress bars and warnings have no effect',
}


class Proxy(types.ModuleType):
    def __init__(self, real, name=None):
        object.__setattr__(self, '_real', real)
        object.__setattr__(self, '__name__', name or real.__name__)

    def __getattr__(self, n):
        if n in ('__path__', '__spec__', '__file__', '__loader__'):
            return getattr(object.__getattribute__(self, '_real'), n)
        r = getattr(object.__getattribute__(self, '_real'), n)
        if callable(r) and not isinstance(r, type):
            @functools.wraps(r)
            def f(*a, **k):
                if any(RT.contains_sym(x) for x in a) or any(RT.contains_sym(x) for x in k.values()):
                    raise Unsupported(f'{self.__name__}.{n} on symbolic values')
                return r(*a, **k)
            return f
        return r

    @property
    def __all__(self):
        return getattr(object.__getattribute__(self, '_real'), '__all__', [x for x in dir(self._real) if x[0] != '_'])


# ---------------------------------------------------------------------------------------------
#  numpy
# ---------------------------------------------------------------------------------------------
def items(x):
    """concrete list of elements, or None"""
    if isinstance(x, (SymSeq, VSeqIter)):
        s = seq_of(x)
        return list(s.items_concrete()) if s.concrete else None
    return list(x)


def to_arr(x):
    """nested concrete sequence (possibly of proxies) -> ndarray"""
    if isinstance(x, np.ndarray) or not (RT.contains_sym(x) or isinstance(x, (list, tuple))):
        return np.array(x)
    if isinstance(x, (SNum, SBool, SComplex)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    xs = items(x)
    if xs is None:
        return seq_of(x)
    rows = [to_arr(y) if isinstance(y, (list, tuple, np.ndarray, SymSeq, VSeqIter)) else y for y in xs]
    if any(isinstance(r, SymSeq) for r in rows):
        return Rows(rows)
    if rows and all(isinstance(r, np.ndarray) for r in rows):
        return np.stack([r for r in rows])
    if any(isinstance(r, Sym) for r in rows) or any(not isinstance(r, (int, float, complex, str, np.generic)) for r in rows):
        a = np.empty(len(rows), dtype=object)
        for i, r in enumerate(rows):
            a[i] = r
        return a
    return np.array(rows)


class Rows(SymSeq):
    """2-d array with a concrete number of rows of symbolic length"""

    def __init__(self, rows):
        super().__init__([single(r) for r in rows], 'ndarray')

    @property
    def shape(self):
        r = self.items_concrete()
        return (len(r), RT.b_len(r[0]))

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r = self
            for x in k:
                r = RT.getitem(r, x)
            return r
        return super().__getitem__(k)


def map1(f, x):
    if isinstance(x, (list, tuple)):
        x = to_arr(x)
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            x = x.astype(object)
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            o[i] = f(x[i])
        return o
    if isinstance(x, (SymSeq, VSeqIter)):
        s = seq_of(x)
        return SymSeq([Q.MapSeg(g, f) if not g.single else single(f(g.cases[0][1])) for g in s.segs], 'ndarray')
    return f(x)


def s_exp(x):
    x0 = lift(x)
    c = RING.const_of(x0.r)
    if c is not None and c == 0:
        return SNum(rv(1), 'float')
    return SNum(EXP(x0.r), 'float')


class LinAlg(Proxy):
    def __init__(self):
        super().__init__(np.linalg)

    def norm(self, x, *a, **k):
        if not RT.contains_sym(x):
            return np.linalg.norm(x, *a, **k)
        if a or k:
            raise Unsupported('norm options')
        t = 0
        for v in items(x):
            if isinstance(v, SComplex):
                t = t + v.abs2()
            else:
                t = t + v * v
        return sqrt(t)


class NP(Proxy):
    def __init__(self):
        super().__init__(np)
        object.__setattr__(self, 'linalg', LinAlg())

    @property
    def pi(self):
        return core.pi()

    def _sym(self, *a):
        return any(RT.contains_sym(x) for x in a)

    def array(self, x, dtype=None, **k):
        if not self._sym(x):
            if isinstance(x, (list, tuple)) and any(not isinstance(y, (int, float, complex, str, list, tuple, np.generic, np.ndarray)) for y in x):
                return to_arr(x)
            return np.array(x, dtype=dtype, **k)
        r = to_arr(x)
        if isinstance(r, SymSeq) and not isinstance(r, Rows):
            return SymSeq(r.segs, 'ndarray')
        return r

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray):
            return x
        return self.array(x, dtype)

    def arange(self, *a, **k):
        if not self._sym(*a):
            return np.arange(*a, **k)
        return Q.sym_arange(*a)

    def repeat(self, a, n, axis=None):
        if not self._sym(a, n):
            if isinstance(a, list):
                a = np.array(a)
            return np.repeat(a, n)
        return outer_pair(seq_of(a), n, first=True)

    def tile(self, a, n):
        if not self._sym(a, n):
            return np.tile(a, n)
        return outer_pair(seq_of(a), n, first=False)

    def stack(self, xs, axis=0, **k):
        xs = items(xs)
        if not self._sym(*xs):
            return np.stack(xs, axis=axis)
        rows = [to_arr(x) if not isinstance(x, SymSeq) else x for x in xs]
        if any(isinstance(r, SymSeq) for r in rows):
            return Rows(rows)
        return np.stack(rows, axis=axis)
    vstack = stack

    def sum(self, x, axis=None, **k):
        if isinstance(x, (SymSeq, VSeqIter)):
            return RT.b_sum(x)
        if not self._sym(x) and not isinstance(x, list):
            return np.sum(x, axis=axis, **k)
        if axis is not None:
            return np.sum(to_arr(x), axis=axis)
        t = 0
        for v in to_arr(x).ravel():
            t = t + v
        return t

    def prod(self, x, **k):
        t = 1
        for v in items(x):
            t = t * v
        return t

    def any(self, x, **k):
        if isinstance(x, (SymSeq, VSeqIter)):
            return RT.b_any(x)
        if not self._sym(x):
            return np.any(x, **k)
        return core.Or(*[truth(v) for v in to_arr(x).ravel()])

    def all(self, x, **k):
        if isinstance(x, (SymSeq, VSeqIter)):
            return RT.b_all(x)
        if not self._sym(x):
            return np.all(x, **k)
        return core.And(*[truth(v) for v in to_arr(x).ravel()])

    def abs(self, x):
        return map1(s_abs, x) if self._sym(x) else np.abs(x)
    absolute = abs

    def sqrt(self, x):
        return map1(sqrt, x) if self._sym(x) else np.sqrt(x)

    def exp(self, x):
        return map1(s_exp, x) if self._sym(x) else np.exp(x)

    def square(self, x):
        return x * x

    def conj(self, x):
        return map1(lambda v: v.conjugate(), x) if self._sym(x) else np.conj(x)
    conjugate = conj

    def real(self, x):
        return map1(lambda v: v.real, x) if self._sym(x) else np.real(x)

    def imag(self, x):
        return map1(lambda v: v.imag, x) if self._sym(x) else np.imag(x)

    def power(self, a, b):
        return a ** b if self._sym(a, b) else np.power(a, b)

    def isnan(self, x):
        return map1(lambda v: False, x) if self._sym(x) else np.isnan(x)

    def isfinite(self, x):
        return map1(lambda v: True, x) if self._sym(x) else np.isfinite(x)

    def dot(self, a, b):
        if not self._sym(a, b):
            return np.dot(a, b)
        xs, ys = items(a), items(b)
        t = 0
        for x, y in zip(xs, ys):
            t = t + x * y
        return t
    vdot = dot
    inner = dot

    def cross(self, a, b):
        if not self._sym(a, b):
            return np.cross(a, b)
        a, b = items(a), items(b)
        return to_arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])

    def outer(self, a, b):
        if not self._sym(a, b):
            return np.outer(a, b)
        a, b = items(a), items(b)
        o = np.empty((len(a), len(b)), dtype=object)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                o[i, j] = x * y
        return o

    def zeros_like(self, x, **k):
        if not self._sym(x):
            return np.zeros_like(x, **k)
        return map1(lambda v: 0.0, x)

    def ones_like(self, x, **k):
        if not self._sym(x):
            return np.ones_like(x, **k)
        return map1(lambda v: 1.0, x)

    def full_like(self, x, v, **k):
        if not self._sym(x, v):
            return np.full_like(x, v, **k)
        return map1(lambda _: v, x)

    def linspace(self, a, b, n=50, **k):
        if not self._sym(a, b, n):
            return np.linspace(a, b, n, **k)
        if k:
            raise Unsupported('linspace options')
        if isinstance(n, SNum) or n > 16:
            n = lift(n)
            if n.py != 'int':
                raise TypeError("'float' object cannot be interpreted as an integer")
            if n < 0:
                raise ValueError('Number of samples must be non-negative.')
            if n == 0:
                return SymSeq([], 'ndarray')
            if n == 1:
                return SymSeq([single(a)], 'ndarray')
            j = Q.fresh_idx('lin')
            a, b = lift(a), lift(b)
            return SymSeq([Seg([j], [n.t], [(z3.BoolVal(True), a + (b - a) * SNum(j, 'int') / (n - 1))])], 'ndarray')
        o = np.empty(n, dtype=object)
        for i in range(n):
            o[i] = a + (b - a) * i / (n - 1) if n > 1 else a
        return o

    def isclose(self, a, b, rtol=1e-05, atol=1e-08):
        if not self._sym(a, b):
            return np.isclose(a, b, rtol, atol)
        return s_abs(a - b) <= atol + rtol * s_abs(b)

    def maximum(self, a, b):
        if not self._sym(a, b):
            return np.maximum(a, b)
        return a if a >= b else b

    def minimum(self, a, b):
        if not self._sym(a, b):
            return np.minimum(a, b)
        return a if a <= b else b

    def max(self, x, **k):
        return RT._minmax(1)(x) if self._sym(x) else np.max(x, **k)
    amax = max

    def min(self, x, **k):
        return RT._minmax(-1)(x) if self._sym(x) else np.min(x, **k)
    amin = min

    def where(self, c, a=None, b=None):
        if not self._sym(c, a, b):
            return np.where(c) if a is None else np.where(c, a, b)
        if isinstance(c, (SBool, bool)):
            return a if c else b
        raise Unsupported('np.where')

    def concatenate(self, xs, **k):
        xs = items(xs)
        if not self._sym(*xs):
            return np.concatenate(xs, **k)
        out = []
        for x in xs:
            out += Q.as_segs(x)
        return SymSeq(out, 'ndarray')

    def round(self, x, n=0):
        return map1(lambda v: RT.b_round(v, n), x) if self._sym(x) else np.round(x, n)

    def vectorize(self, f, **k):
        return lambda x: map1(f, x)

    def float64(self, x=0.0):
        return core.s_float(x) if self._sym(x) else np.float64(x)


def truth(v):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SNum):
        return v != 0
    return bool(v)


def outer_pair(a, n, first):
    """np.repeat / np.tile by the length of another (single-family) sequence: elements indexed by (i, j)"""
    if isinstance(n, int) and (n <= 1 or a.concrete):
        if n <= 0:
            return SymSeq([], 'ndarray')
        if n == 1:
            return SymSeq(a.segs, 'ndarray')
    if isinstance(n, int) and not first:
        return SymSeq(a.segs * n, 'ndarray')
    if isinstance(n, int):
        nt = z3.IntVal(n)
    else:
        n = lift(n)
        nt = n.t
        if ENG.branch(nt <= 0):
            return SymSeq([], 'ndarray')
    if a.concrete and (first or len(a.segs) <= 1):
        out = []
        for s in a.segs:
            out.append(Seg([Q.fresh_idx('rep')], [nt], [(z3.BoolVal(True), s.cases[0][1])]))
        return SymSeq(out, 'ndarray')
    if len(a.segs) != 1:
        raise Unsupported('repeat of a composite sequence')
    s = a.segs[0]
    j = Q.fresh_idx('rep')
    # fresh copies of the family's index constants
    idx = [Q.fresh_idx('rp') for _ in s.idx]
    m = list(zip(s.idx, idx))
    sub = Q.Subst(m, [x.get_id() for x in s.idx])
    cases = [(sub.term(g), sub.obj(v)) for g, v in s.cases]
    dims = [z3.substitute(d, *m) for d in s.dims]
    if first:
        return SymSeq([Seg(idx + [j], dims + [nt], cases)], 'ndarray')
    return SymSeq([Seg([j] + idx, [nt] + dims, cases)], 'ndarray')


# ---------------------------------------------------------------------------------------------
#  networkx
# ---------------------------------------------------------------------------------------------
class SymGraph:
    """undirected simple graph; nodes and edges keep insertion order"""

    def __init__(self, *a, **k):
        self._node = VDict()        # key -> attribute VDict
        self._edge = VDict()        # (u, v) as first inserted -> attribute VDict

    def __vc_subst__(self, sub):
        return self                 # graphs are outer objects

    # -- writing
    def add_node(self, n, **attr):
        a = self._node.get(n, None) if not self._node._outer() else None
        if a is None:
            d = VDict()
            for k, v in attr.items():
                d[k] = v
            self._node[n] = d
        else:
            for k, v in attr.items():
                a[k] = v

    def add_nodes_from(self, ns, **attr):
        for x in RT.plain_iter(ns):
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], (dict, VDict)):
                self.add_node(x[0], **{**attr, **dict(x[1].items())})
            else:
                self.add_node(x, **attr)

    def _ekey(self, u, v):
        """the stored orientation of the edge, or None"""
        for k in ((u, v), (v, u)):
            d = self._edge.get(k, None)
            if d is not None:
                return k, d
        return None, None

    def add_edge(self, u, v, **attr):
        if self._edge._outer():
            k, d = self._ekey(u, v)
            if d is not None:
                for a, x in attr.items():
                    if not d._outer():
                        d[a] = x
                    elif d.get(a, None) is not x:
                        raise Unsupported('a generic iteration changes an edge that is there already')
                return
            d = VDict()
            for k, x in attr.items():
                d[k] = x
            self._edge[(u, v)] = d
            return
        for n in (u, v):
            if self._node.get(n, None) is None:
                self._node[n] = VDict()
        k, d = self._ekey(u, v)
        if d is None:
            d = VDict()
            self._edge[(u, v)] = d
        for a, x in attr.items():
            d[a] = x

    def add_edges_from(self, es, **attr):
        for e in RT.plain_iter(es):
            e = tuple(e)
            self.add_edge(e[0], e[1], **{**attr, **(dict(e[2].items()) if len(e) > 2 else {})})

    def remove_node(self, n):
        if self._node.get(n, None) is None:
            raise nx.NetworkXError('node not in graph')
        del self._node[n]
        for e in list(self._edge.entries):
            if not e.single:
                raise Unsupported('removing a node of a graph with an edge family')
            (u, v), _ = e.cases[0][1]
            if Q.eq_branch(u, n) or Q.eq_branch(v, n):
                del self._edge[(u, v)]

    def remove_edge(self, u, v):
        k, d = self._ekey(u, v)
        if k is None:
            raise nx.NetworkXError('edge not in graph')
        del self._edge[k]

    # -- reading
    def __contains__(self, n):
        return self.has_node(n)

    def has_node(self, n):
        if isinstance(n, (list, VDict)):
            return False
        return self._node.get(n, None) is not None

    def has_edge(self, u, v):
        return self._ekey(u, v)[1] is not None

    def __vc_len__(self):
        return self._node.__vc_len__()

    def __len__(self):
        return len(self._node)

    def __bool__(self):
        return bool(self._node)

    def __vc_seq__(self):
        return self._node.keys()

    def __iter__(self):
        return iter(self._node)

    @property
    def nodes(self):
        return NodeView(self)

    @property
    def edges(self):
        return EdgeView(self)

    @property
    def adj(self):
        return AdjView(self)

    def __getitem__(self, n):
        return AdjView(self)[n]

    def neighbors(self, n):
        return RT.b_iter(AdjView(self)[n])

    def number_of_nodes(self):
        return self.__vc_len__()

    def number_of_edges(self):
        return self._edge.__vc_len__()

    def get_edge_data(self, u, v, default=None):
        k, d = self._ekey(u, v)
        return default if d is None else d

    def degree(self, n):
        return RT.b_len(AdjView(self)[n])

    def _order(self):
        """concrete list of node keys"""
        if not self._node.concrete:
            raise Unsupported('order of a symbolic node family')
        return list(self._node.keys())

    def _edge_list(self):
        """edges in networkx order: for each node in order, its neighbours in adjacency order, each edge once"""
        if not self._edge.concrete:
            raise Unsupported('enumeration of an edge family')
        nodes = self._order()
        raw = [e.cases[0][1] for e in self._edge.entries]
        out, done = [], []
        for n in nodes:
            for i, ((u, v), d) in enumerate(raw):
                if i in done:
                    continue
                if same(u, n):
                    out.append((n, v, d))
                    done.append(i)
                elif same(v, n):
                    out.append((n, u, d))
                    done.append(i)
        return out

    def edge_subgraph(self, es):
        ks = []
        for e in RT.plain_iter(es):
            ks.append(self._ekey(e[0], e[1])[0])
        ks = [k for k in ks if k is not None]
        return self._sub(None, ks)

    def subgraph(self, ns):
        return self._sub(list(RT.plain_iter(ns)), None)

    def _sub(self, ns, ks):
        g = SymGraph()
        edges = [e.cases[0][1] for e in self._edge.entries]
        keep = []
        for k, d in edges:
            if ks is not None and not any(k is x or (same(k[0], x[0]) and same(k[1], x[1])) for x in ks):
                continue
            if ns is not None and not (any(same(k[0], x) for x in ns) and any(same(k[1], x) for x in ns)):
                continue
            keep.append((k, d))
        for n in self._order():
            if ns is not None:
                ok = any(same(n, x) for x in ns)
            else:
                ok = any(same(n, k[0]) or same(n, k[1]) for k, _ in keep)
            if ok:
                g._node.entries.append(single((n, self._node[n])))
        for k, d in keep:
            g._edge.entries.append(single((k, d)))
        return g

    def copy(self):
        return self._sub(self._order(), None)


def same(a, b):
    return a is b or Q.eq_branch(a, b)


class NodeView:
    def __init__(self, g):
        self.g = g

    def __call__(self, data=False, default=None):
        if data is False:
            return self.g._node.keys()
        if data is True:
            return self.g._node.items()
        nd = self.g._node
        nd._noread()
        r = SymSeq([Q.MapSeg(e, lambda kv: (kv[0], kv[1].get(data, default))) for e in nd.entries], 'view')
        return PairView(r)
    data = __call__

    def __vc_seq__(self):
        return self.g._node.keys()

    def __iter__(self):
        return iter(self.g._node)

    def __vc_len__(self):
        return self.g._node.__vc_len__()

    def __len__(self):
        return len(self.g._node)

    def __getitem__(self, n):
        return self.g._node[n]

    def __contains__(self, n):
        return self.g.has_node(n)

    def items(self):
        return self.g._node.items()

    def get(self, k, d=None):
        return self.g._node.get(k, d)


class PairView:
    """G.nodes(data='x'): iterates over pairs, indexable by node"""

    def __init__(self, s):
        self.s = s

    def __vc_seq__(self):
        return self.s

    def __getitem__(self, n):
        for e in self.s:
            if same(e[0], n):
                return e[1]
        raise KeyError(n)


class EdgeView:
    def __init__(self, g):
        self.g = g

    def __call__(self, data=False, default=None, **k):
        if data is False:
            return self
        es = self.g._edge_list()
        if data is True:
            return SymSeq([single((u, v, d)) for u, v, d in es], 'view')
        return SymSeq([single((u, v, d.get(data, default))) for u, v, d in es], 'view')
    data = __call__

    def __vc_seq__(self):
        return SymSeq([single((u, v)) for u, v, d in self.g._edge_list()], 'view')

    def __iter__(self):
        return iter(self.__vc_seq__())

    def __vc_len__(self):
        return self.g._edge.__vc_len__()

    def __len__(self):
        return len(self.g._edge)

    def __getitem__(self, e):
        k, d = self.g._ekey(e[0], e[1])
        if d is None:
            raise KeyError(e)
        return d

    def get(self, e, dflt=None):
        k, d = self.g._ekey(e[0], e[1])
        return dflt if d is None else d

    def __vc_contains__(self, e):
        if not isinstance(e, (tuple, SymSeq)) or len(e) != 2:
            return False
        return self.g._ekey(e[0], e[1])[1] is not None

    __contains__ = __vc_contains__

    def items(self):
        return SymSeq([single(((u, v), d)) for u, v, d in self.g._edge_list()], 'view')


class AdjView:
    def __init__(self, g):
        self.g = g

    def __getitem__(self, n):
        if not self.g.has_node(n):
            raise KeyError(n)
        d = VDict()
        d.stamp = ENG.owner()
        for e in self.g._edge.entries:
            if e.single:
                (u, v), a = e.cases[0][1]
                if same(u, n):
                    d.entries.append(single((v, a)))
                elif same(v, n):
                    d.entries.append(single((u, a)))
            else:
                d.entries.append(adj_family(e, n))
        return d

    def __contains__(self, n):
        return self.g.has_node(n)


def adj_family(e, n):
    """neighbours of n among a family of edges"""
    def f(kv):
        (u, v), a = kv
        return u, v, a
    cases = []
    for g, kv in e.cases:
        u, v, a = f(kv)
        eu, ev = bterm(Q.eq_value(u, n)), bterm(Q.eq_value(v, n))
        cu = z3.simplify(z3.And(g, eu))
        cv = z3.simplify(z3.And(g, z3.Not(eu), ev))
        if not z3.is_false(cu):
            cases.append((cu, (v, a)))
        if not z3.is_false(cv):
            cases.append((cv, (u, a)))
    s = AdjSeg(e, cases)
    return s


class AdjSeg(Seg):
    def __init__(self, base, cases):
        super().__init__(base.idx, base.dims, cases)
        self.cache = []


class NX(Proxy):
    def __init__(self):
        super().__init__(nx)

    def Graph(self, *a, **k):
        return SymGraph() if ENG.frames else nx.Graph(*a, **k)

    def get_node_attributes(self, g, name):
        if not isinstance(g, SymGraph):
            return nx.get_node_attributes(g, name)
        d = VDict()
        g._node._noread()
        for e in g._node.entries:
            if e.single:
                k, a = e.cases[0][1]
                v = a.get(name, Q.MISSING)
                if v is not Q.MISSING:
                    d.entries.append(single((k, v)))
            else:
                d.entries.append(Q.MapSeg(e, lambda kv: (kv[0], kv[1][name])))
        return d

    def get_edge_attributes(self, g, name):
        if not isinstance(g, SymGraph):
            return nx.get_edge_attributes(g, name)
        d = VDict()
        for u, v, a in g._edge_list():
            x = a.get(name, Q.MISSING)
            if x is not Q.MISSING:
                d.entries.append(single(((u, v), x)))
        return d

    def connected_components(self, g):
        if not isinstance(g, SymGraph):
            return nx.connected_components(g)
        nodes = g._order()
        es = g._edge_list()
        left = list(range(len(nodes)))
        pos = lambda x: next(i for i, n in enumerate(nodes) if n is x or same(n, x))
        links = [(pos(u), pos(v)) for u, v, _ in es]
        out = []
        while left:
            comp, todo = [], [left[0]]
            while todo:
                i = todo.pop()
                if i in comp:
                    continue
                comp.append(i)
                for a, b in links:
                    if a == i:
                        todo.append(b)
                    if b == i:
                        todo.append(a)
            left = [i for i in left if i not in comp]
            out.append(Q.make_set([nodes[i] for i in sorted(comp)]))
        return iter(out)

    def node_connected_component(self, g, n):
        for c in self.connected_components(g):
            if n in c:
                return c
        raise KeyError(n)

    def _dfs(self, g, source):
        nodes = g._order()
        es = g._edge_list()
        pos = lambda x: next(i for i, n in enumerate(nodes) if n is x or same(n, x))
        adj = {i: [] for i in range(len(nodes))}
        for u, v, _ in es:
            a, b = pos(u), pos(v)
            adj[a].append(b)
            if a != b:
                adj[b].append(a)
        return nodes, adj, pos(source)

    def dfs_edges(self, g, source=None, depth_limit=None):
        if not isinstance(g, SymGraph):
            return nx.dfs_edges(g, source, depth_limit)
        nodes, adj, s = self._dfs(g, source)
        out, seen = [], {s}

        def rec(i):
            for j in adj[i]:
                if j not in seen:
                    seen.add(j)
                    out.append((nodes[i], nodes[j]))
                    rec(j)
        rec(s)
        return iter(out)

    def bfs_edges(self, g, source, *a, **k):
        if not isinstance(g, SymGraph):
            return nx.bfs_edges(g, source, *a, **k)
        nodes, adj, s = self._dfs(g, source)
        out, seen, todo = [], {s}, [s]
        while todo:
            i = todo.pop(0)
            for j in adj[i]:
                if j not in seen:
                    seen.add(j)
                    out.append((nodes[i], nodes[j]))
                    todo.append(j)
        return iter(out)


# ---------------------------------------------------------------------------------------------
class Itertools(Proxy):
    def __init__(self):
        super().__init__(itertools)
        object.__setattr__(self, 'chain', ChainFn())

    def product(self, *its, repeat=1):
        its = list(its) * repeat
        its = [RT.b_list(i) if ENG.frames else list(i) for i in its]
        if any(is_symbolic_iter(i) for i in its):
            return Q.sym_product(*its)
        return itertools.product(*[RT.plain_iter(i) for i in its])

    def combinations(self, it, n):
        return itertools.combinations(list(RT.plain_iter(it)), n)

    def combinations_with_replacement(self, it, n):
        it = RT.b_list(it) if ENG.frames else list(it)
        if n == 2 and is_symbolic_iter(it):
            return Q.sym_pairs(it)
        return itertools.combinations_with_replacement(list(RT.plain_iter(it)), n)


class ChainFn:
    def __call__(self, *its):
        if any(is_symbolic_iter(i) for i in its):
            return Q.sym_chain(*its)
        return itertools.chain(*[RT.plain_iter(i) for i in its])

    def from_iterable(self, its):
        return Q.chain_from_iterable(its)


class Functools(Proxy):
    def __init__(self):
        super().__init__(functools)

    def lru_cache(self, maxsize=128, typed=False):
        if callable(maxsize):
            return nocache(maxsize)
        return nocache

    def cache(self, f):
        return nocache(f)

    def wraps(self, f, *a, **k):
        return functools.wraps(f, *a, **k)

    def cached_property(self, f):
        return property(f)

    def reduce(self, f, it, *init):
        if is_symbolic_iter(it):
            raise Unsupported('reduce over a symbolic sequence')
        return functools.reduce(f, RT.plain_iter(it), *init)


def nocache(f):
    if isinstance(f, types.FunctionType):
        f.cache_clear = lambda: None
    return f


class Tqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __vc_seq__(self):
        return seq_of(self.it)

    def __iter__(self):
        return RT.plain_iter(self.it)

    def set_description(self, *a, **k):
        pass

    def __len__(self):
        return len(self.it)

    def update(self, *a):
        pass

    def close(self):
        pass


class TqdmModule(types.ModuleType):
    tqdm = Tqdm


class WarningsModule(Proxy):
    def __init__(self):
        super().__init__(_warnings)

    def warn(self, msg, *a, **k):
        if ENG.frames and not ENG.owner():
            WARNED.append(msg)


WARNED = []


class MathModule(Proxy):
    def __init__(self):
        import math
        super().__init__(math)

    @property
    def pi(self):
        return core.pi()

    def sqrt(self, x):
        import math
        return sqrt(x) if RT.contains_sym(x) else math.sqrt(x)

    def exp(self, x):
        import math
        return s_exp(x) if RT.contains_sym(x) else math.exp(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        import math
        if not (RT.contains_sym(a) or RT.contains_sym(b)):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        a, b = lift(a), lift(b)
        m = s_abs(a) if bool(s_abs(a) >= s_abs(b)) else s_abs(b)
        t = m * rel_tol
        return s_abs(a - b) <= (t if bool(t >= abs_tol) else lift(abs_tol))

    def fabs(self, x):
        return s_abs(x)

    def floor(self, x):
        import math
        return SNum(RING.floor(lift(x).r), 'int') if RT.contains_sym(x) else math.floor(x)

    def ceil(self, x):
        import math
        return SNum(-RING.floor(-lift(x).r), 'int') if RT.contains_sym(x) else math.ceil(x)

    def isnan(self, x):
        import math
        return False if RT.contains_sym(x) else math.isnan(x)

    def isinf(self, x):
        import math
        return False if RT.contains_sym(x) else math.isinf(x)

    def hypot(self, *xs):
        t = 0
        for x in xs:
            t = t + x * x
        return sqrt(t)


class SpecialModule(Proxy):
    """Bessel functions and the Voigt profile: real-valued functions of their arguments"""

    def __init__(self):
        import scipy.special
        super().__init__(scipy.special)

    def jv(self, n, x):
        import scipy.special
        if not (RT.contains_sym(n) or RT.contains_sym(x)):
            return scipy.special.jv(n, x)
        return SNum(core.BESSEL(lift(n).r, lift(x).r), 'float')
    jn = jv

    def j0(self, x):
        return self.jv(0, x)

    def j1(self, x):
        return self.jv(1, x)

    def voigt_profile(self, x, s, g):
        import scipy.special
        if not any(RT.contains_sym(v) for v in (x, s, g)):
            return scipy.special.voigt_profile(x, s, g)
        return map1(lambda v: SNum(core.VOIGT(lift(v).r, lift(s).r, lift(g).r), 'float'), x)


class OperatorModule(Proxy):
    def __init__(self):
        import operator
        super().__init__(operator)

    def attrgetter(self, *n):
        import operator
        return operator.attrgetter(*n)

    def itemgetter(self, *n):
        if len(n) == 1:
            return lambda o: RT.getitem(o, n[0])
        return lambda o: tuple(RT.getitem(o, x) for x in n)


def ghost_open(*a, **k):
    raise Unsupported('file access')


def modules():
    import math, operator
    r = {'numpy': NP(), 'networkx': NX(), 'itertools': Itertools(), 'functools': Functools(), 'warnings': WarningsModule(),
         'math': MathModule(), 'operator': OperatorModule(), 'scipy.special': SpecialModule()}
    t = TqdmModule('tqdm')
    t.tqdm = Tqdm
    r['tqdm'] = t
    return r
