"""Mechanical source transformation applied to every module of /repo/atomtoolkit on import.

Nothing is rewritten by hand: the statements executed are those of the current source.  The transformation only routes
the operations that CPython does not let a proxy intercept (identity tests, `in`, f-strings, loops and comprehensions,
subscripts of builtin containers, builtin functions) through hooks of runtime.py.  On concrete values every hook does
what the plain operation does.
"""
from __future__ import annotations
import ast

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'sort', 'reverse', 'add', 'discard',
            'update', 'setdefault', 'difference_update', 'intersection_update', 'appendleft', 'popleft'}
STRMETHODS = {'join', 'format', 'index', 'find', 'rfind', 'count', 'replace', 'startswith', 'endswith', 'split', 'rsplit',
              'partition', 'rpartition', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'}
METHODS = MUTATORS | STRMETHODS


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def hook(attr, *args):
    return ast.Call(ast.Attribute(name('__vc__'), attr, ast.Load()), list(args), [])


def const(v):
    return ast.Constant(v)


def targets(t):
    """names bound by an assignment target"""
    out = []
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.append(n.id)
    return out


class Bound(ast.NodeVisitor):
    """names bound in a statement list (not descending into nested scopes)"""

    def __init__(self):
        self.names = []
        self.unsupported = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        for c in ast.walk(n):
            if isinstance(c, ast.NamedExpr):
                self.unsupported = True
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.names.append((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, n):
        for a in n.names:
            self.names.append(a.asname or a.name)

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.append(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.unsupported = True

    visit_Nonlocal = visit_Yield = visit_YieldFrom = visit_Await = visit_Global


def has_yield(stmts):
    class V(ast.NodeVisitor):
        found = False

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_GeneratorExp = visit_AsyncFunctionDef = visit_FunctionDef

        def visit_Yield(self, n):
            self.found = True
        visit_YieldFrom = visit_Yield
    v = V()
    for s in stmts:
        v.visit(s)
    return v.found


class Control(ast.NodeTransformer):
    """continue/break/return of a loop body that becomes a function"""

    def __init__(self):
        self.depth = 0
        self.ret = False

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def _loop(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For = _loop

    def visit_Continue(self, n):
        return ast.Return(None) if self.depth == 0 else n

    def visit_Break(self, n):
        return ast.Raise(hook('LoopBreak'), None) if self.depth == 0 else n

    def visit_Return(self, n):
        if getattr(n, '_vc_done', False):
            return n
        self.ret = True
        return ast.Raise(hook('LoopReturn', n.value or const(None)), None)


class T(ast.NodeTransformer):
    def __init__(self):
        self.fn = []            # stack of (kind, first arg name)
        self.n = 0

    def tmp(self, p):
        self.n += 1
        return f'_vc_{p}{self.n}'

    # -- scopes ---------------------------------------------------------------------------
    def visit_FunctionDef(self, n):
        first = n.args.posonlyargs[0].arg if n.args.posonlyargs else (n.args.args[0].arg if n.args.args else None)
        self.fn.append(('def', first))
        n.args = self.generic_visit_args(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.block(n.body)
        self.fn.pop()
        return n

    def generic_visit_args(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_Lambda(self, n):
        self.fn.append(('lambda', None))
        n.args = self.generic_visit_args(n.args)
        n.body = self.visit(n.body)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(('class', None))
        n.body = self.block(n.body)
        self.fn.pop()
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [ast.Attribute(name('__vc__'), 'cls', ast.Load())] + [self.visit(d) for d in n.decorator_list]
        return n

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def in_function(self):
        return bool(self.fn) and self.fn[-1][0] == 'def'

    # -- annotations are not evaluated in verified code ------------------------------------
    def visit_AnnAssign(self, n):
        n.value = self.visit(n.value) if n.value is not None else None
        n.target = self.visit(n.target)
        return n

    # -- expressions ----------------------------------------------------------------------
    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else const(None)
                parts.append(ast.Tuple([self.visit(v.value), const(v.conversion), spec], ast.Load()))
        return hook('fstr', *parts)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            op, a, b = n.ops[0], n.left, n.comparators[0]
            if isinstance(op, ast.In):
                return hook('in_', a, b)
            if isinstance(op, ast.NotIn):
                return ast.UnaryOp(ast.Not(), hook('in_', a, b))
            if isinstance(op, ast.Is):
                return hook('is_', a, b)
            if isinstance(op, ast.IsNot):
                return ast.UnaryOp(ast.Not(), hook('is_', a, b))
            if isinstance(op, ast.Eq):
                return hook('eq', a, b)
            if isinstance(op, ast.NotEq):
                return hook('ne', a, b)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return hook('strmod', n.left, n.right)
        if isinstance(n.op, ast.Add):
            return hook('add', n.left, n.right)
        if isinstance(n.op, ast.Pow):
            return hook('pow', n.left, n.right)
        return n

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load):
            n.value = self.visit(n.value)
            return hook('getitem', n.value, self.index(n.slice))
        self.generic_visit(n)
        return n

    def index(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return hook('slice', f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple) and any(isinstance(e, ast.Slice) for e in s.elts):
            return ast.Tuple([self.index(e) for e in s.elts], ast.Load())
        return self.visit(s)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args and not n.keywords:
            # inside a nested loop-body function zero-argument super() would not work
            first = next((f for k, f in reversed(self.fn) if k == 'def'), None)
            if first:
                return ast.Call(name('super'), [name('__class__'), name(first)], [])
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            return ast.Call(hook('method', n.func.value, const(n.func.attr)), n.args, n.keywords)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return hook('newlist', *n.elts)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        ks = [k if k is not None else ast.Attribute(name('__vc__'), 'UNPACK', ast.Load()) for k in n.keys]
        return hook('newdict', *[ast.Tuple([k, v], ast.Load()) for k, v in zip(ks, n.values)])

    def visit_Set(self, n):
        self.generic_visit(n)
        return hook('newset', *n.elts)

    # -- comprehensions -------------------------------------------------------------------
    def lam(self, target, body):
        """lambda taking one element and binding the target pattern"""
        if isinstance(target, ast.Name):
            a = ast.arguments(posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(a, body)
        if isinstance(target, (ast.Tuple, ast.List)):
            names, wraps = [], []
            for e in target.elts:
                if isinstance(e, ast.Name):
                    names.append(e.id)
                elif isinstance(e, (ast.Tuple, ast.List)):
                    t = self.tmp('u')
                    names.append(t)
                    wraps.append((t, e))
                else:
                    return None
            for t, e in reversed(wraps):
                inner = self.lam(e, body)
                if inner is None:
                    return None
                body = ast.Call(inner, [name(t)], [])
            a = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])
            f = ast.Lambda(a, body)
            t = self.tmp('e')
            a1 = ast.arguments(posonlyargs=[], args=[ast.arg(t)], kwonlyargs=[], kw_defaults=[], defaults=[])
            return ast.Lambda(a1, ast.Call(f, [ast.Starred(hook('unpack', name(t), const(len(names))), ast.Load())], []))
        return None

    def comp(self, n, kind, elt):
        import copy
        for c in ast.walk(n):
            if isinstance(c, (ast.NamedExpr, ast.Await, ast.Yield)):
                self.generic_visit(n)
                return n
        if any(g.is_async for g in n.generators):
            return n

        def rec(k):
            g = n.generators[k]
            it = self.visit(copy.deepcopy(g.iter))
            cond = const(True)
            if g.ifs:
                cs = [self.visit(copy.deepcopy(i)) for i in g.ifs]
                cond = cs[0] if len(cs) == 1 else ast.BoolOp(ast.And(), cs)
            last = k == len(n.generators) - 1
            body = elt() if last else rec(k + 1)
            a, b = self.lam(g.target, cond), self.lam(g.target, body)
            if a is None or b is None:
                return None
            if last:
                return hook('comp', const(kind if k == 0 else 'gen'), it, a, b)
            r = hook('chain', hook('comp', const('gen'), it, a, b))
            if k == 0 and kind != 'gen':
                return hook('collect', const(kind), r)
            return r
        self.fn.append(('comp', None))
        r = rec(0)
        self.fn.pop()
        if r is None:
            self.generic_visit(n)
            return n
        return r

    def visit_ListComp(self, n):
        import copy
        return self.comp(n, 'list', lambda: self.visit(copy.deepcopy(n.elt)))

    def visit_GeneratorExp(self, n):
        import copy
        return self.comp(n, 'gen', lambda: self.visit(copy.deepcopy(n.elt)))

    def visit_SetComp(self, n):
        import copy
        return self.comp(n, 'set', lambda: self.visit(copy.deepcopy(n.elt)))

    def visit_DictComp(self, n):
        import copy
        return self.comp(n, 'dict', lambda: ast.Tuple([self.visit(copy.deepcopy(n.key)), self.visit(copy.deepcopy(n.value))],
                                                      ast.Load()))

    # -- statements -----------------------------------------------------------------------
    def visit_Assign(self, n):
        n.value = self.visit(n.value)
        if len(n.targets) == 1:
            return self.assign1(n.targets[0], n.value)
        t = self.tmp('a')
        out = [ast.Assign([name(t, ast.Store())], n.value)]
        for x in n.targets:
            out.extend(self.assign1(x, name(t)))
        return out

    def assign1(self, target, value):
        if isinstance(target, ast.Subscript):
            return [ast.Expr(hook('setitem', self.visit(target.value), self.index(target.slice), value))]
        if isinstance(target, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in target.elts):
                self.generic_visit(target)
                return [ast.Assign([target], value)]
            out = []
            ts = [self.tmp('t') for _ in target.elts]
            out.append(ast.Assign([ast.Tuple([name(t, ast.Store()) for t in ts], ast.Store())],
                                  hook('unpack', value, const(len(ts)))))
            for t, e in zip(ts, target.elts):
                out.extend(self.assign1(e, name(t)))
            return out
        if isinstance(target, ast.Attribute):
            target.value = self.visit(target.value)
        return [ast.Assign([target], value)]

    OPS = {ast.Add: 'iadd', ast.Sub: 'isub', ast.Mult: 'imul', ast.Div: 'itruediv', ast.FloorDiv: 'ifloordiv',
           ast.Mod: 'imod', ast.Pow: 'ipow', ast.BitOr: 'ior', ast.BitAnd: 'iand', ast.BitXor: 'ixor'}

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript) and type(n.op) in self.OPS:
            return ast.Expr(hook('augitem', self.visit(n.target.value), self.index(n.target.slice),
                                 const(self.OPS[type(n.op)]), self.visit(n.value)))
        n.value = self.visit(n.value)
        if isinstance(n.target, ast.Attribute):
            n.target.value = self.visit(n.target.value)
        elif isinstance(n.op, ast.Add) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], hook('iadd', name(n.target.id), n.value))
        return n

    def visit_Delete(self, n):
        out = []
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(hook('delitem', self.visit(t.value), self.index(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    def visit_For(self, n):
        it = self.visit(n.iter)
        bound = Bound()
        for s in n.body:
            bound.visit(s)
        bound.visit(n.target)
        if not self.in_function() or bound.unsupported or has_yield(n.body):
            n.iter = hook('plain_iter', it)
            n.body = self.block(n.body)
            n.orelse = self.block(n.orelse)
            if not isinstance(n.target, ast.Name):
                self.generic_visit(n.target)
            return n
        names = []
        for x in bound.names:
            if x not in names:
                names.append(x)
        ctl = Control()
        body = self.block(n.body)
        x = self.tmp('x')
        pre = self.assign1(n.target, name(x))
        body = [ctl.visit(s) for s in body]
        bf, gf, pf, dd = self.tmp('body'), self.tmp('get'), self.tmp('put'), self.tmp('d')
        noargs = lambda *a: ast.arguments(posonlyargs=[], args=[ast.arg(z) for z in a], kwonlyargs=[], kw_defaults=[],
                                          defaults=[])
        nl = [ast.Nonlocal(list(names))] if names else []
        extra = [t.id for s in pre for t in ast.walk(s) if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)]
        bodyf = ast.FunctionDef(bf, noargs(x), nl + pre + body + [ast.Pass()], [])
        get = [ast.Assign([name(dd, ast.Store())], ast.Call(ast.Attribute(name('__vc__'), 'realdict', ast.Load()), [], []))]
        put = []
        for z in names:
            get.append(ast.Try([ast.Assign([ast.Subscript(name(dd), const(z), ast.Store())], name(z))],
                               [ast.ExceptHandler(ast.Attribute(name('__vc__'), 'NameError', ast.Load()), None, [ast.Pass()])], [], []))
            put.append(ast.If(ast.Call(ast.Attribute(name('__vc__'), 'isunbound', ast.Load()), [name(dd), const(z)], []),
                              [ast.Try([ast.Delete([name(z, ast.Del())])],
                                       [ast.ExceptHandler(ast.Attribute(name('__vc__'), 'NameError', ast.Load()), None, [ast.Pass()])], [], [])],
                              [ast.Assign([name(z, ast.Store())], ast.Subscript(name(dd), const(z), ast.Load()))]))
        getf = ast.FunctionDef(gf, noargs(), get + [ast.Return(name(dd))], [])
        putf = ast.FunctionDef(pf, noargs(dd), ([ast.Nonlocal(list(names))] if names else []) + (put or [ast.Pass()]), [])
        for r in ast.walk(getf):
            if isinstance(r, ast.Return):
                r._vc_done = True
        for r in ast.walk(bodyf):
            if isinstance(r, ast.Return):
                r._vc_done = True
        call = hook('forloop', it, name(bf), ast.Tuple([const(z) for z in names], ast.Load()), name(gf), name(pf))
        out = [bodyf, getf, putf]
        if names:
            # make the names local to the enclosing function
            out.append(ast.If(const(False), [ast.Assign([name(z, ast.Store())], const(None)) for z in names], []))
        res = self.tmp('res')
        main = [ast.Assign([name(res, ast.Store())], call)]
        orelse = self.block(n.orelse)
        tail = []
        if orelse:
            tail.append(ast.If(ast.UnaryOp(ast.Not(), ast.Call(ast.Attribute(name('__vc__'), 'broke', ast.Load()), [name(res)], [])),
                               orelse, []))
        if ctl.ret:
            e = self.tmp('r')
            ret = ast.Return(ast.Attribute(name(res), 'value', ast.Load()))
            tail.insert(0, ast.If(ast.Call(ast.Attribute(name('__vc__'), 'returned', ast.Load()), [name(res)], []), [ret], []))
        return out + main + tail


def transform(src, filename):
    tree = ast.parse(src, filename)
    t = T()
    tree.body = t.block(tree.body)
    ast.fix_missing_locations(tree)
    return tree
