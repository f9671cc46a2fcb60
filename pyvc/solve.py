"""Back ends: ring normaliser, z3, cvc5.  Obligation bookkeeping."""
from __future__ import annotations
import re
import subprocess
import time
import z3

from .ring import RING, TooBig
from . import core

FEAS_TIMEOUT = 1500
CVC5 = 'cvc5'


class Result:
    __slots__ = ('status', 'backend', 'time', 'model', 'reason')

    def __init__(self, status, backend, t, model=None, reason=''):
        self.status, self.backend, self.time, self.model, self.reason = status, backend, t, model, reason

    @property
    def proved(self):
        return self.status == 'proved'


OPAQUE = {'SUM', 'COUNT', 'COUNTI', 'ROUND', 'POW', 'FACT', 'BESSEL', 'VOIGT'}


# -- axioms for the uninterpreted functions that occur ---------------------------------------------
_ax_cache = {}


def subterms(ts):
    for n in core.nodes(ts):
        yield n.t


def has_bound(t):
    return core.node(t).bound


def tri(a, b, c):
    return z3.And(a + b >= c, b + c >= a, a + c >= b, a >= 0, b >= 0, c >= 0)


def axioms_for(app):
    k = app.get_id()
    r = _ax_cache.get(k)
    if r is not None:
        return r[1]
    n = app.decl().name()
    ch = app.children()
    out = []
    if n == 'SQRT':
        x = ch[0]
        out.append(z3.Implies(x >= 0, z3.And(app >= 0, app * app == x)))
        out.append(z3.Implies(x > 0, app > 0))
    elif n == 'EXP':
        out.append(app > 0)
        out.append((ch[0] == 0) == (app == 1))
        out.append((ch[0] < 0) == (app < 1))
    elif n == 'PI':
        out += [app > z3.Q(314159, 100000), app < z3.Q(31416, 10000)]
    elif n == 'PARITY':
        out.append(app == z3.If(ch[0] % 2 == 0, z3.RealVal(1), z3.RealVal(-1)))
    elif n == 'W3':
        j1, j2, j3, m1, m2, m3 = ch
        out.append(z3.Implies(app != 0, z3.And(tri(j1, j2, j3), m1 + m2 + m3 == 0, m1 <= j1, -m1 <= j1,
                                               m2 <= j2, -m2 <= j2, m3 <= j3, -m3 <= j3)))
    elif n == 'W6':
        a, b, c, d, e, f = ch
        out.append(z3.Implies(app != 0, z3.And(tri(a, b, c), tri(a, e, f), tri(d, b, f), tri(d, e, c))))
    elif n == 'W9':
        out.append(z3.Implies(app != 0, z3.And(*[tri(*x) for x in (ch[0:3], ch[3:6], ch[6:9], ch[0::3], ch[1::3], ch[2::3])])))
    elif n == 'COUNT':
        out.append(app >= 0)
    elif '!' in n:
        out += PERMS[n].facts(app)
    if n in ('W3', 'W6', 'PARITY'):
        try:
            c = RING.to_z3(RING.rf(app))
            if c.get_id() != app.get_id():
                out.append(app == c)
        except TooBig:
            pass
    _ax_cache[k] = (app, out)
    return out


PERMS = {}            # shared with seq.PERMS
UF_NAMES = {'PI', 'SQRT', 'EXP', 'PARITY', 'W3', 'W6', 'W9'}


_apps = {}


def uf_apps(t):
    """applications of axiomatised functions in t (without bound variables), as {id: (app, axioms)}, closed under the axioms' own"""
    r = _apps.get(t.get_id())
    if r is None:
        out = {}
        work = [t]
        for _ in range(3):
            new = []
            for n in core.nodes(work):
                if n.kids and n.app and (n.name in UF_NAMES or n.name in PERMS) and n.id not in out and not n.bound:
                    ax = axioms_for(n.t)
                    out[n.id] = (n.t, ax)
                    new += ax
            if not new:
                break
            work = new
        r = _apps[t.get_id()] = (t, out)
    return r[1]


def axioms(ts):
    out, done, perms = [], set(), {}
    for t in ts:
        for i, (app, ax) in uf_apps(t).items():
            if i not in done:
                done.add(i)
                out += ax
                if app.decl().name().startswith('PERM!'):
                    perms.setdefault(app.decl().name(), []).append(app)
    for n, apps in perms.items():
        out += PERMS[n].order(apps[:8])
    return out


# ---------------------------------------------------------------------------------------------
# facts about sums over families: SUM(n, f) = f(0) + .. + f(n-1)
_sumfact = {}


def entails(pc, universals, goal, timeout=700):
    s = z3.Solver()
    s.set('timeout', timeout)
    fs = list(pc) + [z3.Not(goal)]
    for c in fs + list(universals) + axioms(fs):
        s.add(c)
    return s.check() == z3.unsat


def sums_in(fs):
    out = {}
    for n in core.nodes(fs):
        if n.app and len(n.kids) == 2 and n.name == 'SUM' and not n.bound:
            out[n.id] = n.t
    return list(out.values())


def body_at(app, i):
    lam = app.arg(1)
    if z3.is_quantifier(lam) and lam.is_lambda():
        return z3.substitute_vars(lam.body(), i)
    return z3.Select(lam, i)


def sum_facts(pc, universals, fs, depth=0):
    """instances of: the empty sum is 0; a sum of terms that are not negative is not negative, at least as large as each of its
    terms, and positive only if one of them is; sums with equal terms are equal.  What the facts need is proved from pc and universals"""
    apps = sums_in(fs)
    if not apps or len(apps) > 12 or depth > 2:
        return []
    ctx = tuple(sorted({c.get_id() for c in pc})) + tuple(sorted({c.get_id() for c in universals}))
    ints = {}
    for t in subterms(fs):
        if z3.is_const(t) and z3.is_int(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            ints[t.get_id()] = t
    points = list(ints.values())
    out, bodies, pos = [], [], []
    for a in apps:
        n = a.arg(0)
        k = (a.get_id(),) + ctx
        if k not in _sumfact:
            i = z3.Int(f'at!{a.get_id()}')
            b = body_at(a, i)
            dom = [i >= 0, i < n]
            inner = sum_facts(list(pc) + dom, universals, [b], depth + 1)
            nn = entails(list(pc) + dom + inner, universals, b >= 0)
            _sumfact[k] = (a, list(pc), list(universals), i, b, inner, nn)
        i, b, inner, nn = _sumfact[k][3:]
        bodies.append((a, n, i, b, inner))
        out.append(z3.Implies(n <= 0, a == 0))
        if nn:
            w = z3.Int(f'wit!{a.get_id()}')
            pos.append((a, n))
            points.append(w)
            out.append(a >= 0)
            out.append(z3.Implies(a > 0, z3.And(w >= 0, w < n, body_at(a, w) > 0)))
    for a, n in pos:
        for x in points:
            out.append(z3.Implies(z3.And(x >= 0, x < n), a >= body_at(a, x)))
    for j, (a, n, i, b, inner) in enumerate(bodies):
        for a2, n2, i2, b2, inner2 in bodies[:j]:
            k = (a.get_id(), a2.get_id(), 'eq') + ctx
            if k not in _sumfact:
                dom = [i >= 0, i < n]
                same = (n.get_id() == n2.get_id() or entails(pc, universals, n == n2)) and \
                    entails(list(pc) + dom + inner, universals, b == body_at(a2, i))
                _sumfact[k] = (a, a2, list(pc), list(universals), same)
            if _sumfact[k][-1]:
                out.append(a == a2)
    for t in subterms(fs):
        if z3.is_app(t) and t.num_args() == 1 and t.decl().name() == 'COUNTI' and not has_bound(t):
            out.append(z3.ToReal(t) == t.arg(0))        # its argument is a sum of zeros and ones
    return out


# ---------------------------------------------------------------------------------------------
_feas = {}


DEADLINE = [0.0]


def tick():
    if DEADLINE[0] and time.time() > DEADLINE[0]:
        raise core.Deadline()


def model_of(pc, universals=()):
    s = z3.Solver()
    s.set('timeout', 4000)
    for c in list(pc) + list(universals) + axioms(pc):
        s.add(c)
    return s.model() if s.check() == z3.sat else None


_lin = {}


def linear(c):
    """no product or quotient of non-constants"""
    r = _lin.get(c.get_id())
    if r is not None:
        return r[1]
    v = True
    for n in core.nodes([c]):
        if n.quant:
            v = False
            break
        if not n.app:
            continue
        k = n.kind
        if k == z3.Z3_OP_MUL:
            if sum(0 if (x.value or is_const_expr(x.t)) else 1 for x in n.kids) > 1:
                v = False
                break
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM):
            if not is_const_expr(n.kids[1].t):
                v = False
                break
        elif k == z3.Z3_OP_POWER:
            v = False
            break
    _lin[c.get_id()] = (c, v)
    return v


def is_const_expr(x):
    return not any(n.const for n in core.nodes([x]))


_flat = {}


def flat(c):
    """c with its sums over symbolic ranges replaced by constants (identical sums by the same one): a consequence-preserving weakening"""
    r = _flat.get(c.get_id())
    if r is None:
        sub = []
        for n in core.nodes([c]):
            if n.app and n.kids and n.name in ('SUM', 'COUNT') and not n.bound:
                sub.append((n.t, z3.Const(f'sum!{n.id}', n.t.sort())))
        sub.sort(key=lambda p: -len(p[0].sexpr()))
        r = _flat[c.get_id()] = (c, z3.substitute(c, *sub) if sub else c, sub)
    return r[1]


def feasible(pc, universals=(), full=False):
    tick()
    if not full:
        pc = [flat(c) for c in pc]
    if full:
        s = z3.Solver()
        s.set('timeout', 5000)
        for c in list(pc) + list(universals) + axioms(pc):
            s.add(c)
        t = s.check()
        if t != z3.unsat:
            extra = sum_facts(pc, universals, pc)
            if extra:
                for c in extra + axioms(extra):
                    s.add(c)
                t = s.check()
        return False if t == z3.unsat else (True if t == z3.sat else None)
    key = tuple(sorted({c.get_id() for c in pc}))
    r = _feas.get(key)
    if r is not None:
        return r[0]
    if by_model(pc):
        _feas[key] = (True, list(pc))
        return True
    core.ENG.stats['checks'] += 1
    lin = [c for c in pc if linear(c)]
    if len(lin) < len(pc):
        key2 = tuple(sorted({c.get_id() for c in lin}))
        r = _feas.get(key2)
        if r is None:
            s = z3.Solver()
            s.set('timeout', FEAS_TIMEOUT)
            for c in lin + axioms(lin):
                s.add(c)
            t = s.check()
            r = _feas[key2] = (False if t == z3.unsat else (True if t == z3.sat else None), lin)
        if r[0] is False:
            _feas[key] = (False, list(pc))
            return False
    s = z3.SimpleSolver() if not pc else z3.Solver()
    s.set('timeout', FEAS_TIMEOUT)
    for c in pc:
        s.add(c)
    for a in axioms(pc):
        s.add(a)
    t = s.check()
    v = False if t == z3.unsat else (True if t == z3.sat else None)
    if v:
        _recent.append((s.model(), {}))
        del _recent[:-RECENT]
    _feas[key] = (v, list(pc))
    return v


RECENT = 30
_recent = []        # models of recent path conditions, with the formulas known to hold in them


def by_model(pc):
    """is one of the recent models a model of pc (with the axioms it needs)"""
    if not pc:
        return False
    ax = None
    for n in range(len(_recent) - 1, -1, -1):
        m, true = _recent[n]
        if not holds(m, true, reversed(pc)):
            continue
        if ax is None:
            ax = axioms(pc)
        if holds(m, true, ax):
            _recent.append(_recent.pop(n))
            return True
    return False


def holds(m, true, cs):
    for c in cs:
        k = c.get_id()
        r = true.get(k)
        if r is None:
            r = true[k] = (c, z3.is_true(m.eval(c, model_completion=True)))
        if not r[1]:
            return False
    return True


def pc_substitution(pc):
    """equalities  const == term  of the path condition, as a substitution"""
    sub = []
    seen = set()

    def rec(c):
        if z3.is_and(c):
            for x in c.children():
                rec(x)
            return
        if z3.is_eq(c) and z3.is_arith(c.children()[0]):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                    if z3.is_int(y):
                        break
                    x0 = x.children()[0]
                    # int const == real term: only when the term is integer valued
                    n, d = RING.rf(y)
                    if not RING.int_valued(n, d):
                        break
                    x, y = x0, RING.poly_to_z3(n, real=False)
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.get_id() not in seen:
                    if any(s.get_id() == x.get_id() for s in subterms([y])):
                        continue
                    if z3.is_int(x) != z3.is_int(y):
                        continue
                    seen.add(x.get_id())
                    sub.append((x, y))
                    return
    for c in pc:
        rec(c)
    return sub


_lindef = {}


def linear_definition(pc):
    k = tuple(c.get_id() for c in pc)
    r = _lindef.get(k)
    if r is None:
        r = _lindef[k] = (list(pc), linear_definition_(pc))
    return r[1]


def linear_definition_(pc):
    """linear integer/real equalities solved for one constant each (Gaussian elimination over ring atoms)"""
    subs = []

    def apply(t):
        for _ in range(3):
            for x, y in subs:
                t = z3.substitute(t, (x, y))
        return t

    def rec(c):
        if z3.is_and(c):
            for x in c.children():
                rec(x)
            return
        if not (z3.is_eq(c) and z3.is_arith(c.children()[0])):
            return
        a, b = c.children()
        try:
            n, d = RING.rf(apply(core.to_real(a) - core.to_real(b)))
        except TooBig:
            return
        for m, co in n.d.items():
            if len(m) == 1 and m[0][1] == 1:
                at = m[0][0]
                x = RING.terms[at]
                if not (z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
                    continue
                if sum(1 for mm in n.d for z, _ in mm if z == at) != 1:
                    continue
                rest = {mm: -v / co for mm, v in n.d.items() if mm != m}
                from .ring import Poly
                rp = Poly(rest)
                if z3.is_int(x):
                    if not RING.int_valued(rp, Poly.const(1)):
                        continue
                    y = RING.poly_to_z3(rp, real=False)
                else:
                    y = RING.poly_to_z3(rp)
                subs.append((x, y))
                return

    for c in pc:
        if eqs(c):
            rec(c)
    return subs, apply


_eqs = {}


def eqs(c):
    """an equality or a conjunction (that may contain one)"""
    r = _eqs.get(c.get_id())
    if r is None:
        r = _eqs[c.get_id()] = (c, z3.is_eq(c) or z3.is_and(c))
    return r[1]


_proved = {}


def prove(pc, goal, universals=(), timeout=8000, quick=False):
    """memoised on the identity of the formulas: the re-execution of a prefix of a path meets the same obligations again"""
    g = goal.t if isinstance(goal, core.SBool) else goal
    if isinstance(g, bool):
        return prove_(pc, goal, universals, timeout, quick)
    k = (g.get_id(), tuple(sorted({c.get_id() for c in pc})), tuple(sorted({c.get_id() for c in universals})))
    r = _proved.get(k)
    if r is not None:
        return r[0]
    r = prove_(pc, goal, universals, timeout, quick)
    if r.proved:
        _proved[k] = (Result('proved', r.backend, 0.0), g, list(pc), list(universals))
    return r


def prove_(pc, goal, universals=(), timeout=8000, quick=False):
    t0 = time.time()
    tick()
    if isinstance(goal, core.SBool):
        goal = goal.t
    if isinstance(goal, bool):
        if goal:
            return Result('proved', 'path', time.time() - t0)
        goal = z3.BoolVal(False)
    g = core.quick_simplify(goal)
    if z3.is_true(g):
        return Result('proved', 'ring', time.time() - t0)
    goal = g
    # conjunctions separately
    if z3.is_and(goal):
        worst = None
        be = set()
        for c in goal.children():
            r = prove(pc, c, universals, timeout, quick)
            if not r.proved:
                return r
            be.add(r.backend)
        return Result('proved', '+'.join(sorted(be)), time.time() - t0)
    # equalities: ring after eliminating the linear equalities of the path condition
    for attempt in (0, 1):
        if z3.is_eq(goal) and z3.is_arith(goal.children()[0]):
            a, b = goal.children()
            try:
                if attempt == 0:
                    ok = RING.equal(a, b)
                else:
                    subs, app = linear_definition(pc)
                    ok = bool(subs) and RING.equal(app(core.to_real(a)), app(core.to_real(b)))
                if ok:
                    return Result('proved', 'ring', time.time() - t0)
            except (TooBig, z3.Z3Exception):
                pass
    fpc, fgoal = [flat(c) for c in pc], flat(goal)
    if fgoal.get_id() != goal.get_id() or any(x.get_id() != y.get_id() for x, y in zip(fpc, pc)):
        r = prove_(fpc, fgoal, universals, timeout, quick)
        if r.proved:
            return r
    lin = [c for c in pc if linear(c)]
    if len(lin) < len(pc):
        r = z3_prove(lin, goal, (), min(timeout, 1500))
        if r.proved:
            return r
    r = z3_prove(pc, goal, universals, timeout)
    if not r.proved and not quick:
        extra = sum_facts(pc, universals, list(pc) + [goal])
        if extra:
            r4 = z3_prove(list(pc) + extra, goal, universals, timeout)
            if r4.proved:
                return r4
    if r.status == 'unknown' and not quick:
        r2 = z3_prove(pc, goal, universals, timeout, tactic='qfnra')
        if r2.status != 'unknown':
            return r2
        r3 = cvc5_prove(pc, goal, universals, timeout)
        if r3.status != 'unknown':
            return r3
    return r


def z3_prove(pc, goal, universals, timeout, tactic=None):
    t0 = time.time()
    if tactic == 'qfnra':
        if universals:
            return Result('unknown', 'z3', 0, reason='quantified')
        s = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'elim-uncnstr', 'smt').solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout))
    fs = list(pc) + [z3.Not(goal)]
    for c in fs:
        s.add(c)
    for u in universals:
        s.add(u)
    for a in axioms(fs):
        s.add(a)
    try:
        t = s.check()
    except z3.Z3Exception as e:
        return Result('unknown', 'z3', time.time() - t0, reason=str(e))
    if t == z3.unsat:
        return Result('proved', 'z3', time.time() - t0)
    if t == z3.sat:
        return Result('refuted', 'z3', time.time() - t0, s.model())
    return Result('unknown', 'z3', time.time() - t0, reason=s.reason_unknown())


def cvc5_prove(pc, goal, universals, timeout):
    t0 = time.time()
    s = z3.Solver()
    fs = list(pc) + [z3.Not(goal)]
    for c in fs:
        s.add(c)
    for u in universals:
        s.add(u)
    for a in axioms(fs):
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        out = subprocess.run([CVC5, '--lang=smt2', f'--tlimit={int(timeout)}', '-'], input=txt, capture_output=True,
                             text=True, timeout=timeout / 1000 + 5).stdout
    except (subprocess.TimeoutExpired, OSError) as e:
        return Result('unknown', 'cvc5', time.time() - t0, reason=str(e))
    first = out.strip().split('\n')[0] if out.strip() else ''
    if first == 'unsat':
        return Result('proved', 'cvc5', time.time() - t0)
    return Result('unknown', 'cvc5', time.time() - t0, reason=first or 'no answer')


# ---------------------------------------------------------------------------------------------
class Obligation:
    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.status = 'proved'
        self.backends = set()
        self.time = 0.0
        self.detail = ''
        self.model = None
        self.paths = 0
        self.kind = 'proved'


class Session:
    """obligations of one property"""

    def __init__(self, prop, timeout=8000):
        self.prop = prop
        self.obs = {}
        self.timeout = timeout
        self.current = None
        self.functions = set()
        self.trusted = set()
        self.notes = []

    def ob(self, name):
        o = self.obs.get(name)
        if o is None:
            o = self.obs[name] = Obligation(name)
        return o

    def check(self, name, goal, hyps=()):
        """verification condition: current path condition => goal"""
        o = self.ob(name)
        o.vcs += 1
        pc = core.ENG.pc() + [core.bterm(h) for h in hyps]
        r = prove(pc, core.bterm(goal), core.ENG.universals(), self.timeout)
        o.time += r.time
        o.backends.add(r.backend)
        if r.proved:
            return True
        if r.status == 'refuted' and any(z3.is_app(t) and t.decl().name() in OPAQUE for t in subterms(pc + [core.bterm(goal)])):
            # the counter-model interprets a function that has a meaning the back end does not know
            if o.status == 'proved':
                o.status, o.model = 'unknown', read_model(r.model)
                o.detail = f'not proved (counter-model with uninterpreted sums): {short(goal)}'
            return False
        if r.status == 'refuted':
            if o.status != 'refuted':
                o.status, o.model = 'refuted', read_model(r.model)
                o.detail = f'goal {short(goal)} fails' if not o.detail else o.detail
        elif o.status == 'proved':
            o.status = 'unknown'
            o.detail = f'{r.backend}: {r.reason}: {short(goal)}'
        return False


def short(g, n=300):
    s = str(core.bterm(g)).replace('\n', ' ')
    return re.sub(r'\s+', ' ', s)[:n]


def read_model(m):
    out = {}
    if m is None:
        return out
    for name, s in core.ENG.inputs.items():
        try:
            t = s.t if isinstance(s, (core.SNum, core.SBool)) else None
            if t is None:
                continue
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                out[name] = v.as_long()
            elif z3.is_rational_value(v):
                f = v.as_fraction()
                out[name] = float(f)
            elif z3.is_algebraic_value(v):
                out[name] = float(v.approx(12).as_fraction())
            elif z3.is_true(v) or z3.is_false(v):
                out[name] = z3.is_true(v)
            else:
                out[name] = str(v)
        except Exception:
            pass
    return out
