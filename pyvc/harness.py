"""What a property module sees: symbolic inputs, runs of the instrumented code, obligations."""
from __future__ import annotations
import gc
import sys
import time
import traceback

import z3

from . import core, seq as Q, runtime as RT, models, instr, solve, contracts
from .core import (ENG, SNum, SBool, SComplex, Sym, Unsupported, Infeasible, And, Or, Not, Implies, Iff, Int, Real, Bool, Half,
                   lift, mkbool, bterm, sqrt, to_real, rv, PARITY, W3, W6, W9, EXP, SQRT)
from .rope import Str, Char, SStr
from .seq import SymSeq, VDict, Seg, single
from .ring import RING
from .solve import Session

ENG.new_path = Q._new_path
gc.set_threshold(300000, 50, 50)
TOOL = 3
mon = sys.monitoring


class Prover(Session):
    def __init__(self, prop, timeout=8000, budget=600):
        super().__init__(prop, timeout)
        self.lib = instr.load()
        contracts.USED.clear()
        self.prop = prop
        contracts.ENABLED.clear()
        self.proved_here = set()
        self.t0 = time.time()
        self.budget = budget
        self.runs = {}
        self.shard = (0, 1)
        self.run_names = []
        self._count = 0
        self._trace()

    def _trace(self):
        try:
            mon.use_tool_id(TOOL, 'vc')
        except ValueError:
            pass

        def start(code, off):
            if code.co_filename.startswith(instr.REPO) and not code.co_name.startswith('_vc_') and code.co_name[0] != '<':
                self.functions.add(code.co_filename[len(instr.REPO) + 1:] + ':' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)
        mon.restart_events()

    def use(self, *paths):
        """use these function contracts at call sites from now on; where another property proves them, prove them here as well"""
        from props import proofs
        for p in paths:
            if p in contracts.ENABLED:
                continue
            contracts.ENABLED.add(p)
            f = proofs.PROOFS.get(p)
            if contracts.TABLE[p][1] != self.prop and f not in self.proved_here:
                self.proved_here.add(f)
                f(Relative(self, p))

    def run(self, name, fn, expect=None, budget=None, body=()):
        """body: contracts not used in this run, because it verifies these functions' bodies"""
        on = [p for p in body if p in contracts.ENABLED]
        contracts.ENABLED.difference_update(on)
        import copy
        before = {k: copy.deepcopy(o.__dict__) for k, o in self.obs.items()}
        used = dict(contracts.USED)
        try:
            r = self._run(name, fn, budget)
            bad = [k for k, o in self.obs.items() if o.status == 'refuted' and before.get(k, {}).get('status') != 'refuted']
            abstract = [p for p in contracts.ENABLED if p in contracts.ABSTRACT and contracts.USED.get(p, 0) > used.get(p, 0)]
            if bad and abstract:
                # the contract may be weaker than this obligation needs: decide it on the bodies
                for k in list(self.obs):
                    if k in before:
                        self.obs[k].__dict__.update(before[k])
                    else:
                        del self.obs[k]
                contracts.ENABLED.difference_update(abstract)
                on += abstract
                self._count -= 1
                r = self._run(name, fn, budget)
            return r
        finally:
            contracts.ENABLED.update(on)

    def _run(self, name, fn, budget=None):
        """explore fn over all paths.  Exceptions of the code under verification violate the obligation name/no-exception unless
        the harness caught them.  A construct outside the subset marks the obligation unsupported."""
        self._count += 1
        if (self._count - 1) % self.shard[1] != self.shard[0]:
            return []
        self.run_names.append(name)
        t0 = time.time()
        before = {k: (o.vcs) for k, o in self.obs.items()}
        o = self.ob(name)
        o.vcs += 1
        ENG.stamp.clear()
        ENG.facts.clear()
        ENG.frames.clear()
        ENG.inputs.clear()
        solve.DEADLINE[0] = time.time() + (budget or self.budget)
        if time.time() - self.t0 > self.budget * 3:
            o.status, o.detail = 'unknown', 'time budget'
            return
        try:
            res = ENG.explore(fn)
        except Unsupported as e:
            o.status = 'unsupported'
            o.detail = str(e) + where(e)
            self.mark(before, 'unsupported', str(e))
            res = []
        except RT.Deadline:
            o.status, o.detail = 'unknown', 'time budget exhausted'
            self.mark(before, 'unknown', 'time budget')
            res = []
        except RecursionError as e:
            o.status, o.detail = 'unsupported', 'recursion limit'
            res = []
        else:
            n = sum(r.kind == 'ret' for r in res)
            o.paths = len(res)
            o.backends.add('path')
            bad = [r for r in res if r.kind == 'exc']
            try:
                self.exceptions(bad, o)
            except RT.Deadline:
                if o.status == 'proved':
                    o.status, o.detail = 'unknown', 'time budget exhausted: exceptional paths not refuted'
            if n == 0 and o.status == 'proved':
                o.status, o.detail = 'unknown', 'vacuous: no path reaches the end of the harness'
            if o.status == 'unsupported':
                self.mark(before, 'unsupported', o.detail)
        o.time += time.time() - t0
        ENG.frames.clear()
        return res

    def exceptions(self, bad, o):
        for r in bad:
            # confirm that the path is feasible
            f = solve.feasible(r.pc, r.universals, full=True)
            if f is False:
                continue
            m = solve.model_of(r.pc, r.universals) if f else None
            if not self.own(r.value):
                o.status = 'unsupported'
                o.detail = f'tool error {type(r.value).__name__}: {r.value}' + where(r.value)
                continue
            if f is None:
                if o.status == 'proved':
                    o.status, o.detail = 'unknown', f'path raising {type(r.value).__name__} not refuted'
                continue
            o.status, o.model = 'refuted', solve.read_model(m)
            o.detail = f'{type(r.value).__name__}: {r.value}' + where(r.value)
            break

    def own(self, e):
        """was the exception raised by the code under verification (or by a model acting for a library)"""
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(instr.REPO) for f in tb):
            last = tb[-1].filename
            if isinstance(e, (AttributeError, NameError, z3.Z3Exception)) and '/pyvc/' in last:
                return False
            if isinstance(e, (TypeError, AssertionError, RecursionError)) and '/pyvc/' in last and not isinstance(e, KeyError):
                return isinstance(e, TypeError) and 'list indices' in str(e)
            return True
        return False

    def mark(self, before, status, why):
        for k, ob in self.obs.items():
            if ob.vcs != before.get(k, 0) and ob.status == 'proved':
                ob.status = status
                ob.detail = 'proved on the paths explored before: ' + why

    # -- helpers for harnesses -----------------------------------------------------------------
    def sum(self, seq, f):
        """ghost: what evaluating f does to the elements does not count as having happened"""
        def value(x):
            Q.GHOST[0] = False
            try:
                return f(x)
            finally:
                Q.GHOST[0] = True
        was, Q.GHOST[0] = Q.GHOST[0], True
        try:
            xs = Q.comp('gen', seq, lambda x: True, value)
        finally:
            Q.GHOST[0] = was
        return RT.b_sum(xs)

    def len(self, x):
        return RT.b_len(x)

    def list(self, x):
        return RT.b_list(x)

    def forall(self, name, seq, f):
        """obligation for an arbitrary element of a (symbolic) sequence"""
        x = Q.seq_of(seq).generic()[0]
        f(x)

    def generic(self, seq):
        return Q.seq_of(seq).generic()[0]

    def eq(self, name, a, b):
        if isinstance(a, SComplex) or isinstance(b, SComplex):
            a, b = SComplex.lift(a), SComplex.lift(b)
            x = self.check(name, a.re == b.re)
            return self.check(name, a.im == b.im) and x
        return self.check(name, Q.eq_value(a, b))

    def raises(self, name, exc, fn):
        """obligation: fn raises exc (on every path)"""
        try:
            fn()
        except exc as e:
            if isinstance(e, (AttributeError, NameError, z3.Z3Exception)) and not self.own(e):
                raise
            return self.check(name, True)
        return self.check(name, False)

    def fail(self, name, why=''):
        return self.check(name, False)


class Relative:
    """the obligations of a contract of another property: their names start with contract:"""

    def __init__(self, S, path):
        self.S, self.path = S, path

    def __getattr__(self, k):
        return getattr(self.S, k)

    def name(self, n):
        return f'contract:{self.path}/{n}'

    def use(self, *paths):
        self.S.use(*paths)

    def run(self, name, fn, **k):
        return self.S.run(self.name(name), fn, **k)

    def check(self, name, *a):
        return self.S.check(self.name(name), *a)

    def eq(self, name, *a):
        return self.S.eq(self.name(name), *a)

    def raises(self, name, *a):
        return self.S.raises(self.name(name), *a)


def where(e):
    tb = traceback.extract_tb(e.__traceback__)
    fs = [f for f in tb if f.filename.startswith(instr.REPO)]
    s = f' [at {fs[-1].filename[len(instr.REPO) + 1:]}:{fs[-1].lineno}]' if fs else ''
    if tb and '/pyvc/' in tb[-1].filename:
        s += f' ({tb[-1].filename.split("/")[-1]}:{tb[-1].lineno})'
    return s
