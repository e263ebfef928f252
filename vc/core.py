"""Path exploration, obligations and loop invariants of the verifier.

The real code of /repo, loaded through `vc.loader`, is executed by CPython on symbolic values (`vc.values`).
Branches on symbolic conditions fork the execution, which is repeated from the start for every feasible
combination of outcomes (depth first).  Loops whose conditions are symbolic are cut: what the loop modifies is
replaced by fresh symbols constrained by the loop's invariant, the body is executed once and has to re-establish
the invariant.  Invariants are selected out of candidate formulas (offered by the contracts of a check and by generic
templates) by removing candidates until all of the remaining ones are inductive (Houdini), so they never
refer to the names or the order of statements of the code.
"""
import sys, time, itertools, contextlib, weakref, traceback
from fractions import Fraction
import z3


class Unsupported(Exception):
    "The code uses something the verifier has no model of: the proof is undecided"


class PathEnd(BaseException):
    "The current path is complete (end of a loop body, infeasible, or obligation failed)"


class Restart(BaseException):
    "Exploration has to start over: a loop was found to need a cut, or to modify more than was known"


class Budget(Exception):
    pass


class Forall:
    """invariant candidate for all indices into sequences of length n: assumed at every index term in use, shown at the
    session's skolem index, about which nothing is assumed"""
    def __init__(self, n, fn): self.n, self.fn = n, fn


CUR = None  # the session in progress


def S():
    if CUR is None: raise Unsupported("symbolic value used outside of a session")
    return CUR


def frac(v):
    if isinstance(v, bool): return Fraction(int(v))
    if isinstance(v, int): return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): raise Unsupported(f"non-finite constant {v}")
        f = Fraction(repr(v))     # decimal literals denote the real number written, quotients of small integers the exact quotient
        g = f.limit_denominator(64)
        return g if abs(f - g) <= abs(g) * Fraction(1, 10 ** 15) else f
    return Fraction(v)


def real(v):
    f = frac(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


class Obligation:
    __slots__ = ('name', 'where', 'kind', 'ok', 'secs', 'detail', 'backend', 'n')

    def __init__(self, name, where, kind, ok, secs, detail='', backend='z3'):
        self.name, self.where, self.kind, self.ok, self.secs, self.detail, self.backend, self.n = name, where, kind, ok, secs, detail, backend, 1

    def asdict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class LoopState:
    "What is known about a loop across paths: whether it is cut, kinds of modified values, live candidates"

    def __init__(self, key):
        self.key, self.cut, self.alive, self.kinds, self.objs, self.dead, self.seqs = key, False, None, {}, {}, set(), set()


class Session:
    """Exploration of one harness function `run(session)`, which sets up symbolic inputs, calls the real code and
    states its postconditions with `check`."""

    def __init__(self, name, templates=(), timeout_ms=6000, max_paths=3000, budget_s=240, verbose=False):
        self.name, self.templates = name, list(templates)
        self.timeout_ms, self.max_paths, self.budget_s, self.verbose = timeout_ms, max_paths, budget_s, verbose
        self.obligations = {}       # (name, where) -> Obligation, of the final pass
        self.failures = []
        self.covers = {}
        self.functions = set()
        self.loops = {}
        self.queries, self.solver_s, self.paths, self.passes = 0, 0.0, 0, 0
        self.cvc5_log = None
        self.invariants = {}
        self.ghost_factory = None
        self.smt_dump = []
        self.sizes, self.ghost_seqs, self.skolem_j = {}, {}, None
        self.notes, self.changed, self.tier = set(), False, 'quick'

    # ---------------------------------------------------------------- solver
    def _check(self, *extra):
        t = time.time()
        self.solver.push()
        for e in extra: self.solver.add(e)
        r = self.solver.check()
        self.queries += 1
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.solver_s += time.time() - t
        if time.time() - self.t0 > self.budget_s: raise Budget(f"{self.name}: time budget of {self.budget_s} s exhausted")
        return r, model

    def valid(self, e):
        "Whether the path condition implies `e`: True, or (False, model or reason)"
        if isinstance(e, bool): return (e, None)
        self._flush()
        key = (self.node, e.get_id())
        if key in self.memo: return True, None      # shown before at this point of the same pass (facts only accumulate)
        g = z3.simplify(e)
        if z3.is_true(g): return True, None
        r, m = self._check(z3.Not(g))
        if r != z3.unsat and self.deferred: r, m = self._check(z3.Not(g), *(f for _, _, f in self.deferred.values()))
        if r == z3.unsat:
            self.memo[key] = e
            return True, None
        if r == z3.unknown: r, m = self._retry(z3.Not(g))
        if r == z3.unsat:
            self.memo[key] = e
            return True, None
        return False, m if r == z3.sat else 'unknown'

    retries = 12

    def _retry(self, e):
        "a query that was given up is asked again of fresh solvers, which start elsewhere"
        for seed in (1, 2, 3):
            if self.retries <= 0: break
            self.retries -= 1
            s = self._solver(3)
            s.set('random_seed', seed)
            for a in self.solver.assertions(): s.add(a)
            s.add(e)
            for _, _, f in (self.deferred or {}).values(): s.add(f)
            t = time.time()
            r = s.check()
            self.queries += 1
            self.solver_s += time.time() - t
            if r != z3.unknown: return r, s.model() if r == z3.sat else None
        return z3.unknown, None

    def _solver(self, factor=1):
        "limits count solver operations, not seconds: the outcome does not depend on the load of the machine (the time limit is a safety net)"
        s = z3.Solver()
        s.set('rlimit', int(factor * self.timeout_ms * 2500))
        s.set('timeout', int(factor * 10 * self.timeout_ms))
        return s

    def feasible(self, e):
        self._flush()
        r, _ = self._check(e)
        return r != z3.unsat

    def assume(self, e):
        if isinstance(e, bool):
            if not e: raise PathEnd()
            return
        self.pc.append(e)
        self.solver.add(e)

    def fact(self, e):
        "Instance of an axiom of the specification or of a trusted contract"
        if isinstance(e, bool): return
        k = e.get_id()
        if k in self.fact_ids: return
        self.fact_ids[k] = e
        self.solver.add(e)

    def later(self, fn):
        "Axiom instances computed just before the next query"
        self.pending.append(fn)

    def _flush(self):
        again = True
        while again:
            again = False
            while self.pending:
                p, self.pending = self.pending, []
                for fn in p: fn()
            for n, fn, done in list(self.foralls):
                for i in list(self.indices(n)):
                    if i.get_id() in done: continue
                    done.add(i.get_id())
                    if len(done) > 60: continue
                    self.fact(fn(i))
                    again = True

    def index(self, i, n):
        "registers an integer term as an index into sequences of length `n`: quantified facts are instantiated at it"
        self._indices(n).setdefault(i.get_id(), i)
        return i

    def _indices(self, n):
        n = z3.simplify(n)
        return self.index_terms.setdefault(n.get_id(), (n, {}))[1]

    def indices(self, n): return list(self._indices(n).values())

    @contextlib.contextmanager
    def local(self):
        "facts and index terms introduced inside are forgotten afterwards"
        self._flush()
        it, fa, fi = {k: (n, dict(l)) for k, (n, l) in self.index_terms.items()}, [(n, f, set(d)) for n, f, d in self.foralls], dict(self.fact_ids)
        tr = [(l, list(l)) for l in self.tracked]
        self.solver.push()
        node, pos, self.nlocal = self.node, self.pos, self.nlocal + 1
        self.node = self.trie.setdefault((node, 'local', self.nlocal), len(self.trie) + 1)
        try: yield
        finally:
            if self.pos != pos: raise Unsupported("branching within a local context")
            self.node = node
            self.solver.pop()
            self.index_terms, self.foralls, self.fact_ids, self.pending = it, fa, fi, []
            for l, old in tr: l[:] = old

    def forall(self, n, fn):
        "fact for all indices into sequences of length n: fn(i) gives its instance"
        self.foralls.append((z3.simplify(n), fn, set()))

    # ---------------------------------------------------------------- names
    def fresh(self, name, sort):
        n = self.counter[name] = self.counter.get(name, 0) + 1
        full = f"{name}!{n}"
        if not isinstance(sort, str): return z3.Const(full, sort)
        if sort == 'int': return z3.Int(full)
        if sort == 'bool': return z3.Bool(full)
        return z3.Real(full)

    # ---------------------------------------------------------------- branching
    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        if self.cond_loop is not None and not self.cond_loop.st.cut:
            st = self.cond_loop.st
            st.cut = True
            raise Restart(f"cut {st.key}")
        i = self.pos
        if i < len(self.trace):
            val, forced = self.trace[i][0], self.trace[i][1]
        else:
            t_ok = self.feasible(e)
            f_ok = self.feasible(z3.Not(e)) if t_ok else True
            if not t_ok and not self.feasible(z3.Not(e)): raise PathEnd()
            forced = not (t_ok and f_ok)
            if self.is_direct and not forced: raise Unsupported("branching on a symbolic condition in a harness without branching")
            val = t_ok
            self.trace.append([val, forced])
        self.pos += 1
        self.node = self.trie.setdefault((self.node, val), len(self.trie) + 1)
        self.assume(e if val else z3.Not(e))
        return val

    def choose(self, n, label=''):
        "Nondeterministic choice among n alternatives (all explored)"
        for k in range(n - 1):
            if self.branch(self.fresh('choice', 'bool')): return k
        return n - 1

    # ---------------------------------------------------------------- obligations
    def where(self, line=False):
        f, out = sys._getframe(1), None
        while f is not None:
            fn = f.f_code.co_filename
            if '/torchdyn/' in fn and 'site-packages' not in fn:
                q = fn.split('/torchdyn/', 1)[1] + ':' + getattr(f.f_code, 'co_qualname', f.f_code.co_name)
                return (q, f.f_lineno) if line else q
            f = f.f_back
        return 'contract'

    def record(self, name, where, kind, ok, secs, detail=''):
        key = (name, where)
        o = self.obligations.get(key)
        if o is None:
            self.obligations[key] = Obligation(name, where, kind, ok, secs, detail)
        else:
            o.n += 1
            o.secs += secs
            if not ok: o.ok, o.detail = False, detail
        return ok

    only = inputs = tracked_attrs = None
    deferred = None    # the defining equations of square roots, in sessions that give them to the solver on demand
    shallow = False    # no candidates for loop invariants: only what is modified matters

    def check(self, e, name, kind='post', where=None):
        "Obligation: `e` holds on this path"
        if self.only is not None and kind != self.only: return True     # decided by the check whose harness this is
        where = where or self.where()
        t = time.time()
        ok, m = self.valid(e)
        if self.dump and ok and not isinstance(e, bool):
            self.smt_dump.append((name, self._smt2(e)))
        detail = '' if ok else self._explain(e, m)
        self.record(name, where, kind, ok, time.time() - t, detail)
        if not ok and self.verbose: print('FAILED', name, where, detail[:1500])
        return ok

    dump = False

    def _smt2(self, e):
        s = z3.Solver()
        for a in self.solver.assertions(): s.add(a)
        s.add(z3.Not(e))
        return s.to_smt2()

    def fail(self, name, detail, kind='post', where=None):
        if self.only is not None and kind != self.only: return
        self.record(name, where or self.where(), kind, False, 0.0, detail)
        if self.verbose: print('FAILED', name, detail)

    def cover(self, name):
        "Reachability of this point on some path (vacuity guard)"
        self._flush()
        r, _ = self._check()
        if r != z3.unsat: self.covers[name] = True
        else: self.covers.setdefault(name, False)

    def _explain(self, e, m):
        if m is None or m == 'unknown': return 'solver: unknown'
        try:
            vals = ', '.join(f"{d.name()} = {m[d]}" for d in sorted(m.decls(), key=lambda d: d.name()) if d.arity() == 0)[:1500]
        except Exception as ex: vals = str(ex)
        return f"counter-model: {vals}; goal: {str(z3.simplify(e))[:600]}"

    # ---------------------------------------------------------------- exploration
    def explore(self, run, expect_covers=()):
        """Houdini passes until all candidates left are inductive; the obligations of the last pass count."""
        global CUR
        self.t0 = time.time()
        CUR = self
        try:
            for self.passes in range(1, 200):
                self.changed = False
                self.obligations, self.covers, self.smt_dump = {}, {n: False for n in expect_covers}, []
                self.trie, self.memo = {}, {}
                try:
                    self._pass(run)
                except Restart as r:
                    if self.verbose: print('restart:', r)
                    continue
                if not self.changed: break
            else:
                raise Unsupported("no fixed point of the invariants")
            for key, st in self.loops.items():
                if st.cut: self.invariants[str(key)] = sorted(st.alive or ())
            for n, reached in self.covers.items():
                if not reached:
                    raise Unsupported(f"vacuous: cover point {n!r} is unreachable")
        finally:
            CUR = None
        return self

    is_direct = False

    def direct(self, fn):
        "a harness without branching: obligations over concrete or algebraic terms, checked by its own means"
        global CUR
        self.t0 = time.time()
        CUR = self
        self.is_direct = True
        self.trace, self.pos, self.counter, self.pc, self.pending, self.fact_ids = [], 0, {}, [], [], {}
        self.node, self.nlocal, self.trie, self.memo = 0, 0, {}, {}
        self.solver = self._solver()
        self.cond_loop, self.loop_stack, self.nobj, self.calls, self.objs, self.occur = None, [], 0, {}, {}, {}
        self.index_terms, self.foralls, self.guards, self.tracked, self.expect_raise = {}, [], [], [], None
        try: fn(self)
        finally: CUR = None

    def _pass(self, run):
        pending = [[]]
        npaths = 0
        while pending:
            self.trace = [list(d) for d in pending.pop()]
            self.deferred = None
            base = len(self.trace)
            self.pos, self.counter, self.pc, self.pending, self.fact_ids = 0, {}, [], [], {}
            self.node, self.nlocal = 0, 0
            self.solver = self._solver()
            self.cond_loop, self.loop_stack, self.nobj, self.calls = None, [], 0, {}
            self.objs, self.occur, self.expect_raise = weakref.WeakValueDictionary(), {}, None
            self.index_terms, self.foralls, self.guards, self.tracked = {}, [], [], []
            npaths += 1
            self.paths += 1
            if npaths > self.max_paths: raise Budget(f"{self.name}: more than {self.max_paths} paths")
            try:
                run(self)
            except PathEnd:
                pass
            except (Unsupported, Budget, Restart):
                raise
            except Exception as ex:
                from .worker import real_error, loc
                if self.shallow and loc(ex): pass       # without loop invariants: most likely infeasible; decided by the check whose harness this is
                elif not real_error(ex): raise
                elif self.only is not None: pass
                elif self.expect_raise is not None and self.expect_raise(ex): (self.cover('refused'), self.record('invalid input is refused with an error', loc(ex).split(' < ')[0].rsplit(':', 1)[0], 'post', True, 0.0, str(ex)[:200]))
                else: self.fail("no exception on valid inputs", f"{type(ex).__name__}: {ex} at {loc(ex)}; path: " + '; '.join(str(c) for c in self.pc[-8:])[:1500], where=loc(ex).split(' < ')[0])
            for i in range(len(self.trace) - 1, base - 1, -1):
                val, forced = self.trace[i]
                if not forced: pending.append([list(d) for d in self.trace[:i]] + [[not val, False]])
            # alternatives of the prefix were queued when it was explored

    # ---------------------------------------------------------------- loops
    def loop_state(self, loopid):
        f, chain = sys._getframe(1), []
        while f is not None:
            fn = f.f_code.co_filename
            if '/torchdyn/' in fn and 'site-packages' not in fn: chain.append((f.f_code.co_name, f.f_lineno))
            f = f.f_back
        key = (loopid, tuple(chain[1:]))
        n = self.occur[key] = self.occur.get(key, -1) + 1
        key += (n,)
        st = self.loops.get(key)
        if st is None: st = self.loops[key] = LoopState(key)
        return st
