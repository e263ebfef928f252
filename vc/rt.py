"""Run-time support of the transformed code: loop cuts, comprehensions, lists, membership."""
import itertools, types
import torch, z3
from . import core, values as V, tfun
from .core import Unsupported, PathEnd, Restart, S, real
from .values import T, Seq, SBool, SInt, VList, SRange, Lazy, ISeq, UNDEF, struct, eint

contains = tfun.contains
for _n, _f in tfun.CALLS.items(): globals()['call_' + _n] = _f


def mklist(l):
    return VList(l) if core.CUR is not None else l


def listcomp(fn, it, cond=None):
    if core.CUR is None: return [fn(v) for v in it if cond is None or cond(v)]
    if V.is_sym_iter(it):
        if cond is not None: raise Unsupported("filtered comprehension over a symbolic sequence")
        return symmap(fn, it)
    return VList([fn(v) for v in it if cond is None or cond(v)])


def genexp(fn, it, cond=None):
    if core.CUR is None: return (fn(v) for v in it if cond is None or cond(v))
    if V.is_sym_iter(it):
        if cond is not None: raise Unsupported("filtered comprehension over a symbolic sequence")
        return symmap(fn, it)
    return [fn(v) for v in it if cond is None or cond(v)]


class _Pure:
    "marks the evaluation of an element function: no effects on anything that exists already"
    def __init__(self): self.birth = next(V._serial)
    def modified(self, o): raise Unsupported("side effect in a comprehension over a symbolic sequence")


def freeze(fn):
    "the function with the present values of the variables it captures (comprehensions are evaluated eagerly)"
    if fn.__closure__ is None: return fn
    vals = [c.cell_contents for c in fn.__closure__]
    marks = [(v, v.version()) for v in vals if type(v) in (VList, Seq)]
    g = types.FunctionType(fn.__code__, fn.__globals__, fn.__name__, fn.__defaults__, tuple(types.CellType(v) for v in vals))
    def call(*a):
        for v, m in marks:
            if v.version() is not m and v.version() != m: raise Unsupported("sequence modified after it was used in a comprehension")
        return g(*a)
    return call


def symmap(fn, it):
    "element function of a comprehension: evaluated once per index term used, memoized"
    n, memo, fn = V.sym_len(it), {}, freeze(fn)
    def at(i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        if i.get_id() not in memo:
            s = S()
            p = _Pure()
            s.loop_stack.append(p)
            s.guards.append(z3.And(i >= 0, i < n))
            try: memo[i.get_id()] = (i, fn(V.sym_at(it, i)))
            finally:
                s.guards.pop()
                if p in s.loop_stack: s.loop_stack.remove(p)
        return memo[i.get_id()][1]
    return Lazy(n, at)


class BaseLoop:
    def __init__(self, lid, locs, names, live):
        self.lid, self.names, self.live = lid, names, live
        self.sess = core.CUR
        self.iters, self.started = 0, False
        self.entry = locs
        self.st = None
        self.cutting = False

    # ---- kinds and values
    def _objects(self):
        return {k: self.sess.objs[k] for k in self.st.objs if k in self.sess.objs and self.sess.objs[k].serial < self.birth}

    def _env(self, locs):
        env = {n: locs.get(n, UNDEF) for n in self.live if n not in self.st.seqs}
        env = {n: v for n, v in env.items() if not (type(v) is VList and v.key in self.objs and self.objs[v.key] is v)}
        for k, o in self.objs.items(): env['list ' + str(k)] = o
        for n in sorted(self.st.seqs):
            if n in locs: env['tensor ' + n] = locs[n]
        return env

    def _learn(self, env):
        "records the kinds of values the loop's variables take; restarts when a new one shows up"
        new = False
        for n, v in env.items():
            if n.startswith('tensor '): continue
            if n.startswith('list '):
                t = v.template()
                if t is not None and n not in self.st.kinds: self.st.kinds[n] = {struct(t): t}; new = True
                continue
            ks = self.st.kinds.setdefault(n, {})
            k = struct(v)
            if k not in ks:
                if k[0] == 'obj' and ks and not any(q[0] == 'obj' for q in ks): raise Unsupported(f"variable of mixed kinds {n}")
                if k[0] == 'obj' and any(q[0] == 'obj' for q in ks): raise Unsupported(f"loop replaces an object ({n})")
                ks[k] = v
                new = True
            elif k == ('VList',) and ks[k].template() is None and v.template() is not None:
                ks[k] = v
                new = True
        for n, v in env.items():    # an empty list holds what the variable's lists hold elsewhere
            if type(v) is VList and v.sym is None and v.template() is None and not n.startswith('list '):
                ex = self.st.kinds[n].get(('VList',))
                if ex is not None and ex.template() is not None: v.elem_ = ex.template()
        return new

    def _candidates(self, env, kappa):
        out = {}
        self.sess.entry_env = self.entry0
        self.sess.read_env = {n: v for n, v in self.entry.items() if n not in self.names}   # variables the loop leaves alone
        for n, v in env.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                e0 = self.entry0.get(n)
                e = eint(v)
                if isinstance(e0, (int, SInt)) and not isinstance(e0, bool):
                    out[f'{n} == entry'] = e == eint(e0)
                    out[f'{n} == entry + k'] = e == eint(e0) + kappa
                    out[f'{n} == entry - k'] = e == eint(e0) - kappa
                    out[f'{n} >= entry'] = e >= eint(e0)
                out[f'{n} >= 0'] = e >= 0
            elif isinstance(v, (bool, SBool)):
                e0 = self.entry0.get(n)
                if isinstance(e0, bool): out[f'{n} is {e0}'] = V.ebool(v) == z3.BoolVal(e0)
        for t in (() if self.sess.shallow else self.sess.templates):
            for name, e in t(self.sess, self.lid, env, kappa):
                if name not in self.st.dead: out[name] = e() if callable(e) else e
        return {n: e for n, e in out.items() if n not in self.st.dead}

    def _establish(self, env, kappa, what):
        "checks all candidates in `env`, dropping those that do not hold"
        s = self.sess
        cands = self._candidates(env, kappa)
        import time
        t0 = time.time()
        todo = {n: e.fn(s.skolem_j) if isinstance(e, core.Forall) else e for n, e in cands.items()}
        while todo:
            ok, m = s.valid(z3.And(*todo.values())) if len(todo) > 1 else s.valid(list(todo.values())[0])
            if ok: break
            bad = []
            if m is not None and m != 'unknown':
                bad = [n for n, e in todo.items() if z3.is_false(m.eval(e, model_completion=True))]
            if not bad:
                bad = [n for n, e in todo.items() if not s.valid(e)[0]]
                if not bad: break
            for n in bad:
                if s.verbose > 1: print(f'  drop [{what}] {self.lid}: {n}')
                self.st.dead.add(n)
                todo.pop(n)
            s.changed = True
        s.record(f"loop invariant {what} ({self.lid.rsplit(':', 1)[-1]})", self.lid.split(':', 1)[-1].rsplit(':', 1)[0], 'invariant', True, time.time() - t0, f"{len(todo)} formulas")
        if what == 'preserved':
            for n in self.assumed - set(cands):
                if n not in self.st.dead and not self._vacuous(n, env): self._kill(n, 'not preserved: undefined')
        self.st.alive = set(todo) if self.st.alive is None else (self.st.alive & set(todo)) | (set(todo) if what == 'established' else set())
        return set(todo)

    def _vacuous(self, name, env):
        "a statement about a variable that holds None (or nothing) here is vacuously true"
        for n, v in env.items():
            if name.startswith(n + ' ') or name.startswith(n + '['): return v is None or v is UNDEF
        return False

    def _kill(self, n, why):
        if self.sess.verbose > 1: print(f'  drop [{why}] {self.lid}: {n}')
        self.st.dead.add(n)
        self.sess.changed = True

    def _modified_obj(self, o):
        if type(o) is Seq:      # a tensor written in place: known by the one variable that holds it
            names = [n for n, v in self.entry.items() if v is o]
            if len(names) != 1: raise Unsupported("loop modifies a tensor with several names")
            n = names[0]
            if n in self.names: raise Unsupported("loop modifies and replaces a tensor")
            if n in self.st.seqs: return
            self.st.seqs.add(n)
            raise Restart(f"{self.lid} modifies tensor {n}")
        if not isinstance(o, VList): raise Unsupported("loop modifies an object created before it")
        if o.key is None: raise Unsupported("loop modifies an unnamed list")
        if o.key not in self.st.objs:
            self.st.objs[o.key] = True
            raise Restart(f"{self.lid} modifies list {o.key}")

    def modified(self, o): self._modified_obj(o)

    def _cut(self):
        s = self.sess
        self.cutting = True
        self.birth = next(V._serial)
        self.objs = self._objects()
        self.kappa = z3.IntVal(0)
        env = self._env(self.entry)
        self.entry0 = dict(env)
        if self._learn(env): s.changed = True
        for k, o in self.objs.items():
            t = self.st.kinds.get('list ' + str(k))
            if t is not None and o.elem_ is None: o.elem_ = list(t.values())[0]
        est = self._establish(env, self.kappa, 'established')
        self.kappa = s.fresh('k', 'int')
        s.assume(self.kappa >= 0)
        self.new = {}
        for n in self.live:
            v = self.entry.get(n, UNDEF)
            if n not in env:     # a list modified in place
                self.new[n] = v
                continue
            ks = list(self.st.kinds[n].items())
            i = s.choose(len(ks)) if len(ks) > 1 else 0
            self.new[n] = self._fresh(n, ks[i][0], ks[i][1], v)
        self._first_iteration()
        for n in sorted(self.st.seqs):
            o = self.entry.get(n)
            if type(o) is Seq:
                arrs = [s.fresh(n, z3.ArraySort(z3.IntSort(), e.sort())) for e in V.leaves(o.elem)]
                o.fn = lambda i, arrs=arrs: [z3.Select(a, i) for a in arrs]
        for k, o in self.objs.items():
            t = self.st.kinds.get('list ' + str(k))
            if t is None: o.make_unknown(self._learner(k)); continue
            o.make_symbolic(list(t.values())[0], 'list')
        # symbols must not be distinguishable from values before the loop: everything created from here on is the loop's
        self.birth = next(V._serial)
        henv = self._env({**self.entry, **self.new})
        self.assumed = set()
        for name, e in self._candidates(henv, self.kappa).items():
            if name not in est and not self._vacuous(name, env):
                self._kill(name, 'not established')
                continue
            self.assumed.add(name)
            if isinstance(e, core.Forall): s.forall(e.n, e.fn)
            else: s.assume(e)
        s.loop_stack.append(self)

    def _first_iteration(self):
        "the loop's first iteration starts from the values the variables have at entry (a fact, not an invariant to be proved)"
        s, facts = self.sess, []
        for n, v in self.new.items():
            e0 = self.entry.get(n, UNDEF)
            if v is e0: continue
            k, k0 = struct(v), struct(e0)
            if k != k0:
                if 'VList' not in (k[0], k0[0]): s.assume(self.kappa > 0)
                continue
            if k[0] == 'int': facts.append(eint(v) == eint(e0))
            elif k[0] == 'bool': facts.append(V.ebool(v) == V.ebool(e0))
            elif k[0] in ('T', 'dict', 'tuple', 'Arr'): facts += [a == b for a, b in zip(V.leaves(v), V.leaves(e0)) if a.sort() == b.sort()]
        if facts: s.assume(z3.Implies(self.kappa == 0, z3.And(*facts)))

    def _learner(self, k):
        def learn(v):
            self.st.kinds['list ' + str(k)] = {struct(v): v}
            raise Restart(f"kind of the elements of {k}")
        return learn

    def _fresh(self, n, k, ex, entry):
        s = self.sess
        if k[0] == 'none': return None
        if k[0] == 'undef': return UNDEF
        if k[0] == 'bool': return SBool(s.fresh(n, 'bool'))
        if k[0] == 'int': return SInt(s.fresh(n, 'int'))
        if k[0] == 'T':
            ex = T.lift(ex)
            r = T(s.fresh(n, 'real'), ex.shape_, ex.vec, ex.ew, ex.dom, ex.isint)
            if type(entry) is T and (entry.tag == 'input' or entry.alias): r.alias = 'input' if (entry.tag == 'input' or entry.alias == 'input') else 'shared'
            return r
        if k[0] == 'Arr': return V.rebuild(ex, [s.fresh(n, 'real') for _ in V.leaves(ex)])
        if k[0] in ('dict', 'tuple', 'list') :
            es = V.leaves(ex if k[0] != 'list' else tuple(ex))
            r = V.rebuild(ex if k[0] != 'list' else tuple(ex), [s.fresh(n, 'real') for _ in es])
            return VList(r) if k[0] == 'list' else r
        if k[0] == 'Seq':
            es = V.leaves(ex.elem)
            arrs = [s.fresh(n, z3.ArraySort(z3.IntSort(), e.sort())) for e in es]
            return Seq(ex.n, (lambda i: [z3.Select(a, i) for a in arrs]), ex.elem)
        if k[0] == 'VList':
            if ex.template() is None: raise Unsupported("list of unknown elements")
            r = VList()
            r.make_symbolic(ex.template(), n)
            return r
        if k[0] == 'clist': return VList([SBool(s.fresh(f'{n}_{i}', 'bool')) for i in range(k[1])])
        if k[0] == 'inst':
            r = object.__new__(type(ex))
            e0 = vars(entry) if type(entry) is type(ex) else {}
            for (a, ka), u in zip(k[2:], vars(ex).values()): r.__dict__[a] = self._fresh(f'{n}_{a}', ka, u, e0.get(a))
            return r
        if k[0] == 'obj': return ex
        raise Unsupported(f"loop variable {n} of kind {k}")

    def havoc(self):
        if self.sess is None or self.sess is not core.CUR: return tuple(self.entry.get(n, UNDEF) for n in self.names)
        self._start()
        if not self.cutting: return tuple(self.entry.get(n, UNDEF) for n in self.names)
        return tuple(self.new[n] if n in self.new else (UNDEF if n in self.names else self.entry.get(n, UNDEF)) for n in self.names)

    def _start(self):
        if self.started or core.CUR is None: return
        self.started = True
        self.st = self.sess.loop_state(self.lid)
        self.birth = next(V._serial)
        if self.force_cut(): self.st.cut = True
        if self.st.cut: self._cut()

    def force_cut(self): return False

    def head(self, locs):
        if core.CUR is None: return True
        self._start()
        self.iters += 1
        if self.cutting and self.iters == 2:
            env = self._env(locs)
            for n in list(env):
                if n in self.new and self.new[n] is env[n] and struct(env[n])[0] == 'VList': pass
            if self._learn(env): self.sess.changed = True
            self._establish(env, z3.simplify(self.kappa + 1), 'preserved')
            raise PathEnd()
        if self.iters > 5000: raise Unsupported("loop does not end")
        return True

    def exit(self):
        if core.CUR is not None and self.cutting and self in self.sess.loop_stack:
            i = self.sess.loop_stack.index(self)
            del self.sess.loop_stack[i:]


class WhileLoop(BaseLoop):
    def begin(self):
        if core.CUR is not None:
            self.prev = self.sess.cond_loop
            self.sess.cond_loop = self if not self.cutting else None
        return True

    def end(self, c):
        if core.CUR is None: return bool(c)
        r = bool(c)
        self.sess.cond_loop = self.prev
        if not r: self.exit()
        return r


class ForLoop(BaseLoop):
    def __init__(self, lid, locs, names, live, it):
        super().__init__(lid, locs, names, live)
        self.symbolic = core.CUR is not None and V.is_sym_iter(it)
        self.src, self.it = it, None if self.symbolic else iter(it)

    def force_cut(self): return self.symbolic

    def next(self):
        if not self.symbolic:
            try: self.value = next(self.it)
            except StopIteration: return False
            return True
        s = self.sess
        n = V.sym_len(self.src)
        s.assume(self.kappa <= n)
        if s.branch(self.kappa < n):
            s.index(self.kappa, n)
            self.value = V.sym_at(self.src, self.kappa)
            return True
        self.exit()
        return False


def whileloop(lid, locs, names, live): return WhileLoop(lid, locs, names, live)
def forloop(lid, locs, names, live, it): return ForLoop(lid, locs, names, live, it)
