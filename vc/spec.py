"""Specification vocabulary shared by the checks: symbolic grids, states, fields, solver steps and generic loop-invariant
candidates.  Candidates never mention names of the code: they are offered for every variable of the fitting kind."""
import sys
import z3
from . import core, values as V
from .core import S, real
from .values import T, Seq, SBool, SInt, VList, eint, struct

R, I = z3.RealSort(), z3.IntSort()


def state(name, dims=2, tag='input', **k):
    s = S()
    shape = []
    for i in range(dims):
        d = z3.Int(f"{name}.dim{i}")
        s.assume(d >= 1)
        shape.append(SInt(d))
    return T(z3.Real(name), tuple(shape), True, tag=tag, **k)


def frozen(d):
    "a caller's dictionary, remembered for the frame conditions"
    V.note_input(d, dict(d))
    return d


class Tracked:
    "stands for a caller's object; the attributes which the code reads and writes are remembered for the frame conditions"
    def __getattribute__(self, n):
        _track(self, n, False)
        return object.__getattribute__(self, n)
    def __setattr__(self, n, v):
        _track(self, n, True)
        object.__setattr__(self, n, v)


def _track(o, n, write):
    s = core.CUR
    if s is None or s.tracked_attrs is None or n.startswith('__') or '/torchdyn/' not in sys._getframe(2).f_code.co_filename: return
    reads, writes, mine = s.tracked_attrs
    if write:
        writes.add((type(o).__name__, n)); mine.add((id(o), n))
    elif (id(o), n) not in mine: reads.add((type(o).__name__, n))


_ORDERED = {}      # formulas already built, with their terms kept alive


class Grid:
    "a strictly increasing (or decreasing) grid of symbolic length n >= 2"
    def __init__(self, name='T', n=None, least=2, monotone=True, sign=1, tag='input'):
        s = S()
        self.name, self.f, self.n, self.sign = name, z3.Function(name, I, R), n if n is not None else z3.Int('n_' + name), sign
        s.assume(self.n >= least)
        self.used, self.ids = [], []
        s.tracked.append(self.used); s.tracked.append(self.ids)
        self.monotone = monotone
        self.seq = Seq(self.n, lambda i: [self.at(i)], T(real(0), ()), tag=tag)
        self.touch(z3.IntVal(0)); self.touch(z3.IntVal(1)); self.touch(self.n - 1)

    def touch(self, i):
        i = z3.simplify(i) if not isinstance(i, int) else z3.IntVal(i)
        if i.get_id() in self.ids: return i
        s = S()
        if self.monotone:
            def inst(i=i, old=list(self.used)):
                for j in old: s.fact(self.ordered(i, j))
            s.later(inst)
        self.used.append(i); self.ids.append(i.get_id())
        s.index(i, self.n)
        return i

    def ordered(self, a, b):
        key = (self.name, self.sign, self.n.get_id(), a.get_id(), b.get_id())
        if key not in _ORDERED:
            ok = z3.And(a >= 0, b >= 0, a < self.n, b < self.n)
            x, y = (self.f(a), self.f(b)) if self.sign > 0 else (self.f(b), self.f(a))
            _ORDERED[key] = z3.And(z3.Implies(z3.And(ok, a < b), x < y), z3.Implies(z3.And(ok, b < a), y < x), z3.Implies(a == b, x == y)), a, b, self.n
        return _ORDERED[key][0]

    def at(self, i):
        return self.f(self.touch(i))


def field(name='F'):
    "an arbitrary vector field: value at (t, x) as an uninterpreted function of both"
    return z3.Function(name, R, R, R)


def generic_templates(sess, lid, env, kappa):
    "candidates on integers relative to the sizes registered by the check, and on booleans"
    for n, v in env.items():
        if isinstance(v, (int, SInt)) and not isinstance(v, bool):
            e = eint(v)
            for sn, size in sess.sizes.items():
                for c in (-2, -1, 0, 1):
                    yield f"{n} <= {sn}{c:+d}", lambda: e <= size + c


def list_templates(sess, lid, env, kappa):
    "lists that grow by at most one element per iteration, at the iterations selected by an index map"
    for n, v in env.items():
        if type(v) is not VList: continue
        L = v.length()
        for c in (-1, 0, 1, 2):
            yield f"{n} length == k{c:+d}", lambda: L == kappa + c
        for sn, size in sess.sizes.items():
            yield f"{n} length <= {sn}", lambda: L <= size
        yield f"{n} length >= 1", lambda: L >= 1


def seq_equals(sess, lid, env, kappa):
    "skolemized statement that a list's j-th element is the j-th of a ghost sequence, sess.ghost_seqs: name -> fn(i)->[terms]"
    j = sess.skolem_j
    for n, v in env.items():
        if type(v) is not VList or v.template() is None: continue
        try: el = v.fn(j)
        except core.Unsupported: continue
        for gn, g in sess.ghost_seqs.items():
            ge = g(j)
            if len(ge) != len(el): continue
            yield f"{n}[j] == {gn}[j]", lambda: z3.Implies(z3.And(j >= 0, j < v.length()), z3.And(*[a == b for a, b in zip(el, ge)]))


def mod(name):
    "a module of the code under verification (functions may shadow modules in their packages)"
    import importlib
    return importlib.import_module(name)


class IndexMap:
    "strictly increasing map of [0, k) into [0, n)"
    def __init__(self, k, n, name='I'):
        self.f, self.k, self.n, self.used = z3.Function(name, I, I), k, n, []
        S().tracked.append(self.used)

    def at(self, j):
        j = z3.simplify(j) if not isinstance(j, int) else z3.IntVal(j)
        if not any(j.eq(o) for o in self.used):
            s, f = S(), self.f
            s.index(j, self.k)
            s.fact(z3.Implies(z3.And(j >= 0, j < self.k), z3.And(f(j) >= 0, f(j) < self.n)))
            for o in self.used:
                ok = z3.And(j >= 0, o >= 0, j < self.k, o < self.k)
                s.fact(z3.Implies(z3.And(ok, j < o), f(j) < f(o)))
                s.fact(z3.Implies(z3.And(ok, o < j), f(o) < f(j)))
            self.used.append(j)
        return self.f(j)


def selection_templates(im):
    "lists that hold the entries selected by an index map, up to the current iteration"
    def t(sess, lid, env, kappa):
        for n, v in env.items():
            if type(v) is not VList: continue
            L = v.length()
            lo, hi = im.at(z3.simplify(L - 1)), im.at(L)
            for c in (0, 1):
                yield f"{n} length: selected before k{c:+d}", lambda: z3.And(z3.Implies(L > 0, lo < kappa + c), z3.Implies(L < im.k, hi >= kappa + c))
    return t


import contextlib
@contextlib.contextmanager
def replaced(module, **stubs):
    "callees of a module replaced by their contracts (where the module still refers to them)"
    old = {n: module.__dict__[n] for n in stubs if n in module.__dict__}
    for n in old: setattr(module, n, stubs[n])
    try: yield
    finally:
        for n, v in old.items(): setattr(module, n, v)


@contextlib.contextmanager
def everywhere(home, **stubs):
    "functions defined in module `home` replaced by their contracts in every module which refers to them, under whatever name"
    import sys
    real = {id(home.__dict__[n]): n for n in stubs if n in home.__dict__}
    undo = []
    for m in [m for k, m in list(sys.modules.items()) if m is not None and k.split('.')[0] == 'torchdyn']:
        for a, v in list(m.__dict__.items()):
            if id(v) in real and v is home.__dict__.get(real[id(v)], v): undo.append((m, a, v))
    for m, a, v in undo: setattr(m, a, stubs[real[id(v)]])
    try: yield
    finally:
        for m, a, v in undo: setattr(m, a, v)
