"""Contracts of the torch functions and Python builtins that the code calls on symbolic values (trusted)."""
import builtins, operator
import torch, z3
from . import core, values as V
from .core import Unsupported, S, real
from .values import T, Seq, BSeq, SBool, SInt, VList, SRange, Lazy, ISeq, eint

SYM = (T, Seq, SBool, SInt, BSeq, ISeq, SRange, Lazy)
EXTRA_SYM = []   # other symbolic classes register here


def is_sym(v):
    t = type(v)
    if t in SYM or t in EXTRA_SYM: return True
    if t is VList: return v.sym is not None or any(is_sym(u) for u in list.__iter__(v))
    if t in (list, tuple): return any(is_sym(u) for u in v)
    if t is dict: return any(is_sym(u) for u in v.values())
    return False


TABLE = {}


def torchfn(*names):
    def deco(f):
        for n in names: TABLE[n] = f
        return f
    return deco


def dispatch(func, args, kwargs):
    name = getattr(func, '__name__', str(func))
    for a in list(args) + list(kwargs.values()):
        for b in (a if type(a) in (list, tuple, VList) and not (type(a) is VList and a.sym is not None) else [a]):
            h = getattr(type(b), '__vc_dispatch__', None)
            if h is not None: return h(name, func, args, kwargs)
    f = TABLE.get(name)
    if f is None:
        m = name.strip('_') if name.startswith('__') else name
        if m in ('get', 'set'): raise Unsupported(f"torch attribute {func}")
        if args and type(args[0]) in (T, Seq) and hasattr(type(args[0]), name): return getattr(args[0], name)(*args[1:], **kwargs)
        if args and not type(args[0]) in (T, Seq):  # reflected operator: concrete tensor op symbolic
            r = {'add': '__radd__', 'mul': '__rmul__', 'sub': '__rsub__', 'div': '__rtruediv__', 'true_divide': '__rtruediv__', 'pow': '__rpow__',
                 '__add__': '__radd__', '__mul__': '__rmul__', '__sub__': '__rsub__', '__truediv__': '__rtruediv__', '__pow__': '__rpow__',
                 'rsub': '__sub__', '__rsub__': '__sub__', '__rpow__': '__pow__', 'lt': '__gt__', 'gt': '__lt__', 'le': '__ge__', 'ge': '__le__', 'eq': '__eq__', 'ne': '__ne__',
                 '__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__', '__eq__': '__eq__', '__ne__': '__ne__',
                 '__iadd__': '__radd__'}.get(name)
            if r and len(args) > 1: return getattr(args[1], r)(args[0])
        raise Unsupported(f"torch function {name}")
    return f(*args, **kwargs)


class TorchProxy:
    "stands for the module `torch` in the transformed code"
    def __init__(self, mod, overrides=None): object.__setattr__(self, '_mod', mod)
    def __getattr__(self, n):
        v = getattr(self._mod, n)
        if n in SUBMODULES: return TorchProxy(v)
        if n in FACTORY or n in TABLE or n in FRESH:
            return _wrap(n, v)
        return v


FRESH = {'zeros', 'ones', 'eye', 'empty', 'full', 'tensor', 'as_tensor'}   # made from numbers, written into by the code
FRESH_AS = [None, None]
SUBMODULES = {'autograd', 'functional', 'linalg'}
FACTORY = {}


def _wrap(n, v):
    def call(*a, **k):
        if core.CUR is None: return v(*a, **k)
        if is_sym(a) or is_sym(k):
            if FRESH_AS[0] is not None and n in ('tensor', 'as_tensor'): return FRESH_AS[1](*a, **k)
            f = FACTORY.get(n) or TABLE.get(n)
            if f is not None:
                for b in list(a) + list(k.values()):
                    for c in (list.__iter__(b) if type(b) in (list, VList) else b if type(b) is tuple else [b]):
                        h = getattr(type(c), '__vc_dispatch__', None)
                        if h is not None: return h(n, v, a, k)
                return f(*a, **k)
        r = v(*a, **k)
        return FRESH_AS[0](r) if FRESH_AS[0] is not None and n in FRESH and isinstance(r, torch.Tensor) else r
    call.__name__ = n
    return call


def factory(*names):
    def deco(f):
        for n in names: FACTORY[n] = f
        return f
    return deco


@torchfn('cat', 'concat', 'concatenate')
def cat(ts, dim=0, **k):
    if type(ts) is VList and ts.sym is not None:
        e = ts.elem_
        if not isinstance(e, T) or e.vec or e.shape_ != (1,): raise Unsupported("cat of a symbolic list")
        return Seq(ts.sym[0], ts.sym[1], T(e.e, ()))
    ts = list(ts)
    if all(isinstance(t, T) and not t.vec and t.shape_ == (1,) for t in map(T.lift, ts)):
        l = VList([T.lift(t) for t in ts])
        n, fn = l.to_sym()
        return Seq(n, fn, T(real(0), ()))
    if len(ts) == 1: return ts[0]
    raise Unsupported("cat")


@torchfn('stack')
def stack(ts, dim=0, **k):
    if dim != 0: raise Unsupported("stack along another dimension")
    if type(ts) is not VList: ts = VList(ts)
    if len_(ts) == 0 if ts.sym is None else False: raise V.VRuntimeError("stack expects a non-empty TensorList")
    if ts.sym is not None and not S().branch(ts.sym[0] > 0): raise V.VRuntimeError("stack expects a non-empty TensorList")
    tpl = ts.template()
    return Seq(ts.length(), (ts.sym or ts.to_sym())[1], tpl)


def len_(v): return V.length(v)


@torchfn('max')
def tmax(a, b=None, *r, **k):
    a = T.lift(a)
    return a.max() if b is None else a.maximum(b)


@torchfn('min')
def tmin(a, b=None, *r, **k):
    a = T.lift(a)
    return a.min() if b is None else a.minimum(b)


@torchfn('maximum', 'fmax')
def maximum(a, b): return T.lift(a).maximum(b)


@torchfn('minimum', 'fmin')
def minimum(a, b): return T.lift(a).minimum(b)


@torchfn('abs', 'absolute')
def tabs(a): return a.abs()


@torchfn('clamp')
def clamp(a, min=None, max=None): return a.clamp(min, max)


@torchfn('sqrt')
def sqrt(a): return a.sqrt()


@torchfn('mean')
def mean(a, *r, **k): return a.mean(*r, **k)


@torchfn('sum')
def tsum(a, *r, **k): return a.sum(*r, **k)


@torchfn('norm')
def tnorm(a, p=2, *r, **k): return a.norm(p, *r, **k)


@torchfn('pow')
def tpow(a, b): return a ** b if is_sym(a) else b.__rpow__(a)


@torchfn('ones_like')
def ones_like(a, *r, **k): return _full(a, 1)


@torchfn('zeros_like')
def zeros_like(a, *r, **k): return _full(a, 0)


def _full(a, v):
    if isinstance(a, Seq): return Seq(a.n, (lambda i: [real(v)] * len(V.leaves(a.elem))), a.elem)
    return T(real(v), a.shape_, a.vec, False, a.dom)


@torchfn('full_like')
def full_like(a, v, *r, **k): return T(T.lift(v).e, a.shape_, a.vec, False, a.dom)


@torchfn('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def f(x, y):
        d, m = x - y, T.lift(y).abs()
        return d.abs() <= m * rtol + atol
    if isinstance(a, Seq) or isinstance(b, Seq):
        if not isinstance(a, Seq): a, b, f0 = b, a, f; f = lambda x, y: f0(y, x)
        return BSeq(a, b, f)
    return f(T.lift(a), T.lift(b))


@torchfn('isfinite')
def isfinite(a): return SBool(True)


@torchfn('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8, **k): return isclose(a, b, rtol, atol).all()


@torchfn('where')
def where(c, a, b):
    a, b = T.lift(a), T.lift(b)
    return a.like(z3.If(V.ebool(c), a.e, b.e), b, ew=a.vec or b.vec)


@torchfn('lt', 'less')
def lt(a, b): return a < b
@torchfn('le', 'less_equal')
def le(a, b): return a <= b
@torchfn('gt', 'greater')
def gt(a, b): return a > b
@torchfn('ge', 'greater_equal')
def ge(a, b): return a >= b
@torchfn('eq')
def eq(a, b): return a == b
@torchfn('add')
def add(a, b, alpha=1): return a + (b if alpha == 1 else b * alpha)
@torchfn('sub', 'subtract')
def sub(a, b, alpha=1): return a - (b if alpha == 1 else b * alpha)
@torchfn('mul', 'multiply')
def mul(a, b): return a * b if is_sym(a) else b * a
@torchfn('div', 'true_divide', 'divide')
def div(a, b): return T.lift(a) / b
@torchfn('neg', 'negative')
def neg(a): return -a
@torchfn('reciprocal')
def reciprocal(a): return a.reciprocal()
@torchfn('square')
def square(a): return a.square()
@torchfn('flip')
def flip(a, *d, **k): return a.flip(*d)
@torchfn('argmin')
def argmin(a, *d, **k): return a.argmin()
@torchfn('flatten')
def flatten(a, *d, **k): return a.flatten()
@torchfn('reshape')
def reshape(a, s): return a.reshape(s)
@torchfn('unsqueeze')
def unsqueeze(a, d): return a.unsqueeze(d)
@torchfn('to', 'type_as')
def to(a, *r, **k): return a if is_sym(a) else T.lift(a)
@torchfn('logical_not')
def logical_not(a): return ~a
@torchfn('any')
def tany(a, *r): return a.any()
@torchfn('all')
def tall(a, *r): return a.all()
@torchfn('numel')
def numel(a): return a.numel()
@torchfn('clone')
def clone(a): return a.clone()
@torchfn('detach')
def detach(a): return a.detach()
@torchfn('lerp')
def lerp(a, b, w): return a + (b - a) * w
@torchfn('addcmul')
def addcmul(a, b, c, value=1): return a + b * c * value
@torchfn('is_tensor')
def is_tensor(a): return type(a) in (T, Seq)


@factory('tensor', 'as_tensor', 'asarray')
def as_tensor(v, *a, **k):
    if type(v) in (T, Seq): return v
    if isinstance(v, SInt): return T(z3.ToReal(v.e), isint='dtype' not in k)
    if isinstance(v, SBool): return v
    if isinstance(v, (list, tuple)) and all(isinstance(T.lift(u), T) for u in v):
        if len(v) == 1: return T(T.lift(v[0]).e, (1,))
    raise Unsupported("tensor of symbolic values")


@factory('full')
def full(size, v, *a, **k): return T(T.lift(v).e, tuple(size))


# ------------------------------------------------------------------------------------------------ builtins
def b_len(v): return V.length(v)


def b_range(*a):
    if any(isinstance(x, (SInt,)) or (type(x) is T) for x in a):
        if len(a) == 1: return SRange(0, a[0])
        return SRange(*a)
    return range(*a)


def b_enumerate(it, start=0):
    if V.is_sym_iter(it): return Lazy(V.sym_len(it), lambda i: (V.simp_int(i + start), V.sym_at(it, i)))
    return enumerate(it, start)


def b_zip(*its):
    if any(V.is_sym_iter(i) for i in its):
        ns = []
        for i in its:
            if V.is_sym_iter(i): ns.append(V.sym_len(i))
            else: raise Unsupported("zip of symbolic and concrete sequences")
        for n in ns[1:]:
            if not S().valid(ns[0] == n)[0]: raise Unsupported("zip of different symbolic lengths")
        return Lazy(ns[0], lambda k: tuple(V.sym_at(i, k) for i in its))
    return zip(*its)


def b_int(v=0, *a):
    if type(v) is T:
        if v.isint: return V.simp_int(z3.ToInt(v.e))
        raise Unsupported("int of a symbolic real")
    if isinstance(v, SInt): return v
    if isinstance(v, SBool): return v.as_int()
    return int(v, *a) if a else int(v)


def b_float(v=0.):
    if type(v) is T: return v.item()
    if isinstance(v, SInt): return T(z3.ToReal(v.e))
    return float(v)


def b_bool(v=False): return bool(v)


def b_abs(v): return v.abs() if type(v) in (T, Seq) else abs(v)


def b_list(v=()):
    if V.is_sym_iter(v): return v
    return VList(v)


def b_tuple(v=()):
    if V.is_sym_iter(v): return v
    return tuple(v)


class DistinctCount:
    "set built from a symbolic sequence of integers"
    def __init__(self, seq): self.seq, self.n = seq, None
    def size(self):
        s = S()
        n = V.sym_len(self.seq)
        c = s.fresh('distinct', 'int')
        at = lambda i: eint(V.sym_at(self.seq, i))
        s.assume(z3.And(c >= 0, c <= n, z3.Implies(n > 0, c > 0)))
        # |set| == n iff injective: witnesses when it is not, instances when it is
        p, q = s.fresh('dup', 'int'), s.fresh('dup', 'int')
        s.index(p, n); s.index(q, n)
        s.assume(z3.Implies(c < n, z3.And(0 <= p, p < q, q < n, at(p) == at(q))))
        seen = []
        def inst(a):
            seen.append(a)
            return z3.And(*[z3.Implies(z3.And(c == n, 0 <= a, a < n, 0 <= b, b < n, a != b), at(a) != at(b)) for b in seen if not a.eq(b)])
        s.forall(n, inst)
        return V.simp_int(c)


def b_set(v=()):
    if V.is_sym_iter(v): return DistinctCount(v)
    return set(v)


_len0 = b_len
def b_len(v):
    if isinstance(v, DistinctCount): return v.size()
    return _len0(v)


def b_sum(it, start=0):
    if V.is_sym_iter(it):
        raise Unsupported("sum over a symbolic sequence")
    r = start
    for v in it: r = r + v
    return r


def b_any(it):
    if isinstance(it, (SBool, BSeq)): return it.any()
    if V.is_sym_iter(it): raise Unsupported("any over a symbolic sequence")
    return any(it)


def b_all(it):
    if isinstance(it, (SBool, BSeq)): return it.all()
    if V.is_sym_iter(it): raise Unsupported("all over a symbolic sequence")
    return all(it)


def b_max(*a, **k):
    if len(a) == 2 and not k and any(type(x) in (T, SInt) for x in a):
        x, y = a
        if type(x) is T or type(y) is T: return T.lift(x).maximum(y)
        return V.simp_int(z3.If(eint(x) >= eint(y), eint(x), eint(y)))
    return max(*a, **k)


def b_min(*a, **k):
    if len(a) == 2 and not k and any(type(x) in (T, SInt) for x in a):
        x, y = a
        if type(x) is T or type(y) is T: return T.lift(x).minimum(y)
        return V.simp_int(z3.If(eint(x) <= eint(y), eint(x), eint(y)))
    return min(*a, **k)


def b_reversed(v):
    if V.is_sym_iter(v): return Lazy(V.sym_len(v), lambda i: V.sym_at(v, z3.simplify(V.sym_len(v) - 1 - i)))
    return reversed(v)


class list_meta(type):
    def __instancecheck__(cls, o): return isinstance(o, list)


BUILTINS = {'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'abs': b_abs,
            'sum': b_sum, 'any': b_any, 'all': b_all, 'max': b_max, 'min': b_min, 'reversed': b_reversed}
# these are also used as types (isinstance, type() ==), so only their calls are replaced
CALLS = {'int': b_int, 'float': b_float, 'list': b_list, 'tuple': b_tuple, 'set': b_set}


def contains(v, seq):
    "`v in seq`"
    if V.is_sym_iter(seq):
        s = S()
        n = V.sym_len(seq)
        x = eint(v)
        if type(seq) is SRange and seq.step == 1: return bool(SBool(z3.And(seq.a <= x, x < seq.b)))
        at = lambda i: eint(V.sym_at(seq, i))
        m, w = s.fresh('member', 'bool'), s.fresh('member_at', 'int')
        s.index(w, n)
        s.assume(z3.Implies(m, z3.And(0 <= w, w < n, at(w) == x)))
        s.forall(n, lambda i: z3.Implies(z3.And(z3.Not(m), 0 <= i, i < n), at(i) != x))
        return s.branch(m)
    if isinstance(seq, range) and isinstance(v, SInt):
        if seq.step == 1: return bool((v >= seq.start) & (v < seq.stop))
    if isinstance(v, SInt) and isinstance(seq, (list, tuple, set, range)):
        for u in (list.__iter__(seq) if isinstance(seq, list) else seq):
            if v == u: return True
        return False
    return v in seq
