"""Symbolic values the real code is executed on.

T      a tensor known up to its elements: a time, a step size, a norm (scalars), or a whole state.  A state is represented by
       its generic element: linear operations and elementwise functions act on a real-valued term; functions of the whole
       state (vector fields, solver steps) are uninterpreted functions of that term (see DESIGN.md, "states as reals").
Seq    a tensor with a symbolic first dimension: time grids, stacked solutions.
VList  a Python list, whose length and contents become symbolic when a cut loop modifies it.
SBool, SInt  symbolic conditions and integers.
"""
import itertools, operator
from fractions import Fraction
import torch, z3
from . import core
from .core import Unsupported, PathEnd, Restart, S, real, frac

_serial = itertools.count()


class Undef:
    def __repr__(self): return '<undefined>'
    def _no(self, *a, **k): raise UnboundLocalError("variable used before assignment")
    __getattr__ = __bool__ = __add__ = __radd__ = __call__ = __getitem__ = __len__ = __iter__ = __lt__ = __gt__ = _no


UNDEF = Undef()


class CodeError(Exception):
    "an exception the real code would raise here"


class VIndexError(IndexError, CodeError): pass
class VRuntimeError(RuntimeError, CodeError): pass


# -------------------------------------------------------------------------------------------------- booleans, ints
def ebool(v):
    if isinstance(v, SBool): return v.e
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, SInt): return v.e != 0
    if isinstance(v, int): return z3.BoolVal(v != 0)
    if isinstance(v, T): return v.e != 0
    if isinstance(v, torch.Tensor) and v.numel() == 1: return z3.BoolVal(bool(v))
    raise Unsupported(f"boolean from {type(v)}")


class SBool:
    __slots__ = ('e',)
    shape = ()

    def __init__(self, e): self.e = e if not isinstance(e, bool) else z3.BoolVal(e)
    def __bool__(self): return S().branch(self.e)
    def __and__(self, o): return SBool(z3.And(self.e, ebool(o)))
    def __or__(self, o): return SBool(z3.Or(self.e, ebool(o)))
    def __xor__(self, o): return SBool(z3.Xor(self.e, ebool(o)))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__
    def __invert__(self): return SBool(z3.Not(self.e))
    def logical_not(self): return SBool(z3.Not(self.e))
    def __eq__(self, o):
        if o is None: return False
        return SBool(self.e == ebool(o))
    def __ne__(self, o):
        if o is None: return True
        return SBool(self.e != ebool(o))
    def __hash__(self): return hash(self.e.get_id())
    def as_int(self): return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))
    def __add__(self, o): return self.as_int() + o
    __radd__ = __add__
    def __mul__(self, o): return (self.as_int() * o) if not isinstance(o, (T, float)) else T(z3.If(self.e, real(1), real(0))) * o
    __rmul__ = __mul__
    def __gt__(self, o): return self.as_int() > o
    def __ge__(self, o): return self.as_int() >= o
    def __lt__(self, o): return self.as_int() < o
    def __le__(self, o): return self.as_int() <= o
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def all(self, *a): return self
    def any(self, *a): return self
    def bool(self): return self
    def item(self): return self
    def to(self, *a, **k): return self
    def detach(self): return self
    def sum(self): return self.as_int()
    def __repr__(self): return f"SBool({self.e})"
    def __getattr__(self, n): raise Unsupported(f"bool tensor attribute {n}") if not n.startswith('__') else AttributeError(n)


def eint(v):
    if isinstance(v, SInt): return v.e
    if isinstance(v, bool): return z3.IntVal(int(v))
    if isinstance(v, int): return z3.IntVal(v)
    if isinstance(v, SBool): return v.as_int().e
    if isinstance(v, T) and v.isint: return z3.ToInt(v.e)
    if isinstance(v, torch.Tensor) and v.numel() == 1 and not v.dtype.is_floating_point: return z3.IntVal(int(v))
    raise Unsupported(f"integer from {type(v)}")


class SInt:
    __slots__ = ('e',)

    def __init__(self, e): self.e = e if not isinstance(e, int) else z3.IntVal(e)

    def _bin(self, o, f, r=False):
        if isinstance(o, float) or (isinstance(o, T)):
            a, b = T(z3.ToReal(self.e)), o
            return f(b, a) if r else f(a, b)
        if isinstance(o, torch.Tensor): return f(T.lift(o), T(z3.ToReal(self.e))) if r else f(T(z3.ToReal(self.e)), T.lift(o))
        o = eint(o)
        return simp_int(f(o, self.e) if r else f(self.e, o))
    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    __rmul__ = __mul__
    def __neg__(self): return simp_int(-self.e)
    def __floordiv__(self, o):
        o = eint(o)
        if not (z3.is_int_value(o) and o.as_long() > 0): raise Unsupported("division by a symbolic integer")
        return simp_int(self.e / o)
    def __mod__(self, o):
        o = eint(o)
        if not (z3.is_int_value(o) and o.as_long() > 0): raise Unsupported("modulo a symbolic integer")
        return simp_int(self.e % o)
    def __truediv__(self, o): return T(z3.ToReal(self.e)) / o
    def __rtruediv__(self, o): return T.lift(o) / T(z3.ToReal(self.e))
    def _cmp(self, o, f):
        if o is None or isinstance(o, str): return f is operator.ne
        if isinstance(o, (float, T)): return SBool(f(z3.ToReal(self.e), T.lift(o).e))
        return SBool(f(self.e, eint(o)))
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)
    def __hash__(self): return hash(self.e.get_id())
    def __bool__(self): return S().branch(self.e != 0)
    def __index__(self):
        e = z3.simplify(self.e)
        if z3.is_int_value(e): return e.as_long()
        raise Unsupported("symbolic integer where a concrete one is needed")
    __int__ = __index__
    def item(self): return self
    def to(self, *a, **k): return self
    def numel(self): return 1
    def __repr__(self): return f"SInt({self.e})"


def simp_int(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SInt(e)


def dim_str(d): return str(d) if isinstance(d, int) else z3.simplify(d.e).sexpr()


# -------------------------------------------------------------------------------------------------- tensors
RPOW = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
SQRT = z3.Function('sqrt', z3.RealSort(), z3.RealSort())


def esqrt(e):
    s = S()
    if s.deferred is None:
        r = SQRT(e)
        s.fact(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
        return r
    c = z3.simplify(e, som=True)        # a name for the root; that its square is `e` is given to the solver only where a query needs it
    if c.get_id() not in s.deferred:
        r = s.fresh('root', 'real')
        s.deferred[c.get_id()] = c, r, z3.Implies(c >= 0, z3.And(r >= 0, r * r == c))
        if square_sum(c): s.fact(r >= 0)
    return s.deferred[c.get_id()][1]


def square_sum(c):
    "whether a polynomial is visibly a sum of squares"
    k = c.decl().kind()
    if k == z3.Z3_OP_ADD: return all(square_sum(a) for a in c.children())
    if k == z3.Z3_OP_MUL: return c.num_args() == 2 and c.arg(0).eq(c.arg(1))
    return z3.is_rational_value(c) and c.as_fraction() >= 0 or k == z3.Z3_OP_POWER and z3.is_rational_value(c.arg(1)) and c.arg(1).as_fraction() == 2


def erpow(b, p):
    "real power: positive for positive bases, above (below) one for bases above (below) one and positive exponents"
    r, s = RPOW(b, p), S()
    s.fact(z3.Implies(b > 0, r > 0))
    s.fact(z3.Implies(z3.And(b > 1, p > 0), r > 1))
    s.fact(z3.Implies(z3.And(b > 0, b < 1, p > 0), r < 1))
    s.fact(z3.Implies(b == 1, r == 1))
    return r


def note_input(v, content):
    "remembers a value of the caller for the frame conditions of a session that asks for them"
    s = core.CUR
    if s is not None and s.inputs is not None: s.inputs.append((v, content))


class T:
    """Symbolic tensor; `vec` tells states from scalars, `ew` marks terms with elementwise non-linear operations,
    `dom` the part of the state it ranges over."""
    __slots__ = ('e', 'shape_', 'vec', 'ew', 'dom', 'isint', 'tag', 'serial', 'alias', 'setview', 'grad_', '__weakref__')

    def __init__(self, e, shape=(), vec=False, ew=False, dom='full', isint=False, tag=None):
        self.e, self.shape_, self.vec, self.ew, self.dom, self.isint = e, tuple(shape), vec, ew, dom, isint
        self.tag, self.serial, self.alias, self.setview, self.grad_ = tag, next(_serial), None, None, False
        if tag is not None: note_input(self, e)

    # -- construction
    @staticmethod
    def lift(o):
        if isinstance(o, T): return o
        if isinstance(o, (int, float, Fraction)): return T(real(o))
        if isinstance(o, SInt): return T(z3.ToReal(o.e))
        if isinstance(o, SBool): return T(z3.If(o.e, real(1), real(0)))
        if isinstance(o, torch.Tensor) and o.numel() == 1 and type(o).__module__.startswith('torch'):
            return T(exact(o), tuple(o.shape))
        raise Unsupported(f"tensor from {type(o)}")

    def like(self, e, o=None, **kw):
        a = [self] + ([o] if o is not None else [])
        vec = any(v.vec for v in a)
        if vec:
            doms = {v.dom for v in a if v.vec}
            if len(doms) > 1: raise Unsupported(f"operation across different parts of a state {doms}")
            shape = next(v.shape_ for v in a if v.vec)
            dom = doms.pop()
        else:
            shape, dom = max((v.shape_ for v in a), key=len), 'full'
        return T(e, shape, vec, kw.get('ew', False) or any(v.ew for v in a), dom, isint=kw.get('isint', False))

    def _bin(self, o, f, r=False):
        if type(o) is Seq or is_arr(o): return NotImplemented
        if o is None: raise TypeError("unsupported operand type(s): 'Tensor' and 'NoneType'")
        o = T.lift(o)
        ew = self.vec and o.vec and f in (operator.mul, operator.truediv)
        return self.like(f(o.e, self.e) if r else f(self.e, o.e), o, ew=ew)
    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._bin(o, operator.mul, True)
    def __truediv__(self, o):
        if is_arr(o): return NotImplemented
        o = T.lift(o)
        r = self._bin(o, operator.truediv)
        if o.vec: r.ew = True
        return r
    def __rtruediv__(self, o):
        r = self._bin(o, operator.truediv, True)
        if self.vec: r.ew = True
        return r
    def __neg__(self): return self.like(-self.e)
    def __pos__(self): return self
    def __pow__(self, p): return self.pow(p)
    def __rpow__(self, b):
        b = T.lift(b)
        return b.like(erpow(b.e, self.e), self)
    add, sub, mul, div, true_divide, subtract, multiply, divide = __add__, __sub__, __mul__, __truediv__, __truediv__, __sub__, __mul__, __truediv__
    neg, negative = __neg__, __neg__

    def pow(self, p):
        if isinstance(p, (int,)) and 0 <= p <= 8:
            e = real(1)
            for _ in range(p): e = e * self.e
            return self.like(e, ew=self.vec and p != 1)
        if p == 0.5 and not isinstance(p, T): return self.sqrt()
        p = T.lift(p)
        return self.like(erpow(self.e, p.e), ew=self.vec)

    def abs(self): return self.like(z3.If(self.e >= 0, self.e, -self.e), ew=True)
    __abs__ = abs
    absolute = abs
    def square(self): return self.pow(2)
    def sqrt(self): return self.like(esqrt(self.e), ew=self.vec)
    def reciprocal(self): return self.like(real(1) / self.e, ew=self.vec)
    def maximum(self, o):
        o = T.lift(o)
        return self.like(z3.If(self.e >= o.e, self.e, o.e), o, ew=True)
    def minimum(self, o):
        o = T.lift(o)
        return self.like(z3.If(self.e <= o.e, self.e, o.e), o, ew=True)
    def max(self, o=None):
        if o is None:
            if self.vec: raise Unsupported("max over a state")
            return self
        return self.maximum(o)
    def min(self, o=None):
        if o is None:
            if self.vec: raise Unsupported("min over a state")
            return self
        return self.minimum(o)
    def clamp(self, min=None, max=None):
        r = self
        if min is not None: r = r.maximum(min)
        if max is not None: r = r.minimum(max)
        return r

    # -- reductions of states: one symbol per provably equal argument
    def mean(self, *a, **k):
        if not self.vec: return T(self.e)
        return T(reduce_term('mean', self))
    def sum(self, *a, **k):
        if not self.vec: return T(self.e)
        return T(reduce_term('mean', self) * numel_of(self))
    def norm(self, p=2, *a, **k):
        if not self.vec: return self.abs()
        if p not in (2, 2.0, None, 'fro'): raise Unsupported("norm")
        return T(esqrt(reduce_term('mean', self.pow(2)) * numel_of(self)))

    # -- comparisons
    def _cmp(self, o, f):
        if isinstance(o, Seq): return NotImplemented
        if o is None or isinstance(o, str): return f is operator.ne
        o = T.lift(o)
        if self.vec or o.vec: raise Unsupported("elementwise comparison of states")
        return SBool(f(self.e, o.e))
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    def __hash__(self): return id(self)
    def __bool__(self):
        if self.vec: raise Unsupported("truth value of a state")
        return S().branch(self.e != 0)
    def isfinite(self): return SBool(True)
    def isnan(self): return SBool(False)

    # -- in-place operations
    def _inplace(self, new):
        if is_arr(new):
            if new.a.shape != () or self.shape_ != (): raise Unsupported("in-place operation on tensors of different kinds")
            new = T(new.a[()])
        if self.tag == 'input' or self.alias == 'input':
            S().fail("inputs are left unmodified", "in-place operation on a caller's tensor", kind='frame')
            raise PathEnd()
        if self.setview is not None:
            self.setview(new)
        elif self.alias is not None:
            raise Unsupported("in-place operation on a tensor that may share its memory")
        for l in S().loop_stack:
            if self.serial < l.birth: raise Unsupported("in-place operation in a loop on a tensor created outside of it")
        self.e, self.ew = new.e, new.ew
        return self
    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)
    add_, sub_, mul_, div_ = __iadd__, __isub__, __imul__, __itruediv__
    def copy_(self, o): return self._inplace(T.lift(o))
    def zero_(self): return self._inplace(self * 0)
    def neg_(self): return self._inplace(-self)

    # -- shape, type and autograd bookkeeping
    @property
    def shape(self): return torch.Size(self.shape_) if all(isinstance(d, int) for d in self.shape_) else tuple(self.shape_)
    @property
    def dtype(self): return torch.float64
    @property
    def device(self): return torch.device('cpu')
    @property
    def __class__(self): return torch.Tensor
    @property
    def ndim(self): return len(self.shape_)
    @property
    def requires_grad(self): return self.grad_
    @property
    def grad_fn(self): return None
    @property
    def is_leaf(self): return True
    @property
    def data(self): return self._alias_of()
    @property
    def T(self): return self if self.ndim < 2 else _unsup('transpose')
    def size(self, d=None): return self.shape if d is None else self.shape_[d]
    def dim(self): return len(self.shape_)
    def numel(self): return self._numel()
    def nelement(self): return self._numel()
    def _numel(self):
        n = 1
        for d in self.shape_: n = d * n
        return n
    def is_floating_point(self): return True
    def _alias_of(self, shape=None):
        r = T(self.e, self.shape_ if shape is None else shape, self.vec, self.ew, self.dom, self.isint)
        r.alias = 'input' if (self.tag == 'input' or self.alias == 'input') else 'shared'
        return r
    def to(self, *a, **k): return self
    type = float = double = contiguous = cpu = to
    def type_as(self, o): return self
    def clone(self, *a, **k): return T(self.e, self.shape_, self.vec, self.ew, self.dom, self.isint)
    def detach(self): return self._alias_of()
    def item(self):
        if self.vec: raise Unsupported("item of a state")
        return self if not self.shape_ else self._alias_of(())
    def tolist(self): return self.item()
    def __float__(self): raise Unsupported("conversion of a symbolic tensor to a Python float")
    def __int__(self): raise Unsupported("conversion of a symbolic tensor to a Python int")
    def requires_grad_(self, flag=True):
        self.grad_ = flag
        return self
    def reshape(self, *s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)) else s
        if self.vec:
            if len(s) == len(self.shape_) and all(same_dim(a, b) for a, b in zip(s, self.shape_)): return self._alias_of()
            return self._alias_of(tuple(s))
        return self._alias_of(tuple(abs(d) for d in s))
    def view(self, *s): return self.reshape(*s)
    def view_as(self, o): return self.reshape(o.shape)
    reshape_as = view_as
    def flatten(self, *a):
        return self._alias_of((self._numel(),)) if self.vec else self._alias_of((1,))
    ravel = flatten
    def unsqueeze(self, d): return self._alias_of(self.shape_[:d] + (1,) + self.shape_[d:] if d >= 0 else self.shape_ + (1,))
    def squeeze(self, *d):
        if self.vec: raise Unsupported("squeeze of a state")
        return self._alias_of(())
    def expand(self, *s):
        return self if not self.vec else _unsup('expand')
    def __len__(self): return length(self)
    def __iter__(self):
        if not self.vec and self.shape_ == (1,): return iter([self._alias_of(())])
        raise Unsupported("iteration over a state")
    def __getitem__(self, i):
        if i is None: return self._alias_of((1,) + self.shape_)
        if i is Ellipsis: return self._alias_of()
        if not self.vec:
            if self.shape_ == (1,) and (isinstance(i, int) and i in (0, -1)): return self._alias_of(())
            if self.shape_ == (1,) and isinstance(i, slice) and i in (slice(None), slice(0, 1), slice(None, 1), slice(-1, None), slice(0, None)): return self._alias_of()
            if self.shape_ == (1,) and isinstance(i, (int, SInt)) and not isinstance(i, bool):
                if not bool(SBool(z3.And(eint(i) >= -1, eint(i) < 1))): raise VIndexError("index out of range of a sequence")
                return self._alias_of(())
            if self.shape_ == () and isinstance(i, int): raise IndexError("invalid index of a 0-dim tensor")
            raise Unsupported(f"index {i!r} of a scalar")
        if isinstance(i, slice) and i.step is None and i.start in (None, 0):
            if i.stop is None: return self._alias_of()
            if self.dom != 'full': raise Unsupported("nested slices of a state")
            r = self._alias_of((i.stop,) + self.shape_[1:])
            r.dom = ('prefix', dim_str(i.stop) if isinstance(i.stop, (int, SInt)) else str(i.stop))
            return r
        if isinstance(i, tuple) and len(i) > 1 and all(k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in i[:-1]) and (Ellipsis in i or len(i) == len(self.shape_)):
            k = i[-1]
            if isinstance(k, slice) and k.step is None and k.start in (None, 0) and k.stop is not None:
                if self.dom != 'full': raise Unsupported("nested slices of a state")
                r = self._alias_of(self.shape_[:-1] + (k.stop,))
                r.dom = ('last', dim_str(k.stop) if isinstance(k.stop, (int, SInt)) else str(k.stop))
                return r
        raise Unsupported(f"index {i!r} of a state")
    def __setitem__(self, i, v):
        if i in (Ellipsis,) or (isinstance(i, slice) and i == slice(None)): self._inplace(T.lift(v)); return
        raise Unsupported("assignment to part of a tensor")
    def __repr__(self): return f"T({self.e})"
    def __format__(self, s): return repr(self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f"tensor attribute {n}")

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from .tfun import dispatch
        return dispatch(func, args, kwargs or {})


def exact(t):
    "exact rational value of a concrete scalar tensor; float32 and float64 constants are taken as the decimals they print as"
    v = t.item()
    if isinstance(v, float) and t.dtype == torch.float32:
        import numpy as np
        return real(float(repr(np.float32(v)).replace('np.float32(', '').rstrip(')')))
    return real(v)


def _unsup(w): raise Unsupported(w)


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b or a == -1
    if isinstance(a, int) and a == -1: return True
    return S().valid(eint(a) == eint(b))[0]


def numel_of(t):
    n = z3.Function('numel_' + str(t.dom), z3.IntSort(), z3.RealSort())(z3.IntVal(0))
    S().fact(n >= 1)
    return n


def reduce_term(op, t):
    "the reduction of a state: a symbol shared by all arguments that are provably equal elementwise"
    s = S()
    table = s.calls.setdefault(('reduce', op, t.dom), [])
    for e, r in table:
        if e.eq(t.e) or s.valid(e == t.e)[0]: return r
    r = s.fresh(f'{op}', 'real')
    if s.valid(t.e >= 0)[0]: s.assume(r >= 0)
    table.append((t.e, r))
    return r


# -------------------------------------------------------------------------------------------------- element structures
def is_arr(v): return type(v).__name__ == 'Arr'


def leaves(v):
    "flattens an element (tensor, dict, tuple of tensors) into its terms"
    if is_arr(v): return list(v.a.flat)
    if isinstance(v, T): return [v.e]
    if isinstance(v, dict): return [e for k in v for e in leaves(v[k])]
    if isinstance(v, (tuple,)): return [e for k in v for e in leaves(k)]
    if v is None: return []
    if isinstance(v, SInt): return [z3.ToReal(v.e)]
    if isinstance(v, (float, int)): return [real(v)]
    if isinstance(v, torch.Tensor): return [T.lift(v).e]
    raise Unsupported(f"list element {type(v)}")


def rebuild(v, es):
    es = iter(es)
    def go(v):
        if is_arr(v):
            from . import arr
            return arr.rebuild(v, es)
        if isinstance(v, T):
            return T(next(es), v.shape_, v.vec, v.ew, v.dom, v.isint)
        if isinstance(v, dict): return {k: go(u) for k, u in v.items()}
        if isinstance(v, tuple): return tuple(go(u) for u in v)
        if v is None: return None
        if isinstance(v, (float, int)): return T(next(es))
        if isinstance(v, torch.Tensor): return T(next(es), tuple(v.shape))
        raise Unsupported(f"list element {type(v)}")
    return go(v)


def struct(v):
    if is_arr(v): return ('Arr', tuple(v.a.shape), v.rg)
    if isinstance(v, T): return ('T', tuple(dim_str(d) for d in v.shape_), v.vec, str(v.dom), v.isint)
    if isinstance(v, dict): return ('dict',) + tuple((k, struct(u)) for k, u in v.items())
    if isinstance(v, tuple): return ('tuple',) + tuple(struct(u) for u in v)
    if isinstance(v, bool) or isinstance(v, SBool): return ('bool',)
    if isinstance(v, (int, SInt)): return ('int',)
    if isinstance(v, float): return ('T', (), False, 'full', False)
    if v is None: return ('none',)
    if v is UNDEF: return ('undef',)
    if isinstance(v, torch.Tensor) and not isinstance(v, Seq) and v.numel() == 1: return ('T', tuple(map(str, v.shape)), False, 'full', False)
    if isinstance(v, Seq): return ('Seq', struct(v.elem), dim_str(simp_int(v.n)))
    if isinstance(v, VList):
        if v.sym is None and list.__len__(v) and all(isinstance(u, (bool, SBool)) for u in list.__iter__(v)): return ('clist', list.__len__(v))
        return ('VList',)
    if isinstance(v, list): return ('list',) + tuple(struct(u) for u in v)
    if is_record(v): return ('inst', type(v).__qualname__) + tuple((n, struct(u)) for n, u in vars(v).items())
    return ('obj', id(v))


def is_record(v):
    "plain data holders of the code under verification"
    return type(v).__module__.startswith('torchdyn') and not isinstance(v, torch.nn.Module) and not callable(v) and hasattr(v, '__dict__') and bool(vars(v)) and \
        all(isinstance(u, (bool, int, float, SBool, SInt, T, VList, type(None))) for u in vars(v).values())


# -------------------------------------------------------------------------------------------------- sequences
class Seq:
    "tensor with symbolic first dimension `n`; `fn(i)` gives the element at integer term i; `elem` is a template element"

    def __init__(self, n, fn, elem, tag=None, base=None):
        self.n = n if not isinstance(n, int) else z3.IntVal(n)
        self.fn, self.elem, self.tag, self.serial = fn, elem, tag, next(_serial)
        if tag is not None: note_input(self, fn)

    def version(self): return id(self.fn)

    def at(self, i):
        return rebuild(self.elem, self.fn(z3.simplify(i)))

    @property
    def __class__(self): return torch.Tensor
    @property
    def shape(self): return (simp_int(self.n),) + (tuple(self.elem.shape_) if isinstance(self.elem, T) else tuple(self.elem.shape) if is_arr(self.elem) else ())
    @property
    def ndim(self): return len(self.shape)
    @property
    def dtype(self): return torch.float64
    @property
    def device(self): return torch.device('cpu')
    @property
    def requires_grad(self): return False
    def dim(self): return len(self.shape)
    def size(self, d=None): return self.shape if d is None else self.shape[d]
    def numel(self):
        if isinstance(self.elem, T) and not self.elem.vec: return simp_int(self.n)
        raise Unsupported("numel of stacked states")
    def to(self, *a, **k): return self
    float = double = contiguous = cpu = to
    def type_as(self, o): return self
    def clone(self, *a, **k): return Seq(self.n, self.fn, self.elem)
    def detach(self): return self
    def __len__(self): raise Unsupported("len() of a symbolic sequence outside of transformed code")
    def __bool__(self): raise Unsupported("truth value of a sequence")
    def map(self, f, elem=None):
        fn, tpl = self.fn, self.elem
        probe = f(rebuild(tpl, leaves(tpl)))
        return Seq(self.n, lambda i: leaves(f(rebuild(tpl, fn(i)))), probe)
    def __neg__(self):
        r = self.map(lambda v: -v)
        p = getattr(self, 'sorted_', None)
        if p is not None: r.sorted_ = p.flip().map(lambda v: -v)
        return r
    neg = __neg__
    def abs(self): return self.map(lambda v: v.abs())
    __abs__ = abs
    def _bin(self, o, f, r=False):
        if isinstance(o, Seq):
            if not S().valid(self.n == o.n)[0]: raise Unsupported("sequences of different lengths")
            a, b = (o, self) if r else (self, o)
            pe = f(rebuild(a.elem, leaves(a.elem)), rebuild(b.elem, leaves(b.elem)))
            return Seq(self.n, lambda i: leaves(f(rebuild(a.elem, a.fn(i)), rebuild(b.elem, b.fn(i)))), pe)
        return self.map((lambda v: f(o, v)) if r else (lambda v: f(v, o)))
    def __add__(self, o): return self._bin(o, operator.add)
    def __radd__(self, o): return self._bin(o, operator.add, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, operator.mul)
    def __rmul__(self, o): return self._bin(o, operator.mul, True)
    def __truediv__(self, o): return self._bin(o, operator.truediv)
    def _cmp(self, o, f):
        if o is None: return f is operator.ne
        return BSeq(self, o, f)
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o): return self._cmp(o, operator.eq)
    def __ne__(self, o): return self._cmp(o, operator.ne)
    def __hash__(self): return id(self)

    def _index(self, i):
        i = eint(i)
        n = self.n
        neg = z3.simplify(i < 0)
        if z3.is_true(neg): j = z3.simplify(i + n)
        elif z3.is_false(neg): j = i
        elif S().valid(i >= 0)[0]: j = i
        else: j = z3.If(i < 0, i + n, i)
        if not S().branch(z3.And(j >= 0, j < n)): raise VIndexError("index out of range of a sequence")
        return z3.simplify(j)

    def __getitem__(self, i):
        if isinstance(i, (int, SInt)) or (isinstance(i, T) and i.isint): 
            r = self.at(self._index(i))
            if isinstance(r, T):
                r.alias = 'input' if self.tag == 'input' else 'shared'
                if self.tag != 'input':
                    was = self.version()
                    def write(new):
                        if self.version() != was: raise Unsupported("in-place operation on an outdated view")
                        self[i] = new
                    r.setview = write
            return r
        if i is Ellipsis: return self
        if isinstance(i, tuple) and len(i) == 2 and i[0] is Ellipsis and self.ndim == 1: return self[i[1]]
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[1], slice) and i[1] == slice(None): return self[i[0]]
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported("strided slice")
            n = self.n
            def bound(b, dflt):
                if b is None: return dflt
                b = eint(b)
                if z3.is_int_value(b) and b.as_long() < 0: b = b + n
                elif not S().valid(b >= 0)[0]: b = z3.If(b < 0, b + n, b)
                if S().valid(z3.And(b >= 0, b <= n))[0]: return z3.simplify(b)
                return z3.If(b < 0, z3.IntVal(0), z3.If(b > n, n, b))
            a, b = bound(i.start, z3.IntVal(0)), bound(i.stop, n)
            m = z3.simplify(b - a)
            if not S().valid(m >= 0)[0]: m = z3.If(m < 0, z3.IntVal(0), m)
            fn = self.fn
            if isinstance(self.elem, T) and not self.elem.vec and S().valid(m == 1)[0]:
                r = self.at(z3.simplify(a))
                r.shape_, r.alias = (1,), 'input' if self.tag == 'input' else 'shared'
                return r
            return Seq(m, (lambda j: fn(z3.simplify(j + a))), self.elem, tag=self.tag)
        if isinstance(i, (ISeq, Lazy, SRange)) or (isinstance(i, VList) and i.sym is not None):
            return Seq(sym_len(i), (lambda j: self.fn(eint(sym_at(i, j)))), self.elem)
        if isinstance(i, (list, range)) and all(isinstance(k, (int, SInt)) for k in i):
            raise Unsupported("index by a concrete list")
        raise Unsupported(f"index {i!r} of a sequence")

    def __setitem__(self, i, v):
        if self.tag == 'input':
            S().fail("inputs are left unmodified", "assignment into a caller's tensor", kind='frame')
            raise PathEnd()
        for l in S().loop_stack:
            if self.serial < l.birth: l.modified(self)
        if isinstance(i, (int, SInt)) or type(i) is T and i.isint:
            j, old = self._index(i), self.fn
            if is_arr(v) and v.a.size == 1 and isinstance(self.elem, T): v = T(v.a.reshape(-1)[0])
            new = leaves(v) if not isinstance(self.elem, T) else [T.lift(v).e]
            self.fn = lambda k: [z3.If(k == j, a, b) for a, b in zip(new, old(k))]
            return
        if isinstance(i, slice) and i.step in (None, 1) and isinstance(v, Seq):
            part = self[i]
            if not isinstance(part, Seq):
                return self.__setitem__(0 if i.start is None else i.start, v.at(z3.IntVal(0)))
            a = z3.IntVal(0) if i.start is None else eint(i.start)
            if not S().valid(z3.And(a >= 0, v.n == part.n))[0]: raise Unsupported("slice assignment")
            old, m, vf = self.fn, part.n, v.fn
            self.fn = lambda k: [z3.If(z3.And(k >= a, k < a + m), x, y) for x, y in zip(vf(z3.simplify(k - a)), old(k))]
            return
        if isinstance(i, slice) and isinstance(v, T):  # single element slice
            part = self[i]
            if isinstance(part, T) or S().valid(part.n == 1)[0]:
                return self.__setitem__(0 if i.start is None else i.start, v)
        raise Unsupported("assignment into a sequence")

    def flip(self, *d):
        fn, n = self.fn, self.n
        return Seq(n, lambda i: fn(z3.simplify(n - 1 - i)), self.elem)
    def argmin(self, *a, **k):
        s = S()
        fn, n = self.fn, self.n
        if s.guards:   # an element of a comprehension: named by an index term it provably equals, for all indices in range
            for ix in list(s.indices(n))[::-1][:14]:
                with s.local():
                    r = s.fresh('am', 'int')
                    a, b = fn(ix)[0], fn(r)[0]
                    s._flush()
                    ok = s._check(z3.And(*s.guards), r >= 0, r < n, b <= a, r != ix)[0] == z3.unsat and s._check(z3.And(*s.guards), z3.Or(ix < 0, ix >= n))[0] == z3.unsat
                if ok: return T(z3.ToReal(ix), isint=True)
        r = s.fresh('argmin', 'int')
        s.assume(z3.And(r >= 0, r < n))
        s.forall(n, lambda ix: z3.Implies(z3.And(ix >= 0, ix < n), fn(r)[0] <= fn(ix)[0]))
        for n2, fn2, r2 in s.calls.setdefault('argmins', []):   # a function of its argument: g witnesses any difference
            if z3.simplify(n2).eq(z3.simplify(n)):
                g = s.fresh('diff', 'int')
                s.fact(z3.Or(r == r2, z3.And(g >= 0, g < n, fn(g)[0] != fn2(g)[0])))
        s.calls['argmins'].append((n, fn, r))
        return T(z3.ToReal(r), isint=True)
    def sort(self, *a, **k):
        p = getattr(self, 'sorted_', None)
        if p is None: raise Unsupported("sort of a symbolic sequence")
        return p, None
    def requires_grad_(self, f=True): return self
    def __repr__(self): return f"Seq(n={self.n})"
    def __iter__(self): raise Unsupported("iteration over a symbolic sequence outside of transformed code")
    def __getattr__(self, n):
        if n.startswith('__') or n in ('probes', 'sorted_'): raise AttributeError(n)
        raise Unsupported(f"tensor attribute {n}")

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from .tfun import dispatch
        return dispatch(func, args, kwargs or {})


class BSeq:
    "elementwise comparison of sequences"
    def __init__(self, a, b, f): self.a, self.b, self.f = a, b, f
    def at(self, i):
        g = lambda v: v.at(i) if isinstance(v, Seq) else v
        return self.f(g(self.a), g(self.b))
    def all(self):
        s = S()
        n = self.a.n if isinstance(self.a, Seq) else self.b.n
        w = s.fresh('all_witness', 'int')
        r = s.fresh('all', 'bool')
        s.assume(z3.Implies(z3.Not(r), z3.And(w >= 0, w < n, z3.Not(self.at(w).e))))
        s.index(w, n)
        s.forall(n, lambda ix: z3.Implies(z3.And(r, ix >= 0, ix < n), self.at(ix).e))
        return SBool(r)
    def any(self): return ~BSeq(self.a, self.b, lambda x, y: ~self.f(x, y)).all()


class ISeq:
    "symbolic list of integers given by a function"
    def __init__(self, n, at): self.n, self.at_ = n, at
    def at(self, i): return simp_int(self.at_(i))
    def __contains__(self, v): raise Unsupported("membership outside of transformed code")


class SRange:
    "range with symbolic bounds"
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = eint(a), eint(b), step
        if not isinstance(step, int) or step == 0: raise Unsupported("symbolic range step")
        if step == 1: cnt = self.b - self.a
        elif step == -1: cnt = self.a - self.b
        else: raise Unsupported("range step")
        self.n = z3.simplify(z3.If(cnt > 0, cnt, z3.IntVal(0)))
    def at(self, i): return simp_int(self.a + self.step * i)


def sym_len(v):
    if isinstance(v, VList): return v.sym[0]
    return v.n


def sym_at(v, i):
    if isinstance(v, VList): return v.sym_at(i)
    return v.at(i)


def is_sym_iter(v):
    return isinstance(v, (SRange, ISeq, Lazy)) or type(v) in (Seq,) or (type(v) is VList and v.sym is not None)


class Lazy:
    "enumerate / zip / map over symbolic sequences"
    def __init__(self, n, at): self.n, self.at = n, at


# -------------------------------------------------------------------------------------------------- lists
class VList(list):
    def __init__(self, items=()):
        super().__init__(items)
        self.sym, self.serial, self.elem_, self.unknown = None, next(_serial), None, None
        self.key = None
        if core.CUR is not None:
            f = S().where(True)
            n = S().calls.setdefault('vlists', {})
            n[f] = n.get(f, 0) + 1
            self.key = (f, n[f])
            S().objs[self.key] = self

    def _mutate(self):
        if core.CUR is None: return
        for l in S().loop_stack:
            if self.serial < l.birth: l.modified(self)

    def make_unknown(self, learn):
        "symbolic list whose kind of elements is not known yet: found at the first `append`, the path ends on any read"
        n = S().fresh('len', 'int')
        S().assume(n >= 0)
        def fn(i):
            S().changed = True
            raise PathEnd()
        self.sym, self.unknown = [n, fn], learn

    def template(self):
        if self.elem_ is not None: return self.elem_
        if list.__len__(self): return list.__getitem__(self, 0)
        return None

    def make_symbolic(self, elem, name):
        n = S().fresh(name + '_len', 'int')
        S().assume(n >= 0)
        self.elem_ = elem
        arrs = [S().fresh(f'{name}_{k}', z3.ArraySort(z3.IntSort(), l.sort())) for k, l in enumerate(leaves(elem))]
        self.sym = [n, lambda i: [z3.Select(a, i) for a in arrs]]

    def to_sym(self):
        "concrete list as a symbolic one"
        items = [leaves(v) for v in list.__iter__(self)]
        def fn(i):
            if not items: return [real(0)] if self.elem_ is None else leaves(self.elem_)
            out = items[-1]
            for k in range(len(items) - 2, -1, -1):
                out = [z3.If(i == k, a, b) for a, b in zip(items[k], out)]
            return out
        return [z3.IntVal(len(items)), fn]

    def version(self): return (self.sym[0].get_id(), id(self.sym[1])) if self.sym is not None else list.__len__(self)
    def length(self): return self.sym[0] if self.sym else z3.IntVal(list.__len__(self))
    def fn(self, i): return (self.sym or self.to_sym())[1](i)
    def sym_at(self, i): return rebuild(self.template(), self.fn(i))

    def append(self, v):
        self._mutate()
        if self.sym is None: return super().append(v)
        if self.elem_ is None and self.unknown is not None: self.unknown(v)
        if struct(v) != struct(self.elem_): raise Unsupported(f"list of mixed elements {struct(v)} / {struct(self.elem_)}")
        n, old = self.sym
        new = leaves(v)
        self.sym = [z3.simplify(n + 1), lambda i: [z3.If(i == n, a, b) for a, b in zip(new, old(i))]]
    def extend(self, vs):
        for v in (vs if not isinstance(vs, VList) or vs.sym is None else _unsup('extend')): self.append(v)
    def __iadd__(self, vs):
        self.extend(vs)
        return self
    def __add__(self, o):
        if self.sym is None and not (isinstance(o, VList) and o.sym is not None): return VList(list(self) + list(o))
        raise Unsupported("concatenation of symbolic lists")
    def __getitem__(self, i):
        if self.sym is None:
            if isinstance(i, SInt): 
                s = Seq(z3.IntVal(list.__len__(self)), self.fn, self.template())
                return s[i]
            r = super().__getitem__(i)
            return VList(r) if isinstance(i, slice) else r
        if self.elem_ is None: self.sym[1](0)
        return Seq(self.sym[0], self.sym[1], self.elem_)[i]
    def __setitem__(self, i, v):
        self._mutate()
        if self.sym is None and not isinstance(i, SInt): return super().__setitem__(i, v)
        if self.sym is None: self.sym, self.elem_ = self.to_sym(), self.template()
        q = Seq(self.sym[0], self.sym[1], self.elem_)
        q[i] = v
        self.sym[1] = q.fn
    def __iter__(self):
        if self.sym is not None: raise Unsupported("iteration over a symbolic list outside of transformed code")
        return super().__iter__()
    def __contains__(self, v):
        if self.sym is not None: raise Unsupported("membership in a symbolic list")
        return super().__contains__(v)
    def insert(self, *a): self._conc(); self._mutate(); super().insert(*a)
    def pop(self, *a): self._conc(); self._mutate(); return super().pop(*a)
    def remove(self, *a): self._conc(); self._mutate(); super().remove(*a)
    def clear(self): self._conc(); self._mutate(); super().clear()
    def reverse(self): self._conc(); self._mutate(); super().reverse()
    def _conc(self):
        if self.sym is not None: raise Unsupported("operation on a symbolic list")
    def __bool__(self):
        if self.sym is not None: return S().branch(self.sym[0] > 0)
        return list.__len__(self) > 0
    def __eq__(self, o):
        if self.sym is not None or o is None: return o is self
        return list.__eq__(self, o)
    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None


def length(v):
    if type(v) is VList: return simp_int(v.length()) if v.sym is not None else list.__len__(v)
    if type(v) is Seq or type(v) in (SRange, ISeq, Lazy): return simp_int(v.n)
    if type(v) is T:
        if not v.shape_: raise TypeError("len() of a 0-d tensor")
        return v.shape_[0]
    return len(v)
