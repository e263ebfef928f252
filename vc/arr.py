"""Tensors of concrete shape whose entries are real terms: broadcasting, views (aliasing), in-place writes, indexing and
reverse-mode differentiation follow torch.  Used where the code works on the entries of one state."""
import operator, itertools, contextlib
import numpy as np, torch, z3
from . import core, values as V, poly, tfun
from .core import Unsupported, S, real
from .values import T, Seq, SInt, SBool

_n = itertools.count()
DEFS = {}          # constants standing for detached terms: id -> (constant, term)
FUN = {}


def const(name='c'): return z3.Real(f'{name}!{next(_n)}')


def fn(name, *args):
    k = (name, len(args))
    if k not in FUN: FUN[k] = z3.Function(name, *[z3.RealSort()] * (len(args) + 1))
    return FUN[k](*[core.real(a) if isinstance(a, (int, float)) else a for a in args])


def is_const(e): return e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED


def resolve(e):
    "detached constants replaced by what they stand for"
    while True:
        sub = [DEFS[c.get_id()] for c in atoms(e) if c.get_id() in DEFS]
        if not sub: return e
        e = z3.substitute(e, *sub)


def atoms(e, acc=None):
    acc, todo, seen = [], [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if is_const(x): acc.append(x)
        todo.extend(x.children())
    return acc


DER = {'sin': lambda a: fn('cos', a), 'cos': lambda a: -fn('sin', a), 'exp': lambda a: fn('exp', a), 'log': lambda a: real(1) / a,
       'tanh': lambda a: real(1) - fn('tanh', a) * fn('tanh', a), 'sigmoid': lambda a: fn('sigmoid', a) * (real(1) - fn('sigmoid', a)),
       'sqrt': lambda a: real(1) / (2 * V.SQRT(a))}


def partial(d, i, args):
    name = d.name()
    if name in DER: return DER[name](*args)
    base, idx = name.split("'") if "'" in name else (name, '')
    idx = sorted([int(k) for k in idx.split(',') if k] + [i])
    return fn(base + "'" + ','.join(map(str, idx)), *args)


def diff(e, c, memo=None):
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo: return memo[k]
    if e.eq(c): r = real(1)
    elif z3.is_rational_value(e) or is_const(e): r = None
    else:
        ch = e.children()
        ds = [diff(x, c, memo) for x in ch]
        kd = e.decl().kind()
        if all(d is None for d in ds): r = None
        elif kd == z3.Z3_OP_ADD: r = add_all(ds)
        elif kd == z3.Z3_OP_UMINUS: r = -ds[0]
        elif kd == z3.Z3_OP_SUB: r = add_all([ds[0]] + [None if d is None else -d for d in ds[1:]])
        elif kd == z3.Z3_OP_MUL:
            r = add_all([None if d is None else mul_all(ch[:i] + [d] + ch[i + 1:]) for i, d in enumerate(ds)])
        elif kd == z3.Z3_OP_DIV:
            a, b = ch
            r = add_all([None if ds[0] is None else ds[0] / b, None if ds[1] is None else -(a * ds[1]) / (b * b)])
        elif kd == z3.Z3_OP_POWER:
            a, b = ch
            if ds[1] is not None: raise Unsupported('power with a variable exponent')
            r = b * a ** (b - 1) * ds[0]
        elif kd == z3.Z3_OP_UNINTERPRETED:
            r = add_all([None if d is None else partial(e.decl(), i, ch) * d for i, d in enumerate(ds)])
        elif kd == z3.Z3_OP_ITE:
            z = real(0)
            r = z3.If(ch[0], ds[1] if ds[1] is not None else z, ds[2] if ds[2] is not None else z)
        else: raise Unsupported(f'derivative of {e.decl()}')
    memo[k] = r
    return r


def add_all(xs):
    xs = [x for x in xs if x is not None]
    if not xs: return None
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r


def mul_all(xs):
    r = None
    for x in xs:
        if z3.is_rational_value(x) and x.numerator_as_long() == x.denominator_as_long(): continue
        r = x if r is None else r * x
    return real(1) if r is None else r


def obj(shape): return np.empty(shape, dtype=object)


def lift(v):
    if type(v) is Arr: return v
    if type(v) is T:
        a = obj(()); a[()] = v.e
        return Arr(a)
    if isinstance(v, SInt):
        a = obj(()); a[()] = z3.ToReal(v.e)
        return Arr(a)
    if isinstance(v, (int, float, bool)) or z3.is_expr(v):
        a = obj(()); a[()] = v if z3.is_expr(v) else real(v)
        return Arr(a)
    if isinstance(v, torch.Tensor) and type(v) is not Seq:
        r = obj(tuple(v.shape))
        for i in np.ndindex(*v.shape): r[i] = real(v[i].item())
        return Arr(r, rg=v.requires_grad)
    if isinstance(v, np.ndarray): return Arr(v)
    raise Unsupported(f'operand {type(v)}')


def plus(a, b):
    if z3.is_rational_value(a) and a.numerator_as_long() == 0: return b
    if z3.is_rational_value(b) and b.numerator_as_long() == 0: return a
    return a + b


def times(a, b):
    for x, y in ((a, b), (b, a)):
        if z3.is_rational_value(x):
            if x.numerator_as_long() == 0: return x
            if x.numerator_as_long() == x.denominator_as_long(): return y
    return a * b


class Arr:
    def __init__(self, a, rg=False, tag=None, root=None, isint=False):
        if not isinstance(a, np.ndarray):
            b = obj(()); b[()] = a
            a = b
        self.a, self.rg, self.root, self.isint = a, rg, self if root is None else root, isint
        if root is None: self.serial, self.tag = next(V._serial), tag

    # ---- construction
    @staticmethod
    def sym(name, *shape, rg=False, tag=None):
        a = obj(shape)
        for i in np.ndindex(*shape): a[i] = z3.Real(name + ''.join(f'_{k}' for k in i))
        return Arr(a, rg, tag)

    @staticmethod
    def of(shape, f):
        a = obj(shape)
        for i in np.ndindex(*shape): a[i] = f(*i)
        return Arr(a)

    def view_(self, a): return Arr(a, self.rg, root=self.root, isint=self.isint)
    def new(self, a, *ops, rg=None):
        if not isinstance(a, np.ndarray):
            b = obj(()); b[()] = a
            a = b
        r = (self.rg or any(o.rg for o in ops)) if rg is None else rg
        out = Arr(a, r and torch.is_grad_enabled())
        if r and not torch.is_grad_enabled(): out = out.detach()
        return out

    # ---- arithmetic
    def _bin(self, o, f, r=False):
        if isinstance(o, (Seq, str)) or o is None: return NotImplemented
        o = lift(o)
        x, y = (o.a, self.a) if r else (self.a, o.a)
        try: x, y = np.broadcast_arrays(x, y)
        except ValueError as e: raise V.VRuntimeError(str(e))
        out = obj(x.shape)
        for i in np.ndindex(*x.shape): out[i] = f(x[i], y[i])
        return self.new(out, o)
    def __add__(self, o): return self._bin(o, plus)
    def __radd__(self, o): return self._bin(o, plus, True)
    def __sub__(self, o): return self._bin(o, operator.sub)
    def __rsub__(self, o): return self._bin(o, operator.sub, True)
    def __mul__(self, o): return self._bin(o, times)
    def __rmul__(self, o): return self._bin(o, times, True)
    def __truediv__(self, o): return self._bin(o, operator.truediv)
    def __rtruediv__(self, o): return self._bin(o, operator.truediv, True)
    add, sub, mul, div, true_divide, multiply, subtract = __add__, __sub__, __mul__, __truediv__, __truediv__, __mul__, __sub__
    def map(self, f):
        out = obj(self.a.shape)
        for i in np.ndindex(*self.a.shape): out[i] = f(self.a[i])
        return self.new(out)
    def __neg__(self): return self.map(operator.neg)
    neg = negative = __neg__
    def __pos__(self): return self
    def __pow__(self, p):
        if type(p) is Arr and p.a.shape == (): p = p.a[()]
        if z3.is_rational_value(p) and p.denominator_as_long() == 1: p = p.numerator_as_long()
        if isinstance(p, float) and p == int(p): p = int(p)
        if isinstance(p, (int, float)) and p == 0.5: return self.sqrt()
        if isinstance(p, int):
            if p < 0: return 1 / (self ** -p)
            def f(e):
                r = real(1)
                for _ in range(p): r = times(r, e)
                return r
            return self.map(f)
        q = lift(p)
        return self._bin(q, lambda b, e: V.RPOW(b, e))
    pow = __pow__
    def __rpow__(self, b): return lift(b)._bin(self, lambda x, e: V.RPOW(x, e))
    def square(self): return self ** 2
    def sqrt(self): return self.map(lambda e: V.esqrt(e) if core.CUR is not None and core.CUR.__class__.__name__ != 'x' else V.SQRT(e))
    def rsqrt(self): return 1 / self.sqrt()
    def reciprocal(self): return 1 / self
    def sin(self): return self.map(lambda e: fn('sin', e))
    def cos(self): return self.map(lambda e: fn('cos', e))
    def exp(self): return self.map(lambda e: fn('exp', e))
    def log(self): return self.map(lambda e: fn('log', e))
    def tanh(self): return self.map(lambda e: fn('tanh', e))
    def sigmoid(self): return self.map(lambda e: fn('sigmoid', e))
    def abs(self): return self.map(lambda e: z3.If(e >= 0, e, -e))
    absolute = __abs__ = abs
    def _matmul(self, o):
        o = lift(o)
        x, y = self.a, o.a
        if x.ndim == 0 or y.ndim == 0: raise V.VRuntimeError('both arguments to matmul need to be at least 1D')
        x2, y2 = (x[None] if x.ndim == 1 else x), (y[:, None] if y.ndim == 1 else y)
        if x2.shape[-1] != y2.shape[-2]: raise V.VRuntimeError(f'mat1 and mat2 shapes cannot be multiplied ({x.shape} and {y.shape})')
        bs = np.broadcast_shapes(x2.shape[:-2], y2.shape[:-2])
        x2, y2 = np.broadcast_to(x2, bs + x2.shape[-2:]), np.broadcast_to(y2, bs + y2.shape[-2:])
        out = obj(bs + (x2.shape[-2], y2.shape[-1]))
        for i in np.ndindex(*out.shape):
            r = real(0)
            for k in range(x2.shape[-1]): r = plus(r, times(x2[i[:-1] + (k,)], y2[i[:-2] + (k, i[-1])]))
            out[i] = r
        if y.ndim == 1: out = out[..., 0]
        if x.ndim == 1: out = out[..., 0, :] if y.ndim > 1 else out[..., 0]
        return self.new(out, o)
    __matmul__ = matmul = mm = bmm = dot = mv = _matmul
    def __rmatmul__(self, o): return lift(o)._matmul(self)

    # ---- in place
    def _write(self, idx, v):
        r = self.root
        if r.tag == 'input':
            S().fail("inputs are left unmodified", "assignment into a caller's tensor", kind='frame')
            raise core.PathEnd()
        if core.CUR is not None:
            for l in S().loop_stack:
                if r.serial < l.birth: l.modified(self)
        v = lift(v)
        tgt = self.a[idx]
        if isinstance(tgt, np.ndarray): self.a[idx] = np.broadcast_to(v.a, tgt.shape).copy()
        else: self.a[idx] = v.a.reshape(())[()] if v.a.size == 1 else self._bad()
        if v.rg and torch.is_grad_enabled(): self.rg = r.rg = True
    def _bad(self): raise V.VRuntimeError('shape mismatch in assignment')
    def __setitem__(self, i, v): self._write(self._idx(i), v)
    def copy_(self, o): self._write(Ellipsis, o); return self
    def _ip(self, new):
        if new.a.shape != self.a.shape: raise V.VRuntimeError('output shape of an in-place operation')
        self._write(Ellipsis, new)
        return self
    def __iadd__(self, o): return self._ip(self + o)
    def __isub__(self, o): return self._ip(self - o)
    def __imul__(self, o): return self._ip(self * o)
    def __itruediv__(self, o): return self._ip(self / o)
    def add_(self, o, alpha=1): return self._ip(self + (o if alpha == 1 else o * alpha))
    def sub_(self, o, alpha=1): return self._ip(self - (o if alpha == 1 else o * alpha))
    mul_, div_ = __imul__, __itruediv__
    def zero_(self): return self._ip(self * 0)
    def fill_(self, v): return self._ip(self * 0 + v)
    def neg_(self): return self._ip(-self)

    # ---- comparisons (entrywise booleans, for scalars only)
    def _cmp(self, o, f):
        o = lift(o)
        if self.a.size == 1 and o.a.size == 1: return SBool(f(self.a.reshape(())[()], o.a.reshape(())[()]))
        x, y = np.broadcast_arrays(self.a, o.a)
        out = obj(x.shape)
        for i in np.ndindex(*x.shape): out[i] = f(x[i], y[i])
        return Mask(out)
    def __lt__(self, o): return self._cmp(o, operator.lt)
    def __le__(self, o): return self._cmp(o, operator.le)
    def __gt__(self, o): return self._cmp(o, operator.gt)
    def __ge__(self, o): return self._cmp(o, operator.ge)
    def __eq__(self, o):
        if o is None or isinstance(o, str): return False
        return self._cmp(o, operator.eq)
    def __ne__(self, o):
        if o is None or isinstance(o, str): return True
        return self._cmp(o, operator.ne)
    def __hash__(self): return id(self)
    def __bool__(self):
        if self.a.size != 1: raise V.VRuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        return bool(SBool(self.a.reshape(())[()] != 0))

    # ---- structure
    @property
    def __class__(self): return torch.nn.Parameter if getattr(self, 'param', False) else torch.Tensor
    @property
    def shape(self): return torch.Size(self.a.shape)
    @property
    def ndim(self): return self.a.ndim
    @property
    def dtype(self): return torch.int64 if self.isint else torch.float64
    @property
    def device(self): return torch.device('cpu')
    @property
    def requires_grad(self): return self.rg
    @requires_grad.setter
    def requires_grad(self, v): self.requires_grad_(v)
    @property
    def is_leaf(self): return all(is_const(e) for e in self.a.flat)
    @property
    def grad_fn(self): return None
    @property
    def is_cuda(self): return False
    @property
    def data(self): return self.view_(self.a).nograd()
    @property
    def T(self): return self.view_(self.a.T)
    @property
    def mT(self): return self.transpose(-1, -2)
    def nograd(self): self.rg = False; return self
    def size(self, d=None): return self.shape if d is None else self.a.shape[d]
    def dim(self): return self.a.ndim
    ndimension = dim
    def numel(self): return self.a.size
    nelement = numel
    def is_floating_point(self): return not self.isint
    def to(self, *a, **k): return self
    float = double = contiguous = cpu = cuda = type_as = resolve_conj = half = type = to
    def clone(self, *a, **k): return self.new(self.a.copy())
    def detach(self):
        "the same values, cut from the graph"
        if not self.rg: return self.view_(self.a)
        out = obj(self.a.shape)
        for i in np.ndindex(*self.a.shape): out[i] = cut(self.a[i])
        return Arr(out)
    def requires_grad_(self, flag=True):
        if flag and not self.rg:
            for i in np.ndindex(*self.a.shape):
                if not is_const(self.a[i]) or sum(1 for e in self.a.flat if e.eq(self.a[i])) > 1: self.a[i] = cut(self.a[i])
        self.rg = flag
        return self
    def retain_grad(self): pass
    def _shape(self, s):
        s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)) else s
        return tuple(int(d) for d in s)
    def reshape(self, *s):
        try: return self.view_(self.a.reshape(self._shape(s)))
        except ValueError as e: raise V.VRuntimeError(str(e))
    view = reshape
    def view_as(self, o): return self.reshape(tuple(o.shape))
    reshape_as = view_as
    def flatten(self, start_dim=0, end_dim=-1):
        sh = self.a.shape
        if not sh: return self.reshape(1)
        e = end_dim % len(sh); st = start_dim % len(sh)
        n = 1
        for d in sh[st:e + 1]: n *= d
        return self.view_(self.a.reshape(sh[:st] + (n,) + sh[e + 1:]))
    ravel = flatten
    def unsqueeze(self, d): return self.view_(np.expand_dims(self.a, d))
    def squeeze(self, d=None):
        if d is None: return self.view_(self.a.squeeze())
        return self.view_(self.a.squeeze(d)) if self.a.shape[d] == 1 else self
    def expand(self, *s):
        s = self._shape(s)
        full = (1,) * (len(s) - self.a.ndim) + self.a.shape
        return self.view_(np.broadcast_to(self.a, tuple(f if d == -1 else d for d, f in zip(s, full))))
    def expand_as(self, o): return self.expand(*o.shape)
    def repeat(self, *s): return self.new(np.tile(self.a, self._shape(s)))
    def repeat_interleave(self, n, dim=None): return self.new(np.repeat(self.a if dim is not None else self.a.flatten(), n, axis=dim))
    def transpose(self, i, j): return self.view_(np.swapaxes(self.a, i, j))
    swapaxes = transpose
    def t(self): return self.view_(self.a.T)
    def permute(self, *d): return self.view_(np.transpose(self.a, self._shape(d)))
    def movedim(self, s, d): return self.view_(np.moveaxis(self.a, s, d))
    def flip(self, *d):
        return self.new(np.flip(self.a, self._shape(d)).copy())
    def _idx(self, i):
        one = lambda k: k.a.astype(object) if False else (self._ints(k) if type(k) in (Arr, T, SInt) else (k.tolist() if isinstance(k, torch.Tensor) else k))
        return tuple(one(k) for k in i) if isinstance(i, tuple) else one(i)
    def _ints(self, k):
        if type(k) is SInt: return operator.index(k)
        e = z3.simplify(lift(k).a[()])
        if z3.is_rational_value(e): return e.numerator_as_long()
        raise Unsupported('symbolic index into a tensor of concrete shape')
    def __getitem__(self, i):
        try: r = self.a[self._idx(i)]
        except IndexError as e: raise V.VIndexError(str(e))
        if not isinstance(r, np.ndarray):
            # a 0-d view
            i = self._idx(i)
            i = i if isinstance(i, tuple) else (i,)
            r = self.a[i + (Ellipsis,)] if Ellipsis not in [k for k in i if k is Ellipsis] else self.a[i]
            if not isinstance(r, np.ndarray):
                b = obj(()); b[()] = r; r = b
        return self.view_(r)
    def __len__(self):
        if not self.a.ndim: raise TypeError('len() of a 0-d tensor')
        return self.a.shape[0]
    def __iter__(self): return iter([self[k] for k in range(len(self))])
    def unbind(self, d=0): return tuple(self.select(d, k) for k in range(self.a.shape[d]))
    def select(self, d, k): return self.view_(np.moveaxis(self.a, d, 0)[k])
    def narrow(self, d, s, n): return self.view_(np.moveaxis(np.moveaxis(self.a, d, 0)[s:s + n], 0, d))
    def chunk(self, n, dim=0):
        m = self.a.shape[dim]
        w = -(-m // n)
        return tuple(self.narrow(dim, s, min(w, m - s)) for s in range(0, m, w))
    def split(self, w, dim=0):
        m = self.a.shape[dim]
        ws = [min(w, m - s) for s in range(0, m, w)] if isinstance(w, int) else list(w)
        st = np.cumsum([0] + ws)
        return tuple(self.narrow(dim, int(s), k) for s, k in zip(st, ws))
    def item(self):
        if self.a.size != 1: raise V.VRuntimeError('item of several elements')
        return T(self.a.reshape(())[()])
    def tolist(self): return [x.tolist() for x in self] if self.a.ndim else self.item()
    def __float__(self): raise Unsupported("conversion of a symbolic tensor to a Python float")
    def __index__(self): return self._ints(self)
    def isfinite(self): return SBool(True)
    def isnan(self): return SBool(False)

    # ---- reductions
    def _axes(self, dim):
        if dim is None: return tuple(range(self.a.ndim))
        return tuple(d % max(self.a.ndim, 1) for d in (dim if isinstance(dim, (tuple, list)) else (dim,)))
    def sum(self, dim=None, keepdim=False, axis=None, dtype=None, **k):
        ax = self._axes(dim if dim is not None else axis)
        if not self.a.ndim: return self.new(self.a.copy())
        x = np.moveaxis(self.a, ax, range(len(ax)))
        out = obj(x.shape[len(ax):])
        for i in np.ndindex(*out.shape):
            r = real(0)
            for j in np.ndindex(*x.shape[:len(ax)]): r = plus(r, x[j + i])
            out[i] = r
        if keepdim: out = out.reshape(tuple(1 if d in ax else s for d, s in enumerate(self.a.shape)))
        return self.new(out)
    def mean(self, dim=None, keepdim=False, **k):
        n = 1
        for d in self._axes(dim): n *= self.a.shape[d] if self.a.ndim else 1
        return self.sum(dim, keepdim) / n
    def norm(self, p=2, dim=None, keepdim=False, **k):
        if p not in (2, 'fro', None): raise Unsupported('norm')
        return (self * self).sum(dim, keepdim).sqrt()
    def prod(self, dim=None, keepdim=False):
        if dim is None:
            r = real(1)
            for e in self.a.flat: r = times(r, e)
            return self.new(r)
        x = np.moveaxis(self.a, dim, 0)
        out = obj(x.shape[1:])
        for i in np.ndindex(*out.shape):
            r = real(1)
            for k in range(x.shape[0]): r = times(r, x[(k,) + i])
            out[i] = r
        return self.new(np.expand_dims(out, dim) if keepdim else out)
    def cumsum(self, dim=0):
        x = np.moveaxis(self.a, dim, 0)
        out = obj(x.shape)
        for i in np.ndindex(*x.shape[1:]):
            r = real(0)
            for k in range(x.shape[0]): r = plus(r, x[(k,) + i]); out[(k,) + i] = r
        return self.new(np.moveaxis(out, 0, dim))
    def diagonal(self, offset=0, dim1=0, dim2=1): return self.view_(np.diagonal(self.a, offset, dim1, dim2))
    def trace(self): return self.diagonal().sum()
    def inverse(self):
        "by the adjugate; the matrix is assumed to be invertible"
        n = self.a.shape[-1]
        if self.a.ndim != 2 or n > 3 or self.a.shape[0] != n: raise Unsupported('inverse')
        def det(m):
            if len(m) == 1: return m[0][0]
            r = None
            for j in range(len(m)):
                t = m[0][j] * det([row[:j] + row[j + 1:] for row in m[1:]]) if len(m) > 1 else m[0][j]
                r = t if r is None else (r + t if j % 2 == 0 else r - t)
            return r
        m = [list(r) for r in self.a]
        D = det(m)
        out = obj((n, n))
        for i in range(n):
            for j in range(n):
                minor = [[m[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
                v = det(minor) if minor else real(1)
                out[i, j] = (v if (i + j) % 2 == 0 else -v) / D
        return self.new(out)
    pinverse = inv = inverse
    def new_zeros(self, *s, **k): return zeros(self._shape(s))
    def new_ones(self, *s, **k): return zeros(self._shape(s)) + 1
    def zeros_like(self, *a, **k): return zeros(self.a.shape)
    def ones_like(self, *a, **k): return zeros(self.a.shape) + 1
    def __repr__(self): return f"Arr{self.a.shape}"
    def __format__(self, s): return repr(self)
    def __getattr__(self, n):
        if n.startswith('__') or n in ('probes', 'sorted_', 'serial', 'tag', 'param', 'a', 'rg', 'root', '_is_param'): raise AttributeError(n)
        raise Unsupported(f"tensor attribute {n}")

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None): return dispatch(getattr(func, '__name__', str(func)), func, args, kwargs or {})
    @classmethod
    def __vc_dispatch__(cls, name, func, args, kwargs): return dispatch(name, func, args, kwargs)


class Mask:
    def __init__(self, a): self.a = a
    def all(self): return SBool(z3.And(*self.a.flat))
    def any(self): return SBool(z3.Or(*self.a.flat))


def cut(e):
    c = const('cut')
    DEFS[c.get_id()] = (c, e)
    return c


@contextlib.contextmanager
def fresh(on=True):
    "tensors made by the code from numbers hold symbolic entries too"
    old, tfun.FRESH_AS[0] = tfun.FRESH_AS[0], (lambda r: lift(r)) if on else None
    try: yield
    finally: tfun.FRESH_AS[0] = old


def zeros(shape):
    a = obj(tuple(shape))
    for i in np.ndindex(*a.shape): a[i] = real(0)
    return Arr(a)


TABLE = {}


def impl(*names):
    def deco(f):
        for n in names: TABLE[n] = f
        return f
    return deco


@impl('cat', 'concat', 'concatenate')
def cat(ts, dim=0, axis=None, **k):
    ts = [lift(t) for t in (list(ts))]
    try: return ts[0].new(np.concatenate([t.a for t in ts], dim if axis is None else axis), *ts[1:])
    except ValueError as e: raise V.VRuntimeError(str(e))
@impl('stack')
def stack(ts, dim=0, **k):
    ts = [lift(t) for t in ts]
    try: return ts[0].new(np.stack([t.a for t in ts], dim), *ts[1:])
    except ValueError as e: raise V.VRuntimeError(str(e))
@impl('einsum')
def einsum(eq, *ops):
    ops = [lift(o) for o in (ops[0] if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else ops)]
    ins, out = eq.replace(' ', '').split('->')
    ins = ins.split(',')
    if '...' in eq:     # the dimensions not named, aligned at the right
        pool, most = 'ABCDEFGHIJ', 0
        for k, (s, o) in enumerate(zip(ins, ops)):
            if '...' in s:
                m = o.a.ndim - len(s) + 3
                if m < 0: raise V.VRuntimeError('einsum: too few dimensions')
                ins[k], most = s.replace('...', pool[10 - m:]), max(most, m)
        out = out.replace('...', pool[10 - most:])
    size = {}
    for s, o in zip(ins, ops):
        if len(s) != o.a.ndim: raise V.VRuntimeError('einsum: number of dimensions')
        for ch, d in zip(s, o.a.shape):
            if size.setdefault(ch, d) != d:
                if ch not in 'ABCDEFGHIJ' or 1 not in (d, size[ch]): raise V.VRuntimeError('einsum: sizes differ')
                size[ch] = max(d, size[ch])
    inner = [c for c in size if c not in out]
    r = obj(tuple(size[c] for c in out))
    for i in np.ndindex(*r.shape):
        e = real(0)
        for j in np.ndindex(*[size[c] for c in inner]):
            env = {**dict(zip(out, i)), **dict(zip(inner, j))}
            p = real(1)
            for s, o in zip(ins, ops): p = times(p, o.a[tuple(env[c] if d > 1 else 0 for c, d in zip(s, o.a.shape))])
            e = plus(e, p)
        r[i] = e
    return ops[0].new(r, *ops[1:])
@impl('tensor', 'as_tensor')
def tensor(v, *a, **k):
    if type(v) is Arr: return v.new(v.a.copy())
    if isinstance(v, (list, tuple)):
        es = [tensor(x) for x in v]
        if es and es[0].a.ndim == 0: es = [e if e.a.ndim == 0 or e.a.size != 1 else e.reshape(()) for e in es]
        return Arr(np.stack([e.a for e in es])) if es else Arr(obj((0,)))
    return Arr(lift(v).a.copy())
tfun.FRESH_AS[1] = tensor
@impl('conv2d')
def conv2d(x, w, b=None, stride=1, padding=0, dilation=1, groups=1):
    x, w = lift(x), lift(w)
    pair = lambda v: (v, v) if isinstance(v, int) else tuple(v)
    if pair(dilation) != (1, 1) or groups != 1 or isinstance(padding, str): raise Unsupported('conv2d')
    (sy, sx), (py, px) = pair(stride), pair(padding)
    if x.a.ndim != 4 or x.a.shape[1] != w.a.shape[1]: raise V.VRuntimeError('expected input with other channels')
    n, c, h, wd = x.a.shape
    o, _, kh, kw = w.a.shape
    H, W = (h + 2 * py - kh) // sy + 1, (wd + 2 * px - kw) // sx + 1
    if H < 1 or W < 1: raise V.VRuntimeError("Kernel size can't be greater than actual input size")
    out = obj((n, o, H, W))
    for i in np.ndindex(*out.shape):
        r = real(0)
        for ch in range(c):
            for u in range(kh):
                for v in range(kw):
                    y, z = i[2] * sy + u - py, i[3] * sx + v - px
                    if 0 <= y < h and 0 <= z < wd: r = plus(r, times(x.a[i[0], ch, y, z], w.a[i[1], ch, u, v]))
        out[i] = r if b is None else plus(r, lift(b).a[i[1]])
    return x.new(out, w)
@impl('linear')
def linear(x, w, b=None):
    r = lift(x)._matmul(lift(w).t())
    return r if b is None else r + b
@impl('softplus')
def softplus(x, *a): return (x.exp() + 1).log()
@impl('zeros_like')
def zeros_like(x, *a, **k): return zeros(x.shape)
@impl('ones_like')
def ones_like(x, *a, **k): return zeros(x.shape) + 1
@impl('full_like')
def full_like(x, v, *a, **k): return zeros(x.shape) + v
@impl('mul', 'multiply')
def mul_(a, b): return lift(a) * b
@impl('add')
def add_(a, b, alpha=1): return lift(a) + (b if alpha == 1 else lift(b) * alpha)
@impl('sub', 'subtract')
def sub_(a, b, alpha=1): return lift(a) - (b if alpha == 1 else lift(b) * alpha)
@impl('div', 'divide', 'true_divide')
def div_(a, b): return lift(a) / b
@impl('matmul', 'mm', 'bmm', 'mv', 'dot')
def matmul_(a, b): return lift(a)._matmul(b)
@impl('addmm')
def addmm(c, a, b, beta=1, alpha=1): return lift(c) * beta + lift(a)._matmul(b) * alpha
@impl('addcmul')
def addcmul(a, b, c, value=1): return lift(a) + lift(b) * c * value
@impl('inverse', 'pinverse', 'linalg_inv', 'linalg_pinv', 'pinv', 'inv')
def inverse(a, *k, **kw): return lift(a).inverse()
@impl('linalg_solve', 'solve')
def solve(a, b, *k, **kw): return lift(a).inverse()._matmul(b)
@impl('outer')
def outer(a, b): return lift(a)[:, None] * lift(b)[None]
@impl('pow')
def pow_(a, b): return lift(a) ** b
@impl('where')
def where(c, a, b):
    if isinstance(c, Mask):
        a, b = lift(a), lift(b)
        m, x, y = np.broadcast_arrays(c.a, a.a, b.a)
        out = obj(m.shape)
        for i in np.ndindex(*m.shape): out[i] = z3.If(m[i], x[i], y[i])
        return a.new(out, b)
    return lift(a) if bool(c) else lift(b)
@impl('atleast_1d')
def atleast(a): return a if a.ndim else a.reshape(1)
@impl('diag_embed')
def diag_embed(a, *k):
    n = a.shape[-1]
    out = zeros(tuple(a.shape) + (n,))
    for i in range(n): out.a[..., i, i] = a.a[..., i]
    return out
@impl('block_diag')
def _bd(*ts): raise Unsupported('block_diag')
@impl('diag')
def diag(a, k=0): return diag_embed(a) if a.ndim == 1 else a.diagonal()
@impl('broadcast_to')
def broadcast_to(a, s): return a.expand(*s)
@impl('numel')
def numel(a): return a.numel()
@impl('is_tensor')
def is_tensor(a): return True


def contains(e, cs):
    ids = {c.get_id() for c in cs}
    return any(a.get_id() in ids for a in atoms(e))


@impl('grad')
def grad(outputs, inputs, grad_outputs=None, retain_graph=None, create_graph=False, only_inputs=True, allow_unused=None, is_grads_batched=False, materialize_grads=False):
    "reverse-mode products with respect to the entries of leaves"
    single = type(inputs) is Arr
    outs = [outputs] if type(outputs) is Arr else list(outputs)
    ins = [inputs] if single else list(inputs)
    gs = [None] * len(outs) if grad_outputs is None else [grad_outputs] if type(grad_outputs) is Arr or isinstance(grad_outputs, torch.Tensor) else list(grad_outputs)
    for x in ins:
        if not x.rg: raise V.VRuntimeError("One of the differentiated Tensors does not require grad")
        if not all(is_const(e) for e in x.a.flat): raise Unsupported('gradient with respect to a computed tensor')
    terms, extra = [], []
    for o, g in zip(outs, gs):
        if not o.rg: raise V.VRuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if g is None:
            if o.a.size != 1: raise V.VRuntimeError("grad can be implicitly created only for scalar outputs")
            g = lift(1.).expand(*o.a.shape)
        g = lift(g)
        extra.append(g)
        if g.a.shape != o.a.shape: raise V.VRuntimeError(f"Mismatch in shape: grad_output has a shape of {g.a.shape} and output has a shape of {o.a.shape}")
        terms += [(e, v) for e, v in zip(o.a.flat, g.a.flat)]
    res = []
    for x in ins:
        r, used = obj(x.a.shape), any(contains(e, list(x.a.flat)) for e, _ in terms)
        if not used and not materialize_grads:
            if allow_unused is not True: raise V.VRuntimeError("One of the differentiated Tensors appears to not have been used in the graph")
            res.append(None)
            continue
        for i in np.ndindex(*x.a.shape):
            ds = [(diff(e, x.a[i]), v) for e, v in terms]
            r[i] = add_all([times(d, v) for d, v in ds if d is not None])
            if r[i] is None: r[i] = real(0)
        out = Arr(r, rg=True)
        if create_graph: res.append(out if any(o.rg for o in outs) else Arr(r))
        else: res.append(out.detach())
    return tuple(res)


def dispatch(name, func, args, kwargs):
    f = TABLE.get(name)
    if f is not None: return f(*args, **kwargs)
    if name in ('__get__', '__set__'): return _property(func, args)
    own = name if hasattr(Arr, name) and not name.startswith('_') else None
    r = {'__radd__': '__radd__', 'rsub': '__rsub__'}.get(name, name)
    if args and type(args[0]) is Arr and hasattr(Arr, r): return getattr(args[0], r)(*args[1:], **kwargs)
    if args and type(args[0]) is not Arr:
        m = {'__add__': '__radd__', '__mul__': '__rmul__', '__sub__': '__rsub__', '__truediv__': '__rtruediv__', '__pow__': '__rpow__', '__matmul__': '__rmatmul__', 'lt': '__gt__', 'gt': '__lt__',
             'le': '__ge__', 'ge': '__le__', 'eq': '__eq__', 'ne': '__ne__', '__lt__': '__gt__', '__gt__': '__lt__', '__le__': '__ge__', '__ge__': '__le__', '__eq__': '__eq__', '__ne__': '__ne__'}.get(name)
        if m and len(args) > 1: return getattr(lift(args[1]), m)(args[0])
        if hasattr(Arr, name) and isinstance(args[0], (torch.Tensor, T)): return getattr(lift(args[0]), name)(*args[1:], **kwargs)
    raise Unsupported(f"torch function {name}")


def _property(func, args): raise Unsupported(f"torch attribute {func}")


tfun.EXTRA_SYM.append(Arr)


# ---- records of the loop machinery
def leaves(v): return list(v.a.flat)
def rebuild(v, es):
    out = obj(v.a.shape)
    for i in np.ndindex(*v.a.shape): out[i] = next(es)
    return Arr(out, v.rg)


def same(a, b):
    "entrywise identity of rational functions, detached constants resolved"
    a, b = lift(a), lift(b)
    if a.a.shape != b.a.shape: return False
    return all(poly.equal(resolve(x), resolve(y)) for x, y in zip(a.a.flat, b.a.flat))
