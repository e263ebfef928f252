"""Generators and comparisons for the concrete side of the checks (untransformed code)."""
import math, random
import torch
import torch.nn as nn
from .worker import Violation, Scen, Case, KnownSkip

F64, F32 = torch.float64, torch.float32


def shape(rng, lo=1, hi=3, size=4):
    return tuple(rng.randint(1, size) for _ in range(rng.randint(lo, hi)))


def dtype(rng, p32=0.25): return F32 if rng.random() < p32 else F64


def tensor(rng, shp, dt=F64, scale=1.0):
    g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
    return (torch.randn(*shp, generator=g, dtype=F64) * scale).to(dt)


def grid(rng, n=None, dt=F64, span=None, reverse=False, uniform=None):
    n = n or rng.choice([2, 2, 3, 4, 5, 7, 10, 13])
    span = span or rng.choice([0.05, 0.5, 1.0, 2.0, 5.0])
    t0 = rng.choice([0., 0., -1.3, 0.7, 2.5, -span / 2])
    if uniform is None: uniform = rng.random() < 0.4
    if uniform: t = torch.linspace(t0, t0 + span, n, dtype=F64)
    else:
        w = torch.tensor([rng.uniform(0.05, 1.) for _ in range(n - 1)], dtype=F64)
        t = t0 + span * torch.cat([torch.zeros(1, dtype=F64), torch.cumsum(w, 0)]) / w.sum()
    if reverse: t = t.flip(0)
    return t.to(dt)


class Field(nn.Module):
    "smooth, bounded, time-dependent, coupled over the last dimension; logs the times it is evaluated at"
    def __init__(self, rng, dim, dt=F64, stiff=1.0, time=True):
        super().__init__()
        self.A = nn.Parameter(tensor(rng, (dim, dim), dt, stiff / math.sqrt(dim)))
        self.b = nn.Parameter(tensor(rng, (dim,), dt, 0.5))
        self.w = rng.uniform(0.5, 3.) if time else 0.
        self.calls = []

    def forward(self, t, x, args={}):
        self.calls.append(float(torch.as_tensor(t).reshape(-1)[0]))
        return torch.sin(x @ self.A + self.b) - 0.3 * x + torch.cos(self.w * torch.as_tensor(t, dtype=x.dtype)) * 0.7


def plain(rng, dim, dt=F64, **k):
    f = Field(rng, dim, dt, **k)
    for p in f.parameters(): p.requires_grad_(False)
    return lambda t, x: f(t, x)


def tol(dt, scale=1.0): return (1e-9 if dt == F64 else 3e-4) * scale


def close(a, b, t=None, what='values differ'):
    if tuple(a.shape) != tuple(b.shape): raise Violation(f"{what}: shape {tuple(a.shape)} instead of {tuple(b.shape)}")
    t = tol(a.dtype if a.dtype.is_floating_point else F64) if t is None else t
    if a.numel() == 0: return
    a, b = a.detach().to(F64), b.detach().to(F64)
    if not torch.isfinite(a).all() and torch.isfinite(b).all(): raise Violation(f"{what}: not finite")
    d = (a - b).abs().max().item()
    if not d <= t * (1 + b.abs().max().item()): raise Violation(f"{what}: largest difference {d:.3g} (allowed {t:.1g} relative); got {a.flatten()[:4].tolist()}, expected {b.flatten()[:4].tolist()}")


def rk_step(c, A, b, f, t, x, dt):
    ks = []
    for ci, row in zip(c, A):
        xi = x
        for a, k in zip(row, ks):
            if a: xi = xi + dt * a * k
        ks.append(f(t + ci * dt, xi))
    return x + dt * sum(bi * k for bi, k in zip(b, ks) if bi), ks


TABLEAUS = {
    'euler': ([0.], [[]], [1.]),
    'midpoint': ([0., .5], [[], [.5]], [0., 1.]),
    'rk4': ([0., .5, .5, 1.], [[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
    'rk-4': ([0., .5, .5, 1.], [[], [.5], [0., .5], [0., 0., 1.]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}


def ref_fixed(f, x, ts, name):
    out = [x]
    for a, b in zip(ts[:-1], ts[1:]):
        out.append(rk_step(*TABLEAUS[name], f, a, out[-1], b - a)[0])
    return torch.stack(out)


def same_times(te, ts, what="returned times"):
    if tuple(te.shape) != tuple(ts.shape): raise Violation(f"{what}: {tuple(te.shape)} times instead of {tuple(ts.shape)}")
    close(te, ts, 1e-12 if te.dtype == F64 and ts.dtype == F64 else 1e-6, what)


def str_solver(name, dt=F64):
    from torchdyn.numerics.solvers.ode import str_to_solver
    return str_to_solver(name, dt)


class Spy:
    "an adaptive solver that records its steps"
    def __init__(self, inner): self.inner, self.log = inner, []
    stepping_class = 'adaptive'
    def __getattr__(self, n): return getattr(self.inner, n)
    def sync_device_dtype(self, x, t): return self.inner.sync_device_dtype(x, t)
    def step(self, f, x, t, dt, k1=None, args=None):
        out = self.inner.step(f, x, t, dt, k1=k1, args=args)
        self.log.append(dict(t=t.clone(), x=x.clone(), dt=dt.clone(), k1=None if k1 is None else k1.clone(), args=args, f=f, out=tuple(o.clone() if isinstance(o, torch.Tensor) else o for o in out)))
        return out


def rms(x): return x.abs().pow(2).mean().sqrt()


def error_ratio(l, atol, rtol, d=None):
    x, xn, e = l['x'][:d], l['out'][1][:d], l['out'][2][:d]
    return float(rms(e / (atol + rtol * torch.max(x.abs(), xn.abs()))))


def walk(c, log, x0, ts, atol, rtol, f, d=None, sign=1, eps=None):
    """checks a log of adaptive steps against the rules; returns the accepted steps.  Ratios within rounding of one are left alone."""
    eps = eps or (1e-9 if x0.dtype == F64 else 2e-4)
    t, x, acc = sign * float(ts[0]), x0, []
    end = sign * float(ts[-1])
    for i, l in enumerate(log):
        lt, ld = float(l['t'].reshape(-1)[0]), float(l['dt'].reshape(-1)[0])
        c.require(abs(lt - t) <= eps * (1 + abs(t)), f"attempt {i} starts at time {lt} instead of {t}")
        close(l['x'], x, eps, f"attempt {i} starts from another state")
        c.require(l['k1'] is not None, f"attempt {i} is not given its first stage")
        close(l['k1'], sign * f(torch.as_tensor(sign * lt, dtype=x.dtype), x), max(eps, 1e-6), f"attempt {i}: first stage")
        c.require(ld > 0, f"attempt {i} has size {ld}")
        c.require(lt + ld <= end + eps * (1 + abs(end)), f"attempt {i} goes to {lt + ld}, past the final time {end}")
        r = error_ratio(l, atol, rtol, d)
        l['ratio'] = r
        nt = float(log[i + 1]['t'].reshape(-1)[0]) if i + 1 < len(log) else lt + ld
        moved = nt > lt + 0.5 * ld if i + 1 < len(log) else True
        if abs(r - 1) > 1e-5: c.require(moved == (r <= 1), f"attempt {i} with error ratio {r} was {'accepted' if moved else 'rejected'}")
        if moved:
            acc.append((lt, lt + ld, l))
            t, x = lt + ld, l['out'][1]
    c.require(abs(t - end) <= eps * (1 + abs(end)), f"the accepted steps end at {t} instead of {end}")
    return acc


def adaptive_case(c, reverse=None, p32=0.2):
    rng = c.rng
    dt = dtype(rng, p32)
    shp = shape(rng)
    rev = rng.random() < 0.4 if reverse is None else reverse
    ts = grid(rng, dt=dt, reverse=rev)
    x0 = tensor(rng, shp, dt)
    f = plain(rng, shp[-1], dt, stiff=rng.choice([0.5, 2., 5.]))
    lo = -6 if dt == F64 else -4
    atol, rtol = 10 ** rng.uniform(lo, -1), 10 ** rng.uniform(lo, -1)
    name = rng.choice(['dopri5', 'tsit5'])
    c.note(solver=name, dtype=dt, shape=shp, times=ts.tolist(), atol=atol, rtol=rtol)
    return rng, dt, shp, rev, ts, x0, f, atol, rtol, name
