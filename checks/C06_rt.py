from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.utils import adapt_step, init_step, hairer_norm


def factor(c):
    rng = c.rng
    dt = dtype(rng)
    order = rng.choice([5, 5, 3, 2])
    lo, hi, safety = rng.uniform(0.05, 0.6), rng.uniform(1.5, 12), rng.uniform(0.5, 1.)
    if rng.random() < 0.5: lo, hi, safety = 0.2, 10., 0.9
    r = rng.choice([0., 1., 10 ** rng.uniform(-12, 6), rng.uniform(0.3, 3), rng.uniform(0.98, 1.02), (safety / rng.uniform(0.2, 2)) ** order])
    d = 10 ** rng.uniform(-8, 2)
    sh = rng.choice([(), (1,)])
    c.note(dtype=dt, order=order, factors=(lo, hi, safety), ratio=r, dt=d)
    mk = lambda v, s=(): torch.full(s, v, dtype=dt)
    before = mk(d, sh)
    rt = mk(r)
    got = adapt_step(before, rt, mk(safety), mk(lo), mk(hi), order)
    r = float(rt)
    raw = hi if r == 0 else safety / r ** (1 / order)
    want = min(hi, max(raw, 1. if r < 1 else lo))
    close(got.reshape(-1)[0] / before.reshape(-1)[0], torch.tensor(want, dtype=dt), 1e-9 if dt == F64 else 1e-4, 'factor')
    close(before, mk(d, sh), 0., 'the step size given is modified')


def first(c):
    rng = c.rng
    dt = dtype(rng)
    shp = shape(rng)
    scale = rng.choice([1., 1., 100., 1e-3, 1e-7, 0.])
    x0 = tensor(rng, shp, dt, scale)
    kind = rng.choice(['field', 'field', 'zero', 'slow', 'fast', 'constant'])
    g = plain(rng, shp[-1], dt)
    k = {'field': 1., 'zero': 0., 'slow': 1e-9, 'fast': 50., 'constant': 1.}[kind]
    log = []
    def f(t, x):
        log.append((float(t), x.clone()))
        return k * (g(t, x) if kind != 'constant' else torch.ones_like(x))
    t0 = torch.tensor(rng.uniform(-2, 2), dtype=dt)
    if rng.random() < 0.3: t0 = t0.reshape(1)
    atol, rtol, order = 10 ** rng.uniform(-8, -1), 10 ** rng.uniform(-8, -1), 5
    f0 = f(t0, x0)
    log.clear()
    c.note(dtype=dt, shape=shp, scale=scale, kind=kind, atol=atol, rtol=rtol)
    got = init_step(f, f0, x0, t0, order, atol, rtol)
    sc = atol + x0.abs() * rtol
    n = lambda v: float((v.to(F64) ** 2).mean().sqrt())
    d0, d1 = n(x0 / sc), n(f0 / sc)
    if 0.99e-5 < d0 < 1.01e-5 or 0.99e-5 < d1 < 1.01e-5: return
    h0 = 1e-6 if d0 < 1e-5 or d1 < 1e-5 else 0.01 * d0 / d1
    xn = x0 + h0 * f0
    f1 = k * (g(t0 + h0, xn) if kind != 'constant' else torch.ones_like(xn))
    d2 = n((f1 - f0) / sc) / h0
    h1 = max(1e-6, h0 * 1e-3) if d1 <= 1e-15 and d2 <= 1e-15 else (0.01 / max(d1, d2)) ** (1 / (order + 1))
    want = min(100 * h0, h1)
    c.require(float(got) > 0, f"initial step {float(got)}")
    c.require(len(log) == 1, f"{len(log)} evaluations")
    tol_ = 1e-6 if dt == F64 else 5e-2   # differences of field values over tiny steps lose digits in single precision
    if dt == F64: c.require(abs(float(got) - want) <= tol_ * want + (1e-3 * want if d2 * h0 < 1e-4 * d1 else 0), f"initial step {float(got)} instead of {want}")


def steps(c):
    "consecutive attempts of an integration follow the controller"
    rng, dt, shp, rev, ts, x0, f, atol, rtol, name = adaptive_case(c)
    interp = name == 'dopri5' and rng.random() < 0.6
    if not interp: ts = ts[[0, -1]] if rng.random() < 0.6 else ts
    c.note(interp=interp, times=ts.tolist())
    s = Spy(str_solver(name, dt))
    if rng.random() < 0.3:      # a solver with factors of its own
        s.inner.safety, s.inner.min_factor, s.inner.max_factor = [torch.tensor([v], dtype=dt) for v in (rng.uniform(0.6, 1.), rng.uniform(0.1, 0.7), rng.uniform(1.2, 5.))]
    odeint(f, x0, ts, s, atol=atol, rtol=rtol, interpolator='4th' if interp else None)
    sign = -1 if rev else 1
    walk(c, s.log, x0, ts, atol, rtol, f, None, sign)
    end = sign * float(ts[-1])
    stops = [sign * float(t) for t in ts] if not interp else [end]
    lo, hi, sf = float(s.min_factor), float(s.max_factor), float(s.safety)
    eps = 1e-6 if dt == F64 else 1e-3
    # the initial step
    g = (lambda t, x: -f(-t, x)) if rev else f
    t0 = sign * ts[0]
    d = float(init_step(g, g(t0, x0), x0, t0, s.order, atol, rtol))
    held = None
    for i, l in enumerate(s.log):
        t, dd = float(l['t'].reshape(-1)[0]), float(l['dt'].reshape(-1)[0])
        stop = min(v for v in stops if v > t + 1e-12 * (1 + abs(t)) * (1 if dt == F64 else 1e6))
        full = min(d, end - t)
        want = min(full, stop - t)
        c.require(abs(dd - want) <= eps * (1 + want) * (1 if dt == F64 else 1) + 1e-9 and abs(dd - want) <= 0.02 * want + (1e-6 if dt == F32 else 1e-11), f"attempt {i} has size {dd} instead of {want}")
        r = l['ratio']
        base = dd
        if want < full and r <= 1 and full > dd * (1 + 1e-7): base = full - dd     # the rest of the step that was cut at a requested time
        raw = hi if r == 0 else sf / r ** (1 / s.order)
        if abs(r - 1) < 1e-5: return
        d = base * min(hi, max(raw, 1. if r < 1 else lo))


def batch(c):
    "replicating the state leaves the steps alone"
    rng = c.rng
    dim = rng.choice([1, 2, 3])
    x0 = tensor(rng, (1, dim))
    f = plain(rng, dim, stiff=2.)
    ts = grid(rng)
    name = rng.choice(['dopri5', 'tsit5'])
    n = rng.choice([2, 5, 64])
    c.note(dim=dim, n=n, times=ts.tolist(), solver=name)
    a, b = Spy(str_solver(name)), Spy(str_solver(name))
    odeint(f, x0, ts, a, atol=1e-4, rtol=1e-4)
    odeint(f, x0.repeat(n, 1), ts, b, atol=1e-4, rtol=1e-4)
    c.require(len(a.log) == len(b.log), f"{len(b.log)} steps for {n} copies instead of {len(a.log)}")
    close(torch.stack([l['dt'].reshape(()) for l in b.log]), torch.stack([l['dt'].reshape(()) for l in a.log]), 1e-6, 'step sizes')
    v = tensor(rng, shape(rng))
    close(hairer_norm(v), (v ** 2).mean().sqrt(), 1e-12, 'norm')


SCENARIOS = {'factor': Scen(factor, 300, 5000), 'first': Scen(first, 150, 2500), 'steps': Scen(steps, 100, 1500), 'batch': Scen(batch, 20, 200)}
