from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_symplectic

FIXED = ['euler', 'midpoint', 'rk4', 'rk-4']


def mirrored(c):
    rng = c.rng
    dt = dtype(rng)
    ts = grid(rng, dt=dt, reverse=True)
    shp = shape(rng)
    x0 = tensor(rng, shp, dt)
    name = rng.choice(FIXED + ['dopri5', 'tsit5', 'dopri5'])
    fixed = name in FIXED
    f = Field(rng, shp[-1], dt, stiff=rng.choice([0.5, 2.]))
    for p in f.parameters(): p.requires_grad_(False)
    kw, want = {}, ts
    if not fixed:
        kw = dict(atol=10 ** rng.uniform(-5, -2), rtol=10 ** rng.uniform(-5, -2))
        if name == 'dopri5' and rng.random() < 0.4: kw['interpolator'] = '4th'
    sub = fixed and rng.random() < 0.5
    kw2 = dict(kw)
    if sub:
        idx = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts))))
        want = ts[idx]
        perm = list(range(len(idx)))
        rng.shuffle(perm)
        kw['save_at'] = want[perm] if rng.random() < 0.6 else [float(t) for t in want[perm]]
        kw2['save_at'] = -want
    listed = rng.random() < 0.2
    c.note(solver=name, dtype=dt, shape=shp, times=ts.tolist(), listed=listed, **kw)
    tin = ts if not listed else [t.reshape(1) for t in ts]
    te, sol = odeint(f, x0, tin, name, **kw)
    calls, f.calls = f.calls, []
    same_times(te, want)
    tm, ref = odeint(lambda t, x: -f(-t, x), x0, -ts, name, **kw2)
    close(sol, ref, 1e-6 if dt == F64 else 1e-4, 'solution against the mirrored problem')
    lo, hi = float(ts[-1]), float(ts[0])
    eps = 1e-9 * (1 + abs(lo) + abs(hi)) if dt == F64 else 1e-4
    out = [t for t in calls if not lo - eps <= t <= hi + eps]
    c.require(len(out) <= (0 if fixed else 1), f"the field is evaluated at {out[:4]}, outside of [{lo}, {hi}]")
    c.require(all(t <= hi + eps for t in out), f"probe at {out}, before the start")


def roundtrip(c):
    "there and back again"
    rng = c.rng
    ts = grid(rng, n=rng.choice([60, 100]), span=1., uniform=True)
    shp = shape(rng)
    x0 = tensor(rng, shp)
    name = rng.choice(['rk4', 'dopri5', 'tsit5'])
    f = plain(rng, shp[-1])
    kw = dict(atol=1e-7, rtol=1e-7) if name != 'rk4' else {}
    c.note(solver=name, shape=shp, t0=float(ts[0]))
    te, sol = odeint(f, x0, ts, name, **kw)
    tb, back = odeint(f, sol[-1], ts.flip(0), name, **kw)
    same_times(tb, ts.flip(0))
    close(back, sol.flip(0), 2e-5, 'backward solution against the forward one')


def exact(c):
    "linear time-dependent equation with known solution"
    rng = c.rng
    dt = dtype(rng)
    n = rng.choice([2, 5, 30])
    ts = grid(rng, n=n, dt=dt, reverse=True, span=rng.choice([0.5, 1.]))
    x0 = tensor(rng, shape(rng), dt)
    a = rng.uniform(-1, 1)
    c.note(times=ts.tolist(), a=a, dtype=dt)
    te, sol = odeint(lambda t, x: a * t * x, x0, ts, rng.choice(['dopri5', 'tsit5']), atol=1e-6, rtol=1e-6)
    same_times(te, ts)
    ref = torch.stack([x0.to(F64) * math.exp(a * (float(t) ** 2 - float(ts[0]) ** 2) / 2) for t in ts])
    close(sol, ref.to(dt), 2e-4 if dt == F32 else 2e-5, 'solution')


def symplectic(c):
    rng = c.rng
    n = rng.choice([1, 2, 3])
    x0 = tensor(rng, (4, 2 * n))
    ts = grid(rng, n=rng.choice([3, 11, 21]), reverse=True, span=rng.choice([0.2, 1.]))
    g = plain(rng, 2 * n)
    name = rng.choice(['euler', 'rk4', 'dopri5', 'tsit5'])
    adaptive = name in ('dopri5', 'tsit5')
    class V:
        order = 2 if adaptive else 1
        def __call__(self, t, x): return g(t, x)
    c.note(times=ts.tolist(), n=n, solver=name)
    kw = dict(save_at=ts[::2].flip(0)) if rng.random() < 0.5 and not adaptive else {}
    if adaptive: kw = dict(atol=1e-5, rtol=1e-5)
    te, sol = odeint_symplectic(V(), x0, ts, name, **kw)
    te2, sol2 = odeint(g, x0, ts, name, **kw)
    same_times(te, ts[::2] if 'save_at' in kw else ts)
    close(sol, sol2, None, 'symplectic entry point against odeint')


SCENARIOS = {'mirrored': Scen(mirrored, 150, 2500), 'roundtrip': Scen(roundtrip, 12, 150), 'exact': Scen(exact, 40, 500), 'symplectic': Scen(symplectic, 30, 400)}
