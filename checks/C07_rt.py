from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.numerics.utils import dense_output
from checks.C04_rt import taylor

BMID = [6025192743 / 30085553152 / 2, 0, 51252292925 / 65400821598 / 2, -2691868925 / 45128329728 / 2, 187940372067 / 1594534317056 / 2, -1776094331 / 19743644256 / 2, 11237099 / 235043384 / 2]


def hermite4(th, x0, x1, xm, f0, f1, h):
    "quartic with values x0, xm, x1 at 0, 1/2, 1 and slopes h f0, h f1 at the ends"
    a = x0 + th * h * f0
    p = x0 * (1 - 3 * th ** 2 + 2 * th ** 3) + x1 * (3 * th ** 2 - 2 * th ** 3) + h * f0 * (th - 2 * th ** 2 + th ** 3) + h * f1 * (th ** 3 - th ** 2)
    pm = (x0 + x1) / 2 + h * (f0 - f1) / 8
    return p + (xm - pm) * 16 * th ** 2 * (1 - th) ** 2


def dense(c):
    rng, dt, shp, rev, _, x0, f, atol, rtol, _ = adaptive_case(c)
    ts = grid(rng, n=rng.choice([2, 3, 8, 30, 80]), dt=dt, reverse=rev)
    how = rng.choice(['name', 'object'])
    c.note(times=ts.tolist() if len(ts) < 10 else [float(ts[0]), float(ts[-1]), len(ts)], solver='dopri5', how=how)
    s, s2 = Spy(str_solver('dopri5', dt)), Spy(str_solver('dopri5', dt))
    ip = '4th' if how == 'name' else str_to_interp('4th', dt)
    te, sol = odeint(f, x0, ts, s, atol=atol, rtol=rtol, interpolator=ip)
    sign = -1 if rev else 1
    same_times(te, ts)
    c.require(len(sol) == len(ts), 'one state per time')
    acc = walk(c, s.log, x0, ts, atol, rtol, f, None, sign)
    odeint(f, x0, ts[[0, -1]], s2, atol=atol, rtol=rtol, interpolator='4th')
    c.require(len(s.log) == len(s2.log), f"{len(s.log)} attempts, {len(s2.log)} without the requested times")
    close(torch.stack([l['dt'].reshape(()) for l in s.log]), torch.stack([l['dt'].reshape(()) for l in s2.log]), 0., 'steps with and without requested times')
    eps = 1e-6 if dt == F64 else 2e-3
    for i, t in enumerate(ts):
        u = sign * float(t)
        if i == 0: close(sol[0], x0, 0., 'first state'); continue
        own = [l for a, b, l in acc if a - 1e-9 * (1 + abs(a)) <= u <= b + 1e-9 * (1 + abs(b)) or (dt == F32 and a - 1e-5 <= u <= b + 1e-5)]
        c.require(own, f"no step covers {u}")
        errs = []
        for l in own:
            h, t0 = float(l['dt'].reshape(-1)[0]), float(l['t'].reshape(-1)[0])
            x1, f1, st = l['out'][1], l['out'][0], l['out'][3]
            xm = l['x'] + h * sum(b * k for b, k in zip(BMID, st))
            errs.append((sol[i] - hermite4((u - t0) / h, l['x'], x1, xm, l['k1'], f1, h)).abs().max().item())
        scale = 1 + sol[i].abs().max().item() + h * l['k1'].abs().max().item()
        c.require(min(errs) <= eps * scale, f"dense output at {u}: off the step's quartic by {min(errs):.3g}")


def midpoint(c):
    "local error of the mid-point estimate falls like the fifth power of the step"
    rng = c.rng
    seed = rng.randrange(10 ** 6)
    f, series = taylor(seed)
    x0, t0 = [rng.uniform(-1, 1), rng.uniform(-1, 1)], rng.choice([0., 0.7, -1.1])
    c.note(seed=seed, x0=x0, t0=t0)
    ip = str_to_interp('4th', F64)
    es = []
    for h in (0.4, 0.2, 0.1):
        s = str_solver('dopri5')
        x = torch.tensor(x0, dtype=F64)
        s.sync_device_dtype(x, torch.zeros(2, dtype=F64))
        k = s.step(f, x, torch.tensor(t0, dtype=F64), torch.tensor(h, dtype=F64))[3]
        u, v = series(*x0, t0, 20)
        ex = torch.tensor([sum(a * (h / 2) ** i for i, a in enumerate(w)) for w in (u, v)], dtype=F64)
        es.append((x + h * sum(b * q for b, q in zip(ip.bmid, k)) - ex).norm().item())
    bound = [max(5e-8, es[0] * 4 * q ** 5) for q in (1., .5, .25)]
    c.require(all(a <= b for a, b in zip(es, bound)), f"errors of the mid-point estimate for steps 0.4, 0.2, 0.1: {es}")


def polynomial(c):
    "the interpolant through the data of a quartic is that quartic"
    rng = c.rng
    dt = dtype(rng)
    shp = shape(rng)
    co = [tensor(rng, shp, dt) for _ in range(5)]
    t0, h = rng.uniform(-2, 2), rng.choice([0.1, 0.5, 1., 3., -0.7])
    P = lambda s: sum(a * s ** i for i, a in enumerate(co))
    D = lambda s: sum(i * a * s ** (i - 1) for i, a in enumerate(co) if i)
    ip = str_to_interp('4th', dt)
    c.note(dtype=dt, shape=shp, t0=t0, h=h)
    T_ = lambda v: torch.tensor(v, dtype=dt)
    coef = ip.fit(T_(h), D(0.), D(h), P(0.), P(h), P(h / 2))
    for th in [0., 1., 0.5] + [rng.uniform(0, 1) for _ in range(4)]:
        close(ip.evaluate(coef, T_(t0), T_(t0 + h), T_(t0 + th * h)), P(th * h), 1e-8 if dt == F64 else 2e-2 * (1 + abs(h)) ** 4, f"interpolant at {th}")


def splines(c):
    rng = c.rng
    n = rng.choice([2, 3, 6, 15])
    ts = grid(rng, n=n)
    sol = tensor(rng, (n, rng.randint(1, 3), rng.randint(1, 3)))
    c.note(times=ts.tolist(), shape=tuple(sol.shape))
    perm = list(range(n))
    rng.shuffle(perm)
    out = dense_output(sol, ts, ts[perm])
    close(out, sol[perm], 1e-7, 'spline at its nodes')
    out2, sp = dense_output(sol, ts, ts, return_spline=True)
    close(out2, sol, 1e-7, 'spline at its nodes')
    mid = (ts[1:] + ts[:-1]) / 2
    lin = dense_output(torch.stack([t * sol[0] + sol[1] for t in ts]), ts, mid)
    close(lin, torch.stack([t * sol[0] + sol[1] for t in mid]), 1e-6, 'spline of a straight line')


SCENARIOS = {'dense': Scen(dense, 120, 2000), 'midpoint': Scen(midpoint, 20, 300), 'polynomial': Scen(polynomial, 60, 800), 'splines': Scen(splines, 30, 300)}
