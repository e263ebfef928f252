from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import AsynchronousLeapfrog, ImplicitEuler, str_to_solver
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4

HYPER = [(HyperEuler, 'euler', 1), (HyperMidpoint, 'midpoint', 2), (HyperRungeKutta4, 'rk4', 4)]


def hyper(c):
    rng = c.rng
    cls, base, p = rng.choice(HYPER)
    dt, shp = dtype(rng), shape(rng)
    f, net = plain(rng, shp[-1], dt), plain(rng, shp[-1], dt)
    x, t, h = tensor(rng, shp, dt), torch.tensor(rng.uniform(-2, 2), dtype=dt), torch.tensor(rng.choice([-1, 1]) * rng.uniform(.01, .9), dtype=dt)
    c.note(solver=cls.__name__, shape=shp, t=float(t), dt=float(h), dtype=dt)
    s = cls(net, dtype=dt)
    keep = x.clone(), t.clone(), h.clone()
    ref = rk_step(*TABLEAUS[base], f, t, x, h)[0] + h ** (p + 1) * net(t, x)
    for k in range(2):
        got = s.step(f, x, t, h, k1=f(t, x) if rng.random() < .5 else None)[1]
        close(got, ref, None if dt == F64 else 1e-4, 'step')
    c.require(all(torch.equal(a, b) for a, b in zip(keep, (x, t, h))), "inputs modified")
    if dt == F64:
        ts = grid(rng)
        _, sol = odeint(f, x, ts, cls(net, dtype=dt))
        y = [x]
        for a, b in zip(ts[:-1], ts[1:]): y.append(rk_step(*TABLEAUS[base], f, a, y[-1], b - a)[0] + (b - a) ** (p + 1) * net(a, y[-1]))
        close(sol, torch.stack(y), 1e-8, 'integration')


def leapfrog(c):
    rng = c.rng
    dt, d = dtype(rng), rng.randint(1, 4)
    shp = shape(rng, 0, 2) + (d,)
    f = plain(rng, d, dt)
    xv = tensor(rng, shp[:-1] + (2 * d,), dt)
    t, h = torch.tensor(rng.uniform(-2, 2), dtype=dt), torch.tensor(rng.choice([-1, 1]) * rng.uniform(.01, .9), dtype=dt)
    s = AsynchronousLeapfrog(stepping_class=rng.choice(['fixed', 'adaptive']), dtype=dt)
    c.note(shape=tuple(xv.shape), t=float(t), dt=float(h), dtype=dt, cls=s.stepping_class)
    out = s.step(f, xv, t, h)[1]
    x, v = xv[..., :d], xv[..., d:]
    m = x + h / 2 * v
    w = 2 * f(t + h / 2, m) - v
    close(out, torch.cat([m + h / 2 * w, w], -1), None if dt == F64 else 1e-4, 'step')
    close(s.step(f, out, t + h, -h)[1], xv, 1e-8 if dt == F64 else 1e-3, 'step back')


def implicit(c):
    rng = c.rng
    d, b = rng.randint(1, 4), rng.randint(1, 4)
    A = tensor(rng, (d, d), scale=.8)
    A = -(A @ A.T) + tensor(rng, (d, d), scale=.2)
    w, kind = rng.uniform(.5, 2), rng.choice(['linear', 'time', 'tanh'])
    def f(t, x):
        r = x @ A.T
        if kind == 'time': r = r + torch.sin(w * t) * 2
        if kind == 'tanh': r = r - torch.tanh(x + t)
        return r
    x, t, h = tensor(rng, (b, d)), torch.tensor(rng.uniform(-2, 2), dtype=F64), torch.tensor(rng.uniform(.05, .6), dtype=F64)
    c.note(kind=kind, d=d, batch=b, t=float(t), dt=float(h))
    keep = x.clone()
    y = ImplicitEuler(F64).step(f, x, t, h)[1].detach()
    c.require(torch.equal(x, keep), "state modified")
    z = x.clone()
    for _ in range(50):     # Newton
        r = z - x - h * f(t + h, z)
        J = torch.autograd.functional.jacobian(lambda q: (q - x - h * f(t + h, q)).reshape(-1), z).reshape(b * d, b * d)
        z = z - torch.linalg.solve(J, r.reshape(-1)).reshape(b, d)
    if (z - x - h * f(t + h, z)).abs().max() > 1e-10: return
    close(y, z, 1e-4, 'solution of the implicit equation')


SCENARIOS = {'hyper': Scen(hyper, 200, 4000), 'leapfrog': Scen(leapfrog, 150, 3000), 'implicit': Scen(implicit, 60, 800)}
