from vc.gen import *
from fractions import Fraction
from torchdyn.numerics.solvers.ode import str_to_solver

ORDERS = {'euler': 1, 'midpoint': 2, 'rk4': 4, 'rk-4': 4, 'RungeKutta4': 4, 'dopri5': 5, 'DormandPrince45': 5, 'tsit5': 5, 'Tsitouras45': 5}


def taylor(seed):
    "a time-dependent, vector-valued ODE with known Taylor coefficients of the solution: polynomial field, series by recursion"
    rng = random.Random(seed)
    a = [rng.uniform(-1, 1) for _ in range(8)]
    def f(t, x):
        u, v = x[..., 0], x[..., 1]
        return torch.stack([a[0] * v + a[1] * u * v + a[2] * t * u, a[3] * u + a[4] * u * u + a[5] * t + a[6] * t * v], -1)
    def series(u0, v0, t0, n):
        u, v, tt = [u0], [v0], [t0, 1.]
        def mul(p, q, k): return sum(p[i] * q[k - i] for i in range(k + 1) if i < len(p) and k - i < len(q))
        for k in range(n):
            du = a[0] * v[k] + a[1] * mul(u, v, k) + a[2] * mul(tt, u, k)
            dv = a[3] * u[k] + a[4] * mul(u, u, k) + (a[5] * tt[k] if k < 2 else 0.) + a[6] * mul(tt, v, k)
            u.append(du / (k + 1)); v.append(dv / (k + 1))
        return u, v
    return f, series


def one(f, series, solver, x0, t0, h, k1=None):
    x = torch.tensor(x0, dtype=F64)
    t, dt = torch.tensor(t0, dtype=F64), torch.tensor(h, dtype=F64)
    s = str_to_solver(solver, F64)
    s.sync_device_dtype(x, torch.zeros(2, dtype=F64))
    out = s.step(f, x, t, dt, k1=k1)
    u, v = series(*x0, t0, 20)
    exact = torch.tensor([sum(c * h ** i for i, c in enumerate(u)), sum(c * h ** i for i, c in enumerate(v))], dtype=F64)
    return s, out, exact


def order(c):
    rng = c.rng
    solver = rng.choice(list(ORDERS))
    p = ORDERS[solver]
    seed = rng.randrange(10 ** 6)
    f, series = taylor(seed)
    x0, t0 = [rng.uniform(-1, 1), rng.uniform(-1, 1)], rng.choice([0., 0.7, -1.1])
    c.note(solver=solver, seed=seed, x0=x0, t0=t0)
    # local error C h^(p+1): each halving of the step divides it by about 2^(p+1); the estimate's embedded solution is of order four
    hs = [0.2, 0.1, 0.05] if p < 5 else [0.4, 0.2, 0.1]
    es, emb = [], []
    for h in hs:
        s, out, ex = one(f, series, solver, x0, t0, h)
        c.require(s.order == p, f"{solver} declares order {s.order}")
        es.append((out[1] - ex).norm().item())
        if p == 5:
            err = out[2]
            emb.append((out[1] - err - ex).norm().item())
            close(out[0], f(t0 + h, out[1]), 1e-7, "returned field value")   # (tableau in single precision)
        else: c.require(out[2] is None, "error estimate of a solver without one")
    # the solvers' tableaus are rounded to single precision in parts: errors below that are not resolved
    floor = 3e-8
    for e, q, what in ((es, p, 'solution'), (emb, 4, 'embedded solution')):
        if not e: continue
        bound = [max(floor, e[0] * 4. * (h / hs[0]) ** (q + 1)) for h in hs]
        c.require(all(a <= b for a, b in zip(e, bound)), f"local errors of the {what} for steps {hs} are {e}: not of order {q}")
    c.require(es[0] < 0.3 * (hs[0]) ** 1, f"local error {es[0]} for a step of {hs[0]}")


def exact_poly(c):
    "quadrature: a method of order p integrates polynomials in time of degree < p exactly (times and weights)"
    rng = c.rng
    solver = rng.choice(list(ORDERS))
    p = ORDERS[solver]
    co = [rng.uniform(-2, 2) for _ in range(p)]
    t0, h = rng.uniform(-1, 1), rng.choice([-0.5, 0.3, 1., 1.7])
    shp = shape(rng)
    x = tensor(rng, shp)
    c.note(solver=solver, coefficients=co, t0=t0, h=h, shape=shp)
    f = lambda t, y: sum(a * t ** i for i, a in enumerate(co)) * torch.ones_like(y)
    ex = x + sum(a * ((t0 + h) ** (i + 1) - t0 ** (i + 1)) / (i + 1) for i, a in enumerate(co))
    s = str_to_solver(solver, F64)
    s.sync_device_dtype(x, torch.zeros(2, dtype=F64))
    t, dt = torch.tensor(t0, dtype=F64), torch.tensor(h, dtype=F64)
    out = s.step(f, x, t, dt)
    close(out[1], ex, 3e-6, f"integral of a polynomial of degree {p - 1}")
    k1 = f(t, x)
    out2 = s.step(f, x, t, dt, k1=k1)
    for a, b in zip(out[:3], out2[:3]):
        if isinstance(a, torch.Tensor): close(b, a, 0., "result with the first stage supplied")


SCENARIOS = {'order': Scen(order, 90, 1500), 'quadrature': Scen(exact_poly, 120, 2000)}
