from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_symplectic


class Steps:
    order, stepping_class = 1, 'fixed'
    def __init__(self): self.log = []
    def sync_device_dtype(self, x, t): return x, t
    def step(self, f, x, t, dt, k1=None, args=None):
        new = {k: v + dt * torch.sin(v + t) for k, v in x.items()} if isinstance(x, dict) else x + dt * f(t, x)
        self.log.append((float(t), float(dt)))
        return None, new, None


def subset(c):
    rng = c.rng
    dt = dtype(rng)
    isdict = rng.random() < 0.3
    ts = grid(rng, dt=dt)
    k = rng.randint(1, len(ts))
    how = rng.choice(['tensor', 'shuffled', 'list', 'dtype'])
    idx = sorted(rng.sample(range(len(ts)), k))
    if rng.random() < 0.3: idx = idx[1:] or idx          # often without the initial time
    order = list(idx)
    if how == 'shuffled': rng.shuffle(order)
    req = ts[order]
    if how == 'list': req = req.tolist()
    if how == 'dtype': req = req.to(F64)
    if isdict: x0 = {k: tensor(rng, shape(rng), dt) for k in rng.sample(['q', 'p', 'a'], rng.randint(1, 3))}
    else: x0 = tensor(rng, shape(rng), dt)
    f = (lambda t, x: x) if isdict else plain(rng, x0.shape[-1], dt)
    name = 'object' if isdict or rng.random() < 0.5 else rng.choice(['euler', 'midpoint', 'rk4'])
    c.note(times=ts.tolist(), requested=[float(t) for t in req], how=how, dict=isdict, solver=name, dtype=dt)
    mk = (lambda: Steps()) if name == 'object' else (lambda: name)
    s1, s2 = mk(), mk()
    entry = odeint
    if not isdict and rng.random() < 0.2:
        class V:
            order = 1
            def __call__(self, t, x): return g(t, x)
        f, g, entry = V(), f, odeint_symplectic
    t_full, full = entry(f, x0, ts, s1)
    te, sol = entry(f, x0, ts, s2, save_at=req)
    same_times(te, ts[idx])
    for key in (x0 if isdict else [None]):
        a, b = (sol[key], full[key]) if isdict else (sol, full)
        close(a, b[idx], 0., f"states of the request {key or ''}")
    if name == 'object': c.require(s1.log == s2.log, f"the steps depend on the request: {s2.log} instead of {s1.log}")


def refusal(c):
    rng = c.rng
    dt = dtype(rng)
    ts = grid(rng, dt=dt)
    n = len(ts)
    x0 = tensor(rng, (2, 3), dt)
    why = rng.choice(['between', 'outside', 'repeated'])
    idx = rng.sample(range(n), rng.randint(1, n))
    req = [float(t) for t in ts[idx]]
    if why == 'repeated': req.insert(rng.randrange(len(req) + 1), rng.choice(req))
    elif why == 'between':
        i = rng.randrange(n - 1)
        w = rng.choice([0.5, 0.3, 0.05, 0.95])
        req.insert(rng.randrange(len(req) + 1), float(ts[i] + w * (ts[i + 1] - ts[i])))
        if rng.random() < 0.5: req = req[:1] if req[0] not in ts.tolist() else [r for r in req if r not in ts.tolist()]
    else:
        span = float(ts[-1] - ts[0])
        req.insert(rng.randrange(len(req) + 1), rng.choice([float(ts[0]) - 0.3 * span, float(ts[-1]) + 0.2 * span]))
    req = torch.tensor(req, dtype=dt)
    c.note(times=ts.tolist(), requested=req.tolist(), why=why)
    try: te, sol = odeint(plain(rng, 3, dt), x0, ts, rng.choice(['euler', 'rk4']), save_at=req)
    except Exception: return
    raise Violation(f"a request with a time that is {why} was answered with times {te.tolist()}")


SCENARIOS = {'subset': Scen(subset, 200, 3000), 'refusal': Scen(refusal, 80, 1000)}
