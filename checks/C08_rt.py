from vc.gen import *
from torchdyn.numerics import odeint_hybrid


class Callback(nn.Module):
    def __init__(self, i, cond, jump, log):
        super().__init__()
        self.i, self.cond, self.jump, self.log = i, cond, jump, log
    def check_event(self, t, x):
        r = bool(self.cond(t, x))
        self.log.append(('check', self.i, float(torch.as_tensor(t).reshape(-1)[0]), x.clone(), r))
        return r
    def jump_map(self, t, x):
        y = self.jump(t, x)
        self.log.append(('jump', self.i, float(torch.as_tensor(t).reshape(-1)[0]), x.clone(), y.clone()))
        return y


def verify(c, te, sol, ts, x0, cbs, log, spy, f, tol_ev, budget, atol, rtol, priority, d=None):
    eps = 1e-9 if x0.dtype == F64 else 3e-4
    t = [float(v) for v in te]
    c.require(len(te) == len(sol), f"{len(te)} times for {len(sol)} states")
    c.require(t[0] == float(ts[0]), f"the first time is {t[0]}")
    c.require(all(a <= b for a, b in zip(t, t[1:])), f"recorded times decrease: {t}")
    jumps = [l for l in log if l[0] == 'jump']
    x_start = x0
    active = [bool(cb.cond(ts[:1], x0)) for cb in cbs]
    if priority == 'jump' and any(active):
        i = active.index(True)
        c.require(jumps and jumps[0][1] == i, f"event {i} is active at the start, jump made: {jumps[0][1] if jumps else None}")
        close(jumps[0][3], x0, 0., 'state the initial jump is applied to')
        x_start = jumps[0][4]
        jumps = jumps[1:]
        allowed = budget - 1
    else: allowed = budget
    close(sol[0], x_start, 0., 'the first state')
    c.require(len(jumps) <= max(allowed, 0), f"{len(jumps)} jumps with {allowed} left")
    ends = [(float(l['t'].reshape(-1)[0]) + float(l['dt'].reshape(-1)[0]), l) for l in spy.log]
    for l in spy.log:
        if l['k1'] is not None: close(l['k1'], f(l['t'].reshape(()), l['x']), max(eps, 1e-6), 'first stage of a step')
        c.require(float(l['t'].reshape(-1)[0]) + float(l['dt'].reshape(-1)[0]) <= float(ts[-1]) + eps * 10, 'a step goes past the final time')
    # jumps: recorded in turn at the same time; an active end is at most the tolerance away
    k, q = 1, 0
    states = {0}
    while k < len(t):
        if q < len(jumps) and k + 1 < len(t) and t[k] == t[k + 1] and torch.equal(sol[k], jumps[q][3]) and torch.equal(sol[k + 1], jumps[q][4]):
            _, i, tj, xj, yj = jumps[q]
            c.require(abs(tj - t[k]) <= eps, 'time given to the jump map')
            idx = [p for p, l in enumerate(log) if l is jumps[q]][0]
            pts, cur = [], {}
            prev = max([p for p in range(idx) if log[p][0] == 'jump'], default=-1)
            for l in log[prev + 1:idx]:
                if l[0] == 'check': cur.setdefault((l[2], l[3].flatten()[0].item()), {})[l[1]] = l[4]
            ok = [key for key, ev in cur.items() if len(ev) == len(cbs) and ev[i] and not any(ev[b] for b in range(i)) and -eps <= key[0] - tj <= tol_ev + eps]
            c.require(ok, f"jump of event {i} at {tj}: no end of a step where it is the first that holds within the tolerance {tol_ev}; ends with events {[(key[0], ev) for key, ev in cur.items() if any(ev.values())][-3:]}")
            k, q = k + 2, q + 1
            continue
        hit = [l for e, l in ends if abs(e - t[k]) <= eps * (1 + abs(e)) and torch.equal(l['out'][1], sol[k])]
        c.require(hit, f"recorded state {k} at {t[k]} is neither the end of a step nor part of a jump")
        c.require(any(error_ratio(l, atol, rtol, d) <= 1 + 1e-6 for l in hit), f"recorded state {k} is the end of a rejected step")
        c.require(not any(cb.cond(te[k:k + 1], sol[k]) for cb in cbs), f"an event holds at the recorded state {k}, without a jump")
        k += 1
    c.require(q == len(jumps), f"{len(jumps) - q} jumps are not recorded")
    done = len(jumps) >= allowed
    c.require(done or abs(t[-1] - float(ts[-1])) <= eps * (1 + abs(t[-1])), f"ends at {t[-1]} with jumps left")
    for r in ts:
        if float(r) < t[-1] - eps: c.require(any(abs(v - float(r)) <= eps * (1 + abs(v)) for v in t), f"requested time {float(r)} is not among {t}")
    return jumps


def general(c):
    rng = c.rng
    dt = dtype(rng, 0.15)
    dim = rng.choice([2, 3])
    ts = grid(rng, dt=dt)
    shp = rng.choice([(dim,), (1, dim), (4, dim)])
    x0, f = tensor(rng, shp, dt), plain(rng, dim, dt, stiff=rng.choice([1., 4.]))
    m = rng.choice([1, 1, 2, 3])
    log, cbs = [], []
    for i in range(m):
        a, thr, up = rng.randrange(dim), rng.uniform(-0.6, 1.), rng.random() < 0.6
        move = rng.choice([-2., -1., .5])
        kind = rng.choice(['level', 'level', 'time'])
        if kind == 'level': cond = lambda t, x, a=a, thr=thr, up=up: (x[..., a].mean() > thr) == up
        else:
            s0 = float(ts[0]) + rng.random() * float(ts[-1] - ts[0])
            cond = lambda t, x, s0=s0, s1=s0 + rng.choice([.01, .1]): s0 < float(torch.as_tensor(t).reshape(-1)[0]) < s1
        shift = torch.zeros(dim, dtype=dt); shift[a] = move
        cbs.append(Callback(i, cond, lambda t, x, s=shift, r=rng.choice([1., .5]): r * x + s, log))
    tol_ev, budget, priority = rng.choice([1e-2, 1e-3, 1e-4]), rng.choice([1, 2, 3, 6]), rng.choice(['jump', 'flow'])
    name, atol, rtol = rng.choice(['dopri5', 'tsit5']), 10 ** rng.uniform(-5, -2), 10 ** rng.uniform(-5, -2)
    d = rng.randint(1, shp[0]) if rng.random() < 0.25 else None
    c.note(times=ts.tolist(), shape=shp, dtype=dt, events=m, event_tol=tol_ev, budget=budget, priority=priority, solver=name, atol=atol, rtol=rtol, leading=d)
    s = Spy(str_solver(name, dt))
    te, sol = odeint_hybrid(f, x0, ts, budget, s, cbs, atol=atol, rtol=rtol, event_tol=tol_ev, priority=priority, seminorm=(d is not None, d))
    verify(c, te, sol, ts, x0, cbs, log, s, f, tol_ev, budget, atol, rtol, priority, d)


def ball(c):
    "bouncing ball: times of impact are known"
    rng = c.rng
    g, h, rest = rng.uniform(2., 10.), rng.uniform(.5, 3.), rng.uniform(.5, .9)
    f = lambda t, x: torch.stack([x[..., 1], -g + 0 * x[..., 1]], -1)
    log = []
    cb = Callback(0, lambda t, x: x[..., 0].min() < 0, lambda t, x: torch.stack([x[..., 0].abs(), -rest * x[..., 1]], -1), log)
    T = rng.uniform(1., 4.)
    ts = torch.linspace(0, T, rng.choice([2, 5, 30]), dtype=F64)
    x0 = torch.tensor([[h, 0.]], dtype=F64)
    n = rng.choice([1, 2, 3])
    tol_ev = 1e-6
    c.note(g=g, height=h, restitution=rest, until=T, times=len(ts), budget=n)
    s = Spy(str_solver('dopri5', F64))
    te, sol = odeint_hybrid(f, x0, ts, n, s, [cb], atol=1e-7, rtol=1e-7, event_tol=tol_ev)
    jumps = verify(c, te, sol, ts, x0, [cb], log, s, f, tol_ev, n, 1e-7, 1e-7, 'jump')
    t, v, hits = (2 * h / g) ** .5, (2 * g * h) ** .5, []
    while t < T - 1e-3 and len(hits) < n:
        hits.append(t); v *= rest; t += 2 * v / g
    if abs(t - T) < 2e-3 or any(abs(b - a) < 2e-2 for a, b in zip(hits, hits[1:])): return
    c.require(len(jumps) == len(hits), f"{len(jumps)} jumps instead of {len(hits)}")
    for j, w in zip(jumps, hits): c.require(abs(j[2] - w) < 1e-4, f"jump at {j[2]}, impact at {w}")


def no_event(c):
    "without events: the plain adaptive solution"
    from torchdyn.numerics import odeint
    rng, dt, shp, rev, ts, x0, f, atol, rtol, name = adaptive_case(c, reverse=False)
    log = []
    cbs = [Callback(i, lambda t, x: False, None, log) for i in range(rng.choice([1, 2]))]
    te, sol = odeint_hybrid(f, x0, ts, 3, name, cbs, atol=atol, rtol=rtol)
    t2, sol2 = odeint(f, x0, ts, name, atol=atol, rtol=rtol)
    tt = [float(v) for v in te]
    for t, y in zip(t2, sol2):
        i = min(range(len(tt)), key=lambda i: abs(tt[i] - float(t)))
        c.require(abs(tt[i] - float(t)) < (1e-9 if dt == F64 else 1e-4), f"requested time {float(t)} is not recorded")
        close(sol[i], y, max(20 * (atol + rtol), 1e-3), f"state at {float(t)}")


SCENARIOS = {'general': Scen(general, 150, 2500), 'ball': Scen(ball, 25, 300), 'no_event': Scen(no_event, 25, 300)}
