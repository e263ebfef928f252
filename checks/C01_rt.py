from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.solvers.ode import Euler, Midpoint, RungeKutta4


def grids(c):
    rng = c.rng
    dt = dtype(rng)
    shp = shape(rng)
    name = rng.choice(['euler', 'midpoint', 'rk4', 'rk-4', 'RungeKutta4'])
    ts = grid(rng, dt=dt, reverse=False)
    x0 = tensor(rng, shp, dt)
    f = plain(rng, shp[-1], dt)
    how = rng.choice(['name', 'object', 'list'])
    c.note(solver=name, dtype=dt, shape=shp, times=ts.tolist(), how=how)
    solver = name if how != 'object' else {'e': Euler, 'm': Midpoint}.get(name[0], RungeKutta4)(dtype=dt)
    tin = ts if how != 'list' else [t.reshape(1) for t in ts]
    te, sol = odeint(f, x0, tin, solver)
    same_times(te, ts)
    close(sol[0], x0, 0., 'the first state is not the initial condition')
    close(sol, ref_fixed(f, x0, ts, 'rk4' if name == 'RungeKutta4' else name), None, 'states')


class Recorder:
    order, stepping_class = 1, 'fixed'
    def __init__(self): self.log = []
    def sync_device_dtype(self, x, t): return x, t
    def step(self, f, x, t, dt, k1=None, args=None):
        new = {k: v + dt * torch.sin(v + t) for k, v in x.items()} if isinstance(x, dict) else x + dt * f(t, x) + 0.1 * dt * dt
        self.log.append((float(t), float(dt), x, new, args))
        return None, new, None


def user_stepper(c):
    rng = c.rng
    dt = dtype(rng)
    ts = grid(rng, dt=dt)
    isdict = rng.random() < 0.5
    if isdict: x0 = {k: tensor(rng, shape(rng), dt) for k in rng.sample(['q', 'p', 'a', 'z'], rng.randint(1, 3))}
    else: x0 = tensor(rng, shape(rng), dt)
    c.note(dict=isdict, dtype=dt, times=ts.tolist())
    f = (lambda t, x: x) if isdict else plain(rng, x0.shape[-1], dt)
    r = Recorder()
    args = {'a': 1}
    te, sol = odeint(f, x0, ts, r, args=args)
    same_times(te, ts)
    c.require(len(r.log) == len(ts) - 1, f"{len(r.log)} steps for {len(ts)} times")
    prev = x0
    for i, (t, d, x, new, a) in enumerate(r.log):
        c.require(a is args or a == args, "arguments of the step")
        eps = 1e-9 if dt == F64 else 1e-4
        c.require(abs(t - float(ts[i])) < eps, f"step {i} starts at {t} instead of {float(ts[i])}")
        c.require(abs(d - float(ts[i + 1] - ts[i])) < eps, f"step {i} spans {d} instead of {float(ts[i + 1] - ts[i])}")
        for k in (x0 if isdict else [None]):
            a, b = (x[k], prev[k]) if isdict else (x, prev)
            close(a, b, 0., f"step {i} starts from another state")
        prev = new
    states = [x0] + [l[3] for l in r.log]
    if isdict:
        c.require(isinstance(sol, dict) and list(sol) == list(x0), 'components of the solution')
        for k in x0: close(sol[k], torch.stack([s[k] for s in states]), 0., f'states of {k}')
    else: close(sol, torch.stack(states), 0., 'states')


def dict_builtin(c):
    "built-in steppers on dictionaries: through fields that support arithmetic on them"
    rng = c.rng
    ts = grid(rng, n=rng.choice([2, 3, 5]))
    x0 = {'a': tensor(rng, (3, 2)), 'b': tensor(rng, (2,))}
    class S(Recorder):
        def step(self, f, x, t, dt, k1=None, args=None):
            dx = f(t, x)
            return None, {k: x[k] + dt * dx[k] for k in x}, None
    c.note(times=ts.tolist())
    f = lambda t, x: {'a': -x['a'] * t, 'b': x['b'] + t}
    te, sol = odeint(f, x0, ts, S())
    ref = [x0]
    for a, b in zip(ts[:-1], ts[1:]): ref.append({k: ref[-1][k] + (b - a) * f(a, ref[-1])[k] for k in x0})
    for k in x0: close(sol[k], torch.stack([r[k] for r in ref]), None, k)
    same_times(te, ts)


SCENARIOS = {'grids': Scen(grids, 120, 2000), 'user_stepper': Scen(user_stepper, 120, 2000), 'dict_state': Scen(dict_builtin, 20, 200)}
