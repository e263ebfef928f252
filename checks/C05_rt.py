from vc.gen import *
from torchdyn.numerics import odeint
from torchdyn.numerics.odeint import odeint_symplectic


def accepted(c):
    rng, dt, shp, rev, ts, x0, f, atol, rtol, name = adaptive_case(c)
    mode = rng.choice(['plain', 'plain', 'seminorm', 'all', 'name', 'interp', 'symplectic'])
    if mode == 'interp': name = 'dopri5'
    d = rng.randint(1, shp[0]) if mode == 'seminorm' else None
    c.note(mode=mode, leading=d)
    kw = dict(seminorm=(True, d)) if d else {}
    if mode == 'all': kw['return_all_eval'] = True
    if mode == 'interp': kw['interpolator'] = '4th'
    s = Spy(str_solver(name, dt))
    args = {'a': 1}
    if mode == 'symplectic':
        class V:
            order = 2
            def __call__(self, t, x): return f(t, x)
        te, sol = odeint_symplectic(V(), x0, ts, s, atol=atol, rtol=rtol)
    else: te, sol = odeint(f, x0, ts, s, atol=atol, rtol=rtol, args=args, **kw)
    sign = -1 if rev else 1
    acc = walk(c, s.log, x0, ts, atol, rtol, f, d, sign)
    eps = 1e-9 if dt == F64 else 1e-4
    c.require(mode == 'symplectic' or all(l['args'] is args or l['args'] == args for l in s.log), 'arguments of the steps')
    if mode != 'all':
        same_times(te, ts)
        want = ts
    else:
        want = te
        got = [float(t) for t in te]
        c.require(all(a * sign < b * sign for a, b in zip(got, got[1:])), f"times {got} are not in order")
        for t in ts: c.require(any(abs(float(t) - g) < eps * (1 + abs(g)) for g in got), f"requested time {float(t)} is missing")
        c.require(len(te) == len(acc) + 1, f"{len(te)} times for {len(acc)} accepted steps")
    c.require(len(sol) == len(te), 'one state per time')
    close(sol[0], x0, 0., 'the first state')
    for t, y in zip(want[1:], sol[1:]):
        hit = [l for a, b, l in acc if abs(b - sign * float(t)) <= eps * (1 + abs(b))]
        if mode == 'interp' and not hit: continue
        c.require(hit, f"no accepted step lands on {float(t)}")
        close(y, hit[0]['out'][1], 0., f"state at {float(t)}")
    if mode == 'name':
        te2, sol2 = odeint(f, x0, ts, name, atol=atol, rtol=rtol)
        same_times(te2, ts)
        if dt == F32: close(sol2, sol, 1e-6, 'solution with the solver given by name')


def dense_grid(c):
    "many more requested times than steps"
    rng = c.rng
    n = rng.choice([50, 150, 400])
    ts = grid(rng, n=n, dt=dtype(rng), reverse=rng.random() < 0.3)
    x0 = tensor(rng, (2, 2), ts.dtype)
    f = plain(rng, 2, ts.dtype)
    interp = rng.choice([None, '4th'])
    name = 'dopri5' if interp else rng.choice(['dopri5', 'tsit5'])
    c.note(n=n, span=[float(ts[0]), float(ts[-1])], dtype=ts.dtype, solver=name, interpolator=interp)
    s = Spy(str_solver(name, ts.dtype))
    te, sol = odeint(f, x0, ts, s, atol=1e-4, rtol=1e-4, interpolator=interp)
    same_times(te, ts)
    c.require(len(sol) == n, 'one state per time')
    walk(c, s.log, x0, ts, 1e-4, 1e-4, f, None, -1 if ts[1] < ts[0] else 1)


def accuracy(c):
    "the solution follows the flow: comparison with a fine reference"
    rng = c.rng
    ts = grid(rng, n=rng.choice([2, 3, 6]), span=rng.choice([0.5, 1., 2.]), reverse=rng.random() < 0.4)
    x0 = tensor(rng, (3, 2))
    f = plain(rng, 2)
    name = rng.choice(['dopri5', 'tsit5'])
    c.note(times=ts.tolist(), solver=name)
    te, sol = odeint(f, x0, ts, name, atol=1e-6, rtol=1e-6)
    x, ref = x0, [x0]
    for a, b in zip(ts[:-1], ts[1:]):
        fine = torch.linspace(float(a), float(b), 41, dtype=F64)
        x = ref_fixed(f, x, fine, 'rk4')[-1]
        ref.append(x)
    close(sol, torch.stack(ref), 1e-4, 'solution at tolerance 1e-6')


SCENARIOS = {'accepted': Scen(accepted, 150, 2500), 'dense_grid': Scen(dense_grid, 20, 200), 'accuracy': Scen(accuracy, 30, 400)}
