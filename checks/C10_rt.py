from vc.gen import *
from torchdyn.numerics.sdeint import sdeint, check_sde
from torchdyn.core.defunc import SDEFunc
from torchdyn.core import SDEProblem
from torchdyn.core.neuralde import NeuralSDE
from torchsde import BrownianInterval
from checks.C09_rt import CALC, NOISE, reference, coefficients


class Path:
    "a Brownian path which logs the intervals it is asked for"
    def __init__(self, bm): self.bm, self.log, self.values = bm, [], []
    def __call__(self, a, b, **k):
        r = self.bm(a, b, **k)
        if not self.log or self.log[-1] != (float(a), float(b)):
            self.log.append((float(a), float(b)))
            self.values.append(r)
        return r


class Drift(nn.Module):
    def __init__(self, f): super().__init__(); self.fn = f
    def forward(self, t, x): return self.fn(t, x)


class Auto(nn.Module):
    def __init__(self, f): super().__init__(); self.fn = f
    def forward(self, x): return self.fn(0.37, x)


def given(rng, f):
    "the coefficient as a module or function, with or without time: what is passed and what it means"
    how = rng.choice(['module t', 'module', 'function t', 'function'])
    if how == 'module t': return Drift(f), f
    if how == 'function t': return (lambda t, x: f(t, x)), f
    if how == 'module': return Auto(f), lambda t, x: f(0.37, x)
    return (lambda x: f(0.37, x)), lambda t, x: f(0.37, x)


class Plain: pass


def trajectory(c):
    rng = c.rng
    dt_, name = dtype(rng, .15), rng.choice(list(CALC))
    shp = shape(rng, 2, 2)
    f0, g0 = coefficients(rng, shp[-1], dt_)
    f, fr = given(rng, f0)
    g, gr = given(rng, g0)
    x0 = tensor(rng, shp, dt_)
    ts = grid(rng, dt=dt_)
    noise, entropy = rng.choice(NOISE), rng.randrange(2 ** 31)
    bm = Path(BrownianInterval(t0=float(ts[0]) - .1, t1=float(ts[-1]) + .1, size=shp, dtype=dt_, entropy=entropy))
    how = rng.choice(['sdeint', 'sdeint', 'object', 'foreign', 'problem', 'neural', 'neural call'])
    pick = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts)))) if rng.random() < .3 and how not in ('neural', 'neural call') else None
    c.note(solver=name, how=how, dtype=dt_, shape=shp, times=ts.tolist(), noise=noise, pick=pick)
    sv = dict(save_at=ts[pick]) if pick else {}
    tin = ts if rng.random() < .7 or how not in ('sdeint', 'foreign') else [v.reshape(1) for v in ts]
    sde = SDEFunc(f, g, noise_type=noise, sde_type=CALC[name])
    if how == 'sdeint': te, sol = sdeint(sde, x0, tin, name, bm, **sv)
    elif how == 'object':
        from torchdyn.numerics.solvers.sde import SDE_SOLVER_DICT
        te, sol = sdeint(sde, x0, ts, SDE_SOLVER_DICT[name](sde, bm, dt_), bm, **sv)
    elif how == 'foreign':
        p = Plain()
        p.f, p.g, p.noise_type, p.sde_type = f, g, noise, CALC[name]
        te, sol = sdeint(p, x0, tin, name, bm, **sv)
    elif how == 'problem':
        p = SDEProblem(sde, name)
        te, sol = (p if rng.random() < .5 else p.sdeint)(x0, ts, bm, **sv)
    else:
        class M(nn.Module):
            def __init__(self, fn): super().__init__(); self.fn = fn
        m = NeuralSDE(f, g, solver=name, noise_type=noise, sde_type=CALC[name], t_span=ts if rng.random() < .5 else torch.linspace(0, 1, 2), bm=bm)
        if how == 'neural call':
            m.t_span = ts
            te, sol = m(x0)
        else: te, sol = m.trajectory(x0, ts), None
        if sol is None: te, sol = ts, te
    same_times(te, ts[pick] if pick else ts)
    eps = 1e-9 if dt_ == F64 else 1e-4
    c.require(len(bm.log) == len(ts) - 1, f"{len(bm.log)} distinct Brownian intervals for {len(ts) - 1} grid intervals")
    for (a, b), u, v in zip(bm.log, ts[:-1], ts[1:]):
        c.require(abs(a - float(u)) < eps and abs(b - float(v)) < eps, f"the increment of [{a}, {b}] drives the interval [{float(u)}, {float(v)}]")
    ref = [x0]
    for i, (a, b) in enumerate(zip(ts[:-1], ts[1:])):
        ref.append(reference(name, fr, gr, lambda *_: bm.values[i], ref[-1] if pick else sol[i], a, b - a))   # step by step where all states are at hand
    ref = torch.stack(ref)
    if not (pick and dt_ == F32): close(sol, ref[pick] if pick else ref, 1e-7 if dt_ == F64 else 1e-3, 'states')
    else: c.require(sol.shape == ref[pick].shape, 'one state per requested time')
    close((sol[0] if not pick or pick[0] == 0 else x0), x0, 0., 'the first state')


def repeat(c):
    "the same path gives the same result, before and after other integrations"
    rng = c.rng
    name = rng.choice(list(CALC))
    f, g = coefficients(rng, 2, F64)
    sde = SDEFunc(f, g, noise_type='diagonal', sde_type=CALC[name])
    x0, ts = tensor(rng, (3, 2)), grid(rng)
    bm = BrownianInterval(t0=float(ts[0]), t1=float(ts[-1]), size=(3, 2), dtype=F64, entropy=rng.randrange(2 ** 31), tol=1e-12)
    c.note(solver=name, times=ts.tolist())
    a = sdeint(sde, x0, ts, name, bm)[1]
    if rng.random() < .5: sdeint(sde, x0 + 1, ts, name, bm)
    b = sdeint(sde, x0, ts, name, bm)[1]
    close(b, a, 1e-12, 'a second integration along the same path')
    close(a[0], x0, 0., 'the first state')


FIRST = ['import torchdyn.numerics', 'import torchdyn.core', 'from torchdyn.numerics.sdeint import sdeint', 'import torchdyn.models', 'from torchdyn.core.defunc import SDEFunc']
PROGRAM = '''
import torch
from torchdyn.core import NeuralSDE
from torchsde import BrownianInterval
bm = BrownianInterval(0., 1., size=(3, 2))
m = NeuralSDE(torch.nn.Linear(2, 2), torch.nn.Linear(2, 2), bm=bm)
assert m(torch.ones(3, 2))[1].shape == (2, 3, 2) and m.trajectory(torch.ones(3, 2), torch.linspace(0, 1, 3)).shape == (3, 3, 2)
'''


def import_order(c):
    "the models integrate whatever part of the library was imported first"
    import subprocess, sys, os
    first = FIRST[c.index % len(FIRST)]
    c.note(first=first)
    p = subprocess.run([sys.executable, '-c', first + PROGRAM], capture_output=True, text=True, timeout=120)
    c.require(p.returncode == 0, f"after '{first}': {p.stderr.strip().splitlines()[-1:]}")


SCENARIOS = {'import_order': Scen(import_order, 2, 5), 'trajectory': Scen(trajectory, 250, 4000), 'repeat': Scen(repeat, 40, 500)}
