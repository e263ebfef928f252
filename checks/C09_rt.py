import math
from vc.gen import *
from torchdyn.numerics.sdeint import sdeint
from torchdyn.numerics.solvers.sde import sde_str_to_solver, SDE_SOLVER_DICT
from torchdyn.core.defunc import SDEFunc
from torchsde import BrownianInterval

CALC = {'euler': 'ito', 'eulerHeun': 'stratonovich', 'milstein_ito': 'ito', 'milstein_stratonovich': 'stratonovich'}
NOISE = ['general', 'diagonal', 'scalar', 'additive']


def coefficients(rng, dim, dt):
    f = plain(rng, dim, dt)
    A, b, w = tensor(rng, (dim,), dt), tensor(rng, (dim,), dt), rng.uniform(.5, 3)
    kind = rng.choice(['state', 'state', 'additive', 'linear'])
    if kind == 'state': g = lambda t, x: torch.sin(x * A + b) * (1 + torch.as_tensor(t).to(x.dtype) ** 2) + 0.3 * x
    elif kind == 'additive': g = lambda t, x: b.expand_as(x) * torch.cos(w * torch.as_tensor(t).to(x.dtype))
    else: g = lambda t, x: A * x
    return f, g


def reference(name, f, g, W, x, t, dt):
    n = t + dt
    dW = W(t, n)
    if name == 'euler': return x + f(t, x) * dt + g(t, x) * dW
    if name == 'eulerHeun': return x + f(t, x) * dt + (g(t, x) + g(n, x + g(t, x) * dW)) / 2 * dW
    h = dt.sqrt()
    v = dW ** 2 - (dt if name == 'milstein_ito' else 0)
    return x + f(t, x) * dt + g(t, x) * dW + (g(t, x + f(t, x) * dt + g(t, x) * h) - g(t, x)) / (2 * h) * v


def step(c):
    rng = c.rng
    dt_, name = dtype(rng), rng.choice(list(CALC))
    shp = shape(rng, 2, 2)
    f, g = coefficients(rng, shp[-1], dt_)
    zero = rng.random() < .25
    if zero: g = lambda t, x: torch.zeros_like(x)
    x = tensor(rng, shp, dt_, rng.choice([.1, 1., 5.]))
    t, dt = torch.tensor(rng.choice([0., .3, 1.7]), dtype=dt_), torch.tensor(rng.choice([1e-3, .01, .1, .25, 1.]), dtype=dt_)
    real = rng.random() < .5
    if real: W = BrownianInterval(t0=-1., t1=4., size=shp, dtype=dt_, entropy=rng.randrange(2 ** 31))
    else:
        P = tensor(rng, shp, dt_)
        W = lambda a, b: (torch.sin(P * (1 + b)) - torch.sin(P * (1 + a))) * 2
    noise = rng.choice(NOISE)
    s = SDEFunc(f, g, noise_type=noise, sde_type=CALC[name])
    solver = sde_str_to_solver(name, s, W, dt_) if rng.random() < .5 else SDE_SOLVER_DICT[name](s, W, dt_)
    c.note(solver=name, noise=noise, shape=shp, dtype=dt_, t=float(t), dt=float(dt), brownian=real, zero=zero)
    keep = [v.clone() for v in (x, t, dt)]
    out = solver.step(x, t, dt)[1]
    for a, b in zip(keep, (x, t, dt)): close(b, a, 0., 'an input of the step changed')
    close(out, reference(name, f, g, W, x, t, dt), None, 'the step')
    if zero: close(out, x + dt * f(t, x), None, 'the step without diffusion')


def refusal(c):
    rng = c.rng
    name, st = rng.choice(list(CALC)), rng.choice(['ito', 'stratonovich'])
    nt = rng.choice(NOISE + ['weird', None, 'Diagonal', 'jump'])
    how = rng.choice(['name', 'class', 'sdeint'])
    c.note(solver=name, calculus=st, noise=nt, how=how)
    f, g = coefficients(rng, 2, F64)
    s = SDEFunc(f, g, noise_type=nt, sde_type=st)
    bm = BrownianInterval(t0=0., t1=1., size=(3, 2), dtype=F64)
    try:
        if how == 'name': sde_str_to_solver(name, s, bm)
        elif how == 'class': SDE_SOLVER_DICT[name](s, bm)
        else: sdeint(s, torch.ones(3, 2, dtype=F64), torch.linspace(0, 1, 3, dtype=F64), name, bm)
        built = True
    except ValueError: built = False
    ok = st == CALC[name] and nt in NOISE
    c.require(built == ok, f"{name} {'accepts' if built else 'refuses'} an equation of {st} calculus with {nt} noise")


SCENARIOS = {'step': Scen(step, 250, 4000), 'refusal': Scen(refusal, 100, 1000)}
