from vc.gen import *
from torchdyn.numerics import odeint_mshooting, odeint
from torchdyn.numerics.solvers.ode import MSZero, MSBackward, str_to_ms_solver
from torchdyn.core import MultipleShootingProblem


def setup(c, coupled=True):
    rng = c.rng
    shp = shape(rng, 2, 2)
    n = rng.choice([2, 2, 3, 4, 5, 6, 8, 12, 17])
    span = rng.choice([.3, 1., 2.])
    t0 = rng.choice([0., 0., -1., 2.])
    ts = torch.linspace(t0, t0 + span, n, dtype=F64)
    x0 = tensor(rng, shp, F64)
    f = plain(rng, shp[-1], F64, time=False)
    coarse, fine = rng.choice(['euler', 'midpoint']), rng.choice(['rk4', 'midpoint'])
    steps, maxiter = rng.choice([2, 2, 3, 5]), rng.choice([0, 1, 2, 3, 5, 9])
    guess = rng.choice([None, 'random', 'coarse', 'zero'])
    c.note(shape=shp, n=n, t0=t0, span=span, coarse=coarse, fine=fine, fine_steps=steps, maxiter=maxiter, guess=guess)
    return rng, shp, n, ts, x0, f, coarse, fine, steps, maxiter, guess


def flow(f, name, ts, steps):
    sub = torch.linspace(0, float(ts[1] - ts[0]), steps, dtype=F64)
    return lambda x: ref_fixed(f, x, sub, name)[-1]


def guesses(rng, guess, f, x0, ts, coarse):
    if guess is None: return None, ref_fixed(f, x0, ts, coarse)
    if guess == 'coarse': b = ref_fixed(f, x0, ts, coarse)
    elif guess == 'zero': b = torch.zeros(len(ts), *x0.shape, dtype=F64)
    else: b = tensor(rng, (len(ts), *x0.shape), F64)
    b[0] = x0
    return b, b


def parareal(c):
    rng, shp, n, ts, x0, f, coarse, fine, steps, maxiter, guess = setup(c)
    b, P = guesses(rng, guess, f, x0, ts, coarse)
    keep = None if b is None else b.clone()
    G, F = flow(f, coarse, ts, steps), flow(f, fine, ts, steps)
    s = MSZero(coarse, fine)
    te, B = odeint_mshooting(f, x0, ts, s, B0=b, fine_steps=steps, maxiter=maxiter)
    seq = [x0]
    for _ in range(n - 1): seq.append(F(seq[-1]))
    seq = torch.stack(seq)
    for k in range(maxiter + 1):
        new = [P[0]]
        for m in range(1, n): new.append(G(new[-1]) + F(P[m - 1]) - G(P[m - 1]))
        P = torch.stack(new)
    same_times(te, ts)
    close(B, P, 1e-6, f"shooting parameters after {maxiter + 1} iterations")
    m = min(maxiter + 2, n)
    close(B[:m], seq[:m], 1e-6, f"the first {m} parameters after {maxiter + 1} iterations")
    if b is not None: c.require(torch.equal(b, keep), "the guess was modified")
    if rng.random() < .3:
        name = rng.choice(['zero', 'mszero', 'parareal'])
        s2 = str_to_ms_solver(name)
        _, B2 = odeint_mshooting(f, x0, ts, name, fine_steps=steps, maxiter=n + 3)
        e = [x0]
        F4 = flow(f, 'rk4', ts, steps)
        for _ in range(n - 1): e.append(F4(e[-1]))
        close(B2, torch.stack(e), 1e-6, "enough iterations of the solver by name")


def backward(c):
    rng, shp, n, ts, x0, f, coarse, fine, steps, maxiter, guess = setup(c)
    b, P = guesses(rng, guess, f, x0, ts, coarse)
    F = flow(f, fine, ts, steps)
    x = x0.clone().requires_grad_(rng.random() < .3)
    with torch.set_grad_enabled(rng.random() < .7):
        te, B = odeint_mshooting(f, x, ts, MSBackward(coarse, fine), B0=b, fine_steps=steps, maxiter=maxiter)
    same_times(te, ts)
    seq = [x0]
    for _ in range(n - 1): seq.append(F(seq[-1]))
    m = min(maxiter + 2, n)
    close(B[:m], torch.stack(seq)[:m], 1e-6, f"the first {m} parameters after {maxiter + 1} iterations of the discrete adjoint")
    c.require(tuple(B.shape) == (n, *shp), f"shape {tuple(B.shape)}")


def more(c):
    "further iterations change nothing; problem class agrees with the functional interface"
    rng, shp, n, ts, x0, f, coarse, fine, steps, maxiter, guess = setup(c)
    k = n - 2 + rng.randint(0, 2)
    s = MSZero(coarse, fine)
    _, a = odeint_mshooting(f, x0, ts, s, fine_steps=steps, maxiter=k)
    _, b = odeint_mshooting(f, x0, ts, s, fine_steps=steps, maxiter=k + rng.randint(1, 5))
    close(a, b, 1e-7, "further iterations")
    with torch.no_grad():
        _, p = MultipleShootingProblem(f, MSZero(coarse, fine), sensitivity='autograd', maxiter=k, fine_steps=steps)(x0, ts)
    close(p, a, 1e-7, "the problem class")


SCENARIOS = {'parareal': Scen(parareal, 250, 4000), 'backward': Scen(backward, 150, 2500), 'more': Scen(more, 60, 800)}
