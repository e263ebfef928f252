from vc.gen import *
from torchdyn.core import ODEProblem
from torchdyn.numerics import odeint


class Net(nn.Module):
    "time-dependent coupled field with a frozen, an unused and several used parameters in any order"
    def __init__(self, rng, dim, time=True):
        super().__init__()
        mk = dict(A=lambda: nn.Parameter(tensor(rng, (dim, dim), scale=.7 / math.sqrt(dim))), b=lambda: nn.Parameter(tensor(rng, (dim,), scale=.5)),
                  frozen=lambda: nn.Parameter(tensor(rng, (dim,)), requires_grad=False), unused=lambda: nn.Parameter(tensor(rng, (3,))))
        names = list(mk)
        rng.shuffle(names)
        for n in names:
            if n == 'unused' and rng.random() < .5: continue
            setattr(self, n, mk[n]())
        self.w = rng.uniform(.5, 2.5) if time else 0.
    def forward(self, t, x, args={}):
        z = torch.sin(x @ self.A + self.b) - .3 * x * self.frozen.tanh()
        return z + torch.cos(self.w * t) * .7 * (1 + .2 * x) if self.w else z


def exact(f, x0, ts, running=None, sub=12, fine=None):
    "states at the times by small Runge-Kutta steps, differentiable with respect to everything, and the integral of the running loss"
    out, I = [x0], 0.
    for a, b in zip(ts[:-1], ts[1:]):
        m = fine or max(sub, int(sub * abs(float(b - a)) / .1) + 1)
        h = (b - a) / m
        for k in range(m):
            def g(t, z):
                x = z[0]
                return (f(t, x), running(t, x).sum() if running else torch.zeros((), dtype=x.dtype))
            t, x = a + k * h, out[-1] if k == 0 else x
            k1 = g(t, (x,)); k2 = g(t + h / 2, (x + h / 2 * k1[0],)); k3 = g(t + h / 2, (x + h / 2 * k2[0],)); k4 = g(t + h, (x + h * k3[0],))
            x = x + h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0])
            I = I + h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1])
        out.append(x)
    return torch.stack(out), I


def make_loss(rng, shp):
    "weights of every returned state, some of them zero, quadratic and linear parts"
    kind = rng.choice(['all', 'all', 'some', 'last', 'first', 'one'])
    n = shp[0]
    keep = {'all': range(n), 'some': [i for i in range(n) if rng.random() < .5] or [0], 'last': [n - 1], 'first': [0], 'one': [rng.randrange(n)]}[kind]
    W, Q = torch.zeros(shp, dtype=F64), torch.zeros(shp, dtype=F64)
    for i in keep: W[i], Q[i] = tensor(rng, shp[1:]), tensor(rng, shp[1:], scale=.5)
    return kind, lambda s: (W * s).sum() + (Q * s * s).sum()


def gradients(c, sens):
    rng = c.rng
    shp = (rng.randint(1, 3), rng.randint(1, 3)) if sens != 'adjoint' or rng.random() < .6 else shape(rng, 1, 3, 3)
    f = Net(rng, shp[-1], rng.random() < .8)
    fixed = rng.random() < .4
    reverse = rng.random() < .3
    rev_ok = reverse
    if fixed or sens != 'adjoint':
        n = rng.randint(45, 60) if sens != 'adjoint' else rng.randint(20, 40)
        ts = grid(rng, n=n, span=rng.choice([.5, 1.]), uniform=None if fixed and sens == 'adjoint' else True, reverse=rev_ok)
    else: ts = grid(rng, n=rng.choice([2, 3, 4, 6]), span=rng.choice([.5, 1., 1.5]), reverse=rev_ok)
    x0 = tensor(rng, shp).requires_grad_()
    tgrad = sens == 'adjoint' and rng.random() < .4
    pick = sorted(rng.sample(range(len(ts)), rng.choice([1, 2, 3, 5]))) if fixed and rng.random() < .5 and not tgrad else None
    running = (lambda t, x: (x ** 2).sum(-1) * .5) if rng.random() < .3 else None
    tol_f, tol_b = (1e-9, 1e-9)
    sf = str_solver('rk4' if fixed else rng.choice(['dopri5', 'tsit5']))
    sb = rng.choice([None, str_solver('dopri5'), str_solver('tsit5')]) if not fixed else str_solver('dopri5')
    c.note(sens=sens, shape=shp, fixed=fixed, times=ts.tolist() if len(ts) < 8 else [float(ts[0]), float(ts[-1]), len(ts)], pick=pick, running=running is not None, tgrad=tgrad, adjoint_solver=type(sb).__name__)
    p = ODEProblem(f, sf, sensitivity=sens, solver_adjoint=sb, atol=tol_f, rtol=tol_f, atol_adjoint=tol_b, rtol_adjoint=tol_b, integral_loss=running)
    want = ts[pick] if pick else ts
    kind, loss = make_loss(rng, (len(want),) + shp)
    c.note(loss=kind)
    tin = ts.clone().requires_grad_() if tgrad else ts
    te, sol = p(x0, tin, **(dict(save_at=want) if pick else {}))
    same_times(te.detach(), want)
    ps = [(n, q) for n, q in f.named_parameters() if q.requires_grad]
    for q in f.parameters(): q.grad = None
    loss(sol).backward()
    got = dict(x0=x0.grad.clone(), **{n: (q.grad.clone() if q.grad is not None else torch.zeros_like(q)) for n, q in ps})
    for n, q in f.named_parameters():
        if not q.requires_grad: c.require(q.grad is None, f"the frozen parameter {n} got a gradient")
    if tgrad: got['times'] = tin.grad.clone()
    xr, tr = x0.detach().clone().requires_grad_(), ts.clone().requires_grad_()
    ref, I = exact(f, xr, tr, running, fine=2 if fixed or sens != 'adjoint' else None)
    close(sol, ref[pick] if pick else ref, 1e-4, 'states')
    L = loss(ref[pick] if pick else ref)
    # with respect to the times, only the loss on the states; the running loss acts on state and parameters
    lk = [xr] + [q for _, q in ps]
    gr = torch.autograd.grad(L + (I if running else 0.), lk, allow_unused=True, retain_graph=True)
    if running and pick and pick[-1] != len(ts) - 1: return   # the running loss then ends at the last returned time
    scale = 1 + max(float(g.abs().max()) for g in gr if g is not None)
    rel = (2e-5 if sens == 'adjoint' else 2e-3) * scale
    for (n, q), g in zip([('x0', xr)] + ps, gr):
        g = torch.zeros_like(q) if g is None else g
        d = float((got[n] - g).abs().max())
        c.require(got[n].shape == g.shape and d < rel, f"gradient of a loss on {kind} state(s) with respect to {n}: {got[n].flatten()[:3].tolist()} instead of {g.flatten()[:3].tolist()}")
    if tgrad and not running:
        g = torch.autograd.grad(L, tr)[0]
        c.require(float((got['times'] - g).abs().max()) < 1e-4 * scale * (1 if not fixed else 30), f"gradient with respect to the times: {got['times'][:4].tolist()} instead of {g[:4].tolist()}")


def adjoint(c): gradients(c, 'adjoint')


class Counter:
    "an adjoint solver which counts its steps and records its tolerances"
    def __init__(self, inner): self.inner, self.n = inner, 0
    def __getattr__(self, k): return getattr(self.inner, k)
    def step(self, *a, **k): self.n += 1; return self.inner.step(*a, **k)


def settings_of(c, sens):
    "the backward pass uses the adjoint's own solver, and its tolerances decide the effort"
    rng = c.rng
    f = Net(rng, 2)
    ts = torch.linspace(0, rng.choice([1., 2.]), rng.choice([10, 21]), dtype=F64)
    x0 = tensor(rng, (3, 2)).requires_grad_()
    used = []
    for tol in (1e-2, 1e-10):
        fw, bw = Counter(str_solver('rk4')), Counter(str_solver('dopri5'))
        p = ODEProblem(f, fw, sensitivity=sens, solver_adjoint=bw, atol=.1, rtol=.1, atol_adjoint=tol, rtol_adjoint=tol)
        te, sol = p(x0, ts)
        n = fw.n
        c.require(bw.n == 0 and n > 0, 'the forward pass uses the forward solver')
        sol[-1].sum().backward()
        c.require(fw.n == n, "the backward pass used the forward solver")
        c.require(bw.n > 0, "the backward pass did not use the adjoint solver")
        used.append(bw.n)
    c.note(steps=used)
    c.require(used[1] > 1.3 * used[0], f"steps of the backward solve with adjoint tolerances 1e-2 and 1e-10: {used}")


SCENARIOS = {'adjoint': Scen(adjoint, 40, 600), 'settings': Scen(lambda c: settings_of(c, 'adjoint'), 3, 20)}
