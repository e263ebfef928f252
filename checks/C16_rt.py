from vc.gen import *
from torchdyn.core import NeuralODE, NeuralSDE
from torchdyn.core.defunc import DEFunc
from torchdyn.nn import Augmenter, DepthCat, DataControl
from torchdyn.models import CNF, hutch_trace, autograd_trace


def augment(c):
    rng = c.rng
    rank = rng.randint(1, 5)
    sh = tuple(rng.randint(1, 4) for _ in range(rank))
    dim, order, a = rng.randrange(-rank, rank), rng.choice(['first', 'last']), rng.randint(1, 6)
    dt = rng.choice([F64, F64, F32, torch.float16])
    x = tensor(rng, sh, dt)
    zs = list(sh); zs[dim] = a
    W = tensor(rng, zs, rng.choice([dt, F64]))
    func = (lambda v: W * v.sum()) if rng.random() < .5 else None
    c.note(shape=sh, dim=dim, order=order, dims=a, dtype=dt, func=func is not None)
    keep = x.clone()
    m = Augmenter(augment_idx=dim, augment_dims=a, augment_func=func, order=order)
    for k in range(2):
        out = m(x)
        c.require(torch.equal(x, keep), 'the input changed')
        c.require(out.dtype == dt, f"result of type {out.dtype}")
        want = list(sh); want[dim] += a
        c.require(tuple(out.shape) == tuple(want), f"shape {tuple(out.shape)} instead of {tuple(want)}")
        st, n = (a, sh[dim]) if order == 'first' else (0, sh[dim])
        c.require(torch.equal(out.narrow(dim, st, n), x), "entries of the input changed or moved")
        ex = out.narrow(dim, 0 if order == 'first' else n, a)
        ref = torch.zeros(zs, dtype=dt) if func is None else func(x).to(dt)
        c.require(torch.equal(ex, ref), "augmented components")


def depth(c):
    rng = c.rng
    rank = rng.randint(2, 4)
    sh = tuple(rng.randint(1, 4) for _ in range(rank))
    dim, dt = rng.randrange(-rank, rank), dtype(rng)
    m = DepthCat(dim)
    class Net(nn.Module):
        def __init__(self): super().__init__(); self.l = nn.ModuleList([nn.Sequential(m, nn.Identity())]); self.other = DepthCat(1)
        def forward(self, t, x, args={}): return self.l[0](x)
    f = DEFunc(Net())
    c.note(shape=sh, dim=dim, dtype=dt)
    for k in range(3):
        x, t = tensor(rng, sh, dt), torch.tensor(rng.uniform(-2, 2), dtype=dt)
        if rng.random() < .3: t = t[None]
        out = f(t, x)
        want = list(sh); want[dim] += 1
        c.require(tuple(out.shape) == tuple(want) and out.dtype == dt, f"shape {tuple(out.shape)} instead of {tuple(want)}, type {out.dtype}")
        c.require(torch.equal(out.narrow(dim, 0, sh[dim]), x), "entries of the input changed or moved")
        c.require(bool((out.narrow(dim, sh[dim], 1) == t).all()), "the depth is not the current time")


class Log(DataControl):
    def __init__(self): super().__init__(); self.seen = []
    def forward(self, x):
        out = super().forward(x)
        self.seen.append((x.detach().clone(), out.detach().clone()))
        return out


class Net(nn.Module):
    def __init__(self, rng, d, depth):
        super().__init__()
        self.c1, self.depth, self.d = Log(), DepthCat(1) if depth else None, d
        self.inner = nn.ModuleList([nn.Sequential(Log(), nn.Linear(3 * d + bool(depth), d, dtype=F64))])
        g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
        for p in self.parameters():
            with torch.no_grad(): p.copy_(.4 * torch.randn(p.shape, generator=g, dtype=F64))
    def forward(self, x):
        h = self.c1(x)
        if self.depth is not None: h = self.depth(h)
        return torch.tanh(self.inner[0](h))


def control(c):
    "during a whole integration, forward and backward, and for every later call"
    rng = c.rng
    d, b = rng.randint(1, 3), rng.randint(1, 3)
    flow = rng.choice([None, None, 'exact', 'noise'])
    running = rng.random() < .4
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']) if flow is None else rng.choice(['autograd', 'adjoint'])
    excess = int(running and sens == 'autograd') + int(flow is not None)
    deep = rng.random() < .5
    net = Net(rng, d, deep)
    field = net if flow is None else CNF(net, trace_estimator=autograd_trace if flow == 'exact' else hutch_trace, noise_dist=torch.distributions.MultivariateNormal(torch.zeros(d, dtype=F64), torch.eye(d, dtype=F64)) if flow == 'noise' else None)
    solver = rng.choice(['euler', 'rk4', 'dopri5'])
    m = NeuralODE(field, str_solver(solver), sensitivity=sens, atol=1e-4, rtol=1e-4, integral_loss=(lambda t, x: (x ** 2).sum(1)) if running else None, solver_adjoint=str_solver('rk4'))
    c.note(flow=flow, running=running, sens=sens, solver=solver, d=d, batch=b, depth=deep)
    logs = [net.c1, net.inner[0][0]]
    for k in range(rng.randint(1, 3)):
        x0 = tensor(rng, (b, d + excess))
        data = x0[:, excess:].clone()
        x = x0.clone().requires_grad_(True)
        for l in logs: l.seen.clear()
        ts = grid(rng, span=.5)
        if rng.random() < .3: out = m.trajectory(x, ts)
        else:
            out = m(x, ts)[1]
            if rng.random() < .7: out.pow(2).sum().backward()
        c.require(all(len(l.seen) > 0 for l in logs), 'the control layers are not evaluated')
        for l in logs:
            for xin, xout in l.seen:
                c.require(tuple(xout.shape) == (xin.shape[0], xin.shape[1] + d), f"control layer maps {tuple(xin.shape)} to {tuple(xout.shape)}")
                c.require(torch.equal(xout[:, :xin.shape[1]], xin), 'the state is changed by the control layer')
                c.require(torch.equal(xout[:, xin.shape[1]:], data), 'the control is not the data of the initial condition of this call')


def control_sde(c):
    "every call of a NeuralSDE"
    rng = c.rng
    d, b = rng.randint(1, 3), rng.randint(1, 3)
    nets = [Net(rng, d, False), Net(rng, d, False)]
    m = NeuralSDE(*nets, solver='euler')
    for k in range(rng.randint(1, 3)):
        x = tensor(rng, (b, d))
        data, ts = x.clone(), grid(rng, span=.5)
        m.bm = lambda a, e: torch.full((b, d), .1, dtype=F64) * float(e - a) ** .5
        logs = [n.c1 for n in nets] + [n.inner[0][0] for n in nets]
        for l in logs: l.seen.clear()
        c.note(d=d, batch=b, call=k)
        m.trajectory(x, ts) if rng.random() < .3 else m(x, ts)
        for l in logs:
            c.require(len(l.seen) > 0, 'a control layer is not evaluated')
            for xin, xout in l.seen:
                c.require(torch.equal(xout[:, :xin.shape[1]], xin), 'the state is changed by the control layer')
                c.require(torch.equal(xout[:, xin.shape[1]:], data), 'the control is not the data of the initial condition of this call')


SCENARIOS = {'control_sde': Scen(control_sde, 30, 400), 'augment': Scen(augment, 150, 2000), 'depth': Scen(depth, 100, 1500), 'control': Scen(control, 60, 800)}
