from vc.gen import *
from torchdyn.core import NeuralODE
from torchdyn.models import CNF, hutch_trace, autograd_trace
from torch.autograd.functional import jacobian


class Net(nn.Module):
    def __init__(self, rng, d):
        super().__init__()
        h = rng.randint(2, 5)
        self.l1, self.l2, self.kind = nn.Linear(d, h, dtype=F64), nn.Linear(h, d, dtype=F64), rng.choice(['tanh', 'square', 'linear', 'mixed'])
        g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
        for p in self.parameters():
            with torch.no_grad(): p.copy_(.7 * torch.randn(p.shape, generator=g, dtype=F64))
    def forward(self, x):
        if self.kind == 'linear': return self.l2(self.l1(x))
        r = self.l2(torch.tanh(self.l1(x)) if self.kind != 'square' else self.l1(x) ** 2)
        return r + x ** 3 * x.sum(1, keepdim=True) if self.kind == 'mixed' else r


def reference(net, y, noise=None):
    rows, outs = [], net(y)
    for b in range(len(y)):
        J = jacobian(lambda v: net(v[None])[0], y[b], create_graph=True)
        rows.append(-(J.trace() if noise is None else noise[b] @ J @ noise[b]))
    return torch.cat([torch.stack(rows)[:, None], outs], 1)


class Dist:
    def __init__(self, rng, d): self.rng, self.d, self.drawn = rng, d, []
    def sample(self, shape=()):
        self.drawn.append(tensor(self.rng, tuple(shape) + (self.d,)))
        return self.drawn[-1]


def derivative(c):
    rng = c.rng
    d, b = (rng.randint(1, 6) if rng.random() < .85 else rng.randint(7, 40)), rng.randint(1, 5)
    net = Net(rng, d)
    est = rng.choice(['exact', 'default', 'noise'])
    m = CNF(net, trace_estimator={'exact': autograd_trace, 'default': None, 'noise': hutch_trace}[est], noise_dist=Dist(rng, d) if est == 'noise' else None)
    x = tensor(rng, (b, d + 1))
    x[:, 0] *= 10 ** rng.uniform(-3, 4)
    noise = None
    if est == 'noise': noise = m.noise = tensor(rng, (b, d))
    how = rng.choice(['grad', 'no_grad', 'leaf'])
    if how == 'leaf': x.requires_grad_(True)
    c.note(est=est, d=d, batch=b, net=net.kind, how=how)
    keep = x.detach().clone()
    with torch.set_grad_enabled(how != 'no_grad'): out = m(x)
    ref = reference(net, keep[:, 1:], noise)
    close(x, keep, 0., 'the state changed')
    close(out, ref, 1e-9, 'derivative of the flow')
    if how != 'no_grad':
        w = tensor(rng, out.shape)
        g = torch.autograd.grad((out * w).sum(), tuple(net.parameters()), allow_unused=True, retain_graph=True)
        r = torch.autograd.grad((ref * w).sum(), tuple(net.parameters()), allow_unused=True)
        for a, e, (n, _) in zip(g, r, net.named_parameters()): close(torch.zeros(1) if a is None else a, torch.zeros(1) if e is None and a is None else torch.zeros_like(a) if e is None else e, 1e-8, f'gradient of {n}')


def integrated(c):
    "a whole flow: the log-density integrates minus the trace, noise is drawn once per call and sample"
    rng = c.rng
    d, b = rng.randint(1, 3), rng.randint(1, 4)
    net, est = Net(rng, d), rng.choice(['exact', 'noise'])
    if net.kind in ('mixed', 'square'): net.kind = 'tanh'
    dist = Dist(rng, d)
    m = NeuralODE(CNF(net, trace_estimator=autograd_trace if est == 'exact' else hutch_trace, noise_dist=dist if est == 'noise' else None), str_solver('rk4'), sensitivity=rng.choice(['autograd', 'adjoint']), solver_adjoint=str_solver('rk4'))
    nested = rng.random() < .3
    c.note(est=est, d=d, batch=b)
    for k in range(rng.randint(1, 3)):
        x0, ts = tensor(rng, (b, d + 1)), grid(rng, n=rng.choice([2, 4, 7]), span=1., reverse=rng.random() < .3)
        n = len(dist.drawn)
        with torch.set_grad_enabled(rng.random() < .8):
            out = m.trajectory(x0, ts) if rng.random() < .4 else m(x0, ts)[1]
        if est == 'noise': c.require(len(dist.drawn) == n + 1 and tuple(dist.drawn[-1].shape) == (b, d), f"{len(dist.drawn) - n} noise vectors of shape {tuple(dist.drawn[-1].shape)} drawn in one call")
        e = dist.drawn[-1] if est == 'noise' else None
        close(out, ref_fixed(lambda t, z: reference(net, z[:, 1:], e), x0, ts, 'rk4'), 2e-6, 'trajectory')


SCENARIOS = {'derivative': Scen(derivative, 120, 1500), 'integrated': Scen(integrated, 20, 200)}
