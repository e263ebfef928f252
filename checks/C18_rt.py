from vc.gen import *
from torchdyn.models import GNF, HNN, LNN
from torchdyn.core import NeuralODE
from torch.autograd.functional import jacobian, hessian


class Energy(nn.Module):
    "smooth energies, with a definite Hessian in the last half if asked to"
    def __init__(self, rng, d, regular=False):
        super().__init__()
        self.A, self.b = nn.Parameter(tensor(rng, (d, 4), scale=.5)), nn.Parameter(tensor(rng, (4,), scale=.5))
        self.k, self.regular, self.d, self.column = rng.choice(['tanh', 'sin', 'quartic']), regular, d, rng.random() < .5
    def forward(self, x):
        z = x @ self.A + self.b
        e = {'tanh': torch.tanh, 'sin': torch.sin, 'quartic': lambda v: .1 * v ** 4 + v ** 2}[self.k](z).sum(-1)
        if self.regular:
            v = x[..., self.d // 2:]
            e = .3 * e + (3 + .5 * torch.cos(x[..., 0])) * (v ** 2).sum(-1) + .2 * v.sum(-1) * x[..., 0] + .1 * (v ** 4).sum(-1)
        return e[..., None] if self.column else e


def field(c):
    rng = c.rng
    kind = rng.choice(['GNF', 'HNN', 'LNN'])
    n, b = rng.randint(1, 3), rng.randint(1, 4)
    d = n if kind == 'GNF' else 2 * n
    e = Energy(rng, d, kind == 'LNN')
    m = {'GNF': GNF, 'HNN': HNN, 'LNN': LNN}[kind](e)
    x0 = tensor(rng, (b, d))
    how = rng.choice(['grad', 'no_grad', 'leaf', 'computed']) if kind != 'LNN' else rng.choice(['grad', 'leaf', 'no_grad'])
    c.note(kind=kind, n=n, batch=b, energy=e.k, how=how)
    x = x0.clone()
    if how == 'leaf': x.requires_grad_(True)
    if how == 'computed': x = x0.clone().requires_grad_(True) * 1.
    with torch.set_grad_enabled(how != 'no_grad'): out = m(x)
    close(x, x0, 0., 'the state changed')
    rows = []
    for k in range(b):
        one = lambda v: e(v[None]).sum()
        g = jacobian(one, x0[k], create_graph=True)
        if kind == 'GNF': rows.append(-g)
        elif kind == 'HNN': rows.append(torch.cat([g[n:], -g[:n]]))
        else:
            H = hessian(one, x0[k], create_graph=True)
            v = x0[k][n:]
            rows.append(torch.cat([v, torch.linalg.solve(H[n:, n:], g[:n] - H[n:, :n] @ v)]))
            res = H[n:, n:] @ out[k, n:] + H[n:, :n] @ v - g[:n]
            close(res, torch.zeros(n, dtype=F64), 1e-8, 'Euler-Lagrange residual')
        if kind == 'HNN': close((g * out[k]).sum()[None], torch.zeros(1, dtype=F64), 1e-9, 'derivative of the Hamiltonian along the field')
    ref = torch.stack(rows)
    close(out, ref, 1e-8, 'field')
    if how != 'no_grad':
        w = tensor(rng, out.shape)
        g = torch.autograd.grad((out * w).sum(), tuple(e.parameters()), allow_unused=True)
        r = torch.autograd.grad((ref * w).sum(), tuple(e.parameters()), allow_unused=True)
        for a, q in zip(g, r): close(torch.zeros_like(q) if a is None else a, q, 1e-7, 'gradient of the parameters')
    one = m(x0[:1].clone())
    close(one, out[:1], 1e-9, 'a sample alone moves as within a batch')


def flows(c):
    "integrated: energies decrease, stay, and the Lagrangian energy stays"
    rng = c.rng
    kind, n, b = rng.choice(['GNF', 'HNN', 'LNN']), rng.randint(1, 2), rng.randint(1, 2)
    d = n if kind == 'GNF' else 2 * n
    e = Energy(rng, d, kind == 'LNN')
    m = NeuralODE({'GNF': GNF, 'HNN': HNN, 'LNN': LNN}[kind](e), str_solver('rk4'))
    x0, ts = tensor(rng, (b, d), scale=.5), torch.linspace(0, .5, 41, dtype=F64)
    c.note(kind=kind, n=n)
    sol = m.trajectory(x0, ts).detach()
    E = e(sol).reshape(len(ts), b)
    if kind == 'GNF': c.require(bool((E[1:] <= E[:-1] + 1e-7).all()), 'the energy increases along a gradient flow')
    if kind == 'HNN': close(E, E[:1].expand(len(ts), b), 1e-5, 'the Hamiltonian along its flow')
    if kind == 'LNN':
        def en(z):
            g = jacobian(lambda v: e(v[None]).sum(), z)
            return (g[n:] * z[n:]).sum() - e(z[None]).sum()
        a, z = en(sol[0, 0]), en(sol[-1, 0])
        close(z[None], a[None], 1e-4, 'the energy of the Lagrangian system')


SCENARIOS = {'field': Scen(field, 120, 1500), 'flows': Scen(flows, 12, 120)}
