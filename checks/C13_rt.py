from vc.gen import *
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.defunc import DEFunc, DEFuncBase
from torchdyn.nn import DepthCat


class Sub(nn.Module):
    def __init__(self, t=True):
        super().__init__()
        if t: self.t = None
    def forward(self, x): return x


class Vf(nn.Module):
    def __init__(self, rng, n, d, args):
        super().__init__()
        self.A = nn.Parameter(tensor(rng, (n, d)))
        self.sub = nn.ModuleList([nn.Sequential(Sub(rng.random() < .7), nn.Sequential(Sub(True))) for _ in range(rng.randint(1, 3))])
        self.seen, self.want = [], args
    def forward(self, t, x, args={}):
        self.seen.append((t, args, [m.t for m in self.modules() if hasattr(m, 't')]))
        return torch.tanh(x @ self.A) + torch.as_tensor(t, dtype=x.dtype) * x[:, :1] + args.get('c', 0.)


def wrapped(c):
    rng = c.rng
    order, d, b = rng.randint(1, 6), rng.randint(1, 4), rng.randint(1, 5)
    running = rng.choice([None, 'vector', 'column'])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    aug = running is not None and sens == 'autograd'
    c.note(order=order, block=d, batch=b, running=running, sens=sens)
    vf = Vf(rng, d * order, d, None)
    f = DEFunc(vf, order)
    loss = lambda t, x: (x ** 2).sum(1, keepdim=running == 'column') * (1 + t)
    if running: f.integral_loss = loss
    f.sensitivity = sens
    x, t = tensor(rng, (b, d * order + aug)), torch.tensor(rng.uniform(-1, 2), dtype=F64)
    args = {'c': rng.uniform(-1, 1)} if rng.random() < .5 else {}
    keep = x.clone()
    for k in range(2):
        out = f(t, x, args=args)
        c.require(f.nfe == k + 1, f"counted {f.nfe} evaluations after {k + 1}")
    close(x, keep, 0., 'the state passed to the field changed')
    c.require(all(s[0] is t and all(u is t for u in s[2]) for s in vf.seen) and vf.seen[-1][1] == args, 'time and arguments reach field and submodules')
    y = x[:, 1:] if aug else x
    ref = [y[:, d * i:d * (i + 1)] for i in range(1, order)] + [vf(t, y, args=args)]
    if aug: ref = [loss(t, y).reshape(b, 1)] + ref
    close(out, torch.cat(ref, 1), 1e-12, 'derivative')


def integrated(c):
    "the companion system integrated: against the first-order system written out; the running loss against its quadrature"
    rng = c.rng
    order, d, b = rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 3)
    running = rng.random() < .5
    A = tensor(rng, (d * order, d), scale=.6)
    class V(nn.Module):
        def __init__(self): super().__init__(); self.p = nn.Parameter(A.clone())
        def forward(self, t, x, args={}): return torch.sin(x @ self.p) - .2 * x[:, :d] * t
    loss = (lambda t, x: (x ** 2).sum(1)) if running else None
    ts = grid(rng, n=rng.choice([2, 5, 9]), span=1.)
    x0 = tensor(rng, (b, d * order))
    v = V()
    m = NeuralODE(v, order=order, solver=str_solver('rk4'), sensitivity='autograd', integral_loss=loss)
    z0 = torch.cat([torch.zeros(b, 1, dtype=F64), x0], 1) if running else x0
    te, sol = m(z0, ts)
    def g(t, z):
        y = z[:, 1:] if running else z
        parts = [y[:, d * i:d * (i + 1)] for i in range(1, order)] + [v(t, y)]
        return torch.cat(([loss(t, y)[:, None]] if running else []) + parts, 1)
    c.note(order=order, running=running, times=ts.tolist())
    close(sol, ref_fixed(g, z0, ts, 'rk4'), 1e-6, 'trajectory')


SCENARIOS = {'wrapped': Scen(wrapped, 150, 3000), 'integrated': Scen(integrated, 40, 600)}
