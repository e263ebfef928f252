import contextlib, itertools, torch
from vc import core, spec, arr
from vc.core import Unsupported
from vc.arr import Arr, fn, same, lift


class Energy(torch.nn.Module):
    "an arbitrary scalar function of every sample, with parameters"
    def __init__(self, column): super().__init__(); self.column, self.p = column, Arr.sym('p', 2, rg=True)
    def forward(self, x):
        if x.ndim == 1: out = Arr.of((1,) if self.column else (), lambda *i: fn('E', *x.a, *self.p.a))
        else: out = Arr.of((x.shape[0],) + ((1,) if self.column else ()), lambda b, *i: fn('E', *x.a[b], *self.p.a))
        out.rg = torch.is_grad_enabled()
        return out if out.rg else out.detach()


def d(x, p, b, *i): return fn("E'" + ','.join(map(str, sorted(i))), *x.a[b], *p.a)


def common(s, w, m, net, x, ref, enabled):
    with torch.set_grad_enabled(enabled): out = m(x)
    s.check(tuple(out.shape) == tuple(ref.shape), "one derivative per component", where=w)
    return out


def derivative(s, w, out, ref, p):
    wgt = Arr.sym('w', *ref.shape)
    g, = arr.grad(out, (p,), wgt, allow_unused=True)
    def term(q):
        r = arr.add_all([None if e is None else v * e for v, e in ((wgt.a[i], arr.diff(arr.resolve(ref.a[i]), q)) for i in itertools.product(*map(range, ref.shape)))])
        return core.real(0) if r is None else r
    s.check(g is not None and same(g, Arr.of((2,), lambda i: term(p.a[i]))), "differentiable with respect to the parameters", where=w)


def gradient(s, tier):
    E = spec.mod('torchdyn.models.energy')
    for n, batch, column, enabled, needs in itertools.product((1, 2, 3, 4), (1, 2, 3), (False, True), (True, False), (False, True)):
        net = Energy(column)
        m = E.GNF(net)
        for again in range(2):
            x = Arr.sym(f'x{again}', batch, n, rg=needs, tag='input')
            y = Arr(x.a.copy())
            ref = Arr.of((batch, n), lambda b, i: -d(y, net.p, b, i))
            out = common(s, 'GNF.forward', m, net, x, ref, enabled)
            s.check(same(out, ref), "minus the gradient of the energy, sample by sample", where='GNF.forward')
            if enabled: derivative(s, 'GNF.forward', out, ref, net.p)


def hamiltonian(s, tier):
    E = spec.mod('torchdyn.models.energy')
    for n, batch, column, enabled, needs in itertools.product((1, 2, 3), (1, 2, 3), (False, True), (True, False), (False, True)):
        net = Energy(column)
        m = E.HNN(net)
        for again in range(2):
            x = Arr.sym(f'x{again}', batch, 2 * n, rg=needs, tag='input')
            y = Arr(x.a.copy())
            ref = Arr.of((batch, 2 * n), lambda b, i: d(y, net.p, b, i + n) if i < n else -d(y, net.p, b, i - n))
            out = common(s, 'HNN.forward', m, net, x, ref, enabled)
            s.check(same(out, ref), "the symplectic rotation of the gradient of the Hamiltonian", where='HNN.forward')
            along = Arr.of((batch,), lambda b: arr.add_all([d(y, net.p, b, i) * out.a[b, i] for i in range(2 * n)]))
            s.check(same(along, arr.zeros((batch,))), "the Hamiltonian does not change along the field", where='HNN.forward')
            if enabled: derivative(s, 'HNN.forward', out, ref, net.p)


def jacobian(f, x, create_graph=False, strict=False, vectorize=False, **k):
    with torch.enable_grad():
        v = Arr(x.a.copy()).detach() if False else x
        if not v.rg: v = v.requires_grad_(True)
        y = f(v)
        if y.a.ndim == 0: return arr.grad(y, v, create_graph=True)[0]
        flat = y.reshape(-1)
        return arr.stack([arr.grad(flat[i], v, create_graph=True)[0] for i in range(y.a.size)]).reshape(tuple(y.shape) + tuple(v.shape))


def hessian(f, x, create_graph=False, strict=False, vectorize=False, **k):
    if x.a.ndim != 1: raise Unsupported('hessian')
    with torch.enable_grad():
        g = jacobian(f, x)
        return arr.stack([arr.grad(g[i], x if x.rg else x.requires_grad_(True), create_graph=True)[0] for i in range(len(x))])


def lagrangian(s, tier):
    E = spec.mod('torchdyn.models.energy')
    import torch.autograd.functional as F
    for n, batch, column in itertools.product((1, 2), (1, 2, 3), (False, True)):
        if n == 2 and batch == 3: continue
        net = Energy(column)
        m = E.LNN(net)
        old = F.jacobian, F.hessian
        F.jacobian, F.hessian = jacobian, hessian
        try:
            with spec.replaced(E, jacobian=jacobian, hessian=hessian):
                for again in range(2 if n == 1 else 1):
                    x = Arr.sym(f'x{again}', batch, 2 * n, tag='input')
                    y = Arr(x.a.copy())
                    out = m(x)
                    w = 'LNN.forward'
                    s.check(tuple(out.shape) == (batch, 2 * n), "one derivative per component", where=w)
                    s.check(same(out[:, :n], y[:, n:]), "positions move with the velocities", where=w)
                    # d/dt dL/dv = dL/dq:  L_vv a + L_vq v = L_q
                    res = Arr.of((batch, n), lambda b, i: arr.add_all([d(y, net.p, b, n + i, n + j) * out.a[b, n + j] for j in range(n)] + [d(y, net.p, b, n + i, j) * y.a[b, n + j] for j in range(n)] + [-d(y, net.p, b, i)]))
                    s.check(same(res, arr.zeros((batch, n))), "accelerations solve the Euler-Lagrange equations, sample by sample", where=w)
                    if n == 1:
                        ref = Arr.of((batch, 2), lambda b, i: y.a[b, 1] if i == 0 else (d(y, net.p, b, 0) - d(y, net.p, b, 0, 1) * y.a[b, 1]) / d(y, net.p, b, 1, 1))
                        derivative(s, w, out, ref, net.p)
        finally: F.jacobian, F.hessian = old


def harnesses(tier):
    yield dict(name="gradient flow", direct=lambda s: gradient(s, tier), bounded='up to 4 components, batches of up to 3')
    yield dict(name="Hamiltonian field", direct=lambda s: hamiltonian(s, tier), bounded='up to 3 degrees of freedom, batches of up to 3')
    yield dict(name="Lagrangian field", direct=lambda s: lagrangian(s, tier), bounded='up to 2 degrees of freedom, batches of up to 3')
