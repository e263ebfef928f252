import contextlib, io, itertools, torch, z3
from vc import core, spec, arr
from vc.core import real, Unsupported
from vc.arr import Arr, fn, same, lift


def ref_cat(a, b, dim):
    "[a, b] along dim, written out"
    sh = list(a.shape); dim %= len(sh)
    n = sh[dim]; sh[dim] = n + b.shape[dim]
    return Arr.of(tuple(sh), lambda *i: a.a[i] if i[dim] < n else b.a[i[:dim] + (i[dim] - n,) + i[dim + 1:]])


def shapes(tier):
    for rank in (2, 3, 4):
        for sh in itertools.product((1, 2, 3) if rank < 4 and tier == 'thorough' else (1, 2), repeat=rank): yield sh


def augment(s, tier):
    N = spec.mod('torchdyn.nn.node_layers')
    for sh in shapes(tier):
        for dim in list(range(len(sh))) + [-1]:
            for order in ('first', 'last'):
                for a in (1, 2, 5):
                    x = Arr.sym('x', *sh, tag='input')
                    zs = list(sh); zs[dim] = a
                    for how in ('zeros', 'function'):
                        kw = dict(order=order)
                        got = []
                        if how == 'function':
                            def f(v):
                                got.append(v)
                                return Arr.of(tuple(zs), lambda *i: fn('g' + '_'.join(map(str, i)), *v.a.flat))
                            kw['augment_func'] = f
                        m = N.Augmenter(augment_idx=dim, augment_dims=a, **kw)
                        for again in range(2):
                            out = m(x)
                            extra = arr.zeros(zs) if how == 'zeros' else f(x)
                            want = ref_cat(extra, x, dim) if order == 'first' else ref_cat(x, extra, dim)
                            s.check(same(out, want), "zeros or the function of the input before or after the input, whose entries stay as they are", where='Augmenter.forward')
                        s.check(how == 'zeros' or all(same(g, x) for g in got), "the function gets the input", where='Augmenter.forward')


def depth(s, tier):
    N, D = spec.mod('torchdyn.nn.node_layers'), spec.mod('torchdyn.core.defunc')
    for sh in shapes(tier):
        for dim in list(range(1, len(sh))) + [-1, 0]:
            m = N.DepthCat(dim)
            class Net(torch.nn.Module):
                def __init__(self): super().__init__(); self.inner = torch.nn.ModuleList([torch.nn.Sequential(m)])
                def forward(self, t, x, args={}): return self.inner[0](x)
            f = D.DEFunc(Net())
            for k in range(3):
                x = Arr.sym(f'x{k}', *sh, tag='input')
                t = Arr.sym(f't{k}', *([()] if k < 2 else [(1,)])[0], tag='input')
                out = f(t, x)
                one = list(sh); one[dim] = 1
                s.check(same(out, ref_cat(x, Arr.of(tuple(one), lambda *i: t.a.reshape(())[()]), dim)), "the time of this very evaluation is concatenated along the chosen dimension", where='DepthCat.forward')


class Controlled(torch.nn.Module):
    "an arbitrary network with data control at the top and deep inside"
    def __init__(self, d, N):
        super().__init__()
        self.d, self.a, self.b = d, N.DataControl(), torch.nn.Sequential(torch.nn.Identity(), torch.nn.ModuleList([N.DataControl()]))
        self.outs = []
    def forward(self, x):
        u, v = self.a(x), self.b[1][0](x[:, :1])
        self.outs.append((x, u, v))
        out = Arr.of((x.shape[0], self.d), lambda i, j: fn(f'net{j}', *u.a[i], *v.a[i]))
        out.rg = bool(x.rg)
        return out


def control(s, tier):
    N, NO, C, O = (spec.mod('torchdyn.' + m) for m in ('nn.node_layers', 'core.neuralde', 'models.cnf', 'numerics.odeint'))
    class Noise:
        def sample(self, shape): return Arr.sym('noise', *(tuple(shape) + (self.d,)))
    for d, batch, sens, running, flow, call in itertools.product((1, 2, 3), (1, 2), ('autograd', 'adjoint', 'interpolated_adjoint'), (False, True), (None, 'exact', 'noise'), ('forward', 'trajectory')):
        if flow == 'noise' and d > 2 or flow and running and d > 2: continue
        w = f"data control, {call}, {sens}" + (', running loss' if running else '') + (f', flow ({flow})' if flow else '')
        excess = (running and sens == 'autograd') + (flow is not None)
        net = Controlled(d, N)
        field = net
        if flow:
            nd = Noise(); nd.d = d
            field = C.CNF(net, trace_estimator=C.hutch_trace if flow == 'noise' else None, noise_dist=nd if flow == 'noise' else None)
        loss = (lambda t, x: Arr.of((x.shape[0],), lambda i: fn('loss', *x.a[i]))) if running else None
        evals = []
        def integrator(f, x, t_span, *a, **k):
            for j in range(3):
                z = Arr.sym(f'z{len(evals)}', batch, d + excess)
                t = Arr.sym(f't{len(evals)}')
                evals.append(z)
                f(t, z)
            return t_span, arr.stack([x for _ in range(len(t_span))])
        with contextlib.redirect_stdout(io.StringIO()), spec.everywhere(O, odeint=integrator):
            m = NO.NeuralODE(field, 'euler', sensitivity=sens, integral_loss=loss)
            m.sensalg = 'autograd'     # the forward pass is the same for all sensitivities (C11, C12, C15)
            for again in range(2):
                x0 = Arr.sym(f'data{again}', batch, d + excess, tag='input')
                net.outs.clear(); evals.clear()
                out = m.trajectory(x0, torch.linspace(0, 1, 3)) if call == 'trajectory' else m(x0, torch.linspace(0, 1, 3))
                if len(net.outs) != 3: raise Unsupported(f'{len(net.outs)} evaluations of the network')
                data = Arr(x0.a[:, excess:].copy())
                for (x, u, v), z in zip(net.outs, evals):
                    s.check(same(x, Arr(z.a[:, excess:])), "the network gets the state without the reserved components", where=w)
                    s.check(same(u, ref_cat(x, data, 1)) and same(v, ref_cat(Arr(x.a[:, :1]), data, 1)), "the data of this call's initial condition, without reserved components, follows the state", where=w)


def control_sde(s, tier):
    "the coefficients of a NeuralSDE"
    N, NO = (spec.mod('torchdyn.' + m) for m in ('nn.node_layers', 'core.neuralde'))
    M = spec.mod('torchdyn.numerics.sdeint')
    for d, batch, where_, call in itertools.product((1, 2, 3), (1, 2), ('drift', 'diffusion', 'both'), ('forward', 'trajectory')):
        w = f"data control, NeuralSDE.{call}, {where_}"
        class Plain(torch.nn.Module):
            def forward(self, x): return x
        f, g = Controlled(d, N) if where_ != 'diffusion' else Plain(), Controlled(d, N) if where_ != 'drift' else Plain()
        nets = [n for n in (f, g) if isinstance(n, Controlled)]
        evals = []
        def integrator(sde, x, t_span, *a, **k):
            for j in range(3):
                z = Arr.sym(f'z{len(evals)}', batch, d)
                evals.append(z)
                sde.f(Arr.sym(f't{len(evals)}'), z)
                sde.g(Arr.sym(f't{len(evals)}'), z)
            return t_span, arr.stack([x for _ in range(len(t_span))])
        with contextlib.redirect_stdout(io.StringIO()), spec.everywhere(M, sdeint=integrator):
            m = NO.NeuralSDE(f, g)
            for again in range(3):
                x0 = Arr.sym(f'data{again}', batch, d, tag='input')
                for n in nets: n.outs.clear()
                evals.clear()
                m.trajectory(x0, torch.linspace(0, 1, 3)) if call == 'trajectory' else m(x0, torch.linspace(0, 1, 3))
                for n in nets:
                    if len(n.outs) != 3: raise Unsupported(f'{len(n.outs)} evaluations of the network')
                    for (x, u, v), z in zip(n.outs, evals):
                        s.check(same(x, z), "the network gets the state", where=w)
                        s.check(same(u, ref_cat(x, x0, 1)) and same(v, ref_cat(Arr(x.a[:, :1]), x0, 1)), "the data of this call's initial condition follows the state", where=w)


def harnesses(tier):
    b = 'tensors of rank 2 to 4 with sides of up to ' + ('3' if tier == 'thorough' else '2')
    yield dict(name="augmentation", direct=lambda s: augment(s, tier), bounded=b)
    yield dict(name="depth", direct=lambda s: depth(s, tier), bounded=b)
    yield dict(name="data control", direct=lambda s: control(s, tier), bounded='up to 3 components, batches of up to 2')
    yield dict(name="data control of SDEs", direct=lambda s: control_sde(s, tier), bounded='up to 3 components, batches of up to 2')
