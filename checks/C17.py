import contextlib, io, itertools, torch
from vc import core, spec, arr
from vc.core import Unsupported
from vc.arr import Arr, fn, same, lift


class Net(torch.nn.Module):
    "an arbitrary network acting on every sample, with parameters"
    def __init__(self, d):
        super().__init__()
        self.d, self.p, self.seen = d, Arr.sym('p', 2, rg=True), []
    def forward(self, x):
        self.seen.append(x)
        out = Arr.of((x.shape[0], self.d), lambda i, j: fn(f'net{j}', *x.a[i], *self.p.a))
        out.rg = torch.is_grad_enabled()
        return out if out.rg else out.detach()


def jac(x, p, j, i, b): return fn(f"net{j}'{i}", *x.a[b], *p.a)


def reference(x, p, d, noise=None):
    "minus the trace (or the quadratic form), then the network"
    def first(b):
        if noise is None: return -arr.add_all([jac(x, p, i, i, b) for i in range(d)])
        return -arr.add_all([noise.a[b, j] * jac(x, p, j, i, b) * noise.a[b, i] for i in range(d) for j in range(d)])
    return Arr.of((x.shape[0], d + 1), lambda b, k: first(b) if k == 0 else fn(f'net{k - 1}', *x.a[b], *p.a))


def flow(s, tier):
    C = spec.mod('torchdyn.models.cnf')
    for d, batch, est, frozen, enabled, needs in itertools.product((1, 2, 3) + ((4,) if tier == 'thorough' else ()), (1, 2, 3), ('exact', 'default', 'noise'), (False, True), (True, False), (False, True)):
        w = f"CNF.forward, {est} trace" + ('' if enabled else ', gradients disabled')
        net = Net(d)
        class Noise:
            def sample(self, shape): raise Unsupported('noise drawn in the derivative')
        kw = {'exact': dict(trace_estimator=C.autograd_trace), 'default': {}, 'noise': dict(trace_estimator=C.hutch_trace, noise_dist=Noise())}[est]
        m = C.CNF(net, **kw)
        for again in range(2):
            x = Arr.sym(f'x{again}', batch, d + 1, rg=needs, tag='input')
            y = Arr(x.a[:, 1:].copy())
            noise = None
            if est == 'noise': noise = m.noise = Arr.sym(f'e{again}', batch, d)
            with torch.set_grad_enabled(enabled): out = m(x)
            s.check(tuple(out.shape) == (batch, d + 1), "one entry for the log-density, then the data", where=w)
            ref = reference(y, net.p, d, noise)
            s.check(same(out[:, 1:], ref[:, 1:]), "the data moves with the network's output", where=w)
            s.check(same(out[:, :1], ref[:, :1]), "the log-density moves with minus the trace of the Jacobian at that point, whatever its value", where=w)
            if enabled:
                s.check(bool(out.rg), "the derivative stays differentiable", where=w)
                wgt = Arr.sym('w', batch, d + 1)
                g, = arr.grad(out, (net.p,), wgt, allow_unused=True)
                terms = lambda q: arr.add_all([t for t in (mul(wgt.a[b, k], arr.diff(arr.resolve(ref.a[b, k]), q)) for b in range(batch) for k in range(d + 1)) if t is not None])
                mul = lambda a, e: None if e is None else a * e
                s.check(g is not None and same(g, Arr.of((2,), lambda i: terms(net.p.a[i]))), "with the right derivative with respect to the parameters", where=w)
                if needs:
                    g, = arr.grad(out, (x,), wgt, allow_unused=True)
                    s.check(g is not None and same(g, Arr.of((batch, d + 1), lambda b, k: terms(x.a[b, k]) if k else core.real(0))), "and the state", where=w)


def wide(s):
    "many components: the exact trace and the quadratic form"
    C = spec.mod('torchdyn.models.cnf')
    for d, batch in ((5, 2), (8, 1), (9, 1), (12, 1), (17, 1)):
        for est in ('default', 'noise'):
            if est == 'noise' and d > 9: continue
            w = f"CNF.forward, {est} trace"
            net = Net(d)
            m = C.CNF(net) if est == 'default' else C.CNF(net, trace_estimator=C.hutch_trace, noise_dist=object())
            x = Arr.sym('x', batch, d + 1, tag='input')
            noise = None
            if est == 'noise': noise = m.noise = Arr.sym('e', batch, d)
            ref = reference(Arr(x.a[:, 1:].copy()), net.p, d, noise)
            s.check(same(m(x), ref), "the whole derivative, with many components", where=w)


def noise(s, tier):
    C, NO, O = (spec.mod('torchdyn.' + m) for m in ('models.cnf', 'core.neuralde', 'numerics.odeint'))
    for d, batch, sens, call, running in itertools.product((1, 2), (1, 2, 3), ('autograd', 'adjoint'), ('forward', 'trajectory'), (False, True)):
        w = f"one noise vector per sample and call, {call}, {sens}"
        drawn, evals = [], []
        class Noise:
            def sample(self, shape=()):
                drawn.append((tuple(shape), Arr.sym(f'e{len(drawn)}', *(tuple(shape) + (d,)))))
                return drawn[-1][1]
        net = Net(d)
        loss = (lambda t, x: Arr.of((x.shape[0],), lambda i: fn('loss', *x.a[i]))) if running else None
        ex = int(running and sens == 'autograd')
        def integrator(f, x, t_span, *a, **k):
            for j in range(3):
                z = Arr.sym(f'z{len(evals)}', batch, ex + d + 1)
                evals.append((z, f(Arr.sym(f't{len(evals)}'), z)))
            return t_span, arr.stack([x for _ in range(len(t_span))])
        with contextlib.redirect_stdout(io.StringIO()), spec.everywhere(O, odeint=integrator):
            m = NO.NeuralODE(C.CNF(net, trace_estimator=C.hutch_trace, noise_dist=Noise()), 'euler', sensitivity=sens, integral_loss=loss)
            m.sensalg = 'autograd'
            for again in range(3):
                x0 = Arr.sym(f'x{again}', batch, ex + d + 1, tag='input')
                n, _ = len(drawn), evals.clear()
                m.trajectory(x0, torch.linspace(0, 1, 3)) if call == 'trajectory' else m(x0, torch.linspace(0, 1, 3))
                s.check(len(drawn) == n + 1 and drawn[-1][0] == (batch,), "one noise vector per sample is drawn in a call", where=w)
                if len(evals) != 3: raise Unsupported('evaluations')
                for z, out in evals:
                    y = Arr(z.a[:, ex + 1:].copy())
                    s.check(same(out[:, ex:], reference(y, net.p, d, drawn[-1][1])), "and used in every evaluation of that call", where=w)


def harnesses(tier):
    b = 'up to ' + ('4' if tier == 'thorough' else '3') + ' components, batches of up to 3'
    yield dict(name="derivative of a flow", direct=lambda s: flow(s, tier), bounded=b)
    yield dict(name="derivative of a flow, many components", direct=wide, bounded='5, 8, 9, 12 and 17 components')
    yield dict(name="noise of a flow", direct=lambda s: noise(s, tier), bounded=b)
