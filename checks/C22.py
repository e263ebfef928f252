"""Contracts of the steps of hypersolvers, asynchronous leapfrog and implicit Euler, on states of symbolic entries with an
arbitrary field and correction network (uninterpreted functions of the time and of all entries of the state)."""
import itertools, torch, z3
from vc import core, spec, arr, poly
from vc.core import real, Unsupported
from vc.arr import Arr, fn, same, lift
from vc.values import T


class Map:
    "an arbitrary function of time and state; equal arguments (as polynomials) give equal values"
    def __init__(self, name): self.name, self.calls, self.args = name, [], []
    def __call__(self, t, x, args=None):
        self.args.append(args)
        t = lift(t)
        for t0, x0, v in self.calls:
            if x0.a.shape == x.a.shape and same(t0, t) and same(x0, x): return Arr(v.a.copy(), rg=x.rg)
        k = len(self.calls)
        v = Arr.of(x.a.shape, lambda *i: fn(self.name + '_'.join(map(str, i)), t.a.reshape(-1)[0], *x.a.flat))
        v.rg = x.rg
        self.calls.append((Arr(t.a.copy()), Arr(x.a.copy()), Arr(v.a.copy())))
        return v


def scalars(): return Arr.sym('t', tag='input'), Arr.sym('dt', tag='input')


HYPER = {'HyperEuler': ('Euler', 1), 'HyperMidpoint': ('Midpoint', 2), 'HyperRungeKutta4': ('RungeKutta4', 4)}


def hyper(s, tier):
    H, O = spec.mod('torchdyn.numerics.solvers.hyper'), spec.mod('torchdyn.numerics.solvers.ode')
    for (name, (base, order)), shape, k1, dtype in itertools.product(HYPER.items(), ((1,), (2,), (2, 2)), (False, True), (torch.float32, torch.float64)):
        w = f"{name}.step"
        f, net = Map('f'), Map('net')
        h, b = getattr(H, name)(net, dtype), getattr(O, base)(dtype)
        s.check(h.order == order and b.order == order, "the base order is the base method's", where=w)
        s.check(h.stepping_class == 'fixed', "a hypersolver steps with fixed steps", where=w)
        h.sync_device_dtype(torch.zeros(2, dtype=dtype), torch.zeros(2, dtype=dtype)); b.sync_device_dtype(torch.zeros(2, dtype=dtype), torch.zeros(2, dtype=dtype))
        x, (t, dt) = Arr.sym('x', *shape, tag='input'), scalars()
        first = Arr.sym('k1', *shape, tag='input') if k1 else None
        for again in range(2):
            _, got, _ = h.step(f, x, t, dt, k1=first, args={})
            _, step, _ = b.step(f, x, t, dt, k1=first, args={})
            corr = net(t, x)
            ref = Arr.of(shape, lambda *i: step.a[i] + arr.mul_all([dt.a[()]] * (order + 1)) * corr.a[i])
            s.check(tuple(got.shape) == shape and same(got, ref), "the base step plus the correction at the start of the step times the step size to one more than the base order", where=w)
            s.check(all(same(tt, t) and same(xx, x) for tt, xx, _ in net.calls), "the correction network sees the start of the step", where=w)
    s.cover('step')


def leapfrog(s, tier):
    O = spec.mod('torchdyn.numerics.solvers.ode')
    for shape, cls, dtype in itertools.product(((2,), (4,), (2, 2), (1, 6), (2, 2, 4)), ('fixed', 'adaptive'), (torch.float32, torch.float64)):
        d = shape[-1] // 2
        w = "AsynchronousLeapfrog.step"
        a = O.AsynchronousLeapfrog(stepping_class=cls, dtype=dtype)
        f = Map('f')
        xv, (t, dt) = Arr.sym('xv', *shape, tag='input'), scalars()
        _, out, _ = a.step(f, xv, t, dt)
        x, v = Arr(xv.a[..., :d]), Arr(xv.a[..., d:])
        half = real('1/2') if False else z3.RealVal('1/2')
        h = dt.a[()]
        mid = Arr.of(x.a.shape, lambda *i: x.a[i] + half * h * v.a[i])
        F = f(Arr(arr.np.array(t.a[()] + half * h, dtype=object)), mid)
        vn = Arr.of(v.a.shape, lambda *i: 2 * F.a[i] - v.a[i])
        xn = Arr.of(v.a.shape, lambda *i: mid.a[i] + half * h * vn.a[i])
        s.check(tuple(out.shape) == shape and same(Arr(out.a[..., :d]), xn) and same(Arr(out.a[..., d:]), vn), "the leapfrog update of positions and velocities", where=w)
        _, back, _ = a.step(f, out, t + dt, -dt)
        s.check(same(back, xv), "undone by a step of the opposite sign from its result", where=w)
        s.check(a.order == 2 and a.stepping_class == cls, "second order, of the stepping class asked for", where=w)
    s.cover('step')


def implicit(s, tier):
    O = spec.mod('torchdyn.numerics.solvers.ode')
    for shape in ((1,), (2,), (2, 2)):
        w = "ImplicitEuler.step"
        e = O.ImplicitEuler()
        f = Map('f')
        x, (t, dt) = Arr.sym('x', *shape, tag='input'), scalars()
        keep = x.a.copy()
        seen = []

        class Optimizer:
            "contract of the optimizer: evaluates the closure at any point, leaves the parameter at the point found"
            def __init__(self, params, *a, **k):
                self.params = list(params)
                if len(self.params) != 1: raise Unsupported("several parameters")
                seen.append(self)
            def zero_grad(self, *a, **k): pass
            def step(self, closure=None):
                p, = self.params
                self.start = Arr(p.a.copy())
                self.value, self.grad, self.points = [], [], []
                for k in range(2):
                    p.a[...] = Arr.sym(f'point{k}', *shape).a
                    self.points.append(Arr(p.a.copy()))
                    self.value.append(lift(closure()))
                    self.grad.append(Arr(p.grad.a.copy()))
                p.a[...] = Arr.sym('minimizer', *shape).a
        e.opt = Optimizer
        out = e.step(f, x, t, dt)[1]
        if len(seen) != 1: raise Unsupported("the optimizer is not used once")
        o = seen[0]
        s.check(all(a.eq(b) for a, b in zip(o.start.a.flat, x.a.flat)), "the search starts at the present state", where=w)
        for y, val, g in zip(o.points, o.value, o.grad):
            end = Arr(arr.np.array(t.a[()] + dt.a[()], dtype=object))
            F = f(end, y)
            R = [y.a[i] - x.a[i] - dt.a[()] * F.a[i] for i in itertools.product(*map(range, shape))]
            total = arr.add_all([arr.times(r, r) for r in R])
            s.check(val.a.size == 1 and poly.equal(arr.resolve(val.a.reshape(-1)[0]), total), "the objective is the squared residual of the implicit equation, the field evaluated at the end of the step", where=w)
            s.check(same(g, Arr.of(shape, lambda *i: arr.diff(total, y.a[i]))), "with its gradient", where=w)
        s.check(all(a.eq(b) for a, b in zip(out.a.flat, Arr.sym('minimizer', *shape).a.flat)), "the result is where the search ends", where=w)
        s.check(all(a.eq(b) for a, b in zip(x.a.flat, keep.flat)), "the present state is not modified", where=w)
        s.check(e.order == 1 and e.stepping_class == 'fixed', "first order, fixed steps", where=w)
    s.check(O.ImplicitEuler().opt is torch.optim.LBFGS, "the residual is minimized by LBFGS", where=w)
    s.cover('step')


def harnesses(tier):
    yield dict(name='hypersolvers', direct=lambda s: hyper(s, tier), covers=['step'], bounded='states of up to 4 entries')
    yield dict(name='asynchronous leapfrog', direct=lambda s: leapfrog(s, tier), covers=['step'], bounded='states of up to 16 entries')
    yield dict(name='implicit Euler', direct=lambda s: implicit(s, tier), covers=['step'], bounded='states of up to 4 entries')
