import copy
from vc.gen import *
from torchdyn.numerics import odeint, odeint_mshooting, odeint_hybrid
from torchdyn.numerics.odeint import odeint_symplectic
from torchdyn.numerics.sdeint import sdeint
from torchdyn.numerics.solvers import ode as O, sde as S
from torchdyn.numerics.solvers.hyper import HyperEuler, HyperMidpoint, HyperRungeKutta4
from torchdyn.numerics.interpolators import str_to_interp
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingProblem
from torchdyn.core.neuralde import NeuralSDE
from torchdyn.core.defunc import SDEFunc
from torchdyn.nn import DataControl
from torchdyn.models import CNF


def freeze(v):
    "a deep copy, tensors with their versions"
    if isinstance(v, torch.Tensor): return (v.detach().clone(), v._version, v.dtype, v.requires_grad)
    if isinstance(v, dict): return [(k, freeze(x)) for k, x in v.items()]
    if isinstance(v, (list, tuple)): return [freeze(x) for x in v]
    return v


def unchanged(v, was):
    if isinstance(v, torch.Tensor): return v.shape == was[0].shape and torch.equal(v.detach(), was[0]) and v.dtype == was[2] and v.requires_grad == was[3]
    if isinstance(v, dict): return len(v) == len(was) and all(k == k2 and unchanged(x, w) for (k, x), (k2, w) in zip(v.items(), was))
    if isinstance(v, (list, tuple)): return len(v) == len(was) and all(unchanged(x, w) for x, w in zip(v, was))
    return v is was or v == was


def identical(a, b):
    if isinstance(a, torch.Tensor): return isinstance(b, torch.Tensor) and a.dtype == b.dtype and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, dict): return list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)): return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    return a == b


def detached(v):
    if isinstance(v, torch.Tensor): return v.detach().clone()
    if isinstance(v, dict): return {k: detached(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [detached(x) for x in v]
    return v


def history(c, call, draw, fresh=None, n=None):
    "call(inputs) on the same objects: inputs kept, results kept, repeated calls identical, as with fresh objects"
    rng = c.rng
    pool = [draw() for _ in range(rng.randint(2, 3))]
    order = [0] + [rng.randrange(len(pool)) for _ in range(n or rng.randint(1, 4))] + [0]
    done = []
    for i in order:
        was = freeze(pool[i])
        try: out = call(pool[i])
        except Exception as ex: raise Violation(f"call {len(done)} of {order}: {type(ex).__name__}: {ex}") from ex
        c.require(unchanged(pool[i], was), f"call with input {i} changed its inputs")
        done.append((i, out, detached(out)))
    for k, (i, out, was) in enumerate(done):
        c.require(identical(detached(out), was), f"the result of call {k} was changed by later calls")
        for j, o2, w2 in done[:k]: c.require(i != j or identical(w2, was), f"calls {order}: repeated call gives another result")
    if fresh is not None:
        for i, out, was in done[-1:]: c.require(identical(detached(fresh(pool[i])), was), "differs from a fresh object")


NAMES = ['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5']
CLASSES = dict(euler=O.Euler, midpoint=O.Midpoint, rk4=O.RungeKutta4, dopri5=O.DormandPrince45, tsit5=O.Tsitouras45)


def inputs(rng, dim, reverse=True, mixed=True):
    dt = rng.choice([F64, F64, F32]) if mixed else F64
    ts = grid(rng, n=rng.choice([2, 3, 6]), dt=dt, span=rng.choice([.3, 1.]), reverse=reverse and rng.random() < .4)
    x0 = tensor(rng, (rng.randint(1, 3), dim), dt)
    kw = {}
    if rng.random() < .4:
        idx = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts))))
        kw['save_at'] = ts[idx]
        if rng.random() < .5: kw['save_at'] = kw['save_at'].flip(0).clone()
    return dict(x=x0, t=ts, kw=kw, args={'p': tensor(rng, (2,)), 'q': [1, 2]})


def solvers(c):
    "odeint with one solver object, or by name"
    rng = c.rng
    dim = rng.randint(1, 3)
    f = {d: plain(random.Random(5), dim, d) for d in (F32, F64)}
    name = rng.choice(NAMES + ['hyper', 'hyper'])
    how = rng.choice(['name', 'object', 'object', 'object'])
    c.note(solver=name, how=how, dim=dim)
    if name == 'hyper':
        cls = rng.choice([HyperEuler, HyperMidpoint, HyperRungeKutta4])
        net = lambda t, x: torch.tanh(x) * .1
        mk, name = (lambda: cls(net, dtype=F64)), 'euler'
        how = 'object'
    else:
        first = rng.choice([F64, F64, F32])
        mk = lambda: CLASSES[name](dtype=first)
    adaptive = name in ('dopri5', 'tsit5')
    one = mk() if how == 'object' else name
    def call(a, solver=None):
        kw = dict(a['kw'])
        if adaptive and a.get('interp'): kw = dict(interpolator=a['interp'])
        if adaptive and a.get('all'): kw = dict(return_all_eval=True)
        return odeint(f[a['x'].dtype], a['x'], a['t'], solver if solver is not None else one, atol=1e-5, rtol=1e-5, args=a['args'], **kw)
    ip = str_to_interp('4th', F64)
    def draw():
        a = inputs(rng, dim)
        if rng.random() < .4 and name == 'dopri5': a['interp'] = ip if rng.random() < .5 else '4th'
        elif rng.random() < .2: a['all'] = True
        return a
    history(c, call, draw, fresh=lambda a: call(a, mk() if how == 'object' else CLASSES[name](dtype=a['x'].dtype)))


def symplectic(c):
    rng = c.rng
    n = rng.randint(1, 2)
    name = rng.choice(['euler', 'rk4', 'alf', 'alf'])
    c.note(solver=name)
    class V:
        def __init__(self, order): self.order = order; self.g = plain(random.Random(3), n if name == 'alf' else 2 * n)
        def __call__(self, t, x): return self.g(t, x)
    mk = lambda: O.AsynchronousLeapfrog(dtype=F64) if name == 'alf' else CLASSES[name](dtype=F64)
    one = mk()
    def draw(): return inputs(rng, 2 * n, reverse=name != 'alf', mixed=False)
    def call(a, s=None): return odeint_symplectic(V(1), a['x'], a['t'], s or one, **(a['kw'] if name != 'alf' else {}))
    history(c, call, draw, fresh=lambda a: call(a, mk()))


class Verlet:
    "an adaptive solver of the user for fields of the positions"
    order, stepping_class, safety, min_factor, max_factor = 2, 'adaptive', torch.tensor([.9], dtype=F64), torch.tensor([.2], dtype=F64), torch.tensor([5.], dtype=F64)
    def sync_device_dtype(self, x, t): return x, t
    def step(self, f, x, t, dt, k1=None, args=None):
        n = x.shape[-1] // 2
        q, p = x[..., :n], x[..., n:]
        a = f(t, q) if k1 is None else k1
        qn = q + dt * p + dt ** 2 / 2 * a
        b = f(t + dt, qn)
        return b, torch.cat([qn, p + dt * (a + b) / 2], -1), torch.cat([0 * q, dt * (b - a) / 2], -1), None


def positions(c):
    "systems of different sizes with one solver object"
    rng = c.rng
    class V:
        order = 1
        def __call__(self, t, x): return -torch.sin(x) * (1 + t ** 2)
    one = Verlet()
    def draw(): return inputs(rng, 2 * rng.randint(1, 3), reverse=False, mixed=False)
    def call(a, s=None): return odeint_symplectic(V(), a['x'], a['t'], s or one, atol=1e-3, rtol=1e-3)
    history(c, call, draw, fresh=lambda a: call(a, Verlet()))


def dictionary(c):
    rng = c.rng
    def draw():
        a = inputs(rng, 2, reverse=False, mixed=False)
        a['x'] = {k: tensor(rng, (2, 3)) for k in ('q', 'p')}
        return a
    class D(O.Euler):
        def step(self, f, x, t, dt, k1=None, args=None):
            k = f(t, x)
            return None, {n: x[n] + dt * k[n] for n in x}, None
    one = D(dtype=F64)
    f = lambda t, x: {'q': x['p'], 'p': -torch.sin(x['q']) * t}
    call = lambda a, s=None: odeint(f, a['x'], a['t'], s or one, args=a['args'], **a['kw'])
    history(c, call, draw, fresh=lambda a: call(a, D(dtype=F64)))


class Floor(nn.Module):
    def __init__(self): super().__init__()
    def check_event(self, t, x): return x[..., 0].min() < 0 if x.shape[-1] == 1 else (x[..., 0].min() < 0 and x[..., 1].min() < 0)
    def jump_map(self, t, x):
        y = x.clone()
        y[..., 1] = -y[..., 1] * .9
        y[..., 0] = y[..., 0].abs()
        return y


def hybrid(c):
    rng = c.rng
    name = rng.choice(['dopri5', 'tsit5'])
    one, ev = CLASSES[name](dtype=F64), [Floor()]
    budget = rng.randint(0, 3)
    prio = rng.choice(['jump', 'flow'])
    c.note(solver=name, budget=budget, priority=prio)
    f = lambda t, x: torch.stack([x[..., 1], -9.8 * torch.ones_like(x[..., 1])], -1)
    def draw():
        return dict(x=torch.tensor([[rng.uniform(.1, 2.), rng.uniform(-2., 2.)]], dtype=F64), t=grid(rng, n=rng.choice([2, 4]), span=rng.choice([.3, 1.])))
    call = lambda a, s=None: odeint_hybrid(f, a['x'], a['t'], budget, s or one, ev, atol=1e-5, rtol=1e-5, event_tol=1e-4, priority=prio)
    history(c, call, draw, fresh=lambda a: call(a, CLASSES[name](dtype=F64)))


def shooting(c):
    rng = c.rng
    kind = rng.choice(['zero', 'backward'])
    mk = {'zero': O.MSZero, 'backward': O.MSBackward}[kind]
    dt0 = rng.choice([F64, F64, F32])
    one = mk()
    A = tensor(rng, (2, 2), F64, .5)
    f = lambda t, x: torch.tanh(x @ A.to(x.dtype))
    it, fine = rng.randint(1, 4), rng.randint(2, 4)
    c.note(kind=kind, maxiter=it, fine=fine)
    def draw():
        dt = rng.choice([F64, F64, F32])
        n = rng.randint(2, 5)
        a = dict(x=tensor(rng, (2, 2), dt), t=torch.linspace(0, 1, n, dtype=dt), B=None)
        if rng.random() < .5: a['B'] = torch.cat([a['x'][None], tensor(rng, (n - 1, 2, 2), dt)])
        return a
    call = lambda a, s=None: odeint_mshooting(f, a['x'], a['t'], s or one, a['B'] if kind == 'zero' or a['B'] is None else a['B'].clone().requires_grad_(False), fine_steps=fine, maxiter=it)
    history(c, call, draw, fresh=lambda a: call(a, mk()))


class Path:
    "a smooth 'Brownian' path: increments are functions of the interval"
    def __init__(self, shape): self.z = torch.randn(*shape, generator=torch.Generator().manual_seed(1), dtype=F64)
    def __call__(self, a, b, **k): return self.z * (math.sin(3 * float(b)) - math.sin(3 * float(a)))


def stochastic(c):
    rng = c.rng
    name, calc = rng.choice([('euler', 'ito'), ('eulerHeun', 'stratonovich'), ('milstein_ito', 'ito'), ('milstein_stratonovich', 'stratonovich')])
    g1, g2 = plain(random.Random(1), 2), plain(random.Random(2), 2)
    sde, bm = SDEFunc(lambda t, x: g1(t, x), lambda t, x: g2(t, x) * .3, noise_type='diagonal', sde_type=calc), Path((3, 2))
    how = rng.choice(['name', 'object'])
    c.note(solver=name, how=how)
    mk = lambda: S.sde_str_to_solver(name, sde, bm, F64)
    one = mk() if how == 'object' else name
    def draw():
        ts = grid(rng, n=rng.choice([2, 5, 9]), span=.5)
        a = dict(x=tensor(rng, (3, 2)), t=ts, kw={})
        if rng.random() < .5: a['kw']['save_at'] = ts[sorted(rng.sample(range(len(ts)), 2))].flip(0)
        return a
    call = lambda a, s=None: sdeint(sde, a['x'], a['t'], s or one, bm, **a['kw'])
    history(c, call, draw, fresh=lambda a: call(a, mk()))


def model(c):
    rng = c.rng
    cls = rng.choice(['ODEProblem', 'NeuralODE', 'NeuralODE', 'NeuralODE', 'MultipleShootingProblem'])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    name = rng.choice(['euler', 'rk4', 'dopri5', 'tsit5']) if sens != 'interpolated_adjoint' else 'dopri5'
    control = cls == 'NeuralODE' and rng.random() < .4
    torch.manual_seed(rng.randrange(1000))
    net = nn.Sequential(DataControl(), nn.Linear(4, 2), nn.Tanh()) if control else nn.Sequential(nn.Linear(2, 5), nn.Tanh(), nn.Linear(5, 2))
    given = CLASSES[name]() if rng.random() < .5 else name
    c.note(model=cls, sensitivity=sens, solver=name, object=given is not name, control=control)
    def build(solver):
        if cls == 'MultipleShootingProblem': return MultipleShootingProblem(net, 'zero', sensitivity=sens if sens != 'interpolated_adjoint' else 'autograd')
        return (ODEProblem if cls == 'ODEProblem' else NeuralODE)(net, solver=solver, sensitivity=sens, atol=1e-4, rtol=1e-4)
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()): m = build(given)
    def draw():
        ts = grid(rng, n=rng.choice([2, 4]), dt=F32, span=rng.choice([.3, 1.]), reverse=cls != 'MultipleShootingProblem' and sens != 'interpolated_adjoint' and rng.random() < .3, uniform=True)
        a = dict(x=tensor(rng, (rng.randint(1, 4), 2), F32), t=ts, back=rng.random() < .5 and not (control and sens != 'autograd'), traj=cls == 'NeuralODE' and rng.random() < .3)
        if rng.random() < .4 and cls != 'MultipleShootingProblem' and sens != 'interpolated_adjoint' and not a['traj']: a['save'] = ts[[0, -1]]
        return a
    def call(a, m_=None):
        q = m_ or m
        x = a['x'].clone().requires_grad_(True) if a['back'] else a['x']
        keep = x.detach().clone()
        if a['traj']:
            out = [q.trajectory(x, a['t'])]
        else: out = list(q(x, a['t'], save_at=a['save']) if 'save' in a else q(x, a['t']))
        if a['back']:
            out[-1].pow(2).sum().backward()
            out.append(x.grad.clone())
        c.require(torch.equal(x.detach(), keep), "the initial state was changed")
        for p in net.parameters(): p.grad = None
        return [v.detach() if isinstance(v, torch.Tensor) else v for v in out]
    def fresh(a):
        with contextlib.redirect_stdout(io.StringIO()): m2 = build(name if given is name else CLASSES[name]())
        return call(a, m2)
    history(c, call, draw, fresh=fresh)


def same_tensors(c):
    "one solver, the very same tensors in other equations and at other times"
    rng = c.rng
    dt = dtype(rng)
    d = rng.randint(1, 3)
    name = rng.choice(['euler', 'midpoint', 'rk4', 'dopri5', 'tsit5'])
    x = tensor(rng, (2, d), dt)
    fs, tss = [plain(rng, d, dt) for _ in range(2)], [grid(rng, n=2, dt=dt, span=.5) for _ in range(2)]
    c.note(solver=name, dtype=dt)
    one = str_solver(name, dt)
    for _ in range(rng.randint(2, 5)):
        f, ts = rng.choice(fs), rng.choice(tss)
        got, want = odeint(f, x, ts, one), odeint(f, x, ts, str_solver(name, dt))
        close(got[1], want[1], 0., 'solution from the same tensors')


SCENARIOS = {'positions': Scen(positions, 20, 200), 'same_tensors': Scen(same_tensors, 60, 600), 'solvers': Scen(solvers, 120, 1500), 'symplectic': Scen(symplectic, 40, 400), 'dictionary': Scen(dictionary, 20, 200), 'hybrid': Scen(hybrid, 25, 250),
             'shooting': Scen(shooting, 40, 400), 'stochastic': Scen(stochastic, 40, 400), 'model': Scen(model, 60, 600)}
