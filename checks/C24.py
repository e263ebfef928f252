"""Frame conditions: what a call may modify and what it may depend on.

1. Integration loops (any grid, state, requested times): no operation modifies a tensor or dictionary of the caller, and no
   attribute of the caller's solver or interpolator that the loop writes is read by a loop before it is written; nothing
   reachable from the modules changes and no random numbers are drawn.  So the result of a call is a function of its inputs.
2. Steps, error estimates and interpolants of the real solver classes: values on symbolic arguments are the same before and
   after other uses, and as those of a fresh object.
3. Synchronisation with other precisions: all states a solver can reach are enumerated (finitely many); in each, it acts as
   a fresh one.
4. Problems and models: what they hand to the integrators does not depend on earlier calls."""
import contextlib, inspect, io, itertools, random, types, torch, z3
from vc import core, spec, arr, poly, values as V
from vc.core import Unsupported
from vc.arr import Arr, same, fn
from checks import C01, C02, C03, C05, C06, C08, C09, C10, C15, C20, C22


# ------------------------------------------------------------------ 1. loops
def contents(v):
    if isinstance(v, dict): return [(k, id(x)) for k, x in v.items()]
    return v.fn if type(v) is V.Seq else v.e


def changed(v, was):
    if isinstance(v, dict): return [(k, id(x)) for k, x in was.items()] != contents(v)
    return contents(v) is not was


def symbolic(v): return type(v) in (V.T, V.Seq, Arr)


def module_state():
    "everything reachable from the modules: globals, defaults, closures, class attributes"
    import sys
    out, seen = [], set()
    def visit(o, d, path):
        if isinstance(o, (int, float, str, bytes, bool, type(None), torch.dtype)): out.append((path, o)); return
        out.append((path, id(o)))
        if id(o) in seen or d > 6: return
        seen.add(id(o)); keep.append(o)
        if isinstance(o, torch.Tensor) and not symbolic(o): out.append((path, o._version))
        elif isinstance(o, types.FunctionType) and o.__module__ and o.__module__.startswith('torchdyn'):
            for i, x in enumerate(o.__defaults__ or ()): visit(x, d + 1, f'{path}.default{i}')
            for k, x in (o.__kwdefaults__ or {}).items(): visit(x, d + 1, f'{path}.default {k}')
            for i, c in enumerate(o.__closure__ or ()):
                with contextlib.suppress(ValueError): visit(c.cell_contents, d + 1, f'{path}.cell{i}')
            for k, x in o.__dict__.items(): visit(x, d + 1, f'{path}.{k}')
        elif isinstance(o, type) and o.__module__.startswith('torchdyn'):
            for k, x in list(o.__dict__.items()):
                if not k.startswith('__') and k not in ('_abc_impl',): visit(x, d + 1, f'{path}.{k}')
        elif isinstance(o, dict):
            for k, x in list(o.items()): visit(x, d + 1, f'{path}[{k!r}]')
        elif isinstance(o, (list, tuple, set)):
            for i, x in enumerate(list(o)): visit(x, d + 1, f'{path}[{i}]')
    keep = []
    for name, m in sorted(sys.modules.items()):
        if m is not None and name.split('.')[0] == 'torchdyn':
            for k, v in list(m.__dict__.items()):
                if not k.startswith('__') and not isinstance(v, types.ModuleType): visit(v, 0, f'{name}.{k}')
    return out, keep, torch.get_rng_state(), random.getstate()


def frame(h, shallow=True, name=None):
    "the harness of another check, reduced to what the code modifies and reads"
    def run(s):
        s.only, s.inputs, s.shallow = 'frame', [], shallow
        if s.tracked_attrs is None: s.tracked_attrs = (set(), set(), set())
        s.tracked_attrs[2].clear()
        before = module_state()
        h['run'](s)
        finish(s, before)
    def direct(s):
        s.only, s.inputs = 'frame', []
        before = module_state()
        h['direct'](s)
        finish(s, before)
    return dict(h, name='modifies and depends on: ' + (name or h['name']), **({'run': run} if 'run' in h else {'direct': direct}), covers=h.get('covers', []))


def finish(s, before):
    after = module_state()
    was = dict(before[0])
    diff = [p for p, v in after[0] if was.get(p) != v]
    if diff or len(after[0]) != len(before[0]): raise Unsupported(f"the modules' state changes: {diff[:5]}")
    if not torch.equal(before[2], after[2]) or before[3] != after[3]: raise Unsupported("random numbers are drawn")
    if s.tracked_attrs is not None:
        both = s.tracked_attrs[0] & s.tracked_attrs[1]
        if both: raise Unsupported(f"state kept between calls: {sorted(both)}")
        s.check(True, "no attribute of the caller's objects is read before it is written and also written", kind='frame', where='loop')
    bad = [v for v, was in s.inputs if changed(v, was)]
    s.check(not bad, "the caller's state, times, requested times and arguments are left as they are", kind='frame', where='loop')
    s.check(True, "the modules' state is left as it is, no random numbers are drawn", kind='frame', where='loop')


# ------------------------------------------------------------------ 2. steps
def flat(out):
    "tensors of a result, in order"
    if out is None: return []
    if isinstance(out, (list, tuple)): return [v for o in out for v in flat(o)]
    if isinstance(out, dict): return [v for o in out.values() for v in flat(o)]
    return [out]


def equal(a, b):
    a, b = flat(a), flat(b)
    return len(a) == len(b) and all(same(p, q) if isinstance(p, Arr) else poly.equal(p.e, q.e) for p, q in zip(a, b))


def state_of(o, depth=0):
    "attributes of an object, tensors by value"
    out = {}
    for k, v in sorted(vars(o).items()):
        if k.startswith('_') and k not in ('_modules', '_buffers', '_parameters'): continue
        out[k] = repr_of(v)
    return out


def repr_of(v):
    if isinstance(v, torch.Tensor) and not symbolic(v): return ('tensor', str(v.dtype), tuple(v.shape), tuple(v.reshape(-1).tolist()))
    if isinstance(v, (list, tuple)): return tuple(repr_of(x) for x in v)
    if isinstance(v, dict): return tuple((k, repr_of(x)) for k, x in v.items())
    if isinstance(v, (int, float, str, bool, type(None), torch.dtype)): return v
    return type(v).__qualname__


NAMES = ('euler', 'midpoint', 'rk4', 'dopri5', 'tsit5', 'alf')


def make(name, dtype, net=None):
    O, H = spec.mod('torchdyn.numerics.solvers.ode'), spec.mod('torchdyn.numerics.solvers.hyper')
    if name in C22.HYPER: return getattr(H, name)(net or C22.Map('net'), dtype)
    if name == 'alf':
        o = O.AsynchronousLeapfrog(dtype=dtype)
        o.x_shape = 2      # set by odeint_symplectic before every use
        return o
    return O.str_to_solver(name, dtype)


def steps(dtype):
    def run(s):
        for name in NAMES + tuple(C22.HYPER):
            for stage in (False, True):
                f, other = C22.Map('f'), C22.Map('h')
                solver, fresh = make(name, dtype), make(name, dtype)
                if name in C22.HYPER: fresh.hypernet = solver.hypernet
                w = f'{type(solver).__name__}.step'
                proto = torch.zeros(2, dtype=dtype)
                for v in (solver, fresh): v.sync_device_dtype(proto, proto)
                wide = 2 if name == 'alf' else 1
                if name == 'alf': solver.x_shape = fresh.x_shape = 2
                x, t, h = Arr.sym('x', 2 * wide, tag='input'), Arr.sym('t', tag='input'), Arr.sym('dt', tag='input')
                y, u, g = Arr.sym('y', 3, 2 * wide, tag='input'), Arr.sym('u', tag='input'), Arr.sym('g', tag='input')
                if name == 'alf': f, other = Half(f), Half(other)
                kw = (lambda q, a, b: dict(k1=q(b, a))) if stage and name != 'alf' else (lambda q, a, b: {})
                def at(o, fld, a, b, c, new=True):
                    if name == 'alf': o.x_shape = 2
                    z = [Arr(v.a.copy(), tag='input') for v in (a, b, c)] if new else [a, b, c]
                    return o.step(fld, *z, **kw(fld, z[0], z[1]))
                first = at(solver, f, x, t, h)
                copy = [Arr(v.a.copy()) for v in flat(first)]
                settings = state_of(solver)
                for _ in range(2): at(solver, other, y, u, g); at(solver, f, y, t, g); at(solver, f, x, u, -h)
                solver.sync_device_dtype(torch.zeros(3, dtype=torch.float32 if dtype == torch.float64 else torch.float64), proto)
                at(solver, other, y, u, g)
                solver.sync_device_dtype(proto, proto)
                s.check(equal(first, copy), "results handed out do not change later", where=w)
                s.check(equal(at(solver, f, x, t, h), copy), "a repeated step gives the same result, whatever the solver did in between", where=w)
                s.check(equal(at(fresh, f, x, t, h), copy), "and the result of a fresh solver", where=w)
                if name in C22.HYPER or name == 'alf' or not stage:    # the very same tensors, in another equation or at another time
                    for fld, a, b, c in ((f, x, t, h), (other, x, t, h), (f, x, u, h), (f, x, t, g), (other, x, u, g), (f, x, t, h)):
                        got = at(solver, fld, a, b, c, new=False)
                        s.check(equal(got, at(make(name, dtype, getattr(solver, 'hypernet', None)), fld, a, b, c)), "steps from the same tensors are those of a fresh solver", where=w)
                s.check(state_of(solver) == settings, "the solver's coefficients and settings are left as they are", where=w)
    return run


class Half:
    "a field of the positions only (the second half of the state holds the velocities)"
    def __init__(self, m): self.m = m
    def __call__(self, t, x, args=None): return self.m(t, x)


def interpolants(s):
    I = spec.mod('torchdyn.numerics.interpolators')
    for dtype in (torch.float32, torch.float64):
        ip = I.str_to_interp('4th', dtype)
        w = type(ip).__name__
        def data(p): return [Arr.sym(f'{p}{n}', *sh, tag='input') for n, sh in (('h', ()), ('f0', (2,)), ('f1', (2,)), ('x0', (2,)), ('x1', (2,)), ('xm', (2,)))]
        def use(p, at):
            d = data(p)
            c = ip.fit(*d)
            return c, [ip.evaluate(c, Arr.sym('t0', tag='input'), Arr.sym('t1', tag='input'), Arr.sym(q, tag='input')) for q in at]
        c, v = use('a', ('p', 'q'))
        keep, keepc = [Arr(z.a.copy()) for z in v], [Arr(z.a.copy()) for z in c]
        before = state_of(ip)
        use('b', ('q', 'p', 'r'))
        again = [ip.evaluate(c, Arr.sym('t0'), Arr.sym('t1'), Arr.sym(q)) for q in ('q', 'p')]
        s.check(equal(again, keep[::-1]), "an interpolant is not changed by evaluating it or fitting others", where=w)
        s.check(equal(c, keepc) and equal(v, keep), "values and coefficients handed out do not change", where=w)
        s.check(equal(use('a', ('p', 'q'))[1], keep), "fitting again gives the same interpolant", where=w)
        s.check(state_of(ip) == before, "the weights are left as they are", where=w)


def sde_steps(s):
    M = spec.mod('torchdyn.numerics.solvers.sde')
    for name, calc in C09.CALCULUS.items():
        for noise in C09.NOISE[:4]:
            f, g, W = C09.Probe('f'), C09.Probe('g'), C09.Probe('W')
            mk = lambda: M.sde_str_to_solver(name, C09.Sde(f, g, calc, noise), W, torch.float64)
            solver = mk()
            w = f'{type(solver).__name__}.step'
            def at(o, p, sign=1):
                h = V.T(z3.Real(p + 'sqrt_dt'))
                return o.step(V.T(z3.Real(p + 'x'), (4, 3), True, tag='input'), V.T(z3.Real(p + 't'), tag='input'), V.T(h.e * h.e, tag='input'))
            a = at(solver, '')
            e = [v.e for v in flat(a)]
            before = state_of(solver)
            at(solver, 'o'); at(solver, 'p')
            s.check(all(v.e.eq(b) for v, b in zip(flat(a), e)), "results handed out do not change later", where=w)
            s.check(equal(at(solver, ''), a), "a repeated step gives the same result, whatever the solver did in between", where=w)
            s.check(equal(at(mk(), ''), a), "and the result of a fresh solver", where=w)
            s.check(state_of(solver) == before, "the solver's settings are left as they are", where=w)


# ------------------------------------------------------------------ 3. synchronisation
def sync(s):
    "all states of a solver that synchronisation can lead to, breadth first"
    import copy
    S_ = spec.mod('torchdyn.numerics.solvers.sde')
    dtypes = (torch.float64, torch.float32, torch.float16, torch.bfloat16)
    def cases():
        for name in NAMES + tuple(C22.HYPER):
            for d in dtypes[:2]: yield name, d, (lambda name=name, d=d: make(name, d, lambda t, x, *a: x * x - t))
        for name, calc in C09.CALCULUS.items():
            for d in dtypes[:2]: yield name, d, (lambda name=name, calc=calc, d=d: S_.sde_str_to_solver(name, C09.Sde(None, None, calc, 'diagonal'), None, d))
    for name, d0, mk in cases():
        first = mk()
        w = f'{type(first).__name__}.sync_device_dtype'
        reach = {key(first): first}
        todo, fresh = [first], {}
        for d in dtypes:
            v = mk()
            fresh[d] = outward(v, v.sync_device_dtype(torch.zeros(2, dtype=d), torch.linspace(0, 1, 3, dtype=d))), behaviour(v, name, d)
        while todo:
            o = todo.pop()
            for d in dtypes:
                v = copy.copy(o)
                v.__dict__ = dict(o.__dict__)
                x, t = torch.ones(2, dtype=d), torch.linspace(0, 1, 3, dtype=d)
                r = v.sync_device_dtype(x, t)
                s.check((outward(v, (torch.zeros(2, dtype=d), r[1])), behaviour(v, name, d)) == fresh[d], "after any earlier use, a solver synchronised with a state acts as a fresh one", where=w)
                s.check(torch.equal(x, torch.ones(2, dtype=d)) and torch.equal(t, torch.linspace(0, 1, 3, dtype=d)), "state and times are left as they are", where=w)
                s.check(r[0] is x or torch.equal(r[0], x), "the state is passed on", where=w)
                s.check(torch.equal(r[1].to(t), t), "the times are passed on", where=w)
                if key(v) not in reach:
                    reach[key(v)] = v
                    todo.append(v)
                if len(reach) > 60: raise Unsupported(f"{w}: no finite set of states")


def behaviour(o, name, d):
    "a step in the precision synchronised with, bit by bit"
    if name in C09.CALCULUS: return None
    x = torch.tensor([.3, -1.7, .9, 2.1], dtype=d)
    half = 2 if name == 'alf' else 4
    out = o.step(lambda t, x, *a: torch.sin(x[..., :half] * t) - x[..., :half] * x[..., :half], x, torch.tensor(.4, dtype=d), torch.tensor(.05, dtype=d))
    return repr_of(flat(out))


def outward(o, r=None):
    return tuple((k, repr_of(v)) for k, v in sorted(vars(o).items()) if not k.startswith('_')) + ((str(r[1].dtype), repr_of(r[1])) if r is not None else ())


def key(o):
    "all attributes, with which of them are one object"
    ids = {}
    def walk(v):
        if isinstance(v, (list, tuple)): return (ids.setdefault(id(v), len(ids)), tuple(walk(x) for x in v))
        if isinstance(v, torch.Tensor): return (ids.setdefault(id(v), len(ids)), repr_of(v))
        return repr_of(v)
    return tuple((k, walk(v)) for k, v in sorted(vars(o).items()) if k not in ('_modules', '_buffers', '_parameters') and not k.endswith('_hooks') and not k.endswith('_kwargs') and not k.endswith('hooks_always_called'))


# ------------------------------------------------------------------ 4. problems and models
def observe(c, at):
    "what an integrator is handed, the field by its values"
    out = {}
    for k, v in c.items():
        if k in ('given', 'f'): continue
        out[k] = (v.detach().clone() if isinstance(v, torch.Tensor) else v)
    with torch.no_grad(): out['values of f'] = torch.stack([c['f'](torch.tensor(a), b).clone() for a, b in at])
    return out


def alike(a, b):
    if a.keys() != b.keys(): return False
    def eq(p, q):
        if isinstance(p, torch.Tensor) or isinstance(q, torch.Tensor): return isinstance(p, torch.Tensor) and isinstance(q, torch.Tensor) and torch.equal(p, q)
        return p is q or (isinstance(p, (int, float, str, bool, tuple)) and p == q) or (isinstance(p, (tuple, list, dict)) and p == q)
    return all(eq(a[k], b[k]) for k in a)


class Controlled(torch.nn.Module):
    def __init__(self, d):
        super().__init__()
        N = spec.mod('torchdyn.nn.node_layers')
        self.net = torch.nn.Sequential(N.DataControl(), torch.nn.Linear(2 * d, d), torch.nn.Tanh())
    def forward(self, t, x, args={}): return self.net(x) * (1 + t)


def models(s):
    P, N = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde')
    g = torch.Generator().manual_seed(7)
    rnd = lambda *sh: torch.randn(*sh, generator=g)
    torch.manual_seed(3)
    for cls, sens, solver, field in itertools.product(('ODEProblem', 'NeuralODE', 'MultipleShootingProblem'), C15.SENS, ('rk4', 'dopri5'), ('plain', 'controlled')):
        if field == 'controlled' and cls != 'NeuralODE': continue
        w = f'{cls}, {sens}' + (', data control' if field == 'controlled' else '')
        f = C15.Field() if field == 'plain' else Controlled(2)
        log, names = [], []
        with C15.stubbed(log, names):
            if cls == 'MultipleShootingProblem': m = P.MultipleShootingProblem(f, 'zero', sensitivity=sens)
            else: m = (P.ODEProblem if cls == 'ODEProblem' else N.NeuralODE)(f, solver, sensitivity=sens)
            for v in names: v.stepping_class = 'adaptive' if v.name == 'dopri5' else 'fixed'
            probes = [(.3, rnd(3, 2)), (.9, rnd(3, 2))]
            A = lambda: (torch.tensor([[.5, -1.], [2., .25], [0., 1.]]), torch.tensor([0., .5, 1.]), {'k': 1})
            others = [lambda: (rnd(3, 2), torch.tensor([1., .25, -.5]), {}), lambda: (rnd(3, 2), torch.tensor([2., 3.]), {'k': 2})]
            def call(args, back):
                x, ts, extra = args
                x.requires_grad_(back)
                keep = [v.detach().clone() for v in (x, ts)]
                kx = dict(extra)
                log.clear()
                te, sol = m(x, ts, args=extra) if cls != 'MultipleShootingProblem' else m(x, ts)
                seen = observe(log[0], probes)
                kept = (te.clone(), sol.detach().clone())
                if back: sol.pow(2).sum().backward()
                s.check(torch.equal(x.detach(), keep[0]) and torch.equal(ts, keep[1]) and extra == kx, "state, times and arguments are left as they are", where=w)
                return seen, te, sol, kept, None if x.grad is None else x.grad.clone()
            first = call(A(), True)
            for o in others * 2: call(o(), False)
            if cls == 'NeuralODE':
                x, ts, _ = others[0]()
                m.trajectory(x, ts)
            call(others[1](), True)
            again = call(A(), True)
            s.check(alike(first[0], again[0]), "the integrator is handed the same as before, whatever the model did in between", where=w)
            s.check(torch.equal(first[3][0], again[3][0]) and torch.equal(first[3][1], again[3][1]) and torch.equal(first[1], first[3][0]) and torch.equal(first[2], first[3][1]), "results are the same and those handed out do not change", where=w)
            s.check(field == 'controlled' and sens != 'autograd' or first[4] is not None and torch.equal(first[4], again[4]), "and so are the gradients", where=w)


# ------------------------------------------------------------------
def harnesses(tier):
    pick = lambda m, *names: [h for h in m.harnesses('quick') if h['name'] in names]
    for h in C01.harnesses('quick'): yield frame(h)
    for h in C02.harnesses('quick'):
        if 'refusal' not in h['name']: yield frame(h)
    for h in C03.harnesses('quick'):
        if 'run' in h: yield frame(h)
    for h in C05.harnesses('quick'): yield frame(h)
    for h in pick(C06, 'adapt_step', 'init_step', 'hairer_norm'): yield frame(h)
    for h in C10.harnesses('quick'):
        if 'run' in h: yield frame(h)
    for h in C20.harnesses('quick'):
        if 'root_solve' in h['name']: yield frame(h)
    for h in C08.harnesses('quick'):
        if h['name'] == 'one event' or tier == 'thorough': yield frame(h)
    for d in (torch.float64, torch.float32): yield dict(name=f"steps of the solvers, {str(d)[6:]}", direct=steps(d))
    yield dict(name="interpolants", direct=interpolants)
    yield dict(name="steps of the SDE solvers", direct=sde_steps)
    yield dict(name="synchronisation with other precisions", direct=sync)
    yield dict(name="problems and models", direct=models)
