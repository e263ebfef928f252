import contextlib, inspect, io, itertools, torch
from vc import core, spec
from vc.core import Unsupported


class Solver:
    "an opaque solver; its methods are never the business of the code under contract"
    order = 4
    def __init__(self, name, made=None, cls='fixed'): self.name, self.made, self.stepping_class = name, made, cls
    def __repr__(self): return f"<solver {self.name}>"


class ModuleSolver(torch.nn.Module):
    order = 4
    def __init__(self, name, cls='fixed'): super().__init__(); self.name, self.stepping_class = name, cls


class Field(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([.3, -.2]))
    def forward(self, t, x, args={}): return x * self.w + t


def integrators(real, log):
    "contracts of odeint and odeint_mshooting for the plumbing: a tensor with one state per returned time that depends on the initial state; calls are recorded by the names of their arguments"
    def make(name):
        sig = inspect.signature(getattr(real, name))
        def stub(*a, **k):
            b = sig.bind(*a, **k)
            given = dict(b.arguments)
            b.apply_defaults()
            c = dict(b.arguments)
            c['given'], c['which'] = given, name
            log.append(c)
            ts, x = c['t_span'], c['x']
            if name == 'odeint' and len(c['save_at']) > 0: ts = torch.as_tensor(c['save_at'])
            f = c['f']
            ks = torch.arange(len(ts)).reshape(-1, *([1] * x.dim()))
            with torch.no_grad(): d = f(ts[0], x)
            return ts, x[None] * (1 + ks) + ks * d[None] if name == 'odeint' else x[None] * (1 + ks)
        return stub
    return dict(odeint=make('odeint'), odeint_mshooting=make('odeint_mshooting'))


@contextlib.contextmanager
def stubbed(log, names):
    O = spec.mod('torchdyn.numerics.odeint')
    for m in ('core', 'core.problems', 'core.neuralde', 'numerics', 'numerics.sensitivity'): spec.mod('torchdyn.' + m)
    st = integrators(O, log)
    def named(which):
        def by(name, *a, **k):
            r = Solver(name, made=which)
            r.coarse_method, r.fine_method = Solver('coarse of ' + name, made='ms'), Solver('fine of ' + name, made='ms')
            names.append(r)
            return r
        return by
    with contextlib.ExitStack() as es:
        es.enter_context(spec.everywhere(spec.mod('torchdyn.numerics.solvers.ode'), str_to_solver=named('ode'), str_to_ms_solver=named('ms')))
        es.enter_context(spec.everywhere(O, **st))
        es.enter_context(contextlib.redirect_stdout(io.StringIO()))
        yield


def pick(s, calls, n, where):
    if len(calls) != n: raise Unsupported(f"{where}: {len(calls)} calls of the integrator instead of {n}")
    return calls


def is_solver(got, asked, made):
    return (isinstance(got, Solver) and got.made == made and got.name == asked) or got == asked if isinstance(asked, str) else got is asked


TOLS = ((1e-5, 2e-5, 3e-5, 4e-5), (4e-3, 3e-4, 2e-5, 1e-6), (5e-5,) * 4, None)      # in every order
SENS = ('autograd', 'adjoint', 'interpolated_adjoint')


def problem(s, cls, subset):
    P, N = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde')
    x = torch.tensor([[.5, -1.], [2., .25], [0., 1.]], requires_grad=True)
    t_span = torch.tensor([0., .25, 1., 1.5])
    for sens, solver, adjoint, tol, args in itertools.product(SENS, ('rk4', Solver('mine'), ModuleSolver('m'), Solver('a', cls='adaptive')), (None, 'tsit5', Solver('back'), ModuleSolver('mb')),
                                                             TOLS, ({}, {'k': object()})):
        if subset and isinstance(solver, (Solver,)) and solver.stepping_class == 'adaptive': continue
        if sens == 'interpolated_adjoint' and solver == 'rk4': pass
        w = f"{cls}, {sens}" + (", subset" if subset else '')
        log, names, interp, f = [], [], object() if tol else 'fourth', Field()
        kw = dict(sensitivity=sens, interpolator=interp)
        if tol: kw.update(atol=tol[0], rtol=tol[1], atol_adjoint=tol[2], rtol_adjoint=tol[3])
        C = P.ODEProblem if cls == 'ODEProblem' else N.NeuralODE
        sig = inspect.signature(C.__init__).parameters
        want = [kw.get(n, sig[n].default) for n in ('atol', 'rtol', 'atol_adjoint', 'rtol_adjoint')]
        save_at = t_span[[1, 3]] if subset else ()
        with stubbed(log, names):
            m = C(f, solver, solver_adjoint=adjoint, **kw)
            for n_made in names:
                if n_made.name == 'tsit5': n_made.stepping_class = 'adaptive'
            t_eval, sol = m(x, t_span, save_at, args) if args else m(x, t_span, save_at=save_at) if subset else m(x, t_span)
            fwd = pick(s, list(log), 1, w)[0]
            s.check(fwd['which'] == 'odeint', "the functional integrator is used", where=w)
            probe = torch.tensor([[1., 2.]])
            s.check(torch.equal(fwd['f'](torch.tensor(.5), probe), f(torch.tensor(.5), probe)), "the given vector field is integrated", where=w)
            s.check(torch.equal(fwd['x'], x), "from the given initial state", where=w)
            s.check(torch.equal(fwd['t_span'], t_span), "over the given times", where=w)
            s.check(is_solver(fwd['solver'], solver, 'ode'), "with the given solver", where=w)
            s.check((fwd['atol'], fwd['rtol']) == (want[0], want[1]), "with the given tolerances", where=w)
            s.check(fwd['interpolator'] is interp, "with the given interpolator", where=w)
            s.check(fwd['args'] is args or not args and not fwd['args'], "with the given extra arguments", where=w)
            s.check(fwd['verbose'] is False and tuple(fwd['seminorm']) == (False, None), "and no other settings", where=w)
            if sens != 'interpolated_adjoint':
                s.check(fwd['save_at'] is save_at or torch.equal(torch.as_tensor(fwd['save_at']), torch.as_tensor(save_at)), "with the requested subset of times", where=w)
                s.check(not fwd['return_all_eval'], "only the requested times are returned", where=w)
            ts = save_at if subset else t_span
            k = torch.tensor([1., 3.] if subset and sens == 'interpolated_adjoint' else range(len(ts))).reshape(-1, 1, 1)
            d = f(ts[0] if sens != 'interpolated_adjoint' else t_span[0], x)
            s.check(torch.equal(t_eval, ts) and torch.allclose(sol.detach(), (x * (1 + k) + k * d).detach(), rtol=1e-6), "the integrator's times and states are returned", where=w)
            if sens != 'autograd':
                log.clear()
                with contextlib.suppress(Exception) if sens == 'never' else contextlib.nullcontext():
                    sol.sum().backward()
                s.check(len(log) >= 1, "the backward pass integrates the adjoint", where=w)
                back = solver if adjoint is None else adjoint
                for c in log:
                    s.check(is_solver(c['solver'], back, 'ode'), "backward solves use the adjoint solver, the forward one by default", where=w)
                    s.check((c['atol'], c['rtol']) == (want[2], want[3]), "backward solves use the adjoint tolerances", where=w)
                if adjoint is None: s.check(all(c['solver'] is fwd['solver'] for c in log), "the default adjoint solver is the forward solver", where=w)


def shooting(s, cls):
    P, N = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde')
    C = getattr(N if cls == 'MultipleShootingLayer' else P, cls)
    x = torch.tensor([[.5, -1.], [2., .25], [0., 1.]], requires_grad=True)
    t_span = torch.tensor([0., .25, .5, .75])
    ms = Solver('parareal of mine'); ms.coarse_method, ms.fine_method = Solver('c'), Solver('f')
    for sens, solver, adjoint, tol, it, B0 in itertools.product(SENS, ('zero', ms), (None, 'rk4', Solver('back'), ModuleSolver('mb')), (None, (4e-3, 3e-4)), (None, (7, 9), (9, 2), (1, 30), (3, 3)), (None, torch.ones(4, 3, 2))):
        w = f"{cls}, {sens}"
        log, names, f = [], [], Field()
        kw = dict(sensitivity=sens, solver_adjoint=adjoint)
        if tol: kw.update(atol_adjoint=tol[0], rtol_adjoint=tol[1])
        if it: kw.update(maxiter=it[0], fine_steps=it[1])
        sig = inspect.signature(C.__init__).parameters
        want = {n: kw.get(n, sig[n].default) for n in ('maxiter', 'fine_steps', 'atol_adjoint', 'rtol_adjoint')}
        with stubbed(log, names):
            m = C(f, solver, **kw)
            t_eval, sol = m(x, t_span, B0) if B0 is not None else m(x, t_span)
            c = pick(s, list(log), 1, w)[0]
            s.check(c['which'] == 'odeint_mshooting', "the parallel-in-time integrator is used", where=w)
            probe = torch.tensor([[1., 2.]])
            s.check(torch.equal(c['f'](torch.tensor(.5), probe), f(torch.tensor(.5), probe)) and torch.equal(c['x'], x) and torch.equal(c['t_span'], t_span), "for the given field, state and times", where=w)
            s.check(c['solver'] is solver or is_solver(c['solver'], solver, 'ms'), "with the given parallel solver", where=w)
            s.check((c['maxiter'], c['fine_steps']) == (want['maxiter'], want['fine_steps']), "with the given iterations and fine steps", where=w)
            s.check(c['B0'] is None if B0 is None else c['B0'] is not None and torch.equal(c['B0'], B0), "with the given shooting parameters", where=w)
            k = torch.arange(len(t_span)).reshape(-1, 1, 1)
            s.check(torch.equal(t_eval, t_span) and torch.equal(sol.detach(), (x[None] * (1 + k)).detach()), "the integrator's times and states are returned", where=w)
            if sens != 'autograd':
                log.clear()
                sol.sum().backward()
                s.check(len(log) >= 1, "the backward pass integrates the adjoint", where=w)
                for c in log:
                    got = c['solver']
                    if adjoint is None: ok = got is ms.fine_method if solver is ms else isinstance(got, Solver) and got.name == 'fine of zero'
                    else: ok = is_solver(got, adjoint, 'ode')
                    s.check(ok, "backward solves use the adjoint solver, the fine method by default", where=w)
                    s.check((c['atol'], c['rtol']) == (want['atol_adjoint'], want['rtol_adjoint']), "backward solves use the adjoint tolerances", where=w)


def by_name(s):
    "every pair of solver names, with tolerances in every order"
    P, N, D = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde'), spec.mod('torchdyn.numerics.solvers.ode').SOLVER_DICT
    x, t_span = torch.tensor([[.5, -1.], [2., .25]], requires_grad=True), torch.tensor([0., .25, 1.])
    for name, back, tol, cls in itertools.product(list(D), [None] + list(D), TOLS[:3], ('ODEProblem', 'NeuralODE')):
        w = f"{cls}, solver {name}" + (f", {back} for the adjoint" if back else '')
        log, names, f = [], [], Field()
        with stubbed(log, names):
            m = (P.ODEProblem if cls == 'ODEProblem' else N.NeuralODE)(f, name, solver_adjoint=back, sensitivity='adjoint', atol=tol[0], rtol=tol[1], atol_adjoint=tol[2], rtol_adjoint=tol[3])
            sol = m(x, t_span)[1]
            fwd = pick(s, list(log), 1, w)[0]
            s.check(is_solver(fwd['solver'], name, 'ode') and (fwd['atol'], fwd['rtol']) == tol[:2], "the named solver integrates forward, with the tolerances given", where=w)
            log.clear()
            sol.sum().backward()
            s.check(len(log) >= 1 and all(is_solver(c['solver'], back or name, 'ode') and (c['atol'], c['rtol']) == tol[2:] for c in log), "the solver named for the adjoint integrates backward, with its tolerances", where=w)


def model(s):
    "times of a model, its trajectory, what it returns"
    N = spec.mod('torchdyn.core.neuralde')
    x = torch.tensor([[.5, -1.], [2., .25]])
    times = torch.tensor([0., .5, 2.])
    stored = torch.tensor([-1., 0., 1., 5.])
    for sens, ret, has_stored, given, call, tol, subset in itertools.product(SENS, (True, False), (False, True), (False, True), ('forward', 'trajectory'), ((1e-5, 2e-5), None), (False, True)):
        if call == 'trajectory' and (not given and not has_stored and False or subset): continue
        w = f"NeuralODE.{call}, {sens}"
        log, names, f, solver = [], [], Field(), Solver('mine')
        kw = dict(atol=tol[0], rtol=tol[1]) if tol else {}
        with stubbed(log, names):
            m = N.NeuralODE(f, solver, sensitivity=sens, return_t_eval=ret, **kw)
            sig = inspect.signature(N.NeuralODE.__init__).parameters
            if has_stored: m.t_span = stored
            want = times if given else stored if has_stored else torch.tensor([0., 1.])
            for again in range(3):
                if again:      # calls with other times do not change the stored ones
                    m(x, torch.tensor([3., 4., 7.]))
                    m.trajectory(x, torch.tensor([1., 2., 4.]))
                log.clear()
                sv = dict(save_at=want[[0, -1]]) if subset else {}
                out = m.trajectory(x, times if given else None) if call == 'trajectory' else m(x, times, **sv) if given else m(x, **sv)
                c = pick(s, list(log), 1, w)[0]
                s.check(torch.equal(c['t_span'], want), "times given, else stored, else the unit interval", where=w)
                s.check(c['solver'] is solver and (c['atol'], c['rtol']) == (kw.get('atol', sig['atol'].default), kw.get('rtol', sig['rtol'].default)), "solver and tolerances of the model", where=w)
                s.check(torch.equal(c['x'], x), "from the given state", where=w)
                probe = torch.tensor([[1., 2.]])
                s.check(torch.equal(c['f'](torch.tensor(.5), probe), f(torch.tensor(.5), probe)), "the model's field is integrated", where=w)
                ts = want[[0, -1]] if subset else want
                k = torch.tensor([0., len(want) - 1.] if subset and sens == 'interpolated_adjoint' else range(len(ts))).reshape(-1, 1, 1)
                ref = x * (1 + k) + k * f(want[0], x)
                if call == 'trajectory':
                    s.check(len(c['save_at']) == 0 and not c['return_all_eval'], "a trajectory is the plain integration", where=w)
                    s.check(isinstance(out, torch.Tensor) and torch.allclose(out, ref), "a trajectory is the solution alone", where=w)
                elif ret: s.check(isinstance(out, tuple) and len(out) == 2 and torch.equal(out[0], ts) and torch.allclose(out[1], ref), "times and solution are returned", where=w)
                else: s.check(isinstance(out, torch.Tensor) and torch.allclose(out, ref), "the solution alone is returned when asked for", where=w)


def harnesses(tier):
    for cls in ('ODEProblem', 'NeuralODE'):
        for subset in (False, True): yield dict(name=f"settings: {cls}" + (', subset of times' if subset else ''), direct=lambda s, cls=cls, subset=subset: problem(s, cls, subset))
    for cls in ('MultipleShootingProblem', 'MultipleShootingLayer'): yield dict(name=f"settings: {cls}", direct=lambda s, cls=cls: shooting(s, cls))
    yield dict(name="solvers by name", direct=by_name)
    yield dict(name="times, trajectory and result of a model", direct=model)
