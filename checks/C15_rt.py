from vc.gen import *
from torchdyn.core import NeuralODE, ODEProblem, MultipleShootingProblem
from torchdyn.numerics import odeint, odeint_mshooting
from torchdyn.numerics.solvers.ode import str_to_solver, MSZero, MSBackward

FIXED, ADAPT = ['euler', 'midpoint', 'rk4'], ['dopri5', 'tsit5']


class Once(Spy):
    "adaptive or fixed solver which records that it was used"
    def __init__(self, inner): super().__init__(inner); self.stepping_class = inner.stepping_class


def settings(c):
    rng = c.rng
    d, b = rng.randint(1, 3), rng.randint(1, 4)
    name = rng.choice(FIXED + ADAPT)
    adaptive = name in ADAPT
    f = Field(rng, d)
    ts = grid(rng, reverse=rng.random() < .3, span=rng.choice([.5, 1., 2.]))
    x0 = tensor(rng, (b, d))
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    atol, rtol = 10 ** rng.uniform(-8, -3), 10 ** rng.uniform(-8, -3)
    tolerant = rng.random() < .2
    interp = rng.choice([None, '4th']) if name == 'dopri5' else None
    sub = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts)))) if not adaptive and rng.random() < .4 else None
    kind = rng.choice(['ODEProblem', 'NeuralODE'])
    by = rng.choice(['name', 'object'])
    sa, sr = 10 ** rng.uniform(-9, -4), 10 ** rng.uniform(-9, -4)
    c.note(solver=name, by=by, kind=kind, sens=sens, atol=atol, rtol=rtol, default=tolerant, interp=interp, times=ts.tolist(), subset=sub)
    solver = name if by == 'name' else Once(str_solver(name))
    sub = sub and list(rng.sample(sub, len(sub)))
    save = () if sub is None else ts[sub]
    back = Once(str_solver(rng.choice(['dopri5', 'rk4']))) if rng.random() < .5 else None
    kw = dict(sensitivity=sens, interpolator=interp, solver_adjoint=back, atol_adjoint=sa, rtol_adjoint=sr)
    if not tolerant: kw.update(atol=atol, rtol=rtol)
    elif kind == 'ODEProblem': atol, rtol = 1e-4, 1e-4
    else: atol, rtol = 1e-3, 1e-3
    m = (ODEProblem if kind == 'ODEProblem' else NeuralODE)(f, solver, **kw)
    x = x0.clone().requires_grad_(True)
    te, sol = m(x, ts, save_at=save)
    rte, ref = odeint(f, x0, ts, str_to_solver(name) if by == 'name' else str_solver(name), atol, rtol, interpolator=interp, save_at=save)
    same_times(te, rte)
    close(sol, ref, 2e-6, 'solution')
    if by == 'object': c.require(len(solver.log) > 0, 'the given solver is not used')
    if sens != 'autograd':
        n0 = len(solver.log) if by == 'object' else 0
        for s_ in (solver, back):
            if isinstance(s_, Once): s_.log.clear()
        if len(ts) > 2 and len(te) > 1 or sens == 'adjoint':
            if sens == 'interpolated_adjoint' and len(te) < 2: return
            sol.sum().backward()
            used = back if back is not None else solver if by == 'object' else m.solver
            if isinstance(used, Once) and (len(te) > 1 or abs(float(te[0] - ts[0])) > 0): c.require(len(used.log) > 0, 'the adjoint solver is not used in the backward pass')
            if back is not None and by == 'object': c.require(len(solver.log) == 0, 'the forward solver is used in the backward pass')


def tolerances(c):
    "adaptive backward solves: errors accepted are within the adjoint tolerances"
    rng = c.rng
    d = rng.randint(1, 2)
    f, x0 = Field(rng, d, stiff=2.), tensor(rng, (2, d)).requires_grad_(True)
    ts = grid(rng, n=rng.choice([2, 3, 5]), span=2.)
    sens = rng.choice(['adjoint', 'interpolated_adjoint'])
    solver, back = Spy(str_solver('dopri5')), Spy(str_solver('dopri5'))
    atol, rtol = (1e-9, 1e-9)
    sa, sr = rng.choice([(1e-8, 1e-8), (1e-3, 1e-3), (1e-6, 1e-2), (1e-2, 1e-6)])
    sep = rng.random() < .7
    kind = rng.choice([ODEProblem, NeuralODE])
    m = kind(f, solver, sensitivity=sens, atol=atol, rtol=rtol, solver_adjoint=back if sep else None, atol_adjoint=sa, rtol_adjoint=sr)
    te, sol = m(x0, ts)
    c.note(sens=sens, tols=(sa, sr), separate=sep)
    for l in solver.log:
        if float(l['t'] + l['dt']) <= float(ts[-1]) + 1e-12: pass
    solver.log.clear(); back.log.clear()
    sol.pow(2).sum().backward()
    log = (back if sep else solver).log
    c.require(len(log) > 0, 'no backward steps by the adjoint solver')
    n = x0.numel()
    lead = 2 * n if sens == 'adjoint' else None
    # a step is accepted exactly when the next one starts where it ended
    for l, nx in zip(log, log[1:]):
        acc = torch.equal(nx['x'], l['out'][1])
        r = error_ratio(l, sa, sr, lead)
        if acc: c.require(r <= 1 + 1e-9, f"a backward step with error ratio {r:.3g} at the adjoint tolerances was accepted")
        elif torch.equal(nx['x'], l['x']) and float(abs(nx['t'] - l['t'])) < 1e-15: c.require(r > 1 - 1e-9, f"a backward step with error ratio {r:.3g} at the adjoint tolerances was rejected")


def model(c):
    rng = c.rng
    d = rng.randint(1, 3)
    f, x0 = Field(rng, d), tensor(rng, (rng.randint(1, 3), d))
    name = rng.choice(FIXED + ADAPT)
    sens, ret = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), rng.random() < .5
    stored = grid(rng, span=1.) if rng.random() < .5 else None
    given = grid(rng, span=1.) if rng.random() < .5 else None
    m = NeuralODE(f, str_solver(name), sensitivity=sens, return_t_eval=ret, atol=1e-5, rtol=1e-6)
    if stored is not None: m.t_span = stored
    want = given if given is not None else stored if stored is not None else torch.linspace(0, 1, 2)
    c.note(solver=name, sens=sens, ret=ret, stored=stored is not None, given=given is not None)
    _, ref = odeint(f, x0, want, str_solver(name), 1e-5, 1e-6)
    for k in range(2):
        if rng.random() < .4: m(x0, grid(rng, n=4, span=1.))
        out = m(x0, given) if given is not None else m(x0)
        if ret:
            c.require(isinstance(out, tuple) and len(out) == 2, 'times and solution are returned')
            same_times(out[0], want)
            out = out[1]
        c.require(isinstance(out, torch.Tensor), 'the solution alone is returned')
        close(out, ref, 1e-9, 'solution')
        close(m.trajectory(x0, want), ref, 1e-9, 'trajectory')


def shooting(c):
    rng = c.rng
    d = rng.randint(1, 3)
    f, x0 = Field(rng, d, time=False), tensor(rng, (rng.randint(1, 3), d))
    n = rng.randint(3, 7)
    ts = torch.linspace(0, rng.choice([.5, 1., 2.]), n, dtype=F64)
    cls, nm = rng.choice([(MSZero, 'zero'), (MSBackward, 'discrete-adjoint')])
    by = rng.choice(['name', 'object'])
    sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint'])
    it, fine = rng.randint(0, 5), rng.randint(2, 6)
    B0 = tensor(rng, (n, *x0.shape)) if rng.random() < .4 else None
    c.note(solver=nm, by=by, sens=sens, maxiter=it, fine=fine, guess=B0 is not None)
    if B0 is not None: B0[0] = x0
    m = MultipleShootingProblem(f, nm if by == 'name' else cls(), sens, maxiter=it, fine_steps=fine)
    x = x0.clone().requires_grad_(True)
    te, sol = m(x, ts, None if B0 is None else B0.clone())
    rte, ref = odeint_mshooting(f, x0, ts, cls(), None if B0 is None else B0.clone(), fine_steps=fine, maxiter=it)
    same_times(te, rte)
    close(sol, ref, 2e-6, 'solution')
    if sens == 'adjoint':
        sol.pow(2).sum().backward()
        c.require(x.grad is not None and bool(torch.isfinite(x.grad).all()), 'gradient of the initial state')


SCENARIOS = {'settings': Scen(settings, 150, 2500), 'tolerances': Scen(tolerances, 25, 300), 'model': Scen(model, 50, 600), 'shooting': Scen(shooting, 40, 500)}
