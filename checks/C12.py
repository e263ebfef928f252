import inspect, z3, torch, numpy
from vc import core, spec, odespec, arr, values as V
from vc.core import real
from vc.values import T, Seq
from vc.arr import Arr, fn, same, lift
from checks.C11 import Field, Ghost, arr_templates, adjoint_solver, world, loss_terms


class States:
    "all internally evaluated states, opaque: only what is done to them as a whole is observed"
    def __init__(self, ops=()): self.ops = ops
    def flip(self, *d): return States(self.ops + (('flip', d),))
    def permute(self, *d): return States(self.ops + (('permute', tuple(d[0]) if len(d) == 1 and not isinstance(d[0], int) else d),))
    def transpose(self, a, b): return self.permute(*((1, 0, 2) if {a, b} == {0, 1} else (a, b)))
    def detach(self): return self
    contiguous = detach
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise core.Unsupported(f"operation {n} on all evaluated states")


class AdjGhost(Ghost):
    "as in C11, for the pair of cotangents only"
    def arrive(self, b):
        g = self.gx(z3.simplify(b - 1))
        return [e + g[k] if k < self.nx else e for k, e in enumerate(self.arrived(b))]


def backward(shape, running, time, saved, down):
    def run(s):
        M = spec.mod('torchdyn.numerics.sensitivity')
        field, nmu = Field(shape, time), 4
        nx = int(numpy.prod(shape))
        grid, n, sol, gx, gts, xs, gs, gt = world(s, shape, field, nx, saved)
        where = 'backward'
        if down:   # integration backwards in time
            tat = lambda m: -grid.at(m)
            t_sol = Seq(n, lambda i: [-grid.at(i)], T(real(0)))
        else: tat, t_sol = grid.at, grid.seq
        last = z3.simplify(n - 1)
        if saved:
            start = z3.Real('start')
            s.assume(start != tat(z3.IntVal(0)))
            t_span = Seq(2, lambda i: [z3.If(i == 0, start, tat(last))], T(real(0)))
        else: t_span = t_sol
        all_ = spec.Grid('ALL', monotone=True)
        t_all = Seq(all_.n, lambda i: [-all_.at(i)], T(real(0))) if down else all_.seq
        states = States()
        mk = lambda es: Arr.of(shape, lambda *i: es[numpy.ravel_multi_index(i, shape)])
        ghost = AdjGhost(n, tat, xs, lambda m: [f(m) for f in gs], None, field, nx, nmu, dict(w=nx + nmu, lam=0, mu=nx, time=None, first=[f(last) for f in gs] + [real(0)] * nmu))
        interp = lambda t: Arr.of(shape, lambda *i: fn('SPLINE' + '_'.join(map(str, i)), lift(t).a.reshape(-1)[0]))

        def dynamics(t, A):
            x, lam = interp(t), mk(A[:nx])
            xv = Arr.sym('xv', *shape)
            dx, dt, dp = field.vjp(t, xv, lam)
            dl = [-e for e in dx]
            if running: dl = [e - arr.diff(loss_terms(xv), c) for e, c in zip(dl, xv.a.flat)]
            sub = list(zip(xv.a.flat, x.a.flat))
            put = lambda e: z3.substitute(e, *sub)
            return arr.cat([Arr.of((nx,), lambda i: put(dl[i])), Arr.of((nmu,), lambda i: put(-dp[i]))])

        def coeffs(x=None, t=None, **k):
            want = (('flip', (0,)),) if down else ()
            s.check(type(x) is States and x.ops[:-1] == want and x.ops[-1:] == (('permute', (1, 0, 2)),), "the interpolation is through all evaluated states, along increasing times", where=where)
            if type(t) is not Seq: s.fail("the times of the interpolation", str(t), where=where); raise core.PathEnd()
            i = z3.Int('i')
            s.index(i, all_.n)
            s.check(z3.And(t.n == all_.n, z3.Implies(z3.And(0 <= i, i < all_.n), t.fn(z3.simplify(i))[0] == (-all_.at(z3.simplify(all_.n - 1 - i)) if down else all_.at(i)))), "the interpolation is at the evaluated times", where=where)
            return ('coefficients', t)

        class Spline:
            def __init__(self, coeffs=None, t=None):
                s.check(type(coeffs) is tuple and coeffs[0] == 'coefficients' and t is coeffs[1], "the spline is that of the coefficients and their times", where=where)
            def evaluate(self, t): return interp(t)
        settings = dict(solver=object(), atol=.125, rtol=.375)
        s.templates = [spec.generic_templates, arr_templates(ghost, n)]
        def intloss(t, x): return Arr(loss_terms(x), rg=True)
        cls = M._gather_odefunc_interp_adjoint(field, None, object(), 1., 1., None, settings['solver'], settings['atol'], settings['rtol'], intloss if running else None, 'standard')
        class Ctx: saved_tensors, needs_input_grad = (sol, t_span, t_sol, states, t_all), (True, True, False, False, False, False)
        with spec.replaced(M, odeint=adjoint_solver(s, field, ghost, settings, dynamics, where), natural_cubic_coeffs=coeffs, CubicSpline=Spline), torch.no_grad():
            mu, lam, dt, *rest = cls.backward(Ctx, gts, gx)
        s.cover('returned')
        A = ghost.at(z3.IntVal(0))
        if saved: A = ghost.flow(A, tat(z3.IntVal(0)), start)
        def eq(v, es): return z3.And(*[a == b for a, b in zip(v.a.flat, es)]) if type(v) is Arr and v.a.size == len(es) else False
        s.check(lam.a.shape == tuple(shape), "the gradient with respect to the initial state has its shape", where=where)
        s.check(eq(lam, A[:nx]), "gradient with respect to the initial state", where=where)
        s.check(eq(mu, A[nx:nx + nmu]), "gradient with respect to the parameters", where=where)
        s.check(all(r is None for r in rest), "no gradient with respect to settings", where=where)
    return run


def forward(down):
    "all evaluated points are asked for and kept; those at the caller's times are returned"
    def run(s):
        M = spec.mod('torchdyn.numerics.sensitivity')
        sig = inspect.signature(spec.mod('torchdyn.numerics.odeint').odeint)
        grid, al = spec.Grid('T', monotone=True), spec.Grid('ALL', monotone=True)
        n, N = grid.n, al.n
        s.sizes = {'n': n, 'N': N}
        sg = (lambda e: -e) if down else (lambda e: e)
        t_span = Seq(n, lambda i: [sg(grid.at(i))], T(real(0)), tag='input')
        t_all = Seq(N, lambda i: [sg(al.at(i))], T(real(0)))
        X = z3.Function('X', z3.IntSort(), z3.RealSort())
        sol_all = Seq(N, lambda i: [X(i)], spec.state('x'))
        J = spec.IndexMap(n, N, 'J')
        j = z3.Int('j')
        s.index(j, n)
        s.index(J.at(j), N)
        s.fact(z3.Implies(z3.And(0 <= j, j < n), al.at(J.at(j)) == grid.at(j)))
        def odeint(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            p = b.arguments
            s.cover('integration')
            s.check(p['f'] is vf and p['x'] is x and p['t_span'] is t_span and p['solver'] is solver and p['interpolator'] is interp, "field, state, times, solver and interpolator", where='forward')
            s.check(p['atol'] == .5 and p['rtol'] == .25 and p['args'] is args and p['return_all_eval'] is True, "tolerances, arguments, all evaluated points", where='forward')
            return t_all, sol_all
        class Solver: stepping_class = 'adaptive'
        class Ctx:
            def save_for_backward(self, *a): self.kept = a
        vf, solver, interp, x, args, ctx = (lambda t, x: x), Solver(), object(), object(), {'a': 1}, Ctx()
        cls = M._gather_odefunc_interp_adjoint(vf, None, solver, .5, .25, interp, object(), 1., 1., None, 'standard')
        with spec.replaced(M, odeint=odeint): t_out, out = cls.forward(ctx, None, x, t_span, None, (), args)
        s.cover('returned')
        ok = z3.And(0 <= j, j < n)
        s.check(t_out.n == n, "one time per requested time", where='forward')
        s.check(z3.Implies(ok, t_out.at(j).e == t_span.at(j).e), "the times are the caller's", where='forward')
        s.check(out.n == n, "one state per requested time", where='forward')
        s.check(z3.Implies(ok, out.at(j).e == X(J.at(j))), "the j-th state is the evaluated one at the j-th time, for all j", where='forward')
        k = ctx.kept
        s.check(len(k) == 5 and k[0] is out and k[1] is t_span and k[2] is t_out and k[3] is sol_all and k[4] is t_all, "what the backward pass needs is kept", where='forward')
    return run


def harnesses(tier):
    b = 'states of up to 2 entries in batches of one, 3 parameters; any number of returned times and evaluated points'
    for down in (False, True):
        yield dict(name="forward pass" + (", reversed times" if down else ""), run=forward(down), covers=['integration', 'returned'])
        for shape in ((1, 1), (1, 2)) + (((2, 2),) if tier == 'thorough' else ()):
            for running in (False, True):
                for saved in (False, True):
                    nm = f"backward pass, state {shape}" + (", reversed times" if down else "") + (", running loss" if running else "") + (", first returned time after the start" if saved else "")
                    yield dict(name=nm, run=backward(shape, running, not running, saved, down), covers=['backward solve', 'returned'], bounded=b, budget_s=400)
