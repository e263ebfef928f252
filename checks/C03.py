import z3
from vc import core, spec, odespec, values as V
from vc.core import real
from vc.values import T, Seq
from checks import C04, C05


class Field:
    "the caller's field, with the attribute symplectic integration asks for"
    order = 1
    def __init__(self, F): self.F = F
    def __call__(self, t, x): return T(self.F(T.lift(t).e, x.e), x.shape_, True)


def fixed(entry, subset):
    "X: fixed-step solution of the mirrored field over the mirrored grid; the call returns it on the grid as given"
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        grid = spec.Grid('T', sign=-1)
        n, k = grid.n, z3.Int('k')
        s.sizes = {'n': n, 'k': k} if subset else {'n': n}
        s.assume(z3.And(k >= 1, k <= n))
        x0 = spec.state('x0')
        X = odespec.GhostTrajectory(x0, lambda m: -grid.at(m))
        F = z3.Function('F', spec.R, spec.R, spec.R)
        f = Field(F)
        j = s.skolem_j = z3.Int('j')
        s.index(j, n)
        mirrored = Mirror(grid)
        im = spec.IndexMap(k, n)
        def step(g, x, t, dt, k1=None, args=None):
            ts, xs = z3.Real('t*'), T(z3.Real('x*'), x.shape_, True)
            s.check(g(T(ts), xs).e == -F(-ts, xs.e), "the step is given the mirrored, negated field: true times reach the caller's")
            s.check(T.lift(dt).e > 0, "steps of the mirrored problem are positive")
            s.cover('step')
            return None, V.rebuild(x0, X.step(V.leaves(x), T.lift(t).e, T.lift(dt).e)), None
        solver = odespec.Contract(stepping_class='fixed', order=1, step=step, sync_device_dtype=lambda x, t: (x, t))
        kw = {}
        sel = (lambda m: m)
        if subset:
            req = z3.Function('request', spec.I, spec.R)
            save_at = Seq(k, lambda i: [req(i)], T(real(0)), tag='input')
            save_at.sorted_ = Seq(k, lambda i: [grid.at(im.at(z3.simplify(k - 1 - i)))], T(real(0)))   # increasing
            kw['save_at'] = save_at
            im.at(j)
            sel = im.at
            s.ghost_seqs = {'X.I': lambda m: X.at(im.at(m))}
            sels = [spec.selection_templates(im)]
        else:
            s.ghost_seqs = {'X': X.at}
            sels = []
        s.templates = [spec.generic_templates, spec.list_templates, *sels, spec.seq_equals, odespec.time_templates(mirrored), odespec.state_templates(X)]
        te, sol = getattr(O, entry)(f, x0, grid.seq, solver, **kw)
        s.cover('returned')
        m = k if subset else n
        inr = z3.And(0 <= j, j < m)
        s.check(z3.And(te.n == m, sol.n == m), "one time and state per requested time", where=entry)
        s.check(z3.Implies(inr, te.at(j).e == grid.at(sel(j))), "the times returned are the true ones requested, in the order of integration", where=entry)
        s.check(z3.Implies(inr, sol.at(j).e == X.at(sel(j))[0]), "the states are those of the mirrored, negated field over the mirrored times, for all j", where=entry)
    return run


class Mirror:
    def __init__(self, grid): self.grid, self.n = grid, grid.n
    def at(self, i): return -self.grid.at(i)


def stages(s):
    for name in C04.NAMES:
        import torch
        solver = spec.mod('torchdyn.numerics.solvers.ode').str_to_solver(name, torch.float64)
        C04.within_step(s, solver, f'{type(solver).__name__}.step')


def harnesses(tier):
    cov = ['step', 'returned']
    for entry in ('odeint', 'odeint_symplectic'):
        yield dict(name=f"{entry}, fixed steps, decreasing grid", run=fixed(entry, False), covers=cov)
        yield dict(name=f"{entry}, fixed steps, subset of a decreasing grid", run=fixed(entry, True), covers=cov)
    yield dict(name="odeint, adaptive, decreasing times", run=C05.harness('odeint', sign=-1), covers=cov + ['init_step'])
    yield dict(name="odeint, adaptive with interpolation, decreasing times", run=C05.harness('odeint', sign=-1, interp=True), covers=cov + ['fit', 'init_step'])
    yield dict(name="odeint_symplectic, adaptive, decreasing times", run=C05.harness('odeint_symplectic', sign=-1), covers=cov + ['init_step'])
    yield dict(name="odeint_symplectic, field of positions, decreasing times", run=C05.positions(-1), covers=['init_step', 'loop', 'returned'])
    yield dict(name="stages stay within their step", direct=stages)
