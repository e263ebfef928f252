import z3
from vc import core, spec, odespec, values as V
from vc.core import real
from vc.values import T, Seq


def fixed_step_world(s, kind, grid):
    "symbolic state, field, ghost solution and the step replaced by its contract"
    if kind == 'tensor': x0 = spec.state('x0')
    else: x0 = spec.frozen({'a': spec.state('x0a'), 'b': spec.state('x0b', 1)})
    X = odespec.GhostTrajectory(x0, grid.at)
    def f(t, x): return V.rebuild(x0, [z3.Function(f'F{k}', spec.R, *[spec.R] * X.w, spec.R)(T.lift(t).e, *V.leaves(x)) for k in range(X.w)])
    def step(g, x, t, dt, k1=None, args=None):
        s.cover('step')
        return None, V.rebuild(x0, X.step(V.leaves(x), T.lift(t).e, T.lift(dt).e)), None
    solver = odespec.Contract(stepping_class='fixed', order=1, step=step, sync_device_dtype=lambda x, t: (x, t))
    return x0, X, f, solver


def subset(kind, entry):
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        grid = spec.Grid('T')
        n, k = grid.n, z3.Int('k')
        s.assume(z3.And(k >= 1, k <= n))
        s.sizes = {'n': n, 'k': k}
        x0, X, f, solver = fixed_step_world(s, kind, grid)
        im = spec.IndexMap(k, n)
        req = z3.Function('request', spec.I, spec.R)   # any order: only its sorted version is related to the grid
        save_at = Seq(k, lambda i: [req(i)], T(real(0)), tag='input')
        save_at.sorted_ = Seq(k, lambda i: [grid.at(im.at(i))], T(real(0)))
        j = s.skolem_j = z3.Int('j')
        im.at(j)
        sel = lambda m: X.at(im.at(m))
        s.ghost_seqs = {'X.I': sel}
        if kind != 'tensor':
            for c, key in enumerate(x0): s.ghost_seqs[f'X.I.{key}'] = lambda m, c=c: [sel(m)[c]]
        s.templates = [spec.generic_templates, spec.list_templates, spec.selection_templates(im), spec.seq_equals, odespec.time_templates(grid), odespec.state_templates(X)]
        if entry == 'odeint': te, sol = O.odeint(f, x0, grid.seq, solver, save_at=save_at)
        elif entry == 'odeint_symplectic':
            f.order = 1
            te, sol = O.odeint_symplectic(f, x0, grid.seq, solver, save_at=save_at)
        else: te, sol = O._fixed_odeint(f, x0, grid.seq, solver, save_at=save_at)
        s.cover('returned')
        inr = z3.And(0 <= j, j < k)
        s.check(te.n == k, "one time per requested time", where=entry)
        s.check(z3.Implies(inr, te.at(j).e == grid.at(im.at(j))), "the times returned are the requested ones in the order of integration", where=entry)
        for c, q in enumerate([sol] if kind == 'tensor' else [sol[key] for key in x0]):
            s.check(q.n == k, "one state per requested time", where=entry)
            s.check(z3.Implies(inr, q.at(j).e == X.at(im.at(j))[c]), "the j-th state is the full solution's at the j-th requested time, for all j", where=entry)
    return run


def refused(why):
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        grid = spec.Grid('T')
        n, k = grid.n, z3.Int('k')
        s.assume(k >= 1)
        s.sizes = {'n': n, 'k': k}
        x0, X, f, solver = fixed_step_world(s, 'tensor', grid)
        sv = z3.Function('sorted_request', spec.I, spec.R)
        req = z3.Function('request', spec.I, spec.R)
        save_at = Seq(k, lambda i: [req(i)], T(real(0)), tag='input')
        def elem(i):
            s.index(z3.simplify(i), k)
            return [sv(i)]
        save_at.sorted_ = Seq(k, elem, T(real(0)))
        a, b = z3.Int('a'), z3.Int('b')
        s.index(a, k)
        if why == 'foreign':   # farther from every grid time than rounding explains
            s.assume(z3.And(0 <= a, a < k))
            m = z3.If(sv(a) >= 0, sv(a), -sv(a))
            eps = real(1e-8) + real(1e-5) * m
            s.forall(n, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.Or(grid.at(i) - sv(a) > eps, sv(a) - grid.at(i) > eps)))
        else:
            s.index(b, k)
            s.assume(z3.And(0 <= a, a < b, b < k, sv(a) == sv(b)))
        s.expect_raise = lambda ex: True
        O.odeint(f, x0, grid.seq, solver, save_at=save_at)
        s.check(z3.BoolVal(False), f"a request with a {why} time is refused", where='odeint')
    return run


def harnesses(tier):
    for kind in ('tensor', 'dict'):
        for entry in ('odeint', '_fixed_odeint'):
            yield dict(name=f"{entry}, subset of the grid, {kind} state", run=subset(kind, entry), covers=['step', 'returned'])
    yield dict(name="odeint_symplectic, subset of the grid", run=subset('tensor', 'odeint_symplectic'), covers=['step', 'returned'])
    for why in ('foreign', 'repeated'): yield dict(name=f"refusal of a {why} time", run=refused(why), covers=['refused'])
