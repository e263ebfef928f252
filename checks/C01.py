from vc import core, spec, odespec, values as V
import z3


def harness(kind, entry, n_least=2):
    def run(s):
        O = spec.mod("torchdyn.numerics.odeint")
        grid = spec.Grid('T', monotone=entry != '_fixed_odeint')
        n = grid.n
        s.sizes = {'n': n}
        if kind == 'tensor': x0 = spec.state('x0')
        else: x0 = spec.frozen({'a': spec.state('x0a'), 'b': spec.state('x0b', 1)})
        X = odespec.GhostTrajectory(x0, grid.at)
        j = s.skolem_j = z3.Int('j')
        s.index(j, n)
        s.ghost_seqs = {'X': X.at}
        s.templates = [spec.generic_templates, spec.list_templates, spec.seq_equals, odespec.time_templates(grid), odespec.state_templates(X)]
        if kind != 'tensor':
            for c, k in enumerate(x0): s.ghost_seqs[f'X.{k}'] = lambda m, c=c: [X.at(m)[c]]
        F = [z3.Function(f'F{k}', spec.R, *[spec.R] * X.w, spec.R) for k in range(X.w)]
        user_args = spec.frozen({'p': object()})

        def f(t, x): return V.rebuild(x0, [g(V.T.lift(t).e, *V.leaves(x)) for g in F])

        def step(g, x, t, dt, k1=None, args=None):
            if entry != 'odeint_symplectic': s.check(args is user_args, "the caller's arguments reach the step")
            ts, xs = z3.Real('t*'), [z3.Real(f'x*{k}') for k in range(X.w)]
            v = V.leaves(g(V.T(ts), V.rebuild(x0, xs)))
            s.check(z3.And(*[a == b(ts, *xs) for a, b in zip(v, F)]), "the step is given the caller's vector field")
            if k1 is not None: s.fail("the step computes its own first stage", str(k1))
            s.cover('step')
            return None, V.rebuild(x0, X.step(V.leaves(x), V.T.lift(t).e, V.T.lift(dt).e)), None
        solver = odespec.Contract(stepping_class='fixed', order=1, step=step, sync_device_dtype=lambda x, t: (x, t))
        if entry == 'odeint': te, sol = O.odeint(f, x0, grid.seq, solver, args=user_args)
        elif entry == 'odeint_symplectic':
            f.order = 1
            te, sol = O.odeint_symplectic(f, x0, grid.seq, solver)
        else: te, sol = O._fixed_odeint(f, x0, grid.seq, solver, args=user_args)
        s.cover('returned')
        s.check(te.n == n, "one time per grid time", where='odeint')
        s.check(z3.Implies(z3.And(0 <= j, j < n), te.at(j).e == grid.at(j)), "times returned are the grid's", where='odeint')
        sols = [sol] if kind == 'tensor' else [sol[k] for k in x0]
        if kind != 'tensor': s.check(list(sol) == list(x0), "the solution has the components of the state", where='odeint')
        for c, q in enumerate(sols):
            s.check(q.n == n, "one state per grid time", where='odeint')
            s.check(z3.Implies(z3.And(0 <= j, j < n), q.at(j).e == X.at(j)[c]),
                    "j-th state is j solver steps over the grid intervals from the initial state, for all j", where='odeint')
    return run


def harnesses(tier):
    for kind in ('tensor', 'dict'):
        for entry in ('odeint', '_fixed_odeint'):
            yield dict(name=f"{entry}, {kind} state", run=harness(kind, entry), covers=['step', 'returned'])
    yield dict(name="odeint_symplectic, tensor state", run=harness('tensor', 'odeint_symplectic'), covers=['step', 'returned'])
