import contextlib, inspect, z3, torch
from vc import core, spec, odespec, arr, values as V
from vc.core import real
from vc.values import T, Seq, SInt
from vc.arr import Arr, fn, same, lift


class Field:
    "an arbitrary field of a state of the given shape, with a used, an unused and a frozen parameter"
    def __init__(self, shape, time=True):
        self.shape, self.time = shape, time
        self.p, self.u, self.q = Arr.sym('p', 2, rg=True), Arr.sym('u', 1, rg=True), Arr.sym('q', 1)
        self.calls = []
    def parameters(self): return iter([self.p, self.u, self.q])
    def terms(self, t, x):
        a = ([lift(t).a.reshape(-1)[0]] if self.time else []) + list(x.a.flat) + list(self.p.a.flat) + list(self.q.a.flat)
        return Arr.of(self.shape, lambda *i: fn('F' + '_'.join(map(str, i)), *a))
    def __call__(self, t, x, args={}):
        r = self.terms(t, x)
        r.rg = torch.is_grad_enabled()
        return r
    def vjp(self, t, x, v):
        "v.dF/dx, v.dF/dt, v.dF/d(parameters): the frozen and the unused one get nothing"
        F = self.terms(t, x)
        def d(c): return arr.add_all([arr.times(g, w) for g, w in ((arr.diff(e, c), w) for e, w in zip(F.a.flat, v.a.flat)) if g is not None])
        z = lambda e: real(0) if e is None else e
        return ([z(d(c)) for c in x.a.flat], z(d(lift(t).a.reshape(-1)[0])), [z(d(c)) for c in list(self.p.a.flat)] + [real(0), real(0)])


def loss_terms(x): return fn('loss', *x.a.flat)


class Ghost:
    """the adjoint state at the m-th returned time: at the last one the state, its cotangent, no parameter cotangent and cotangent of
    the time; then backwards, the flow over the interval followed by the contributions of the earlier time"""
    def __init__(self, n, tfun, x, gx, gt, field, nx, nmu, blocks, name='B'):
        self.n, self.t, self.gx, self.gt, self.nx, self.nmu, self.blocks = n, tfun, gx, gt, nx, nmu, blocks
        self.w = blocks['w']
        self.fs = [z3.Function(f'{name}{k}', z3.IntSort(), z3.RealSort()) for k in range(self.w)]
        self.flow_ = [z3.Function(f'FLOW{k}', *[z3.RealSort()] * (self.w + 3)) for k in range(self.w)]
        self.seen = []
        s = core.S()
        for f, e in zip(self.fs, blocks['first']): s.assume(f(z3.simplify(n - 1)) == e)
    def flow(self, A, a, b): return [f(*A, a, b) for f in self.flow_]
    def at(self, m):
        "values, with the step from the m-th to the previous time unfolded"
        m = z3.simplify(m) if not isinstance(m, int) else z3.IntVal(m)
        s = core.S()
        for b in (m, z3.simplify(m + 1)):
            if any(b.eq(o) for o in self.seen): continue
            self.seen.append(b)
            def inst(b=b):
                new = self.arrive(b)
                for f, e in zip(self.fs, new): s.fact(z3.Implies(z3.And(b >= 1, b <= self.n - 1), f(z3.simplify(b - 1)) == e))
            s.later(inst)
        return [f(m) for f in self.fs]
    def arrived(self, b):
        "the adjoint after the flow from the b-th to the previous time, without the contributions of that time"
        return self.flow([f(b) for f in self.fs], self.t(b), self.t(z3.simplify(b - 1)))
    def arrive(self, b):
        A, o = self.arrived(b), self.blocks
        g, gt = self.gx(z3.simplify(b - 1)), self.gt(z3.simplify(b - 1))
        out = []
        for k, e in enumerate(A):
            if o['lam'] <= k < o['lam'] + self.nx: e = e + g[k - o['lam']]
            elif o['time'] == k: e = e - gt
            out.append(e)
        return out


def arr_templates(ghost, n):
    def t(sess, lid, env, kappa):
        for name, v in env.items():
            if type(v) is not Arr: continue
            es = list(v.a.flat)
            for c in (-1, 0, 1):
                i = z3.simplify(n - 1 - kappa + c)
                ok = z3.And(i >= 0, i <= n - 1)
                if len(es) == ghost.w:
                    g = ghost.at(i)
                    yield f"{name} == adjoint(last - k{c:+d})", lambda: z3.Implies(ok, z3.And(*[a == b for a, b in zip(es, g)]))
                if len(es) == ghost.nx and 'lam' in ghost.blocks:
                    b = z3.simplify(i + 1)
                    ghost.at(b)
                    o = ghost.blocks['lam']
                    yield f"{name} == cotangent on arrival(last - k{c:+d})", lambda: z3.Implies(z3.And(ok, b <= n - 1), z3.And(*[a == e for a, e in zip(es, ghost.arrived(b)[o:o + ghost.nx])]))
                    yield f"{name} == 0 before the first interval", lambda: z3.Implies(kappa == 0, z3.And(*[a == 0 for a in es]))
    return t


def adjoint_solver(s, field, ghost, settings, dynamics, where):
    "contract of the inner odeint: the flow of the dynamics it is given, from the first to the last of the times it is given"
    sig = inspect.signature(spec.mod('torchdyn.numerics.odeint').odeint)
    def odeint(f, A, ts, *a, **k):
        b = sig.bind(f, A, ts, *a, **k)
        b.apply_defaults()
        p = b.arguments
        s.cover('backward solve')
        s.check(p['solver'] is settings['solver'], "the adjoint's solver", where=where)
        s.check(p['atol'] == settings['atol'] and p['rtol'] == settings['rtol'], "the adjoint's tolerances", where=where)
        s.check(len(p['save_at']) == 0 and not p['return_all_eval'] and not p['args'], "no further settings", where=where)
        if 'seminorm' in settings: s.check(p['seminorm'] in settings['seminorm'], "the error norm is over state and cotangent only", where=where)
        if type(A) is not Arr or A.a.shape != (ghost.w,): s.fail("layout of the adjoint state", f"{A}", where=where); raise core.PathEnd()
        for shp in ((), (1,)):
            ts_, As = arr.Arr.sym('t*', *shp), Arr.sym('A*', ghost.w)
            keep = list(As.a)
            with torch.no_grad(): r = f(ts_, As)
            s.check(same(r.flatten(), dynamics(lift(z3.Real('t*' + ('_0' if shp else ''))), keep)), "the field of the adjoint equation", where=where)
        t0, t1 = ts[0], ts[-1]
        s.check(z3.Or(*[ts.n == 2]) if type(ts) is Seq else False, "one interval at a time", where=where)
        out = arr.zeros((2, ghost.w))
        out.a[0] = list(A.a)
        out.a[1] = ghost.flow(list(A.a), t0.e, t1.e)
        return ts, out
    return odeint


def setting(shape, running, time):
    field = Field(shape, time)
    nx = 1
    for d in shape: nx *= d
    return field, nx, 4


def world(s, shape, field, nx, saved):
    grid = spec.Grid('T', monotone=True)
    n = grid.n
    s.sizes = {'n': n}
    xs = [z3.Function(f'x{k}', z3.IntSort(), z3.RealSort()) for k in range(nx)]
    gs = [z3.Function(f'g{k}', z3.IntSort(), z3.RealSort()) for k in range(nx)]
    gt = z3.Function('gt', z3.IntSort(), z3.RealSort())
    tpl = arr.zeros(shape)
    sol = Seq(n, lambda i: [f(i) for f in xs], tpl)
    gx = Seq(n, lambda i: [f(i) for f in gs], tpl)
    return grid, n, sol, gx, Seq(n, lambda i: [gt(i)], T(real(0))), xs, gs, gt


def backward(shape, running, time, saved, tgrad=False):
    def run(s):
        M = spec.mod('torchdyn.numerics.sensitivity')
        field, nx, nmu = setting(shape, running, time)
        grid, n, sol, gx, gts, xs, gs, gt = world(s, shape, field, nx, saved)
        where = 'backward'
        if saved:   # the first returned time comes after the start of the integration
            start = z3.Real('start')
            s.assume(start < grid.at(z3.IntVal(0)))
            t_span = Seq(2, lambda i: [z3.If(i == 0, start, grid.at(z3.simplify(n - 1)))], T(real(0)))
        else: t_span = grid.seq
        last = z3.simplify(n - 1)
        xT, gT = Arr.of(shape, lambda *i: 0), None
        X, G = [f(last) for f in xs], [f(last) for f in gs]
        mk = lambda es: Arr.of(shape, lambda *i: es[__import__('numpy').ravel_multi_index(i, shape)] if shape else es[0])
        FT = field.terms(T(grid.at(last)), mk(X))
        tT = arr.add_all([g * e for g, e in zip(G, FT.a.flat)])
        blocks = dict(w=2 * nx + nmu + 1, lam=nx, mu=2 * nx, time=2 * nx + nmu, first=X + G + [real(0)] * nmu + [tT])
        ghost = Ghost(n, grid.at, xs, lambda m: [f(m) for f in gs], lambda m: gt(m), field, nx, nmu, blocks)

        def dynamics(t, A):
            x, lam = mk(A[:nx]), mk(A[nx:2 * nx])
            dx, dt, dp = field.vjp(t, x, lam)
            dl = [-e for e in dx]
            if running: dl = [e - arr.diff(loss_terms(x), c) for e, c in zip(dl, x.a.flat)]
            return arr.cat([field.terms(t, x).flatten(), lift(0.).expand(0) if False else Arr.of((nx,), lambda i: dl[i]), Arr.of((nmu,), lambda i: -dp[i]), Arr.of((1,), lambda i: -dt)])
        def intloss(t, x): 
            r = Arr(loss_terms(x), rg=True)
            return r
        settings = dict(solver=object(), atol=.125, rtol=.375, seminorm=[(True, 2 * nx)])
        s.templates = [spec.generic_templates, arr_templates(ghost, n)]
        cls = M._gather_odefunc_adjoint(field, None, object(), 1., 1., None, settings['solver'], settings['atol'], settings['rtol'], intloss if running else None, 'standard')
        class Ctx: saved_tensors, needs_input_grad = (sol, t_span, grid.seq), (True, True, tgrad, False, False, False)
        j = z3.Int('j')
        if tgrad:
            s.index(j, n)
            def direct(m):
                f = field.terms(T(grid.at(m)), mk([f(m) for f in xs]))
                return gt(m) + z3.If(m > 0, arr.add_all([g(m) * e for g, e in zip(gs, f.a.flat)]), real(0))
            def seqs(sess, lid, env, kappa):
                for name, v in env.items():
                    if type(v) is Seq:
                        for c in (0, 1): yield f"{name}[j]: direct contribution of the times before k{c:+d}", lambda: z3.Implies(z3.And(0 <= j, j < n), v.fn(j)[0] == z3.If(j < kappa + c, direct(j), real(0)))
                        for c in (0, 1): yield f"{name}[0]: direct contribution of the times before k{c:+d}", lambda: v.fn(z3.IntVal(0))[0] == z3.If(0 < kappa + c, direct(z3.IntVal(0)), real(0))
            s.templates.append(seqs)
        with spec.replaced(M, odeint=adjoint_solver(s, field, ghost, settings, dynamics, where)), torch.no_grad():
            mu, lam, dt, *rest = cls.backward(Ctx, gts, gx)
        s.cover('returned')
        A = ghost.at(z3.IntVal(0))
        ghost.at(z3.IntVal(1))
        L0 = [z3.If(n > 1, e, real(0)) for e in ghost.arrived(z3.IntVal(1))[nx:2 * nx]]
        if saved:
            A = ghost.flow(A, grid.at(z3.IntVal(0)), start)
            L0 = A[nx:2 * nx]
        def eq(v, es): return z3.And(*[a == b for a, b in zip(v.a.flat, es)]) if type(v) is Arr and v.a.size == len(es) else False
        s.check(lam.a.shape == tuple(shape), "the gradient with respect to the initial state has its shape", where=where)
        s.check(eq(lam, A[nx:2 * nx]), "gradient with respect to the initial state", where=where)
        s.check(eq(mu, A[2 * nx:2 * nx + nmu]), "gradient with respect to the parameters", where=where)
        s.check(all(r is None for r in rest) and len(rest) == 3, "no gradient with respect to settings", where=where)
        if not tgrad: s.check(dt is None, "no gradient with respect to the times unless asked for", where=where)
        else:
            f0 = field.terms(T(grid.at(z3.IntVal(0))), mk(A[:nx]))
            back = arr.add_all([a * b for a, b in zip(L0, f0.a.flat)])
            s.check(z3.Implies(z3.And(0 <= j, j < n), dt.fn(j)[0] == direct(j) - z3.If(j == 0, back, real(0))), "gradient with respect to every evaluation time", where=where)
    return run


def vjp(s):
    "_vf_vjp: order and treatment of frozen and unused parameters, for fields with and without use of time and state"
    M = spec.mod('torchdyn.numerics.sensitivity')
    for shape in ((1,), (2,), (2, 2)):
        for time in (True, False):
            f = Field(shape, time)
            t, x, v = Arr.sym('t', rg=True), Arr.sym('x', *shape, rg=True), Arr.sym('v', *shape)
            with torch.enable_grad():
                y = f(t, x)
                dx, dt, *dp = M._vf_vjp(y, x, t, f, v)
            rx, rt, rp = f.vjp(t, x, v)
            n = 1
            for d in shape: n *= d
            s.check(same(dx.flatten(), Arr.of((n,), lambda i: rx[i])), "product with respect to the state", where='_vf_vjp')
            s.check((dt is None and not time) or same(dt, Arr(rt)), "product with respect to time", where='_vf_vjp')
            s.check(len(dp) == 3 and same(arr.cat([d.flatten() for d in dp]), Arr.of((4,), lambda i: rp[i])), "products with respect to the parameters, in their order, none for frozen and unused ones", where='_vf_vjp')
    class NoState(Field):
        def terms(self, t, x): return Arr.of(self.shape, lambda *i: fn('H', lift(t).a.reshape(-1)[0], *self.p.a.flat))
    f = NoState((2,), True)
    t, x, v = Arr.sym('t', rg=True), Arr.sym('x', 2, rg=True), Arr.sym('v', 2)
    with torch.enable_grad(): dx = M._vf_vjp(f(t, x), x, t, f, v)[0]
    s.check(same(dx, lift(0.).expand(2)), "no product with respect to a state the field ignores", where='_vf_vjp')


def forward(kind):
    "the forward pass hands its settings to the integration, returns its result and keeps what the backward pass needs"
    def run(s):
        M = spec.mod('torchdyn.numerics.sensitivity')
        sig, got = inspect.signature(spec.mod('torchdyn.numerics.odeint').odeint), []
        sol, t_sol = object(), object()
        def odeint(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            got.append(b.arguments)
            return t_sol, sol
        vf, solver, interp = (lambda t, x: x), object(), object()
        class Ctx:
            def save_for_backward(self, *a): self.kept = a
        ctx, x, ts, save, args = Ctx(), object(), object(), (1., 2.), {'a': 1}
        cls = M._gather_odefunc_adjoint(vf, None, solver, .5, .25, interp, object(), 1., 1., None, 'standard')
        with spec.replaced(M, odeint=odeint): out = cls.forward(ctx, None, x, ts, None, save, args)
        a = got[0]
        s.check(len(got) == 1 and out == (t_sol, sol), "one integration, whose result is returned", where='forward')
        s.check(a['f'] is vf and a['x'] is x and a['t_span'] is ts and a['solver'] is solver and a['interpolator'] is interp, "field, state, times, solver and interpolator", where='forward')
        s.check(a['atol'] == .5 and a['rtol'] == .25 and a['save_at'] is save and a['args'] is args and a['return_all_eval'] is False, "tolerances, requested times and arguments", where='forward')
        s.check(len(ctx.kept) == 3 and all(p is q for p, q in zip(ctx.kept, (sol, ts, t_sol))), "what the backward pass needs is kept", where='forward')
    return run


def harnesses(tier):
    yield dict(name="vector-Jacobian products", direct=vjp, bounded='states of up to 2x2 entries')
    yield dict(name="forward pass", direct=forward('adjoint'))
    b = 'states of up to 2 entries, 3 parameters; any number of returned times'
    for shape in ((1,), (2,)) + (((1, 2), (2, 2)) if tier == 'thorough' else ()):
        for running in (False, True):
            for saved in (False, True):
                nm = f"backward pass, state {shape}" + (", running loss" if running else "") + (", first returned time after the start" if saved else "")
                yield dict(name=nm, run=backward(shape, running, not running, saved), covers=['backward solve', 'returned'], bounded=b, budget_s=400)
    yield dict(name="backward pass, gradient of the times", run=backward((1,), False, True, False, True), covers=['backward solve', 'returned'], bounded=b)
