import z3, torch
from vc import core, spec, odespec, poly, values as V
from vc.core import real
from vc.values import T, Seq


def world(s, kind, grid):
    "symbolic state, an arbitrary Brownian path, ghost solution driven by it, the step replaced by its contract (C09)"
    x0 = spec.state('x0') if kind == 'tensor' else spec.frozen({'a': spec.state('x0a'), 'b': spec.state('x0b', 1)})
    W = z3.Function('W', spec.R, spec.R, spec.R)      # increment over [s, t]
    inc = lambda a, b: W(a, b)
    X = odespec.GhostTrajectory(x0, grid.at, extra=lambda m: [inc(grid.at(m), grid.at(z3.simplify(m + 1)))])

    def step(x, t, dt):
        s.cover('step')
        te, de = T.lift(t).e, T.lift(dt).e
        return None, V.rebuild(x0, X.step(V.leaves(x), te, de, [inc(te, te + de)])), None
    return x0, X, odespec.Contract(stepping_class='fixed', order=1, step=step, sync_device_dtype=lambda x, t: (x, t))


def full(kind, entry):
    def run(s):
        M = spec.mod('torchdyn.numerics.sdeint')
        Fn = spec.mod('torchdyn.core.defunc').SDEFunc
        grid = spec.Grid('T', monotone=True)
        n = grid.n
        s.sizes = {'n': n}
        x0, X, solver = world(s, kind, grid)
        j = s.skolem_j = z3.Int('j')
        s.index(j, n)
        s.ghost_seqs = {'X': X.at}
        if kind != 'tensor':
            for c, k in enumerate(x0): s.ghost_seqs[f'X.{k}'] = lambda m, c=c: [X.at(m)[c]]
        s.templates = [spec.generic_templates, spec.list_templates, spec.seq_equals, odespec.time_templates(grid), odespec.state_templates(X)]
        sde, bm = Fn(None, None, noise_type='diagonal', sde_type='ito'), object()
        if entry == '_fixed_sdeint': te, sol = M._fixed_sdeint(x0, grid.seq, solver)
        elif entry == 'sdeint': te, sol = M.sdeint(sde, x0, grid.seq, solver, bm)
        else:
            seen = []
            def by_name(name, e, b, dtype=torch.float32):
                seen.append((name, e, b, dtype))
                return solver
            with spec.replaced(M, sde_str_to_solver=by_name): te, sol = M.sdeint(sde, x0, grid.seq, 'euler', bm)
            s.check(len(seen) == 1 and seen[0][0] == 'euler', "the named solver is built", where='sdeint')
            s.check(all(a[1] is sde and a[2] is bm for a in seen), "the solver is built for the caller's equation and Brownian path", where='sdeint')
        s.cover('returned')
        ok = z3.And(0 <= j, j < n)
        s.check(te.n == n, "one time per grid time", where='sdeint')
        s.check(z3.Implies(ok, te.at(j).e == grid.at(j)), "times returned are the grid's", where='sdeint')
        for c, q in enumerate([sol] if kind == 'tensor' else [sol[k] for k in x0]):
            s.check(q.n == n, "one state per grid time", where='sdeint')
            s.check(z3.Implies(ok, q.at(j).e == X.at(j)[c]), "the j-th state is j steps over the grid intervals, each driven by the increment of its interval, for all j", where='sdeint')
    return run


def subset(kind):
    def run(s):
        M = spec.mod('torchdyn.numerics.sdeint')
        Fn = spec.mod('torchdyn.core.defunc').SDEFunc
        grid = spec.Grid('T')
        n, k = grid.n, z3.Int('k')
        s.assume(z3.And(k >= 1, k <= n))
        s.sizes = {'n': n, 'k': k}
        x0, X, solver = world(s, kind, grid)
        im = spec.IndexMap(k, n)
        req = z3.Function('request', spec.I, spec.R)
        save_at = Seq(k, lambda i: [req(i)], T(real(0)), tag='input')
        save_at.sorted_ = Seq(k, lambda i: [grid.at(im.at(i))], T(real(0)))
        j = s.skolem_j = z3.Int('j')
        im.at(j)
        sel = lambda m: X.at(im.at(m))
        s.ghost_seqs = {'X.I': sel}
        if kind != 'tensor':
            for c, key in enumerate(x0): s.ghost_seqs[f'X.I.{key}'] = lambda m, c=c: [sel(m)[c]]
        s.templates = [spec.generic_templates, spec.list_templates, spec.selection_templates(im), spec.seq_equals, odespec.time_templates(grid), odespec.state_templates(X)]
        te, sol = M.sdeint(Fn(None, None), x0, grid.seq, solver, None, save_at=save_at)
        s.cover('returned')
        ok = z3.And(0 <= j, j < k)
        s.check(te.n == k, "one time per requested time", where='sdeint')
        s.check(z3.Implies(ok, te.at(j).e == grid.at(im.at(j))), "the times returned are the requested ones", where='sdeint')
        for c, q in enumerate([sol] if kind == 'tensor' else [sol[key] for key in x0]):
            s.check(q.n == k, "one state per requested time", where='sdeint')
            s.check(z3.Implies(ok, q.at(j).e == X.at(im.at(j))[c]), "the j-th state is the full solution's at the j-th requested time, for all j", where='sdeint')
    return run


def coefficients(s):
    "what SDEFunc.f and SDEFunc.g evaluate, for every way a coefficient can be given"
    D = spec.mod('torchdyn.core.defunc')
    M = spec.mod('torchdyn.numerics.sdeint')
    t, x = T(z3.Real('t'), tag='input'), spec.state('x')
    sym = {w: (z3.Function(w, spec.R, spec.R, spec.R), z3.Function(w + '_', spec.R, spec.R)) for w in 'fg'}
    def makers(w):
        F, G = sym[w]
        class Mt(torch.nn.Module):
            def forward(self, t, x): return T(F(T.lift(t).e, x.e), x.shape_, True)
        class M0(torch.nn.Module):
            def forward(self, x): return T(G(x.e), x.shape_, True)
        full, auto = F(t.e, x.e), G(x.e)
        return [('a module with time', Mt(), full), ('a module without time', M0(), auto),
                ('a function with time', lambda t, x: T(F(T.lift(t).e, x.e), x.shape_, True), full), ('a function without time', lambda x: T(G(x.e), x.shape_, True), auto)]
    class Bare: pass
    for fn, f, fe in makers('f'):
        for gn, g, ge in makers('g'):
            bare = Bare()
            bare.f, bare.g, bare.noise_type, bare.sde_type = f, g, 'scalar', 'stratonovich'
            own = D.SDEFunc(f, g, noise_type='additive', sde_type='ito')
            s.check(M.check_sde(own) is own, "an SDEFunc is used as given", where='check_sde')
            for how, e, names in (('given as SDEFunc', own, ('additive', 'ito')), ('given as an object with f and g', M.check_sde(bare), ('scalar', 'stratonovich'))):
                s.check((e.noise_type, e.sde_type) == names, f"{how}: noise type and calculus are kept", where='SDEFunc')
                s.check(e.f(t, x).e == fe, f"{how}: the drift is {fn}", where='SDEFunc.f')
                s.check(e.g(t, x).e == ge, f"{how}: the diffusion is {gn}", where='SDEFunc.g')


def plumbing(s):
    "SDEProblem and NeuralSDE hand everything on to sdeint unchanged"
    P, N, C = (spec.mod(m) for m in ('torchdyn.core.problems', 'torchdyn.core.neuralde', 'torchdyn.numerics'))
    D = spec.mod('torchdyn.core.defunc')
    S_ = spec.mod('torchdyn.numerics.sdeint')
    import inspect
    sig, got = inspect.signature(S_.sdeint), []
    def stub(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        got.append(b.arguments)
        return 'times', 'states'
    x, ts, bm, sa, ar = spec.state('x'), object(), object(), object(), object()
    f, g = torch.nn.Identity(), torch.nn.Identity()
    with spec.replaced(C, sdeint=stub), spec.replaced(P, sdeint=stub), spec.replaced(N, sdeint=stub), spec.replaced(S_, sdeint=stub):
        sde, solver = D.SDEFunc(f, g, noise_type='diagonal', sde_type='ito'), 'a solver'
        p = P.SDEProblem(sde, solver, atol=.25, rtol=.5)
        for call in (p.sdeint, p.forward, p):
            got.clear()
            out = call(x, ts, bm, sa, ar)
            s.check(out == ('times', 'states') and len(got) == 1, "one integration, whose result is returned", where='SDEProblem')
            a = got[0]
            s.check(a['sde'] is sde and a['x'] is x and a['t_span'] is ts and a['bm'] is bm and a['solver'] is solver, "equation, state, times, solver and path reach the integration", where='SDEProblem')
            s.check(a['save_at'] is sa and a['args'] is ar and a['atol'] == .25 and a['rtol'] == .5, "requested times, arguments and tolerances reach the integration", where='SDEProblem')
        for noise in ('diagonal', 'general'):
            for calc in ('ito', 'stratonovich'):
                for own in (False, True):
                    m = N.NeuralSDE(f, g, solver='eulerHeun', noise_type=noise, sde_type=calc, t_span=ts, bm=bm)
                    m.defunc.named_modules = lambda: ()
                    for how in ('forward', 'trajectory'):
                        got.clear()
                        out = m.trajectory(x, ts) if how == 'trajectory' else m.forward(x, ts if own else None)
                        w = f'NeuralSDE.{how}'
                        s.check(out == ('states' if how == 'trajectory' else ('times', 'states')) and len(got) == 1, "one integration, whose result is returned", where=w)
                        a = got[0]
                        s.check(a['sde'] is m.defunc and (m.defunc.noise_type, m.defunc.sde_type) == (noise, calc), "the model's equation, with its calculus and noise", where=w)
                        s.check(m.defunc.f_func is f and m.defunc.g_func is g, "drift and diffusion as given", where=w)
                        s.check(a['x'] is x and a['t_span'] is ts and a['bm'] is bm and a['solver'] == 'eulerHeun', "state, times, path and solver reach the integration", where=w)
                    m.return_t_eval = False
                    s.check(m.forward(x) == 'states', "only the states, if so configured", where='NeuralSDE.forward')


def harnesses(tier):
    for kind in ('tensor', 'dict'):
        for entry in ('sdeint', '_fixed_sdeint'): yield dict(name=f"{entry}, {kind} state", run=full(kind, entry), covers=['step', 'returned'])
        yield dict(name=f"sdeint, subset of the grid, {kind} state", run=subset(kind), covers=['step', 'returned'])
    yield dict(name="sdeint, solver by name", run=full('tensor', 'by name'), covers=['step', 'returned'])
    yield dict(name="coefficients", direct=coefficients)
    yield dict(name="plumbing", direct=plumbing)
