"""Contracts of multiple shooting.  FINE and COARSE are arbitrary maps of one state (the flow of the autonomous field over one
interval, by the contract of the integrator, C01); P(k, m) is the m-th shooting parameter after k iterations."""
import contextlib, torch, z3
from vc import core, spec, odespec, values as V
from vc.core import real, Unsupported, Forall
from vc.values import T, Seq, SInt, VList, eint
from vc.spec import R, I

FINE, COARSE = z3.Function('FINE', R, R), z3.Function('COARSE', R, R)
VJP = z3.Function('VJP', R, R, R)       # gradient of FINE at a state, applied to a cotangent


class Iterates:
    "P(0, .) is the guess; P(k+1, 0) = P(k, 0); P(k+1, m) = coarse(P(k+1, m-1)) + fine(P(k, m-1)) - coarse(P(k, m-1)), or the discrete-adjoint update; SEQ(m) is the sequential fine solution"
    def __init__(self, s, guess, n, kind):
        self.s, self.guess, self.n, self.kind = s, guess, n, kind
        self.P, self.SEQ = z3.Function('P', I, I, R), z3.Function('SEQ', I, R)
        self.seen, self.seqs = [], []
        s.tracked += [self.seen, self.seqs]

    def update(self, now, old, here):
        "the updated parameter from its updated predecessor, the old predecessor and the old parameter"
        if self.kind == 'MSZero': return COARSE(now) - COARSE(old) + FINE(old)
        self.s.fact(VJP(old, real(0)) == 0)
        return FINE(old) + VJP(old, now - old)

    def at(self, k, m):
        k, m = z3.simplify(k), z3.simplify(m)
        if not any(k.eq(a) and m.eq(b) for a, b in self.seen):
            self.seen.append((k, m))
            s, P = self.s, self.P
            s.index(m, self.n)
            def inst():
                s.fact(z3.Implies(k == 0, P(k, m) == self.guess(m)))
                s.fact(z3.Implies(z3.And(k > 0, m == 0), P(k, m) == P(k - 1, m)))
                s.fact(z3.Implies(z3.And(k > 0, m > 0), P(k, m) == self.update(P(k, m - 1), P(k - 1, m - 1), P(k - 1, m))))
                self.exact(k, m), self.exact(k - 1, m), self.exact(k, m - 1), self.exact(k - 1, m - 1)
            s.later(inst)
        return self.P(k, m)

    def seq(self, m):
        m = z3.simplify(m)
        if not any(m.eq(a) for a in self.seqs):
            self.seqs.append(m)
            self.s.fact(z3.Implies(m == 0, self.SEQ(m) == self.guess(z3.IntVal(0))))
            self.s.fact(z3.Implies(m > 0, self.SEQ(m) == FINE(self.SEQ(m - 1))))
        return self.SEQ(m)

    def exact(self, k, m):
        "the lemma (shown by induction in its own harness): after k iterations the first k + 1 parameters are the sequential solution"
        k, m = z3.simplify(k), z3.simplify(m)
        self.s.fact(z3.Implies(z3.And(k >= 0, m >= 0, m <= k), self.P(k, m) == self.seq(m)))


def lemma(kind):
    def run(s):
        "by induction over k, and for given k over m: P(k, m) = SEQ(m) for m <= k; the step cases of the double induction"
        b0 = z3.Function('B0', I, R)
        it = Iterates(s, lambda m: b0(m), z3.Int('n'), kind)
        it.exact = lambda k, m: None
        k, m = z3.Int('k'), z3.Int('m')
        s.assume(z3.And(k >= 0, m >= 0, m <= k))
        s.cover('lemma')
        P, Q = it.P, it.seq
        # hypotheses: the lemma for (k - 1, m'), m' <= k - 1, at the indices used, and for (k, m - 1)
        for j in (m - 1, m): s.assume(z3.Implies(z3.And(k >= 1, j >= 0, j <= k - 1), P(k - 1, j) == Q(j)))
        s.assume(z3.Implies(m >= 1, P(k, m - 1) == Q(m - 1)))
        it.seq(z3.IntVal(0))
        if kind != 'MSZero': s.fact(z3.And(VJP(P(k - 1, m - 1), real(0)) == 0))
        it.at(k, m); it.at(k, z3.IntVal(0)); it.at(k - 1, z3.IntVal(0))
        s.assume(z3.Implies(k >= 1, P(k - 1, 0) == Q(z3.IntVal(0))))
        s.check(P(k, m) == Q(m), "the first k + 1 parameters after k iterations are the sequential fine solution (induction over k and m)", where=kind)
        s.check(z3.Implies(z3.And(k >= 1, m <= k - 1), P(k, m) == P(k - 1, m)), "an exact parameter does not change any more", where=kind)
    return run


class Linspace:
    "torch.linspace: entries in arithmetic progression"
    def __enter__(self):
        self.old = torch.linspace
        def linspace(a, b, steps, *r, **k):
            if not isinstance(b, T) and not isinstance(a, T): return self.old(a, b, steps, *r, **k)
            a, b, n = T.lift(a).e, T.lift(b).e, eint(steps)
            return Seq(n, lambda i: [a + (b - a) * z3.ToReal(i) / z3.ToReal(n - 1)], T(real(0)))
        torch.linspace = linspace
    def __exit__(self, *a): torch.linspace = self.old


def candidates(it, unrelated=()):
    "tensors and lists whose entries are iterates up to some bound, states equal to an entry; never by name"
    def t(sess, lid, env, kappa):
        envs = {**{n: v for n, v in getattr(sess, 'read_env', {}).items()}, **env}
        ints = {'k': kappa}
        for n, v in envs.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool) and not any(eint(v).eq(u) for u in unrelated) and not any(eint(v).eq(u) for u in ints.values()): ints[n] = eint(v)
        moving = {n: e for n, e in ints.items() if n == 'k' or n in env}
        n = it.n
        for name, v in env.items():
            seq = v if type(v) is Seq else None
            if type(v) is str: continue
            if name.startswith('tensor ') or type(v) is Seq or type(v) is VList and v.template() is not None:
                try: fn = v.fn; fn(z3.IntVal(0))
                except Unsupported: continue
                if type(v) is Seq and not (isinstance(v.elem, T) and v.elem.vec): continue
                for a, ka in ints.items():
                    for ca in (-1, 0, 1):
                        K = z3.simplify(ka + ca)
                        yield f"{name} == P({a}{ca:+d})", Forall(n, lambda m, K=K, fn=fn: z3.Implies(z3.And(m >= 0, m < n, K >= 0), fn(m)[0] == it.at(K, m)))
                        for b, kb in ints.items():
                            for cb in (0, 1):
                                U = z3.simplify(kb + cb + (kappa if b != 'k' and b not in moving else 0))
                                yield f"{name} == P({a}{ca:+d}) below {b}{cb:+d}", Forall(n, lambda m, K=K, U=U, fn=fn: z3.Implies(z3.And(m >= 0, m < U, m < n, K >= 0), fn(m)[0] == it.at(K, m)))
            if type(v) is T and v.vec:
                for a, ka in ints.items():
                    for ca in (-1, 0, 1):
                        K = z3.simplify(ka + ca)
                        for b, kb in ints.items():
                            for cb in (-2, -1, 0):
                                U = z3.simplify(kb + cb + (kappa if b != 'k' and b not in moving else 0))
                                yield f"{name} == P({a}{ca:+d}, {b}{cb:+d})", lambda K=K, U=U, v=v: z3.Implies(z3.And(U >= 0, U < n, K >= 0), v.e == it.at(K, U))
    return t


def root_solve(kind, guess='given'):
    def run(s):
        M = spec.mod('torchdyn.numerics.solvers.ode')
        grid = spec.Grid('T')
        n = grid.n
        x = spec.state('x')
        b0 = z3.Function('B0', I, R)
        B0 = Seq(n, lambda i: [b0(i)], V.rebuild(x, [real(0)]), tag='input')
        it = Iterates(s, lambda m: b0(m), n, kind)
        maxiter, steps = z3.Int('maxiter'), z3.Int('fine_steps')
        s.assume(z3.And(maxiter >= 0, steps >= 2))
        s.sizes = {'n': n, 'maxiter': maxiter}
        j = s.skolem_j = z3.Int('j')
        s.index(j, n)
        s.templates = [spec.generic_templates, candidates(it, (maxiter, steps, n))]
        f = object()
        solver = getattr(M, kind)()
        coarse, fine = solver.coarse_method, solver.fine_method
        g = z3.Int('g')

        def integrate(f_, b, ts, solver=None, *more, **kw):
            s.check(f_ is f, "the caller's field is integrated")
            if solver is not coarse and solver is not fine: raise Unsupported("another solver")
            s.check(not more and not kw, "no further settings")
            s.check(z3.And(ts.n == steps, z3.Implies(z3.And(g >= 0, g < steps), ts.at(g).e == (grid.at(1) - grid.at(0)) * z3.ToReal(g) / z3.ToReal(steps - 1))), "over one interval, at the given number of equally spaced times")
            F = FINE if solver is fine else COARSE
            s.cover('fine' if solver is fine else 'coarse')
            last = b.map(lambda v: V.rebuild(v, [F(v.e)])) if type(b) is Seq else V.rebuild(b, [F(b.e)])
            class Solution:
                def __getitem__(self, i):
                    if i == -1: return last
                    raise Unsupported("an intermediate time of the inner solution")
            return ts, Solution()

        def grad(out, inp, grad_outputs=None, **kw):
            e = z3.simplify(T.lift(out).e)
            if type(inp) is not Seq or e.decl().name() != 'FINE': raise Unsupported("derivative of another function")
            arg, v = e.arg(0), T.lift(grad_outputs).e
            # the index at which the differentiated state sits: the entry of `inp` it is, by name
            probe = z3.simplify(inp.fn(z3.Int('probe'))[0])
            if arg.decl() != probe.decl() or arg.num_args() != probe.num_args(): raise Unsupported("provenance of the differentiated state")
            p = arg.arg(arg.num_args() - 1)
            if probe.num_args() == 2 and not arg.arg(0).eq(probe.arg(0)): raise Unsupported("provenance of the differentiated state")
            s.fact(VJP(arg, real(0)) == 0)
            return (Seq(inp.n, lambda k: [z3.If(k == p, VJP(arg, v), real(0))], inp.elem),)

        old = torch.autograd.grad
        torch.autograd.grad = grad
        try:
            with Linspace(): B = solver.root_solve(integrate, f, x, grid.seq, B0, SInt(steps), SInt(maxiter))
        finally: torch.autograd.grad = old
        s.cover('returned')
        K = z3.If(maxiter + 1 <= n - 1, maxiter + 1, n - 1)
        it.at(z3.simplify(K), j)
        it.at(K, j)
        inr = z3.And(j >= 0, j < n)
        s.check(B.n == n, "one parameter per time", where=kind)
        # at most n - 1 iterations are needed: by the lemma, from there on the iterates do not change
        s.check(z3.Implies(inr, B.at(j).e == it.at(K, j)), "the result is the iterate after the given number of iterations (or after n - 1, when no further one changes it)", where=kind)
        s.check(z3.Implies(z3.And(inr, j <= maxiter + 1), B.at(j).e == it.seq(j)), "after k iterations the first k + 1 parameters are the sequential fine solution", where=kind)
        s.check(z3.Implies(z3.And(inr, maxiter + 1 >= n - 1), B.at(j).e == it.seq(j)), "with enough iterations the result is the sequential fine solution", where=kind)
        it.seq(z3.IntVal(0)); it.at(K, z3.IntVal(0))
        s.check(B.at(z3.IntVal(0)).e == b0(0), "the first parameter is kept", where=kind)
    return run


class Recorder:
    def __init__(self): self.coarse_method, self.fine_method, self.calls, self.synced = object(), object(), [], []
    def sync_device_dtype(self, x, t):
        self.synced.append((x, t))
        self.x, self.t = x + 0., t + 0.
        return self.x, self.t
    def root_solve(self, odeint_func, f, x, t_span, B, fine_steps, maxiter):
        self.calls.append(dict(odeint_func=odeint_func, f=f, x=x, t_span=t_span, B=B, fine_steps=fine_steps, maxiter=maxiter))
        self.result = torch.zeros(3, 2)
        return self.result


def entry(s):
    "odeint_mshooting on opaque values: the guess, the settings and the result are passed on"
    O, N = spec.mod('torchdyn.numerics.odeint'), spec.mod('torchdyn.numerics.solvers.ode')
    x, ts, f = torch.tensor([[1., 2.]]), torch.tensor([0., .5, 1.]), object()
    for given in (True, False):
        for settings in ({}, dict(fine_steps=7), dict(maxiter=9), dict(fine_steps=3, maxiter=11)):
            for named in (False, True):
                w = f"odeint_mshooting, {'guess given' if given else 'no guess'}{', solver by name' if named else ''}"
                r, log, asked = Recorder(), [], []
                guess, coarse_solution = torch.ones(3, 1, 2), torch.ones(3, 1, 2) * 2
                keep = guess.clone()
                def odeint(f_, x_, t_, solver, *a, **k):
                    log.append((f_, x_, t_, solver, a, k))
                    return t_, coarse_solution
                def by_name(name, *a, **k): asked.append(name); return r
                with spec.everywhere(O, odeint=odeint), spec.everywhere(N, str_to_ms_solver=by_name):
                    te, B = O.odeint_mshooting(f, x, ts, 'parareal' if named else r, **({'B0': guess} if given else {}), **settings)
                s.cover('called')
                if named: s.check(asked == ['parareal'], "a solver name is looked up", where=w)
                if len(r.calls) != 1: raise Unsupported("root_solve is not called once")
                c = r.calls[0]
                s.check(c['f'] is f and c['x'] is r.x and c['t_span'] is r.t, "field, state and times reach the solver", where=w)
                s.check(c['odeint_func'] is O._fixed_odeint, "intervals are integrated by the fixed-step loop", where=w)
                s.check(c['fine_steps'] == settings.get('fine_steps', 2) and c['maxiter'] == settings.get('maxiter', 4), "fine steps and iterations reach the solver", where=w)
                s.check(torch.equal(guess, keep), "the guess is not modified", where=w)
                if given:
                    s.check(c['B'] is guess or torch.equal(c['B'], guess), "the guess given is used", where=w)
                else:
                    s.check(torch.equal(c['B'], coarse_solution), "the guess is the coarse solution", where=w)
                    s.check(len(log) >= 1 and all(l[0] is f and l[1] is r.x and l[2] is r.t and l[3] is r.coarse_method for l in log), "of the same problem, by the coarse method", where=w)
                s.check(te is r.t and B is r.result, "the times and the solver's result are returned", where=w)


def names(s):
    N = spec.mod('torchdyn.numerics.solvers.ode')
    for name, cls, coarse, fine in (('zero', 'MSZero', 'Euler', 'RungeKutta4'), ('mszero', 'MSZero', 'Euler', 'RungeKutta4'), ('parareal', 'MSZero', 'Euler', 'RungeKutta4'),
                                    ('backward', 'MSBackward', 'Euler', 'RungeKutta4'), ('msbackward', 'MSBackward', 'Euler', 'RungeKutta4'), ('discrete-adjoint', 'MSBackward', 'Euler', 'RungeKutta4')):
        m = N.str_to_ms_solver(name)
        s.check(type(m) is getattr(N, cls), "a solver's name denotes its class", where=name)
        s.check(type(m.coarse_method) is getattr(N, coarse) and type(m.fine_method) is getattr(N, fine), "default coarse and fine methods", where=name)
        for a, b, A, B in (('midpoint', 'rk4', 'Midpoint', 'RungeKutta4'), ('euler', 'midpoint', 'Euler', 'Midpoint')):
            k = getattr(N, cls)(a, b)
            s.check(type(k.coarse_method) is getattr(N, A) and type(k.fine_method) is getattr(N, B), "coarse and fine methods given are used as such", where=name)


def harnesses(tier):
    yield dict(name='odeint_mshooting', direct=entry, covers=['called'])
    yield dict(name='multiple shooting solvers by name', direct=names, covers=[])
    for kind in ('MSZero', 'MSBackward'):
        yield dict(name=f"exactness lemma, {kind}", run=lemma(kind), covers=['lemma'])
        yield dict(name=f"{kind}.root_solve", run=root_solve(kind), covers=['fine', 'returned'] + (['coarse'] if kind == 'MSZero' else []), budget_s=400)
