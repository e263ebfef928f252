import z3
from vc import core, spec, adaptive, values as V
from vc.core import real
from vc.values import T, VList, SInt, SBool, eint, ebool
from vc.spec import R, I
B = z3.BoolSort()
HALF = z3.Function('HALF', R, I, R)


class Event:
    "a callback: condition EV_i and jump map JUMP_i, both arbitrary"
    def __init__(self, w, i):
        self.w, self.i = w, i
        self.EV, self.JUMP = z3.Function(f'EV{i}', R, R, B), z3.Function(f'JUMP{i}', R, R, R)

    def check_event(self, t, x):
        w, s = self.w, self.w.s
        t = T.lift(t).e
        here = [z3.And(t == w.T0, x.e == w.x0.e)] + ([z3.And(t == w.last[3], x.e == w.last[4])] if w.last else [])
        s.check(z3.Or(*here), "events are examined at the start and at the ends of attempted steps")
        for k in range(len(w.events)): w.first_rule(k, t, x.e)
        return SBool(self.EV(t, x.e))

    def jump_map(self, t, x):
        w, s, i = self.w, self.w.s, self.i
        s.cover('jump')
        t = T.lift(t).e
        if not w.light: s.check(w.Reach(t, x.e), "jumps start from a state the integration reached at that time")
        s.check(w.Soon[i](t), "a jump is made at most the event tolerance before a point where its condition holds and no earlier one's does")
        if not w.light: s.check(w.CNT(x.e) < z3.ToReal(w.budget), "no more jumps than allowed")
        y = self.JUMP(t, x.e)
        s.fact(w.CNT(y) == w.CNT(x.e) + 1)
        s.fact(w.Reach(t, y)); s.fact(w.Out(t, y)); s.fact(w.Out(t, x.e)); s.fact(w.Jump(t, x.e, y))
        return T(y, x.shape_, True)


class World(adaptive.World):
    def __init__(self, grid, m, light=False, **k):
        super().__init__(grid, **k)
        self.light = light        # only the choice of the event: the rest is shown by the other harnesses
        s = self.s
        self.CNT = z3.Function('jumps_so_far', R, R)      # carried along with the state (the code is parametric in it)
        self.Soon = [z3.Function(f'Soon{i}', R, B) for i in range(m)]
        self.First = [z3.Function(f'First{i}', R, B) for i in range(m)]
        self.Jump = z3.Function('Jump', R, R, R, B)
        self.events = [Event(self, i) for i in range(m)]
        self.budget = z3.Int('j_span')
        self.tol = T(z3.Real('event_tol'), tag='input')
        s.assume(z3.And(self.tol.e > 0, self.budget >= 1))
        s.fact(self.CNT(self.x0.e) == 0)
        self.r = z3.Int('r')                             # an arbitrary requested time
        s.assume(z3.And(self.r >= 0, self.r < grid.n))
        s.index(self.r, grid.n)
        grid.touch(self.r)

    def first_rule(self, i, t, x):
        evs = [e.EV(t, x) for e in self.events]
        c = z3.And(evs[i], *[z3.Not(e) for e in evs[:i]])
        self.s.fact(z3.Implies(c, self.First[i](t)))
        self.s.fact(z3.Implies(self.First[i](t), self.Soon[i](t)))

    def soon_rule(self, t, d):
        for F, S_ in zip(self.First, self.Soon): self.s.fact(z3.Implies(z3.And(F(t + d), 0 <= d, d <= self.tol.e), S_(t)))

    def step(self, g, x, t, dt, k1=None, args=None):
        s = self.s
        t, dt = T.lift(t), T.lift(dt)
        s.cover('step')
        if k1 is not None and not self.light: s.check(k1.e == self.field(t.e, x.e), "a first stage supplied is the field at the step's start")
        if not self.light: s.check(self.Reach(t.e, x.e), "steps start where the integration has led")
        s.check(dt.e > 0, "steps are positive")
        s.check(t.e + dt.e <= self.TE, "no step goes past the final time")
        tr = self.time(self.r)
        if not self.light: s.check(z3.Not(z3.And(t.e < tr, tr < t.e + dt.e)), "no step passes over a requested time")
        ts, xs = z3.Real('t*'), T(z3.Real('x*'), x.shape_, True)
        s.check(g(T(ts), xs).e == self.field(ts, xs.e), "the step is given the caller's vector field")
        xn = T(self.STEP(t.e, x.e, dt.e), x.shape_, True)
        err = T(self.ERR(t.e, x.e, dt.e), x.shape_, True)
        q = self.ratio(x, xn, err)
        tn = t.e + dt.e
        none = z3.Not(z3.Or(*[e.EV(tn, xn.e) for e in self.events]))
        s.fact(z3.Implies(z3.And(self.Reach(t.e, x.e), q <= 1, none), z3.And(self.Reach(tn, xn.e), self.Out(tn, xn.e))))
        # bisection: the first half of a bracket whose end triggers, without event at the middle, is followed
        s.fact(z3.Implies(z3.And(self.Reach(t.e, x.e), none, z3.Or(*[F(tn + dt.e) for F in self.First])), self.Reach(tn, xn.e)))
        s.fact(self.CNT(xn.e) == self.CNT(x.e))
        self.last = (t.e, x.e, dt.e, tn, xn.e, q)
        return T(self.field(tn, xn.e), x.shape_, True), xn, err, None

    def init_step(self, g, f0, x0, t0, order, atol, rtol):
        s = self.s
        t0 = T.lift(t0)
        s.check(z3.And(t0.e == self.T0, self.Reach(t0.e, x0.e), f0.e == self.field(self.T0, x0.e)), "initial step: estimated at the initial state")
        s.check(z3.And(T.lift(atol).e == self.atol.e, T.lift(rtol).e == self.rtol.e), "initial step: tolerances of the call")
        s.check(order == self.order, "initial step: order of the solver")
        dt = T(z3.Real('dt0'), t0.shape_)
        s.assume(dt.e > 0)
        return dt

    def adapt(self, dt, ratio, safety, min_factor, max_factor, order):
        "contract of adapt_step (discharged in C06): a positive size from a positive one"
        s, q = self.s, self.solver
        s.check(dt.e > 0, "step size control: of a positive size")
        s.check(z3.And(safety.e == q.safety.e, min_factor.e == q.min_factor.e, max_factor.e == q.max_factor.e), "step size control: factors of the solver")
        s.check(order == q.order, "step size control: order of the solver")
        s.check(ratio.e == V.esqrt(self.last[5]), "step size control: by the root mean square of the scaled error")
        r = T(s.fresh('dt_next', 'real'), dt.shape_)
        s.assume(r.e > 0)
        return r

    def templates(self):
        def t(sess, lid, env, kappa):
            j = sess.skolem_j
            reals = {n: v.e for n, v in env.items() if type(v) is T and not v.vec}
            vecs = {n: v for n, v in env.items() if type(v) is T and v.vec and v.dom == 'full'}
            ints = {n: eint(v) for n, v in env.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}
            lists = {n: v for n, v in env.items() if type(v) is VList and isinstance(v.template(), T)}
            flags = {n: vars(v) for n, v in env.items() if V.is_record(v)}
            flags = {n: next((list(u) for u in d.values() if V.struct(u)[0] == 'clist'), None) for n, d in flags.items()}
            flags.update({n: list(v) for n, v in env.items() if V.struct(v)[0] == 'clist'})
            for n, x in vecs.items():
                for i, c in ints.items(): yield f"{i} jumps so far in {n}", lambda: z3.ToReal(c) == self.CNT(x.e)
                e0 = sess.entry_env.get(n)
                if type(e0) is T: yield f"{n}: jumps as at entry", lambda: self.CNT(x.e) == self.CNT(e0.e)
            for n, e in reals.items():
                e0 = sess.entry_env.get(n)
                if type(e0) is T and e0.e is not None:
                    yield f"{n} halved", lambda: self.halved(e, e0.e, kappa)
                    yield f"{n} >= entry", lambda: e >= e0.e
                yield f"{n} >= start", lambda: e >= self.T0
                for n2, d in reals.items():
                    if n2 == n: continue
                    yield f"{n}+{n2} <= final time", lambda: e + d <= self.TE
                    for k_, fl in flags.items():
                        if fl and len(fl) == len(self.events):
                            fl_ = [ebool(b) for b in fl]
                            yield f"{k_} at {n}+{n2}", lambda: z3.And(z3.Or(*fl_), *[z3.Implies(z3.And(fl_[i], *[z3.Not(b) for b in fl_[:i]]), self.First[i](e + d)) for i in range(len(fl_))])
                    yield f"{n}+{n2} triggers", lambda: self.soon_rule(e, d) or z3.Or(*[F(e + d) for F in self.First])
                    tr = self.time(self.r)
                    yield f"no requested time within ({n}, {n}+{n2})", lambda: z3.Not(z3.And(e < tr, tr < e + d))
            for n, l in lists.items():
                L = l.length()
                last = l.fn(z3.simplify(L - 1))[0]
                if l.template().vec:
                    yield f"{n}[0] is the first state", lambda: z3.Implies(L >= 1, l.fn(z3.IntVal(0))[0] == self.first)
                    for m, x in vecs.items(): yield f"{n}[-1] == {m}", lambda: z3.Implies(L >= 1, last == x.e)
                else:
                    yield f"{n} sorted", lambda: z3.Implies(z3.And(j >= 0, j + 1 < L), l.fn(j)[0] <= l.fn(z3.simplify(j + 1))[0])
                    yield f"{n}[0] == start", lambda: z3.Implies(L >= 1, l.fn(z3.IntVal(0))[0] == self.T0)
                    for n2, l2 in lists.items():
                        if not l2.template().vec: continue
                        a, b, ta, tb = l2.fn(j)[0], l2.fn(z3.simplify(j + 1))[0], l.fn(j)[0], l.fn(z3.simplify(j + 1))[0]
                        yield f"{n}, {n2}: jumps are recorded", lambda: z3.Implies(z3.And(j >= 0, j + 1 < L, j + 1 < l2.length()), self.jumps(ta, a, tb, b))
        ts = super().templates() + [t]
        if not self.light: return ts
        keep = ('halved', 'final time', ' at ', 'triggers', '>= start', '>= entry', ' > 0', '<= n', ">= time(", "first state", "length >= 1")
        def some(sess, lid, env, kappa):
            for u in ts:
                for name, e in u(sess, lid, env, kappa):
                    if any(k in name for k in keep) and 'admissible' not in name: yield name, e
        return [some]

    def halved(self, e, e0, kappa):
        s = self.s
        for k in (kappa, z3.simplify(kappa - 1)):
            s.fact(z3.Implies(k >= 0, HALF(e0, k + 1) * 2 == HALF(e0, k)))
            s.fact(HALF(e0, z3.IntVal(0)) == e0)
        s.fact(z3.Implies(z3.And(kappa >= 100, e0 <= self.TE - self.T0), HALF(e0, kappa) <= self.tol.e))
        s.fact(z3.Implies(z3.And(e0 > 0, kappa >= 0), HALF(e0, kappa) > 0))
        return e == HALF(e0, kappa)

    def jumps(self, ta, a, tb, b):
        return z3.Or(self.CNT(b) == self.CNT(a), z3.And(self.CNT(b) == self.CNT(a) + 1, ta == tb, self.Jump(ta, a, b)))


def harness(m, priority, seminorm=False, light=False):
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        grid = spec.Grid('T')
        d = SInt(z3.Int('d')) if seminorm else None
        w = World(grid, m, seminorm=d, light=light)
        w.first = w.x0.e
        if priority == 'jump':
            for e in reversed(w.events): w.first = z3.If(e.EV(w.T0, w.x0.e), e.JUMP(w.T0, w.x0.e), w.first)
        s.sizes = {'n': grid.n, 'j_span': w.budget}
        j = s.skolem_j = z3.Int('j')
        s.index(j, grid.n)
        s.assume(j >= 0)
        s.templates = w.templates()
        kw = dict(seminorm=(True, d)) if seminorm else {}
        with spec.replaced(O, init_step=w.init_step, adapt_step=w.adapt):
            te, sol = O.odeint_hybrid(w.f, w.x0, grid.seq, SInt(w.budget), w.solver, w.events, atol=w.atol, rtol=w.rtol, event_tol=w.tol, priority=priority, **kw)
        s.cover('returned')
        at = lambda q, i: q.at(z3.simplify(i)).e
        first = at(sol, z3.IntVal(0))
        ev0 = [e.EV(w.T0, w.x0.e) for e in w.events]
        if priority == 'jump':
            for i, e in enumerate(w.events):
                s.check(z3.Implies(z3.And(ev0[i], *[z3.Not(b) for b in ev0[:i]]), first == e.JUMP(w.T0, w.x0.e)), "an event active at the start is applied first", where='odeint_hybrid')
            s.check(z3.Implies(z3.Not(z3.Or(*ev0)), first == w.x0.e), "the first state is the initial condition", where='odeint_hybrid')
        else: s.check(first == w.x0.e, "the first state is the initial condition", where='odeint_hybrid')
        if light: return
        s.check(te.n == sol.n, "one state per time", where='odeint_hybrid')
        s.check(at(te, z3.IntVal(0)) == w.T0, "the first time recorded is the start", where='odeint_hybrid')
        s.check(z3.Implies(j < te.n, w.Out(at(te, j), at(sol, j))), "recorded states are the initial one, ends of accepted steps without event, or the states before and after a jump, at their times", where='odeint_hybrid')
        nx = j + 1 < te.n
        s.check(z3.Implies(nx, at(te, j) <= at(te, j + 1)), "recorded times never decrease", where='odeint_hybrid')
        s.check(z3.Implies(nx, w.jumps(at(te, j), at(sol, j), at(te, j + 1), at(sol, j + 1))), "the state before and after each jump are recorded in turn, at the same time", where='odeint_hybrid')
        last = at(sol, te.n - 1)
        s.check(z3.Or(at(te, te.n - 1) == w.TE, w.CNT(last) >= z3.ToReal(w.budget)), "the integration ends at the final time or when the jumps are used up", where='odeint_hybrid')
        s.check(w.CNT(last) <= z3.ToReal(w.budget), "at most the allowed number of jumps", where='odeint_hybrid')
    return run


def harnesses(tier):
    cov = ['step', 'jump', 'returned']
    yield dict(name="one event", run=harness(1, 'jump'), covers=cov, budget_s=540)
    yield dict(name="two events: choice", run=harness(2, 'jump', light=True), covers=cov, budget_s=540)
    yield dict(name="one event, no initial jump, seminorm", run=harness(1, 'flow', True), covers=cov, budget_s=540)
    if tier == 'thorough':
        yield dict(name="one event, no initial jump", run=harness(1, 'flow'), covers=cov, budget_s=1500)
        yield dict(name="two events", run=harness(2, 'jump'), covers=cov, budget_s=2400)
