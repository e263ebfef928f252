"""World of the adaptive integration loop: solver step and interpolator replaced by their contracts (discharged by C04 and
C07), the reachable accepted states, and candidates for its invariants."""
import z3
from . import core, values as V, spec
from .core import S, real
from .values import T, Seq, VList, SInt, eint
from .spec import R, I
B = z3.BoolSort()


def F2(name, *sorts): return z3.Function(name, *sorts)


class World:
    """Accepted steps from (t, x): Reach(t, x) holds for the start and is closed under accepted steps.
    Out(t, y): y is an admissible answer for time t: an accepted state there, or the dense output of an accepted step."""
    def __init__(self, grid, sign=1, seminorm=None, interp=False, order=5, chain=False):
        s = self.s = S()
        self.grid, self.sign, self.interp = grid, sign, interp
        self.F = F2('F', R, R, R)
        self.STEP, self.ERR = F2('STEP', R, R, R, R), F2('ERR', R, R, R, R)
        self.INTERP = F2('INTERP', R, R, R, R, R)
        self.STG = [F2(f'STAGE{i}', R, R, R, R) for i in range(7)]
        self.Reach, self.Out = F2('Reach', R, R, B), F2('Out', R, R, B)
        self.St, self.Att = F2('Next', R, R, R, B), F2('Attempt', R, R, R, B)
        self.chain = chain
        self.x0 = spec.state('x0')
        self.atol, self.rtol = T(z3.Real('atol'), tag='input'), T(z3.Real('rtol'), tag='input')
        s.assume(z3.And(self.atol.e > 0, self.rtol.e > 0))
        self.order = order
        self.safety, self.min_factor, self.max_factor = [T(z3.Real(n), (1,), tag='input') for n in ('safety', 'min_factor', 'max_factor')]
        s.assume(z3.And(self.safety.e > 0, self.safety.e <= 1, self.min_factor.e > 0, self.min_factor.e < 1, self.max_factor.e > 1))
        self.seminorm = seminorm
        self.user_args = spec.frozen({'p': object()})
        self.T0, self.TE = self.time(0), self.time(grid.n - 1)
        s.fact(self.Reach(self.T0, self.x0.e))
        self.solver = Solver(self)
        self.probes = 0
        self.attempts = 0
        self.last = None

    def time(self, i):
        "time of integration: mirrored if the grid decreases"
        e = self.grid.at(i if not isinstance(i, int) else z3.IntVal(i))
        return e if self.sign > 0 else -e

    def field(self, t, x):
        "derivative in the time of integration"
        return self.F(t, x) if self.sign > 0 else -self.F(-t, x)

    def f(self, t, x):
        "the caller's field"
        return T(self.F(T.lift(t).e, x.e), x.shape_, True)

    def ratio(self, x, xn, err):
        "the specification's error ratio (squared)"
        if self.seminorm is not None: x, xn, err = x[:self.seminorm], xn[:self.seminorm], err[:self.seminorm]
        sc = err / (self.atol + self.rtol * x.abs().maximum(xn.abs()))
        return sc.pow(2).mean().e

    def next_dt(self, d, r):
        "step size after an attempt of size d with error ratio r"
        o = V.erpow(r, (T.lift(1) / T.lift(self.order)).e)
        raw = self.safety.e / o
        lo = z3.If(r < 1, real(1), self.min_factor.e)
        m = z3.If(raw >= lo, raw, lo)
        return z3.If(r == 0, d * self.max_factor.e, d * z3.If(self.max_factor.e <= m, self.max_factor.e, m))

    def step(self, g, x, t, dt, k1=None, args=None):
        s = self.s
        t, dt = T.lift(t), T.lift(dt)
        s.cover('step')
        s.check(args is self.user_args, "the caller's arguments reach the step")
        s.check(k1 is not None and k1.e == self.field(t.e, x.e), "the first stage supplied is the field at the step's start")
        s.check(self.Reach(t.e, x.e), "steps start where the accepted steps so far have led")
        s.check(dt.e > 0, "steps are positive")
        s.check(t.e + dt.e <= self.TE, "no step goes past the final time")
        if self.chain: s.check(self.Att(t.e, x.e, dt.e), "the step size is the adapted one, up to the final time")
        ts, xs = z3.Real('t*'), T(z3.Real('x*'), x.shape_, True)
        s.check(g(T(ts), xs).e == self.field(ts, xs.e), "the step is given the caller's vector field")
        xn = T(self.STEP(t.e, x.e, dt.e), x.shape_, True)
        err = T(self.ERR(t.e, x.e, dt.e), x.shape_, True)
        q = self.ratio(x, xn, err)
        tn = t.e + dt.e
        s.fact(z3.Implies(z3.And(self.Reach(t.e, x.e), q <= 1), self.Reach(tn, xn.e)))
        s.fact(z3.Implies(self.Reach(tn, xn.e), self.Out(tn, xn.e)))
        if self.chain:
            r = V.esqrt(q)
            n = self.next_dt(dt.e, r)
            s.fact(z3.Implies(z3.And(self.Att(t.e, x.e, dt.e), q <= 1), self.St(tn, xn.e, n)))
            s.fact(z3.Implies(z3.And(self.Att(t.e, x.e, dt.e), q > 1), self.St(t.e, x.e, n)))
        self.last = (t.e, x.e, dt.e, tn, xn.e, q)
        return T(self.field(tn, xn.e), x.shape_, True), xn, err, VList([T(g_(t.e, x.e, dt.e), x.shape_, True) for g_ in self.STG])

    def init_step(self, g, f0, x0, t0, order, atol, rtol):
        "contract of init_step (discharged in C06)"
        s = self.s
        t0 = T.lift(t0)
        s.cover('init_step')
        s.check(z3.And(t0.e == self.T0, x0.e == self.x0.e, f0.e == self.field(self.T0, self.x0.e)), "initial step: estimated at the initial state")
        s.check(z3.And(T.lift(atol).e == self.atol.e, T.lift(rtol).e == self.rtol.e), "initial step: tolerances of the call")
        s.check(order == self.order, "initial step: order of the solver")
        ts, xs = z3.Real('t*'), T(z3.Real('x*'), x0.shape_, True)
        s.check(g(T(ts), xs).e == self.field(ts, xs.e), "initial step: field in the direction of integration")
        dt = T(z3.Real('dt0'), t0.shape_)
        s.assume(dt.e > 0)
        if self.chain: s.fact(self.St(self.T0, self.x0.e, dt.e))
        return dt

    def at_triple(self, t, x, dt):
        "rule of the chain: the next attempt is the adapted size, cut at the final time"
        self.s.fact(z3.Implies(self.St(t, x, dt), self.Att(t, x, z3.If(t + dt > self.TE, self.TE - t, dt))))

    # ---- candidates
    def templates(self):
        g = self.grid
        def t(sess, lid, env, kappa):
            j = sess.skolem_j
            reals = {n: v.e for n, v in env.items() if type(v) is T and not v.vec}
            vecs = {n: v for n, v in env.items() if type(v) is T and v.vec and v.dom == 'full'}
            ints = {n: eint(v) for n, v in env.items() if isinstance(v, (int, SInt)) and not isinstance(v, bool)}
            lists = {n: v for n, v in env.items() if type(v) is VList and v.template() is not None and not isinstance(v.template(), VList)}
            for n, v in env.items():
                if type(v) is tuple and len(v) == 3 and self.last is not None and all(type(a) is T for a in v):
                    yield f"{n} fitted to the last step", lambda: z3.And(*[a.e == b for a, b in zip(v, self.last)])
            for n, v in sess.read_env.items():
                if type(v) is not T or v.vec: continue
                for i, c in ints.items():
                    z = z3.simplify(c)
                    yield f"{n} >= time({i})", lambda: z3.Implies(z3.And(c >= 0, c < g.n), self.time(z) <= v.e)
                    yield f"{n} <= time({i}+1)", lambda: z3.Implies(z3.And(c >= -1, c + 1 < g.n), v.e <= self.time(z3.simplify(c + 1)))
            for n, e in reals.items():
                yield f"{n} > 0", lambda: e > 0
                yield f"{n} <= final time", lambda: e <= self.TE
                for m, x in vecs.items():
                    yield f"{n}, {m} reached", lambda: self.Reach(e, x.e)
                    for m2, k in vecs.items():
                        if m2 != m: yield f"{m2} == field({n}, {m})", lambda: k.e == self.field(e, x.e)
                    if self.chain:
                        for n2, d in reals.items():
                            if n2 != n:
                                self.at_triple(e, x.e, d)
                                yield f"{n}, {m}, {n2} in the chain", lambda: self.St(e, x.e, d)
                for i, c in ints.items():
                    z = z3.simplify(c)
                    ok, ok1 = z3.And(c >= 0, c < g.n), z3.And(c >= -1, c + 1 < g.n)
                    yield f"{n} >= time({i})", lambda: z3.Implies(ok, self.time(z) <= e)
                    yield f"{n} < time({i}+1)", lambda: z3.Implies(ok1, e < self.time(z3.simplify(c + 1)))
            for n, l in lists.items():
                L = l.length()
                el, v = l.template(), None
                for i, c in ints.items():
                    yield f"{n} length == {i}+1", lambda: L == c + 1
                    yield f"{n} length == {i}", lambda: L == c
                yield f"{n} length >= 1", lambda: L >= 1
                if not isinstance(el, T): continue
                cur, first = l.fn(j)[0], l.fn(z3.IntVal(0))[0]
                inr = z3.And(j >= 0, j < L)
                if not el.vec:
                    yield f"{n}[j] == time(j)", lambda: z3.Implies(inr, cur == self.time(j))
                    last = l.fn(z3.simplify(L - 1))[0]
                    for m, e in reals.items(): yield f"{n}[-1] == {m}", lambda: z3.Implies(L >= 1, last == e)
                    for n2, l2 in lists.items():
                        e2 = l2.template()
                        if isinstance(e2, T) and e2.vec:
                            yield f"({n}[j], {n2}[j]) admissible", lambda: z3.Implies(inr, self.Out(cur, l2.fn(j)[0]))
                            yield f"{n}, {n2} lengths", lambda: L == l2.length()
                else:
                    yield f"{n}[j] admissible at time(j)", lambda: z3.Implies(inr, self.Out(self.time(j), cur))
                    yield f"{n}[0] == x0", lambda: z3.Implies(L >= 1, first == self.x0.e)
        s = self.s
        s.fact(self.Out(self.T0, self.x0.e))
        return [spec.generic_templates, t]


class Solver(spec.Tracked):
    stepping_class = 'adaptive'
    def __init__(self, w):
        self.step, self.order, self.safety, self.min_factor, self.max_factor = w.step, w.order, w.safety, w.min_factor, w.max_factor
    def sync_device_dtype(self, x, t_span): return x, t_span


class Interp(spec.Tracked):
    "contract of the interpolator: precondition on the arguments of fit, the quartic through the data as result"
    def __init__(self, w): self.w, self.bmid = w, [T(z3.Real(f'bmid{i}'), tag='input') for i in range(7)]
    def sync_device_dtype(self, x, t_span): return x, t_span
    def fit(self, dt, f0, f1, x0, x1, x_mid, **k):
        w, s = self.w, self.w.s
        t, x, d, tn, xn, q = w.last
        s.cover('fit')
        s.check(q <= 1, "only accepted steps are interpolated")
        s.check(z3.And(T.lift(dt).e == d, x0.e == x, x1.e == xn), "interpolation data: size and ends of the step")
        s.check(z3.And(f0.e == w.field(t, x), f1.e == w.field(tn, xn)), "interpolation data: slopes at the ends")
        mid = x + d * sum((b.e * g(t, x, d) for b, g in zip(self.bmid, w.STG)), real(0))
        s.check(x_mid.e == mid, "interpolation data: mid-point estimate")
        return (T(t), T(x, w.x0.shape_, True), T(d))
    def evaluate(self, coefs, t0, t1, t):
        w, s = self.w, self.w.s
        if type(coefs) is not tuple or len(coefs) != 3: raise core.Unsupported("coefficients of another interpolation")
        ct, cx, cd = [c.e for c in coefs]
        t0, t1, t = T.lift(t0).e, T.lift(t1).e, T.lift(t).e
        s.check(z3.And(t0 == ct, t1 == ct + cd), "the interpolant is evaluated over the step it was fitted to")
        s.check(z3.And(t0 <= t, t <= t1), "the interpolant is evaluated within its step")
        y = w.INTERP(ct, cx, cd, t)
        s.fact(w.Out(t, y))
        return T(y, w.x0.shape_, True)


