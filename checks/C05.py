import z3
from vc import core, spec, adaptive, values as V
from vc.core import real
from vc.values import T


def harness(entry, sign=1, seminorm=None, return_all=False, interp=False, chain=False, times=None):
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        grid = spec.Grid('T', sign=sign)
        n = grid.n
        if times: s.assume(n == times)
        s.sizes = {'n': n}
        d = V.SInt(z3.Int('d')) if seminorm else None
        w = adaptive.World(grid, sign, seminorm=d, interp=interp, chain=chain)
        j = s.skolem_j = z3.Int('j')
        s.index(j, n)
        grid.touch(j)
        s.templates = w.templates()
        kw = dict(seminorm=(True, d)) if seminorm else {}
        if return_all: kw['return_all_eval'] = True
        if interp: kw['interpolator'] = adaptive.Interp(w)
        if entry == 'odeint':
            with spec.replaced(O, init_step=w.init_step): te, sol = O.odeint(w.f, w.x0, grid.seq, w.solver, atol=w.atol, rtol=w.rtol, args=w.user_args, **kw)
        elif entry == 'odeint_symplectic':
            f, w.user_args = Symplectic(w.f, 2), None
            with spec.replaced(O, init_step=w.init_step): te, sol = O.odeint_symplectic(f, w.x0, grid.seq, w.solver, atol=w.atol, rtol=w.rtol, **kw)
        else:
            dt = T(z3.Real('dt0'), tag='input')
            s.assume(dt.e > 0)
            if chain: s.fact(w.St(w.T0, w.x0.e, dt.e))
            te, sol = O._adaptive_odeint(w.f, w.f(grid.seq[0], w.x0), w.x0, dt, grid.seq, w.solver, w.atol, w.rtol, w.user_args, **kw)
        s.cover('returned')
        inr = z3.And(0 <= j, j < te.n)
        s.check(te.n == sol.n, "one state per time", where=entry)
        s.check(sol.at(z3.IntVal(0)).e == w.x0.e, "the first state is the initial condition", where=entry)
        if not return_all:
            s.check(te.n == n, "one time per requested time", where=entry)
            s.check(z3.Implies(inr, te.at(j).e == grid.at(j)), "the times returned are those requested, in order", where=entry)
            s.check(z3.Implies(inr, w.Out(w.time(j), sol.at(j).e)), "each state is reached by accepted steps landing on its time" if not interp else "each state is reached by accepted steps or the dense output of one at its time", where=entry)
        else: s.check(z3.Implies(inr, w.Out(te.at(j).e, sol.at(j).e)), "each state is reached by accepted steps landing on its time", where=entry)
    return run


class Symplectic:
    "a field with the attribute symplectic integration asks for"
    def __init__(self, f, order): self.f, self.order = f, order
    def __call__(self, t, x): return self.f(t, x)


def positions(sign):
    "symplectic integration of a field of positions: the probe and first stage are at the initial positions, the loop gets the whole state"
    def run(s):
        O = spec.mod('torchdyn.numerics.odeint')
        where = 'odeint_symplectic'
        grid = spec.Grid('T', sign=sign)
        s.sizes = {'n': grid.n}
        w = adaptive.World(grid, sign)
        j = z3.Int('j')
        s.index(j, grid.n)
        real_loop = O._adaptive_odeint
        x0 = T(z3.Real('x0'), (V.SInt(z3.Int('b')), V.SInt(2 * z3.Int('h'))), True)
        s.assume(z3.And(z3.Int('b') >= 1, z3.Int('h') >= 1))
        pos = x0[..., :V.SInt(z3.Int('h'))]
        flag = object()
        dt0, out = T(z3.Real('dt0')), []
        def true_field(g, x):
            ts, xs = z3.Real('t*'), T(z3.Real('x*'), x.shape_, True)
            return g(T(ts), xs).e == w.field(ts, xs.e)
        def init_step(g, f0, x, t, order, atol, rtol):
            s.cover('init_step')
            s.check(z3.And(T.lift(t).e == w.T0, same(x, pos), f0.e == w.field(w.T0, pos.e)), "initial step: estimated at the initial positions", where=where)
            s.check(true_field(g, pos), "initial step: field in the direction of integration", where=where)
            s.check(z3.And(atol is w.atol, rtol is w.rtol, order == w.order), "initial step: settings of the call", where=where)
            return dt0
        def loop(*a, **kw):
            import inspect
            b = inspect.signature(real_loop).bind(*a, **kw)
            b.apply_defaults()
            b = b.arguments
            s.cover('loop')
            s.check(true_field(b['f'], pos), "the loop is given the field in the direction of integration", where=where)
            s.check(z3.And(same(b['k1'], T(w.field(w.T0, pos.e), pos.shape_, True, pos.dom))), "the first stage supplied is the field at the initial positions", where=where)
            s.check(b['x'] is x0 or same(b['x'], x0), "the loop starts from the whole state", where=where)
            s.check(T.lift(b['dt']).e == dt0.e, "the loop starts with the initial step", where=where)
            s.check(b['t_span'].at(j).e == w.time(j), "the loop is given the times in the direction of integration", where=where)
            s.check(b['solver'] is w.solver and b['atol'] is w.atol and b['rtol'] is w.rtol and b['return_all_eval'] is flag, "the loop is given the settings of the call", where=where)
            s.check(b['interpolator'] is None and b['seminorm'][0] is False, "no interpolation, error of the whole state", where=where)
            m = z3.Int('m')
            te, ys = z3.Function('te', spec.I, spec.R), z3.Function('ys', spec.I, spec.R)
            out.append((V.Seq(m, lambda i: [te(i)], T(real(0))), V.Seq(m, lambda i: [ys(i)], T(real(0), x0.shape_, True))))
            return out[0]
        f = Symplectic(lambda t, x: T(w.F(T.lift(t).e, x.e), x.shape_, True, x.dom), 1)
        with spec.replaced(O, init_step=init_step, _adaptive_odeint=loop): te, sol = O.odeint_symplectic(f, x0, grid.seq, w.solver, atol=w.atol, rtol=w.rtol, return_all_eval=flag)
        s.cover('returned')
        s.index(j, out[0][0].n)
        s.check(sol is out[0][1] and (te.n is out[0][0].n or core.must(te.n == out[0][0].n)), "the states are those of the loop", where=where)
        s.check(te.at(j).e == sign * out[0][0].at(j).e, "the times are those of the loop, in the caller's direction", where=where)
    return run


def same(a, b): return z3.BoolVal(a is b) if not (isinstance(a, T) and isinstance(b, T)) else z3.And(z3.BoolVal(str(a.dom) == str(b.dom)), a.e == b.e)


def harnesses(tier):
    cov = ['step', 'returned']
    for entry in ('_adaptive_odeint', 'odeint', 'odeint_symplectic'):
        yield dict(name=f"{entry}, times and accepted steps", run=harness(entry), covers=cov)
    yield dict(name="_adaptive_odeint, seminorm", run=harness('_adaptive_odeint', seminorm=True), covers=cov)
    yield dict(name="_adaptive_odeint, all evaluated points", run=harness('_adaptive_odeint', return_all=True), covers=cov)
    yield dict(name="_adaptive_odeint, interpolation", run=harness('_adaptive_odeint', interp=True), covers=cov + ['fit'])
    yield dict(name="odeint_symplectic, field of positions", run=positions(1), covers=['init_step', 'loop', 'returned'])
