from fractions import Fraction
import z3, torch
from vc import core, spec, rk, poly, values as V
from vc.core import real
from vc.values import T
from checks import C04, C05


def quartic(s):
    "fit and evaluate: the unique quartic with the given ends, slopes and mid-point"
    for dtype in (torch.float64, torch.float32):
        I = spec.mod('torchdyn.numerics.interpolators')
        ip = I.str_to_interp('4th', dtype)
        vec = lambda n: T(z3.Real(n), (3,), True, tag='input')
        sc = lambda n: T(z3.Real(n), (1,), tag='input')
        x0, x1, xm, f0, f1, t0, h, th = vec('x0'), vec('x1'), vec('xm'), vec('f0'), vec('f1'), sc('t0'), sc('h'), z3.Real('theta')
        coefs = ip.fit(h, f0, f1, x0, x1, xm)
        def at(e): return ip.evaluate(coefs, t0, T(t0.e + h.e, (1,)), T(e, ())).e
        w = 'FourthOrder.evaluate'
        s.check(poly.equal(at(t0.e), x0.e), "takes the initial state at the start", where=w)
        s.check(poly.equal(at(t0.e + h.e), x1.e), "takes the final state at the end", where=w)
        s.check(poly.equal(at(t0.e + h.e / 2), xm.e), "takes the mid-point estimate in the middle", where=w)
        p = at(t0.e + th * h.e)
        env = {}
        import sympy
        q = sympy.cancel(sympy.together(poly.to_sympy(p, env)))
        t = env['theta']
        num, den = sympy.fraction(q)
        s.check(bool(not den.has(t) and sympy.degree(sympy.expand(num), t) <= 4), "is a quartic in time", where=w)
        slope = sympy.cancel(sympy.diff(q, t) / env['h'])
        s.check(bool(sympy.cancel(slope.subs(t, 0) - env['f0']) == 0), "has the field's slope at the start", where=w)
        s.check(bool(sympy.cancel(slope.subs(t, 1) - env['f1']) == 0), "has the field's slope at the end", where=w)
        # evaluation leaves its data alone
        s.check(x0.e.eq(z3.Real('x0')) and poly.equal(at(t0.e), x0.e) and poly.equal(at(t0.e + h.e), x1.e), "evaluation is repeatable", where=w)


def midpoint(s):
    "the mid-point weights, with the stages of the solver: fourth order accurate at half the step"
    for name in ('dopri5', 'DormandPrince45'):
        for dtype, eps in ((torch.float64, Fraction(1, 10 ** 9)), (torch.float32, Fraction(1, 2 * 10 ** 4))):
            O = spec.mod('torchdyn.numerics.solvers.ode')
            solver, ip = O.str_to_solver(name, dtype), spec.mod('torchdyn.numerics.interpolators').str_to_interp('4th', dtype)
            A, c = C04.coefficients(s, solver)
            b = [core.frac(float(v)) if dtype == torch.float64 else core.frac(round(float(v), 9)) for v in ip.bmid]
            s.check(len(b) == len(c), "one weight per stage", where='construct_4th')
            two = lambda r: [2 * v for v in r]
            for o, cn, r in rk.order_conditions([two(r) for r in A], two(b), two(c), 4):
                s.record(f"mid-point estimate: order {o} condition {cn}", 'construct_4th', 'post', abs(r) <= eps, 0.0, '' if abs(r) <= eps else f"counter-model: residual {float(r):.3g}")




def harnesses(tier):
    cov = ['step', 'returned', 'fit']
    yield dict(name="quartic through the data of a step", direct=quartic)
    yield dict(name="mid-point weights", direct=midpoint)
    yield dict(name="_adaptive_odeint, dense output", run=C05.harness('_adaptive_odeint', interp=True, chain=True), covers=cov)
    yield dict(name="odeint, dense output", run=C05.harness('odeint', interp=True, chain=True), covers=cov)
