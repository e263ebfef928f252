import z3, torch
from vc import core, spec, adaptive, values as V
from vc.core import real
from vc.values import T
from checks import C05


def adapt(s):
    U = spec.mod('torchdyn.numerics.utils')
    mk = lambda n, *sh: T(z3.Real(n), sh, tag='input')
    dt, r, safety, lo, hi = mk('dt', 1), mk('ratio'), mk('safety', 1), mk('min_factor', 1), mk('max_factor', 1)
    s.assume(z3.And(dt.e > 0, r.e >= 0, safety.e > 0, safety.e <= 1, lo.e > 0, lo.e < 1, hi.e > 1))
    order = 5
    p = real('1/5')
    pw = V.erpow(r.e, p)
    new = T.lift(U.adapt_step(dt, r, safety, lo, hi, order))
    s.cover('adapted')
    w = 'adapt_step'
    fac, raw = z3.Real('factor'), z3.Real('safety over root')
    s.assume(fac * dt.e == new.e)
    s.assume(z3.Implies(r.e > 0, raw * pw == safety.e))
    s.check(z3.And(fac >= lo.e, fac <= hi.e), "the factor lies between the minimum and the maximum", where=w)
    s.check(new.e > 0, "step sizes stay positive", where=w)
    s.check(z3.Implies(r.e == 0, fac == hi.e), "a vanishing error gives the maximum growth", where=w)
    s.check(z3.Implies(r.e > 1, fac < 1), "a rejected step shrinks the next", where=w)
    s.check(z3.Implies(r.e < 1, fac >= 1), "no shrinking after an error ratio below one", where=w)
    l = z3.If(r.e < 1, real(1), lo.e)
    s.check(z3.Implies(z3.And(r.e > 0, raw >= l, raw <= hi.e), fac == raw), "the factor is the safety over the error ratio's root where that lies within the bounds", where=w)
    s.check(z3.Implies(z3.And(r.e > 0, raw < l), fac == l), "the factor is cut at the minimum", where=w)
    s.check(z3.Implies(z3.And(r.e > 0, raw > hi.e), fac == hi.e), "the factor is cut at the maximum", where=w)


def first(s):
    U = spec.mod('torchdyn.numerics.utils')
    x0, f0 = spec.state('x0'), T(z3.Real('f0'), spec.state('x0').shape_, True, tag='input')
    f0.shape_ = x0.shape_
    mk = lambda n: T(z3.Real(n), tag='input')
    t0, atol, rtol = mk('t0'), mk('atol'), mk('rtol')
    s.assume(z3.And(atol.e > 0, rtol.e >= 0))
    F = z3.Function('F', spec.R, spec.R, spec.R)
    calls = []
    def f(t, x):
        calls.append((T.lift(t).e, x.e))
        return T(F(T.lift(t).e, x.e), x.shape_, True)
    order = 5
    w = 'init_step'
    sc = atol + x0.abs() * rtol
    nrm = lambda v: (v / sc).pow(2).mean().sqrt().e
    dt = T.lift(U.init_step(f, f0, x0, t0, order, atol, rtol))
    s.cover('estimated')
    d0, d1 = nrm(x0), nrm(f0)
    small = z3.Or(d0 < real(1e-5), d1 < real(1e-5))
    h0 = z3.Real('h0')
    s.assume(z3.Implies(small, h0 == real(1e-6)))
    s.assume(z3.Implies(z3.Not(small), h0 * d1 == real('1/100') * d0))
    s.check(len(calls) == 1, "one more evaluation of the field", where=w)
    if len(calls) != 1: return
    ct, cx = calls[0]
    s.check(z3.And(ct == t0.e + h0, cx == x0.e + h0 * f0.e), "the field is probed after an explicit Euler step of the first guess", where=w)
    d2 = z3.Real('d2')
    q = nrm(T(F(ct, cx), x0.shape_, True) - f0)
    s.assume(d2 * h0 == q)
    m = z3.If(d1 >= d2, d1, d2)
    tiny = z3.And(d1 <= real(1e-15), d2 <= real(1e-15))
    base = z3.Real('base')
    s.assume(z3.Implies(m > 0, base * m == real('1/100')))
    root = V.erpow(base, real(f'1/{order + 1}'))
    h1 = z3.If(tiny, z3.If(h0 * real(1e-3) >= real(1e-6), h0 * real(1e-3), real(1e-6)), root)
    s.check(dt.e > 0, "the initial step is positive", where=w)
    want = z3.Real('estimate')
    s.assume(want == z3.If(100 * h0 <= h1, 100 * h0, h1))
    eps = real(1e-9)   # constants are combined in machine arithmetic
    s.check(z3.And(dt.e <= want * (1 + eps), dt.e >= want * (1 - eps)), "the initial step is the standard estimate", where=w)


def norm(s):
    U = spec.mod('torchdyn.numerics.utils')
    x = spec.state('x')
    r = T.lift(U.hairer_norm(x))
    s.check(z3.And(r.e >= 0, r.e * r.e == x.pow(2).mean().e), "the norm is the root mean square", where='hairer_norm')


def declared(s):
    O = spec.mod('torchdyn.numerics.solvers.ode')
    for name in ('dopri5', 'DormandPrince45', 'tsit5', 'Tsitouras45'):
        for dt in (torch.float32, torch.float64):
            v = O.str_to_solver(name, dt)
            a, b, c = float(v.safety), float(v.min_factor), float(v.max_factor)
            s.check(0 < a <= 1 and 0 < b < 1 < c, f"declared factors are admissible: {name}", where=type(v).__name__)


def harnesses(tier):
    yield dict(name="adapt_step", run=adapt, covers=['adapted'])
    yield dict(name="init_step", run=first, covers=['estimated'])
    yield dict(name="hairer_norm", run=norm)
    yield dict(name="declared factors", direct=declared)
    cov = ['step', 'returned']
    yield dict(name="_adaptive_odeint, chain of step sizes to the final time", run=C05.harness('_adaptive_odeint', chain=True, times=2), covers=cov)
    yield dict(name="odeint, chain of step sizes to the final time", run=C05.harness('odeint', chain=True, times=2), covers=cov + ['init_step'])
    yield dict(name="odeint, chain of step sizes with interpolation", run=C05.harness('odeint', chain=True, interp=True), covers=cov + ['init_step', 'fit'])
