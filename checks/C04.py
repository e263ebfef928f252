from fractions import Fraction
import z3, torch
from vc import core, spec, rk
from vc.values import T
from vc.core import real

NAMES = {'euler': 1, 'midpoint': 2, 'rk4': 4, 'rk-4': 4, 'RungeKutta4': 4, 'dopri5': 5, 'DormandPrince45': 5, 'DormandPrince5': 5, 'tsit5': 5, 'Tsitouras45': 5, 'Tsitouras5': 5}


def extract(s, step, tname, given):
    "runs the real step on an arbitrary field: stage arguments and results as terms over x, t, dt and the stage values"
    x, t, dt = T(z3.Real('x'), (3,), True, tag='input'), T(z3.Real('t'), tag='input'), T(z3.Real('dt'), tag='input')
    ks, calls = [], []
    k1 = None
    if given:
        k1 = T(z3.Real('k1'), (3,), True, tag='input')
        ks.append(k1.e); calls.append((t, x))
    def f(ti, xi):
        ti, xi = T.lift(ti), T.lift(xi)
        s.check(not xi.ew and xi.vec, "stage states are linear in the state and the stages", where=tname)
        for i, (a, b) in enumerate(calls):
            if rk.zero(a.e - ti.e) and rk.zero(b.e - xi.e): return T(ks[i], (3,), True)
        k = T(z3.Real(f'k{len(ks) + 1}'), (3,), True)
        calls.append((ti, xi)); ks.append(k.e)
        return k
    out = step(f, x, t, dt, k1=k1, args=None)
    return x, t, dt, ks, calls, out


def coefficients(s, solver):
    x, t, dt, ks, calls, out = extract(s, solver.step, type(solver).__name__, False)
    A = [rk.linear_coeffs(xi.e, x.e, dt.e, ks[:i])[1] for i, (ti, xi) in enumerate(calls)]
    return [r + [Fraction(0)] * (len(ks) - len(r)) for r in A], [rk.value(ti.e, [(t.e, 0), (dt.e, 1)]) for ti, xi in calls]


def within_step(s, solver, where):
    x, t, dt, ks, calls, out = extract(s, solver.step, where, False)
    for i, (ti, xi) in enumerate(calls):
        ci = rk.value(ti.e, [(t.e, 0), (dt.e, 1)])
        s.check(ci is not None and rk.zero(ti.e - t.e - real(ci) * dt.e) and 0 <= ci <= 1, f"stage {i + 1} is evaluated at a time of its step", where=where)


def run(name, dtype, given):
    def go(s):
        O = spec.mod('torchdyn.numerics.solvers.ode')
        solver = O.str_to_solver(name, dtype)
        order = NAMES[name]
        eps = Fraction(1, 10 ** 12) if dtype == torch.float64 else Fraction(1, 5 * 10 ** 4)
        where = f'{type(solver).__name__}.step'
        if given is not None: solver.sync_device_dtype(torch.zeros(3, dtype=dtype), torch.zeros(2, dtype=dtype))
        s.check(solver.order == order, f"declares order {order}", where=where)
        s.check(solver.stepping_class == ('adaptive' if order == 5 else 'fixed'), "declares its stepping class", where=where)
        x, t, dt, ks, calls, out = extract(s, solver.step, where, bool(given))
        fl, xs, err = out[:3]
        s.check(not xs.ew, "the result is linear in the state and the stages", where=where)
        A, c = [], []
        for i, (ti, xi) in enumerate(calls):
            tc = rk.linear_coeffs(ti.e, t.e, dt.e, [])
            ci = rk.value(ti.e, [(t.e, 0), (dt.e, 1)])
            ok = ci is not None and rk.zero(ti.e - t.e - real(ci) * dt.e)
            co = rk.linear_coeffs(xi.e, x.e, dt.e, ks[:i])
            s.check(ok, f"stage {i + 1} is evaluated at t + c dt", where=where)
            s.check(co is not None and co[0] == 1, f"stage {i + 1} is evaluated at x + dt sum a_ij k_j, of earlier stages only", where=where)
            if not ok or co is None or co[0] != 1: return
            A.append(co[1]); c.append(ci)
        n = len(ks)
        A = [r + [Fraction(0)] * (n - len(r)) for r in A]
        sol = rk.linear_coeffs(xs.e, x.e, dt.e, ks)
        s.check(sol is not None and sol[0] == 1, "the result is x + dt sum b_j k_j", where=where)
        if sol is None: return
        b = sol[1]
        s.check(c[0] == 0 and not any(A[0]), "the first stage is the field at the step's start", where=where)
        for i in range(n): s.check(abs(sum(A[i]) - c[i]) <= eps, f"row sum condition of stage {i + 1}", where=where)
        for o, cn, r in rk.order_conditions(A, b, c, order):
            s.record(f"order {o} condition {cn}", where, 'post', abs(r) <= eps, 0.0, '' if abs(r) <= eps else f"counter-model: residual {float(r):.3g}")
        if order == 5:
            s.check(len(out) >= 4 and len(out[3]) == n and all(rk.zero(k.e - q) for k, q in zip(out[3], ks)), "all stages are returned, in order", where=where)
            last = [i for i in range(n) if rk.zero(fl.e - ks[i])]
            s.check(bool(last), "the returned field value is a stage", where=where)
            if last:
                ti, xi = calls[last[0]]
                s.check(rk.zero(ti.e - t.e - dt.e) or abs(c[last[0]] - 1) <= eps, "the returned field value belongs to the end of the step", where=where)
                d = [abs(p - q) for p, q in zip(A[last[0]], b)]
                s.check(max(d) <= eps, "the returned field value is taken at the returned state", where=where)
            e = rk.linear_coeffs(err.e, x.e, dt.e, ks)
            s.check(e is not None and e[0] == 0, "the error estimate is dt sum e_j k_j", where=where)
            if e is not None:
                bh = [p - q for p, q in zip(b, e[1])]
                for o, cn, r in rk.order_conditions(A, bh, c, 4):
                    s.record(f"embedded solution: order {o} condition {cn}", where, 'post', abs(r) <= eps, 0.0, '' if abs(r) <= eps else f"counter-model: residual {float(r):.3g}")
                s.check(any(abs(r) > Fraction(1, 10 ** 5) for o, cn, r in rk.order_conditions(A, bh, c, 5) if o == 5), "the embedded solution is of order four exactly", where=where)
        else:
            s.check(err is None, "no error estimate", where=where)
    return go


def harnesses(tier):
    def all_(names, dtype, given):
        def go(s):
            for n in names: run(n, dtype, given)(s)
        return go
    for dtype, dn in ((torch.float64, 'float64'), (torch.float32, 'float32')):
        yield dict(name=f"steps of the explicit solvers, {dn}", direct=all_(NAMES, dtype, False))
        yield dict(name=f"steps with the first stage supplied, {dn}", direct=all_(NAMES, dtype, True))
        yield dict(name=f"steps of freshly built solvers, {dn}", direct=all_(['rk4', 'dopri5', 'tsit5'], dtype, None))
