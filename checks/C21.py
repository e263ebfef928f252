"""Contracts of the quasi-Newton root finder: one step as an identity of rational functions, the loop by invariants with the
step, the line search and the stopping test replaced by their contracts, the stopping test against its formula."""
import contextlib, itertools, torch, z3
from vc import core, spec, arr, values as V
from vc.core import real, Unsupported
from vc.arr import Arr, fn, same, lift
from vc.values import T, SInt, SBool
from vc.spec import R


def residual(z):
    "an arbitrary residual of every sample"
    return Arr.of(z.shape, lambda b, i: fn(f'g{i}', *z.a[b]))


def updates(J, dz, dg, kind, eps):
    "the documented rank-one corrections, per sample"
    n, d = dz.shape
    add, mul = arr.add_all, arr.times
    out = arr.obj((n, d, d))
    for b in range(n):
        Jg = [add([mul(J.a[b, i, o], dg.a[b, o]) for o in range(d)]) for i in range(d)]
        if kind == 'BroydenFull':
            left = [add([mul(dz.a[b, i], J.a[b, i, o]) for i in range(d)]) for o in range(d)]
            den = add([mul(dz.a[b, i], Jg[i]) for i in range(d)]) + eps
        else:
            left = [dg.a[b, o] for o in range(d)]
            den = add([mul(dg.a[b, o], dg.a[b, o]) for o in range(d)]) + eps
        for i in range(d):
            for o in range(d): out[b, i, o] = J.a[b, i, o] + (dz.a[b, i] - Jg[i]) * left[o] / den
    return Arr(out)


def step(s, tier):
    Rt = spec.mod('torchdyn.numerics.solvers.root')
    for kind, n, d in itertools.product(('BroydenFull', 'BroydenBad'), (1, 2, 3), (1, 2, 3)):
        solver = getattr(Rt, kind)()
        eps = real(1e-6)
        w = f"{kind}.update_jacobian"
        J, dz, dg = Arr.sym('J', n, d, d, tag='input'), Arr.sym('dz', n, d, tag='input'), Arr.sym('dg', n, d, tag='input')
        new = solver.update_jacobian(dg, dz, J)
        if tuple(new.shape) != (n, d, d): s.check(False, "one matrix per sample", where=w); continue
        s.check(same(new, updates(J, dz, dg, kind, eps)), "the estimate is changed by its rank-one correction, sample by sample", where=w)
        if kind == 'BroydenFull' and d <= 2:
            # J' dg = J dg + (dz - J dg) D / (D + eps), D = dz' J dg: the secant equation J' dg = dz up to the regularization
            Jg = Arr.of((n, d), lambda b, i: arr.add_all([arr.times(J.a[b, i, o], dg.a[b, o]) for o in range(d)]))
            D = [arr.add_all([arr.times(dz.a[b, i], Jg.a[b, i]) for i in range(d)]) for b in range(n)]
            got = Arr.of((n, d), lambda b, i: arr.add_all([arr.times(new.a[b, i, o], dg.a[b, o]) for o in range(d)]))
            s.check(same(got, Arr.of((n, d), lambda b, i: Jg.a[b, i] + (dz.a[b, i] - Jg.a[b, i]) * D[b] / (D[b] + eps))), "the new estimate meets the secant equation of the last changes up to the regularization", where=w)
        w = f"Broyden.step ({kind})"
        for alpha in (Arr.sym('alpha'), .1):
            z, ge = Arr.sym('z', n, d, tag='input'), Arr.sym('ge', n, d, tag='input')
            asked = []
            def update(dg_, dz_, J_, **k):
                asked.append((dg_, dz_, J_))
                return Arr.sym('Jnew', n, d, d)
            real_update, solver.update_jacobian = solver.update_jacobian, update
            evals = []
            def g(y): evals.append(Arr(y.a.copy())); return residual(y)
            try: z1, dz1, ge1, J1 = solver.step(g=g, z0=z, J_inv=J, geval_old=ge, alpha=alpha)
            finally: del solver.update_jacobian
            a = lift(alpha).a[()]
            Jge = Arr.of((n, d), lambda b, i: arr.add_all([arr.times(J.a[b, i, o], ge.a[b, o]) for o in range(d)]))
            s.check(same(z1, Arr.of((n, d), lambda b, i: z.a[b, i] - a * Jge.a[b, i])), "the iterate moves by minus the step length times the estimate applied to the residual", where=w)
            s.check(same(dz1, Jge), "the direction is the estimate applied to the residual", where=w)
            s.check(len(evals) >= 1 and all(same(e, z1) for e in evals) and all(x.eq(y) for x, y in zip(ge1.a.flat, residual(evals[0]).a.flat)), "the residual returned is that of the new iterate", where=w)
            if len(asked) != 1: raise Unsupported("the update is not called once")
            s.check(same(asked[0][0], ge1 - ge) and same(asked[0][1], z1 - z) and asked[0][2] is J, "the update gets the last changes of residual and iterate and the present estimate", where=w)
            s.check(all(x.eq(y) for x, y in zip(J1.a.flat, Arr.sym('Jnew', n, d, d).a.flat)), "the updated estimate is returned", where=w)
    s.cover('step')


def methods(s):
    Rt = spec.mod('torchdyn.numerics.solvers.root')
    s.check(type(Rt.ROOT_SOLVER_DICT['broyden']) is Rt.BroydenFull and type(Rt.ROOT_SOLVER_DICT['broyden_fast']) is Rt.BroydenBad, "a method's name denotes its update", where='root_find')
    for bad in (dict(method='nope'), dict(search_method='nope')):
        try: Rt.root_find(lambda z: z, torch.ones(1, 2), **bad); ok = False
        except Exception: ok = True
        s.check(ok, "an unknown method is refused", where='root_find')


def criteria(s, Rt, n, d):
    names = ('f_tol', 'f_rtol', 'x_tol', 'x_rtol')
    tol = {k: T(z3.Real(k)) for k in names}
    for k in names: s.assume(tol[k].e > 0)
    return tol


def norm_(v, b): return V.esqrt(arr.add_all([arr.times(e, e) for e in v.a[b]]))


def stopping(n, d, first):
    def run(s):
        Rt = spec.mod('torchdyn.numerics.solvers.root')
        s.deferred = {}
        tol = criteria(s, Rt, n, d)
        tc = Rt.TerminationCondition(**tol)
        mk = lambda k: tuple(Arr.sym(f'{q}{k}', n, d, tag='input') for q in ('ge', 'z', 'dz'))
        if not first:
            g0, z0, d0 = mk(0)
            with contextlib.suppress(ZeroDivisionError): tc.check(g0, z0, d0)
        ge, z, dz = mk(1)
        if first: g0 = ge
        code = tc.check(ge, z, dz)
        done = []
        for b in range(n):
            f, x, v, f0 = norm_(ge, b), norm_(z, b), norm_(dz, b), norm_(g0, b)
            done += [f <= tol['f_tol'].e, f <= tol['f_rtol'].e * f0, v <= tol['x_tol'].e, v <= tol['x_rtol'].e * x]
        s.cover('stops' if code else 'goes on')
        if code: s.check(z3.And(*done), "the search stops only when residual and step meet absolute and relative tolerances for all samples", where='TerminationCondition.check')
        else: s.check(z3.Not(z3.And(*done)), "and goes on only while they do not", where='TerminationCondition.check')
    return run


NS = 2, 2


def loop(search, verbose):
    def run(s):
        Rt = spec.mod('torchdyn.numerics.solvers.root')
        n, d = NS
        maxiters = z3.Int('maxiters')
        s.assume(maxiters >= 0)
        s.sizes = {'maxiters': maxiters}
        z0 = Arr.sym('z0', n, d, tag='input')
        J0 = Arr.sym('J0', n, d, d)
        tol = {k: object() for k in ('f_tol', 'f_rtol', 'x_tol', 'x_rtol')}
        REACH = z3.Function('Iterate', *[R] * (n * d), z3.IntSort(), z3.BoolSort())
        DONE = z3.Function('Criteria', *[R] * (n * d), z3.BoolSort())
        STEP = [z3.Function(f'STEP{k}', *[R] * (n * d * 2 + n * d * d + 1), R) for k in range(n * d * (2 + d))]
        s.assume(REACH(*z0.a.flat, 0))
        it = {}
        alpha0 = T(z3.Real('alpha0'))
        s.assume(alpha0.e > 0)

        def g(z): return residual(z)
        def current(ge, z): return z3.And(*[a == b for a, b in zip(ge.a.flat, residual(z).a.flat)])

        class Solver:
            def step(self, g, z0, J_inv, geval_old, alpha=1, **k):
                s.check(current(geval_old, z0), "the residual used in an iteration is that of the current iterate", where='root_find')
                s.check(T.lift(alpha).e > 0 if not isinstance(alpha, Arr) else alpha.a.reshape(-1)[0] > 0, "with the step length given or found", where='root_find')
                probe = Arr.sym('probe', n, d)
                s.check(all(x.eq(y) for x, y in zip(g(probe).a.flat, residual(probe).a.flat)), "the step is given the caller's residual", where='root_find')
                a = T.lift(alpha).e
                args = [*z0.a.flat, *geval_old.a.flat, *J_inv.a.flat, a]
                v = [f(*args) for f in STEP]
                m = n * d
                z1, dz = Arr(arr.np.array(v[:m], dtype=object).reshape(n, d)), Arr(arr.np.array(v[m:2 * m], dtype=object).reshape(n, d))
                it['z'], it['dz'] = z1, dz
                k = z3.Int('steps')
                s.fact(z3.ForAll([k], z3.Implies(REACH(*z0.a.flat, k), REACH(*z1.a.flat, k + 1))))
                s.cover('step')
                return z1, dz, residual(z1), Arr(arr.np.array(v[2 * m:], dtype=object).reshape(n, d, d))

        class Test:
            def __init__(self, *a, **k):
                s.check(not a and all(k.get(q) is v for q, v in tol.items()), "the stopping test gets the tolerances", where='root_find')
            def check(self, geval, z, dz):
                s.check(all(x.eq(y) for x, y in zip(z.a.flat, it['z'].a.flat)) and all(x.eq(y) for x, y in zip(dz.a.flat, it['dz'].a.flat)), "the stopping test is about the new iterate and the last direction", where='root_find')
                s.check(current(geval, z), "the stopping test gets the residual of the new iterate", where='root_find')
                return 2 if s.branch(DONE(*z.a.flat)) else 0

        class Search:
            def __init__(self, g, g0, dz, z0):
                s.check(all(x.eq(y) for x, y in zip(z0.a.flat, it['z'].a.flat)) and all(x.eq(y) for x, y in zip(dz.a.flat, it['dz'].a.flat)), "the line search is about the new iterate and the last direction", where='root_find')
                s.check(current(g0, z0), "and its residual", where='root_find')
            def search(self, *a, **k):
                r = T(s.fresh('alpha', 'real'))
                s.assume(r.e > 0)
                return r, T(s.fresh('phi', 'real'))

        class Inverse:
            def pinverse(self, *a, **k): return J0

        logged = []
        class Logger:
            def log(self, d): logged.append(d)
            def __bool__(self): return True

        def iterates(sess, lid, env, kappa):
            for nm, v in env.items():
                if type(v) is Arr and v.a.shape == (n, d):
                    yield f"{nm} is the k-th iterate", lambda v=v: REACH(*v.a.flat, kappa)
                    for nm2, w in env.items():
                        if type(w) is Arr and w.a.shape == (n, d) and w is not v:
                            yield f"{nm} is the residual of {nm2}", lambda v=v, w=w: current(v, w)
                if type(v) is T and not v.vec: yield f"{nm} > 0", lambda v=v: v.e > 0
        s.templates = [spec.generic_templates, iterates]

        def jac(f, z):
            s.check(z is z0 or all(x.eq(y) for x, y in zip(z.a.flat, z0.a.flat)), "the first estimate is taken at the start", where='root_find')
            return Inverse()
        dicts = dict(ROOT_SOLVER_DICT={**Rt.ROOT_SOLVER_DICT, 'broyden': Solver()}, SEARCH_METHODS={**Rt.SEARCH_METHODS, 'naive': Search})
        with spec.replaced(Rt, batch_jacobian=jac, TerminationCondition=Test, RootLogger=Logger, **dicts):
            z, logger = Rt.root_find(g, z0, alpha=alpha0, maxiters=SInt(maxiters), method='broyden', search_method=search, verbose=verbose, **tol)
        s.cover('returned')
        k = z3.Int('k*')
        reach = z3.Exists([k], z3.And(k >= 0, k <= maxiters, REACH(*z.a.flat, k), z3.Or(k == maxiters, z3.And(k > 0, DONE(*z.a.flat)))))
        s.check(reach, "the search ends at an iterate where the criteria hold, or at the iteration limit", where='root_find')
    return run


def harnesses(tier):
    yield dict(name='quasi-Newton steps', direct=lambda s: step(s, tier), covers=['step'], budget_s=300, bounded='up to 3 samples of up to 3 components')
    yield dict(name='names of the methods', direct=methods, covers=[])
    for n, d in ((1, 1), (1, 2), (2, 2), (3, 1)):
        for first in (True, False):
            yield dict(name=f"stopping test, {n} samples of {d} components, {'first' if first else 'later'} iteration", run=stopping(n, d, first), covers=['stops', 'goes on'], bounded='up to 3 samples')
    for search in ('none', 'naive'):
        for verbose in (False, True):
            yield dict(name=f"root_find, search method {search}{', verbose' if verbose else ''}", run=loop(search, verbose), covers=['step', 'returned'])
