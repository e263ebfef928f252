import contextlib
import numpy as np
from vc.gen import *
from torchdyn.numerics.solvers import root as Rt


def problem(rng, n, d):
    A = torch.eye(d, dtype=F64) * rng.uniform(1, 3) + tensor(rng, (d, d), scale=.3)
    b, w = tensor(rng, (d,)), rng.uniform(0, .8)
    k = rng.choice(['affine', 'tanh', 'cubic'])
    def g(z):
        r = z @ A.T - b
        if k == 'tanh': r = r + w * torch.tanh(z)
        if k == 'cubic': r = r + w * z ** 3
        return r
    return g, k


def ref_step(kind, g, z, J, ge, alpha):
    "per sample, with plain matrices"
    dz = torch.stack([J[i] @ ge[i] for i in range(len(z))])
    z1 = z - alpha * dz
    ge1 = g(z1)
    out = []
    for i in range(len(z)):
        s, y, K = z1[i] - z[i], ge1[i] - ge[i], J[i]
        if kind == 'broyden': out.append(K + torch.outer(s - K @ y, s @ K) / (s @ K @ y + 1e-6))
        else: out.append(K + torch.outer(s - K @ y, y) / (y @ y + 1e-6))
    return z1, dz, ge1, torch.stack(out)


def search_run(c):
    rng = c.rng
    n, d = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
    g, k = problem(rng, n, d)
    z = tensor(rng, (n, d), scale=2)
    method, search = rng.choice(['broyden', 'broyden_fast']), rng.choice(['none', 'none', 'naive', 'armijo'])
    tol = dict(f_tol=10 ** rng.uniform(-5, 0), f_rtol=10 ** rng.uniform(-3, 0), x_tol=10 ** rng.uniform(-5, 0), x_rtol=10 ** rng.uniform(-2, 1))
    alpha, maxiters = rng.choice([1., .5, .1]), rng.choice([0, 1, 2, 5, 20, 40])
    c.note(n=n, d=d, residual=k, method=method, search=search, alpha=alpha, maxiters=maxiters, **tol)
    keep, alphas = z.clone(), []
    cls = Rt.SEARCH_METHODS[search]
    with contextlib.ExitStack() as es:
        if cls is not None:
            real = cls.search
            def spy(self, *a, **k):
                r = real(self, *a, **k)
                alphas.append(r[0])
                return r
            cls.search = spy
            es.callback(setattr, cls, 'search', real)
        got, log = Rt.root_find(g, z, alpha=alpha, maxiters=maxiters, method=method, search_method=search, verbose=True, **tol)
    c.require(torch.equal(z, keep), "the start was modified")
    zr, ge = z, g(z)
    J = torch.stack([torch.linalg.pinv(torch.autograd.functional.jacobian(g, e)) for e in z])
    f0, its, dz, met, a = None, 0, None, False, alpha
    while its < maxiters:
        zr, dz, ge, J = ref_step(method, g, zr, J, ge, a)
        if not torch.isfinite(zr).all() or zr.abs().max() > 1e6: return     # a diverging search says nothing more
        if cls is not None:
            if its >= len(alphas): break
            a = alphas[its]
        its += 1
        nf, nz, nd = ge.norm(dim=1), zr.norm(dim=1), dz.norm(dim=1)
        if f0 is None: f0 = nf
        margins = torch.stack([nf / tol['f_tol'], nf / (tol['f_rtol'] * f0), nd / tol['x_tol'], nd / (tol['x_rtol'] * nz)])
        if ((margins - 1).abs() < 1e-5).any() or nf.min() < 1e-9 or nd.min() < 1e-9: return     # within rounding
        met = bool((margins <= 1).all())
        if met: break
    close(got, zr, 1e-5, f"iterate after {its} iterations")
    if maxiters:
        c.require(log.data['iteration'] == its, f"{log.data['iteration']} iterations instead of {its}")
        close(log.data['geval'], g(got), 1e-9, 'residual reported for the last iterate')
        close(log.data['dz'], dz, 1e-5, 'last direction')
        c.require(met or its == maxiters, "stopped before the criteria held")


def single(c):
    "one step and its secant equation, samples independent of each other"
    rng = c.rng
    n, d = rng.choice([1, 2, 4]), rng.choice([1, 2, 3, 5])
    g, k = problem(rng, n, d)
    z, J = tensor(rng, (n, d), scale=2), torch.eye(d, dtype=F64).repeat(n, 1, 1) * .4 + tensor(rng, (n, d, d), scale=.2)
    method, alpha = rng.choice(['broyden', 'broyden_fast']), rng.uniform(.05, 1)
    s = Rt.ROOT_SOLVER_DICT[method]
    ge = g(z)
    c.note(n=n, d=d, method=method, alpha=alpha)
    z1, dz, ge1, J1 = s.step(g=g, z0=z, J_inv=J, geval_old=ge, alpha=alpha)
    r = ref_step(method, g, z, J, ge, alpha)
    den = [abs(float((r[0] - z)[i] @ J[i] @ (r[2] - ge)[i])) for i in range(n)]
    if min(den) < 1e-3: return
    for a, b, w in zip((z1, dz, ge1, J1), r, ('iterate', 'direction', 'residual', 'estimate')): close(a, b, 1e-7, w)
    i = rng.randrange(n)
    one = s.step(g=g, z0=z[i:i + 1], J_inv=J[i:i + 1], geval_old=ge[i:i + 1], alpha=alpha)
    for a, b, w in zip((z1, dz, ge1, J1), one, ('iterate', 'direction', 'residual', 'estimate')): close(a[i:i + 1], b, 1e-7, w + ' of a sample on its own')
    if method == 'broyden':
        y, sz = ge1 - ge, z1 - z
        for i in range(n):
            if den[i] > .1: close(J1[i] @ y[i], sz[i], 1e-3, 'secant equation')


SCENARIOS = {'search': Scen(search_run, 200, 4000), 'single': Scen(single, 150, 3000)}
