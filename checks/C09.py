import z3, torch
from vc import core, spec, poly
from vc.core import real
from vc.values import T

TYPES, NOISE = ['ito', 'stratonovich', 'another calculus'], ['general', 'diagonal', 'scalar', 'additive', 'another noise', None]
CALCULUS = {'euler': 'ito', 'eulerHeun': 'stratonovich', 'milstein_ito': 'ito', 'milstein_stratonovich': 'stratonovich'}


class Probe:
    "an arbitrary function: one symbol per list of arguments, up to identities of rational functions"
    def __init__(self, name): self.name, self.calls = name, []
    def __call__(self, *a):
        a = [T.lift(v) for v in a]
        for b, r in self.calls:
            if all(poly.equal(p.e, q.e) for p, q in zip(a, b)): return r
        vec = next((v for v in a if v.vec), None)
        r = T(z3.Real(f'{self.name}{len(self.calls)}'), vec.shape_ if vec is not None else (4, 3), True)
        self.calls.append((a, r))
        return r


class Sde:
    def __init__(self, f, g, st, nt): self.f, self.g, self.sde_type, self.noise_type = f, g, st, nt


def formula(name, f, g, W, x, t, h):
    "the published schemes; h is the square root of the step"
    dt = T(h.e * h.e)
    n = t + dt
    dW = W(t, n)
    if name == 'euler': return x + f(t, x) * dt + g(t, x) * dW
    if name == 'eulerHeun': return x + f(t, x) * dt + (g(t, x) + g(n, x + g(t, x) * dW)) / 2 * dW
    v = dW * dW - dt if name == 'milstein_ito' else dW * dW
    return x + f(t, x) * dt + g(t, x) * dW + (g(t, x + f(t, x) * dt + g(t, x) * h) - g(t, x)) / (2 * h) * v


def step(name, zero):
    def run(s):
        M = spec.mod('torchdyn.numerics.solvers.sde')
        f, W = Probe('f'), Probe('W')
        g = (lambda t, x: T(real(0) * T.lift(x).e, x.shape_, True)) if zero else Probe('g')
        for noise in NOISE[:4]:
            for dtype in (torch.float32, torch.float64):
                for p in (f, W) + (() if zero else (g,)): p.calls.clear()
                solver = M.sde_str_to_solver(name, Sde(f, g, CALCULUS[name], noise), W, dtype)
                w = f'{type(solver).__name__}.step'
                x, t, h = T(z3.Real('x'), (4, 3), True, tag='input'), T(z3.Real('t'), tag='input'), T(z3.Real('sqrt_dt'))
                out = solver.step(x, t, T(h.e * h.e, tag='input'))
                known = [len(p.calls) for p in (f, W)]
                ref = formula(name, f, g, W, x, t, h)
                s.check([len(p.calls) for p in (f, W)] == known, "drift and increment are evaluated where the scheme has them", where=w)
                s.check(len(W.calls) == 1, "a single Brownian increment, over exactly the step", where=w)
                s.check(poly.equal(out[1].e, ref.e), "the step is the scheme's formula", where=w)
                if zero: s.check(poly.equal(out[1].e, (x + f(t, x) * T(h.e * h.e)).e), "without diffusion: the explicit Euler step", where=w)
                s.check(solver.stepping_class == 'fixed', "declares its stepping class", where=w)
    return run


def refusals(s):
    "the tests of _check_types depend on equality with the supported names only: one foreign name stands for all"
    M = spec.mod('torchdyn.numerics.solvers.sde')
    for name, calc in CALCULUS.items():
        for cls in (lambda *a: M.sde_str_to_solver(name, *a), M.SDE_SOLVER_DICT[name]):
            for st in TYPES:
                for nt in NOISE:
                    try: cls(Sde(None, None, st, nt), None); built = True
                    except ValueError: built = False
                    ok = st == calc and nt in NOISE[:4]
                    s.check(built == ok, f"{'built for' if ok else 'refuses'} an equation of {'its' if st == calc else 'the other'} calculus with {'supported' if nt in NOISE[:4] else 'unsupported'} noise", where=f'{name}')


def harnesses(tier):
    for name in CALCULUS:
        yield dict(name=f"{name}: formula", direct=step(name, False))
        yield dict(name=f"{name}: zero diffusion", direct=step(name, True))
    yield dict(name="refusals", direct=refusals)
