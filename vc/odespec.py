"""Ghost solutions and step contracts shared by the checks on integration loops."""
import z3
from . import core, values as V, spec
from .core import S, real
from .values import T, Seq, SBool, SInt, VList, eint, struct, leaves, rebuild
from .spec import R, I


class GhostTrajectory:
    """X(0) = x0, X(m+1) = STEP(X(m), t_m, t_{m+1} - t_m): the specification of a fixed-step solution.
    `x0` is a tensor or a dictionary of tensors; extra(m) gives further terms the step depends on (Brownian increments)."""
    def __init__(self, x0, tfun, name='X', extra=None):
        self.x0, self.tfun, self.extra = x0, tfun, extra
        w = len(leaves(x0))
        self.w = w
        self.fs = [z3.Function(f'{name}{k}', I, R) for k in range(w)]
        self.steps = [z3.Function(f'STEP{k}', *([R] * (w + 2 + (len(extra(z3.IntVal(0))) if extra else 0))), R) for k in range(w)]
        s = S()
        for f, e in zip(self.fs, leaves(x0)): s.assume(f(0) == e)
        self.seen = []

    def at(self, m):
        self.unfold(m)
        return [f(m) for f in self.fs]

    def step(self, xs, t, dt, ex=()):
        return [f(*xs, t, dt, *ex) for f in self.steps]

    def unfold(self, m):
        m = z3.simplify(m) if not isinstance(m, int) else z3.IntVal(m)
        s = S()
        for b in (m, z3.simplify(m - 1)):
            if any(b.eq(o) for o in self.seen): continue
            self.seen.append(b)
            def inst(b=b):
                t0, t1 = self.tfun(b), self.tfun(z3.simplify(b + 1))
                new = self.step([f(b) for f in self.fs], t0, t1 - t0, self.extra(b) if self.extra else ())
                for f, e in zip(self.fs, new): s.fact(z3.Implies(b >= 0, f(b + 1) == e))
            s.later(inst)


def as_real(v):
    if isinstance(v, (int, float)) and not isinstance(v, bool): return real(v)
    if type(v) is T and not v.vec: return v.e
    return None


def time_templates(grid):
    "scalars equal to a grid time or to a grid interval near the current iteration"
    def t(sess, lid, env, kappa):
        for n, v in env.items():
            e = as_real(v)
            if e is None or type(v) is not T: continue
            for c in (-1, 0, 1):
                i = z3.simplify(kappa + c)
                ok = z3.And(i >= 0, i < grid.n)
                yield f"{n} == time(k{c:+d})", lambda: z3.Implies(ok, e == grid.at(i))
                ok2 = z3.And(i >= 0, i + 1 < grid.n)
                yield f"{n} == interval(k{c:+d})", lambda: z3.Implies(ok2, e == grid.at(z3.simplify(i + 1)) - grid.at(i))
    return t


def state_templates(ghost, n=None):
    def t(sess, lid, env, kappa):
        for name, v in env.items():
            if type(v) is T and v.vec or isinstance(v, dict):
                try: es = leaves(v)
                except core.Unsupported: continue
                if len(es) != ghost.w: continue
                for c in (-1, 0, 1):
                    i = z3.simplify(kappa + c)
                    g = ghost.at(i)
                    yield f"{name} == X(k{c:+d})", lambda: z3.Implies(i >= 0, z3.And(*[a == b for a, b in zip(es, g)]))
    return t


class Contract(spec.Tracked):
    "a callee replaced by its contract: plain attribute holder"
    def __init__(self, **k): self.__dict__.update(k)
