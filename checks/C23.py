"""Contracts of the toy datasets: the generators run with their random draws, radii, deviations and noise level as symbols; every
point is then compared, as an expression in these symbols, with the curve or cluster of its label.  Constants (angles) are compared
up to rounding.  Bounded in the number of samples, clusters and dimensions."""
import contextlib, itertools, math, types
import numpy as np, sympy, torch, z3
from vc import core, spec, arr, poly
from vc.core import real, Unsupported
from vc.arr import Arr, fn, lift

EPS = 1e-5      # angles are computed in single precision


class E:
    "entry of a numpy array"
    def __init__(self, e): self.e = e.e if isinstance(e, E) else core.real(float(e)) if isinstance(e, (int, float, np.generic)) else e
    def _b(self, o, f):
        if isinstance(o, np.ndarray): return NotImplemented
        if isinstance(o, Arr): o = o.a.reshape(-1)[0]
        return E(f(self.e, E(o).e))
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: b + a)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._b(o, lambda a, b: b - a)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._b(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._b(o, lambda a, b: b / a)
    def __neg__(self): return E(-self.e)
    def __pow__(self, n): return E(arr.mul_all([self.e] * n))
    def sqrt(self): return E(fn('sqrt', self.e))
    def cos(self): return E(fn('cos', self.e))
    def sin(self): return E(fn('sin', self.e))


class Proxy:
    "a library with some functions replaced; randomness only through the replaced ones"
    def __init__(self, base, **over): self.__dict__.update(base_=base, **over)
    def __getattr__(self, n):
        if n in ('random', 'normal', 'rand', 'randn', 'bernoulli', 'poisson', 'rand_like', 'randn_like', 'randint', 'randperm', 'multinomial', 'manual_seed', 'Generator'): raise Unsupported(f"random numbers by {n}")
        return getattr(self.base_, n)


class Draws:
    "contract of the random generators: new symbols, uniform in [0, 1) named u..., standard normal named z..."
    def __init__(self): self.n = {'u': 0, 'z': 0}
    def new(self, kind):
        self.n[kind] += 1
        return z3.Real(f"{kind}{self.n[kind]}")
    def array(self, kind, shape):
        a = np.empty(tuple(shape), dtype=object)
        for i in np.ndindex(*a.shape): a[i] = self.new(kind)
        return a


def shape_of(s): return tuple(s[0]) if len(s) == 1 and isinstance(s[0], (tuple, list, torch.Size)) else s


@contextlib.contextmanager
def world():
    D = spec.mod('torchdyn.datasets.static_datasets')
    d = Draws()
    wrap = np.frompyfunc(E, 1, 1)
    def np_rand(*s): return wrap(d.array('u', s))
    def np_randn(*s): return wrap(d.array('z', s))
    def np_linspace(a, b, n=50, **k): return wrap(np.linspace(a, b, n, **k).astype(object)) if n else np.empty(0, dtype=object)
    def t_randn(*s, **k): return Arr(d.array('z', shape_of(s)))
    def t_rand(*s, **k): return Arr(d.array('u', shape_of(s)))
    def t_zeros(*s, **k): return arr.zeros(shape_of(s))
    def Tensor(v):
        if isinstance(v, np.ndarray) and v.dtype == object:
            out = arr.obj(v.shape)
            for i in np.ndindex(*v.shape): out[i] = E(v[i]).e
            return Arr(out)
        if isinstance(v, np.ndarray): return torch.Tensor(v)
        if isinstance(v, (list, tuple)) and all(lift(q).a.size == 1 for q in v): return Arr(np.array([lift(q).a.reshape(-1)[0] for q in v], dtype=object))
        return arr.tensor(v)
    def t_linspace(a, b, n, **k):
        a, b = lift(a), lift(b)
        return arr.stack([a + (b - a) * Arr(np.array(real(0) if n == 1 else z3.RealVal(f"{i}/{n - 1}"), dtype=object)) for i in range(n)])
    class Normal:
        def __init__(self, loc, scale=None, *a, **k): self.loc, self.scale = loc, scale
        def sample(self, sample_shape=()):
            loc, scale = lift(self.loc), lift(self.scale)
            shp = tuple(sample_shape) + np.broadcast_shapes(loc.a.shape, scale.a.shape)
            return loc + scale * Arr(d.array('z', shp))
        rsample = sample
    def normal_(self, mean=0, std=1, **k):
        self._write(Ellipsis, lift(mean) + lift(std) * Arr(d.array('z', self.a.shape)))
        return self
    def uniform_(self, a=0, b=1, **k):
        self._write(Ellipsis, lift(a) + (lift(b) - lift(a)) * Arr(d.array('u', self.a.shape)))
        return self
    def empty(*s, **k): return arr.zeros(shape_of(s))
    nump = Proxy(np, random=Proxy(np.random, rand=np_rand, randn=np_randn), linspace=np_linspace)
    tor = Proxy(torch, randn=t_randn, rand=t_rand, zeros=t_zeros, empty=empty, linspace=t_linspace, Tensor=Tensor)
    Arr.normal_, Arr.uniform_, Arr.long = normal_, uniform_, lambda self: self
    try:
        with spec.replaced(D, np=nump, torch=tor, zeros=t_zeros, Tensor=Tensor, Normal=Normal), arr.fresh(): yield D, d
    finally:
        del Arr.normal_, Arr.uniform_, Arr.long


NOISE = z3.Real('noise')


def sym(e, env):
    "sympy expression with sine and cosine meaning the real functions"
    x = poly.to_sympy(e, env)
    for name in ('cos', 'sin'): x = x.replace(lambda t: t.func.__name__ == name and not isinstance(t, (sympy.cos, sympy.sin)), lambda t: getattr(sympy, name)(t.args[0]))
    return x


def small(x):
    "an expression whose coefficients are zero up to rounding"
    x = sympy.expand(sympy.expand_trig(sympy.N(x, 30)) if x.has(sympy.cos, sympy.sin) and not x.free_symbols else sympy.N(sympy.expand(x), 30))
    terms = x.as_coefficients_dict()
    return all(abs(c) < EPS for c in terms.values())


def labels(y):
    out = []
    for e in (y.a.flat if type(y) is Arr else y.tolist()):
        v = z3.simplify(e) if isinstance(e, z3.ExprRef) else e
        if isinstance(v, z3.ExprRef):
            if not z3.is_rational_value(v): raise Unsupported("symbolic label")
            v = v.numerator_as_long() / v.denominator_as_long()
        out.append(int(v) if v == int(v) else v)
    return out


def split(x, noise, env):
    "the noise-free part and the perturbation per unit of noise; None if the noise enters in another way"
    nz = env.get('noise')
    if nz is None: return x, sympy.Integer(0)
    p = sympy.expand(x)
    base, rest = p.coeff(nz, 0), p.coeff(nz, 1)
    return (base, rest) if sympy.expand(p - base - nz * rest) == 0 else (None, None)


def draw_of(p, kind):
    "the perturbation is one draw of the given kinds"
    return p.is_Symbol and p.name[0] in kind and p.name[1:].isdigit()


def moons(s, tier):
    for n in (1, 2, 3, 4, 5, 7, 8) + ((12, 13) if tier == 'thorough' else ()):
        for noise in (None, 'noise'):
            w = 'generate_moons'
            with world() as (D, d): X, y = D.generate_moons(n, Arr(np.array(NOISE, dtype=object)) if noise == 'x' else (E(NOISE) if noise else None))
            X, l = lift(X), labels(y)
            s.check(tuple(X.a.shape) == (n, 2) and len(l) == n, "the documented number of points, one label each", where=w)
            s.check(set(l) <= {0, 1} and abs(l.count(0) - l.count(1)) <= 1, "two classes of equal size", where=w)
            for i in range(n):
                env = {}
                (bx, px), (by, py) = [split(sym(arr.resolve(X.a[i, k]), env), NOISE, env) for k in range(2)]
                if bx is None or by is None: s.check(False, "noise perturbs a point by no more than its scale", where=w); continue
                s.check(all(draw_of(p, 'u') for p in (px, py)) if noise else px == py == 0, "noise perturbs a point by no more than its scale", where=w)
                if bx.free_symbols or by.free_symbols: s.check(False, "without noise every point lies on the circle of its label", where=w); continue
                x_, y_ = float(bx), float(by)
                ok = abs(x_ ** 2 + y_ ** 2 - 1) < EPS and y_ > -EPS if l[i] == 0 else abs((x_ - 1) ** 2 + (y_ - .5) ** 2 - 1) < EPS and y_ < .5 + EPS
                s.check(ok, "without noise every point lies on the circle of its label", where=w)
    s.cover('generated')


def spirals(s, tier):
    for n in (1, 2, 3, 5):
        w = 'generate_spirals'
        with world() as (D, d): X, y = D.generate_spirals(n, E(NOISE))
        X, l = lift(X), labels(y)
        s.check(tuple(X.a.shape) == (2 * n, 2) and len(l) == 2 * n and l.count(0) == l.count(1) == n, "the documented number of points on each arm, one label each", where=w)
        if tuple(X.a.shape) != (2 * n, 2): continue
        used = set()
        for i in range(2 * n):
            env = {}
            (bx, px), (by, py) = [split(sym(arr.resolve(X.a[i, k]), env), NOISE, env) for k in range(2)]
            sg = -1 if l[i] == 0 else 1
            s.check(bx is not None and by is not None and all(draw_of(p, 'u') or draw_of(-p, 'u') for p in (px, py)), "noise perturbs a point by no more than its scale", where=w)
            if bx is None or by is None: continue
            found = False
            for c in bx.atoms(sympy.cos):
                a = c.args[0]
                # the radius is the angle: (-a cos a, a sin a) on the first arm, mirrored through the origin on the second
                if small(bx - sg * a * sympy.cos(a)) and small(by + sg * a * sympy.sin(a)):
                    u = a.free_symbols
                    k = sympy.N(a ** 2 / list(u)[0]) if len(u) == 1 else None
                    found = k is not None and not k.free_symbols and abs(float(k) - (780 * 2 * math.pi / 360) ** 2) < EPS * 200 and list(u)[0].name[0] == 'u'
            s.check(found, "without noise every point lies on the arm of its label, mirrored for the other one", where=w)
    s.cover('generated')


def on_sphere(s, xs, radius, w, what):
    env = {}
    x = [split(sym(arr.resolve(e), env), NOISE, env) for e in xs]
    if any(b is None for b, p in x): s.check(False, "noise perturbs a point by no more than its scale", where=w); return None
    r = poly.to_sympy(radius, env)
    s.check(sympy.cancel(sympy.together(sum(b ** 2 for b, p in x) - r ** 2)) == 0, what, where=w)
    return [p for b, p in x]


def spheres(s, tier):
    inner, outer = z3.Real('inner'), z3.Real('outer')
    for dim in (1, 2, 3, 4):
        with world() as (D, d): v = D.randnsphere(dim, Arr(np.array(outer, dtype=object)))
        s.check(tuple(v.shape) == (dim,), "a point of the dimension", where='randnsphere')
        on_sphere(s, list(lift(v).a.flat), outer, 'randnsphere', "a point of the sphere of the radius")
        for n in (1, 2, 3, 4, 5):
            w = 'generate_concentric_spheres'
            mk = lambda e: Arr(np.array(e, dtype=object))
            with world() as (D, d): X, y = D.generate_concentric_spheres(n, mk(NOISE), dim, mk(inner), mk(outer))
            l = labels(y)
            s.check(tuple(X.shape) == (n, dim) and len(l) == n, "the documented number of points, one label each", where=w)
            s.check(set(l) <= {0, 1} and abs(l.count(0) - l.count(1)) <= 1, "two classes of equal size", where=w)
            seen = set()
            for i in range(n):
                p = on_sphere(s, list(X.a[i]), inner if l[i] == 1 else outer, w, "without noise every point lies on the sphere of its label")
                if p is None: continue
                s.check(all(draw_of(q, 'z') for q in p) and len(set(p)) == dim and not set(p) & seen, "noise is one normal draw of its scale per coordinate", where=w)
                seen |= set(p)
    s.cover('generated')


def gaussians(s, tier, spiral):
    a, b, sa, sb = z3.Reals('ra rb sa sb')
    mk = lambda e: Arr(np.array(e, dtype=object))
    for n, m, dim in itertools.product((1, 2, 3), (1, 2, 3, 5), (2, 3, 4)):
        loops = (4, 3) if spiral else (m,)
        for loop in loops:
            w = 'generate_gaussians_spiral' if spiral else 'generate_gaussians'
            with world() as (D, d):
                if spiral: X, y = D.generate_gaussians_spiral(n, m, loop, dim, mk(a), mk(b), mk(sa), mk(sb), mk(NOISE))
                else: X, y = D.generate_gaussians(n, m, dim, mk(a), mk(sa), mk(NOISE))
            l = labels(y)
            s.check(tuple(X.shape) == (n * m, dim) and len(l) == n * m, "the documented number of points, one label each", where=w)
            s.check(all(l.count(k) == n for k in range(m)), "as many points of every label", where=w)
            centers, seen, shifts = {}, set(), {}
            for i in range(n * m):
                env, c = {}, []
                for k in range(dim):
                    base, p = split(sym(arr.resolve(X.a[i, k]), env), NOISE, env)
                    if base is None: s.check(False, "noise perturbs a point by no more than its scale", where=w); return
                    s.check(draw_of(p, 'z'), "noise is a normal draw of its scale", where=w)
                    zs = [q for q in base.free_symbols if q.name[0] == 'z']
                    ok = len(zs) == 1 and zs[0] not in seen and zs[0] != p
                    s.check(ok, "every coordinate of every point is drawn for itself", where=w)
                    if not ok: c.append(sympy.Integer(0)); continue
                    seen.add(zs[0])
                    frac = sympy.Rational(l[i], m - 1) if spiral and m > 1 else 0
                    std = env_sym('sa', env) + ((env_sym('sb', env) - env_sym('sa', env)) * frac if spiral else 0)
                    s.check(small(sympy.expand(base).coeff(zs[0], 1) - std), "with the standard deviation of its cluster", where=w)
                    c.append(sympy.expand(base).coeff(zs[0], 0))
                rad = env_sym('ra', env) + ((env_sym('rb', env) - env_sym('ra', env)) * frac if spiral else 0)
                key = [str(sympy.N(q, 12)) for q in c]
                s.check(centers.setdefault(l[i], (key, c, rad))[0] == key, "one centre per label", where=w)
                s.check(all(small(q) for q in c[2:]), "zero centre in the further coordinates", where=w)
            # equal angles: every centre is the one before it turned by a full turn over the number per loop, at its radius
            unit = {}
            for k, (key, c, rad) in centers.items():
                v = []
                for q in c[:2]:
                    poly_ = sympy.Poly(sympy.N(sympy.expand(q), 30), *[t for t in sorted(rad.free_symbols, key=str)])
                    lead = sympy.Poly(rad, *[t for t in sorted(rad.free_symbols, key=str)])
                    g = next((mon, co) for mon, co in lead.terms() if co != 0)
                    co = poly_.coeff_monomial(g[0]) / g[1]
                    s.check(small(sympy.expand(q) - co * rad), "centres are on the ring, at the radius of their cluster", where=w)
                    v.append(float(co))
                unit[k] = v
                s.check(abs(v[0] ** 2 + v[1] ** 2 - 1) < EPS, "centres are on the ring, at the radius of their cluster", where=w)
            th = 2 * math.pi / loop
            for k in range(1, m):
                u, v = unit[k - 1], unit[k]
                s.check(abs(u[0] * math.cos(th) - u[1] * math.sin(th) - v[0]) < EPS and abs(u[0] * math.sin(th) + u[1] * math.cos(th) - v[1]) < EPS, "centres are at equal angles", where=w)
    s.cover('generated')


def env_sym(name, env): return poly.to_sympy(z3.Real(name), env)


def dispatch(s):
    D = spec.mod('torchdyn.datasets.static_datasets')
    names = dict(moons='generate_moons', spirals='generate_spirals', spheres='generate_concentric_spheres', gaussians='generate_gaussians', gaussians_spiral='generate_gaussians_spiral', diffeqml='generate_diffeqml')
    for kind, f in names.items():
        calls, out = [], object()
        def stub(*a, **k): calls.append((a, k)); return out
        kw = dict(option=object())
        n = object()
        with spec.replaced(D, **{f: stub}): got = D.ToyDataset().generate(n, kind, **kw)
        ok = len(calls) == 1 and got is out and calls[0][1].get('option') is kw['option'] and (calls[0][1].get('n_samples') is n or calls[0][0][:1] == (n,)) and len(calls[0][1]) + len(calls[0][0]) == 2
        s.check(ok, "a dataset's name denotes its generator, which gets the arguments", where='ToyDataset.generate')


def harnesses(tier):
    b = 'up to 13 samples, 5 clusters, 4 dimensions'
    yield dict(name='moons', direct=lambda s: moons(s, tier), covers=['generated'], bounded=b)
    yield dict(name='spirals', direct=lambda s: spirals(s, tier), covers=['generated'], bounded=b)
    yield dict(name='spheres', direct=lambda s: spheres(s, tier), covers=['generated'], bounded=b)
    yield dict(name='gaussians', direct=lambda s: gaussians(s, tier, False), covers=['generated'], bounded=b)
    yield dict(name='gaussians on a spiral', direct=lambda s: gaussians(s, tier, True), covers=['generated'], bounded=b)
    yield dict(name='datasets by name', direct=dispatch, covers=[])
