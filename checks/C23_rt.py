import numpy as np
from vc.gen import *
from torchdyn.datasets import ToyDataset
from torchdyn.datasets import static_datasets as D


def seeded(c):
    k = c.rng.randrange(2 ** 31)
    torch.manual_seed(k); np.random.seed(k)
    return c.rng


def counts(c, y, n, classes, equal=True):
    c.require(len(y) == n, f"{len(y)} labels for {n} points")
    k = [int((y == i).sum()) for i in range(classes)]
    c.require(sum(k) == n, f"labels {sorted(set(y.tolist()))}")
    c.require(max(k) - min(k) <= (1 if equal else n), f"classes of sizes {k}")


def get(c, kind, n, **kw):
    if c.rng.random() < .5: return ToyDataset().generate(n, kind, **kw)
    f = dict(moons=D.generate_moons, spirals=D.generate_spirals, spheres=D.generate_concentric_spheres, gaussians=D.generate_gaussians, gaussians_spiral=D.generate_gaussians_spiral)[kind]
    return f(n_samples=n, **kw)


def noise_of(rng): return rng.choice([0., 0., 1e-3, .1])


def moons(c):
    rng = seeded(c)
    n, noise = rng.choice([1, 2, 3, 5, 8, 33, 100, 101]), noise_of(rng)
    c.note(n=n, noise=noise)
    X, y = get(c, 'moons', n, noise=noise if noise else rng.choice([None, 0.]))
    c.require(tuple(X.shape) == (n, 2), f"shape {tuple(X.shape)}")
    counts(c, y, n, 2)
    for p, l in zip(X.double(), y):
        ctr = torch.tensor([0., 0.] if l == 0 else [1., .5], dtype=F64)
        r = float((p - ctr).norm())
        c.require(abs(r - 1) <= 1.5 * noise + 1e-5, f"point {p.tolist()} of label {int(l)} at distance {r} from its centre")
        c.require(p[1] >= -1e-5 if l == 0 else p[1] <= .5 + noise + 1e-5, f"point {p.tolist()} on the wrong half of circle {int(l)}")
    if noise == 0 and n >= 5:
        for l in (0, 1):
            q = X[y == l][:, 0]
            c.require(float(q.max() - q.min()) > 1.9, "the points do not span the half circle")


def spirals(c):
    rng = seeded(c)
    n, noise = rng.choice([1, 2, 5, 50]), noise_of(rng)
    c.note(n=n, noise=noise)
    X, y = get(c, 'spirals', n, noise=noise)
    c.require(tuple(X.shape) == (2 * n, 2), f"shape {tuple(X.shape)}")
    counts(c, y, 2 * n, 2)
    X = X.double()
    for p, l in zip(X, y):
        q = p if l == 0 else -p
        best = min((float((q - torch.tensor([-math.cos(a) * a, math.sin(a) * a], dtype=F64)).abs().max()) for a in np.linspace(max(0, float(q.norm()) - 2 * noise - 1e-4), float(q.norm()) + 2 * noise + 1e-4, 401 if noise else 21)))
        c.require(best <= noise + 2e-2 * (noise > 0) + 1e-3, f"point {p.tolist()} of label {int(l)} is {best} off its arm")
        c.require(float(q.norm()) <= 780 * 2 * math.pi / 360 + 2 * noise + 1e-3, "point past the end of the arm")


def spheres(c):
    rng = seeded(c)
    n, dim, noise = rng.choice([1, 2, 3, 4, 7, 30, 31]), rng.randint(1, 6), noise_of(rng)
    ri, ro = rng.uniform(.1, 2), rng.uniform(2, 5)
    c.note(n=n, dim=dim, noise=noise, inner=ri, outer=ro)
    X, y = get(c, 'spheres', n, noise=noise, dim=dim, inner_radius=ri, outer_radius=ro)
    c.require(tuple(X.shape) == (n, dim), f"shape {tuple(X.shape)}")
    counts(c, y, n, 2)
    for p, l in zip(X.double(), y):
        r = ri if l == 1 else ro
        c.require(abs(float(p.norm()) - r) <= 7 * noise * math.sqrt(dim) + 1e-5 * r, f"point of label {int(l)} at distance {float(p.norm())} instead of {r}")
    v = D.randnsphere(dim, ro)
    c.require(tuple(v.shape) == (dim,) and abs(float(v.norm()) - ro) < 1e-4, "randnsphere")


def clusters(c, X, y, n, m, dim, centers, stds, noise):
    c.require(tuple(X.shape) == (n * m, dim), f"shape {tuple(X.shape)}")
    counts(c, y, n * m, m)
    for k in range(m):
        P = X[y == k].double()
        d = (P - centers[k]).abs().max()
        c.require(float(d) <= 7 * (stds[k] + noise) + 1e-5, f"point of cluster {k} {float(d)} off its centre (deviation {stds[k]}, noise {noise})")
        if n >= 200:
            mean = (P.mean(0) - centers[k]).abs().max()
            c.require(float(mean) <= 6 * stds[k] / math.sqrt(n) + 6 * noise + 1e-5, f"mean of cluster {k} is {float(mean)} off")
            sd = P.std(0)
            c.require(bool(((sd - stds[k]).abs() <= .35 * stds[k] + 1e-6).all()), f"deviation of cluster {k}: {sd.tolist()} instead of {stds[k]}")


def gaussians(c):
    rng = seeded(c)
    n, m, dim, noise = rng.choice([1, 2, 5, 200]), rng.randint(1, 9), rng.randint(2, 5), noise_of(rng)
    r, std = rng.uniform(.3, 5), rng.choice([1e-6, .05, .5])
    c.note(n=n, m=m, dim=dim, noise=noise, radius=r, std=std)
    X, y = get(c, 'gaussians', n, n_gaussians=m, dim=dim, radius=r, std_gaussians=std, noise=noise)
    ctr = torch.zeros(m, dim, dtype=F64)
    for k in range(m): ctr[k, 0], ctr[k, 1] = r * math.cos(2 * math.pi * (k + 1) / m), r * math.sin(2 * math.pi * (k + 1) / m)
    clusters(c, X, y, n, m, dim, ctr, [std] * m, noise)


def gaussians_spiral(c):
    rng = seeded(c)
    n, m, dim, noise, loop = rng.choice([1, 2, 5, 200]), rng.randint(1, 9), rng.randint(2, 5), noise_of(rng), rng.randint(1, 6)
    r0, r1, s0, s1 = rng.uniform(.3, 5), rng.uniform(.3, 5), rng.uniform(.01, .5), rng.uniform(.01, .5)
    c.note(n=n, m=m, dim=dim, noise=noise, loop=loop, radii=(r0, r1), stds=(s0, s1))
    X, y = get(c, 'gaussians_spiral', n, n_gaussians=m, n_gaussians_per_loop=loop, dim=dim, radius_start=r0, radius_end=r1, std_gaussians_start=s0, std_gaussians_end=s1, noise=noise)
    R, Sd = np.linspace(r0, r1, m), np.linspace(s0, s1, m)
    ctr = torch.zeros(m, dim, dtype=F64)
    for k in range(m): ctr[k, 0], ctr[k, 1] = R[k] * math.cos(2 * math.pi * (k + 1) / loop), R[k] * math.sin(2 * math.pi * (k + 1) / loop)
    clusters(c, X, y, n, m, dim, ctr, list(Sd), noise)


SCENARIOS = {'moons': Scen(moons, 60, 600), 'spirals': Scen(spirals, 30, 200), 'spheres': Scen(spheres, 60, 600), 'gaussians': Scen(gaussians, 80, 800), 'gaussians_spiral': Scen(gaussians_spiral, 80, 800)}
