from vc.gen import *
from torchdyn.core import NeuralODE
from torchdyn.nn import DepthCat, GalLinear, GalConv2d
from torchdyn.nn.galerkin import GaussianRBF, VanillaRBF, MultiquadRBF, Fourier, Polynomial, Chebychev
import torch.nn.functional as F


def make_basis(rng):
    kind = rng.choice(['GaussianRBF', 'VanillaRBF', 'MultiquadRBF', 'Fourier', 'Polynomial', 'Chebychev'])
    deg = rng.randint(1, 6)
    if kind in ('Fourier', 'Polynomial', 'Chebychev'):
        m = {'Fourier': Fourier, 'Polynomial': Polynomial, 'Chebychev': Chebychev}[kind](deg)
        cs = es = None
    else:
        adaptive, cen, sc = rng.random() < .5, rng.choice([0, 0.5, 2, -1.]), rng.choice([2, 1., .7, 5])
        m = {'GaussianRBF': GaussianRBF, 'VanillaRBF': VanillaRBF, 'MultiquadRBF': MultiquadRBF}[kind](deg, adaptive=adaptive, eps_scales=sc, centers=cen)
        cs, es = (torch.full((deg,), float(cen), dtype=F64), torch.full((deg,), float(sc), dtype=F64))
        if adaptive:
            with torch.no_grad():
                m.centers.add_(.2 * tensor(rng, (deg,), F32)); m.eps_scales.mul_(1 + .2 * tensor(rng, (deg,), F32).abs())
            cs, es = m.centers.detach().to(F64), m.eps_scales.detach().to(F64)
        else: cs = cs[:1]
    def value(s):
        n = torch.linspace(0, deg, deg).to(F64)
        if kind == 'Fourier': return torch.stack([torch.cos(s * n), torch.sin(s * n)])
        if kind == 'Polynomial': return (s ** n)[None]
        if kind == 'Chebychev': return torch.stack([torch.cos(k * torch.acos(s)) if abs(s) <= 1 else torch.special.chebyshev_polynomial_t(s, k) for k in range(deg)]).reshape(1, -1)
        r = (s - cs).norm()
        if kind == 'VanillaRBF': return (r * n / es)[None]
        if kind == 'MultiquadRBF': return (1 + torch.sqrt(1 + (r * n / es) ** 2))[None]
        return torch.exp(-(r * (n - cs) / es) ** 2)[None]
    return kind, deg, m, value


def weights(c, phi): return torch.einsum('pki,ik->p', c, phi)


def prepare(rng, m):
    with torch.no_grad():
        m.coeffs.copy_(tensor(rng, tuple(m.coeffs.shape), F32, .5))
        for q in ('dilation', 'shift'):
            if isinstance(getattr(m, q), nn.Parameter): getattr(m, q).add_(rng.uniform(-.3, .3))
    if isinstance(m.expfunc, Polynomial) and float(m.dilation) * .05 + float(m.shift) <= 0:   # fractional powers need a positive depth
        with torch.no_grad(): m.shift.abs_()
    return m.coeffs.detach().to(F64), m.dilation.detach().to(F64), m.shift.detach().to(F64)


def linear(c):
    rng = c.rng
    kind, deg, b, value = make_basis(rng)
    fi, fo, bias = rng.randint(1, 4), rng.randint(1, 4), rng.random() < .6
    m = GalLinear(fi, fo, bias=bias, expfunc=b, dilation=rng.random() < .6, shift=rng.random() < .6)
    C, d, o = prepare(rng, m)
    c.note(basis=kind, deg=deg, fin=fi, fout=fo, bias=bias, dilation=float(d), shift=float(o))
    again = []
    for k in range(3):
        t = torch.tensor(rng.uniform(.05, .95), dtype=F32)
        x = tensor(rng, (rng.randint(1, 4), fi), F32)
        inp = torch.cat([x, t.expand(len(x), 1)], 1)
        out = m(inp)
        again.append((inp, out.detach().clone()))
        W = weights(C, value(t.to(F64) * d + o))
        ref = x.to(F64) @ W[:fi * fo].reshape(fo, fi).T + (W[fi * fo:] if bias else 0)
        close(out, ref, 3e-5 * 2 ** deg, 'output')
        if kind != 'Chebychev' or True:
            w = tensor(rng, tuple(out.shape), F32)
            g, = torch.autograd.grad((out * w).sum(), m.coeffs, retain_graph=True)
            gW = (w.to(F64).T @ x.to(F64)).reshape(-1)
            if bias: gW = torch.cat([gW, w.to(F64).sum(0)])
            close(g, torch.einsum('p,ik->pki', gW, value(t.to(F64) * d + o)), 1e-4 * 2 ** deg, 'gradient of the coefficients')
    for inp, out in again: close(m(inp), out, 1e-6, 'output of an earlier input, asked for again')


def conv(c):
    rng = c.rng
    kind, deg, b, value = make_basis(rng)
    ic, oc, ks = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 3)
    stride, pad, bias = rng.randint(1, 2), rng.randint(0, 2), rng.random() < .6
    m = GalConv2d(ic, oc, kernel_size=ks, stride=stride, padding=pad, bias=bias, expfunc=b)
    C, d, o = prepare(rng, m)
    c.note(basis=kind, deg=deg, channels=(ic, oc), kernel=ks, stride=stride, padding=pad, bias=bias)
    again = []
    for k in range(2):
        t = torch.tensor(rng.uniform(.05, .95), dtype=F32)
        x = tensor(rng, (rng.randint(1, 3), ic, rng.randint(3, 5), rng.randint(3, 5)), F32)
        inp = torch.cat([x, t.expand(len(x), 1, *x.shape[2:])], 1)
        out = m(inp)
        again.append((inp, out.detach().clone()))
        W = weights(C, value(t.to(F64) * d + o))
        n = oc * ic * ks * ks
        ref = F.conv2d(x.to(F64), W[:n].reshape(oc, ic, ks, ks), W[n:] if bias else None, stride=stride, padding=pad)
        close(out, ref, 1e-4 * 2 ** deg, 'output')
    for inp, out in again: close(m(inp), out, 1e-6, 'output of an earlier input, asked for again')


def within(c):
    "inside a model, behind a depth layer"
    rng = c.rng
    kind, deg, b, value = make_basis(rng)
    d = rng.randint(1, 3)
    g = GalLinear(d, d, expfunc=b)
    C, dil, sh = prepare(rng, g)
    m = NeuralODE(nn.Sequential(DepthCat(1), g), 'rk4', sensitivity='autograd')
    x0, ts = tensor(rng, (2, d), F32), torch.linspace(.1, .9, rng.choice([2, 5, 9]))
    c.note(basis=kind, deg=deg, d=d)
    def f(t, x):
        W = weights(C, value(t.to(F64) * dil + sh))
        return x @ W[:d * d].reshape(d, d).T + W[d * d:]
    te, sol = m(x0, ts)
    close(sol, ref_fixed(f, x0.to(F64), ts.to(F64), 'rk4'), 1e-3 * 2 ** deg, 'trajectory')


SCENARIOS = {'linear': Scen(linear, 150, 2000), 'conv': Scen(conv, 60, 800), 'within': Scen(within, 25, 300)}
