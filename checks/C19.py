import itertools, math, torch
from vc import core, spec, arr, values as V
from vc.core import Unsupported, real
from vc.arr import Arr, fn, same, lift


def scalar(a): return lift(a).a.reshape(-1)[0]


class Basis(torch.nn.Module):
    "an arbitrary basis"
    def __init__(self, deg, n_eig): super().__init__(); self.deg, self.n_eig, self.seen = deg, n_eig, []
    def forward(self, n_range, s):
        self.seen.append((n_range, s))
        return [Arr.of((self.deg,), lambda k: fn(f'phi{i}_{k}', scalar(s))) for i in range(self.n_eig)]


def expansion(coeffs, basis):
    "w_p = sum_i sum_k c[p, k, i] phi_i(k)"
    P, D, E = coeffs.shape
    return [arr.add_all([coeffs.a[p, k, i] * basis[i].a[k] for i in range(E) for k in range(D)]) for p in range(P)]


def check_basis(s, b, t, dil, shift, w):
    n_range, at = b.seen[-1]
    s.check(same(lift(at).reshape(1), Arr(t.a.reshape(1) * dil.a + shift.a)), "the basis is evaluated at the dilated and shifted depth", where=w)
    s.check(lift(n_range).shape == (b.deg,) and all(abs(float(a) - float(e)) < 1e-6 * (1 + b.deg) for a, e in zip(n_range, torch.linspace(0, b.deg, b.deg))), "for the configured degrees", where=w)
    return [Arr.of((b.deg,), lambda k: fn(f'phi{i}_{k}', t.a[()] * dil.a[0] + shift.a[0])) for i in range(b.n_eig)]


def prepare(layer, dilation, shift, k=''):
    c = Arr.sym('c' + k, *layer.coeffs.shape, rg=True)
    c.param = True
    layer._parameters['coeffs'] = c
    def one(name, given, default):
        if not given: return lift(torch.tensor([default]))
        a = Arr.sym(name + k, 1, rg=True)
        a.param = True
        layer._parameters[name] = a
        return a
    return c, one('dilation', dilation, 1.), one('shift', shift, 0.)


def linear(s, tier):
    G = spec.mod('torchdyn.nn.galerkin')
    w = 'GalLinear.forward'
    for fi, fo, deg, eig, bias, dil, sh, batch in itertools.product((1, 2), (1, 2), (1, 2, 3), (1, 2, 3), (True, False), (True, False), (True, False), (1, 2)):
        if dil != sh and (fi, fo) != (1, 2): continue
        b = Basis(deg, eig)
        m = G.GalLinear(fi, fo, bias=bias, expfunc=b, dilation=dil, shift=sh)
        s.check(all(p.requires_grad for p in m.parameters()) and len(list(m.parameters())) == 1 + dil + sh, "coefficients, and dilation and shift if asked for, are trainable parameters", where='GalLinear')
        with arr.fresh():
            for call in range(3):
                c, d, o = prepare(m, dil, sh, str(call // 2))
                t = Arr.sym(f't{call}')
                x = Arr.sym(f'x{call}', batch, fi)
                inp = arr.cat([x, t.expand(batch, 1)], 1)
                inp.tag = 'input'
                out = m(inp)
                phi = check_basis(s, b, t, d, o, w)
                W = expansion(c, phi)
                ref = Arr.of((batch, fo), lambda r, j: arr.add_all([x.a[r, i] * W[j * fi + i] for i in range(fi)] + ([W[fi * fo + j]] if bias else [])))
                s.check(same(out, ref), "the linear map whose weights and bias expand in the basis at the depth, applied to the input without depth", where=w)
                s.check(bool(out.rg), "differentiable", where=w)


def conv(s, tier):
    G = spec.mod('torchdyn.nn.galerkin')
    w = 'GalConv2d.forward'
    for ic, oc, ks, deg, eig, bias, stride, pad in itertools.product((1, 2), (1, 2), (1, 2), (1, 2), (1, 2), (True, False), (1, 2), (0, 1)):
        if ic == oc == 2 and ks == 2 and (eig == 2 or stride == 2): continue
        b = Basis(deg, eig)
        m = G.GalConv2d(ic, oc, kernel_size=ks, stride=stride, padding=pad, bias=bias, expfunc=b)
        batch, h, wd = 2 if ks == 1 else 1, 2, 3
        with arr.fresh():
            for call in range(2):
                c, d, o = prepare(m, True, True)
                t = Arr.sym(f't{call}')
                x = Arr.sym(f'x{call}', batch, ic, h, wd)
                inp = arr.cat([x, t.expand(batch, 1, h, wd)], 1)
                inp.tag = 'input'
                out = m(inp)
                W = expansion(c, check_basis(s, b, t, d, o, w))
                H, Wd = (h + 2 * pad - ks) // stride + 1, (wd + 2 * pad - ks) // stride + 1
                def term(r, j, y, z):
                    e = [W[oc * ic * ks * ks + j]] if bias else []
                    for i, u, v in itertools.product(range(ic), range(ks), range(ks)):
                        Y, Z = y * stride + u - pad, z * stride + v - pad
                        if 0 <= Y < h and 0 <= Z < wd: e.append(x.a[r, i, Y, Z] * W[((j * ic + i) * ks + u) * ks + v])
                    q = arr.add_all(e)
                    return real(0) if q is None else q
                s.check(same(out, Arr.of((batch, oc, H, Wd), term)), "the convolution whose weights and bias expand in the basis at the depth, applied to the input without depth", where=w)


def bases(s, tier):
    G = spec.mod('torchdyn.nn.galerkin')
    sq = V.SQRT
    for deg in (1, 2, 3, 4, 5):
        rng, whole = Arr.sym('n', deg), torch.linspace(0, deg, deg)
        t = Arr.sym('s', 1)
        e = t.a[0]
        with arr.fresh():
            for name in ('GaussianRBF', 'VanillaRBF', 'MultiquadRBF'):
                for how in ('default', 'scalar', 'adaptive'):
                    with arr.fresh(False): m = getattr(G, name)(deg) if how == 'default' else getattr(G, name)(deg, adaptive=how == 'adaptive', eps_scales=3, centers=2)
                    cs, es = ([real(0)] * deg, [real(2)] * deg) if how == 'default' else ([real(2)] * deg, [real(3)] * deg)
                    if how == 'adaptive':
                        s.check({n: tuple(p.shape) for n, p in m.named_parameters()} == {'centers': (deg,), 'eps_scales': (deg,)} and all(bool((p == v).all()) for p, v in ((m.centers, 2), (m.eps_scales, 3))), "centers and scales start at the configured values and are trainable", where=name)
                        C, E = Arr.sym('centers', deg, rg=True), Arr.sym('scales', deg, rg=True)
                        C.param = E.param = True
                        m._parameters['centers'], m._parameters['eps_scales'] = C, E
                        cs, es = list(C.a), list(E.a)
                    out = m(rng, t)
                    s.check(len(out) == m.n_eig == 1 and m.deg == deg, "one function per degree", where=name)
                    dist = arr.add_all([(e - c) * (e - c) for c in (cs if how == 'adaptive' else cs[:1])])
                    n = list(rng.a)
                    # in terms of the squared radius, as sqrt(r2) ** 2 = r2
                    got = lift(out[0])
                    if got.shape != (deg,): s.check(False, "one function per degree", where=name); continue
                    for k in range(deg):
                        g = got.a[k]
                        r = V.esqrt(dist)
                        if name == 'VanillaRBF': ref = r * n[k] / es[k]
                        elif name == 'MultiquadRBF': ref = 1 + V.esqrt(1 + (r * n[k] / es[k]) * (r * n[k] / es[k]))
                        else:
                            u = r * ((n[k] - cs[k]) / es[k])
                            ref = V.RPOW(real(math.e), -(u * u))
                        s.check(equal_roots(g, ref), "the published formula with the configured centers and scales", where=name)
            f = G.Fourier(deg)
            out = f(rng, t)
            s.check(f.n_eig == 2 == len(out) and same(lift(out[0]), Arr.of((deg,), lambda k: fn('cos', e * rng.a[k]))) and same(lift(out[1]), Arr.of((deg,), lambda k: fn('sin', e * rng.a[k]))), "cosines and sines of multiples of the depth", where='Fourier')
            p = G.Polynomial(deg)
            out = p(rng, t)
            s.check(p.n_eig == 1 == len(out) and same(lift(out[0]), t ** rng), "powers of the depth", where='Polynomial')
            for full in (torch.arange(deg + 1.), whole):
                ch = G.Chebychev(deg)
                out = ch(full, t)
                n = int(full[-1])
                want = [real(1), e]
                while len(want) < max(n, 1): want.append(2 * e * want[-1] - want[-2])
                want = want[:1] if n == 0 else want[:max(n, 2)]
                s.check(ch.n_eig == 1 == len(out) and same(lift(out[0]), Arr.of((len(want),), lambda k: want[k])), "Chebyshev polynomials", where='Chebychev')


def equal_roots(a, b):
    from vc import poly
    a, b = arr.resolve(a), arr.resolve(b)
    if a.decl().name() == 'rpow' == b.decl().name(): return equal_roots(a.arg(0), b.arg(0)) and equal_roots(a.arg(1), b.arg(1))
    return poly.equal(a, b)


def harnesses(tier):
    yield dict(name="linear layer with an arbitrary basis", direct=lambda s: linear(s, tier), bounded='up to 2 features, degree 3 and 3 families of functions')
    yield dict(name="convolution with an arbitrary basis", direct=lambda s: conv(s, tier), bounded='up to 2 channels, kernels of up to 2, degree 2')
    yield dict(name="bases", direct=lambda s: bases(s, tier), bounded='degree up to 5')
