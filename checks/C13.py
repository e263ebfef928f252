import torch, z3
from vc import core, spec, arr
from vc.core import real
from vc.arr import Arr, fn, same, lift


class Probe(torch.nn.Module):
    "an arbitrary field whose submodules look at the depth variable, nested to any depth"
    class Deep(torch.nn.Module):
        def __init__(self, with_t, child=None):
            super().__init__()
            if with_t: self.t = None
            if child is not None: self.child = child
        def forward(self, x): return x
    def __init__(self, out):
        super().__init__()
        D = self.Deep
        self.a, self.b = D(True, D(False, D(True))), torch.nn.Sequential(D(False), torch.nn.ModuleList([D(True, D(True))]))
        self.t = None
        self.out, self.calls = out, []
    def forward(self, t, x, args={}):
        self.calls.append((t, x, args, [m.t for m in self.modules() if hasattr(m, 't')], [m for m in self.modules() if type(m) is self.Deep and not hasattr(m, 't')]))
        flat = [lift(t).a.reshape(-1)[0]] + list(x.a.flat)
        return Arr.of((x.shape[0], self.out), lambda *i: fn('f' + '_'.join(map(str, i)), *flat))


def wrapped(s):
    D = spec.mod('torchdyn.core.defunc')
    w = 'DEFunc.forward'
    for batch in (1, 2, 3):
        for order in (1, 2, 3, 4):
            for d in (1, 2):
                for running in (None, 'vector', 'column'):
                    for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
                        if running is None and sens != 'autograd' and d > 1: continue
                        n = d * order
                        aug = running is not None and sens == 'autograd'
                        x = Arr.sym('x', batch, n + aug, tag='input')
                        t = Arr.sym('t', tag='input')
                        p = Probe(d)
                        f = D.DEFunc(p, order)
                        seen = []
                        def loss(t_, x_):
                            seen.append((t_, x_))
                            r = Arr.of((batch,), lambda i: fn(f'l{i}', t.a[()], *x_.a.flat))
                            return r if running == 'vector' else r[:, None]
                        if running is not None: f.integral_loss = loss
                        f.sensitivity = sens
                        args = {'k': object()}
                        if batch == 2:      # modules which have been used elsewhere before
                            for q, m in enumerate(m for m in p.modules() if hasattr(m, 't')): m.t = Arr.sym('old', tag='input') if q % 2 else 0.25
                        before = f.nfe
                        out = f(t, x, args=args) if batch > 1 else f(t, x, args)
                        s.check(f.nfe == before + 1, "one evaluation is counted", where=w)
                        s.check(len(p.calls) == 1, "the user's field is evaluated once", where=w)
                        ct, cx, ca, ts, others = p.calls[0]
                        dyn = x[:, 1:] if aug else x
                        s.check(ct is t and all(u is t for u in ts) and len(ts) == 5, "field and submodules which ask for it get that very time, before the field is evaluated", where=w)
                        s.check(ca is args, "the caller's arguments are passed on", where=w)
                        s.check(same(cx, dyn), "the field gets the state without the running loss", where=w)
                        if aug: s.check(len(seen) == 1 and seen[0][0] is t and same(seen[0][1], dyn), "the running loss gets time and the remaining components", where=w)
                        flat = [t.a[()]] + list(dyn.a.flat)
                        F = Arr.of((batch, d), lambda *i: fn('f' + '_'.join(map(str, i)), *flat))
                        ref = arr.cat([dyn[:, d:], F], 1) if order > 1 else F
                        s.check(same(out[:, 1:] if aug else out, ref), "each block of the state but the last moves with the next block, the last with the user's field", where=w)
                        if aug: s.check(same(out[:, :1], loss(t, dyn).reshape(batch, 1)), "the first component moves with the running loss of the others", where=w)
                        t2, x2 = Arr.sym('t2', tag='input'), Arr.sym('x2', batch, n + aug, tag='input')
                        f(t2, x2, args=args)
                        s.check(f.nfe == before + 2 and len(p.calls) == 2 and p.calls[1][0] is t2 and all(u is t2 for u in p.calls[1][3]) and len(p.calls[1][3]) == 5, "as they do in every later call, whatever they held before", where=w)
                        s.check(not any(hasattr(m, 't') for m in others + p.calls[1][4]), "submodules which do not ask for the time are left alone", where=w)
                        if aug: f.integral_loss, f.sensitivity = None, 'autograd'
                        g = D.DEFunc(p, order)
                        if aug: s.check(same(g(t, dyn, args), out[:, 1:]), "the remaining components move as without the running loss", where=w)


def base(s):
    D = spec.mod('torchdyn.core.defunc')
    t, x, args = object(), object(), {'a': 1}
    got = []
    class Mod(torch.nn.Module):
        def forward(self, t, x, args={}): got.append((t, x, args)); return 'value'
    class NoArgs(torch.nn.Module):
        def forward(self, t, x): got.append((t, x)); return 'value'
    class NoTime(torch.nn.Module):
        def forward(self, x): got.append((x,)); return 'value'
    for vf, has, want in ((Mod(), True, 3), (NoArgs(), True, 2), (NoTime(), False, 1)):
        f = D.DEFuncBase(vf, has_time_arg=has)
        for k in range(3):
            got.clear()
            r = f(t, x, args=args) if k else f(t, x, args)
            s.check(r == 'value' and len(got) == 1, "the field's value is returned", where='DEFuncBase.forward')
            s.check(len(got[0]) == want and all(a is b for a, b in zip(got[0], ((t, x, args) if has else (x,)))), "the arguments the field accepts are passed on", where='DEFuncBase.forward')
            s.check(f.nfe == k + 1, "every evaluation is counted", where='DEFuncBase.forward')


def harnesses(tier):
    yield dict(name="wrapper: time, orders, running loss", direct=wrapped, bounded='orders up to 4, batches up to 3, blocks of up to 2 entries')
    yield dict(name="basic wrapper", direct=base)
