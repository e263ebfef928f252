from vc.gen import *
from torchdyn.core import NeuralODE, ODEProblem
from torchdyn.core.utils import standardize_vf_call_signature
from torchdyn.numerics import odeint

FORMS = ['(x)', '(t, x)', '(t, x, args)', '(t, x, args={})', '(t, x, *, args={})', '(t, x, **kw)', '(t, x, *rest)', '(t, x, scale=.5)', '(x, args={})', '(x, scale=.5)', '(x, *, args={})']
KINDS = ['function', 'lambda', 'module', 'nested module', 'sequential', 'callable object', 'bound method', 'subclass']


class Net(nn.Module):
    def __init__(self, rng, d):
        super().__init__()
        self.l1, self.l2 = nn.Linear(d, 4).double(), nn.Linear(4, d).double()
        g = torch.Generator().manual_seed(rng.randrange(2 ** 31))
        for p in self.parameters():
            with torch.no_grad(): p.copy_(torch.randn(p.shape, generator=g, dtype=F64) * .5)
    def forward(self, x): return self.l2(torch.tanh(self.l1(x)))


def make(rng, form, kind, net):
    names = [p.split('=')[0].strip() for p in form[1:-1].split(',')]
    body = "net(x)" + (" * (1 + .3 * t)" if 't' in names else '') + (" * scale" if 'scale' in names else '')
    if 'args' in names: body += " + args.get('c', 0.)"
    if '**kw' in names: body += " + (kw.get('args') or {}).get('c', 0.)"
    ns = dict(net=net, nn=nn)
    if kind == 'function': exec(f"def f{form}: return {body}", ns); return ns['f']
    if kind == 'lambda': exec(f"f = lambda {form[1:-1]}: {body}", ns); return ns['f']
    if kind in ('callable object', 'bound method'):
        exec(f"class C:\n def __call__(self, {form[1:]}: return {body}\n def m(self, {form[1:]}: return {body}", ns)
        return ns['C']() if kind == 'callable object' else ns['C']().m
    if kind == 'sequential': return nn.Sequential(net, nn.Identity())
    exec(f"class M(nn.Module):\n def __init__(self):\n  super().__init__(); self.net = net\n def forward(self, {form[1:]}: return {body.replace('net(', 'self.net(')}", ns)
    M = ns['M']
    if kind == 'subclass': M = type('Sub', (M,), {})
    m = M()
    if kind == 'nested module': m.more = nn.ModuleList([nn.Sequential(nn.Linear(1, 1).double())])
    return m


def meaning(form, kind, net):
    def g(t, x, c=0.):
        r = net(x)
        if kind == 'sequential': return r
        if '(t' in form: r = r * (1 + .3 * t)
        if 'scale' in form: r = r * .5
        if 'args' in form or 'kw' in form: r = r + c
        return r
    return g


def signatures(c):
    rng = c.rng
    form, kind, d = rng.choice(FORMS), rng.choice(KINDS), rng.randint(1, 3)
    if kind == 'sequential': form = '(x)'
    net = Net(rng, d)
    f, ref = make(rng, form, kind, net), meaning(form, kind, net)
    how = rng.choice(['neural', 'problem', 'standard', 'defunc', 'functional'])
    is_module = isinstance(f, nn.Module)
    if form == '(t, x, args)' and (how == 'functional' or how == 'problem' and is_module): how = 'neural'
    if how == 'functional' and '(x' in form: how = 'standard'
    c.note(form=form, kind=kind, how=how)
    t, x = torch.tensor(rng.uniform(-1, 2), dtype=F64), tensor(rng, (rng.randint(1, 3), d))
    val = rng.uniform(-1, 1)
    if how in ('standard', 'defunc'):
        v = standardize_vf_call_signature(f, defunc_wrap=how == 'defunc')
        close(v(t, x) if form != '(t, x, args)' or v is not f else v(t, x, {}), ref(t, x), 1e-12, 'derivative')
        if how == 'defunc' or v is not f or 'args' in form or 'kw' in form: close(v(t, x, args={'c': val}), ref(t, x, val), 1e-12, 'derivative with extra arguments')
        m = v
    else:
        ts = grid(rng, span=1.)
        sens = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']) if is_module else 'autograd'
        c.note(sens=sens)
        opt = {} if is_module else dict(optimizable_params=tuple(net.parameters()))
        solver = rng.choice(['euler', 'rk4', 'tsit5' if len(ts) > 4 else 'rk4'])
        k = dict(solver=str_solver(solver), sensitivity=sens, atol=1e-7, rtol=1e-7)
        if how == 'functional': te, sol = odeint(f, x, ts, str_solver(solver), atol=1e-7, rtol=1e-7)
        else:
            m = (NeuralODE if how == 'neural' else ODEProblem)(f, **k, **opt)
            te, sol = m(x, ts)
        te2, want = odeint(lambda t, x: ref(t, x), x, ts, str_solver(solver), atol=1e-7, rtol=1e-7)
        same_times(te, te2)
        close(sol, want, 1e-7, 'solution')
        if how != 'functional' and (sens == 'autograd' or is_module):
            for p in net.parameters(): p.grad = None
            sol[-1].pow(2).sum().backward()
            for n, p in net.named_parameters(): c.require(p.grad is not None and float(p.grad.abs().sum()) > 0, f"parameter {n} gets no gradient")
    if is_module and how != 'functional':
        mine = list(m.parameters())
        for n, p in f.named_parameters(): c.require(any(p is q for q in mine), f"parameter {n} is not registered")


def declared(c):
    "parameters declared for a field which is not a module"
    rng = c.rng
    n = rng.choice([1, 2, 5, 11, 13, 25])
    ps = [torch.nn.Parameter(tensor(rng, rng.choice([(1,), (2,), (2, 3)])) + .1) for _ in range(n)]
    sens, cls = rng.choice(['autograd', 'adjoint', 'interpolated_adjoint']), rng.choice([ODEProblem, NeuralODE])
    c.note(n=n, sens=sens, cls=cls.__name__)
    m = cls(lambda t, x: sum(p.sum() for p in ps) / n * x, str_solver('rk4'), sensitivity=sens, optimizable_params=rng.choice([tuple, list, iter])(ps))
    mine = list(m.parameters())
    c.require(len(mine) == n and all(any(p is q for q in mine) for p in ps), f"{len(mine)} parameters are registered instead of the {n} declared")
    x = tensor(rng, (2, 3)) + 3
    m(x, grid(rng, n=5, span=.5))[1][-1].sum().backward()
    for k, p in enumerate(ps): c.require(p.grad is not None and bool((p.grad != 0).all()), f"declared parameter {k} gets no gradient")


SCENARIOS = {'declared': Scen(declared, 40, 400), 'signatures': Scen(signatures, 300, 4000)}
