import itertools
import functools, types, torch
from vc import core, spec

FORMS = {  # signature -> (takes time, takes extra arguments)
    '(x)': (False, False), '(y)': (False, False), '(t, x)': (True, False), '(t, y)': (True, False),
    '(t, x, args)': (True, True), '(t, x, args={})': (True, True), '(t, x, *, args)': (True, True), '(t, x, *, args={})': (True, True),
    '(t, x, **kw)': (True, True), '(t, x, *rest)': (True, False), '(t, x, scale=1)': (True, False), '(t, x, scale=1, args={})': (True, True),
    '(t, x, *rest, args={})': (True, True), '(x, args)': (False, True), '(x, args={})': (False, True), '(x, *, args={})': (False, True), '(x, scale=1)': (False, False),
    '(t, x, args={}, **kw)': (True, True), '(t, x, scale=1, **kw)': (True, True),
}


def body(form):
    "source of the parameters of a callable which logs what it was given"
    names = [p.split('=')[0].strip() for p in form[1:-1].split(',')]
    log = ', '.join(f"{n.strip('*')!r}: {n.strip('*')}" for n in names if n != '*')
    return form, '{' + log + '}'


def make(form, kind, log, value):
    sig, d = body(form)
    ns = dict(log=log, value=value, torch=torch)
    sig_self = '(self, ' + sig[1:]
    if kind == 'function': exec(f"def f{sig}:\n log.append({d}); return value", ns); return ns['f'], []
    if kind == 'lambda': exec(f"f = lambda {sig[1:-1]}: (log.append({d}), value)[1]", ns); return ns['f'], []
    if kind == 'nested function': exec(f"def g(extra):\n def f{sig}:\n  log.append({d}); return value\n return f", ns); return ns['g'](3), []
    if kind in ('module', 'module of modules', 'subclass module', 'module with parameters named alike'):
        exec(f"class M(torch.nn.Module):\n def forward{sig_self}:\n  log.append({d}); return value", ns)
        M = ns['M']
        if kind == 'subclass module': M = type('N', (M,), {})
        m = M()
        if kind == 'module of modules':
            m.inner = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ModuleList([torch.nn.Linear(1, 3)]))
        if kind == 'module with parameters named alike':
            m.vf_weight = torch.nn.Parameter(torch.zeros(2)); m.has_args = True; m.nfe = 7
        m.p = torch.nn.Parameter(torch.zeros(3)); m.q = torch.nn.Parameter(torch.ones(1), requires_grad=False); m.register_buffer('b', torch.zeros(1))
        return m, list(m.parameters())
    exec(f"class C:\n def __call__{sig_self}:\n  log.append({d}); return value\n def method{sig_self}:\n  log.append({d}); return value\n @staticmethod\n def stat{sig}:\n  log.append({d}); return value\n @classmethod\n def cls{sig_self}:\n  log.append({d}); return value", ns)
    c = ns['C']()
    return {'callable object': c, 'bound method': c.method, 'static method': ns['C'].stat, 'class method': ns['C'].cls}[kind], []


KINDS = ['function', 'lambda', 'nested function', 'module', 'module of modules', 'subclass module', 'module with parameters named alike', 'callable object', 'bound method', 'static method', 'class method']


def expect(s, form, log, value, out, t, x, args, where, given=True):
    has_t, has_a = FORMS[form]
    s.check(len(log) == 1 and out is value, "the derivative is the one the user's field gives, evaluated once", where=where)
    if len(log) != 1: return
    g = log[0]
    y = g.get('x', g.get('y'))
    s.check(y is x, "the field gets the state it is asked for", where=where)
    s.check((not has_t) or g['t'] is t, "a field of time gets that time", where=where)
    if has_a:
        a = g['args'] if 'args' in g else g.get('kw', {}).get('args')
        s.check(a is args if given else a is None or len(a) == 0, "extra arguments reach a field which accepts them", where=where)
    s.check(g.get('scale', 1) == 1 and g.get('rest', ()) == () and set(g.get('kw', {})) <= {'args'}, "nothing else is forced on the field", where=where)


def fields(s):
    D, U = spec.mod('torchdyn.core.defunc'), spec.mod('torchdyn.core.utils')
    for form in FORMS:
        for kind in KINDS:
            log, value, t, x, args = [], object(), object(), object(), {'k': object()}
            f, params = make(form, kind, log, value)
            w = f"standardize_vf_call_signature, {kind}"
            for defunc_wrap, order in ((False, 1), (True, 1), (True, 2)):
                v = U.standardize_vf_call_signature(f, order, defunc_wrap=defunc_wrap)
                for again in (False, True):   # what ODEProblem does to a field which NeuralODE has wrapped already
                    if again:
                        inner = v
                        v = U.standardize_vf_call_signature(v)
                        s.check(v is inner, "a field in standard form is left alone", where=w) if defunc_wrap else None
                    bare = kind.startswith(('module', 'subclass')) and FORMS[form] == (True, False) and v is f   # a module of (t, x) is called as it is by the solvers
                    asis = v is f
                    if order == 1:
                        for style in ('kw', 'pos', 'none'):
                            if asis and style != 'none' and not FORMS[form][1]: continue
                            if asis and style == 'pos': continue
                            log.clear()
                            if style == 'none' and asis and form in ('(t, x, args)', '(t, x, *, args)'): continue   # the user's own field insists on the arguments
                            out = v(t, x, args=args) if style == 'kw' else v(t, x, args) if style == 'pos' else v(t, x)
                            expect(s, form, log, value, out, t, x, args, w, given=style != 'none')
                    ps = list(v.parameters())
                    s.check(len(ps) == len(params) and all(any(p is q for q in ps) for p in params), "the user's parameters stay registered, and no others", where=w)
                    s.check(v.order == order if defunc_wrap else True, "the order is passed on", where=w)
            if params: s.check([p.requires_grad for p in f.parameters()] == [p.requires_grad for p in params] and sum(p.requires_grad for p in params) >= 1, "parameters stay trainable, frozen ones frozen", where=w)


def problems(s):
    "through the classes which accept vector fields: the field the integrator gets"
    P, N = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde')
    for form in FORMS:
        for kind in KINDS:
            for cls in ('ODEProblem', 'NeuralODE', 'MultipleShootingProblem', 'MultipleShootingLayer'):
                log, value, t, x = [], object(), torch.zeros(()), torch.zeros(2, 3)
                if form in ('(t, x, args)', '(t, x, *, args)') and cls != 'NeuralODE' and (kind.startswith('module') or kind == 'subclass module'): continue
                f, params = make(form, kind, log, value)
                m = P.ODEProblem(f, 'euler') if cls == 'ODEProblem' else N.NeuralODE(f, 'euler') if cls == 'NeuralODE' else N.MultipleShootingLayer(f, 'zero') if cls == 'MultipleShootingLayer' else P.MultipleShootingProblem(f, 'zero')
                got = []
                def integrator(vf, *a, **k): got.append(vf); return 'times', 'solution'
                with spec.everywhere(spec.mod('torchdyn.numerics.odeint'), odeint=integrator, odeint_mshooting=integrator): m(x, torch.zeros(2))
                w = f"{cls}, {kind}"
                s.check(len(got) == 1, "the field is integrated", where=w)
                log.clear()
                out = got[0](t, x)
                expect(s, form, log, value, out, t, x, {}, w, given=False)
                ps = list(m.parameters())
                s.check(all(any(p is q for q in ps) for p in params), "the user's parameters are parameters of the model", where=w)


def declared(s):
    "parameters declared for a field which is not a module: any number of them"
    P, N = spec.mod('torchdyn.core.problems'), spec.mod('torchdyn.core.neuralde')
    for n, given, cls, sens in itertools.product((1, 2, 3, 11, 17), ('tuple', 'list', 'generator'), ('ODEProblem', 'NeuralODE'), ('autograd', 'adjoint', 'interpolated_adjoint')):
        ps = [torch.nn.Parameter(torch.full((1 + k % 3, 2)[:1 + k % 2], .1 * k + .1)) for k in range(n)]
        f = lambda t, x: sum(p.sum() for p in ps) * x
        opt = tuple(ps) if given == 'tuple' else ps if given == 'list' else (p for p in ps)
        w = f"{cls}, {sens}, optimizable_params given as a {given}"
        m = (P.ODEProblem if cls == 'ODEProblem' else N.NeuralODE)(f, 'euler', sensitivity=sens, optimizable_params=opt)
        mine = list(m.parameters())
        s.check(len(mine) == n and all(any(p is q for q in mine) for p in ps), "the declared parameters are those of the model, and no others", where=w)
        x = torch.ones(2, 3)
        if sens == 'interpolated_adjoint': sol = m(x, torch.linspace(0, 1, 4))[1]
        else: sol = m(x, torch.linspace(0, 1, 4))[1]
        sol[-1].sum().backward()
        s.check(all(p.grad is not None and p.grad.shape == p.shape and bool((p.grad != 0).all()) for p in ps), "each of them gets its gradient", where=w)


SDE_FORMS = ['(x)', '(t, x)', '(t, y)', '(t, x, scale=1)', '(x, scale=1)', '(t, x, *rest)', '(t, x, **kw)', '(x, **kw)']


def coefficients(s):
    "drift and diffusion of an SDE, each of any kind and signature"
    D, M, N = spec.mod('torchdyn.core.defunc'), spec.mod('torchdyn.numerics.sdeint'), spec.mod('torchdyn.core.neuralde')
    kinds = ['function', 'lambda', 'module', 'module of modules', 'subclass module', 'bound method', 'static method']
    pairs = [(a, ka, b, kb) for i, (a, ka) in enumerate((f, k) for f in SDE_FORMS for k in kinds) for j, (b, kb) in enumerate((f, k) for f in SDE_FORMS for k in kinds)]
    class Bare: pass
    for ff, fk, gf, gk in pairs:
        lf, lg, vf, vg, t, x = [], [], object(), object(), object(), object()
        f, pf = make(ff, fk, lf, vf)
        g, pg = make(gf, gk, lg, vg)
        bare = Bare()
        bare.f, bare.g, bare.noise_type, bare.sde_type = f, g, 'diagonal', 'ito'
        es = [D.SDEFunc(f, g), M.check_sde(bare)]
        if fk == gk: es.append(N.NeuralSDE(f, g, t_span=torch.linspace(0, 1, 3)).defunc)
        for e in es:
            w = f"SDEFunc, drift: {fk}, diffusion: {gk}"
            for again in range(2):
                for log, value, form, call in ((lf, vf, ff, e.f), (lg, vg, gf, e.g)):
                    log.clear()
                    out = call(t, x)
                    s.check(len(log) == 1 and out is value, "the coefficient is the one the user's callable gives, evaluated once", where=w)
                    if len(log) != 1: continue
                    s.check(log[0].get('x', log[0].get('y')) is x and ('t' not in log[0] or log[0]['t'] is t), "it gets the state, and the time if it takes it", where=w)
                    s.check(log[0].get('scale', 1) == 1 and not log[0].get('rest') and not log[0].get('kw'), "and nothing else", where=w)
            ps = list(e.parameters())
            s.check(len(ps) == len(pf) + len(pg) and all(any(p is q for q in ps) for p in pf + pg), "the user's parameters stay registered, and no others", where=w)


def harnesses(tier):
    yield dict(name="declared parameters", direct=declared)
    yield dict(name="coefficients of SDEs of every signature", direct=coefficients)
    yield dict(name="fields of every signature", direct=fields)
    yield dict(name="problems with fields of every signature", direct=problems)
