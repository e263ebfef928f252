from vc.gen import *
from torchdyn.core import ODEProblem
from checks.C11_rt import gradients, settings_of, Net


def interpolated(c): gradients(c, 'interpolated_adjoint')


def returned(c):
    "the caller gets the times and states asked for, the same as with the other methods"
    rng = c.rng
    shp = (rng.randint(1, 4), rng.randint(1, 3))
    f = Net(rng, shp[-1])
    fixed = rng.random() < .4
    ts = grid(rng, n=rng.choice([2, 3, 5, 9]))
    if rng.random() < .3: ts = ts.flip(0)
    pick = sorted(rng.sample(range(len(ts)), rng.randint(1, len(ts)))) if fixed and rng.random() < .6 else None
    sv = dict(save_at=ts[pick] if rng.random() < .5 else ts[pick].tolist()) if pick else {}
    x0 = tensor(rng, shp)
    tol_ = 10 ** rng.uniform(-8, -2)
    name = 'rk4' if fixed else rng.choice(['dopri5', 'tsit5'])
    c.note(solver=name, times=ts.tolist(), pick=pick, tolerance=tol_)
    res = {}
    for sens in ('autograd', 'adjoint', 'interpolated_adjoint'):
        p = ODEProblem(f, str_solver(name), sensitivity=sens, atol=tol_, rtol=tol_)
        res[sens] = [v.detach() for v in p(x0.clone().requires_grad_(), ts, **sv)]
    for sens in ('adjoint', 'interpolated_adjoint'):
        same_times(res[sens][0], ts[pick] if pick else ts)
        close(res[sens][1], res['autograd'][1], 1e-6 if sens == 'adjoint' else 1e-5 + 3 * tol_, f'states with sensitivity {sens}')
    close(res['interpolated_adjoint'][1][0], x0 if not pick or pick[0] == 0 else res['autograd'][1][0], 1e-6 if fixed else 1e-5 + 3 * tol_, 'the first state')


SCENARIOS = {'interpolated': Scen(interpolated, 25, 400), 'returned': Scen(returned, 60, 1000), 'settings': Scen(lambda c: settings_of(c, 'interpolated_adjoint'), 3, 20)}
