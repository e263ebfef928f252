"""Runge-Kutta order theory: conditions of the rooted trees up to order five, in exact rational arithmetic, and the extraction
of a method's coefficients from the terms that the code computes."""
from fractions import Fraction
import z3
from .core import S, real


def order_conditions(A, b, c, p):
    "residuals of all order conditions up to order p, by name"
    n = len(b)
    dot = lambda u, v: sum((x * y for x, y in zip(u, v)), Fraction(0))
    mul = lambda *v: [_prod(x) for x in zip(*v)]
    app = lambda v: [dot(A[i], v) for i in range(n)]
    one = [Fraction(1)] * n
    Ac = app(c)
    conds = [(1, 'b.1', dot(b, one), 1), (2, 'b.c', dot(b, c), 2), (3, 'b.c2', dot(b, mul(c, c)), 3), (3, 'b.Ac', dot(b, Ac), 6),
             (4, 'b.c3', dot(b, mul(c, c, c)), 4), (4, 'b.cAc', dot(b, mul(c, Ac)), 8), (4, 'b.Ac2', dot(b, app(mul(c, c))), 12), (4, 'b.AAc', dot(b, app(Ac)), 24),
             (5, 'b.c4', dot(b, mul(c, c, c, c)), 5), (5, 'b.c2Ac', dot(b, mul(c, c, Ac)), 10), (5, 'b.(Ac)2', dot(b, mul(Ac, Ac)), 20), (5, 'b.cAc2', dot(b, mul(c, app(mul(c, c)))), 15),
             (5, 'b.Ac3', dot(b, app(mul(c, c, c))), 20), (5, 'b.cAAc', dot(b, mul(c, app(Ac))), 30), (5, 'b.A(cAc)', dot(b, app(mul(c, Ac))), 40),
             (5, 'b.AAc2', dot(b, app(app(mul(c, c)))), 60), (5, 'b.AAAc', dot(b, app(app(Ac))), 120)]
    return [(o, n, v - Fraction(1, d)) for o, n, v, d in conds if o <= p]


def _prod(xs):
    r = Fraction(1)
    for x in xs: r *= x
    return r


def value(e, subs):
    v = z3.simplify(z3.substitute(e, *[(a, real(b)) for a, b in subs]))
    if not z3.is_rational_value(v): return None
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def zero(e):
    "polynomial identity e == 0, decided by expansion to a sum of monomials"
    r = z3.simplify(e, som=True)
    return z3.is_rational_value(r) and r.numerator_as_long() == 0


def linear_coeffs(e, x, dt, ks):
    """coefficients (c0, [a_j]) with e == c0*x + dt*sum a_j k_j, or None when e is not of that form"""
    z = [(x, 0), (dt, 0)] + [(k, 0) for k in ks]
    c0 = value(e, [(x, 1), (dt, 0)] + [(k, 0) for k in ks])
    out = []
    for k in ks:
        out.append(value(e, [(x, 0), (dt, 1)] + [(q, 1 if q is k else 0) for q in ks]))
    if c0 is None or any(o is None for o in out): return None
    ref = real(c0) * x
    for k, o in zip(ks, out): ref = ref + dt * real(o) * k
    return (c0, out) if zero(e - ref) else None
