"Identities of rational functions, decided by normal forms (sympy), over terms the code computed."
import z3, sympy


def to_sympy(e, env=None, memo=None):
    env = {} if env is None else env
    memo = env.setdefault(0, {})
    k = e.get_id()
    if k not in memo: memo[k] = (e, _conv(e, env))
    return memo[k][1]


def _conv(e, env):
    k = e.decl().kind()
    if z3.is_rational_value(e): return sympy.Rational(e.numerator_as_long(), e.denominator_as_long())
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_SELECT): return atom(e.sexpr(), env)
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() and any(c.sort() != z3.RealSort() for c in e.children()): return atom(e.sexpr(), env)
    ch = [to_sympy(c, env) for c in e.children()]
    if e.decl().name() == 'sqrt':      # square roots of squares of the quantities named sqrt_..., taken as positive
        return sympy.sqrt(sympy.expand(ch[0]))
    if k == z3.Z3_OP_UNINTERPRETED:
        if not ch: return atom(str(e), env)
        return sympy.Function(e.decl().name())(*[sympy.cancel(sympy.together(c)) for c in ch])
    if k == z3.Z3_OP_ADD: return sympy.Add(*ch)
    if k == z3.Z3_OP_SUB: return ch[0] - sympy.Add(*ch[1:]) if len(ch) > 1 else -ch[0]
    if k == z3.Z3_OP_UMINUS: return -ch[0]
    if k == z3.Z3_OP_MUL: return sympy.Mul(*ch)
    if k == z3.Z3_OP_DIV: return ch[0] / ch[1]
    if k == z3.Z3_OP_POWER: return ch[0] ** ch[1]
    if k == z3.Z3_OP_TO_REAL: return ch[0]
    raise NotImplementedError(str(e.decl()))


def atom(key, env):
    if key not in env: env[key] = sympy.Symbol(key.replace(' ', '_'), **(dict(positive=True) if key.startswith('sqrt_') else dict(real=True)))
    return env[key]


PRIME = (1 << 61) - 1
_RES = {}


def draw(*key):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big') % PRIME


def residue(e):
    "value of a rational function, in the integers modulo a prime, at a fixed arbitrary point and for fixed arbitrary functions; None if it has none"
    k = e.get_id()
    if k not in _RES:
        try: v = _residue(e)
        except (NotImplementedError, ValueError, RecursionError): v = None
        _RES[k] = (e, v)
    return _RES[k][1]


def _residue(e):
    if z3.is_rational_value(e): return e.numerator_as_long() * pow(e.denominator_as_long(), -1, PRIME) % PRIME
    k, name = e.decl().kind(), e.decl().name()
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_SELECT) or name == 'sqrt': return None
    if k == z3.Z3_OP_UNINTERPRETED:
        if not e.num_args(): return draw(name) if not name.startswith('sqrt_') else None
        if any(c.sort() != z3.RealSort() for c in e.children()): return None
    ch = [residue(c) for c in e.children()]
    if any(c is None for c in ch): return None
    if k == z3.Z3_OP_UNINTERPRETED: return draw(name, *ch)
    if k == z3.Z3_OP_ADD: return sum(ch) % PRIME
    if k == z3.Z3_OP_SUB: return (ch[0] - sum(ch[1:])) % PRIME if len(ch) > 1 else -ch[0] % PRIME
    if k == z3.Z3_OP_UMINUS: return -ch[0] % PRIME
    if k == z3.Z3_OP_MUL:
        r = 1
        for c in ch: r = r * c % PRIME
        return r
    if k == z3.Z3_OP_DIV: return ch[0] * pow(ch[1], -1, PRIME) % PRIME
    return None


def equal(a, b, **subs):
    "a == b as rational functions (wherever denominators do not vanish)"
    if a.eq(b): return True
    ra, rb = residue(a), residue(b)
    if ra is not None and rb is not None and ra != rb: return False     # they differ at a point
    env = {}
    d = to_sympy(a, env) - to_sympy(b, env)
    d = sympy.cancel(sympy.together(d))
    return d == 0
