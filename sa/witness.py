"""Refutation of identities between closed terms: a difference at one assignment of the free symbols shows that two normal forms are different functions.
Only terms whose every operation is interpreted here are evaluated; anything else gives no verdict."""
from fractions import Fraction
import itertools
from .terms import T, num, subterms, TRUE, FALSE, subst


class Unknown(Exception):
    pass


def ev(t, env):
    if t in env:
        return env[t]
    n = num(t)
    if n is not None:
        return n
    if t is TRUE or t is FALSE:
        return t is TRUE
    o, a = t.op, t.args
    if o == 'lin':
        return sum((k * ev(x, env) for x, k in a[0]), Fraction(0)) + a[1]
    if o == 'mono':
        r = Fraction(1)
        for x, e in a[0]:
            if e.denominator != 1:
                raise Unknown()
            v = ev(x, env)
            if v == 0 and e < 0:
                raise Unknown()
            r *= Fraction(v) ** int(e)
        return r
    if o in ('min', 'max'):
        return (min if o == 'min' else max)(ev(x, env) for x in a)
    if o in ('fdiv', 'mod', 'div'):
        x, y = ev(a[0], env), ev(a[1], env)
        if y == 0:
            raise Unknown()
        return Fraction(x // y) if o == 'fdiv' else Fraction(x % y) if o == 'mod' else Fraction(x) / y
    if o == 'abs':
        return abs(ev(a[0], env))
    if o == 'ite':
        return ev(a[1] if ev(a[0], env) else a[2], env)
    if o == 'not':
        return not ev(a[0], env)
    if o in ('and', 'or'):
        return (all if o == 'and' else any)(ev(x, env) for x in a)
    if o in ('le0', 'lt0', 'eq0'):
        v = ev(a[0], env)
        return v <= 0 if o == 'le0' else v < 0 if o == 'lt0' else v == 0
    if o == 'eq':
        return ev(a[0], env) == ev(a[1], env)
    if o == 'py' and a[0].op == 'const' and a[0].args[1] in ('int', 'float'):
        v = ev(a[-1], env)
        return Fraction(int(v)) if a[0].args[1] == 'int' else v
    raise Unknown()


SAMPLES = [(1, 2, 3, 5, 7, 11, 13), (9, 4, 2, 8, 6, 3, 5), (40, 25, 3, 17, 12, 6, 2), (3, 3, 1, 2, 2, 1, 1), (4, 0, 0, 1, 0, 2, 0), (0, 5, 1, 0, 3, 0, 2)]


def differ(a, b, free):
    """a concrete assignment of the free symbols at which a and b differ, None if none is found or a term is not interpreted"""
    for vals in SAMPLES:
        env = {f: Fraction(v) for f, v in zip(free, vals)}
        try:
            x, y = ev(a, env), ev(b, env)
        except (Unknown, TypeError, OverflowError):
            return None
        if x != y:
            return ', '.join('%s = %s' % (f, v) for f, v in env.items() if f in subterms(a) or f in subterms(b)) + ': %s, not %s' % (x, y)
    return None


def free_atoms(ts, fields):
    """conditions that test the contents of a free array for special values: both outcomes occur"""
    out = []
    for t in ts:
        if not isinstance(t, T):
            continue
        for x in subterms(t):
            if x.op in ('any', 'all') and len(x.args) == 1 and isinstance(x.args[0], T) and x.args[0].op in ('isnan', 'isfinite', 'isinf') and x.args[0].args[0] in fields:
                if x not in out:
                    out.append(x)
    return out


def assignments(ts, fields, limit=3):
    atoms = free_atoms(ts, fields)
    if not atoms or len(atoms) > limit:
        return [({}, '')]
    return [(dict(zip(atoms, v)), ', '.join('%s%s' % ('' if b is TRUE else 'not ', x) for x, b in zip(atoms, v))) for v in itertools.product((TRUE, FALSE), repeat=len(atoms))]
