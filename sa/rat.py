"""Equality of terms as rational functions (exact polynomial normal form); roots are reduced by their defining equation."""
from fractions import Fraction
import cmath
import random
from .terms import *
from .terms import mono, parts


def _mulp(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for t, e in m2:
                d[t] = d.get(t, 0) + e
            m = tuple(sorted(((t, e) for t, e in d.items() if e), key=lambda p: p[0].id))
            r[m] = r.get(m, 0) + c1 * c2
            if r[m] == 0:
                del r[m]
        if len(r) > LIMIT[0]:
            raise OverflowError
    return r


def _addp(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


LIMIT = [4000]
ONE = {(): Fraction(1)}


class Rat(object):
    def __init__(self):
        self.roots = {}

    def conv(self, t):
        """term -> (num, den)"""
        n = num(t)
        if n is not None:
            return ({(): n} if n else {}), ONE
        if t.op == 'lin':
            acc = ({(): t.args[1]} if t.args[1] else {}, ONE)
            for a, k in t.args[0]:
                x, y = self.conv(a)
                acc = self.plus(acc, ({m: c * k for m, c in x.items()}, y))
            return acc
        if t.op == 'mono':
            acc = (ONE, ONE)
            for b, e in t.args[0]:
                ie = int(e) if e >= 0 or e.denominator == 1 else -(int(-e)) - (1 if e.denominator != 1 else 0)
                fr = e - ie
                x, y = self.conv(b)
                for _ in range(abs(ie)):
                    acc = (_mulp(acc[0], x if ie > 0 else y), _mulp(acc[1], y if ie > 0 else x))
                if fr:
                    acc = (_mulp(acc[0], {((mk('root', b, fr), 1),): Fraction(1)}), acc[1])
            return acc
        return {((t, 1),): Fraction(1)}, ONE

    def plus(self, a, b):
        if a[1] == b[1]:
            return _addp(a[0], b[0]), a[1]
        return _addp(_mulp(a[0], b[1]), _mulp(b[0], a[1])), _mulp(a[1], b[1])

    def reduce_roots(self, p):
        """replace root(b,1/2)^2 by b; returns (num, den)"""
        while True:
            for m in p:
                hit = [(t, e) for t, e in m if t.op == 'root' and t.args[1] == Fraction(1, 2) and e >= 2]
                if hit:
                    break
            else:
                return p
            r = hit[0][0]
            bn, bd = self.conv(r.args[0])
            if bd != ONE:
                return p
            out = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(r, 0)
                if e >= 2:
                    d[r] = e - 2
                    mm = tuple(sorted(((t, x) for t, x in d.items() if x), key=lambda q: q[0].id))
                    out = _addp(out, _mulp({mm: c}, bn))
                else:
                    out = _addp(out, {m: c})
            p = out


class Point(object):
    """a random assignment of the atoms of a rational expression (identity testing in the Schwartz-Zippel manner)"""
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.val = {}
        self.memo = {}

    def ev(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev1(t)
        return r

    def ev1(self, t):
        n = num(t)
        if n is not None:
            return complex(float(n))
        if t.op == 'lin':
            r = complex(float(t.args[1]))
            for a, k in t.args[0]:
                r += self.ev(a) * float(k)
            return r
        if t.op == 'mono':
            r = complex(1.0)
            for b, e in t.args[0]:
                x = self.ev(b)
                if e.denominator != 1:
                    x = cmath.sqrt(x) if e.denominator == 2 else x ** (1.0 / e.denominator)
                    r *= x ** int(e.numerator)
                else:
                    r *= x ** int(e)
            return r
        if t not in self.val:
            self.val[t] = complex(self.rng.uniform(0.3, 1.7) * self.rng.choice((1, 1, -1)))
        return self.val[t]


def differ(a, b):
    """some random point separates a and b"""
    for seed in (1, 2):
        P = Point(seed)
        try:
            x, y = P.ev(a), P.ev(b)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if not abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y)):
            return True
    return False


def req(a, b, equations=(), limit=4000):
    """a == b as rational functions: refuted by a random point, otherwise confirmed by the normal form, or - where that
    exceeds the size limit or the roots it can reduce - by further random points"""
    if a is b:
        return True
    if differ(a, b):
        return False
    LIMIT[0] = limit
    try:
        R = Rat()
        n, d = R.conv(sub(a, b))
        n = R.reduce_roots(n)
        if not n:
            return True
    except OverflowError:
        pass
    hits = 0
    for seed in range(3, 9):
        P = Point(seed)
        try:
            x, y = P.ev(a), P.ev(b)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if not abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y)):
            return False
        hits += 1
    return hits >= 3
