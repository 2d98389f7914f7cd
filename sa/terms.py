"""Hash-consed terms with a linear normal form.  Vectors are treated elementwise, arithmetic as exact."""
from fractions import Fraction
import itertools

_table = {}
_ids = itertools.count()


class T(object):
    __slots__ = ('op', 'args', 'id', '_h', 'taint', 'size', '_sub', '_sy', 'ite', '_parts', '_neg', '_atoms')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h


def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args = op, args
        t.id = next(_ids)
        t._h = (t.id * 2654435761) & 0x7fffffffffff
        t._sub = t._sy = t._parts = t._neg = t._atoms = None
        t.ite = op == 'ite' or any(_hasite(a) for a in args)
        t.taint = op == 'taint' or any(_tainted(a) for a in args)
        t.size = 1 + sum(_size(a) for a in args)
        _table[key] = t
    return t


def _size(a):
    if isinstance(a, T):
        return a.size
    if isinstance(a, tuple):
        return sum(_size(b) for b in a)
    return 0


def _hasite(a):
    if isinstance(a, T):
        return a.ite
    if isinstance(a, tuple):
        return any(_hasite(b) for b in a)
    return False


def _tainted(a):
    if isinstance(a, T):
        return a.taint
    if isinstance(a, tuple):
        return any(_tainted(b) for b in a)
    return False


_fresh = itertools.count()


def sym(name, **kw):
    return mk('sym', name)


def fresh(name):
    return mk('sym', '%s#%d' % (name, next(_fresh)))


def taint(reason):
    return mk('taint', '%s#%d' % (reason, next(_fresh)))


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, str) or isinstance(v, bytes):
        return mk('const', type(v).__name__, v)
    if isinstance(v, (int, float)):
        if isinstance(v, float) and (v != v or v in (float('inf'), float('-inf'))):
            return mk('const', 'float', repr(v))
        return lin({}, Fraction(v))
    return mk('const', type(v).__name__, repr(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return isinstance(t, T) and (t.op == 'const' or (t.op == 'lin' and not t.args[0]))


def cval(t):
    if t.op == 'const':
        return t.args[1]
    c = t.args[1]
    return int(c) if c.denominator == 1 else float(c)


def num(t):
    """numeric constant as Fraction or None"""
    if isinstance(t, T) and t.op == 'lin' and not t.args[0]:
        return t.args[1]
    return None


def lin(d, c):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda p: p[0].id))
    if len(items) == 1 and c == 0 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', items, Fraction(c))


def parts(t):
    """linear parts: (dict, const); the dict is shared, never mutate it"""
    r = t._parts
    if r is None:
        if t.op == 'lin':
            r = dict(t.args[0]), t.args[1]
        elif t is TRUE:
            r = {}, Fraction(1)
        elif t is FALSE:
            r = {}, Fraction(0)
        else:
            r = {t: Fraction(1)}, Fraction(0)
        t._parts = r
    return r


def add(a, b, kb=1):
    da, ca = parts(a)
    db, cb = parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + kb * k
    return lin(d, ca + kb * cb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if isinstance(k, float):
        k = Fraction(k)
    d, c = parts(a)
    return lin({t: v * k for t, v in d.items()}, c * k)


def neg(a):
    return scale(a, -1)


def _monomial(t):
    """t = coef * prod(base^exp) with exps Fractions; returns (coef, dict) or None"""
    n = num(t)
    if n is not None:
        return n, {}
    if t.op == 'lin' and len(t.args[0]) == 1 and t.args[1] == 0:
        b, k = t.args[0][0]
        c, d = _monomial(b)
        return c * k, d
    if t.op == 'mono':
        return Fraction(1), dict(t.args[0])
    return Fraction(1), {t: Fraction(1)}


def mono(coef, d):
    d = {t: e for t, e in d.items() if e != 0}
    if not d:
        return lin({}, coef)
    if len(d) == 1:
        (t, e), = d.items()
        if e == 1:
            return scale(t, coef)
    m = mk('mono', tuple(sorted(d.items(), key=lambda p: p[0].id)))
    return scale(m, coef)


def mul(a, b):
    na, nb = num(a), num(b)
    if na is not None:
        return scale(b, na)
    if nb is not None:
        return scale(a, nb)
    for x, y in ((a, b), (b, a)):
        if x.op == 'lin' and (len(x.args[0]) > 1 or x.args[1] != 0):
            d, c = parts(x)
            r = scale(y, c)
            for t, k in d.items():
                r = add(r, scale(mul(t, y), k))
            return r
    ca, da = _monomial(a)
    cb, db = _monomial(b)
    d = dict(da)
    for t, e in db.items():
        d[t] = d.get(t, 0) + e
    return mono(ca * cb, d)


def power(a, e):
    if isinstance(a, T) and a.op == 'lin' and (len(a.args[0]) > 1 or a.args[1] != 0) and num(a) is None:
        if e == 2:
            return mul(a, a)
        return mono(Fraction(1), {a: Fraction(e)})
    c, d = _monomial(a)
    e = Fraction(e)
    if not d:
        if e.denominator == 1 and (c != 0 or e > 0):
            return lin({}, c ** int(e))
        return mono(1, {a: e}) if c > 0 else mk('pow', a, lin({}, e))
    if c < 0 and e.denominator != 1:
        return mk('pow', a, lin({}, e))
    if e.denominator == 1:
        cc = c ** int(e)
    elif c == 1:
        cc = Fraction(1)
    else:
        return mk('pow', a, lin({}, e))
    return mono(cc, {t: v * e for t, v in d.items()})


def div(a, b):
    nb = num(b)
    if nb is not None and nb != 0:
        return scale(a, 1 / nb)
    if a is b:
        return const(1)
    return mul(a, power(b, -1)) if nb is None else mk('div', a, b)


def minmax(op, xs):
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.args)
        else:
            flat.append(x)
    cs = [num(x) for x in flat if num(x) is not None]
    out = []
    for x in flat:
        if num(x) is None and x not in out:
            out.append(x)
    if cs:
        out.append(lin({}, (min if op == 'min' else max)(cs)))
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda t: t.id))


# ---- boolean atoms --------------------------------------------------------------------------
def le(a, b):
    """a <= b"""
    d = sub(a, b)
    n = num(d)
    if n is not None:
        return TRUE if n <= 0 else FALSE
    return mk('le0', d)


def lt(a, b):
    d = sub(a, b)
    n = num(d)
    if n is not None:
        return TRUE if n < 0 else FALSE
    return mk('lt0', d)


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) and type(cval(a)) == type(cval(b)) or (num(a) is not None and num(a) == num(b)) else FALSE
    if a.op in ('lin',) or b.op in ('lin',):
        d = sub(a, b)
        n = num(d)
        if n is not None:
            return TRUE if n == 0 else FALSE
        d2 = neg(d)
        return mk('eq0', d if d.id <= d2.id else d2)
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk('eq', x, y)


def isnone(a):
    if a is NONE:
        return TRUE
    if is_const(a):
        return FALSE
    if a.op == 'ite':
        return ite(a.args[0], isnone(a.args[1]), isnone(a.args[2]))
    if a.op in ('lin', 'mono', 'min', 'max', 'rm', 'smp', 'X', 'OBJ', 'samples', 'feas', 'unscale', 'le0', 'lt0', 'eq', 'eq0', 'not', 'and', 'or'):
        return FALSE
    return mk('isnone', a)


def bnot(a):
    r = a._neg
    if r is None:
        r = a._neg = _bnot(a)
    return r


def _bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'and':
        return bor(*[bnot(x) for x in a.args])
    if a.op == 'or':
        return band(*[bnot(x) for x in a.args])
    if a.op == 'le0':
        return mk('lt0', neg(a.args[0]))
    if a.op == 'lt0':
        return mk('le0', neg(a.args[0]))
    if a.op == 'ite':
        return ite(a.args[0], bnot(a.args[1]), bnot(a.args[2]))
    return mk('not', a)


def _assoc(op, unit, zero, xs):
    out = []
    for x in xs:
        for y in (x.args if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is unit or y in out:
                continue
            out.append(y)
    if any(bnot(y) in out for y in out):
        return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return mk(op, *sorted(out, key=lambda t: t.id))


def band(*xs):
    return _assoc('and', TRUE, FALSE, xs)


def bor(*xs):
    return _assoc('or', FALSE, TRUE, xs)


MAXSIZE = 400
CONDS = {}        # large conditions, named


def pick(c, a, b):
    """ite, with the smaller or larger of two quantities recognised"""
    if c.op == 'not':
        return pick(c.args[0], b, a)
    if c.op == 'lt0':
        return pick(bnot(c), b, a)
    if c.op == 'le0' and not c.taint and a.op not in BOOLISH and b.op not in BOOLISH:
        if sub(a, b) is c.args[0]:
            return minmax('min', [a, b])
        if sub(b, a) is c.args[0]:
            return minmax('max', [a, b])
    return ite(c, a, b)


BOOLISH = frozenset(['le0', 'lt0', 'eq0', 'eq', 'not', 'and', 'or', 'truth', 'isnone', 'true', 'false'])


def ite(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'lt0':       # canonical polarity
        return ite(bnot(c), b, a)
    if a is TRUE:
        return bor(c, b)
    if b is FALSE:
        return band(c, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    r = mk('ite', c, a, b)
    if r.size > MAXSIZE and c.size > MAXSIZE // 2 and not c.taint:
        k = CONDS.get(c)
        if k is None:
            k = CONDS[c] = mk('truth', fresh('cond'))
        r = mk('ite', k, a, b)
    if r.size > MAXSIZE:
        return fresh('big') if not r.taint else taint('big')
    return r


# ---- generic traversal -------------------------------------------------------------------------
def rebuild(op, args):
    if op == 'lin':
        r = lin({}, args[1])
        for t, k in args[0]:
            r = add(r, scale(t, k))
        return r
    if op == 'mono':
        r = const(1)
        for t, e in args[0]:
            r = mul(r, power(t, e))
        return r
    if op in ('min', 'max'):
        return minmax(op, args)
    if op == 'le0':
        return le(args[0], const(0))
    if op == 'lt0':
        return lt(args[0], const(0))
    if op == 'eq0':
        return eq(args[0], const(0)) if num(args[0]) is None else (TRUE if num(args[0]) == 0 else FALSE)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'isnone':
        return isnone(args[0])
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


REBUILD = {}


def subst(t, m, memo=None):
    """replace terms by terms (m: dict T->T), bottom-up with renormalisation"""
    if memo is None:
        memo = {}
    keys = m.keys()

    def go(a):
        if isinstance(a, T):
            if a in m:
                return m[a]
            r = memo.get(a)
            if r is None:
                if keys.isdisjoint(subterms(a)) if len(m) > 3 else not any(k in subterms(a) for k in m):
                    r = a
                elif a.op in ('sym', 'const', 'taint'):
                    r = a
                else:
                    na = tuple(go(b) for b in a.args)
                    r = a if na == a.args else rebuild(a.op, na)
                memo[a] = r
            return r
        if isinstance(a, tuple):
            return tuple(go(b) for b in a)
        return a
    return go(t)


def subterms(t):
    """all subterms, as an insertion-ordered dict view (deterministic)"""
    if isinstance(t, T):
        r = t._sub
        if r is None:
            r = t._sub = _subterms(t)
        return r
    return _subterms(t)


def _subterms(t):
    seen = {}
    stack = [t]
    while stack:
        a = stack.pop()
        if isinstance(a, tuple):
            stack.extend(a)
        elif isinstance(a, T) and a not in seen:
            seen[a] = None
            stack.extend(a.args)
    return seen.keys()


def syms(t):
    if isinstance(t, T):
        r = t._sy
        if r is None:
            r = t._sy = frozenset(s for s in subterms(t) if s.op in ('sym', 'taint'))
        return r
    return frozenset(s for s in subterms(t) if s.op in ('sym', 'taint'))


def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x) for x in t) + ')'
        return str(t)
    if depth > 6:
        return '..'
    s = lambda x: show(x, depth + 1)
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'taint':
        return '?' + t.args[0]
    if t.op == 'const':
        return repr(t.args[1])
    if t.op == 'lin':
        ps = ['%s%s' % ('' if k == 1 else '-' if k == -1 else '%s*' % k, s(x)) for x, k in t.args[0]]
        if t.args[1] != 0 or not ps:
            ps.append(str(t.args[1] if t.args[1].denominator < 1000 else float(t.args[1])))
        return '(' + ' + '.join(ps) + ')' if len(ps) > 1 else ps[0]
    if t.op == 'mono':
        return '*'.join(s(x) if e == 1 else '%s^%s' % (s(x), e) for x, e in t.args[0])
    if t.op == 'le0':
        return '%s <= 0' % s(t.args[0])
    if t.op == 'lt0':
        return '%s < 0' % s(t.args[0])
    return '%s(%s)' % (t.op, ', '.join(s(a) if isinstance(a, T) else show(a) for a in t.args))
