"""Entailment over the fact set of an abstract state.

The domain is: boolean literals and small clauses over uninterpreted atoms, plus linear inequalities over the rationals
(with min/max, |.|, product-of-bounded-factor and positive-monomial lemmas).  Everything is exact rational arithmetic; no
solver is involved.  `entails` answers True only when a refutation of the negated goal is found."""
from fractions import Fraction
from .terms import *
from . import terms as TT
import math

STATS = {'calls': 0, 'lp': 0}


# ---- exact rational feasibility of  a.x <= b / a.x < b  (phase-1 simplex, Bland) ------------------------
def _int_row(d, c):
    """coefficients as coprime integers keyed by term, constant as Fraction"""
    l = 1
    for b in d.values():
        q = b.denominator
        if q != 1:
            l = l * q // math.gcd(l, q)
    e = {a: (b.numerator * (l // b.denominator)) for a, b in d.items() if b}
    g = 0
    for b in e.values():
        g = math.gcd(g, b)
    if g > 1:
        e = {a: b // g for a, b in e.items()}
    c = c * l
    return e, (c / g if g > 1 else c)


def lp_infeasible(rows):
    """rows: list of (dict var->coef, const, strict): sum + const (<|<=) 0.  True if infeasible (Fourier-Motzkin)."""
    STATS['lp'] += 1
    best = {}

    def put(d, c, s):
        if not d:
            return c > 0 or (s and c >= 0)
        key = tuple(sorted([(a.id, b) for a, b in d.items()]))
        o = best.get(key)
        if o is None or (c, s) > (o[1], o[2]):
            best[key] = (d, c, s)
        return False
    for d, c, s in rows:
        d, c = _int_row(d, Fraction(c))
        if put(d, c, s):
            return True
    while True:
        cur = list(best.values())
        if not cur:
            return False
        vs = {}
        for d, c, s in cur:
            for v, k in d.items():
                p = vs.get(v)
                if p is None:
                    p = vs[v] = [0, 0]
                p[0 if k > 0 else 1] += 1
        v, (p, n) = min(vs.items(), key=lambda it: (it[1][0] * it[1][1] - it[1][0] - it[1][1], it[0].id))
        pos, ng, rest = [], [], []
        for r in cur:
            k = r[0].get(v)
            (rest if k is None else pos if k > 0 else ng).append(r)
        if len(pos) * len(ng) + len(rest) > 600:
            return False
        best = {}
        for d, c, s in rest:
            put(d, c, s)
        for d1, c1, s1 in pos:
            k1 = d1[v]
            for d2, c2, s2 in ng:
                k2 = -d2[v]
                g = math.gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {a: b * m1 for a, b in d1.items()}
                for a, b in d2.items():
                    x = d.get(a, 0) + b * m2
                    if x:
                        d[a] = x
                    else:
                        d.pop(a, None)
                c = c1 * m1 + c2 * m2
                g = 0
                for b in d.values():
                    g = math.gcd(g, b)
                    if g == 1:
                        break
                if g > 1:
                    d = {a: b // g for a, b in d.items()}
                    c = c / g
                if put(d, c, s1 or s2):
                    return True


class Ctx(object):
    """facts -> unit literals (set) + clauses; immutable"""

    def __init__(self, facts):
        self.lits = set()
        self.clauses = []
        self.bad = False
        self.dirty = []
        for f in facts:
            self.add(f)
        self.propagate()

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.lits, c.clauses, c.bad = set(self.lits), list(self.clauses), self.bad
        return c

    def add(self, f):
        if f is TRUE:
            return
        if f is FALSE:
            self.bad = True
        elif f.op == 'and':
            for x in f.args:
                self.add(x)
        elif f.op == 'or':
            self.clauses.append(f)
        elif f.op == 'ite':
            self.clauses.append(bor(bnot(f.args[0]), f.args[1]))
            self.clauses.append(bor(f.args[0], f.args[2]))
        else:
            if bnot(f) in self.lits:
                self.bad = True
            self.lits.add(f)

    def signs(self):
        r = getattr(self, '_signs', None)
        if r is None or self._nsig != len(self.lits):
            r = self._signs = {}
            self._nsig = len(self.lits)
            idx = self._idx = {}
            for f in self.lits:
                if f.op in ('le0', 'lt0'):
                    for a in parts(f.args[0])[0]:
                        idx.setdefault(a, []).append(f)
        return r

    def about(self, t):
        self.signs()
        return self._idx.get(t, ())

    def holds(self, a):
        """syntactic truth value of a literal: True/False/None"""
        if a is TRUE or a in self.lits:
            return True
        if a is FALSE or bnot(a) in self.lits:
            return False
        if a.op == 'le0' and mk('lt0', a.args[0]) in self.lits:
            return True
        if a.op == 'not' and a.args[0].op == 'eq0':
            d = a.args[0].args[0]
            if mk('lt0', d) in self.lits or mk('lt0', neg(d)) in self.lits:
                return True
        return None

    def propagate(self):
        ch = True
        while ch and not self.bad:
            ch = False
            rest = []
            for c in self.clauses:
                if c is TRUE:
                    continue
                if c.op != 'or':
                    n = len(self.lits)
                    self.add(c)
                    ch = True
                    continue
                keep = []
                sat = False
                for x in c.args:
                    h = self.holds(x)
                    if h is True:
                        sat = True
                        break
                    if h is None:
                        keep.append(x)
                if sat:
                    continue
                if len(keep) < len(c.args):
                    d = bor(*keep)
                    ch = True
                    if d.op == 'or':
                        rest.append(d)
                    else:
                        self.add(d)
                else:
                    rest.append(c)
            # clauses added during add()
            self.clauses = rest


def _lemmas(terms, ctx):
    """linear lemmas about the non-linear subterms occurring in the given terms"""
    out = []
    for t in terms:
        if t.op == 'min':
            for a in t.args:
                out.append(le(t, a))
        elif t.op == 'max':
            for a in t.args:
                out.append(le(a, t))
        elif t.op == 'abs':
            out += [le(t.args[0], t), le(neg(t.args[0]), t)]
        elif t.op == 'vmin':
            out.append(le(t, t.args[0]))
        elif t.op == 'vmax':
            out.append(le(t.args[0], t))
        elif t.op in ('sumsq', 'norm', 'len', 'nns'):
            out.append(le(const(0), t))
        elif t.op == 'mono':
            out += _mono_lemmas(t, ctx)
    return out


def _sign(t, ctx, depth=0):
    """'+' (>0), '0+' (>=0), None"""
    n = num(t)
    if n is not None:
        return '+' if n > 0 else '0+' if n == 0 else None
    m = ctx.signs()
    k = (t, depth if depth < 2 else 2)
    if k in m:
        return m[k]
    m[k] = None
    r = m[k] = _sign0(t, ctx, depth)
    return r


def _sign0(t, ctx, depth):
    n = num(t)
    if n is not None:
        return '+' if n > 0 else '0+' if n == 0 else None
    if lt(const(0), t) in ctx.lits:
        return '+'
    if le(const(0), t) in ctx.lits or t.op in ('sumsq', 'norm', 'abs', 'len'):
        return '0+'
    if t.op == 'lin':
        ss = []
        for x, k in t.args[0]:
            s = _sign(x, ctx, depth + 1) if k > 0 else None
            if s is None:
                break
            ss.append(s)
        else:
            if t.args[1] >= 0:
                return '+' if ('+' in ss or t.args[1] > 0) else '0+'
    if t.op == 'mono':
        ss = [_sign(x, ctx, depth + 1) if not (e.denominator == 1 and e.numerator % 2 == 0) else (_sign(x, ctx, depth + 1) or '0+')
              for x, e in t.args[0]]
        if all(s == '+' for s in ss):
            return '+'
        if all(s for s in ss):
            return '0+'
    if t.op == 'max' and any(_sign(x, ctx, depth + 1) == '+' for x in t.args):
        return '+'
    if t.op == 'max' and any(_sign(x, ctx, depth + 1) for x in t.args):
        return '0+'
    if t.op == 'min':
        ss = [_sign(x, ctx, depth + 1) for x in t.args]
        if all(s == '+' for s in ss):
            return '+'
        if all(ss):
            return '0+'
    if depth < 2:
        # one linear step: a fact  u <= t  with u known positive
        for f in ctx.about(t):
            if f.op in ('le0', 'lt0'):
                d, c = parts(f.args[0])
                k = d.get(t)
                if k is not None and k < 0:
                    rest = scale(add(f.args[0], t, -k), Fraction(-1) / k)    # rest <= t (up to sign)
                    rest = neg(rest) if False else scale(sub(f.args[0], scale(t, k)), Fraction(1) / -k)
                    if rest.size < 30 and t not in subterms(rest):
                        s = _sign(rest, ctx, depth + 1)
                        if s == '+' or (s and f.op == 'lt0'):
                            return '+'
                        if s:
                            return '0+'
    return None


def _bounds(t, ctx):
    """constant bounds [lo, hi] of an atom from unit facts"""
    lo = hi = None
    n = num(t)
    if n is not None:
        return n, n
    for f in ctx.about(t):
        if f.op in ('le0', 'lt0'):
            d, c = parts(f.args[0])
            if len(d) == 1 and t in d:
                k = d[t]
                b = -c / k
                if k > 0:
                    hi = b if hi is None else min(hi, b)
                else:
                    lo = b if lo is None else max(lo, b)
    return lo, hi


def _mono_lemmas(t, ctx):
    out = []
    s = _sign(t, ctx)
    if s == '+':
        out.append(lt(const(0), t))
    elif s:
        out.append(le(const(0), t))
    for x, e in t.args[0]:
        if e == 1:
            lo, hi = _bounds(x, ctx)
            if lo is None and hi is None:
                continue
            rest = mono(1, {y: f for y, f in t.args[0] if y is not x})
            if _sign(rest, ctx):
                if hi is not None:
                    out.append(le(t, scale(rest, hi)))
                if lo is not None:
                    out.append(le(scale(rest, lo), t))
    if s is None and (lt(const(0), t) in ctx.lits or le(const(0), t) in ctx.lits):
        pass
    if lt(const(0), t) in ctx.lits:
        unk = [(x, e) for x, e in t.args[0] if not _sign(x, ctx)]
        if len(unk) == 1 and unk[0][1].denominator == 1 and unk[0][1].numerator % 2:
            out.append(lt(const(0), unk[0][0]))
    # z/w with 0<w<=1 : quotient at least numerator
    for x, e in t.args[0]:
        if e == -1:
            lo, hi = _bounds(x, ctx)
            rest = mono(1, {y: f for y, f in t.args[0] if y is not x})
            if _sign(x, ctx) == '+' and _sign(rest, ctx):
                if hi is not None and hi > 0:
                    out.append(le(scale(rest, 1 / hi), t))
                if lo is not None and lo > 0:
                    out.append(le(t, scale(rest, 1 / lo)))
    return out


def _log_form(t, ctx):
    """log of a positive monomial: (dict base->exp, ) or None; constants become pseudo-variables"""
    k, d = TT._monomial(t)
    if k <= 0:
        return None
    r = {}
    for x, e in d.items():
        if _sign(x, ctx) != '+':
            return None
        r[mk('log', x)] = e
    if k != 1:
        r[mk('logc', lin({}, k))] = Fraction(1)
    return r


def _log_rows(lits, ctx):
    rows = []
    for f in lits:
        if f.op not in ('le0', 'lt0'):
            continue
        d, c = parts(f.args[0])
        p = [(x, k) for x, k in d.items() if k > 0]
        n = [(x, k) for x, k in d.items() if k < 0]
        if c > 0:
            p.append((const(1), c))
        elif c < 0:
            n.append((const(1), c))
        if len(p) == 1 and len(n) == 1:
            a = _log_form(scale(p[0][0], p[0][1]), ctx)
            b = _log_form(scale(n[0][0], -n[0][1]), ctx)
            if a is not None and b is not None:
                row = dict(a)
                for x, e in b.items():
                    row[x] = row.get(x, 0) - e
                row = {x: e for x, e in row.items() if e != 0}
                rows.append((row, Fraction(0), f.op == 'lt0'))
    for row, _, _ in list(rows):
        for x in row:
            if x.op == 'logc':
                k = num(x.args[0])
                r = (({x: Fraction(1)}, Fraction(0), True) if k < 1 else ({x: Fraction(-1)}, Fraction(0), True))
                rows.append(r)
    return rows


def _atoms_of(row_terms):
    s = set()
    for t in row_terms:
        s.update(subterms(t))
    return s


def _lin_atoms(t):
    r = t._atoms
    if r is None:
        r = set(parts(t)[0])
        for x in list(r):
            if x.op == 'mono':
                r |= {y for y, e in x.args[0]}
        r = t._atoms = frozenset(r)
    return r


def _cleared(f, ctx):
    """A/x < 0 with x of known sign (or zero: the quotient then has the sign of +-A)  =>  A < 0 or A > 0"""
    if f.op not in ('lt0', 'le0'):
        return None
    d, c = parts(f.args[0])
    if c != 0 or not d or len(d) > 6 or not all(a.op == 'mono' for a in d):
        return None
    common = None
    for a in d:
        q = {x for x, e in a.args[0] if e == -1}
        common = q if common is None else common & q
    for x in sorted(common or (), key=lambda t: t.id):
        A = const(0)
        for a, k in d.items():
            A = add(A, scale(mono(1, {y: e for y, e in a.args[0] if y is not x}), k))
        if _sign(x, ctx):
            return lt(A, const(0)) if f.op == 'lt0' else le(A, const(0))
        if _sign(neg(x), ctx):
            return lt(const(0), A) if f.op == 'lt0' else le(const(0), A)
    return None


def _refute(ctx, focus):
    """is the set of unit literals inconsistent?  focus: terms that are relevant (the negated goal's)"""
    if ctx.bad:
        return True
    arith = [f for f in ctx.lits if f.op in ('le0', 'lt0', 'eq0')]
    arith += [mk('eq0', sub(*f.args)) for f in ctx.lits if f.op == 'eq' and f.args[0].op != 'const' and f.args[1].op != 'const']
    # relevance closure from the focus through shared atoms
    rel = {}
    vs = set()
    for t in focus:
        vs |= set(parts(t)[0])
    frontier = True
    atoms = _lin_atoms
    pool = [(f, atoms(f.args[0])) for f in arith]
    lem_done = set()
    lemmas = []
    rounds = 0
    while frontier and rounds < 6:
        rounds += 1
        frontier = False
        for f, av in pool:
            if f not in rel and (av & vs or not av):
                rel[f] = 1
                if not av <= vs:
                    vs |= av
                    frontier = True
        new = [t for t in vs if t not in lem_done]
        lem_done |= set(new)
        ls = _lemmas(new, ctx)
        for l in ls:
            if l.op in ('le0', 'lt0'):
                av = atoms(l.args[0])
                lemmas.append(l)
                if not av <= vs:
                    vs |= av
                    frontier = True
    for f in list(rel):
        l = _cleared(f, ctx)
        if l is not None:
            lemmas.append(l)
            for x in atoms(l.args[0]):
                if x not in vs:
                    vs.add(x)
                    for g, av in pool:
                        if x in av and g not in rel:
                            rel[g] = 1
    rows = []
    for f in list(rel) + lemmas:
        d, c = parts(f.args[0])
        if f.op == 'eq0':
            rows.append((d, c, False))
            rows.append(({a: -b for a, b in d.items()}, -c, False))
        else:
            rows.append((dict(d), c, f.op == 'lt0'))
    if lp_infeasible(rows):
        return True
    if any(x.op == 'mono' for x in vs):
        lr = _log_rows(list(rel) + lemmas, ctx)
        if lr and lp_infeasible(lr):
            return True
    return False


def _split_terms(goal_terms, ctx):
    """an ite condition / min / max / clause to split on"""
    for t in goal_terms:
        if not t.ite:
            continue
        for s in subterms(t):
            if s.op == 'ite' and ctx.holds(s.args[0]) is None:
                return ('bool', s.args[0])
    for t in goal_terms:
        for s in subterms(t):
            if s.op in ('min', 'max'):
                return ('mm', s)
    return None


def _resolve(t, ctx, memo):
    """replace ite with decided conditions"""
    r = memo.get(t)
    if r is not None:
        return r
    if not t.ite:
        return t
    m = {}
    for s in subterms(t):
        if s.op == 'ite':
            h = ctx.holds(s.args[0])
            if h is not None:
                m[s] = s.args[1] if h else s.args[2]
    r = subst(t, m) if m else t
    if r is not t:
        r = _resolve(r, ctx, memo)
    memo[t] = r
    return r


def _refute_split(ctx, focus, depth):
    if ctx.bad:
        return True
    memo = {}
    # resolve decided ite inside arithmetic literals in focus neighbourhood
    ch = False
    new = []
    drop = []
    for f in ctx.lits:
        if f.ite:
            r = _resolve(f, ctx, memo)
            if r is not f:
                drop.append(f)
                new.append(r)
    if new:
        ctx = ctx.copy()
        for f in drop:
            ctx.lits.discard(f)
        for f in new:
            ctx.add(f)
        ctx.propagate()
        if ctx.bad:
            return True
        focus = [_resolve(t, ctx, memo) for t in focus]
    if _refute(ctx, focus):
        return True
    if depth <= 0:
        return False
    # facts that define focus atoms by ite/minmax count too
    pool = list(focus)
    fs = set()
    for t in focus:
        fs |= set(parts(t)[0])
    for f in ctx.lits:
        if f.op in ('le0', 'lt0', 'eq0') and set(parts(f.args[0])[0]) & fs:
            pool.append(f.args[0])
    sp = _split_terms(pool, ctx)
    if sp is None:
        for c in ctx.clauses:
            if c.op == 'or' and len(c.args) <= 3 and any(set(parts(x.args[0])[0]) & fs for x in c.args if x.op in ('le0', 'lt0', 'eq0')):
                sp = ('clause', c)
                break
    if sp is None:
        return False
    cases = []
    sb = None
    if sp[0] == 'bool':
        cases = [[sp[1]], [bnot(sp[1])]]
    elif sp[0] == 'mm':
        s = sp[1]
        cases, sb = [], []
        for a in s.args:
            cases.append([le(a, o) if s.op == 'min' else le(o, a) for o in s.args if o is not a])
            sb.append({s: a})
    else:
        cases = [[x] for x in sp[1].args]
    for i, case in enumerate(cases):
        c2 = ctx.copy()
        fz = focus
        if sb:
            fz = [subst(t, sb[i]) for t in focus]
            hit = [f for f in c2.lits if sp[1] in subterms(f)]
            for f in hit:
                c2.lits.discard(f)
                c2.add(subst(f, sb[i]))
        for f in case:
            c2.add(f)
        c2.propagate()
        foc = list(fz) + [f.args[0] for f in case if f.op in ('le0', 'lt0', 'eq0')]
        if not _refute_split(c2, foc, depth - 1):
            return False
    return True


_cache = {}


def entails(facts, goal, depth=5):
    """facts: iterable/frozenset of boolean terms"""
    STATS['calls'] += 1
    if goal is TRUE:
        return True
    key = (facts if isinstance(facts, frozenset) else frozenset(facts), goal, depth)
    r = _cache.get(key)
    if r is None:
        r = _entails(key[0], goal, depth)
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = r
    return r


_ctxcache = {}


def ctx_of(facts):
    c = _ctxcache.get(facts)
    if c is None:
        c = Ctx(facts)
        if len(_ctxcache) > 3000:
            _ctxcache.clear()
        _ctxcache[facts] = c
    return c


def _entails(facts, goal, depth):
    ctx = ctx_of(facts)
    if ctx.bad:
        return True
    return _goal(ctx, goal, depth)


def mk2(op, t):
    return le(t, const(0)) if op == 'le0' else lt(t, const(0))


def _goal(ctx, goal, depth):
    if goal is TRUE:
        return True
    if goal.op == 'and':
        return all(_goal(ctx, g, depth) for g in goal.args)
    h = ctx.holds(goal)
    if h is True:
        return True
    if goal.op == 'ite':
        for c, g in ((goal.args[0], goal.args[1]), (bnot(goal.args[0]), goal.args[2])):
            c2 = ctx.copy()
            c2.add(c)
            c2.propagate()
            if not c2.bad and not _goal(c2, g, depth - 1):
                return False
        return True
    if goal.op == 'or':
        # assume all other disjuncts false
        for i, g in enumerate(goal.args):
            c2 = ctx.copy()
            for j, o in enumerate(goal.args):
                if j != i:
                    c2.add(bnot(o))
            c2.propagate()
            if c2.bad or _goal(c2, g, depth - 1):
                return True
        for s in subterms(goal):
            if s.op == 'ite' and depth > 0 and ctx.holds(s.args[0]) is None:
                for c, v in ((s.args[0], s.args[1]), (bnot(s.args[0]), s.args[2])):
                    c3 = _with(ctx, c)
                    if not c3.bad and not _goal(c3, _resolve(subst(goal, {s: v}), c3, {}), depth - 1):
                        return False
                return True
        return False
    if goal.op == 'eq0':
        d = goal.args[0]
        return _goal(ctx, le(d, const(0)), depth) and _goal(ctx, le(neg(d), const(0)), depth)
    if goal.op == 'eq' and goal.args[0].op != 'const' and goal.args[1].op != 'const':
        d = sub(*goal.args)
        if _goal(ctx, le(d, const(0)), depth) and _goal(ctx, le(neg(d), const(0)), depth):
            return True
    if goal.op == 'not' and goal.args[0].op in ('eq', 'eq0'):
        return _prove_ne(ctx, goal, depth)
    if goal.op in ('le0', 'lt0') and depth > 0:
        d, _ = parts(goal.args[0])
        for a, k in d.items():
            if (a.op == 'max' and k > 0) or (a.op == 'min' and k < 0):
                g0 = sub(goal.args[0], scale(a, k))
                if a not in subterms(g0) and g0.size < 40:
                    # the extreme one is bounded exactly when each one is
                    return all(_goal(ctx, mk2(goal.op, add(g0, scale(x, k))), depth - 1) for x in a.args)
    c2 = ctx.copy()
    n = bnot(goal)
    c2.add(n)
    c2.propagate()
    if c2.bad:
        return True
    focus = [goal.args[0]] if goal.op in ('le0', 'lt0') else []
    if goal.op in ('le0', 'lt0', 'eq0'):
        # pull every ite in the goal to the front, then refute
        return _refute_split(c2, [n.args[0] if n.op in ('le0', 'lt0', 'eq0') else n.args[0].args[0]], depth)
    # propositional goal: split on ite conditions inside it
    for s in subterms(goal):
        if s.op == 'ite' and depth > 0 and ctx.holds(s.args[0]) is None:
            for c, v in ((s.args[0], s.args[1]), (bnot(s.args[0]), s.args[2])):
                c3 = ctx.copy()
                c3.add(c)
                c3.propagate()
                if not c3.bad and not _goal(c3, _resolve(subst(goal, {s: v}), c3, {}), depth - 1):
                    return False
            return True
    r = _resolve(goal, ctx, {})
    if r is not goal:
        return _goal(ctx, r, depth)
    return _refute_split(c2, [], 0) if False else False


def _prove_ne(ctx, goal, depth):
    """a != b: assume a == b, rewrite b by a in the facts, look for a contradiction"""
    e = goal.args[0]
    if e.op == 'eq0':
        d = e.args[0]
        if _refute_split(_with(ctx, e), [d], depth):
            return True
        ps, c = parts(d)
        items = list(ps.items())
        if c == 0 and len(items) == 2 and items[0][1] == -items[1][1]:
            a, b = items[0][0], items[1][0]
        elif len(items) >= 1:
            # solve for one unit-coefficient atom
            a = items[0][0]
            b = neg(scale(sub(d, scale(a, items[0][1])), 1 / items[0][1]))
        else:
            return False
    else:
        a, b = e.args
        if a.op != 'const' and b.op != 'const' and _refute_split(_with(ctx, e), [sub(a, b)], depth):
            return True
    for x, y in ((a, b), (b, a)):
        if x.op in ('lin', 'const'):
            continue
        fs = [subst(f, {x: y}) for f in ctx.lits if f is not goal]
        c2 = Ctx(fs + list(ctx.clauses))
        if c2.bad:
            return True
        foc = [f.args[0] for f in fs if f.op in ('le0', 'lt0') and y in subterms(f)]
        if foc and _refute_split(c2, foc, 1):
            return True
    # disequality by ite splitting
    for s in subterms(goal):
        if s.op == 'ite' and depth > 0 and ctx.holds(s.args[0]) is None:
            for c, v in ((s.args[0], s.args[1]), (bnot(s.args[0]), s.args[2])):
                c3 = _with(ctx, c)
                if not c3.bad and not _goal(c3, _resolve(subst(goal, {s: v}), c3, {}), depth - 1):
                    return False
            return True
    r = _resolve(goal, ctx, {})
    if r is not goal:
        return _goal(ctx, r, depth)
    return False


def _with(ctx, f):
    c = ctx.copy()
    c.add(f)
    c.propagate()
    return c


def decide(facts, cond):
    """True / False / None, cheap"""
    if cond is TRUE:
        return True
    if cond is FALSE:
        return False
    f = facts if isinstance(facts, frozenset) else frozenset(facts)
    ctx = ctx_of(f)
    h = ctx.holds(cond)
    if h is not None:
        return h
    if entails(f, cond, 1):
        return True
    if entails(f, bnot(cond), 1):
        return False
    return None


def unsat(facts):
    """are the facts contradictory as a whole?"""
    f = facts if isinstance(facts, frozenset) else frozenset(facts)
    if FALSE in f:
        return True
    ctx = ctx_of(f)
    if ctx.bad:
        return True
    return _refute_split(ctx, [x.args[0] for x in ctx.lits if x.op in ('le0', 'lt0', 'eq0')], 2)
