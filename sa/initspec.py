"""C14: the coordinate initial set (steps inside the bounds, of the right size, along their own coordinate) and the random direction generators
(number, length and bounds of what they return).

Method: one arbitrary iteration of each loop of the construction is interpreted; the row (or column) it writes is followed through the definitions of
the array and compared with what the property allows.  No iteration is executed."""
import ast
import os
import re
import traceback
from .terms import *
from .interp import *
from . import terms as TT
from .prove import unsat
from .kernels import KHooks, KInterp
from .modelspec import attrs_of

Z, ONE = const(0), const(1)
CLIP = {'np.minimum': 'min', 'np.maximum': 'max', 'np.fmin': 'min', 'np.fmax': 'max'}


class Rec_(object):
    pass


def factors(t):
    """(coefficient, [(base, exponent)]) of a product"""
    d, c = parts(t)
    if c != 0 or len(d) != 1:
        return None
    (a, k), = d.items()
    if a.op == 'mono':
        return k, [(b, e) for b, e in a.args[0]]
    if a.op == 'pow':
        return k, [(a.args[0], a.args[1])]
    return k, [(a, 1)]


class IHooks(KHooks):
    """shared: records stores, loops and the calls of interest"""
    opaque = ()

    def __init__(self):
        KHooks.__init__(self)
        self.stores, self.calls = [], []
        self.args = {}

    def allow_map(self, node):
        return False

    def record(self, I, st, what, *vals):
        if not self.trialing:
            self.calls.append((what, 'controller.py:%s' % (I.stack[-1][1] if I.stack else '?'), st.copy()) + vals)


class GHooks(IHooks):
    def call_function(self, I, st, qual, node, selfv, bound):
        if getattr(node, 'name', '') == 'get_scale' and self.root != 'get_scale':
            ps = [a.arg for a in node.args.args]
            return [(mk('gscale', *[I.T(bound[p]) for p in ps]), st)]
        return KHooks.call_function(self, I, st, qual, node, selfv, bound)

    def on_store(self, I, st, arr, key, v):
        if not self.trialing and not unsat(st.fz()):
            self.stores.append((arr, tuple(key), v, st.copy(), I.curline() if hasattr(I, 'curline') else 0))
        return KHooks.on_store(self, I, st, arr, key, v)


class CHooks(IHooks):
    def call_function(self, I, st, qual, node, selfv, bound):
        nm = getattr(node, 'name', '')
        if isinstance(node, ast.Lambda):
            return None
        vals = [v for k, v in bound.items() if k != 'self']
        if nm == 'n':
            return [(sym('n'), st)]
        if nm == 'npt':
            return [(sym('npt'), st)]
        if nm == 'as_absolute_coordinates':
            return [(mk('abs', I.T(vals[0])), st)]
        if nm == 'evaluate_objective':
            self.record(I, st, 'eval', I.T(vals[0]))
            ex = fresh('exit')
            return [(Tup((fresh('rv'), fresh('ob'), fresh('nsr'), ex)), st)]
        if nm in ('change_point', 'add_new_sample', 'save_point', 'add_new_point'):
            return [(NONE, st)]
        return KHooks.call_function(self, I, st, qual, node, selfv, bound)

    def on_store(self, I, st, arr, key, v):
        if not self.trialing:
            self.stores.append((arr, tuple(key), v, st.copy(), 0))
        return KHooks.on_store(self, I, st, arr, key, v)


class InitSpec(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep = prog, rep

    def guard(self, f, *a):
        try:
            f(*a)
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.rep.ok(['C14'], f.__name__, 'dfols', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    def ok(self, rule, where, text, cond, detail=''):
        self.rep.ok(['C14'], rule, where, text, cond, detail)

    def all(self):
        self.guard(self.scale_contract)
        for f in ('random_orthog_directions_within_bounds', 'random_directions_within_bounds'):
            if f in self.prog.mods['util'].funcs:
                self.guard(self.generator, f)
        self.guard(self.coordinate)

    # ------------------------------------------------------------------ get_scale
    def run_util(self, fname, over=None, facts=()):
        node = self.prog.mods['util'].funcs[fname]
        h = GHooks()
        I = KInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs, I.nojoin, I.maydef = True, True, {}, 64, True
        h.I, h.dyk, h.dyklist, h.apps, h.root = I, [], {}, [], fname
        A = {a.arg: sym(a.arg) for a in node.args.args}
        A.update(over or {})
        ps = [a.arg for a in node.args.args]
        h.arrs |= {A[p] for p in ps if p in ('dirn', 'lower', 'upper') or fname == 'get_scale' and p in (ps[0], ps[2], ps[3])}
        st = State()
        st.frames = [{}]
        for f in facts:
            st.assume(f)
        I.modstack.append('util')
        outs = I.inline(Fn(node, 'util', qual=fname), dict(A), st, node)
        self.rep.analysed |= {'%s (util.py)' % q for q in I.funcs_seen}
        self.line = 'util.py:%d' % node.lineno
        return h, I, outs, [A[p] for p in ps]

    def scale_contract(self):
        if 'get_scale' not in self.prog.mods['util'].funcs:
            return
        h, I, outs, ps = self.run_util('get_scale')
        dirn, delta, lo, up = ps[:4]
        self.vecs = frozenset((dirn, lo, up))
        w = self.line

        def facts(t, x):
            """0 <= upper, lower <= 0 at every component read"""
            s = x.copy()
            s.assume(lt(Z, delta))
            for e in subterms(t):
                if e.op == 'idx' and e.args[0] is lo:
                    s.assume(le(e, Z))
                if e.op == 'idx' and e.args[0] is up:
                    s.assume(le(Z, e))
            return s
        loops = [e for e in h.events if e[0] == 'loop']
        verdict, bad = True, ''
        heads = {}
        for ev in loops:
            for k, v in ev[3].env.items():
                if isinstance(v, T):
                    heads[v] = (k, ev)
        for v, s in outs:
            if not isinstance(v, T) or v.taint:
                verdict = None
                continue
            v = self.full(I, v)
            if v in heads:
                k, ev = heads[v]
                v0 = ev[2].env.get(k)
                r = self.within(facts(v0, ev[2]), v0, delta)
                for b in ev[4]:
                    t = self.full(I, b.env.get(k), keep=v)
                    s2 = facts(t, b)
                    for g in subterms(t):
                        if g.op == 'div' or g.op == 'pow':
                            pass
                    s2.assume(le(Z, v))
                    s2.assume(le(v, delta))
                    q = self.cases(s2, t, lambda st, x: self.within(st, x, delta))
                    if q is not True:
                        r = q if r is True or q is False else r
                        bad = show(t)[:300]
            else:
                r = self.cases(facts(v, s), v, lambda st, x: self.within(st, x, delta))
                bad = show(v)[:200] if r is not True else bad
            if r is not True:
                verdict = r if verdict is not False else False
        self.ok('scale', w, 'the scale factor found for a direction is between zero and the requested length', verdict, bad)

    def within(self, st, t, delta):
        """0 <= t <= delta"""
        if not isinstance(t, T) or t.taint:
            return None
        st = st.copy()
        if self.split_entails(st, band(le(Z, t), le(t, delta))):
            return True
        ok = {'idx', 'sym', 'const', 'lin', 'mono', 'min', 'max', 'ite', 'le0', 'lt0', 'eq0', 'not', 'and', 'or'}
        return None if any(x.op not in ok or x.op == 'idx' and x.args[0] not in self.vecs for x in subterms(t)) or any(x.taint or x.op == 'sym' and '#' in x.args[0] and not x.args[0].startswith('L') for x in subterms(t)) else False

    def full(self, I, t, keep=None):
        for _ in range(12):
            if not isinstance(t, T):
                return t
            m = {x: I.defs[x] for x in syms(t) if x in I.defs and x is not keep}
            if not m:
                return t
            t = subst(t, m)
        return t

    def cases(self, st, t, f, limit=40):
        """f(state, term) in every case of the conditionals in t: False if some feasible case is False, None if some is undecided"""
        work, n, res = [(st, t)], 0, True
        while work:
            s, x = work.pop()
            n += 1
            if n > limit:
                return None
            c = next((y.args[0] for y in subterms(x) if y.op == 'ite' and not any(z.op == 'ite' for z in subterms(y.args[0]))), None)
            if c is None:
                r = f(s, x)
                if r is not True:
                    res = r if r is False or res is True else res
                continue
            for pol in (True, False):
                cc = self.elem(c if pol else bnot(c))
                y = subst(x, {z: z.args[1 if pol else 2] for z in subterms(x) if z.op == 'ite' and z.args[0] is c})
                s2 = s.copy()
                if self.vecs and any(z in self.vecs for z in self.leaves(cc)):
                    return None         # a choice made for a whole vector at once
                if cc.taint:
                    work.append((s2, y))
                    continue
                if cc is FALSE or s2.entails(bnot(cc)):
                    continue
                s2.assume(cc)
                if unsat(s2.fz()):
                    continue
                work.append((s2, y))
        return res

    def elem(self, t):
        """elements of elementwise expressions: (a + b)[i] as a[i] + b[i]"""
        m = {}
        for s in subterms(t):
            if s.op == 'idx' and len(s.args) == 2 and isinstance(s.args[1], T) and s.args[1].op != 'slice':
                e = self._at(s.args[0], s.args[1])
                if e is not None and e is not s:
                    m[s] = e
        if m:
            t = subst(t, m)
        if t.op == 'truth' and is_bool(t.args[0]):
            t = t.args[0]
        mm = {s: s.args[0] for s in subterms(t) if s.op == 'truth' and isinstance(s.args[0], T) and is_bool(s.args[0])}
        return subst(t, mm) if mm else t

    def _at(self, a, i):
        if self.is_vec(a):
            return mk('idx', a, i)
        if a.op == 'lin':
            r = Z
            d, c = parts(a)
            r = add(r, lin({}, c))
            for x, k in d.items():
                e = self._at(x, i)
                if e is None:
                    return None
                r = add(r, scale(e, k))
            return r
        if a.op in ('le0', 'lt0', 'eq0'):
            e = self._at(a.args[0], i)
            return None if e is None else {'le0': le, 'lt0': lt, 'eq0': eq}[a.op](e, Z)
        if a.op in ('not', 'and', 'or'):
            xs = [self._at(x, i) for x in a.args]
            if any(x is None for x in xs):
                return None
            return bnot(xs[0]) if a.op == 'not' else band(*xs) if a.op == 'and' else bor(*xs)
        if a.op in ('min', 'max'):
            xs = [self._at(x, i) for x in a.args]
            return None if any(x is None for x in xs) else minmax(a.op, xs)
        if a.op == 'call' and a.args[0] in CLIP:
            xs = [self._at(x, i) for x in a.args[1:3]]
            return None if any(x is None for x in xs) else minmax(CLIP[a.args[0]], xs)
        if a.op == 'const' or a.op == 'sym' and a not in self.vecs:
            return a
        return None

    vecs = frozenset()

    def is_vec(self, a):
        return a in self.vecs

    # ------------------------------------------------------------------ generators
    def generator(self, fname):
        node = self.prog.mods['util'].funcs[fname]
        ps = [a.arg for a in node.args.args]
        confs = [('', {})]
        if len(ps) > 4:
            confs = [(' with negative directions', {ps[4]: TRUE}), (' without negative directions', {ps[4]: FALSE})]
        for txt, over in confs:
            self.one_generator(fname, txt, over)

    def one_generator(self, fname, txt, over):
        h, I, outs, A = self.run_util(fname, over)
        N, delta, lo, up = A[:4]
        w = self.line
        # length of what is stored
        cols = {}
        for arr, key, v, st, line in h.stores:
            if not isinstance(v, T) or len(key) != 2 or not isinstance(key[0], T):
                continue
            cols.setdefault((show(key[0])[:40] if key[0].op != 'slice' else ':', re.sub(r'#\d+', '', show(key[1])), re.sub(r'#\d+', '', show(v))), (arr, key, v, st))
        clipped = []
        nlen = 0
        for (r, c, vv), (arr, key, v, st) in sorted(cols.items(), key=lambda x: x[0]):
            if key[0].op != 'slice' or key[0].args[0] is not NONE:
                continue
            side = self.in_box(I, v, lo, up)
            src = [s for s in subterms(v) if s.op == 'idx' and len(s.args) == 3 and s.args[2] is key[1]]
            if side is not None and src:
                clipped.append((arr, key, v, st, side))
                continue
            nlen += 1
            s = st.copy()
            s.assume(lt(Z, delta))
            b = self.length(I, s, v, delta, arr)
            good = None
            if b == 'inf':
                good = False
            elif b is not None:
                good = True
                for conds, t in b:
                    s2 = s.copy()
                    for e in set().union(*[subterms(x) for x in list(conds) + [t]]):
                        if e.op == 'idx' and len(e.args) == 2 and e.args[0] in (lo, up):
                            s2.assume(le(e, Z) if e.args[0] is lo else le(Z, e))
                    dead = False
                    for cc in conds:
                        if s2.entails(bnot(cc)):
                            dead = True
                        s2.assume(cc)
                    if dead or s2.entails(le(t, delta)):
                        continue
                    good = False if not t.taint else None
            self.ok('length', w, '%s: a direction is no longer than requested (column %s%s)' % (fname, c, txt), good, 'length of %s is bounded by %s' % (
                show(v)[:200], b if b in ('inf', None) else [show(t) for _, t in b]))
        if not nlen:
            self.ok('length', w, '%s: the directions stored are recognised%s' % (fname, txt), None)
        # bounds and number of the result
        for v, s in outs:
            self.result(fname, txt, h, I, v, s, N, lo, up, clipped)

    def in_box(self, I, v, lo, up, depth=0):
        """True: lo <= v <= up for every component; False: clipped, but not to the bounds; None: not a clip"""
        if v.op == 'sym' and v in I.defs and depth < 6:
            return self.in_box(I, I.defs[v], lo, up, depth + 1)
        op = v.op if v.op in ('min', 'max') else CLIP.get(v.args[0]) if v.op == 'call' else None
        if v.op == 'call' and v.args[0] == 'np.clip' and len(v.args) >= 4:
            return strip_new(v.args[2]) is lo and strip_new(v.args[3]) is up
        if op is None:
            return None
        xs = [x for x in (v.args if v.op in ('min', 'max') else v.args[1:3]) if isinstance(x, T)]
        if len(xs) == 3 and v.op in ('min', 'max'):
            return False
        outer = [x for x in xs if strip_new(x) in (lo, up)]
        rest = [x for x in xs if x not in outer]
        if len(outer) != 1 or len(rest) != 1:
            return None
        o, i = strip_new(outer[0]), rest[0]
        while i.op == 'sym' and i in I.defs:
            i = I.defs[i]
        iop = i.op if i.op in ('min', 'max') else CLIP.get(i.args[0]) if i.op == 'call' else None
        if iop is None:
            return False
        ys = [strip_new(x) for x in (i.args if i.op in ('min', 'max') else i.args[1:3])]
        inner = [y for y in ys if y in (lo, up)]
        if len(inner) != 1:
            return False if not inner else None
        if op == 'max':
            return o is lo and iop == 'min' and inner[0] is up
        return o is up and iop == 'max' and inner[0] is lo

    def length(self, I, st, v, delta, arr):
        """upper bounds on |v| as [(conditions, bound)]; 'inf' when there is plainly none; None when unknown"""
        f = factors(v)
        if f is None:
            if v.op == 'ite':
                a, b = self.length(I, st, v.args[1], delta, arr), self.length(I, st, v.args[2], delta, arr)
                if 'inf' in (a, b):
                    return 'inf'
                return None if a is None or b is None else [([v.args[0]] + c, t) for c, t in a] + [([bnot(v.args[0])] + c, t) for c, t in b]
            return None
        k, fs = f
        bound, vec, inv, other = lin({}, abs(k)), [], [], None
        for b, e in fs:
            d = b
            while d.op == 'sym' and d in I.defs and I.defs[d].op in ('gscale', 'ite', 'const', 'sym', 'mono', 'lin') and not I.hooks.is_arr(d):
                d = I.defs[d]
            if d.op == 'gscale' and e == 1:
                bound = mul(bound, d.args[1])
            elif d.op == 'norm' and len(d.args) == 1:
                inv.append((d.args[0], e))
            elif d.op == 'norm' and len(d.args) == 2 and (num(d.args[1]) == 2 or d.args[1] is NONE):
                inv.append((d.args[0], e))
            elif d.op == 'norm' or d.op == 'vmax' and e == -1 and (d.args[0].op in ('abs', 'absv', 'vabs') or d.args[0].op == 'call' and d.args[0].args[0] in ('np.abs', 'abs')):
                other = d
            elif d.op == 'ite' and all(num(x) is not None and abs(num(x)) == 1 for x in d.args[1:]):
                pass
            elif self.vector(I, b) or any(x[0] is b for x in inv) or any(x.op == 'norm' and x.args[0] is b for x, _ in fs):
                if e != 1:
                    return None
                vec.append(b)
            elif b is delta or not b.taint and all(x.op != 'sym' or '#' not in x.args[0] for x in subterms(b)):
                bound = mul(bound, power(b, e))
            else:
                return None
        if len(vec) != 1:
            return None
        u = vec[0]
        if other is not None:           # another norm: the Euclidean length can be larger
            return 'inf' if self.is_random(I, u) and u in subterms(other) else None
        if inv:
            if len(inv) == 1 and inv[0][0] is u and inv[0][1] == -1:
                return [([], bound)]
            return 'inf' if self.is_random(I, u) else None
        r = self.unit(I, st, u, arr)
        if r == 'inf':
            return 'inf'
        return None if r is None else [(c, mul(bound, t)) for c, t in r]

    def vector(self, I, b):
        if b.op == 'ite':
            return all(self.vector(I, x) for x in b.args[1:])
        return b.op == 'idx' and len(b.args) == 3 and b.args[1].op == 'slice' or I.hooks.is_arr(b) or b.op == 'sym' and self.is_random(I, b)

    def is_random(self, I, t):
        t0 = t
        for _ in range(8):
            if t.op == 'sym' and t not in I.defs:
                ev = [(e, n) for e in I.hooks.events if e[0] == 'loop' for n, x in e[3].env.items() if x is t]
                if ev and isinstance(ev[-1][0][2].env.get(ev[-1][1]), T) and ev[-1][0][2].env.get(ev[-1][1]) is not t:
                    t = ev[-1][0][2].env.get(ev[-1][1])
                    continue
            if t.op == 'sym' and t.args[0].startswith('rnd'):
                return True
            if t.op == 'sym' and t in I.defs:
                t = I.defs[t]
            elif t.op == 'store':
                t = t.args[0]
            else:
                break
        return t.op == 'call' and 'normal' in str(t.args[0])

    def unit(self, I, st, u, arr):
        """length of a vector that was not explicitly normalised"""
        if u.op == 'ite':
            p, q = self.unit(I, st, u.args[1], arr), self.unit(I, st, u.args[2], arr)
            if 'inf' in (p, q):
                return 'inf'
            return None if p is None or q is None else [([u.args[0]] + c, t) for c, t in p] + [([bnot(u.args[0])] + c, t) for c, t in q]
        if u.op == 'idx' and len(u.args) == 3:
            a, col = u.args[0], u.args[2]
            return self.column(I, st, a, col)
        d = I.defs.get(u)
        if d is not None:
            f = factors(d)
            if f and any(b.op == 'norm' for b, e in f[1]):
                return self.length(I, st, d, None, arr)
        return 'inf' if self.is_random(I, u) else None

    def column(self, I, st, a, col, depth=0):
        if depth > 10:
            return None
        if a.op == 'ite':
            p, q = self.column(I, st, a.args[1], col, depth + 1), self.column(I, st, a.args[2], col, depth + 1)
            if 'inf' in (p, q):
                return 'inf'
            return None if p is None or q is None else [([a.args[0]] + c, t) for c, t in p] + [([bnot(a.args[0])] + c, t) for c, t in q]
        if a.op == 'sym' and a in I.defs:
            return self.column(I, st, I.defs[a], col, depth + 1)
        if a.op == 'idx' and a.args[0].op == 'call' and str(a.args[0].args[0]).endswith('.qr') and num(a.args[1]) == 0:
            return [([], ONE)]              # orthonormal columns
        if a.op == 'where' and isinstance(a.args[1], T) and self.zero(I, a.args[2]):
            v = a.args[1]               # rows chosen by a mask, zero elsewhere
            if v.op == 'idx' and len(v.args) == 2 and v.args[0].op == 'call' and str(v.args[0].args[0]).endswith('.qr'):
                return [([], ONE)] if num(v.args[1]) == 0 else 'inf'
            return 'inf' if self.is_random(I, v) else None
        if a.op == 'store':
            key = a.args[1]
            v = a.args[2]
            if len(key) == 1 and isinstance(v, T) and v.op == 'idx' and v.args[0].op == 'call' and str(v.args[0].args[0]).endswith('.qr') and self.zero(I, a.args[0]):
                return [([], ONE)] if num(v.args[1]) == 0 else 'inf'
            if len(key) == 2 and key[1] is col and key[0].op != 'slice' and isinstance(v, T):
                # a single entry in a column of zeros
                x = v
                if x.op == 'ite' and all(num(y) is not None for y in x.args[1:]):
                    return [([], lin({}, max(abs(num(y)) for y in x.args[1:])))]
                return self.absval(I, x)
            if len(key) == 2 and key[1].op != 'slice' and num(sub(key[1], col)) not in (None, 0):
                return self.column(I, st, a.args[0], col, depth + 1)
        return None

    def absval(self, I, x):
        d, c = parts(x)
        sgn = None
        out = lin({}, 0)
        terms_ = []
        for t, k in d.items():
            f = factors(t)
            if f is None:
                return None
            rest = lin({}, k * f[0])
            s = None
            for b, e in f[1]:
                y = I.defs.get(b, b)
                if y.op == 'ite' and all(num(z) is not None and abs(num(z)) == 1 for z in y.args[1:]) and e == 1:
                    s = b
                else:
                    rest = mul(rest, power(b, e))
            terms_.append((s, rest))
        if c:
            terms_.append((None, lin({}, c)))
        ss = {s for s, _ in terms_}
        if len(ss) != 1:
            return None
        for _, r in terms_:
            out = add(out, r)
        return [([le(Z, out)], out), ([lt(out, Z)], neg(out))]

    def zero(self, I, a):
        for _ in range(6):
            if a.op == 'sym' and a in I.defs:
                a = I.defs[a]
        return a is Z or a.op == 'call' and a.args[0] in ('np.zeros', 'np.zeros_like') or num(a) == 0

    def result(self, fname, txt, h, I, v, s, N, lo, up, clipped):
        w = self.line
        if not isinstance(v, T) or v.taint:
            self.ok('bounds', w, '%s: what is returned is recognised%s' % (fname, txt), None, '%r' % (v,))
            return
        t, tr, hi = v, 0, None
        for _ in range(10):
            if t.op == 'transpose':
                t, tr = t.args[0], tr + 1
            elif t.op == 'idx' and all(k.op == 'slice' for k in t.args[1:]):
                ks = list(t.args[1:])
                if any(k.args[0] not in (NONE, Z) or k.args[2] is not NONE for k in ks):
                    t = None
                    break
                ax = 1 if tr % 2 == 1 else 0
                full = ks + [None] * (2 - len(ks))
                k = full[1] if tr % 2 == 1 else full[0]
                o = full[0] if tr % 2 == 1 else full[1]
                if o is not None and o.args[1] is not NONE:
                    t = None
                    break
                if k is not None and k.args[1] is not NONE and hi is None:
                    hi = k.args[1]
                t = t.args[0]
            elif t.op == 'sym' and t in I.defs and I.defs[t].op in ('transpose', 'idx'):
                t = I.defs[t]
            else:
                break
        if t is None:
            self.ok('bounds', w, '%s: what is returned is recognised%s' % (fname, txt), None, show(v)[:200])
            return
        # number of directions: rows of the transposed array
        cols = hi if hi is not None else self.width(I, h, t)
        r = None
        if tr % 2 == 1 and cols is not None:
            r = True if cols is N or s.entails(eq(cols, N)) else False if not cols.taint else None
            wd = self.width(I, h, t)
            if r and wd is not None and hi is not None and not s.entails(le(N, wd)):
                r = False
        self.ok('number', w, '%s returns exactly the requested number of directions%s' % (fname, txt), r, 'returns %s' % (show(cols) if cols is not None else show(v)[:100]))
        # bounds: the last pass over the array clips every column
        side = self.in_box(I, t, lo, up)
        if side is not None:
            self.ok('bounds', w, '%s: every direction is clipped to the bounds given%s' % (fname, txt), side, show(t)[:200])
            return
        ev = [e for e in h.events if e[0] == 'loop' and any(x is t for x in e[3].env.values() if isinstance(x, T))]
        good, det = None, 'no loop over the directions recognised'
        if ev:
            node = ev[-1][1]
            mine = [c for c in clipped if c[0] is t]
            others = [x for x in h.stores if x[0] is t and not any(x[2] is c[2] for c in mine)]
            if mine and not others:
                good = all(c[4] for c in mine)
                det = 'clips to %s' % show(mine[0][2])[:150]
                k = mine[0][1][1]
                if good:
                    # columns 0 .. N-1
                    e0 = ev[-1][2]
                    kn = [n for n, x in ev[-1][3].env.items() if x is k]
                    ends = [x for x in ev[-1][5]]
                    cov = all(x.entails(le(N, k)) for x in ends) if ends else None
                    starts = k.op == 'sym' and any(f is le(neg(k), Z) or f is le(Z, k) for f in ev[-1][3].facts)
                    if cov is False or not starts:
                        good, det = (False if cov is False and k.op == 'sym' else None), 'the loop does not run over all of the directions'
            elif not mine:
                un = [x for x in h.stores if isinstance(x[2], T) and any(y.op == 'gscale' for y in subterms(self.full(I, x[2])))]
                clips = [x for x in h.stores if isinstance(x[2], T) and self.in_box(I, x[2], lo, up)]
                inl = [x for x in un if not self.in_box(I, x[2], lo, up)]
                if un and not clips:
                    good, det = False, 'directions are scaled but never clipped: rounding can take them outside'
        self.ok('bounds', w, '%s: every direction is clipped to the bounds given%s' % (fname, txt), good, det)

    def width(self, I, h, t):
        """number of columns of the array behind t"""
        for _ in range(30):
            if t.op == 'sym' and t in I.defs:
                t = I.defs[t]
            elif t.op == 'store' or t.op == 'transpose':
                t = t.args[0]
            elif t.op == 'ite':
                t = t.args[1]
            elif t.op == 'sym':
                ev = [e for e in h.events if e[0] == 'loop' for n, x in e[3].env.items() if x is t]
                if not ev:
                    return None
                e = ev[-1]
                n = [n for n, x in e[3].env.items() if x is t][0]
                t2 = e[2].env.get(n)
                if not isinstance(t2, T) or t2 is t:
                    return None
                t = t2
            elif t.op == 'call' and t.args[0] == 'np.zeros':
                a = t.args[1]
                a = a.items if isinstance(a, Tup) else a.args if isinstance(a, T) and a.op == 'tuple' else None
                return a[1] if a and len(a) == 2 else None
            else:
                return None
        return None

    # ------------------------------------------------------------------ coordinate directions
    def coordinate(self):
        key = ('Controller', 'initialise_coordinate_directions')
        if key not in self.prog.methods:
            self.ok('anchor', 'controller.py', 'initialise_coordinate_directions is there', None)
            return
        m, node = self.prog.methods[key]
        h = CHooks()
        I = KInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs, I.nojoin, I.maydef = True, True, {}, 64, True
        h.I, h.dyk, h.dyklist, h.apps, h.root = I, [], {}, [], 'initialise_coordinate_directions'
        S = sym
        st = State()
        st.frames = [{}]
        st.heap['self'] = {a: S('c.' + a) for a in attrs_of(self.prog, 'Controller')}
        st.heap['self'].update({'delta': S('delta'), 'rhobeg': S('delta'), 'rho': S('delta'), 'model': Ref('model', 'Model')})
        st.heap['model'] = {a: S('m.' + a) for a in attrs_of(self.prog, 'Model')}
        st.heap['model'].update({'sl': S('sl'), 'su': S('su'), 'xbase': S('xbase'), 'num_pts': S('num_pts'), 'projections': NONE})
        self.vecs = frozenset([S('sl'), S('su')])
        h.arrs |= {S('sl'), S('su'), S('xbase')}
        A = {a.arg: S(a.arg) for a in node.args.args}
        A[node.args.args[0].arg] = Ref('self', 'Controller')
        nd = S(node.args.args[2].arg)
        st.assume(lt(Z, S('delta')))
        I.modstack.append(m.name)
        I.inline(Fn(node, m.name, qual='Controller.initialise_coordinate_directions'), A, st, node)
        self.rep.analysed |= {'%s (%s.py)' % (q, m.name) for q in I.funcs_seen}
        w0 = '%s.py:%d' % (m.name, node.lineno)
        self.I, self.first = I, None
        evs = {}
        for what, where, s, x in h.calls:
            evs[where, show(x).split('#')[0]] = (where, s, x)
        recs = []
        for (where, s, x) in sorted(evs.values(), key=lambda e: e[0]):
            x = self.head(x)
            if x.op != 'abs':
                self.ok('inside', where, 'a point of the initial set is clipped to the bounds before it is evaluated', None if x.taint else False, show(x)[:150])
                continue
            self.ok('inside', where, 'a point of the initial set is clipped to the bounds before it is evaluated', True)
            cs = self.rows(s, x.args[0])
            if not cs:
                self.ok('steps', where, 'the steps of the initial set are recognised', None, show(x)[:150])
            for s2, r, stores, base in cs or []:
                recs.append((where, s2, r, stores, base))
        # the first block: one step along each coordinate
        n = S('n')
        for where, s, r, stores, base in recs:
            if r is not None and len(stores) == 1 and (s.entails(le(r, n)) or num(sub(self.elem(self.full(I, stores[0][0])), r)) is not None):
                self.first = (r, stores[0])
                self.one_step(where, s, r, stores[0], True)
        for where, s, r, stores, base in recs:
            if r is None:
                self.ok('steps', where, 'the steps of the initial set are recognised', None)
            elif len(stores) == 1:
                if not s.entails(le(r, n)) and num(sub(self.elem(self.full(I, stores[0][0])), r)) is None:
                    self.one_step(where, s, r, stores[0], False)
            elif len(stores) == 2:
                two = s.entails(lt(scale(n, 2), r))
                self.ok('steps', where, 'up to 2n points move along one coordinate each', True if two else None if r.taint or any(f.taint for f in s.facts) else False,
                        'point %s is a combination of two earlier ones' % show(r))
                for c, v in stores:
                    v = self.head(v)
                    g = None
                    if v.op == 'idx' and len(v.args) == 3:
                        g = sub(v.args[2], c) is Z and sub(v.args[1], add(c, ONE)) is Z
                        g = True if g else None          # only for npt > 2n+1
                    self.ok('steps', where, 'a combined point repeats the steps of two earlier points, each along its own coordinate', g, show(v)[:150])
            elif not stores and base is not None and not base.taint:
                ks = [k[0] for arr, k, v, _, _ in h.stores if len(k) == 2 and isinstance(k[0], T)]
                ds = [num(sub(k, r)) for k in ks if set(syms(k)) & set(syms(r))]
                out = ds and all(d is not None for d in ds)
                g = None
                if any(arr.op == 'idx' for arr, k, v, _, _ in h.stores if isinstance(arr, T)):
                    out = False             # stores through views
                if out and 0 not in ds:
                    g = False               # a row never written in this pass
                elif out and max(ds) == 0 and r.op == 'sym' and base.op == 'sym':
                    g = False               # rows written so far come before this one
                self.ok('steps', where, 'every point of the initial set moves away from the starting point', g, 'row %s is evaluated as it was created' % show(r))
        if not any(len(x[3]) == 1 for x in recs):
            self.ok('steps', w0, 'the first step along each coordinate is recognised', None)
        # how many
        for ev in h.events:
            if ev[0] != 'loop':
                continue
            mine = [(wh, s, r) for wh, s, r, stores, base in recs if stores and r is not None and r in [x for x in ev[3].env.values() if isinstance(x, T)]]
            if not mine:
                continue
            r = mine[0][2]
            if all(b.env.get(k2) is r for b in ev[4] for k2, x in ev[3].env.items() if x is r):
                continue
            name = [k for k, x in ev[3].env.items() if x is r][0]
            lo = ev[2].env.get(name)
            ends = [x for x in ev[5]]
            full = all(x.entails(lt(nd, r)) for x in ends) if ends else None
            loop_ok = None
            if full is True:
                loop_ok = True
            elif full is False:
                loop_ok = False if all(not any(f.taint for f in x.facts) for x in ends) else None
            starts = ev[3].entails(le(ONE, r))
            self.ok('number', '%s.py:%d' % (m.name, ev[1].lineno), 'one point is evaluated for each of the requested directions', loop_ok if starts else None,
                    'the loop ends before %s' % show(nd) if loop_ok is False else '')
    def head(self, t):
        while t.op == 'sym' and t in self.I.defs:
            t = self.I.defs[t]
        return t

    def rows(self, st, row, depth=0):
        """[(state, row number, [(column, value)], base array)] - the entries written in the row passed, in every case"""
        row = self.head(row)
        if depth > 12:
            return None
        if row.op == 'ite':
            return self.split(st, row.args, lambda s, x: self.rows(s, x, depth + 1))
        if row.op != 'idx' or not (len(row.args) == 2 or len(row.args) == 3 and row.args[2].op == 'slice'):
            return [(st, None, [], None)]
        a, r = self.head(row.args[0]), row.args[1]
        out, stores = [], []
        for _ in range(20):
            a = self.head(a)
            if a.op == 'ite':
                return self.split(st, a.args, lambda s, x: [(s2, rr, stores + more, b) for s2, rr, more, b in self.rows(s, mk('idx', x, r), depth + 1) or []])
            if a.op == 'store' and len(a.args[1]) == 2:
                d = sub(a.args[1][0], r)
                if d is Z:
                    if not any(c is a.args[1][1] for c, _ in stores):
                        stores.append((a.args[1][1], a.args[2]))
                elif num(d) is None and not st.entails(bor(lt(d, Z), lt(Z, d))):
                    return [(st, None, [], None)]
                a = a.args[0]
            else:
                break
        return [(st, r, stores, a)]

    def split(self, st, args, f):
        c, x, y = args
        res = []
        for cond, v in ((c, x), (bnot(c), y)):
            cond = self.elem(self.full(self.I, cond))
            if cond is FALSE or not cond.taint and st.entails(bnot(cond)):
                continue
            s = st.copy()
            if not cond.taint:
                s.assume(cond)
            q = f(s, v)
            if q is None:
                return None
            res += q
        return res

    def bounds_at(self, st, c):
        s = st.copy()
        d = sym('delta')
        lo, up = mk('idx', sym('sl'), c), mk('idx', sym('su'), c)
        for f in (le(lo, Z), le(Z, up), le(scale(d, 2), sub(up, lo)), lt(Z, d)):
            s.assume(f)
        return s, lo, up, d

    def value(self, v, c):
        """the value stored, with steps read back from the first block replaced by what was stored there"""
        for _ in range(6):
            v = self.elem(self.full(self.I, v))
            m = {}
            if self.first is not None:
                r0, (c0, v0) = self.first
                for s in subterms(v):
                    if s.op == 'idx' and len(s.args) == 3 and s.args[0].op == 'sym' and s.args[0] not in self.vecs and sub(sub(s.args[1], s.args[2]), sub(r0, c0)) is Z:
                        m[s] = subst(v0, {r0: s.args[1]}) if r0.op == 'sym' else s
                        m[s] = self.move(v0, r0, s.args[1])
            if not m or all(k is x for k, x in m.items()):
                return v
            v = subst(v, m)
        return v

    def move(self, v0, r0, r1):
        v = self.full(self.I, v0)
        if r0.op != 'sym':
            x = next((y for y in syms(r0) if y.args[0].startswith('L') and num(sub(r0, y)) is not None), None)
            if x is not None:
                return subst(v, {x: sub(r1, sub(r0, x))})
        return subst(v, {r0: r1})

    def one_step(self, where, st, r, store, first):
        c, v = store
        c = self.elem(self.full(self.I, c))
        s, lo, up, d = self.bounds_at(st, c)
        ints = {sym('n'), sym('num_directions')} | set(syms(r))
        for f in list(s.facts):
            if f.op == 'lt0' and set(parts(f.args[0])[0]) <= ints and all(k.denominator == 1 for k in list(parts(f.args[0])[0].values()) + [Fraction(parts(f.args[0])[1])]):
                s.assume(le(add(f.args[0], ONE), Z))
        self.ok('steps', where, 'a step of the initial set moves an existing coordinate', s.entails(band(le(Z, c), lt(c, sym('n')))) or (None if c.taint else False if c.op != 'ite' else None), show(c)[:100])
        if first:
            dc = num(sub(c, r))
            self.ok('steps', where, 'each of the first points moves its own coordinate', True if dc is not None else None if c.taint else False if r not in syms(c) else None, show(c)[:100])
        val = self.value(v, c)
        clip = lambda x: minmax('max', [lo, minmax('min', [up, x])])
        tests = [('a step of the initial set is at least a hundredth of rhobeg', lambda w: bor(le(scale(d, cval(const(0.01))), w), le(w, scale(d, -cval(const(0.01)))))),
                 ('a step of the initial set is at most 2*rhobeg', lambda w: band(le(w, scale(d, 2)), le(scale(d, -2), w)))]
        for text, goal in tests:
            self.ok('steps', where, text, self.cases(s, val, lambda s2, x: self.known(s2, goal(clip(x)), (lo, up, d))), show(val)[:200])
        if not first and self.first is not None:
            r0, (c0, v0) = self.first
            w1 = self.move(v0, r0, add(c, sub(r0, c0)))
            w1 = self.elem(w1)
            both = mk('both', val, w1)
            self.ok('steps', where, 'the second step along a coordinate leads to a different point than the first',
                    self.cases(s, both, lambda s2, x: self.known(s2, bor(lt(clip(x.args[0]), clip(x.args[1])), lt(clip(x.args[1]), clip(x.args[0]))), (lo, up, d))), show(both)[:200])

    def split_entails(self, st, goal, depth=0):
        """entailment, one case at a time of every minimum and maximum"""
        if st.entails(goal):
            return True
        m = next((y for y in subterms(goal) if y.op in ('min', 'max') and not any(z.op in ('min', 'max') for a in y.args for z in subterms(a))), None)
        if m is None:
            s = st.copy()
            s.assume(bnot(goal))
            return unsat(s.fz())
        if depth > 8:
            return False
        for i, x in enumerate(m.args):
            s = st.copy()
            for y in m.args:
                if y is not x:
                    s.assume(le(x, y) if m.op == 'min' else le(y, x))
            if not unsat(s.fz()) and not self.split_entails(s, subst(goal, {m: x}), depth + 1):
                return False
        return True

    def known(self, st, goal, atoms):
        if self.split_entails(st, goal):
            return True
        if all(a in atoms or not isinstance(a, T) for a in self.leaves(goal)):
            return False
        return None

    def leaves(self, t):
        if t.op in ('sym', 'idx', 'call') or t.taint:
            return [t]
        out = []
        stack = list(t.args)
        while stack:
            a = stack.pop()
            if isinstance(a, tuple):
                stack.extend(a)
            elif isinstance(a, T):
                out += [] if a.op == 'const' else self.leaves(a)
        return out


def strip_new(t):
    """a[:, None] and a.reshape(-1, 1) are a, column by column"""
    if isinstance(t, T) and t.op == 'idx' and len(t.args) == 3 and t.args[2] is NONE and t.args[1].op == 'slice':
        return t.args[0]
    return t
