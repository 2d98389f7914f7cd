"""Subproblem solvers (trust_region.py), decided on the transitions of their loops.

One arbitrary iteration of every loop is value-numbered from an unknown loop state (no unrolling).  The algebra of the transition is then
compared with what the method needs: the returned gradient stays g + H d, the step to the boundary is a root of ||d + t s||^2 = delta^2,
the returned step is clipped into the box, the ball is the last set in Dykstra's list, and so on.  Identities are polynomial normal forms
(vectors as combinations of array atoms, split by the free/fixed mask; inner products as atoms)."""
import ast
import os
from .terms import *
from . import terms as TT
from .terms import parts
from .interp import *
from .interp import where as where_, msel, dot, fresh, index_term
from .rat import req
from .prove import entails, decide


def kc(k):
    return const(int(k)) if getattr(k, 'denominator', 1) == 1 else TT.lin({}, k)


class Split(Exception):
    def __init__(self, c):
        self.c = c


class NoVec(Exception):
    pass


class KHooks(Hooks):
    opaque = ('dykstra', 'model_value', 'sumsq')

    def __init__(self, arrs=(), mats=(), choice=None):
        self.arrs, self.mats = set(arrs), set(mats)
        self.choice = choice or {}
        self.entryval = {}
        self.pairs = {}
        self.events = []
        self.ncand = {}
        self.keep = set()
        self.trialing = 0
        self.rules = {}
        self.mono_inv = {}
        self.ballinv = {}
        self.isarr_memo = {}

    # ---- engine interface
    def allow_map(self, node):
        return False

    def trial(self, on):
        self.trialing += 1 if on else -1

    def discrete(self, st):
        return tuple(sorted((k, v is TRUE) for k, v in st.env.items() if v is TRUE or v is FALSE)) + (('#ret', st.g.get('#ret')),)

    def call_function(self, I, st, qual, node, selfv, bound):
        if isinstance(node, ast.Lambda):
            return None
        nm = node.name
        if nm == 'sumsq':
            v = list(bound.values())[0]
            return [(mk('sumsq', I.T(v)), st)]
        if nm == 'dykstra' and self.root != 'dykstra':
            ps = [a.arg for a in node.args.args]
            t = mk('dyk', *[I.T(bound.get(p, NONE)) for p in ps])
            lst = bound.get(ps[0])
            self.dyk.append((I.where(node), t, lst, st, dict(bound)))
            self.dyklist[t] = lst
            return [(t, st)]
        if nm == 'model_value' and self.root != 'model_value':
            ps = [a.arg for a in node.args.args]
            return [(mk('mval', *[I.T(bound.get(p, NONE)) for p in ps]), st)]
        return None

    root = None
    keeping = False

    def call_value(self, I, st, fn, args, kw, node):
        if isinstance(fn, T):
            t = mk('app', fn, *[I.T(a) for a in args])
            self.apps.append((I.where(node), t, [a for a in args]))
            return [(t, st)]
        return None

    # ---- arrays
    def is_arr(self, t):
        r = self.isarr_memo.get(t)
        if r is None:
            r = self._is_arr(t)
            self.isarr_memo[t] = r
        return r

    def _is_arr(self, t):
        if t.op == 'sym':
            if t in self.arrs:
                return True
            d = self.I.defs.get(t)
            return d is not None and self.is_arr(d)
        if t.op in ('where', 'msel', 'store', 'mapstore', 'scatter', 'dyk', 'app'):
            return True
        if t.op == 'call':
            return t.args[0] in ('np.zeros', 'np.maximum', 'np.minimum', 'np.ones', 'np.zeros_like')
        if t.op == 'lin':
            return any(self.is_arr(a) for a, _ in t.args[0])
        if t.op == 'mono':
            return any(self.is_arr(a) for a, _ in t.args[0])
        if t.op == 'dot':
            return t.args[0] in self.mats and self.is_arr(t.args[1])
        if t.op == 'ite':
            return self.is_arr(t.args[1]) or self.is_arr(t.args[2])
        if t.op in ('min', 'max', 'abs'):
            return any(isinstance(a, T) and self.is_arr(a) for a in t.args)
        return False

    def expand(self, t, n=1):
        """definitions unfolded n times"""
        for _ in range(n):
            m = {s: self.I.defs[s] for s in syms(t) if s in self.I.defs}
            if not m:
                return t
            t = subst(t, m)
        return t

    def expand1(self, t):
        return self.I.defs.get(t, t) if t.op == 'sym' else t

    def full(self, t):
        return self.expand(t, 30)

    # ---- vectors: dict (mask, pol, base) -> scalar
    def pol(self, m):
        if m.op == 'not':
            return m.args[0], 0
        return m, 1

    atoms = {}

    def vec(self, t, asm):
        if t in self.atoms:
            return {self.atoms[t]: const(1)}
        if t.op == 'const':
            if num(t) == 0:
                return {}
            raise NoVec()
        if t.op == 'ite':
            return self.vec(t.args[1] if self.cond(t.args[0], asm) else t.args[2], asm)
        if t.op == 'call' and t.args[0] in ('np.zeros', 'np.zeros_like'):
            return {}
        if t.op == 'sym':
            d = self.I.defs.get(t)
            if d is not None and self.is_arr(d) and not (self.keeping and t in self.keep):
                return self.vec(d, asm)
            return {(None, 1, t): const(1)}
        if t.op == 'lin':
            r = {}
            for a, k in t.args[0]:
                self.acc(r, self.vec(a, asm), kc(k))
            if t.args[1] != 0:
                raise NoVec()
            return r
        if t.op == 'mono':
            ar = [(a, e) for a, e in t.args[0] if self.is_arr(a)]
            if len(ar) != 1 or ar[0][1] != 1:
                return {(None, 1, t): const(1)}
            c = const(1)
            for a, e in t.args[0]:
                if a is not ar[0][0]:
                    c = mul(c, TT.power(a, e))
            r = {}
            self.acc(r, self.vec(ar[0][0], asm), c)
            return r
        if t.op == 'where':
            m, p = self.pol(t.args[0])
            r = {}
            self.acc(r, self.restrict(self.vec(t.args[1], asm), m, p), const(1))
            self.acc(r, self.restrict(self.vec(t.args[2], asm), m, 1 - p), const(1))
            return r
        if t.op == 'msel':
            m, p = self.pol(t.args[1])
            return self.restrict(self.vec(t.args[0], asm), m, p)
        if t.op == 'dot' and t.args[0] in self.mats:
            r = {}
            for k, c in self.vec(t.args[1], asm).items():
                self.acc(r, {(None, 1, ('H',) + k): const(1)}, c)
            return r
        if t.op == 'store':
            raise NoVec()
        return {(None, 1, t): const(1)}

    def restrict(self, v, m, p):
        r = {}
        for (m2, p2, b), c in v.items():
            if m2 is None or m2 is m:
                if m2 is None or p2 == p:
                    k = (m, p, b)
                    r[k] = add(r[k], c) if k in r else c
            else:
                raise NoVec()
        return r

    def acc(self, r, v, k):
        for key, c in v.items():
            r[key] = add(r[key], mul(c, k)) if key in r else mul(c, k)

    def cond(self, c, asm):
        for f, val in asm:
            if f is c:
                return val
            if bnot(f) is c:
                return not val
        raise Split(c)

    def masks(self, v, out):
        for m, p, b in v:
            if m is not None:
                out.add(m)
            if isinstance(b, tuple):
                self.masks([b[1:]], out)

    def canon(self, v, m):
        if m is None:
            return v
        r = {}
        for (m2, p, b), c in v.items():
            bs = [b]
            if isinstance(b, tuple):
                inner = self.canon({b[1:]: const(1)}, m)
                bs = [('H',) + k for k in inner]
            for bb in bs:
                for q in ((0, 1) if m2 is None else (p,)):
                    key = (m, q, bb)
                    r[key] = add(r[key], c) if key in r else c
        return r

    def key_id(self, k):
        m, p, b = k
        return '%s%s:%s' % ('' if m is None else 'm%d' % m.id, p, ('H(' + self.key_id(b[1:]) + ')') if isinstance(b, tuple) else b.id)

    def ip(self, a, b, asm):
        va, vb = self.vec(a, asm), self.vec(b, asm)
        ms = set()
        self.masks(va, ms)
        self.masks(vb, ms)
        if len(ms) > 1:
            raise NoVec()
        m = ms.pop() if ms else self.themask
        va, vb = self.canon(va, m), self.canon(vb, m)
        r = const(0)
        for k1, c1 in va.items():
            for k2, c2 in vb.items():
                if k1[0] is not None and k1[1] != k2[1]:
                    continue
                r = add(r, mul(mul(c1, c2), self.ipsym(k1, k2)))
        return r

    def ipsym(self, k1, k2):
        # <u, P H w> with u masked: symmetric quadratic form of (u, w)
        for a, b in ((k1, k2), (k2, k1)):
            if isinstance(b[2], tuple) and not isinstance(a[2], tuple):
                x, y = sorted([self.key_id(a), self.key_id(b[2][1:])])
                return self.rule(sym('q<%s|%s>' % (x, y)))
        x, y = sorted([self.key_id(k1), self.key_id(k2)])
        return self.rule(sym('ip<%s|%s>' % (x, y)))

    def rule(self, s):
        return self.rules.get(s, s)

    def scal(self, t, asm, depth=12):
        """scalar term with inner products in normal form"""
        memo = {}

        def go(x, d):
            key = (x, d)
            if key in memo:
                return memo[key]
            r = x
            if x.op == 'ite':
                r = go(x.args[1] if self.cond(x.args[0], asm) else x.args[2], d)
            elif x.op == 'sym':
                df = self.I.defs.get(x)
                if df is not None and not self.is_arr(df) and d > 0 and x not in self.cuts:
                    r = go(df, d - 1)
            elif x.op == 'dot' and self.is_arr(x.args[0]) and self.is_arr(x.args[1]):
                r = self.ip(x.args[0], x.args[1], asm)
                r = go2(r, d)
            elif x.op == 'sumsq':
                r = go2(self.ip(x.args[0], x.args[0], asm), d)
            elif x.op == 'call' and x.args[0] in ('np.sum', 'sum') and len(x.args) == 2 and x.args[1].op == 'mono':
                ar = [(a, e) for a, e in x.args[1].args[0] if self.is_arr(a)]
                o = const(1)
                for a, e in x.args[1].args[0]:
                    if not self.is_arr(a):
                        o = mul(o, TT.power(a, e))
                if len(ar) == 2 and all(e == 1 for _, e in ar):
                    r = go2(mul(o, self.ip(ar[0][0], ar[1][0], asm)), d)
                elif len(ar) == 1 and ar[0][1] == 2:
                    r = go2(mul(o, self.ip(ar[0][0], ar[0][0], asm)), d)
            elif x.op == 'lin':
                r = kc(x.args[1])
                for a, k in x.args[0]:
                    r = add(r, scale(go(a, d), k))
            elif x.op == 'mono':
                r = const(1)
                for a, e in x.args[0]:
                    r = mul(r, TT.power(go(a, d), e))
            elif x.op in ('min', 'max'):
                r = x
            memo[key] = r
            return r

        def go2(x, d):
            """coefficients coming out of inner products"""
            if x.op == 'lin':
                r = kc(x.args[1])
                for a, k in x.args[0]:
                    r = add(r, scale(go2(a, d), k))
                return r
            if x.op == 'mono':
                r = const(1)
                for a, e in x.args[0]:
                    r = mul(r, TT.power(go2(a, d), e))
                return r
            if x.op == 'sym' and x.args[0][:2] in ('ip', 'q<'):
                return x
            return go(x, d) if x.op != 'sym' or x in self.I.defs else x
        return go(t, depth)

    # ---- comparisons with case splits
    def split(self, f, both=True):
        if self.keep:
            self.keeping = True
            try:
                r = self.split1(f)
                if r is True or not both:
                    return r
            finally:
                self.keeping = False
        return self.split1(f)

    def split1(self, f, asm=(), depth=0):
        """f(asm) -> bool for every assignment of the conditions it asks about"""
        try:
            return f(asm)
        except NoVec:
            return None
        except Split as s:
            if depth > 7:
                return None
            a = self.split1(f, asm + ((s.c, True),), depth + 1)
            if a is not True:
                return a
            return self.split1(f, asm + ((s.c, False),), depth + 1)

    themask = None

    def veq(self, a, b):
        """a == b as vectors: True / False / None (cannot tell)"""
        def f(asm):
            va, vb = self.vec(a, asm), self.vec(b, asm)
            ms = set()
            self.masks(va, ms)
            self.masks(vb, ms)
            if len(ms) > 1:
                raise NoVec()
            m = ms.pop() if ms else None
            va, vb = self.canon(va, m), self.canon(vb, m)
            for k in set(va) | set(vb):
                x, y = va.get(k, const(0)), vb.get(k, const(0))
                if x is y:
                    continue
                for d in (0, 2, 12):
                    if req(self.scal(x, asm, d), self.scal(y, asm, d)):
                        break
                else:
                    return False
            return True
        return self.split(f)

    cuts = ()

    def pure(self, t):
        """definition over scalars only"""
        return not any(x.op in ('dot', 'sumsq', 'idx') or (x.op == 'sym' and (self.is_arr(x) or x in self.I.defs and not self.pure(self.I.defs[x])))
                       for x in subterms(t))

    def scal_syms(self, t):
        out, todo = set(), [t]
        while todo:
            x = todo.pop()
            for s in syms(x):
                if s in self.I.defs and s not in out:
                    out.add(s)
                    todo.append(self.I.defs[s])
        return out

    def seq(self, a, b):
        cands = [()]
        ds = self.scal_syms(a) | self.scal_syms(b)
        ps = [d for d in sorted(ds, key=lambda x: x.id) if not self.is_arr(d) and self.pure(self.I.defs[d])]
        # cut the expansion at one purely scalar intermediate value (innermost first)
        cands += [(p,) for p in ps[:4]]

        def f(asm):
            for d in (0, 1, 2, 3, 12):
                for c in (cands if d == 12 else cands[:1]):
                    self.cuts = c
                    try:
                        x, y = self.scal(a, asm, d), self.scal(b, asm, d)
                    finally:
                        self.cuts = ()
                    if x is y or (x.size < 3000 and y.size < 3000 and req(x, y, limit=500)):
                        return True
            return False
        return self.split(f, both=False)

    # ---- loops
    def loop_head(self, I, node, entry, head):
        fr, en = head.env, entry.env
        hv = [n for n in fr if n in en and fr[n] is not en[n] and isinstance(fr[n], T) and isinstance(en[n], T)]
        for n in hv:
            self.entryval[fr[n]] = en[n]
            if self.is_arr(en[n]):
                self.arrs.add(fr[n])
        if self.trialing:
            return
        if 'g' in self.args and 'H' in self.args:
            g, H = self.args['g'], self.args['H']
            cands = []
            ar = [n for n in hv if self.is_arr(en[n])]
            for gn in ar:
                for dn in ar:
                    if gn != dn and self.veq(en[gn], add(g, dot(H, en[dn]))) is True:
                        cands.append((dn, gn))
            if cands:
                ch = self.choice.get(node.lineno, 0)
                self.ncand[node.lineno] = len(cands)
                dn, gn = cands[min(ch, len(cands) - 1)]
                self.pairs[id(node)] = (dn, gn)
                Gs = fresh('%s.%d' % (gn, node.lineno))
                self.arrs.add(Gs)
                self.keep.add(Gs)
                I.defs[Gs] = add(g, dot(H, fr[dn]))
                fr[gn] = Gs
                D0, D1 = en[dn], fr[dn]
                ms = set()
                for n in list(en):
                    if isinstance(en[n], T) and self.is_arr(en[n]):
                        try:
                            self.masks(self.vec(en[n], ()), ms)
                        except (NoVec, Split):
                            pass
                for m in sorted(ms, key=lambda x: x.id):
                    for v in ar:
                        if v not in (dn, gn) and self.veq(en[v], dot(H, where_(m, D0, const(0)))) is True:
                            fr[v] = dot(H, where_(m, D1, const(0)))
                            self.mono_inv.setdefault(id(node), []).append((v, lambda e, m=m: dot(H, where_(m, e[dn], const(0))), 'H times the free part of the step'))
                    P = lambda x: msel(x, m)
                    for v in list(en):
                        if v.startswith('__') or not isinstance(en[v], T) or self.is_arr(en[v]) or is_bool(en[v]) or num(en[v]) is not None:
                            continue
                        for what, mkf in (('|d|^2 on the free variables', lambda D, G: mk('sumsq', P(D))), ('d.g on the free variables', lambda D, G: dot(P(D), P(G))),
                                          ('|g|^2 on the free variables', lambda D, G: mk('sumsq', P(G)))):
                            old = mkf(D0, en[gn])
                            if self.seq(en[v], old) is True:
                                if v in hv:
                                    fr[v] = mkf(D1, fr[gn])
                                else:
                                    try:
                                        self.themask = m
                                        nw = self.scal(mkf(D1, fr[gn]), (), 0)
                                    except (NoVec, Split):
                                        continue
                                    if nw.op == 'sym':
                                        self.rules[nw] = fr[v]
                                self.mono_inv.setdefault(id(node), []).append((v, lambda e, mkf=mkf: mkf(e[dn], e[gn]), what))
                                break
        self.more_heads(I, node, entry, head)

    def more_heads(self, I, node, entry, head):
        pass

    def on_loop(self, I, node, entries, heads, backs, exits, done):
        pr = self.pairs.get(id(node))
        if not self.trialing:
            self.events.append(('loop', node, entries[0], heads[0], [b.copy() for b in backs], [b.copy() for b in exits], list(done), pr,
                                list(self.mono_inv.get(id(node), []))))
        self.mono_inv.pop(id(node), None)
        if pr:
            dn, gn = pr
            g, H = self.args['g'], self.args['H']
            Dx = fresh('%s.x%d' % (dn, node.lineno))
            self.arrs.add(Dx)
            for s in exits:
                if dn in s.env and gn in s.env:
                    s.env[dn], s.env[gn] = Dx, add(g, dot(H, Dx))
            self.exitpair = (Dx, dn, gn)


def ge_(t, lo, hi, exp):
    return _side(t, lo, hi, exp, True)


def _side(t, want, other, exp, lower):
    """t >= want (lower) or t <= want elementwise, given lo <= hi"""
    if t is want or t is other:
        return True
    if t.op in ('where', 'ite'):
        return _side(t.args[1], want, other, exp, lower) and _side(t.args[2], want, other, exp, lower)
    if t.op in ('min', 'max'):
        f = all if (t.op == 'min') == lower else any
        return f(_side(a, want, other, exp, lower) for a in t.args)
    if t.op == 'call' and t.args[0] in ('np.minimum', 'np.maximum'):
        f = all if (t.args[0] == 'np.minimum') == lower else any
        return f(_side(a, want, other, exp, lower) for a in t.args[1:])
    e = exp(t)
    if e is not t:
        return _side(e, want, other, exp, lower)
    return False


def subst_full(h, c):
    for _ in range(20):
        m = {x: h.I.defs[x] for x in syms(c) if x in h.I.defs}
        if not m:
            return c
        c = subst(c, m)
    return c


def m0(masks):
    ms = sorted(masks, key=lambda x: x.id)
    return ms[0] if len(ms) == 1 else None


class KInterp(Interp):
    def lst_append(self, o, v):
        return Lst(None, ('append', o.tag, v))

    def lst_concat(self, a, b):
        if isinstance(b, Lst) and b.items is not None and isinstance(a, Lst) and a.items is None:
            r = a
            for v in b.items:
                r = Lst(None, ('append', r.tag, v))
            return r
        if isinstance(a, Lst) and a.items is not None and isinstance(b, Lst) and b.items is None and a.items:
            return Lst(None, ('concat', ('items', a.items), b.tag))
        return Interp.lst_concat(self, a, b)

    def reduce_ret(self, outs, qual):
        if self.nojoin:
            return outs if len(outs) <= self.nojoin else self.reduce(outs, 'ret')
        if len(outs) > 24:
            return self.reduce(outs, 'ret')
        if any(isinstance(o.g.get('__ret'), Tup) for o in outs):
            for i, o in enumerate(outs):
                o.g['#ret'] = i
        return outs


class Kernels(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep = prog, rep

    def run(self, mod, fname, over=None, arrs=(), choice=None, hooks=KHooks, facts=(), root=None, nojoin=0):
        m = self.prog.mods[mod]
        node = m.funcs[fname]
        h = hooks()
        I = KInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs = True, True, {}
        I.nojoin = nojoin
        h.I, h.dyk, h.dyklist, h.apps, h.root = I, [], {}, [], root or fname
        args = {a.arg: sym(a.arg) for a in node.args.args}
        args.update(over or {})
        h.args = args
        h.choice = choice or {}
        h.arrs |= {args[a] for a in arrs if a in args}
        h.mats = {args['H']} if 'H' in args else set()
        st = State()
        st.frames = [{}]
        for f in facts:
            st.assume(f)
        I.modstack.append(mod)
        outs = I.inline(Fn(node, mod, qual=fname), dict(args), st, node)
        self.rep.analysed |= {'%s (%s.py)' % (q, mod) for q in I.funcs_seen}
        self.line = '%s.py:%d' % (mod, node.lineno)
        return h, I, outs, args

    def ok(self, prop, rule, text, cond, detail='', line=None):
        self.rep.ok(prop, rule, line or self.line, text, cond, detail)

    def guard(self, f, *props):
        try:
            f()
        except KeyError as e:
            self.rep.ok(list(props), f.__name__, 'dfols', 'anchor %s present' % e, None, 'missing')
        except Exception as e:
            import os
            import traceback
            if os.environ.get('SA_DEBUG'):
                raise
            self.rep.ok(list(props), f.__name__, 'dfols', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    # ------------------------------------------------------------------ Dykstra
    def t_dykstra(self):
        node = self.prog.mods['util'].funcs['dykstra']
        ps = [a.arg for a in node.args.args]
        h, I, outs, A = self.run('util', 'dykstra', {}, [ps[1]], nojoin=64)
        P, x0, maxit, tol = [A[p] for p in ps[:4]]
        C = ['C15', 'C09']
        rets = {v for v, s in outs}
        np_ = mk('len', P)
        inner = outer = None
        for ev in h.events:
            node_, head = ev[1], ev[3]
            if any(isinstance(v, T) and self.papp(h, v, P) is not None for b in ev[4] for v in b.env.values()):
                if inner is None or node_.lineno > inner[1].lineno:
                    inner = ev
        for ev in h.events:
            if inner is not None and ev[1].lineno < inner[1].lineno and inner[1].end_lineno <= ev[1].end_lineno:
                outer = ev
        if inner is None or outer is None:
            self.ok(C, 'dykstra', 'sweep over the projections recognised', None)
            return
        _, nd, entry, head, backs, exits, done, pr, inv = inner
        ln = 'util.py:%d' % nd.lineno
        k = head.env.get('__k%d_%d' % (nd.lineno, nd.col_offset))
        oh = outer[3]
        xn = [n for n in oh.env if any(oh.env[n] is v for v in rets)]
        if k is None or not xn:
            self.ok(C, 'dykstra', 'the returned point is the last iterate', None if k is None else False, ', '.join(show(v)[:80] for v in rets if isinstance(v, T)))
            return
        self.ok(C, 'dykstra', 'the returned point is the last iterate', all(any(v is oh.env[n] for n in xn) for v in rets), '')
        xn = xn[0]
        x = head.env[xn]
        self.ok(C, 'dykstra', 'the iteration starts at the given point', h.full(outer[2].env[xn]) is x0, show(outer[2].env[xn])[:80])
        self.ok(C, 'dykstra', 'each sweep starts at the result of the previous one', entry.env.get(xn) is oh.env[xn], '')
        kn = '__k%d_%d' % (nd.lineno, nd.col_offset)
        self.ok(C, 'dykstra', 'a sweep starts with the first set', num(entry.env[kn]) == 0 if num(entry.env.get(kn)) is not None else None, '', ln)
        for s in exits:
            self.ok(C, 'dykstra', 'a sweep visits every set, the last set last', entails(s.fz(), le(np_, k)), '', ln)
        cn = yn = None
        for s in backs:
            self.ok(C, 'dykstra', 'a sweep visits the sets in order', s.env.get(kn) is add(k, const(1)) if isinstance(s.env.get(kn), T) else None, '', ln)
            x1 = s.env[xn]
            ap = self.papp(h, x1, P)
            if ap is None:
                self.ok(C, 'dykstra', 'the iterate is the projection onto the current set', False, show(h.expand(x1, 1))[:200], ln)
                continue
            self.ok(C, 'dykstra', 'the iterate is the projection onto the current set', index_term(P, (k,)) is ap.args[0], show(ap)[:100], ln)
            At = h.full(ap.args[1])
            y = None
            for n, v in sorted(head.env.items()):
                if isinstance(v, T) and v in h.entryval and isinstance(s.env.get(n), T) and h.expand1(s.env[n]).op == 'store':
                    yk = index_term(v, (k,))
                    for sg in (1, -1):
                        if At is add(x, scale(yk, sg)):
                            y, yn, sign = v, n, sg
            if y is None:
                unk = any(v.op == "taint" for v in syms(At))
                self.ok(C, 'dykstra', "the point projected is the iterate less the set's previous increment", None if unk else False, show(At)[:200], ln)
                continue
            self.ok(C, 'dykstra', "the point projected is the iterate less the set's previous increment", True, '', ln)
            new = h.full(index_term(h.expand1(s.env[yn]), (k,)))
            want = scale(sub(h.full(x1), At), -sign)
            self.ok(C, 'dykstra', "the set's increment becomes the change made by the projection", bool(req(new, want)), show(new)[:200], ln)
            self.ok(C, 'dykstra', 'only the increment of the current set changes', h.expand1(s.env[yn]).args[0] is y and h.expand1(s.env[yn]).args[1] == (k,), '', ln)
            inc = sub(want, index_term(y, (k,)))
            found = None
            for n, v in sorted(head.env.items()):
                v1 = s.env.get(n)
                if n == kn or not isinstance(v, T) or not isinstance(v1, T) or v not in h.entryval or v1 is v or h.is_arr(v) or num(sub(v1, v)) is not None:
                    continue
                d = h.full(sub(h.full(v1), v))
                if v in syms(d):
                    continue
                r = any(req(d, w) or d is w for i in (inc, scale(inc, -1)) for w in (mk('sumsq', i), TT.power(mk('norm', i), 2), dot(i, i)))
                if not r:
                    r = self.norm_sq(h, d, inc)
                found = n if r else found
                self.ok(C, 'dykstra', 'the stopping quantity adds the squared change of the increment', r, show(d)[:200], ln)
                cn = n
        if cn is None:
            # the quantity the sweep loop compares with tol
            c = None
            for n, v in oh.env.items():
                if isinstance(v, T) and v in h.entryval and n in head.env and outer[4] and \
                        any(entails(b.fz(), le(tol, v)) and not entails(b.fz(), le(maxit, v)) for b in outer[4]):
                    c = n
            r, d = None, ''
            if c is not None and backs:
                v, v1 = head.env.get(c), h.full(backs[0].env[c])
                d = show(v1)[:200]
                if isinstance(v, T) and yn is not None and not any(x.op == "taint" for x in syms(v1)) and any(t.op in ('norm', 'sumsq') for t in subterms(v1)):
                    r = False
            self.ok(C, 'dykstra', 'the stopping quantity adds the squared change of the increment', r, d, ln)
            return
        self.ok(C, 'dykstra', 'the stopping quantity starts from zero in every sweep', num(entry.env.get(cn)) == 0 if isinstance(entry.env.get(cn), T) else None, show(entry.env.get(cn)) if isinstance(entry.env.get(cn), T) else '', ln)
        y0 = h.full(outer[2].env[yn]) if yn in outer[2].env else None
        self.ok(C, 'dykstra', 'the increments start from zero', y0 is not None and y0.op == 'call' and y0.args[0] == 'np.zeros', '', ln)
        self.ok(C, 'dykstra', 'the increments are kept between sweeps', entry.env.get(yn) is oh.env.get(yn), '', ln)
        c = oh.env[cn]
        cnt = [n for n, v in oh.env.items() if isinstance(v, T) and v in h.entryval and num(h.entryval[v]) == 0 and all(isinstance(b.env.get(n), T) and b.env[n] is add(v, const(1)) for b in outer[4])]
        if not cnt:
            self.ok(C, 'dykstra', 'sweeps are counted from zero', None if not outer[4] else False, '', ln)
            return
        kk = [oh.env[n] for n in cnt]
        for b in outer[4]:
            self.ok(C, 'dykstra', 'a sweep is made only while fewer than max_iter were made', any(entails(b.fz(), lt(n, maxit)) for n in kk), '', ln)
            self.ok(C, 'dykstra', 'a sweep is made only while the stopping quantity of the previous one is at least tol', entails(b.fz(), le(tol, c)), '', ln)
        for s in outer[5]:
            fs = frozenset(s.fz())
            r = any(entails(fs | {lt(n, maxit)}, le(c, tol)) for n in kk) or any(entails(fs | {lt(tol, c)}, le(maxit, n)) for n in kk)
            self.ok(C, 'dykstra', 'the routine stops only by its tolerance rule or after max_iter sweeps', r, str([show(f)[:100] for f in fs])[:300], ln)

    def norm_sq(self, h, d, inc):
        """d is the squared 2-norm of +-inc in some spelling"""
        for t in subterms(d):
            if t.op in ('norm', 'sumsq'):
                a = h.full(t.args[0])
                if a is inc or req(a, inc) or req(a, scale(inc, -1)):
                    return d is (t if t.op == 'sumsq' else TT.power(t, 2))
        return False

    def papp(self, h, t, P):
        e = h.full(t)
        return e if e.op == 'app' and any(x is P for x in subterms(e.args[0])) else None

    # ------------------------------------------------------------------ geometry step for a box
    def t_linear(self):
        """trsbox_linear: minimise g.s over box and ball by fixing one component at a time"""
        h, I, outs, A = self.run('trust_region', 'trsbox_linear', {'use_fortran': FALSE}, ('g', 'a_in', 'b_in'), nojoin=64)
        ps = [a for a in self.prog.mods['trust_region'].funcs['trsbox_linear'].args.args]
        g, lo, hi, Delta = [A[a.arg] for a in ps[:4]]
        tiny = Fraction(1, 10 ** 11)

        def bound_of(t, k):
            """which bound the term is the k-th component of: 'lo', 'hi' or None"""
            t = self.sfull(h, t)
            if t.op == 'idx' and t.args[1] is k:
                b = h.full(t.args[0])
                for nm, src, op, sg in (('lo', lo, 'min', -1), ('hi', hi, 'max', 1)):
                    if b is src:
                        return nm
                    if b.op == op and len(b.args) == 2 and src in b.args:
                        c = [num(x) for x in b.args if x is not src][0]
                        if c is not None and 0 <= c * sg <= tiny:
                            return nm
            return None
        loops = [e for e in h.events]
        outer = [e for e in loops if any(e[1].lineno < o[1].lineno and o[1].end_lineno <= e[1].end_lineno for o in loops)]
        if not outer:
            self.ok('C13', 'geometry', 'active-set loop recognised', None)
            return
        ev = outer[0]
        _, node, entry, head, backs, exits, done, pr, inv = ev
        ln = 'trust_region.py:%d' % node.lineno
        xn = dn = None
        for n, v in sorted(head.env.items()):
            if isinstance(v, T) and v in h.entryval:
                e0 = h.full(h.entryval[v])
                if e0.op == 'call' and e0.args[0] == 'np.zeros':
                    xn = n
                b = e0
                while b.op == 'store' or b.op == 'where':
                    b = b.args[0] if b.op == 'store' else b.args[2]
                if b is scale(g, -1):
                    dn = n
                    t = e0
                    while t.op in ('store', 'where'):
                        val = t.args[2] if t.op == 'store' else t.args[1]
                        self.ok('C13', 'geometry', 'only components of the gradient below 1e-11 are ignored', num(val) == 0 and self.small_cond(h, t, tiny), show(t)[:200], ln)
                        t = t.args[0] if t.op == 'store' else t.args[2]
                elif b is g:
                    self.ok('C13', 'geometry', 'the search direction is minus the gradient', False, show(e0)[:100], ln)
        if xn is None or dn is None:
            self.ok('C13', 'geometry', 'loop keeps the step (from zero) and the direction (from -g)', False if xn and any(isinstance(v, T) and g in syms(v) for v in entry.env.values()) and dn is None and 'dirn' in head.env else None, '', ln)
            return
        X, D = head.env[xn], head.env[dn]
        for s in backs:
            x1 = h.expand1(s.env[xn])
            d1 = h.expand1(s.env[dn])
            if d1.op != 'store' or len(d1.args[1]) != 1 or d1.args[0] is not D:
                self.ok('C13', 'geometry', 'a component that reaches its bound is no longer searched', None if d1.op not in ('sym', 'store') else False, show(d1)[:150], ln)
                continue
            k = d1.args[1][0]
            self.ok('C13', 'geometry', 'a component that reaches its bound is no longer searched', num(d1.args[2]) == 0, show(d1)[:150], ln)
            xk = index_term(x1, (k,))
            base = x1
            while base.op == 'store':
                base = base.args[0]
            dif = sub(base, X)
            al = None
            if dif.op == 'mono' and D in [a for a, e in dif.args[0]]:
                al = const(1)
                for a, e in dif.args[0]:
                    if a is not D:
                        al = mul(al, TT.power(a, e))
            self.ok('C13', 'geometry', 'the step moves along the search direction', al is not None, show(dif)[:200], ln)
            if al is None:
                continue
            val = self.sfull(h, xk)
            got = add(self.sfull(h, mul(al, mk('idx', D, k))), mk('idx', X, k))
            B = [nm for nm in ('lo', 'hi') for t in subterms(got) if t.op == 'idx' and t.args[1] is k and bound_of(t, k) == nm and req(got, t)]
            self.ok('C13', 'geometry', 'the step goes exactly to the bound of the component', bool(B), show(got)[:300], ln)
            if x1.op == 'store':
                self.ok('C13', 'geometry', 'the component is put on that bound', bound_of(val, k) in B if B else None, show(val)[:200], ln)
            if not B:
                continue
            # the bound is one that the full step would cross
            hit = False
            wrong = False
            for f in s.fz():
                if f.op in ('le0', 'lt0'):
                    for t in subterms(f):
                        if t.op == 'idx' and bound_of(t, k) and t.args[1] is k:
                            cf = dict((a, kk) for a, kk in f.args[0].args[0]).get(t) if f.args[0].op == 'lin' else None
                            if cf != (-1 if bound_of(t, k) == 'lo' else 1):
                                continue
                            w = add(f.args[0], t) if bound_of(t, k) == 'lo' else sub(f.args[0], t)
                            # lo: W - lo <= 0   hi: hi - W <= 0
                            W = w if bound_of(t, k) == 'lo' else scale(w, -1)
                            if W.op in ('idx', 'lin') and X in syms(W):
                                hit = hit or bound_of(t, k) == B[0]
            self.ok('C13', 'geometry', 'a component is fixed at a bound only where the full step crosses that bound', hit, '%s at %s' % (B, show(val)[:100]), ln)
            self.appended(h, s, head, k, ln)
        for ie in loops:
            if ie is ev or not (node.lineno < ie[1].lineno and ie[1].end_lineno <= node.end_lineno):
                continue
            self.inner_box(h, ie, X, D, bound_of, ln, g)
        for s in exits:
            self.ok('C13', 'geometry', 'every component can be fixed before the search stops', entails(s.fz(), le(mk('size', g), head.env.get('__k%d_%d' % (node.lineno, node.col_offset), const(0)))), '', ln)
        for v, s in outs:
            if v is X:
                new = [f for f in s.fz() if f not in head.fz() and f.op in ('le0', 'lt0') and D in syms(f)]
                end = entails(s.fz(), le(mk('size', g), head.env.get('__k%d_%d' % (node.lineno, node.col_offset), const(0))))
                if not end and not any(f.args[0].op == 'lin' and len(f.args[0].args[0]) == 1 and f.args[0].args[0][0][1] > 0 for f in new):
                    self.ok('C13', 'geometry', 'returns the step as it is only when every component is fixed or the direction vanishes', False, show(v)[:100], ln)
                for f in new:
                    e = f.args[0]
                    if e.op == 'lin' and len(e.args[0]) == 1 and e.args[0][0][1] > 0:
                        self.ok('C13', 'geometry', 'the search stops early only for a direction below 1e-11', -e.args[1] / e.args[0][0][1] <= tiny, show(f), ln)
                continue
            dif = sub(v, X)
            al = const(1) if dif.op == 'mono' and D in [a for a, e in dif.args[0]] else None
            if al is None:
                self.ok('C13', 'geometry', 'returns the step or the step extended along the direction', None, show(v)[:200], ln)
                continue
            for a, e in dif.args[0]:
                if a is not D:
                    al = mul(al, TT.power(a, e))
            al = self.sfull(h, al)
            m = {t: [a for a in t.args if num(a) != 0][0] for t in subterms(al) if t.op == 'max' and any(num(a) == 0 for a in t.args) and len(t.args) == 2}
            m.update({t: [a for a in t.args[1:] if num(a) != 0][0] for t in subterms(al) if t.op == 'call' and t.args[0] == 'np.maximum' and any(num(a) == 0 for a in t.args[1:])})
            al = subst(al, m)
            if num(al) == 0:
                continue
            lhs = add(mk('sumsq', X), add(scale(mul(al, dot(X, D)), 2), mul(TT.power(al, 2), mk('sumsq', D))))
            h.themask = None
            r = h.seq(lhs, TT.power(Delta, 2))
            self.ok('C13', 'geometry', 'a step that meets no bound ends on the trust-region boundary', r is True, show(al)[:300], ln)
            fwd = add(mul(al, mk('sumsq', D)), dot(X, D))
            fwd = h.scal(fwd, (), 0)
            pos = req(fwd, TT.power(add(TT.power(h.scal(dot(X, D), (), 0), 2), mul(h.scal(mk('sumsq', D), (), 0), sub(TT.power(Delta, 2), h.scal(mk('sumsq', X), (), 0)))), Fraction(1, 2)))
            self.ok('C13', 'geometry', 'the step goes forward (the non-negative root)', bool(pos), show(al)[:300], ln)

    def small_cond(self, h, t, tiny):
        c = t.args[1][0] if t.op == 'store' else t.args[0]
        c = h.full(c)
        for f in subterms(c):
            if f.op in ('lt0', 'le0') and f.args[0].op == 'lin':
                e = f.args[0]
                if len(e.args[0]) == 1 and e.args[0][0][1] > 0:
                    return -e.args[1] / e.args[0][0][1] <= tiny
        return None

    def appended(self, h, s, head, k, ln):
        for n, v in sorted(s.env.items()):
            if isinstance(v, Lst) and v.items is None and isinstance(v.tag, tuple) and v.tag[0] == 'append' and isinstance(head.env.get(n), Lst) and v.tag[1] == head.env[n].tag:
                self.ok('C13', 'geometry', 'the component that was fixed is the one recorded as fixed', v.tag[2] is k, '', ln)

    def inner_box(self, h, ie, X, D, bound_of, ln, g):
        """components are skipped by the bound test only if already fixed"""
        _, node, entry, head, backs, exits, done, pr, inv = ie
        k = head.env.get('__k%d_%d' % (node.lineno, node.col_offset))
        if k is None:
            return
        for s in backs:
            new = [f for f in s.fz() if f not in head.fz()]
            if any(f.op == 'in' for f in new):
                continue
            sides = set()
            for f in new:
                if f.op in ('le0', 'lt0'):
                    for t in subterms(f):
                        if t.op == 'idx' and t.args[1] is k and bound_of(t, k):
                            nm = bound_of(t, k)
                            c = [kk for a, kk in f.args[0].args[0] if a is t] if f.args[0].op == 'lin' else []
                            if c and c[0] == (1 if nm == 'lo' else -1) and len(f.args[0].args[0]) == 2 and all(abs(kk) == 1 for _, kk in f.args[0].args[0]):
                                sides.add(nm)
            self.ok('C13', 'geometry', 'a free component passes the bound test only strictly inside both bounds', sides == {'lo', 'hi'}, '%s' % sorted(sides), ln)
        for s in exits:
            new = [f for f in s.fz() if f not in head.fz()]
            if not any(f.op in ('le0', 'lt0') and any(t.op == 'idx' for t in subterms(f)) for f in new):
                self.ok('C13', 'geometry', 'the bound test looks at every component', entails(s.fz(), le(mk('size', g), k)), '', ln)

    def t_geom(self):
        """the better of the two linear problems"""
        for fn, inner, conv in (('trsbox_geometry', 'trsbox_linear', False), ('ctrsbox_geometry', 'ctrsbox_linear', True)):
            node = self.prog.mods['trust_region'].funcs[fn]
            inode = self.prog.mods['trust_region'].funcs[inner]
            recs = {}

            class GH(KHooks):
                def call_function(self, I, st, qual, nd, selfv, bound):
                    if nd is inode:
                        args = {p.arg: bound.get(p.arg) for p in nd.args.args}
                        t = mk('lin_step', *[I.T(args[p.arg]) for p in nd.args.args])
                        recs[t] = args
                        return [(t, st)]
                    return KHooks.call_function(self, I, st, qual, nd, selfv, bound)

                def _is_arr(self, t):
                    return t.op == 'lin_step' or KHooks._is_arr(self, t)
            ps = [a.arg for a in node.args.args]
            arrs = [ps[0], ps[2]] + ([] if conv else ps[3:5])
            h, I, outs, A = self.run('trust_region', fn, {'use_fortran': FALSE}, arrs, hooks=GH, nojoin=64)
            if conv:
                xb, c, g, P, Delta = [A[p] for p in ps[:5]]
            else:
                xb, c, g, L, U, Delta = [A[p] for p in ps[:6]]
            steps = {}
            ips = [a.arg for a in inode.args.args]
            for t, a in recs.items():
                if conv:
                    axb, ag, aP, aD = [a[p] for p in ips[:4]]
                    good = axb is xb and aP is P and aD is Delta
                else:
                    ag, al, au, aD = [a[p] for p in ips[:4]]
                    good = h.full(al) is sub(L, xb) and h.full(au) is sub(U, xb) and aD is Delta
                self.ok('C13', 'geometry', '%s is given the region of the caller (bounds relative to the base point, radius)' % inner, good, ', '.join(show(x)[:60] if isinstance(x, T) else '?' for x in a.values()))
                fg = h.full(ag)
                steps[t] = 1 if fg is g else -1 if fg is scale(g, -1) else None
            self.ok('C13', 'geometry', '%s solves for g and for -g' % fn, None if None in steps.values() else sorted(steps.values()) == [-1, 1], str(sorted(map(str, steps.values()))))
            for v, s in outs:
                f = h.full(v) if isinstance(v, T) else None
                for conds, leaf in ([] if f is None else self.leaves(h, f)):
                    st = [t for t in steps if t is leaf or t is sub(leaf, xb)]
                    want = leaf if conv else sub(leaf, xb)
                    self.ok('C13', 'geometry', '%s returns %s' % (fn, 'one of the two steps' if conv else 'the base point plus one of the two steps'), want in steps, show(leaf)[:150])
                    if want in steps and len(steps) == 2:
                        o = [t for t in steps if t is not want][0]
                        best = le(mk('abs', add(c, dot(g, o))), mk('abs', add(c, dot(g, want))))
                        worst = le(mk('abs', add(c, dot(g, want))), mk('abs', add(c, dot(g, o))))
                        fz = [subst_full(h, x) for x in list(s.fz()) + list(conds)]
                        fs = frozenset(fz)
                        b = entails(fs, best)
                        self.ok('C13', 'geometry', '%s returns the step with the larger |c + g.s|' % fn, self.better(fs, b, c, g, o, want, entails(fs, worst)), str([show(x)[:150] for x in fs if any(y in steps for y in subterms(x))]))

    def better(self, fs, b, c, g, o, want, w):
        if b is True:
            return True
        sq = lambda s_: TT.power(add(c, dot(g, s_)), 2)
        cmp_ = [f for f in fs if f.op in ('le0', 'lt0') and any(x is o for x in subterms(f)) and any(x is want for x in subterms(f))]
        if any(req(f.args[0], sub(sq(o), sq(want))) for f in cmp_):
            return True
        if w is True or not any(f.op in ('le0', 'lt0') for f in fs):
            return False
        plain = all(x.op in ('lin', 'mono', 'abs', 'dot', 'lin_step', 'sym', 'const', 'le0', 'lt0') for f in cmp_ for x in subterms(f) if x.op != 'lin_step' and not any(x in subterms(y) for y in (o, want)))
        return False if cmp_ and plain else None

    # ------------------------------------------------------------------ convex constraints
    def ball_rules(self, h, I, centre, radius, ln, prop, pgd=True):
        n = 0
        for where, t, lst, st, bound in h.dyk:
            n += 1
            tag = lst.tag if isinstance(lst, Lst) and lst.items is None else None
            last, base = None, None
            if isinstance(tag, tuple) and tag[0] == 'append':
                last, base = tag[2], tag[1]
            self.ok(prop, 'projection', 'the list of projections is a copy of the caller\'s followed by the trust-region ball', (base == ('of', h.args['projections'])) if last is not None else
                    (False if isinstance(lst, T) or (isinstance(tag, tuple) and (tag[0] == 'of' or tag[0] == 'concat' and tag[2] == ('of', h.args['projections']))) else None), repr(tag)[:100], where)
            if isinstance(last, Fn):
                w = fresh('point')
                h.arrs.add(w)
                try:
                    rs = I.call_fn(last, [w], {}, st.copy(), last.node)
                except Exception:
                    rs = []
                for v, s2 in rs:
                    want_scale = mul(radius, TT.power(mk('max', *sorted([mk('norm', sub(w, centre)), radius], key=lambda x: x.id)), -1))
                    self.ok(prop, 'projection', 'the last projection is onto the ball around the current point with the trust-region radius', self.is_ball(h, v, w, centre, radius), show(h.full(v))[:200], where)
            names = [a.arg for a in self.prog.mods['util'].funcs['dykstra'].args.args]
            mi, tl = bound.get(names[2]), bound.get(names[3])
            for nm, got, want in (('sweep limit', mi, 'd_max_iters'), ('tolerance', tl, 'd_tol')):
                if want in h.args:
                    self.ok([prop, 'C09'] if prop != 'C09' else prop, 'projection', "Dykstra's %s is the caller's" % nm, got is h.args[want], show(got) if isinstance(got, T) else repr(got), where)
        return n

    def is_ball(self, h, v, w, centre, radius):
        """c + r/max(|w-c|, r) * (w-c)"""
        if not isinstance(v, T):
            return None
        f = h.full(v)
        rel = sub(w, centre)
        mx = [t for t in subterms(f) if t.op in ('max', 'vmax')]
        for t in mx:
            args = list(t.args)
            if len(args) == 1 and args[0].op in ('list', 'tuple'):
                args = list(args[0].args)
            if len(args) == 2 and radius in args:
                o = [a for a in args if a is not radius][0]
                if o is mk('norm', rel) or (o.op == 'norm' and h.full(o.args[0]) in (rel, scale(rel, -1))) or o is TT.power(mk('sumsq', rel), Fraction(1, 2)):
                    want = add(centre, mul(mul(radius, TT.power(t, -1)), rel))
                    return True if f is want or req(f, want) else False
        return False if not any(x.taint for x in subterms(f)) else None

    def dyk_step(self, h, t, centre):
        """t == dykstra(...) - centre"""
        d = h.full(add(t, centre)) if isinstance(t, T) else None
        return d is not None and d.op == 'dyk'

    def t_convex(self):
        for fn in ('ctrsbox_pgd', 'ctrsbox_linear', 'ctrsbox_sfista'):
            node = self.prog.mods['trust_region'].funcs[fn]
            ps = [a.arg for a in node.args.args]
            arrs = [ps[0], 'g']
            over = {'use_fortran': FALSE}
            h, I, outs, A = self.run('trust_region', fn, over, arrs, nojoin=64)
            centre = A[ps[0]]
            radius = A[{'ctrsbox_linear': ps[3]}.get(fn, ps[4])]
            g = A['g']
            n = self.ball_rules(h, I, centre, radius, None, 'C13')
            self.ok('C13', 'projection', '%s projects onto the feasible set' % fn, n > 0, '')
            for ev in h.events:
                _, nd, entry, head, backs, exits, done, pr, inv = ev
                ln = 'trust_region.py:%d' % nd.lineno
                rets = set()
                for v, s in outs:
                    d = v.items[0] if isinstance(v, Tup) else v
                    rets.add(d)
                # the variable holding the step
                dv = [n_ for n_ in head.env if isinstance(head.env[n_], T) and h.is_arr(head.env[n_]) and any(head.env[n_] is r for r in rets)]
                if pr and any(pr[0] in s.env for s in exits):
                    dv = [pr[0]] if pr[0] in ('d',) or not dv else dv
                cand = dv or [n_ for n_ in head.env if n_ == 'd']
                for n_ in cand:
                    e0 = h.full(entry.env[n_]) if n_ in entry.env else None
                    self.ok('C13', 'projection', '%s starts from the zero step' % fn, e0 is not None and e0.op == 'call' and e0.args[0] in ('np.zeros', 'np.zeros_like'), show(e0)[:80] if e0 is not None else '', ln)
                    for s in backs + exits:
                        if n_ in s.env and s.env[n_] is not head.env[n_]:
                            self.ok('C13', 'projection', 'every new step of %s is an output of the projection' % fn, self.dyk_step(h, s.env[n_], centre), show(h.expand(s.env[n_], 2))[:200], ln)
                if pr:
                    dn, gn = pr
                    for s in backs + exits:
                        if dn in s.env and gn in s.env:
                            self.ok('C13', 'gradient', '%s keeps g + H d next to d' % fn, h.veq(s.env[gn], add(g, dot(A['H'], s.env[dn]))), show(h.expand(s.env[gn], 2))[:200], ln)
                self.momentum(h, ev, fn, cand, ln)
                if fn == 'ctrsbox_pgd':
                    self.pgd_rules(h, ev, A, ln)
                if fn == 'ctrsbox_linear':
                    self.lin_rules(h, ev, A, ln)
                if fn == 'ctrsbox_sfista':
                    self.sfista_rules(h, ev, A, ln, cand)

    def momentum(self, h, ev, fn, cand, ln):
        """accelerated gradient: t+ = (1 + sqrt(1 + 4 t^2))/2, y+ = d+ + (t - 1)/t+ (d+ - d)"""
        _, nd, entry, head, backs, exits, done, pr, inv = ev
        if not cand:
            return
        dn = cand[0]
        for s in backs:
            for n in sorted(head.env):
                t0, t1 = head.env[n], s.env.get(n)
                if isinstance(t0, T) and t0 in h.entryval and num(h.entryval[t0]) == 1 and isinstance(t1, T) and t1 is not t0 and not h.is_arr(t1):
                    e = self.sfull(h, t1)
                    if not any(x is t0 for x in syms(e)):
                        continue
                    want = scale(add(const(1), TT.power(add(const(1), scale(TT.power(t0, 2), 4)), Fraction(1, 2))), Fraction(1, 2))
                    soft = (lambda r: r) if fn == 'ctrsbox_sfista' else (lambda r: r or None)
                    props = ['C06'] if fn == 'ctrsbox_sfista' else ['C13']
                    self.ok(props, 'momentum', '%s: t+ = (1 + sqrt(1 + 4 t^2))/2' % fn, soft(bool(req(e, want))), show(e)[:200], ln)
                    for y in sorted(head.env):
                        y0, y1 = head.env[y], s.env.get(y)
                        if y == dn or not isinstance(y0, T) or y0 not in h.entryval or not h.is_arr(h.entryval[y0]) or not isinstance(y1, T) or h.full(h.entryval[y0]) is not h.full(entry.env[dn]):
                            continue
                        if t1 not in subterms(h.expand(y1, 1)) and t0 not in syms(h.expand(y1, 2)):
                            continue
                        d0, d1 = head.env[dn], s.env[dn]
                        w = add(d1, mul(mul(sub(t0, const(1)), TT.power(t1, -1)), sub(d1, d0)))
                        r = h.veq(y1, w)
                        self.ok(props, 'momentum', '%s: y+ = d+ + (t - 1)/t+ (d+ - d)' % fn, soft(r), show(h.expand(y1, 1))[:300], ln)

    def pgd_rules(self, h, ev, A, ln):
        _, nd, entry, head, backs, exits, done, pr, inv = ev
        xopt, H = A['xopt'], A['H']
        L = mk('norm', H, const(2))
        for where, t, lst, st, bound in h.dyk:
            x0 = h.full(t.args[1])
            w = sub(x0, xopt)
            if not any(s in h.entryval for s in syms(w)):
                continue
            # y - gy / L for a pair (y, gy) with gy = g + H y kept by the loop
            hs = [s for s in syms(w) if s in h.entryval]
            if not all(any(head.env[n] is x for n in head.env) for x in hs):
                continue
            ok_ = False
            det = show(w)[:200]
            for y in hs:
                rest = sub(w, y)
                ok1 = rest is scale(mul(TT.power(L, -1), add(A['g'], dot(H, y))), -1)
                if ok1:
                    ok_ = True
                for q in hs:
                    if q is not y and req(rest, scale(mul(TT.power(L, -1), q), -1)):
                        yn = [n for n in head.env if head.env[n] is y]
                        qn = [n for n in head.env if head.env[n] is q]
                        if not yn or not qn:
                            continue
                        inv_ok = h.veq(entry.env[qn[0]], add(A['g'], dot(H, entry.env[yn[0]])))
                        for s in backs:
                            inc = h.veq(sub(s.env[qn[0]], q), dot(H, sub(s.env[yn[0]], y)))
                            inv_ok = inv_ok is True and inc is True
                        ok_ = bool(inv_ok)
                        det = '%s tracks g + H %s: %s' % (qn[0], yn[0], inv_ok)
            self.ok('C13', 'descent', 'the projected point is y - (g + H y)/L with L the norm of H', ok_ or None, det, where)

    def lin_rules(self, h, ev, A, ln):
        g = A['g']
        _, nd, entry, head, backs, exits, done, pr, inv = ev
        for where, t, lst, st, bound in h.dyk:
            w = sub(h.full(t.args[1]), A[[a.arg for a in self.prog.mods['trust_region'].funcs['ctrsbox_linear'].args.args][0]])
            hs = [s for s in syms(w) if s in h.entryval]
            for y in hs[:1]:
                d = sub(w, y)
                while d.op in ('store', 'where'):
                    d = d.args[0] if d.op == 'store' else d.args[2]
                r = d is scale(g, -1)
                if not r and d.op == 'mono':
                    r = True if any(a is g for a, e in d.args[0]) and False else None
                self.ok('C13', 'descent', 'the projected point moves against the gradient', r or None, show(d)[:150], where)

    def sfista_rules(self, h, ev, A, ln, cand):
        """smoothed FISTA: gradient of the smoothed objective at the point of evaluation, step 1/(|H| + 1/u), prox arguments"""
        _, nd, entry, head, backs, exits, done, pr, inv = ev
        xopt, H, g = A['xopt'], A['H'], A['g']
        k = head.env.get('__k%d_%d' % (nd.lineno, nd.col_offset))
        props = ['C06']
        us = set()
        for where, t, args in h.apps:
            if t.args[0] is not A.get('prox_uh'):
                continue
            x = h.full(args[0]) if isinstance(args[0], T) else None
            self.ok('C06', 'prox', 'the proximal operator is called with (point, smoothing parameter, *argsprox)', self.prox_args(t, A), show(t)[:200], where)
            u = h.full(t.args[2])
            us.add(u)
        iters = None
        for u in us:
            uu = u
            it = mul(scale(A['delta'], 2), TT.power(mul(A['L_h'], uu), -1))
            # exits after that many iterations
            done_ = [s for s in exits]
            lim = any(entails(frozenset(subst_full(h, f) for f in s.fz()), le(self.sfull(h, it), k)) for s in done_) if k is not None else None
            self.ok('C06', 'smoothing', 'the smoothing parameter is 2*delta/(iterations * L_h) for the iterations performed', True if lim else None, show(uu)[:200], ln)
        for s in backs:
            if not cand:
                continue
            dn = cand[0]
            d1, d0 = s.env[dn], head.env[dn]
            # the step of the projection
            dk = h.full(add(d1, xopt))
            if dk.op != 'dyk':
                continue
            w = h.full(sub(dk.args[1], xopt))
            ys = [x for x in syms(w) if x in h.entryval and x is not d0 and any(head.env[n] is x for n in head.env if n != dn)]
            got = None
            closed = not w.taint and bool(us) and all(self.prox_args(t, A) for t in subterms(w) if t.op == 'app' and t.args[0] is A.get('prox_uh')) and \
                all(t is mk('norm', H, const(2)) for t in subterms(w) if t.op == 'norm') and not any(t.op == 'call' and t.args[0] != 'ceil' for t in subterms(w))
            for u in us:
                for y in sorted(set(x for x in syms(w) if x in h.entryval and h.is_arr(x)), key=lambda z: z.id):
                    for at in (d0, y):
                        for pr_ in [t for t in subterms(w) if t.op == 'app' and t.args[0] is A.get('prox_uh')]:
                            grad = add(add(g, dot(H, at)), mul(TT.power(u, -1), sub(add(xopt, at), pr_)))
                            lip = add(mk('norm', H, const(2)), TT.power(u, -1))
                            want = sub(y, mul(grad, TT.power(lip, -1)))
                            if req(w, want):
                                got = True
                                pa = h.full(pr_.args[1])
                                xs = add(xopt, at)
                                r2 = self.unscaled_at(h, pa, xs, A.get('scaling_changes'))
                                self.ok(props, 'prox', 'the proximal operator is evaluated at the same point as the gradient', r2, show(pa)[:200], ln)
            self.ok(props, 'descent', 'the projected point is y - gradient of the smoothed model / (|H| + 1/u)', True if got else False if closed else None, show(w)[:300], ln)

    def prox_args(self, t, A):
        if len(t.args) == 4 and t.args[3] is mk('star', A['argsprox']):
            return True
        if t.taint:
            return None
        stars = [x for x in t.args[1:] if isinstance(x, T) and x.op == 'star']
        plain = [A.get('argsprox'), A.get('argsh')]
        for x in stars:
            y = x.args[0]
            if not (y in plain or isinstance(y, T) and y.op == 'idx' and y.args[0] in plain):
                return None  # a list put together from something else
        return False

    def unscaled_at(self, h, pa, xs, sc):
        """pa is the point xs in the user's coordinates: xs itself without scaling, else shift + scale*xs (clipped)"""
        if pa is xs or req(pa, xs):
            return True
        if not any(t is sc for t in subterms(pa)):
            # no scaling on this path: another polynomial in the very same quantities is another point
            return False if not pa.taint and set(syms(pa)) <= set(syms(xs)) and all(t.op not in ('ite', 'min', 'max', 'app', 'call') for t in subterms(pa)) else \
                self.contains(h, pa, xs)
        inside = [t for t in subterms(pa) if any(q is sc for q in subterms(t))]
        atoms = [t for t in inside if t.op == 'idx']
        leaves = [t for t in inside if t.op in ('add', 'mul', 'sum', 'lin', 'poly') or any(v in syms(t) for v in syms(xs))]
        for b in atoms:
            for a_ in atoms:
                w = add(a_, mul(b, xs))
                if any(t is w or req(t, w) for t in leaves):
                    return True
        return self.contains(h, pa, xs) and None

    def contains(self, h, t, x):
        if h.full(t) is x:
            return True
        m = fresh('pt')
        for a in (t, h.full(t)):
            if any(y is x for y in subterms(a)):
                return True
        # the point scaled back: shift + scale * x
        f = h.full(t)
        return True if all(v in syms(f) for v in syms(x)) else False

    def all(self):
        self.guard(self.t_trsbox, 'C12')

    # ------------------------------------------------------------------ TRSBOX
    def t_trsbox(self):
        best = None
        for c in ([int(os.environ['CH'])] if 'CH' in os.environ else range(3)):
            r = self.trsbox_run(c)
            bad = sum(1 for o in r[0] if o[3] is False)
            if best is None or bad < best[1]:
                best = (r, bad)
            if bad == 0 or not r[1]:
                break
        for prop, rule, text, cond, detail, line in best[0][0]:
            self.ok(prop, rule, text, cond, detail, line)

    def trsbox_run(self, choice):
        res = []

        def ok(prop, rule, text, cond, detail='', line=None):
            res.append((prop, rule, text, cond, detail, line or self.line))
        lines = [n.lineno for n in ast.walk(self.prog.mods['trust_region'].tree) if isinstance(n, (ast.For, ast.While))]
        self.alphas, self.cg, self.rads = {}, {}, []
        h, I, outs, A = self.run('trust_region', 'trsbox', {'use_fortran': FALSE}, ('xopt', 'g', 'sl', 'su'), {l: choice for l in lines})
        g, H, sl, su, xopt = A['g'], A['H'], A['sl'], A['su'], A['xopt']
        seen = False
        for ev in h.events:
            _, node, entry, head, backs, exits, done, pr, inv = ev
            ln = 'trust_region.py:%d' % node.lineno
            if pr:
                seen = True
                dn, gn = pr
                for kind_, sts in (('back', backs), ('exit', exits), ('done', [])):
                    for s in sts:
                        if dn not in s.env or gn not in s.env:
                            continue
                        r = h.veq(s.env[gn], add(g, dot(H, s.env[dn])))
                        ok('C12', 'gradient', 'the running gradient (%s) equals g + H*%s after an iteration' % (gn, dn), r,
                           '%s = %s, %s = %s' % (gn, show(h.full(s.env[gn]))[:250], dn, show(h.full(s.env[dn]))[:200]), ln)
                for v, f, what in inv:
                    for s in backs:
                        if v in s.env:
                            x, y = s.env[v], f(s.env)
                            r = h.veq(x, y) if h.is_arr(y) else h.seq(x, y)
                            ok('C12', 'tracking', '%s stays %s' % (v, what), r, show(h.full(x))[:300], ln)
                self.step_rules(h, I, ev, ok, A, ln)
        ok('C12', 'gradient', 'the iteration keeps a running gradient g + H d next to the step', True if seen else False,
           'no pair of loop variables satisfies it')
        for ev in h.events:
            self.ratio(h, ev, ok, 'trust_region.py:%d' % ev[1].lineno, A)
        for v, s in outs:
            its = v.items if isinstance(v, Tup) else None
            if its is None:
                ok('C12', 'box', 'returns (step, gradient, crvmin)', None)
                continue
            self.final(h, I, its, A, ok)
        return res, h.ncand

    def final(self, h, I, its, A, ok):
        sl, su, xopt = A['sl'], A['su'], A['xopt']
        x = add(h.expand(its[0], 1), xopt)
        for _ in range(12):
            lo, hi = _side(x, sl, su, h.expand1, True), _side(x, su, sl, h.expand1, False)
            if lo and hi:
                break
            y = add(h.expand(sub(x, xopt), 1), xopt)
            if y is x:
                break
            x = y
        for t in subterms(x):
            if t.op == 'where' and t.args[1] in (sl, su) and t.args[0].op == 'eq0' and t.args[0].args[0].op == 'lin' and len(t.args[0].args[0].args[0]) == 1:
                k = t.args[0].args[0].args[1] / t.args[0].args[0].args[0][0][1]
                if k in (1, -1):
                    ok('C12', 'active', 'a variable fixed at a bound (mark -1 lower, 1 upper) is put on that bound', (k == 1) == (t.args[1] is sl), show(t.args[0])[:80])
        bad = x.taint or any(t.op == 'call' and t.args[0] not in ('np.zeros', 'np.maximum', 'np.minimum') for t in subterms(x))
        ok('C12', 'box', 'the returned step keeps xopt + d >= sl exactly', lo or (None if bad else False), show(x)[:400])
        ok('C12', 'box', 'the returned step keeps xopt + d <= su exactly', hi or (None if bad else False), show(x)[:400])

    # leaves of a gated expression: [(conditions, value)]
    def leaves(self, h, t, conds=(), n=0):
        e = h.I.defs.get(t) if t.op == 'sym' and not h.is_arr(t) else None
        if e is not None and n < 8:
            return self.leaves(h, e, conds, n + 1)
        if t.op == 'sym' and t in h.entryval and not h.is_arr(t) and n < 8:
            pass
        if t.op == 'ite':
            return self.leaves(h, t.args[1], conds + (t.args[0],), n + 1) + self.leaves(h, t.args[2], conds + (bnot(t.args[0]),), n + 1)
        return [(conds, t)]

    def gleaves(self, h, t, at, conds=(), n=0):
        """values of a scalar by cases, gates distributed out of arithmetic; at: terms replaced by atoms first"""
        t = subst(t, at)
        e = h.I.defs.get(t) if t.op == 'sym' and not h.is_arr(t) else None
        if e is not None and n < 12:
            return self.gleaves(h, e, at, conds, n + 1)
        g = None
        if t.op == 'ite':
            g = t
        elif t.op in ('lin', 'mono') and n < 12:
            m = {x: h.I.defs[x] for x in (a for a, _ in t.args[0]) if x.op == 'sym' and x in h.I.defs and not h.is_arr(x) and
                 any(y.op == 'ite' for y in subterms(h.I.defs[x]))}
            if m:
                return self.gleaves(h, subst(t, m), at, conds, n + 1)
            g = next((x for x, _ in t.args[0] if x.op == 'ite'), None)
            if g is None:
                g = next((y for x, _ in t.args[0] if x.op in ('lin', 'mono') for y, _ in x.args[0] if y.op == 'ite'), None)
        if g is None:
            return [(conds, t)]
        c = g.args[0]
        return (self.gleaves(h, subst(t, {g: g.args[1]}), at, conds + (c,), n + 1) if t is not g else self.gleaves(h, g.args[1], at, conds + (c,), n + 1)) + \
            self.gleaves(h, subst(t, {g: g.args[2]}) if t is not g else g.args[2], at, conds + (bnot(c),), n + 1)

    def step_rules(self, h, I, ev, ok, A, ln):
        _, node, entry, head, backs, exits, done, pr, inv = ev
        sl, su, xopt, H, g = A['sl'], A['su'], A['xopt'], A['H'], A['g']
        if pr:
            dn, gn = pr
            for s in backs + exits:
                if dn not in s.env or gn not in s.env or s.env[dn] is head.env[dn]:
                    continue
                self.reduction(h, ev, s, ok, ln, A)
                self.boundary(h, ev, s, ok, ln, A)
                self.angle(h, ev, s, ok, ln, A)
            self.cg_rules(h, ev, ok, ln, A)
        self.active_rules(h, ev, ok, ln, A)

    def reduction(self, h, ev, s, ok, ln, A):
        """a scalar that accumulates the decrease of the model: new - old == -(G.D + D.H.D/2) for the change D of the step"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        dn, gn = pr
        H = A['H']
        for v in sorted(head.env):
            x0, x1 = head.env[v], s.env.get(v)
            if not isinstance(x0, T) or not isinstance(x1, T) or x0.op != 'sym' or x1 is x0 or h.is_arr(x0) or x0 not in h.entryval:
                continue
            dif = sub(x1, x0)
            if x0 in syms(dif):
                continue            # not an accumulator
            if num(dif) is not None:
                continue
            for conds, d in self.leaves(h, dif):
                dl = self.leaf_expand(h, d)
                ms = [x for x in dl if x.op == 'max' and any(num(a) == 0 for a in x.args)]
                alts = [a for x in ms for a in x.args if num(a) is None] or dl
                Dl = sub(s.env[dn], head.env[dn])
                want = scale(add(dot(head.env[gn], Dl), scale(dot(Dl, dot(H, Dl)), Fraction(1, 2))), -1)
                r = None
                for a in alts:
                    r = h.seq(a, want)
                    if r is True:
                        break
                if ms and r is not True:
                    continue        # conjugate gradients: relies on conjugacy of earlier directions
                if r is False and not self.looks_like_reduction(h, d, head, s, dn):
                    continue
                ok('C12', 'decrease', '%s accumulates exactly the decrease of the quadratic model' % v, r, show(h.expand(d, 2))[:300], ln)
                if r is True:
                    ok('C12', 'decrease', 'the step is only changed when the model decreases', self.known_nonneg(h, s, d), show(d)[:100], ln)

    def looks_like_reduction(self, h, d, head, s, dn):
        return True

    def angle(self, h, ev, s, ok, ln, A):
        """rotation of the step towards the new direction: cos, sin of twice an angle whose tangent never exceeds the bound on it"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        dn, gn = pr
        w = h.expand1(s.env[dn])
        if w.op != 'where':
            return
        fr = [x for x in w.args[1:] if x is not head.env[dn]]
        if len(fr) != 1:
            return
        try:
            v = h.vec(fr[0], ())
        except (NoVec, Split):
            return
        base = [c for k, c in v.items() if k[2] is head.env[dn] and k[0] is None]
        if len(base) != 1 or len(v) < 2:
            return
        cth = base[0]
        cands = [(n, x) for n, x in sorted(s.env.items()) if isinstance(x, T) and not h.is_arr(x) and not is_bool(x) and num(x) is None and
                 any(y.op in ('sym', 'ite') for y in subterms(x))]
        for n, x in cands:
            try:
                t2 = TT.power(x, 2)
                good = req(mul(self.sfull(h, cth), add(const(1), self.sfull(h, t2))), sub(const(1), self.sfull(h, t2)))
            except Exception:
                continue
            if not good:
                continue
            # x is the tangent of half the angle
            inner = [e for e in h.events if e[1].lineno > node.lineno and e[1].end_lineno <= node.end_lineno and isinstance(e[1], ast.For)]
            for conds, leaf in self.gleaves(h, x, {}):
                e = self.sfull(h, leaf)
                src = [ie for ie in inner if ie[3].env.get(n) is leaf]
                lst = [(self.sfull(h, b.env[n]), b) for ie in src for b in ie[4]] if src else [(e, s)]
                for val, b in lst:
                    ang = [a for a in syms(val) if a in h.entryval and num(h.entryval[a]) == 1]
                    mons = [(y, k) for y, k in val.args[0]] if val.op == 'lin' and val.args[1] == 0 else [(val, Fraction(1))]
                    dens = None
                    for y, k in mons:
                        ds = {z for z, ex in y.args[0] if ex == -1} if y.op == 'mono' else set()
                        dens = ds if dens is None else dens & ds
                    if len(ang) != 1 or not dens or len(dens) != 1:
                        ok('C12', 'angle', 'the angle is a fraction of its bound', None, show(val)[:200], ln)
                        continue
                    q = dens.pop()
                    p = const(0)
                    for y, k in mons:
                        f = kc(k)
                        for z, ex in y.args[0]:
                            ex = ex - 1 if z is ang[0] else ex
                            if z is not q and ex:
                                f = mul(f, TT.power(z, ex))
                        p = add(p, f)
                    r = entails(b.fz() | frozenset(conds), le(p, q))
                    if r is not True:
                        # plus a fraction of the parabola through three neighbouring values, which is at most one in modulus
                        byden = {}
                        for y, k in (p.args[0] if p.op == 'lin' else ((p, Fraction(1)),)):
                            de = [z for z, ex in y.args[0] if ex == -1 and z.op == 'lin'] if y.op == 'mono' else []
                            if len(de) == 1:
                                nu = kc(k)
                                for z, ex in y.args[0]:
                                    if z is not de[0]:
                                        nu = mul(nu, TT.power(z, ex))
                                byden[de[0]] = add(byden.get(de[0], const(0)), nu)
                        if len(byden) == 1:
                            (de, nu), = byden.items()
                            ks = {abs(k) for _, k in nu.args[0]} if nu.op == 'lin' else set()
                            peak = False
                            if len(ks) == 1:
                                k = ks.pop()
                                un = scale(nu, 1 / k)
                                peak = self.two(add(de, un)) and self.two(sub(de, un))
                            frac = const(0)
                            for y, kk in p.args[0]:
                                if y.op == 'mono' and any(z is de and ex == -1 for z, ex in y.args[0]):
                                    frac = add(frac, scale(y, kk))
                            r = None if not peak else False if k > 1 else True if self.int_ok(sub(p, frac), k, q, conds, b) else None
                        else:
                            r = False if p.op in ('lin', 'sym') else None
                    ok('C12', 'angle', 'the half-angle tangent never exceeds its bound', r, '%s <= %s' % (show(p)[:150], show(q)[:100]), ln)
            # a bound is recorded as reached only at the full angle
            for m in sorted(head.env):
                z = h.expand1(s.env[m]) if isinstance(s.env.get(m), T) else None
                if z is not None and z.op == 'store' and z.args[0] is head.env[m] and len(z.args[1]) == 1:
                    lv = [l for c, l in self.gleaves(h, x, {}) if not any(decide(s.fz(), k) is False for k in c)]
                    ok('C12', 'angle', 'a variable is fixed only when the whole angle to its bound was taken', all(any(ie[3].env.get(n) is l for ie in inner) for l in lv), show(x)[:150], ln)
            return

    def two(self, t):
        return t.op == 'lin' and t.args[1] == 0 and len(t.args[0]) == 2 and sorted(k for _, k in t.args[0]) == [-2, 2]

    def int_ok(self, rest, k, q, conds, b):
        """rest + k <= q with integers: rest and q are integral and rest < q"""
        return abs(k) <= 1 and entails(b.fz() | frozenset(conds), lt(rest, q)) is True

    def sfull(self, h, t):
        """scalar definitions unfolded, arrays kept"""
        for _ in range(30):
            m = {x: h.I.defs[x] for x in syms(t) if x in h.I.defs and not h.is_arr(x)}
            if not m:
                return t
            t = subst(t, m)
        return t

    def cg_rules(self, h, ev, ok, ln, A):
        """conjugate-gradient loop: curvature limit on the step, decrease, next direction, radius left after a variable is fixed"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        if id(node) not in self.cg:
            return
        al, S, m, al0 = self.cg[id(node)]
        dn, gn = pr
        H = A['H']
        if m is None:
            return
        P = lambda x: msel(x, m)
        G = head.env[gn]
        bc = [c for asm in self.split_asm(h, S) for c, v in asm][:1]
        marks = self.marks(h, ev)
        keepmask = lambda s: all(s.env.get(n) is head.env[n] for n in marks)
        vs = []
        for n in sorted(head.env):
            if isinstance(head.env[n], T) and not h.is_arr(head.env[n]) and all(n in b.env for b in backs):
                bs = [b for b in backs if keepmask(b)]
                if bs and not all(b.env[n] is head.env[n] for b in bs) and all(h.seq(self.dropstay(h, b.env[n], b, pr, head), mk('sumsq', P(self.dropstay(h, b.env[gn], b, pr, head)))) is True for b in bs):
                    vs.append((n, head.env[n]))
        ok('C12', 'conjugate', 'some scalar follows the squared length of the free gradient', True if vs else None, '', ln)
        gsqs = [ite(bc[0], mk('sumsq', P(S)), v) if bc else v for n, v in vs] + [v for n, v in vs] + [mk('sumsq', P(G))]
        gsqs = gsqs or [mk('sumsq', P(S))]
        shs = dot(P(S), P(dot(H, S)))
        for conds, leaf in self.leaves(h, al):
            e = self.sfull(h, leaf)
            if leaf.op == 'min' or e.op == 'min':
                args = (leaf if leaf.op == 'min' else e).args
                good = any(h.seq(mul(c, shs), g) is True for c in args for g in gsqs)
                ok('C12', 'curvature', 'with positive curvature the step stops at the minimiser along the direction', good, show(h.expand(leaf, 3))[:200], ln)
            else:
                good = False
                for c in conds:
                    if c.op in ('le0', 'lt0') and h.seq(c.args[0], shs) is True:
                        good = True
                if not good and any(h.seq(mul(leaf, shs), g) is True for g in gsqs):
                    good = True
                ok('C12', 'curvature', 'the step runs to the trust-region boundary only if the curvature along it is not positive', good, '%s under %s' % (show(leaf)[:100], [show(h.expand(c, 2))[:80] for c in conds]), ln)
        for b in backs:
            for n in sorted(head.env):
                x0, x1 = head.env[n], b.env.get(n)
                if not isinstance(x0, T) or not isinstance(x1, T) or x1 is x0 or h.is_arr(x0) or x0 not in h.entryval:
                    continue
                dif = sub(self.dropstay(h, x1, b, pr, head), x0)
                if x0 in syms(dif) or num(dif) is not None:
                    continue
                for _, d in self.leaves(h, dif):
                    if d.op == 'max' and any(num(a) == 0 for a in d.args):
                        a = [a for a in d.args if num(a) is None][0]
                        good = any(h.seq(a, sub(mul(al0, g), scale(mul(mul(al0, al0), shs), Fraction(1, 2)))) is True for g in gsqs)
                        ok('C12', 'decrease', '%s accumulates the decrease of the model along a conjugate direction' % n, good, show(h.expand(a, 2))[:300], ln)
        for b in backs + exits:
            if b.env.get(dn) is head.env[dn] or dn not in b.env:
                if b in backs:
                    continue
                self.cauchy(h, ev, b, ok, ln, vs, al, S, m)
        for b in backs:
            changed = not keepmask(b)
            coef = self.coef(h, S, m, ev)
            if changed:
                i = None
                for n in marks:
                    w = h.expand1(b.env[n])
                    if w is not head.env[n]:
                        i = w.args[1][0] if w.op == 'store' else None
                for n, R in sorted(head.env.items()):
                    if isinstance(R, T) and R in self.rads and i is not None:
                        want = sub(R, TT.power(index_term(b.env[dn], (i,)), 2))
                        got = b.env[n]
                        r = True if self.seq2(h, got, want) else False
                        ok('C12', 'radius', 'fixing a variable takes its squared displacement off the squared radius left for the others', r, show(h.expand(got, 1))[:200], ln)
                if coef is not None:
                    n = next((n for n in head.env if head.env[n] is coef), None)
                    if n is not None:
                        ok('C12', 'conjugate', 'after a variable is fixed the next direction is steepest descent again', num(b.env[n]) == 0, show(b.env[n]), ln)
            elif coef is not None:
                n = next((n for n in head.env if head.env[n] is coef), None)
                if n is not None and num(b.env[n]) != 0:
                    stay = self.dropstay(h, b.env[n], b, pr, head)
                    good = any(h.seq(mul(stay, g), mk('sumsq', P(self.dropstay(h, b.env[gn], b, pr, head)))) is True or self.seq2(h, mul(self.sfull(h, stay), self.sfull(h, g)), self.sfull(h, self.dropstay(h, b.env[v[0]], b, pr, head)))
                               for g in gsqs for v in vs)
                    ok('C12', 'conjugate', 'the direction multiplier is the ratio of successive squared gradients', good, show(h.expand(b.env[n], 2))[:200], ln)

    def known_nonneg(self, h, s, d):
        if entails(s.fz(), le(const(0), d)) is True:
            return True
        e = scale(self.sfull(h, d), -1)
        return any(f.op in ('le0', 'lt0') and req(self.sfull(h, f.args[0]), e) for f in s.fz())

    def seq2(self, h, a, b):
        if a is b:
            return True
        la, lb = self.gleaves(h, self.sfull(h, a), {}), self.gleaves(h, self.sfull(h, b), {})
        for ca, x in la:
            for cb, y in lb:
                if any(bnot(c) in ca for c in cb):
                    continue
                if not req(self.arrx(h, x), self.arrx(h, y)):
                    return False
        return True

    def arrx(self, h, x):
        return x

    def dropstay(self, h, t, s, pr, head):
        """value in the case that the iteration moved"""
        t = h.I.defs.get(t, t) if t.op == 'sym' else t
        d1 = s.env.get(pr[0])
        if isinstance(d1, T) and d1.op == 'ite':
            mv = d1.args[0] if d1.args[2] is head.env[pr[0]] else bnot(d1.args[0]) if d1.args[1] is head.env[pr[0]] else None
            if mv is not None:
                def go(x, n=0):
                    if n > 60:
                        return x
                    for y in subterms(x):
                        if y.op == 'ite' and y.args[0] is mv:
                            return go(subst(x, {y: y.args[1]}), n + 1)
                        if y.op == 'ite' and bnot(y.args[0]) is mv:
                            return go(subst(x, {y: y.args[2]}), n + 1)
                    return x
                t = go(t)
        return t

    def coef(self, h, S, m, ev):
        """multiplier of the previous direction in the search direction"""
        head = ev[3]
        for asm in self.split_asm(h, S):
            h.keeping = True
            try:
                v = h.canon(h.vec(S, asm), m)
            finally:
                h.keeping = False
            for (mm, p, b), c in v.items():
                if p == 1 and b is not head.env[ev[7][1]] and b in h.entryval and c.op == 'sym':
                    return c
        return None

    def marks(self, h, ev):
        """arrays of integer marks (-1, 0, 1) kept by the loop"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        out = []
        for n in sorted(head.env):
            x0 = head.env[n]
            if isinstance(x0, T) and x0 in h.entryval:
                e0 = h.full(h.entryval[x0])
                if any(t.op == 'where' and num(t.args[1]) in (1, -1) for t in subterms(e0)) and e0.op == 'where':
                    out.append(n)
        return out

    def cauchy(self, h, ev, s, ok, ln, vs, al, S, m):
        """the loop is left without moving only if the free gradient (or the step) vanishes up to an absolute tolerance"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        new = [f for f in s.fz() if f not in head.fz()]
        for f in new:
            e = self.sfull(h, f.args[0]) if f.op in ('le0', 'lt0') else None
            if e is None or e.op != 'lin' or len(e.args[0]) != 1 or e.args[0][0][1] <= 0 or e.args[1] >= 0:
                continue
            tol = -e.args[1] / e.args[0][0][1]
            ok('C12', 'cauchy', 'stopping without a step needs a gradient or step below 1e-12', tol <= Fraction(1, 10 ** 12), show(f)[:120], ln)

    def leaf_expand(self, h, d):
        out = [d]
        for _ in range(6):
            e = h.I.defs.get(out[-1])
            if e is None:
                break
            out.append(e)
        return out

    def boundary(self, h, ev, s, ok, ln, A):
        """step along a direction: its length is capped by the positive root of ||d + t s|| = radius on the free variables"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        dn, gn = pr
        new = s.env[dn]
        D_ = head.env[dn]
        for conds, e in self.leaves_vec(h, new):
            if e is head.env[dn]:
                continue
            dif = sub(e, head.env[dn])
            if dif.op != 'mono' or head.env[dn] in syms(dif):
                continue
            ar = [(a, k) for a, k in dif.args[0] if h.is_arr(a)]
            if len(ar) != 1 or ar[0][1] != 1:
                continue
            S = ar[0][0]
            al = const(1)
            for a, k in dif.args[0]:
                if a is not S:
                    al = mul(al, TT.power(a, k))
            al0 = al
            if al in h.entryval:
                self.alphas[al] = (D_, S)
                al = h.entryval[al]
            masks = set()
            try:
                for asm in self.split_asm(h, S):
                    h.masks(h.vec(S, asm), masks)
            except NoVec:
                continue
            D = head.env[dn]
            self.cg[id(ev[1])] = (al, S, m0(masks), al0)
            # descent direction: on the free variables minus the gradient plus a multiple of the old direction; zero elsewhere
            for m in sorted(masks, key=lambda x: x.id)[:1]:
                def desc(asm, m=m):
                    h.keeping = True
                    try:
                        v = h.canon(h.vec(S, asm), m)
                    finally:
                        h.keeping = False
                    G = head.env[gn]
                    for (mm, p, b), c in v.items():
                        if p == 0 and num(c) != 0:
                            return False
                    c = v.get((m, 1, G))
                    return c is not None and num(c) == -1
                at = fresh('dir')
                h.arrs.add(at)
                at = {S: (m, 1, at)}
                ok('C12', 'direction', 'the search direction is minus the gradient plus a multiple of the previous direction on free variables, zero on fixed ones', h.split1(desc), show(h.expand(S, 2))[:300], ln)
                P = lambda x: msel(x, m)
                # every way the initial step length is computed is at most a root of |P(d + t s)|^2 = const
                for conds2, leaf in self.leaves(h, al):
                    cand = list(leaf.args) if leaf.op == 'min' else [leaf]
                    hit = None
                    for c in cand:
                        for cds, lf in self.leaves(h, c):
                            h.atoms = at
                            try:
                                r = self.is_root(h, lf, D, S, P, head, entry)
                            finally:
                                h.atoms = {}
                            if r is True:
                                hit = True if hit in (None, True) else hit
                            elif len(cand) == 1:
                                hit = False
                        if hit:
                            break
                    ok('C12', 'radius', 'the step length is at most the distance to the trust-region boundary (a root of |d + t s|^2 = radius^2)', bool(hit), show(h.expand(leaf, 3))[:300], ln)

    def split_asm(self, h, S):
        out = []

        def f(asm):
            h.vec(S, asm)
            out.append(asm)
            return True
        h.split1(f)
        return out

    def leaves_vec(self, h, t, conds=(), n=0):
        if t.op == 'ite':
            return self.leaves_vec(h, t.args[1], conds + (t.args[0],), n + 1) + self.leaves_vec(h, t.args[2], conds + (bnot(t.args[0]),), n + 1)
        e = h.I.defs.get(t)
        if e is not None and n < 5 and t not in h.keep:
            return self.leaves_vec(h, e, conds, n + 1)
        return [(conds, t)]

    def is_root(self, h, t, D, S, P, head, entry):
        """|P(D + t S)|^2 equals a squared radius that the loop keeps (value delta^2 on entry)"""
        rads = [v for k, v in head.env.items() if isinstance(v, T) and v in h.entryval and req(h.full(h.entryval[v]), TT.power(h.args['delta'], 2))]
        full = add(mk('sumsq', D), add(scale(mul(t, dot(D, S)), 2), mul(TT.power(t, 2), mk('sumsq', S))))
        if h.seq(full, TT.power(h.args['delta'], 2)) is True:
            return True
        self.rads = rads
        for R in rads:
            lhs = add(mk('sumsq', P(D)), add(scale(mul(t, dot(P(D), P(S))), 2), mul(TT.power(t, 2), dot(P(S), P(S)))))
            if h.seq(lhs, R) is True:
                return True
        return False

    def ratio(self, h, ev, ok, ln, A):
        """limits on the step (or angle) from the bounds, and which bound is recorded as active"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        sl, su, xopt = A['sl'], A['su'], A['xopt']
        k = head.env.get('__k%d_%d' % (node.lineno, node.col_offset))
        if pr or k is None:
            return
        arrs = [v for n, v in sorted(head.env.items()) if isinstance(v, T) and h.is_arr(v) and v not in (sl, su, xopt, A['g'])]
        I_ = lambda a: mk('idx', a, k)
        for v in sorted(head.env):
            x0 = head.env[v]
            if not isinstance(x0, T) or x0 not in h.entryval or h.is_arr(x0):
                continue
            e0 = h.entryval[x0]
            isalpha = x0 in self.alphas
            isangle = num(e0) == 1
            if not (isalpha or isangle):
                continue
            for s in backs:
                at = {}
                if isalpha:
                    D, S = self.alphas[x0]
                    si = fresh('dir_i')
                    at = {index_term(S, (k,)): si}
                for conds, leaf in (self.gleaves if isalpha else self.leaves)(h, s.env.get(v, x0), *([at] if isalpha else [])):
                    if leaf is x0:
                        continue
                    if isalpha:
                        kinds = [(nm, sub(mul(leaf, si), sub(sub(I_(b), I_(xopt)), index_term(D, (k,))))) for nm, b in (('su', su), ('sl', sl))]
                        what = 'the step length is limited by (bound - x - d)/s of the bound the component moves towards'
                    else:
                        kinds = []
                        for S in arrs:
                            for D in arrs:
                                if S is D:
                                    continue
                                d, q, t = I_(D), I_(S), leaf
                                a, b = sub(I_(xopt), I_(sl)), sub(I_(su), I_(xopt))
                                kinds.append(('sl', add(add(mul(sub(a, d), mul(t, t)), scale(mul(q, t), 2)), add(a, d))))
                                kinds.append(('su', add(sub(mul(add(b, d), mul(t, t)), scale(mul(q, t), 2)), sub(b, d))))
                        what = 'the half-angle bound is the tangent at which a component meets its bound'
                    hit = [nm for nm, p in kinds if h.seq(p, const(0)) is True]
                    if not hit and isangle and not any(x.op == 'mono' and any(e == Fraction(1, 2) or e == Fraction(-1, 2) for _, e in x.args[0]) or x in h.I.defs for x in subterms(h.full(leaf))):
                        continue
                    ok('C12', 'bound-step', what, bool(hit), show(h.full(leaf))[:300], ln)
                    if not hit:
                        continue
                    if isalpha:
                        pos = lt(const(0), si)
                        sg = [True if decide(frozenset(conds), c) is True else False if decide(frozenset(conds), c) is False else None for c in (pos,)][0]
                        good = None if sg is None else (sg is True) == (hit[0] == 'su')
                        ok('C12', 'bound-step', 'components that grow are limited by su, components that shrink by sl', good, '%s under %s' % (hit[0], [show(c)[:60] for c in conds]), ln)
                    self.smaller(h, leaf, x0, conds, at, ok, ln, isalpha)
                    # the recorded sign / index belong to the same bound
                    for w in sorted(head.env):
                        w0 = head.env[w]
                        if w == v or not isinstance(w0, T) or w0 not in h.entryval or h.is_arr(w0) or w == 'temp':
                            continue
                        for c2, l2 in self.leaves(h, s.env.get(w, w0)):
                            if l2 is w0 or not set(conds) <= set(c2):
                                continue
                            n = num(l2)
                            if n in (1, -1):
                                ok('C12', 'active', '%s records the bound that limits the angle (-1 lower, 1 upper)' % w, (n == 1) == (hit[0] == 'su'), '%s for %s' % (n, hit[0]), ln)
                            elif l2 is k:
                                ok('C12', 'active', '%s records the component that limits the step' % w, True, '', ln)
        # inside the same loop: a component found at its bound is fixed at that bound
        for s in exits + backs:
            for n, v in sorted(s.env.items()):
                if isinstance(v, T) and v.op in ('store', 'sym') and n in head.env and v is not head.env[n]:
                    w = h.I.defs.get(v, v)
                    if w.op == 'store' and num(w.args[2]) in (1, -1) and w.args[1] == (k,):
                        want = num(w.args[2])
                        good = None
                        for D in arrs:
                            lo = le(sub(add(I_(xopt), I_(D)), I_(sl)), const(0))
                            hi = le(sub(sub(I_(su), I_(xopt)), I_(D)), const(0))
                            if entails(s.fz(), lo):
                                good = want == -1
                            elif entails(s.fz(), hi):
                                good = want == 1
                        ok('C12', 'active', 'a free component found at its bound is fixed at that bound', good, '%s' % want, ln)

    def smaller(self, h, leaf, x0, conds, at, ok, ln, isalpha):
        """the limit replaces the running value only if it is smaller"""
        fl = self.sfull(h, leaf)
        q = const(1)
        if not isalpha:
            inv = [z for y in ([fl] if fl.op == 'mono' else [y for y, _ in fl.args[0]] if fl.op == 'lin' else []) if y.op == 'mono' for z, ex in y.args[0] if ex == -1]
            if not inv:
                return
            q = inv[0]
        dif = mul(sub(fl, x0), q)
        res = None
        for c in conds:
            if c.op not in ('le0', 'lt0'):
                continue
            for c2, e in self.gleaves(h, c.args[0], at):
                if any(bnot(z) in conds for z in c2):
                    continue
                e = self.sfull(h, e)
                if req(e, dif):
                    res = True
                elif req(e, scale(dif, -1)) and res is None:
                    res = False
        ok('C12', 'bound-step', 'a limit replaces the running one only if it is smaller', res, show(leaf)[:150], ln)

    def active_rules(self, h, ev, ok, ln, A):
        """initial active set, and the sign stored when the step hits a bound"""
        _, node, entry, head, backs, exits, done, pr, inv = ev
        sl, su, xopt, g = A['sl'], A['su'], A['xopt'], A['g']
        if not pr:
            return
        dn, gn = pr
        for n in sorted(head.env):
            x0 = head.env[n]
            if not isinstance(x0, T) or x0 not in h.entryval or n in (dn, gn):
                continue
            e0 = h.full(h.entryval[x0])
            ent = {}
            t = e0
            while t.op == 'where' and num(t.args[1]) in (1, -1):
                ent.setdefault(num(t.args[1]), t.args[0])
                t = t.args[2]
            if set(ent) == {1, -1}:
                conj = lambda c: set(c.args[0]) if c.op == 'and' and isinstance(c.args[0], (tuple, frozenset)) else set(c.args) if c.op == 'and' else {c}
                for sign, want in ((-1, {le(xopt, sl), le(const(0), g)}), (1, {le(su, xopt), le(g, const(0))})):
                    got = conj(ent[sign])
                    ok('C12', 'active', 'initially fixed at the %s bound exactly where x is there and the gradient points outwards' % ('lower' if sign < 0 else 'upper'),
                       True if got == want else False if all(x.op in ('le0', 'lt0') for x in got) else None, show(ent[sign])[:200], ln)
            for s in backs + exits:
                w = s.env.get(n)
                w = h.I.defs.get(w, w) if isinstance(w, T) else None
                if isinstance(w, T) and w.op == 'store' and w.args[0] is x0 and self.alphas:
                    i = w.args[1][0]
                    for conds, leaf in self.leaves(h, w.args[2]):
                        if num(leaf) not in (1, -1):
                            continue
                        for D, S in self.alphas.values():
                            c = le(const(0), mk('idx', S, i))
                            c2 = lt(const(0), mk('idx', S, i))
                            z = frozenset(conds)
                            up = any(decide(z, x) is True for x in (c, c2))
                            dn_ = any(decide(z, x) is False for x in (c, c2))
                            if up or dn_:
                                ok('C12', 'active', 'the variable that hits a bound is fixed at the bound it was moving towards', up == (num(leaf) == 1), show(leaf), ln)
