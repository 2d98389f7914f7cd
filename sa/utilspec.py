"""Contracts of the small routines every other analysis relies on: the evaluation of the user's function, sums of squares, model values, the two
changes of variables, the projections onto a box and a ball; and the rule that nothing between solve and the user's function catches its exceptions.

Method: value numbering of each routine in every configuration of its optional arguments; the values are compared with the formulas they stand for."""
import ast
import os
import traceback
from .terms import *
from .interp import *
from .kernels import KHooks, KInterp

Z, ONE = const(0), const(1)
EVALFN = 'eval_least_squares_with_regularisation'


class UHooks(KHooks):
    opaque = ()

    def __init__(self):
        KHooks.__init__(self)
        self.logs = []

    def allow_map(self, node):
        return False

    def call_function(self, I, st, qual, node, selfv, bound):
        nm = getattr(node, 'name', '')
        if nm == 'sumsq' and self.root != 'sumsq':
            return [(mk('sumsq', I.T(list(bound.values())[0])), st)]
        if nm == 'remove_scaling' and self.root != 'remove_scaling':
            return [(mk('unscale', *[I.T(v) for v in list(bound.values())[:2]]), st)]
        return None

    def call_value(self, I, st, f, args, kw, e):
        r = KHooks.call_value(self, I, st, f, args, kw, e)
        for v in r if isinstance(r, list) else []:
            pass
        if isinstance(f, T):
            h = st.heap.get('#calls')
            h = dict(h) if h else {}
            h[show(f)] = h.get(show(f), ()) + (getattr(e, 'lineno', 0),)
            st.heap['#calls'] = h
        return r


def reaches(prog, want):
    """names of the functions ('f') and methods ('.m') from which a call of want can be reached"""
    body = {}
    for m in prog.mods.values():
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                body.setdefault(n.name, set()).update(called(n))
            if isinstance(n, ast.ClassDef):
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        body.setdefault(n.name if k.name == '__init__' else '.' + k.name, set()).update(called(k))
    out, todo = set(want), True
    while todo:
        todo = False
        for f, cs in body.items():
            if f not in out and cs & out:
                out.add(f)
                todo = True
    return out


def called(n):
    r = set()
    for c in ast.walk(n):
        if isinstance(c, ast.Call):
            if isinstance(c.func, ast.Name):
                r.add(c.func.id)
            elif isinstance(c.func, ast.Attribute):
                r.add('.' + c.func.attr)
    return r


class UtilSpec(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep = prog, rep

    def guard(self, f, *props):
        try:
            f()
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.rep.ok(list(props), f.__name__, 'dfols', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    def all(self):
        self.guard(self.exceptions, 'C08')
        fs = self.prog.mods['util'].funcs
        if EVALFN in fs:
            self.guard(self.evaluator, 'C02', 'C03', 'C06', 'C08')
        if 'sumsq' in fs:
            self.guard(self.sumsq, 'C03')
        if 'model_value' in fs:
            self.guard(self.model_value, 'C06', 'C16', 'C12')
        self.guard(self.scaling, 'C01', 'C03', 'C11')
        self.guard(self.projections, 'C09', 'C13', 'C15')

    def run(self, fname, over=None, facts=()):
        node = self.prog.mods['util'].funcs[fname]
        h = UHooks()
        I = KInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs, I.nojoin, I.maydef = True, True, None, 64, True
        h.I, h.dyk, h.dyklist, h.apps, h.root = I, [], {}, [], fname
        names = [a.arg for a in node.args.args]
        A = {p: sym(p) for p in names}
        A.update({names[k]: v for k, v in (over or {}).items() if k < len(names)})
        h.arrs |= {v for v in A.values() if isinstance(v, T) and v.op == 'sym'}
        st = State()
        st.frames = [{}]
        for f in facts:
            st.assume(f)
        I.modstack.append('util')
        outs = I.inline(Fn(node, 'util', qual=fname), dict(A), st, node)
        self.rep.analysed |= {'%s (util.py)' % q for q in I.funcs_seen}
        self.line = 'util.py:%d' % node.lineno
        return I, outs, [A[p] for p in names], node

    def ok(self, props, rule, text, cond, detail=''):
        self.rep.ok(props, rule, self.line, text, cond, detail)

    def same(self, st, v, w):
        """equal for all values; None when the value was not understood"""
        if not isinstance(v, T):
            return None
        if v is w or num(sub(v, w)) == 0:
            return True
        if v.taint or any(x.taint for x in subterms(v)):
            return None
        return True if st.entails(eq(v, w)) else False

    # ------------------------------------------------------------------ the user's function
    def evaluator(self):
        node = self.prog.mods['util'].funcs[EVALFN]
        names = [a.arg for a in node.args.args]
        if names[:5] != ['objfun', 'x', 'h', 'argsf', 'argsh']:
            self.rep.ok(['C02', 'C03'], 'evaluator', 'util.py:%d' % node.lineno, 'the evaluation routine has its known arguments', None)
            return
        pos = {n: i for i, n in enumerate(names)}
        H = sym('H')
        for ht, hv in (('no regulariser', NONE), ('with a regulariser', H)):
            for ct, cv in (('overflow checked', TRUE), ('overflow not checked', FALSE)):
                over = {pos['h']: hv}
                if 'check_for_overflow' in pos:
                    over[pos['check_for_overflow']] = cv
                txt = ' (%s, %s)' % (ht, ct)
                I, outs, A, _ = self.run(EVALFN, over, [bnot(mk('isnone', H))])
                x, argsf, argsh = sym('x'), sym('argsf'), sym('argsh')
                F = mk('app', sym('objfun'), x, mk('star', argsf))
                hx = mk('app', H, x, mk('star', argsh))
                for v, st in outs:
                    calls = st.heap.get('#calls') or {}
                    nf = len(calls.get('objfun', ()))
                    self.ok(['C02', 'C08'], 'evaluator', 'the residual function is called once per evaluation' + txt, nf == 1, 'called %d times (lines %s)' % (nf, calls.get('objfun')))
                    nh = len(calls.get('H', ()))
                    self.ok(['C06'], 'evaluator', 'the regulariser is called once per evaluation, when there is one' + txt, nh == (0 if hv is NONE else 1), 'called %d times' % nh)
                    if not isinstance(v, Tup) or len(v.items) < 2:
                        self.ok(['C03'], 'evaluator', 'the evaluation routine returns the residuals and the objective' + txt, None, '%r' % (v,))
                        continue
                    r, o = v.items[0], I.T(v.items[1])
                    app = [t for t in subterms(I.T(r)) if t.op == 'app' and t.args[0] is sym('objfun')]
                    good = I.T(r) is F
                    if not good and (I.T(r).taint or not app or app[0].args[1] is x and len(app[0].args) == 3 and app[0].args[2] is mk('star', argsf)):
                        good = None if I.T(r).taint or self.cover(I.T(r), F) else False
                    self.ok(['C03', 'C08'], 'evaluator', 'the residual function gets the point and the user\'s arguments, and its residuals are returned' + txt, good, show(I.T(r))[:200])
                    # objective
                    big = I.T(Ext('sys.float_info.max'))
                    hpart = hx if hv is not NONE else Z
                    want = add(mk('sumsq', F), hpart)
                    over_ = add(big, hpart)
                    g = self.cases(st, o, lambda s, t: True if self.same(s, t, want) else (True if cv is TRUE and self.same(s, t, over_) else self.bad(t)))
                    self.ok(['C03', 'C06', 'C08', 'C10'], 'evaluator', 'the objective is the sum of squares of the residuals plus the regulariser at the point' + txt, g, show(o)[:250])
        self.log(node)

    def cover(self, t, F):
        """a copy or conversion of the residuals"""
        return t.op == 'call' and str(t.args[0]).split('.')[-1] in ('array', 'asarray', 'atleast_1d', 'ravel', 'copy') and any(x is F for x in t.args[1:])

    def bad(self, t):
        known = {'sym', 'app', 'star', 'sumsq', 'lin', 'const', 'mono', 'name', 'dot', 'norm', 'vmax', 'abs', 'sum', 'ext', 'pow'}
        return None if t.taint or any(x.taint or x.op not in known for x in subterms(t)) else False

    def cases(self, st, t, f, depth=0):
        c = next((y.args[0] for y in subterms(t) if y.op == 'ite'), None)
        if c is None or depth > 8:
            return f(st, t)
        res = True
        for pol in (True, False):
            cc = c if pol else bnot(c)
            if st.entails(bnot(cc)):
                continue
            s = st.copy()
            s.assume(cc)
            r = self.cases(s, subst(t, {z: z.args[1 if pol else 2] for z in subterms(t) if z.op == 'ite' and z.args[0] is c}), f, depth + 1)
            if r is not True:
                res = r if r is False or res is True else res
        return res

    def log(self, node):
        for c in ast.walk(node):
            if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Mod) and isinstance(c.left, ast.Constant) and isinstance(c.left.value, str) and isinstance(c.right, ast.Tuple) and \
                    'eval' in c.left.value and len(c.right.elts) >= 2 and c.left.value.count('%i') >= 2:
                n = [e.id if isinstance(e, ast.Name) else None for e in c.right.elts[:2]]
                self.rep.ok(['C02'], 'evaluator', 'util.py:%d' % c.lineno, 'the log reports the evaluation number and the point number', True if n == ['eval_num', 'pt_num'] else
                            False if set(n) <= {'eval_num', 'pt_num'} else None, 'reports %s' % n)

    # ------------------------------------------------------------------ exceptions
    def exceptions(self):
        R0 = reaches(self.prog, {EVALFN, '.' + EVALFN})
        owner = {}
        for m in self.prog.mods.values():
            for f in ast.walk(m.tree):
                if isinstance(f, ast.FunctionDef):
                    for t in ast.walk(f):
                        owner[t] = f.name if 'objfun' in [a.arg for a in f.args.args] or owner.get(t) else None
        n = 0
        for name, m in self.prog.mods.items():
            for t in ast.walk(m.tree):
                R = R0 | {'objfun', '.objfun'} if owner.get(t) or name == 'controller' else R0
                if isinstance(t, ast.With):
                    for i in t.items:
                        f = i.context_expr
                        if isinstance(f, ast.Call) and called(f) & {'suppress', '.suppress'} and set().union(*[called(s) for s in t.body]) & R:
                            self.rep.ok(['C08'], 'exceptions', '%s.py:%d' % (name, t.lineno), 'an exception of the residual function reaches the caller', False, 'exceptions are suppressed')
                if not isinstance(t, ast.Try):
                    continue
                n += 1
                body = set().union(*[called(s) for s in t.body]) & R
                w = '%s.py:%d' % (name, t.lineno)
                if not body:
                    self.rep.ok(['C08'], 'exceptions', w, 'no handler covers an evaluation of the residual function', True)
                    continue
                bad = ''
                for h in t.handlers:
                    if not (h.body and isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None and not set().union(*[called(s) for s in h.body]) & R):
                        bad = 'line %d catches %s around %s' % (h.lineno, ast.unparse(h.type) if h.type else 'everything', ', '.join(sorted(body)))
                for s in t.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            bad = bad or 'line %d: leaving a finally block drops the exception' % x.lineno
                    if called(s) & R:
                        bad = bad or 'line %d: evaluates again after the exception' % s.lineno
                self.rep.ok(['C08'], 'exceptions', w, 'no handler covers an evaluation of the residual function', not bad, bad)
        self.rep.ok(['C08'], 'exceptions', 'dfols', '%d try statements examined' % n, True)

    # ------------------------------------------------------------------ small formulas
    def sumsq(self):
        I, outs, A, _ = self.run('sumsq')
        x = A[0]
        for v, st in outs:
            ok_ = isinstance(v, T) and (v is mk('sumsq', x) or v is mk('dot', x, x))
            sq = isinstance(v, T) and v.op == 'mono' and [(b.op, e) for b, e in v.args[0]] == [('norm', 2)] and v.args[0][0][0].args == (x,)
            self.ok(['C03', 'C12', 'C16'], 'formula', 'sumsq(x) is the sum of squares of x', True if ok_ or sq else self.bad(v) if isinstance(v, T) else None, show(v)[:150] if isinstance(v, T) else '')

    def model_value(self):
        node = self.prog.mods['util'].funcs['model_value']
        names = [a.arg for a in node.args.args]
        if names[:7] != ['g', 'H', 's', 'xopt', 'h', 'argsh', 'scaling_changes']:
            return
        hh, sc = sym('hreg'), sym('scaling_changes')
        g, H, s, xo = [sym(k) for k in ('g', 'H', 's', 'xopt')]
        for txt, hv in (('no regulariser', NONE), ('with a regulariser', hh)):
            I, outs, A, _ = self.run('model_value', {4: hv}, [bnot(mk('isnone', hh))])
            for v, st in outs:
                t = I.T(v)
                rest = t
                if hv is not NONE:
                    hc = [x for x in subterms(t) if x.op == 'app' and x.args[0] is hh]
                    pt = mk('unscale', add(xo, s), sc)
                    want = mk('app', hh, pt, mk('star', sym('argsh')))
                    good = hc == [want]
                    if not good:
                        good = None if not hc or t.taint else False
                    self.ok(['C06'], 'formula', 'model_value evaluates the regulariser at the unscaled trial point, with the user\'s arguments', good, show(hc[0])[:150] if hc else '')
                    rest = sub(t, want)
                qf = [mk('dot', s, mk('dot', H, s)), mk('dot', mk('dot', H, s), s), mk('dot', mk('dot', s, H), s)]
                alts = [add(lg, scale(x, Fraction(1, 2))) for lg in (mk('dot', s, g), mk('dot', g, s)) for x in qf]
                good = any(num(sub(rest, a)) == 0 for a in alts)
                if not good:
                    good = None if rest.taint or any(x.taint or x.op not in ('sym', 'dot', 'lin', 'mono', 'const', 'app', 'star', 'unscale') for x in subterms(rest)) else False
                self.ok(['C12', 'C13', 'C16', 'C06'], 'formula', 'model_value is g.s + s.Hs/2, plus the regulariser (%s)' % txt, good, show(rest)[:200])

    def scaling(self):
        fs = self.prog.mods['util'].funcs
        if 'apply_scaling' not in fs or 'remove_scaling' not in fs:
            return
        sh, sc, lo, up = [sym(k) for k in ('shift', 'scale', 'lower', 'upper')]
        P = ['C01', 'C03', 'C11', 'C04']
        for f in ('apply_scaling', 'remove_scaling'):
            I, outs, A, _ = self.run(f, {1: NONE})
            for v, st in outs:
                self.ok(P, 'scaling', '%s does nothing when there is no scaling' % f, self.same(st, I.T(v), A[0]), show(I.T(v))[:150])
        for tup in ((sh, sc), (sh, sc, lo, up)):
            txt = ' (with bounds)' if len(tup) == 4 else ''
            I, outs, A, _ = self.run('apply_scaling', {1: Tup(tup)})
            for v, st in outs:
                self.ok(P, 'scaling', 'apply_scaling is (x - shift)/scale' + txt, self.same(st, I.T(v), mul(sub(A[0], sh), power(sc, -1))), show(I.T(v))[:150])
            I, outs, A, _ = self.run('remove_scaling', {1: Tup(tup)})
            raw = add(sh, mul(sc, A[0]))
            for v, st in outs:
                t = I.T(v)
                if len(tup) == 2:
                    self.ok(P, 'scaling', 'remove_scaling is shift + scale*x' + txt, self.same(st, t, raw), show(t)[:150])
                    continue
                s = st.copy()
                s.assume(le(lo, up))
                for nme, goal in (('lower', le(lo, t)), ('upper', le(t, up))):
                    self.ok(['C01'], 'scaling', 'remove_scaling never leaves the user\'s %s bound' % nme, True if s.entails(goal) else None if t.taint else False, show(t)[:150])
                s.assume(le(lo, raw))
                s.assume(le(raw, up))
                self.ok(P, 'scaling', 'remove_scaling is shift + scale*x inside the bounds', True if s.entails(eq(t, raw)) else None if t.taint else False, show(t)[:150])

    def projections(self):
        fs = self.prog.mods['util'].funcs
        if 'pbox' in fs:
            I, outs, (x, l, u), _ = self.run('pbox')
            for v, st in outs:
                t = I.T(v)
                s = st.copy()
                s.assume(le(l, u))
                for nme, goal in (('lower', le(l, t)), ('upper', le(t, u))):
                    self.ok(['C09', 'C13', 'C15'], 'projection', 'pbox gives a point inside the %s bound' % nme, True if s.entails(goal) else None if t.taint else False, show(t)[:150])
                s.assume(le(l, x))
                s.assume(le(x, u))
                self.ok(['C09', 'C13', 'C15'], 'projection', 'pbox leaves a point of the box where it is', True if s.entails(eq(t, x)) else None if t.taint else False, show(t)[:150])
        if 'pball' in fs:
            I, outs, (x, c, r), _ = self.run('pball')
            for v, st in outs:
                t = sub(I.T(v), c)          # must be f*(x - c) with f*max(|x-c|, r) = r
                good = self.ball(st, t, sub(x, c), r)
                self.ok(['C13', 'C15'], 'projection', 'pball is the nearest point of the ball', good, show(I.T(v))[:200])

    def ball(self, st, t, d, r):
        nd = mk('norm', d)
        ms = set(x for x in subterms(t) if x.op in ('vmax', 'vmin', 'max', 'min'))
        ratio = mul(r, power(nd, -1))
        res = True
        # inside: the factor is one; outside: r/|x-c|
        for nme, facts, want in (('inside', [lt(nd, r)], d), ('outside', [lt(r, nd)], mul(mul(r, power(nd, -1)), d))):
            s = st.copy()
            for f in [lt(Z, r), le(Z, nd)]:
                s.assume(f)
            if any(s.entails(bnot(f)) for f in facts):
                continue
            for f in facts:
                s.assume(f)
            y = t
            for m in ms:
                a = m.args[0].args if m.op in ('vmax', 'vmin') and isinstance(m.args[0], T) and m.args[0].op in ('list', 'tuple') else m.args
                big = m.op in ('vmax', 'max')
                if set(a) == {nd, r}:
                    y = subst(y, {m: r if (nme == 'inside') == big else nd})
                if set(a) == {ONE, ratio}:
                    y = subst(y, {m: ratio if (nme == 'inside') == big else ONE})
            y = self.pickite(s, y)
            if num(sub(y, want)) == 0:
                continue
            if y.taint or any(x.taint or x.op not in ('sym', 'lin', 'mono', 'norm', 'const', 'name', 'vmax', 'list', 'min', 'max') for x in subterms(y)):
                res = None if res is True else res
            else:
                res = False
        return res

    def pickite(self, s, y):
        for _ in range(6):
            c = next((z for z in subterms(y) if z.op == 'ite'), None)
            if c is None:
                return y
            if s.entails(c.args[0]):
                y = subst(y, {c: c.args[1]})
            elif s.entails(bnot(c.args[0])):
                y = subst(y, {c: c.args[2]})
            else:
                return y
        return y
