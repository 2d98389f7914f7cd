"""Evaluation protocol of solve/solve_main/Controller (dfols/solver.py, dfols/controller.py).

The current source of solve_main and of every Controller method that can (transitively) call the residual function is interpreted over
value numbers and linear facts.  Ghost variables record what really happened: how many calls were made, which point number they belong
to, at which x, whether every evaluated point was offered to the model or the saved point, which rows may hold the incumbent.  At each
event (call, change_point, save_point, creation of an exit reason, table row, return) the code's own variables must agree with them."""
import ast
import re
from .terms import *
from . import terms as TT
from .interp import *
from .interp import index_term, dot, Joiner
from .prove import entails, decide
from .ploop import PInterp

import os
DEBUG = os.environ.get('SA_TRACE')
EVALFN = 'eval_least_squares_with_regularisation'
MUT = ('change_point', 'add_new_point', 'add_new_sample', 'swap_points', 'shift_base', 'save_point')
RIGID = ('objfun', 'h', 'lh', 'prox_uh', 'argsf', 'argsh', 'argsprox', 'scaling_changes', 'projections', 'maxfun', 'xl', 'xu')
DP, DN = sym('#dp'), sym('#dn')
EMPTY = mk('pset', NONE, const(0), const(0))


def ne(a, b):
    return bnot(eq(a, b))


def param_ranges(prog):
    """key -> (type, none_ok, lo, hi) from ParameterList.param_type, by reading its branches"""
    out = {}
    r = prog.methods.get(('ParameterList', 'param_type'))
    if not r:
        return out
    for n in ast.walk(r[1]):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.comparators) == 1:
            c = n.test.comparators[0]
            keys = []
            if isinstance(c, ast.Constant) and isinstance(c.value, str) and isinstance(n.test.ops[0], ast.Eq):
                keys = [c.value]
            elif isinstance(c, (ast.Tuple, ast.List, ast.Set)) and isinstance(n.test.ops[0], ast.In):
                keys = [x.value for x in c.elts if isinstance(x, ast.Constant)]
            for s in n.body:
                v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
                if isinstance(v, ast.Tuple) and len(v.elts) == 4:
                    row = []
                    for e in v.elts:
                        try:
                            row.append(ast.literal_eval(e))
                        except Exception:
                            row.append(ast.unparse(e))
                    for k in keys:
                        out.setdefault(k, tuple(row))
    return out


def default_keys(prog):
    out = set()
    r = prog.methods.get(('ParameterList', '__init__'))
    if r:
        for n in ast.walk(r[1]):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '.' in n.value:
                out.add(n.value)
    return out


def calls_of(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name):
                out.add(n.func.id)
            elif isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
        elif isinstance(n, ast.Attribute):
            out.add('.' + n.attr)
    return out


def evaluating(prog):
    """names of functions and methods that may call the residual function, transitively"""
    nodes = {}
    for m in prog.mods.values():
        for f, node in m.funcs.items():
            nodes.setdefault(f, []).append(node)
    for (c, f), (m, node) in prog.methods.items():
        nodes.setdefault(f, []).append(node)
    cs = {f: set().union(*[calls_of(x) for x in ns]) for f, ns in nodes.items()}
    ev = {f for f in cs if 'objfun' in cs[f]} | {EVALFN}
    while True:
        more = {f for f in cs if f not in ev and cs[f] & ev}
        if not more:
            return ev
        ev |= more


def smp(p, j):
    return mk('smp', p, j)


def canon(t, memo=None):
    """rows and means of sample buffers as samples and running means; projections onto the feasible set dropped inside h"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    def arg(a):
        if isinstance(a, T):
            return canon(a, memo)
        if isinstance(a, tuple):
            return tuple(arg(x) for x in a)
        return a
    if t.op in ('sym', 'const', 'taint'):
        r = t
    elif t.op == 'lin':
        r = lin({}, t.args[1]) if len(t.args) > 1 and not isinstance(t.args[1], tuple) else const(0)
        d, c = parts(t)
        r = lin({}, c)
        for a, k in d.items():
            r = add(r, scale(canon(a, memo), k))
    elif t.op == 'idx' and t.args[0].op == 'buf':
        b = t.args[0]
        if t.args[1].op == 'slice':
            r = mk('bufslice', b.args[0], t.args[1].args[0], t.args[1].args[1])
        else:
            r = smp(b.args[0], t.args[1])
    elif t.op == 'idx' and len(t.args) == 2 and isinstance(t.args[1], T) and t.args[0].op == 'idx':
        c = canon(t.args[0], memo)
        k = t.args[1]
        if c.op == 'bufslice':
            lo = const(0) if c.args[1] is NONE else c.args[1]
            if k.op == 'slice':
                l2 = lo if k.args[0] is NONE else add(lo, k.args[0])
                h2 = c.args[2] if k.args[1] is NONE else add(lo, k.args[1])
                r = mk('bufslice', c.args[0], l2, h2)
            else:
                r = smp(c.args[0], add(lo, k))
        else:
            r = TT.rebuild(t.op, tuple(arg(x) for x in t.args))
    elif t.op == 'mean':
        a = t.args[0]
        if a.op == 'buf':
            r = mk('rm', a.args[0], a.args[1]) if (len(a.args) < 3 or a.args[2] is a.args[1]) else t
        else:
            c = canon(a, memo)
            if c.op == 'bufslice' and (c.args[1] is NONE or num(c.args[1]) == 0):
                r = mk('rm', c.args[0], c.args[2])
            else:
                r = TT.rebuild(t.op, tuple(arg(x) for x in t.args))
    else:
        r = TT.rebuild(t.op, tuple(arg(x) for x in t.args))
    memo[t] = r
    return r


def strip(t):
    """drop the projection onto the feasible set"""
    m = {}
    for s in subterms(t):
        if s.op == 'feas':
            m[s] = s.args[0]
    for _ in range(4):
        if not m:
            break
        t2 = subst(t, m)
        if t2 is t:
            break
        t = t2
    return t


def permidx(k):
    if k.op == 'idx' and len(k.args) == 2:
        a, e = k.args
        off = const(0)
        while a.op == 'idx' and a.args[1].op == 'slice' and (a.args[1].args[2] is NONE or num(a.args[1].args[2]) == 1):
            lo = a.args[1].args[0]
            if lo is not NONE:
                off = add(off, lo)
            a = a.args[0]
        if is_perm(a):
            return a, add(e, off)
    if k.op == 'ite':
        p, q = permidx(k.args[1]), permidx(k.args[2])
        if p and q and p[0] is q[0] and num(sub(q[1], p[1])) is not None:
            return mk('psel', k.args[0], p[0], sub(q[1], p[1])), p[1]
    return None


def is_perm(a):
    if a.op == 'call' and a.args[0] == 'np.argsort':
        return True
    if a.op == 'argsort':
        return True
    if a.op == 'idx' and a.args[1].op == 'slice':
        return is_perm(a.args[0])
    return False


def perm_src(a):
    """(dist array, reversed?)"""
    rev = False
    while a.op == 'idx' and a.args[1].op == 'slice':
        st = a.args[1].args[2]
        if st is not NONE and num(st) == -1:
            rev = not rev
        a = a.args[0]
    if a.op in ('call', 'argsort'):
        d = a.args[1] if a.op == 'call' else a.args[0]
        if d.op == 'lin':
            p, c = parts(d)
            if len(p) == 1 and c == 0:
                (q, kk), = p.items()
                if kk < 0:
                    rev = not rev
                d = q
        while d.op == 'idx' and d.args[1].op == 'slice':
            d = d.args[0]
        return d, rev
    return None, rev


def loosely_same(a, b):
    """False when both are base + row of some array but the rows differ; None when unknown"""
    da, db = parts(a)[0], parts(b)[0]
    ia = [t for t in da if t.op == 'idx' and t not in db]
    ib = [t for t in db if t.op == 'idx' and t not in da]
    if len(ia) == 1 and len(ib) == 1:
        ka, kb = ia[0].args[1], ib[0].args[1]
        if ka is not kb:
            return False
    return None


WIDENED = re.compile(r'L\d+w#|.*w\.')


def definite(st, cond):
    """may a goal that was not proved be called violated?  Only when it is plainly refuted, or speaks about simple quantities none of which
    was lost at a join"""
    if st.entails(bnot(cond)):
        return True
    for s in subterms(cond):
        if s.taint or s.op in ('ite', 'prod', 'pow', 'div'):
            return False
        if s.op == 'sym' and (s.args[0].startswith(('j#', 'u.')) or 'after_' in s.args[0] or WIDENED.match(s.args[0])):
            return False
    return True


ARITH = frozenset(['prod', 'pow', 'div', 'min', 'max', 'lin', 'le', 'lt', 'eq', 'not', 'and', 'or', 'ite', 'ne', 'abs'])


def expand(t, udef):
    """the definitions of the names given to merged values, put back"""
    for _ in range(8):
        m = {s: udef[s] for s in subterms(t) if s in udef}
        if not m:
            return t
        t = subst(t, m)
        if t.size > 4000:
            return None
    return None


def by_cases(st, cond, P, limit=150):
    """a goal about merged values, decided case by case: True when it holds in every case, False when some case that can happen leaves it open
    although every quantity in it is known exactly"""
    t = expand(cond, P.udef)
    if t is not None and t is not cond:
        st = st.copy()
        todo, seen = [x for x in subterms(cond) if x in P.udef], set()
        while todo:
            u = todo.pop()
            if u not in seen:
                seen.add(u)
                for f in P.ufacts.get(u, ()):
                    st.assume(f)
                todo += [x for x in subterms(P.udef[u]) if x in P.udef]
    if t is None or t.taint:
        return None
    open_ = False
    work, n = [(t, [])], 0
    while work:
        t, cs = work.pop()
        n += 1
        if n > limit:
            return None
        c = next((s.args[0] for s in _inner_ites(t)), None)
        if c is not None:
            for pol in (True, False):
                cc = c if pol else bnot(c)
                work.append((choose(t, c, pol), cs + [cc]))
            continue
        if t is TRUE:
            continue
        st2 = st.copy()
        dead = False
        for x in cs:
            if x.taint:
                continue
            if x is FALSE or st2.entails(bnot(x)):
                dead = True
                break
            st2.assume(x)
        if dead or st2.entails(t) or st2.entails(FALSE):
            continue
        if all(plain_value(x) for x in [t] + cs):
            return False
        open_ = True
    return None if open_ else True


def plain_value(t):
    """made by arithmetic from quantities none of which was lost at a join (values of functions count as quantities of their own)"""
    if t.taint:
        return False
    if t.op == 'sym':
        return not (t.args[0].startswith(('j#', 'u.')) or 'after_' in t.args[0] or WIDENED.match(t.args[0]))
    if t.op in ARITH:
        return all(plain_value(x) for x in _targs(t))
    return True


def _targs(t):
    for a in t.args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            yield c


def _inner_ites(t):
    return [s for s in subterms(t) if s.op == 'ite' and not any(x.op == 'ite' for x in subterms(s.args[0]))]


def choose(t, c, pol):
    return subst(t, {s: s.args[1 if pol else 2] for s in subterms(t) if s.op == 'ite' and s.args[0] is c})


def stale(val, now):
    """val was fixed before the newest quantity in now came into being"""
    def newest(t):
        return max([int(x.args[0].rsplit('#', 1)[1]) if '#' in x.args[0] and x.args[0].rsplit('#', 1)[1].isdigit() else 0 for x in subterms(t) if x.op == 'sym'] + [0])
    return not val.taint and not now.taint and newest(val) < newest(now)


def flagkey(t):
    n = num(t)
    return '*' if n is None else str(n)


class Summary(object):
    def __init__(self, outs, entry, inline=False):
        self.outs, self.entry, self.inline = outs, entry, inline


class PHooks(Hooks):
    ghost_changing = ('calls', 'pts', 'restarts', 'lastiter', 'K0', 'Kset', 'S', 'Sset', 'req', 'curP', 'curX', 'curN', 'curReq')

    def join_templates(self, st, phis):
        m = st.heap.get('model')
        if m is None or not isinstance(m.get('kopt'), T):
            return []
        ex = [v for p, v in locations(st) if isinstance(v, T) and v in phis and (p[-1] == 'exit_info' or p[-1] == '__ret')]
        rows = {}
        for p, v in locations(st):
            if isinstance(v, T) and v in phis:
                rows[v] = rows.get(v, False) or p[0] != 'h'
        return [bnot(isnone(x)) for x in ex] + [bor(isnone(x), ne(x, m['kopt'])) for x, ts in phis.items()
                                                if rows.get(x, True) and not x.taint and x is not m['kopt'] and not any(is_bool(t) for t in ts)]

    def merged(self, I, st, a, b):
        """radii that became case distinctions are named; invariants that held on both sides are kept"""
        c = st.heap.get('Controller')
        if c is None or 'model' not in st.heap:
            return
        changed = False
        ma, mb = a.heap.get('model', {}).get('xbase'), b.heap.get('model', {}).get('xbase')
        if isinstance(ma, T) and isinstance(mb, T) and ma is not mb and not ma.taint and not mb.taint:
            # the base was shifted on one side: coordinates that denote the same absolute point on both sides stay relative to the new base
            xb = fresh('u.xbase')
            lb = dict(locations(b))
            for p, v in list(locations(a)):
                w = lb.get(p)
                if isinstance(v, T) and isinstance(w, T) and not v.taint and v is not w and not is_bool(v) and v.op != 'const' and p != ('h', 'model', 'xbase'):
                    y = add(v, ma)
                    if sub(y, add(w, mb)) is const(0):
                        set_location(st, p, sub(y, xb))
            st.heap['model']['xbase'] = xb
        for k in ('rho', 'delta'):
            v = c.get(k)
            if isinstance(v, T) and not v.taint and v.size > 4 and any(s.op == 'ite' for s in subterms(v)):
                u = c[k] = fresh('u.' + k)
                self.P.udef[u] = v
                vs = set(x for x in subterms(v) if x.op == 'sym')
                self.P.ufacts[u] = [f for f in st.facts if f.size < 40 and not vs.isdisjoint(subterms(f))]
                changed = True
                if v.op == 'ite' and v.args[0].size < 12:
                    if v.args[1].size < 12:
                        st.assume(bor(bnot(v.args[0]), eq(u, v.args[1])))
                    if v.args[2].size < 12:
                        st.assume(bor(v.args[0], eq(u, v.args[2])))
        ta, tb, ts = self.templates(a), self.templates(b), self.templates(st)
        if not len(ta) == len(tb) == len(ts):
            return
        for x, y, z in zip(ta, tb, ts):
            if z.taint or z is TRUE or z is FALSE or z in st.facts or x is y is z:
                continue
            px, py = x is TRUE or x in a.facts or a.entails(x), y is TRUE or y in b.facts or b.entails(y)
            if px and py:
                st.assume(z)
        self.joined(I, st, [a, b])

    def joined(self, I, st, states):
        """remember which invariants plainly failed on a path before it was merged (the merged value may not show it any more)"""
        if not self.n_invariants(st):
            return
        for i, (props, text, z) in enumerate(self.P.inv(st)):
            if not props or z.taint or text in st.broken or z is TRUE or z in st.facts or definite(st, z) or st.entails(z):
                continue
            for x in states:
                if 'Controller' in x.heap and 'model' in x.heap:
                    t = self.P.inv(x)[i][2]
                    if not t.taint and t is not TRUE and not x.entails(t) and definite(x, t):
                        st.broken |= frozenset([text])
                        break

    def may_move_together(self, p, v, q, w):
        if p[0] == 'h' and q[0] == 'h' and p[1] == q[1]:
            return False
        if 'npt_so_far' in (p[-1], q[-1]) and p[0] != q[0] and 'f' in (p[0], q[0]):
            return num(sub(v, w)) is not None
        for a, x, b, y in ((p, v, q, w), (q, w, p, v)):
            if a == ('g', 'restarts'):
                return y is self.P.nruns0
            if a == ('g', 'lastiter'):
                return b[0] == 'f' and num(y) == -1
        if ('h', 'model', 'npt_so_far') in (p, q):
            return num(sub(v, w)) is not None
        return num(v) is None and num(w) is None and num(sub(v, w)) is not None

    def on_iteration(self, I, node, entry, head, backs, exits, done):
        pass

    def n_invariants(self, st):
        return len(self.P.inv(st)) if 'Controller' in st.heap and 'model' in st.heap else 0

    def keep_invariants(self, I, states, node, when, which=None):
        for st in states:
            if 'Controller' not in st.heap or 'model' not in st.heap:
                continue
            for i, (props, text, t) in enumerate(self.P.inv(st)):
                if (which is None or i in which) and (props or DEBUG):
                    if text in st.broken and not t.taint and not st.entails(t):
                        self.ob(I, st, props, 'invariants', node, '%s (%s)' % (text, when), False, 'it fails on a path merged before this point')
                        continue
                    self.ob(I, st, props or ['C00'], 'invariants', node, '%s (%s)' % (text, when), t)

    def __init__(self, P):
        self.P = P
        self.in_summary = False
        self.method = None
        self.trials = 0

    # ------------------------------------------------ bookkeeping
    def ob(self, I, st, props, rule, node, text, cond, detail=''):
        """cond: bool term to be entailed, or True/False/None"""
        if isinstance(cond, T):
            if cond is TRUE:
                v = True
            elif cond.taint:
                v = None
            else:
                v = st.entails(cond)
                if not v:
                    v = False if definite(st, cond) else by_cases(st, cond, self.P) if rule in ('radii', 'invariants') and 'C18' in props or rule in ('numbering', 'budget') else None
                    detail = detail or 'not entailed: ' + show(cond)[:300]
        else:
            v = cond
        I.log.append((props, rule, I.where(node), text, v, detail))

    def trial(self, on):
        self.trials += 1 if on else -1

    def discrete(self, st):
        g = st.g
        fl = []
        for f in st.frames:
            for k, v in f.items():
                if isinstance(v, Rec) and v.cls == 'ExitInformation':
                    fl.append((k, flagkey(v.get('flag')), ''))
        return ('curP' in g, str(g.get('off')), 'S' in g, 'K0' in g, 'lastK' in g, 'DLn' in g, 'DQ' in g, tuple(sorted(fl)))

    def none_matters(self, path):
        return path[-1] in ('exit_info', 'knew', 'scaden', 'kmin', 'r0_avg_old') or 'exit' in str(path[-1])

    def templates(self, st):
        out = []
        c = st.heap.get('Controller')
        m = st.heap.get('model')
        g = st.g
        if c and m:
            out += [t for _, _, t in self.P.inv(st)]
        else:
            out.append(le(g['calls'], self.P.rigid['maxfun']))
        if 'curP' in g and not g['curN'].taint:
            out.append(bor(eq(g['curN'], g['curReq']), le(self.P.rigid['maxfun'], g['calls'])))
        else:
            out.append(TRUE)
        if c and m and isinstance(m.get('npt_so_far'), T):
            two = le(const(2), m['npt_so_far'])
            out.append(two)
            ex = st.frames[-1].get('exit_info', g.get('__ret')) if st.frames else None
            out.append(le(sym('in:model.npt_so_far'), m['npt_so_far']))     # points are never removed
            out.append(bor(bnot(isnone(ex)), two) if isinstance(ex, T) else TRUE if isinstance(ex, Rec) else two)
        return out

    def keepsakes(self, st):
        npt = st.heap.get('model', {}).get('npt_so_far')
        return [le(const(2), npt), le(sym('in:model.npt_so_far'), npt)] if isinstance(npt, T) else ()

    # ------------------------------------------------ attribute access
    def getattr(self, I, st, ref, name, node):
        return None

    # ------------------------------------------------ functions
    def setattr(self, I, st, ref, name, v, node):
        if isinstance(ref, Ref) and ref.id == 'Controller' and name in ('rho', 'rhoend') and 'rhocap' in st.g and \
                any('restart' in getattr(f[0], 'name', '') for f in I.stack):
            st.g['rhocap'] = st.heap['Controller'].get('rhobeg')       # a new run starts
        return False

    def call_function(self, I, st, qual, node, selfv, bound):
        P = self.P
        if isinstance(node, ast.Lambda):
            return None
        nm = node.name
        vals = list(bound.values())
        if isinstance(selfv, Ref):
            if selfv.cls == 'Model':
                r = self.model_call(I, st, nm, node, bound)
                if r is not None:
                    return r
                return None
            if selfv.cls == 'ParameterList':
                return self.param_call(I, st, nm, bound)
            if selfv.cls == 'DiagnosticInfo':
                return self.diag_call(I, st, nm, bound)
            if selfv.cls == 'Controller' and not self.in_summary and nm in P.evaluating and nm != '__init__':
                return P.summary_call(self, I, st, nm, node, bound)
            return None
        if isinstance(selfv, Rec):
            return None
        if nm == EVALFN:
            return self.eval_call(I, st, bound)
        if nm == 'solve_main' and P.solve_mode:
            return P.solve_main_call(self, I, st, node, bound)
        if nm == 'remove_scaling':
            return [(mk('unscale', I.T(vals[0]), I.T(vals[1])), st)]
        if nm == 'apply_scaling':
            return [(mk('scaled', I.T(vals[0]), I.T(vals[1])), st)]
        if nm == 'sumsq':
            return [(mk('sumsq', canon(I.T(vals[0]))), st)]
        if nm == 'dykstra':
            return [(mk('dyk', *[I.T(v) for v in vals]), st)]
        if nm == 'pbox':
            x, l, u = [I.T(v) for v in vals[:3]]
            return [(minmax('min', [minmax('max', [x, l]), u]), st)]
        if nm in ('ctrsbox_sfista', 'ctrsbox_pgd', 'ctrsbox_geometry', 'trsbox', 'trsbox_geometry'):
            self.kernel_call(I, st, nm, node, bound)
            return [(fresh(nm), st)]
        if nm == 'model_value':
            b = dict(bound)
            if b.get('h') is not None and b.get('h') is not NONE:
                self.passthrough(I, st, node_or(bound, node), b, 'argsh', 'argsh', 'model_value')
            return [(mk('call', nm, *[canon(I.T(v)) for v in vals]), st)]
        if nm in ('random_directions_within_bounds', 'random_orthog_directions_within_bounds', 'qr_rank', 'get_scale'):
            return [(fresh(nm), st)]
        return None

    def passthrough(self, I, st, node, bound, key, want, what):
        v = bound.get(key)
        if v is None:
            return
        t = I.T(v)
        w = self.P.rigid[want]
        self.ob(I, st, ['C06'], 'arguments', I.curnode, '%s receives the user\'s %s unchanged' % (what, want), None if t.taint else t is w, 'got %s' % show(t)[:100])

    def kernel_call(self, I, st, nm, node, b):
        P = self.P
        m = st.heap.get('model', {})
        n = I.curnode
        if nm == 'ctrsbox_sfista':
            for a in ('argsh', 'argsprox', 'scaling_changes'):
                self.passthrough(I, st, n, b, a, a, nm)
            for a, w in (('h', 'h'), ('L_h', 'lh'), ('prox_uh', 'prox_uh')):
                if a in b:
                    self.ob(I, st, ['C06'], 'arguments', n, 'ctrsbox_sfista receives the user\'s %s' % w, I.T(b[a]) is P.rigid[w], show(I.T(b[a]))[:80])
        if nm in ('ctrsbox_sfista', 'ctrsbox_pgd', 'ctrsbox_geometry'):
            x = b.get('xopt')
            if x is not None:
                xa = strip(I.T(x))
                want = add(m['xbase'], m['#xopt'])
                self.ob(I, st, ['C09', 'C13', 'C06'], 'kernel arguments', n, '%s is given the incumbent in absolute coordinates' % nm, None if xa.taint else sub(xa, want) is const(0), show(xa)[:100])
            pr = b.get('projections')
            if isinstance(pr, Lst) and pr.items is not None:
                y = sym('#probe')
                want = minmax('min', [minmax('max', [y, m['xl']]), m['xu']])
                for f in pr.items:
                    try:
                        r = I.call(f, [y], {}, st.copy(), n)
                        got = r[0][0]
                        okc = got is want or (isinstance(got, T) and got.op == 'min' and want is got)
                    except Exception:
                        got, okc = None, None
                    self.ob(I, st, ['C01', 'C06', 'C13'], 'kernel arguments', n, '%s projects onto the true box in absolute coordinates' % nm, okc, 'got %r' % (got,))
            elif pr is not None:
                self.ob(I, st, ['C09', 'C06'], 'kernel arguments', n, '%s is given the user\'s projections' % nm, I.T(pr) is m['projections'] or I.T(pr) is P.rigid['projections'], '%r' % (pr,))
            for a, key in (('d_max_iters', 'dykstra.max_iters'), ('d_tol', 'dykstra.d_tol')):
                if a in b and isinstance(b[a], T) and b[a].op == 'sym':
                    self.ob(I, st, ['C09', 'C15'], 'kernel arguments', n, '%s gets %s for its Dykstra projections' % (nm, key), b[a] is sym('P[%s]' % key), show(b[a]))
            dl = b.get('delta', b.get('Delta'))
        if nm == 'trsbox':
            for a, w in (('xopt', m['#xopt']), ('sl', m['sl']), ('su', m['su'])):
                if a in b:
                    self.ob(I, st, ['C12', 'C01', 'C16'], 'kernel arguments', n, 'trsbox is given the current %s' % a, sub(I.T(b[a]), w) is const(0), show(I.T(b[a]))[:100])
        if nm == 'trsbox_geometry':
            ps = list(b.items())
            for i, w, what in ((0, m['#xopt'], 'incumbent'),):
                self.ob(I, st, ['C13', 'C01'], 'kernel arguments', n, 'trsbox_geometry is given the %s' % what, sub(I.T(ps[i][1]), w) is const(0), show(I.T(ps[i][1]))[:100])
            for i, w, alt, what in ((3, m['sl'], minmax('min', [m['sl'], const(0)]), 'lower bounds'), (4, m['su'], minmax('max', [m['su'], const(0)]), 'upper bounds')):
                t = I.T(ps[i][1])
                self.ob(I, st, ['C13', 'C01'], 'kernel arguments', n, 'trsbox_geometry is given the %s relative to the base point' % what, t is w or t is alt, show(t)[:100])

    # ------------------------------------------------ user callables
    def call_value(self, I, st, fn, args, kw, node):
        P = self.P
        if fn is P.rigid['objfun']:
            return [(self.evaluate(I, st, node, I.T(args[0]), None, None), st)]
        if fn is P.rigid['nsamples']:
            c = st.heap.get('Controller')
            if len(args) == 4 and not kw:
                dl, rh = (c.get('delta'), c.get('rho')) if c else (P.rhobeg0, P.rhobeg0)
                a = [I.T(x) for x in args]
                if isinstance(dl, T) and isinstance(rh, T):
                    self.ob(I, st, ['C02', 'C06'], 'arguments', node, 'nsamples is asked about the current trust-region radius and lower bound', None if a[0].taint or a[1].taint else a[0] is dl and a[1] is rh or
                            st.entails(band(eq(a[0], dl), eq(a[1], rh))), '%s, %s' % (show(a[0])[:80], show(a[1])[:80]))
                if 'restarts' in st.g:
                    self.ob(I, st, ['C02', 'C10'], 'arguments', node, 'nsamples is told the number of runs so far', eq(a[3], add(P.nruns0, st.g['restarts'])))
            n = fresh('ns')
            st.g['req'] = minmax('max', [n, const(1)])
            return [(n, st)]
        if fn is P.rigid['h'] or (isinstance(fn, T) and fn is st.heap.get('Controller', {}).get('h')):
            if len(args) > 1 or kw:
                t = I.T(args[1]) if len(args) > 1 else None
                okc = t is not None and len(args) == 2 and not kw and (t is mk('star', P.rigid['argsh']))
            else:
                okc = False
            self.ob(I, st, ['C06'], 'arguments', node, 'h is called with the point and the user\'s argsh unpacked', okc, 'args %r' % ([show(I.T(a))[:60] for a in args],))
            x = canon(I.T(args[0]))
            if x.op != 'unscale' or x.args[1] is not P.rigid['scaling_changes']:
                self.ob(I, st, ['C03', 'C06', 'C17'], 'arguments', node, 'h is evaluated at a point in the user\'s coordinates', None if x.taint else False, show(x)[:120])
            return [(mk('hv', strip(x)), st)]
        if isinstance(fn, T):
            return [(fresh('call'), st)]
        return None

    def call_ext(self, I, st, name, args, kw, node):
        if name == 'np.zeros' and args and isinstance(args[0], Tup) and len(args[0].items) in (1, 2) and kw == {}:
            rows = I.T(args[0].items[0])
            if len(args[0].items) == 2:
                return [(mk('buf', sym('#nopoint'), const(0), rows), st)]
        if name == 'method.append' and isinstance(args[0], Lst) and len(args) == 2 and isinstance(args[1], (Tup, Lst)) and args[1].items is not None:
            r = self.P.defer(self, I, st, args[0], args[1], node)
            if r is not None:
                I.assign(node.func.value, r, st)
                return [(NONE, st)]
        if name == 'np.argsort' and args:
            return [(mk('argsort', canon(I.T(args[0]))), st)]
        if name.startswith('logger.') or name in ('builtins.print',):
            # arguments are evaluated for their effects only
            for a in node.args:
                if any(isinstance(n, ast.Call) for n in ast.walk(a)):
                    I.ev(a, st)
            return [(NONE, st)]
        if name == 'np.argmax' and args:
            return [(mk('argmax', I.T(args[0])), st)]
        if name.startswith('np.random'):
            return [(fresh('rng'), st)]
        return None

    def on_store(self, I, st, arr, key, v):
        if isinstance(arr, T) and arr.op == 'buf':
            k = key[0]
            if isinstance(v, T) and v.op == 'smp' and (len(key) == 1 or all(x.op == 'slice' for x in key[1:])):
                p, j = v.args
                cnt = arr.args[1]
                # row j of the buffer receives sample j of the point
                first = arr.args[0].op == 'sym' and arr.args[0].args[0] == '#nopoint'
                good = sub(k, j) is const(0) and sub(cnt, j) is const(0) and (first or arr.args[0] is p)
                if good or (st.entails(eq(k, j)) and st.entails(eq(cnt, j)) and (first or arr.args[0] is p)):
                    return mk('buf', p, add(j, const(1)), arr.args[2])
                return mk('badbuf', p, k, j)
            return mk('store', arr, tuple(key), v if isinstance(v, T) else taint('v'))
        return None

    # ------------------------------------------------ evaluation
    def eval_call(self, I, st, b):
        P = self.P
        n = I.curnode
        T_ = lambda k: I.T(b[k]) if k in b else None
        self.ob(I, st, ['C02', 'C08'], 'evaluation', n, 'the user\'s residual function is the one evaluated', T_('objfun') is P.rigid['objfun'], show(T_('objfun'))[:80])
        for a in ('argsf', 'argsh'):
            if a in b:
                self.ob(I, st, ['C06', 'C02'], 'arguments', n, 'evaluation receives the user\'s %s unchanged' % a, T_(a) is P.rigid[a], show(T_(a))[:80])
        if 'h' in b:
            hh = T_('h')
            self.ob(I, st, ['C06', 'C03'], 'arguments', n, 'evaluation receives the user\'s regulariser', hh is P.rigid['h'] or st.entails(isnone(hh)) and st.entails(isnone(P.rigid['h'])), show(hh)[:80])
        fv = self.evaluate(I, st, n, T_('x'), T_('eval_num'), T_('pt_num'))
        return [(Tup((fv, mk('objof', fv))), st)]

    def evaluate(self, I, st, node, x, en, pt):
        P, g = self.P, st.g
        calls, pts = g['calls'], g['pts']
        self.ob(I, st, ['C02', 'C08'], 'budget', node, 'the residual function is only called while fewer than maxfun calls were made', lt(calls, P.rigid['maxfun']))
        if en is not None:
            self.ob(I, st, ['C02'], 'numbering', node, 'evaluation number passed to the log is the number of this call', eq(en, add(calls, const(1))))
        same = None
        if 'curP' in g and pt is not None:
            same = decide(st.fz(), eq(pt, g['curP']))
            if same is None and st.entails(eq(pt, add(pts, const(1)))):
                same = False
        elif 'curP' in g:
            same = x is g['curX']
        else:
            same = False
        if same is None:
            self.ob(I, st, ['C02'], 'numbering', node, 'point number is the current point or the next one', None if pt.taint else False, show(pt))
            same = False
        if st.entails(lt(calls, P.rigid['maxfun'])):
            st.assume(le(add(calls, const(1)), P.rigid['maxfun']))      # integers
        g['calls'] = add(calls, const(1))
        if same:
            self.ob(I, st, ['C02'], 'numbering', node, 'calls that share a point number receive the identical x', None if x.taint else canon(x) is canon(g['curX']), '%s vs %s' % (show(x)[:80], show(g['curX'])[:80]))
            j = g['curN']
            self.ob(I, st, ['C02'], 'samples', node, 'no more samples are taken than the nsamples callback asked for', lt(j, g['curReq']))
            g['curN'] = add(j, const(1))
            return smp(g['curP'], j)
        self.close(I, st, node, 'before evaluating the next point')
        if pt is not None:
            self.ob(I, st, ['C02'], 'numbering', node, 'a new point gets the next point number', eq(pt, add(pts, const(1))))
        p = pt if pt is not None else add(pts, const(1))
        y = x
        if x.op == 'unscale':
            self.ob(I, st, ['C01', 'C03'], 'feasible arguments', node, 'scaling is removed with the problem\'s own scaling', x.args[1] is P.rigid['scaling_changes'], show(x.args[1])[:80])
            y = x.args[0]
        else:
            self.ob(I, st, ['C01', 'C03'], 'feasible arguments', node, 'the residual function receives unscaled coordinates', None if x.taint else False, show(x)[:120])
        good = y.op == 'feas' or y is P.x0 or y.op == 'recX'
        self.ob(I, st, ['C01', 'C09'], 'feasible arguments', node, 'the evaluated point went through the feasibility map (box clip / Dykstra) or is the projected starting point', None if y.taint else good, show(y)[:150])
        g['pts'] = p
        g['curP'], g['curX'], g['curN'], g['curReq'], g['off'] = p, x, const(1), g.get('req', fresh('noreq')), const('pending')
        g.pop('lastK', None)
        g.pop('lastNS', None)
        return smp(p, const(0))

    def is_nan_excuse(self, I, st):
        P, g = self.P, st.g
        for f in st.facts:
            if f.op == 'or':
                continue
            for s in subterms(f):
                if s.op == 'isnan' and any(q.op in ('smp', 'rm', 'buf') and q.args[0] is g['curP'] for q in subterms(s)):
                    if f.op in ('any', 'isnan'):
                        return True
        return False

    def close(self, I, st, node, when):
        """everything owed to the current point must have been done"""
        g = st.g
        if 'curP' not in g:
            return
        off = g['off'].args[1] if g['off'].op == 'const' else None
        full = bor(eq(g['curN'], g['curReq']), le(self.P.rigid['maxfun'], g['calls']))
        self.ob(I, st, ['C02'], 'samples', node, 'the point got all requested samples unless the budget ran out (%s)' % when, full)
        if 'DQ' in g:
            if off == 'pending' and st.entails(le(g['curN'], const(0))):
                off = 'nothing was evaluated'
            g['DLp'] = add(g['DLp'], const(1))
            g.pop('DQ')
        if off == 'nothing was evaluated':
            pass
        elif off == 'stored':
            if 'lastNS' in g:
                self.ob(I, st, ['C03', 'C17', 'C02'], 'records', node, 'every sample of the stored point was added to the model (%s)' % when, eq(g['lastNS'], g['curN']))
        elif off == 'saved':
            pass
        else:
            self.ob(I, st, ['C04', 'C08', 'C03'], 'nothing lost', node, 'the evaluated point was offered to the model or to the saved point (%s)' % when, True if self.is_nan_excuse(I, st) else False, 'point is %s' % off)
        for k in ('curP', 'curX', 'curN', 'curReq', 'off', 'lastK', 'lastNS'):
            g.pop(k, None)

    def normalise(self, I, st):
        """a point to which nothing is owed any more is closed early (fewer partitions)"""
        g = st.g
        c = st.heap.get('Controller')
        if c is not None:
            # equal quantities get equal values (so that they stay equal when paths are merged)
            for a, k in (('nf', 'calls'), ('nx', 'pts')):
                if isinstance(c.get(a), T) and k in g and c[a] is not g[k] and not c[a].taint and st.entails(eq(c[a], g[k])):
                    c[a] = g[k]
        if 'curP' not in g or g['off'].op != 'const':
            return
        if 'DQ' in g and (g['off'].args[1] == 'saved' or g['off'].args[1] == 'pending' and st.entails(le(g['curN'], const(0)))):
            g['DLp'] = add(g['DLp'], const(1))
            for k in ('curP', 'curX', 'curN', 'curReq', 'off', 'lastK', 'lastNS', 'DQ'):
                g.pop(k, None)
            return
        if g['off'].args[1] not in ('stored', 'saved'):
            return
        if g['off'].args[1] == 'stored' and not ('lastNS' in g and st.entails(eq(g['lastNS'], g['curN']))):
            return
        if st.entails(bor(eq(g['curN'], g['curReq']), le(self.P.rigid['maxfun'], g['calls']))):
            if 'DQ' in g:
                g['DLp'] = add(g['DLp'], const(1))
                g.pop('DQ')
            for k in ('curP', 'curX', 'curN', 'curReq', 'off', 'lastK', 'lastNS'):
                g.pop(k, None)

    # ------------------------------------------------ parameters
    def param_call(self, I, st, nm, b):
        P = self.P
        if nm == '__call__':
            k = b.get('key')
            nv = b.get('new_value')
            if isinstance(k, T) and k.op == 'const':
                key = k.args[1]
                P.params_used.add((key, I.where(I.curnode)))
                if nv is not None and nv is not NONE:
                    st.g['P:' + key] = I.T(nv)
                    return [(I.T(nv), st)]
                if 'P:' + key in st.g:
                    return [(st.g['P:' + key], st)]
                return [(P.param(key), st)]
            return [(fresh('param'), st)]
        if nm == 'check_all_params':
            return [(Tup((mk('truth', fresh('all_ok')), fresh('bad_keys'))), st)]
        return None

    # ------------------------------------------------ diagnostic table
    def diag_call(self, I, st, nm, b):
        g, n = st.g, I.curnode
        if nm == 'save_info_from_control':
            c = st.heap['Controller']
            vals = [I.T(v) if not isinstance(v, Ref) else v for v in list(b.values())]
            self.ob(I, st, ['C18'], 'radii', n, 'delta >= rho when the row is recorded', le(c['rho'], c['delta']))
            self.ob(I, st, ['C18'], 'radii', n, 'rho > 0 when the row is recorded', lt(const(0), c['rho']))
            self.ob(I, st, ['C18'], 'radii', n, 'rho >= rhoend when the row is recorded', le(c['rhoend'], c['rho']))
            self.ob(I, st, ['C18'], 'radii', n, 'rho <= rhobeg when the row is recorded', le(c['rho'], c['rhobeg']))
            self.ob(I, st, ['C18'], 'radii', n, 'delta <= 1e10 when the row is recorded', le(c['delta'], const(10 ** 10)))
            self.ob(I, st, ['C18', 'C02'], 'table', n, 'nf recorded is the number of calls made', eq(c['nf'], g['calls']))
            self.ob(I, st, ['C18', 'C02'], 'table', n, 'nx recorded is the number of points', eq(c['nx'], g['pts']))
            if len(vals) >= 4:
                self.ob(I, st, ['C18', 'C10'], 'table', n, 'run number recorded counts the restarts so far', eq(vals[2], add(self.P.nruns0, g['restarts'])))
                if 'lastiter' in g:
                    self.ob(I, st, ['C18'], 'table', n, 'iteration numbers of a run are consecutive', eq(vals[3], add(g['lastiter'], const(1))))
                g['lastiter'] = vals[3]
                if 'rhocap' in g:
                    self.ob(I, st, ['C18'], 'radii', n, 'rho is no larger than in the last row of the run (unless it is reset after growing)',
                            bor(le(c['rho'], g['rhocap']), mk('truth', self.P.param('growing.reset_rho'))))
                    g['rhocap'] = c['rho']
            m = st.heap['model']
            self.ob(I, st, ['C18'], 'table', n, 'the number of interpolation points recorded is at least two', le(const(2), m['npt_so_far']))
            self.ob(I, st, ['C18'], 'table', n, 'the number of interpolation points recorded is at most the allowed number', le(m['npt_so_far'], m['num_pts']))
            return [(NONE, st)]
        if nm.startswith('update_') or nm in ('to_dataframe', 'to_csv'):
            return [(fresh('diag'), st)]
        return None

    # ------------------------------------------------ exits
    def instantiate(self, I, st, cls, args, kw, node):
        P, g = self.P, st.g
        if cls == 'Model':
            return P.new_model(self, I, st, args, kw, node)
        if cls == 'ParameterList':
            return [(Ref('params', 'ParameterList'), st)]
        if cls == 'DiagnosticInfo':
            return [(Ref('diag', 'DiagnosticInfo'), st)]
        if cls == 'OptimResults' and P.solve_mode:
            return P.results_call(self, I, st, args, kw, node)
        if cls == 'ExitInformation':
            m, nd = P.prog.methods[('ExitInformation', '__init__')]
            b = I.bind(nd, [Ref('x', 'ExitInformation')] + list(args), kw, st, m.name, node)
            vals = list(b.values())
            flag, msg = I.T(vals[1]), I.T(vals[2])
            if P.solve_mode:
                return [(Rec('ExitInformation', {'flag': flag, 'msg': msg}), st)]
            r = self.exit_truth(I, st, node, flag, msg)
            text, claim = r if r else ('', TRUE)
            if r and (claim is TRUE or not claim.taint and st.entails(claim)):
                self.ob(I, st, ['C10'], 'exit reasons', node, text, True)
                claim = TRUE
            return [(Rec('ExitInformation', {'flag': flag, 'msg': msg, 'claim': claim, 'text': const(text)}), st)]
        return None

    def exit_truth(self, I, st, node, flag, msg):
        """(text, condition) an exit reason claims, or None"""
        P, g = self.P, st.g
        s = msg.args[1] if msg.op == 'const' and isinstance(msg.args[1], str) else ''
        f = num(flag)
        if f == P.consts.get('EXIT_MAXFUN_WARNING'):
            return 'the max-evaluations warning is only raised when maxfun calls were made', le(P.rigid['maxfun'], g['calls'])
        if f is not None and 'MAXFUN' in s:
            return 'a reason that names the budget carries the max-evaluations flag', FALSE
        if f == P.consts.get('EXIT_SUCCESS') and 'sufficiently small' in s:
            r = self.small(I, st)
            return '"sufficiently small" is only reported for an evaluated objective below its threshold', TRUE if r else FALSE if r is False else taint('small')
        if 'rho has reached' in s:
            c = st.heap['Controller']
            return '"rho has reached rhoend" is only reported when the trust-region lower bound equals rhoend', le(c['rho'], c['rhoend'])
        if f == P.consts.get('EXIT_SUCCESS') and 'unsuccessful restarts' in s:
            c = st.heap.get('Controller')
            g2 = st.frames[-1].get('nruns_so_far')
            if c is not None and isinstance(g2, T) and isinstance(c.get('last_successful_run'), T):
                return 'the unsuccessful-restarts reason is only given after that many unsuccessful runs', \
                    le(P.param('restarts.max_unsuccessful_restarts'), sub(g2, c['last_successful_run']))
        return None

    def judge_exits(self, I, st, v, node):
        """exit reasons that leave the function"""
        if isinstance(v, (Tup, Lst)) and v.items is not None:
            return type(v)([self.judge_exits(I, st, x, node) for x in v.items])
        if isinstance(v, Rec) and v.cls == 'ExitInformation':
            c = v.get('claim')
            if isinstance(c, T) and c is not TRUE:
                t = v.get('text')
                self.ob(I, st, ['C10'], 'exit reasons', node, t.args[1] if isinstance(t, T) and t.op == 'const' else 'the exit reason is true', c)
                return Rec(v.cls, dict(dict(v.attrs), claim=TRUE))
        return v

    def small(self, I, st):
        """some evaluated objective is below the threshold"""
        P, g = self.P, st.g
        if 'curP' not in g:
            return False
        obj = self.objective(st, g['curP'], g['curN'], g['curX'])
        m = st.heap.get('model')
        thr = []
        if m:
            thr.append(self.threshold(I, st))
        thr.append(P.param('model.abs_tol'))
        for t in thr:
            if t is not None and st.entails(le(obj, t)):
                return True
        return False

    def threshold(self, I, st):
        r = I.call(I.attr(Ref('model', 'Model'), 'min_objective_value', st, I.curnode), [], {}, st.copy(), I.curnode)
        return I.T(r[0][0])

    def objective(self, st, p, n, x):
        r = mk('sumsq', mk('rm', p, n))
        if not (self.P.cfg_h is False):
            r = add(r, mk('hv', strip(x)))
        return r

    # ------------------------------------------------ model contracts
    def bump(self, st, what=('kopt', 'rows')):
        m = st.heap['model']
        m['#ver'] = fresh('ver')
        if 'rows' in what:
            for a in ('objval', 'nsamples', 'eval_num'):
                m[a] = fresh('m.' + a)
        if 'kopt' in what:
            k = fresh('kopt')
            m['kopt'] = k
            m['#xopt'] = fresh('xopt')
            st.assume(le(const(0), k))
            st.assume(lt(k, m['npt_so_far']))

    def same_record(self, I, st, xs, rvec, en, n_needed, relative):
        """does (x, residual, eval_num) describe the current evaluated point? -> (cond, detail)"""
        g = st.g
        m = st.heap['model']
        xs, rvec, en = canon(I.T(xs)), canon(I.T(rvec)), canon(I.T(en))
        if any(t.taint for t in (xs, rvec, en)):
            return None, 'unknown values'
        if 'curP' not in g:
            return False, 'no evaluated point is pending'
        y = g['curX'].args[0] if g['curX'].op == 'unscale' else g['curX']
        bad, unknown = [], None
        tot = add(m['xbase'], xs) if relative else xs
        if not (tot is y or sub(strip(tot), strip(y)) is const(0)):
            if 'DQ' in g:
                u = loosely_same(strip(tot), strip(y))
                if u is None or y.taint:
                    unknown = 'kept evaluation: x is %s, evaluated at %s' % (show(tot)[:90], show(y)[:90])
            if not unknown:
                bad.append('x is %s, evaluated at %s' % (show(tot)[:90], show(y)[:90]))
        want = smp(g['curP'], const(0)) if n_needed is None else mk('rm', g['curP'], g['curN'])
        if rvec is not want:
            ok = False
            if n_needed is not None and rvec.op == 'rm' and rvec.args[0] is g['curP'] and st.entails(eq(rvec.args[1], g['curN'])):
                ok = True
            if not ok:
                bad.append('residual is %s, expected %s' % (show(rvec)[:90], show(want)[:90]))
        if en is not g['curP'] and not st.entails(eq(en, g['curP'])):
            bad.append('evaluation number is %s, the point is number %s' % (show(en)[:60], show(g['curP'])[:60]))
        if not bad and unknown:
            return None, unknown
        return not bad, '; '.join(bad)

    def excluded(self, st, k, s):
        """k not in the set of rows changed"""
        if s.op != 'pset':
            return False
        if s.args[0] is NONE:
            return True
        if s.args[0].op == 'single':
            return st.entails(ne(k, s.args[0].args[0]))
        if s.args[0].op == 'any':
            return False
        p = permidx(k)
        if p and p[0] is s.args[0]:
            return st.entails(le(s.args[2], p[1])) or st.entails(lt(p[1], s.args[1]))
        return False

    def include(self, st, k, s):
        p = permidx(k)
        if s.op != 'pset':
            return mk('pset', mk('any'), const(0), const(0))
        if s.args[0] is NONE:
            if p:
                return mk('pset', p[0], p[1], add(p[1], const(1)))
            return mk('pset', mk('single', k), const(0), const(0))
        if p and p[0] is s.args[0]:
            if sub(p[1], s.args[2]) is const(0) or st.entails(eq(p[1], s.args[2])):
                return mk('pset', p[0], s.args[1], add(s.args[2], const(1)))
        if s.args[0].op == 'single' and s.args[0].args[0] is k:
            return s
        return mk('pset', mk('any'), const(0), const(0))

    def not_incumbent(self, I, st, k):
        """k provably is not the row of the incumbent"""
        g = st.g
        m = st.heap['model']
        if st.entails(ne(k, m['kopt'])) or st.entails(bor(isnone(k), ne(k, m['kopt']))):
            return True
        if 'K0' in g and self.excluded(st, k, g['Kset']):
            if st.entails(ne(k, g['K0'])):
                return True
            p = permidx(k)
            if p:
                a = p[0]
                alts = [(a, p[1])] if a.op != 'psel' else [(a.args[1], p[1]), (a.args[1], add(p[1], a.args[2]))]
                good = True
                for arr, e in alts:
                    d, rev = perm_src(arr)
                    if d is None or d.op != 'dist' or d.args[1] is not g['K0']:
                        good = False
                        break
                    if rev:
                        n = sub(mk('len', arr), const(1))
                        good = good and (st.entails(lt(e, n)))
                    else:
                        good = good and st.entails(le(const(1), e))
                if good:
                    return True
            for f in list(st.facts):
                if f.op in ('lt0', 'le0'):
                    for s in subterms(f):
                        if s.op == 'idx' and s.args[0].op == 'dist' and s.args[0].args[1] is g['K0'] and (s.args[1] is k or st.entails(eq(s.args[1], k))):
                            if st.entails(lt(const(0), s)):
                                return True
        return False

    def improves(self, I, st):
        g = st.g
        m = st.heap['model']
        if 'curP' not in g:
            return False
        obj = self.objective(st, g['curP'], g['curN'], g['curX'])
        old = index_term(m['objval'], (m['kopt'],))
        return st.entails(le(obj, old))

    def harmless(self, st, k):
        """in every case the row is not the incumbent's, or the new point is at least as good"""
        g, m = st.g, st.heap['model']
        if 'curP' not in g or k.taint:
            return False
        obj = self.objective(st, g['curP'], g['curN'], g['curX'])
        goal = le(obj, index_term(m['objval'], (m['kopt'],)))

        def cases(st, k):
            if k.op == 'ite':
                a, b = st.copy(), st.copy()
                a.assume(k.args[0])
                b.assume(bnot(k.args[0]))
                return cases(a, k.args[1]) and cases(b, k.args[2])
            return st.entails(ne(k, m['kopt'])) or st.entails(goal) or st.entails(bor(isnone(k), ne(k, m['kopt']))) \
                or st.entails(bor(goal, isnone(k), ne(k, m['kopt'])))
        return cases(st, k)

    def model_call(self, I, st, nm, node, b):
        P, g = self.P, st.g
        m = st.heap['model']
        n = I.curnode
        args = list(b.values())[1:]
        if nm == 'xopt':
            ab = b.get('abs_coordinates', FALSE)
            if I.truth(ab) is TRUE:
                return [(mk('feas', add(m['xbase'], m['#xopt'])), st)]
            if I.truth(ab) is FALSE:
                return [(m['#xopt'], st)]
            return [(ite(I.truth(ab), mk('feas', add(m['xbase'], m['#xopt'])), m['#xopt']), st)]
        if nm == 'xpt':
            r = mk('xpt', I.T(args[0]), m['#ver'])
            return [(mk('feas', add(m['xbase'], r)) if I.truth(b.get('abs_coordinates', FALSE)) is TRUE else r, st)]
        if nm == 'ropt':
            return [(mk('ropt', m['#ver']), st)]
        if nm == 'as_absolute_coordinates':
            return [(mk('feas', add(m['xbase'], I.T(args[0]))), st)]
        if nm == 'distances_to_xopt':
            g['K0'], g['Kset'] = m['kopt'], EMPTY
            return [(mk('dist', m['#ver'], m['kopt']), st)]
        if nm == 'xpt_directions':
            return [(mk('dirs', m['#ver'], *[I.T(a) for a in args]), st)]
        if nm == 'get_final_results':
            R = fresh('fin')
            c = [mk(o, R) for o in ('recX', 'recR', 'recOBJ', 'recJ', 'recNS', 'recEN', 'recJE')]
            return [(Tup(c), st)]
        if nm == 'interpolate_mini_models_svd':
            P.interp_call(self, I, st, b)
            return [(Tup((mk('truth', fresh('interp_ok')), fresh('interp_err'), fresh('normJ'), fresh('resid'), fresh('cond'))), st)]
        if nm in ('build_full_model', 'lagrange_gradient', 'poisedness_constant', 'factorise_geom_system', 'solve_geom_system', 'interpolation_matrix'):
            return [(fresh(nm), st)]
        if nm not in MUT:
            return None
        if nm == 'shift_base':
            s = I.T(args[0])
            self.ob(I, st, ['C16', 'C18'], 'base shift', n, 'the base is shifted to the incumbent', None if s.taint else True)
            m['xbase'] = add(m['xbase'], s)
            for a in ('sl', 'su', '#xopt'):
                m[a] = sub(m[a], s)
            return [(NONE, st)]
        if nm == 'save_point':
            x, r, ns, en = args[:4]
            ab = I.truth(b.get('x_in_abs_coords', FALSE))
            xt = canon(I.T(x))
            inc = add(m['xbase'], m['#xopt']) if ab is TRUE else m['#xopt']
            if I.T(r) is mk('ropt', m['#ver']) or sub(strip(xt), inc) is const(0):
                okx = sub(strip(xt), inc) is const(0)
                okr = I.T(r) is mk('ropt', m['#ver'])
                okn = I.T(ns) is index_term(m['nsamples'], (m['kopt'],))
                oke = I.T(en) is index_term(m['eval_num'], (m['kopt'],))
                self.ob(I, st, ['C03', 'C04', 'C17'], 'records', n, 'the saved record is the incumbent\'s own point, residual, sample count and evaluation number', okx and okr and okn and oke,
                        'x %s, residual %s, samples %s, number %s' % (okx, okr, okn, oke))
                g['S'], g['Sset'] = TRUE, EMPTY
            else:
                if True:
                    c, det = self.same_record(I, st, x, r, en, True, ab is not TRUE)
                    if c and 'curN' in g:
                        nn = canon(I.T(ns))
                        if nn is not g['curN'] and not st.entails(eq(nn, g['curN'])):
                            c, det = False, 'sample count is %s, taken %s' % (show(nn)[:60], show(g['curN'])[:60])
                    self.ob(I, st, ['C03', 'C04', 'C08', 'C17'], 'records', n, 'the saved record is the point just evaluated: its x, mean residual, sample count and number', c, det)
                    if 'curP' in g:
                        g['off'] = const('saved')
                        g.pop('lastK', None)
                        g.pop('lastNS', None)
            m['objsave'] = fresh('objsave')
            st.assume(bnot(isnone(m['objsave'])))
            return [(mk('truth', fresh('saved')), st)]
        if nm == 'swap_points':
            self.bump(st)
            return [(NONE, st)]
        if nm == 'add_new_sample':
            k, r = I.T(args[0]), canon(I.T(args[1]))
            if 'lastK' in g:
                want = smp(g['curP'], g['lastNS'])
                okk = k is g['lastK'] or st.entails(eq(k, g['lastK']))
                self.ob(I, st, ['C03', 'C17'], 'records', n, 'the extra sample goes to the row of the point just stored', None if k.taint else okk, '%s vs %s' % (show(k), show(g['lastK'])))
                okr = r is want or (r.op == 'smp' and r.args[0] is g['curP'] and st.entails(eq(r.args[1], g['lastNS'])))
                self.ob(I, st, ['C03', 'C17', 'C02'], 'records', n, 'samples of the stored point are added once each, in order', None if r.taint else okr, '%s vs %s' % (show(r)[:80], show(want)[:80]))
                g['lastNS'] = add(g['lastNS'], const(1))
            else:
                self.ob(I, st, ['C03', 'C17'], 'records', n, 'an extra sample belongs to a point just stored', None if r.taint else False)
            self.bump(st)
            return [(NONE, st)]
        # change_point / add_new_point
        if nm == 'change_point':
            k, x, r, en = args[:4]
            k = I.T(k)
            if k is NONE:
                k = taint('no row')
        else:
            x, r, en = args[:3]
            k = m['npt_so_far']
        if True:
            c, det = self.same_record(I, st, x, r, en, None, True)
            self.ob(I, st, ['C03', 'C17', 'C02', 'C11'], 'records', n, 'the stored record is the point just evaluated: its step, first sample and number', c, det)
        if nm == 'change_point':
            okk = self.not_incumbent(I, st, k) or ('S' in g and self.excluded(st, k, g['Sset'])) or self.improves(I, st) or self.harmless(st, k)
            self.ob(I, st, ['C04', 'C08'], 'nothing lost', n, 'the row overwritten is not the incumbent, or the incumbent was saved, or the new point is better', None if k.taint else okk, 'row %s' % show(k)[:100])
        if 'curP' in g:
            g['off'] = const('stored')
            g['lastK'], g['lastNS'] = k, const(1)
        for s in ('K', 'S'):
            if s + 'set' in g:
                g[s + 'set'] = self.include(st, k, g[s + 'set'])
        npt = m['npt_so_far']
        if nm == 'change_point':
            if sub(k, npt) is const(0):
                self.ob(I, st, ['C17', 'C18'], 'rows', n, 'a new row is only written while fewer rows are used than allowed', lt(k, m['num_pts']))
        if nm == 'add_new_point':
            m['npt_so_far'] = add(npt, const(1))
            m['num_pts'] = add(m['num_pts'], const(1))
        elif st.entails(eq(k, npt)):
            m['npt_so_far'] = add(npt, const(1))
            if st.entails(lt(npt, m['num_pts'])):
                st.assume(le(m['npt_so_far'], m['num_pts']))
        elif not st.entails(lt(k, npt)):
            q = fresh('npt')
            st.assume(le(npt, q))
            st.assume(le(q, add(npt, const(1))))
            st.assume(le(q, m['num_pts']))
            m['npt_so_far'] = q
        self.bump(st)
        return [(NONE, st)]


def node_or(b, n):
    return n


class Protocol(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep, self.tier = prog, rep, tier
        self.ranges = param_ranges(prog)
        self.evaluating = evaluating(prog)
        self.params_used = set()
        self.udef, self.ufacts = {}, {}
        self.rhobeg0 = None
        self.solve_mode = False
        self.param_reset = False
        self.consts = {}
        for n in ('EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS', 'EXIT_INPUT_ERROR', 'EXIT_SLOW_WARNING', 'EXIT_EVAL_ERROR', 'EXIT_LINALG_ERROR'):
            r = prog.lookup('controller', n)
            if r and r[0] == 'const':
                try:
                    self.consts[n] = ast.literal_eval(r[2])
                except Exception:
                    pass
        self.cache = {}

    def param(self, key):
        return sym('P[%s]' % key)

    def param_facts(self, st):
        for k, (ty, none_ok, lo, hi) in self.ranges.items():
            if none_ok or ty not in ('int', 'float'):
                continue
            p = self.param(k)
            if isinstance(lo, (int, float)):
                st.assume(le(const(lo), p))
            if isinstance(hi, (int, float)):
                st.assume(le(p, const(hi)))
        st.assume(mk('truth', self.param('logging.save_diagnostic_info')))
        # ruled out by the validation in solve
        st.assume(lt(const(0), self.param('restarts.rhoend_scale')))
        st.assume(le(self.param('restarts.rhoend_scale'), const(1)))     # "factor to reduce rhoend by"
        st.assume(bor(bnot(mk('truth', self.param('growing.reset_rho'))), mk('truth', self.param('growing.reset_delta'))))
        st.assume(lt(const(0), self.param('growing.delta_scale_new_dirns')))

    def inv(self, st):
        """class invariants of the running algorithm: [(properties, text, term)]"""
        c, m, g = st.heap['Controller'], st.heap['model'], st.g
        C = lambda k: c.get(k) if isinstance(c.get(k), T) else taint(k)
        M = lambda k: m.get(k) if isinstance(m.get(k), T) else taint(k)
        mf = self.rigid['maxfun']
        return [(['C18'], 'delta >= rho', le(C('rho'), C('delta'))),
                (['C18'], 'rho >= rhoend', le(C('rhoend'), C('rho'))),
                (['C18'], 'rhoend > 0', lt(const(0), C('rhoend'))),
                (['C18'], 'rho > 0', lt(const(0), C('rho'))),
                (['C18'], 'rho <= rhobeg', le(C('rho'), C('rhobeg'))),
                (['C18'], 'delta <= 1e10', le(C('delta'), const(10 ** 10))),
                (['C02', 'C18'], 'nf is the number of calls made', eq(C('nf'), g['calls'])),
                (['C02', 'C18'], 'nx is the number of points evaluated', eq(C('nx'), g['pts'])),
                (['C02'], 'no more than maxfun calls were made', le(g['calls'], mf)),
                (['C18'], 'rho does not increase within a run (unless it is reset after growing)',
                 TRUE if 'rhocap' not in g else bor(le(C('rho'), g['rhocap']), mk('truth', self.param('growing.reset_rho')))),
                ([], 'kopt >= 0', le(const(0), M('kopt'))),
                ([], 'kopt < npt', lt(M('kopt'), M('npt_so_far'))),
                ([], 'npt <= num_pts', le(M('npt_so_far'), M('num_pts'))),
                ([], 'npt >= 1', le(const(1), M('npt_so_far'))),
                ([], 'rhobeg <= 1e9', le(C('rhobeg'), const(10 ** 9))),
                ([], 'rhoend <= rhobeg', le(C('rhoend'), C('rhobeg'))),
                ([], 'calls >= 0', le(const(0), g['calls']))]

    def invariant(self, st):
        try:
            out = [t for _, _, t in self.inv(st)]
        except KeyError:
            out = []
        return [t for t in out if not t.taint]

    # ------------------------------------------------ the model object
    def new_model(self, H, I, st, args, kw, node):
        m, nd = self.prog.methods[('Model', '__init__')]
        b = I.bind(nd, [Ref('model', 'Model')] + list(args), kw, st, m.name, node)
        g = st.g
        T_ = lambda k, d=None: I.T(b[k]) if k in b else d
        x0, r0, ns, en = T_('x0'), canon(T_('r0')), canon(T_('r0_nsamples')), T_('x0_eval_num')
        if 'curP' in g:
            y = g['curX'].args[0] if g['curX'].op == 'unscale' else g['curX']
            bad = []
            if x0 is not y:
                bad.append('x0 is %s' % show(x0)[:80])
            if not (r0.op == 'rm' and r0.args[0] is g['curP'] and st.entails(eq(r0.args[1], g['curN']))):
                bad.append('residual is %s' % show(r0)[:80])
            if not st.entails(eq(ns, g['curN'])):
                bad.append('sample count is %s' % show(ns)[:60])
            if en is None or not st.entails(eq(en, g['curP'])):
                bad.append('evaluation number is %s' % (show(en)[:60] if en is not None else 'missing'))
            g['off'] = const('saved')
        else:
            R = self.R0
            bad = [w for w, t, o in (('x0', x0, 'recX'), ('residual', r0, 'recR'), ('samples', ns, 'recNS'), ('number', en, 'recEN')) if t is not mk(o, R)]
        self_ob = lambda p, r, t, c, d='': H.ob(I, st, p, r, node, t, c, d)
        self_ob(['C03', 'C17', 'C02', 'C11'], 'records', 'the model starts with the starting point\'s own record (x0, mean residual, sample count, evaluation number)', not bad, '; '.join(bad))
        for k, w in (('xl', 'xl'), ('xu', 'xu')):
            if k in b:
                self_ob(['C01', 'C14'], 'arguments', 'the model gets the problem\'s %s' % w, T_(k) is self.rigid[w], show(T_(k))[:60])
        for k, w, p in (('projections', 'projections', ['C09']), ('h', 'h', ['C06', 'C03']), ('argsh', 'argsh', ['C06']), ('scaling_changes', 'scaling_changes', ['C03', 'C01', 'C17'])):
            if k in b:
                self_ob(p, 'arguments', 'the model gets the problem\'s %s' % w, T_(k) is self.rigid[w] or (w == 'h' and T_(k) is NONE and self.cfg_h is False), show(T_(k))[:60])
        for k, key, p in (('abs_tol', 'model.abs_tol', ['C10']), ('rel_tol', 'model.rel_tol', ['C10']), ('dykstra_max_iters', 'dykstra.max_iters', ['C09']), ('dykstra_tol', 'dykstra.d_tol', ['C09'])):
            if k in b:
                self_ob(p, 'arguments', 'the model gets parameter %s' % key, T_(k) is self.param(key), show(T_(k))[:60])
        from .modelspec import attrs_of
        h = {a: sym('m.' + a) for a in attrs_of(self.prog, 'Model')}
        h.update({'num_pts': T_('npt'), 'npt_so_far': const(1), 'kopt': const(0), 'xbase': x0, '#xopt': fresh('xopt'), '#ver': fresh('ver'),
                  'sl': sub(T_('xl'), x0), 'su': sub(T_('xu'), x0), 'xl': T_('xl'), 'xu': T_('xu'), 'projections': T_('projections'), 'h': T_('h'), 'argsh': T_('argsh'),
                  'scaling_changes': T_('scaling_changes'), 'abs_tol': T_('abs_tol'), 'rel_tol': T_('rel_tol'), 'objsave': NONE,
                  'objval': fresh('m.objval'), 'nsamples': fresh('m.nsamples'), 'eval_num': fresh('m.eval_num'), 'objbeg': fresh('objbeg')})
        st.heap['model'] = h
        return [(Ref('model', 'Model'), st)]

    # evaluations kept in a list to be processed later
    def defer(self, H, I, st, lst, tup, node):
        g = st.g
        if 'DQ' in g:
            return None
        if 'curP' not in g:
            if any(isinstance(v, T) and v.op == 'buf' and v.args[0].op == 'sym' and v.args[0].args[0] == '#nopoint' for v in tup.items):
                g['DLn'] = add(g.get('DLn', const(0)), const(1))
                g.setdefault('DLp', const(0))
                return Lst(None, ('def', '%s:%s' % (I.modstack[-1], node.lineno)))
            return None
        has = [i for i, v in enumerate(tup.items) if isinstance(v, T) and any(s.op == 'buf' and s.args[0] is g['curP'] for s in subterms(v))]
        if not has and not any(isinstance(v, (T,)) and (v is g['curP'] or v is g['curN']) for v in tup.items):
            # nothing evaluated on this path (budget already used up): an element with zero samples
            pass
        if lst.items is not None and lst.items:
            return None
        if lst.items is None and not (isinstance(lst.tag, tuple) and lst.tag[0] == 'def'):
            return None
        key = '%s:%s' % (I.modstack[-1], node.lineno)
        n = g.get('DLn', const(0))
        full = bor(eq(g['curN'], g['curReq']), le(self.rigid['maxfun'], g['calls']))
        H.ob(I, st, ['C02'], 'samples', node, 'the point got all requested samples unless the budget ran out (kept for later)', full)
        items = []
        for i, v in enumerate(tup.items):
            if isinstance(v, Rec) or v is NONE:
                items.append('exit')
            elif isinstance(v, T):
                t = canon(v)
                if t.op == 'buf' and t.args[0] is g['curP']:
                    items.append(mk('buf', DP, DN if st.entails(eq(t.args[1], g['curN'])) else taint('count'), t.args[2]))
                elif st.entails(eq(t, g['curN'])) and not st.entails(eq(t, g['curP'])):
                    items.append(DN)
                elif t is g['curP'] or st.entails(eq(t, g['curP'])):
                    items.append(DP)
                elif any('#' in q.args[0] for q in syms(t)):
                    items.append(('opaque', i))
                else:
                    items.append(t)
            else:
                items.append(('opaque', i))
        x = g['curX']
        na, nc = parts(n)
        if len(na) == 1 and list(na.values())[0] == 1:
            x = subst(x, {list(na)[0]: sub(BOUND, lin({}, nc))})
        noexit = any(v is NONE for v in tup.items)
        I.log.append(('__tmpl', key, n, x, tuple(items), noexit, st.entails(le(const(1), g['curN']))))
        for k in ('curP', 'curX', 'curN', 'curReq', 'off', 'lastK', 'lastNS'):
            g.pop(k, None)
        g['DLn'] = add(n, const(1))
        g.setdefault('DLp', const(0))
        return Lst(None, ('def', key))

    def list_elem(self, H, I, st, lst, k):
        if not (isinstance(lst.tag, tuple) and lst.tag[0] == 'def'):
            return None
        g = st.g
        ts = [e for e in I.log if e[0] == '__tmpl' and e[1] == lst.tag[1]]
        gen = [e for e in ts if num(e[2]) is None] or ts
        if not gen or 'DLn' not in g:
            return taint('list element')
        dp, dn = mk('dp', k), mk('dn', k)
        st.assume(le(const(0), dn))
        out = []
        for i in range(len(gen[0][4])):
            col = [e[4][i] if i < len(e[4]) else None for e in gen]
            c0 = col[0]
            if any(c == 'exit' for c in col):
                out.append(mk('dexit', k))
            elif all(c is c0 or c == c0 for c in col) and isinstance(c0, T):
                out.append(subst(c0, {DP: dp, DN: dn, BOUND: k}))
            elif all(isinstance(c, tuple) for c in col):
                out.append(mk('dopq', const(i), k))
            else:
                vals = {c for c in col if isinstance(c, T)}
                out.append(subst(vals.pop(), {DP: dp, DN: dn, BOUND: k}) if len(vals) == 1 else taint('element'))
        if all(e[6] for e in gen if e[5]):
            st.assume(bor(bnot(isnone(mk('dexit', k))), le(const(1), dn)))
        x = gen[0][3]
        if not all(e[3] is x for e in gen):
            x = taint('deferred x')
        # is this the element whose turn it is?
        if not (('curP' in g) and g['curP'] is dp):
            H.close(I, st, I.curnode, 'before the next kept evaluation')
            H.ob(I, st, ['C04', 'C08', 'C03'], 'nothing lost', I.curnode, 'kept evaluations are offered one after the other, none skipped', eq(k, g['DLp']))
            g['curP'], g['curN'], g['curReq'], g['off'], g['DQ'] = dp, dn, dn, const('pending'), TRUE
            g['curX'] = subst(x, {BOUND: k})
        return Tup(out)

    def done_deferred(self, H, I, st, node, when):
        g = st.g
        if 'DLn' in g:
            H.ob(I, st, ['C04', 'C08', 'C03'], 'nothing lost', node, 'every kept evaluation was offered to the model or the saved point (%s)' % when, eq(g['DLp'], g['DLn']))
            g.pop('DLn')
            g.pop('DLp')

    def interp_call(self, H, I, st, b):
        if 'throw_error_on_nans' in b:
            H.ob(I, st, ['C08'], 'arguments', I.curnode, 'raising on NaN data is controlled by its own parameter only', I.truth(b['throw_error_on_nans']) is mk('truth', self.param('interpolation.throw_error_on_nans')), '')

    # ------------------------------------------------ summaries of controller methods
    def summary_call(self, H, I, st, nm, node, bound):
        n = I.curnode
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        m = st.heap['model']
        c = st.heap['Controller']
        pre = list(st.g.items())
        H.close(I, st, n, 'before ' + nm)
        consts, keyparts = {}, []
        entry_vals = {}
        for p in ps[1:]:
            v = bound[p]
            if isinstance(v, T) and v.op == 'const':
                consts[p] = v
            elif isinstance(v, (Ref, Fn)):
                consts[p] = v
            elif isinstance(v, T) and p == 'number_of_samples':
                H.ob(I, st, ['C02'], 'samples', n, '%s is given the number of samples the nsamples callback asked for (at least one)' % nm, None if v.taint else eq(v, st.g.get('req', NONE)) if 'req' in st.g else False)
            keyparts.append((p, v if p in consts else None))
        one = num(m['npt_so_far']) == 1 and num(m['kopt']) == 0
        # which class invariants hold here
        H.proto_state = st
        gen = self.generic(H, consts, ps, one)
        est, emap = gen
        actual = self.actual(st, bound, emap)
        facts = []
        cand = self.invariant(est)
        invs = set(cand)
        H.keep_invariants(I, [st], n, 'when %s is called' % nm)
        for p in ps[1:]:
            if p in emap.get('args', {}):
                a = emap['args'][p]
                cand += [le(const(0), a), lt(const(0), a), le(const(1), a)]
        cand.append(lt(est.g['calls'], self.rigid['maxfun']))
        c0 = est.heap['Controller']
        for f in cand:
            if f is TRUE:
                continue
            inst = subst(f, actual)
            if inst.taint:
                continue
            if f in invs or st.entails(inst):
                facts.append(f)
        rig = [f for f in st.facts if f.size < 30 and all(s.op == 'sym' and '#' not in s.args[0] and s in self.rigid_terms for s in syms(f))]
        key = (nm, tuple((p, repr(v)) for p, v in keyparts), one, self.cfg_h, self.cfg_old)
        here = set(facts) | set(rig)
        S = None
        for fs, c in self.cache.setdefault(key, []):
            if fs <= here:
                S = c
                break
        if S is None:
            for f in facts + rig:
                est.assume(f)
            S = self.summarise(nm, node, ps, est, emap, consts)
            self.cache[key].append((frozenset(here), S))
            if DEBUG:
                print('SUMM', nm, key[1:], len(here), 'outs', len(S.outs), 'inline' if S.inline else '', [show(f) for f in cand if f not in facts])
        if S.inline:
            for k, v in pre:
                st.g[k] = v
            return None
        outs = []
        for ret, o in S.outs:
            x = st.copy()
            ren = dict(actual)
            for t in self.state_terms(ret, o):
                for s in syms(t):
                    if s not in ren and '#' in s.args[0] and not s.args[0].startswith('in:') and s.args[0] != '#nopoint':
                        ren[s] = fresh(s.args[0].split('#')[0] or 's')
            f = lambda v: self.subv(v, ren)
            for oid, d in o.heap.items():
                for a, v in d.items():
                    x.heap.setdefault(oid, {})[a] = f(v)
            for a, v in o.g.items():
                if a in ('restarts',):
                    continue
                x.g[a] = f(v)
            for t in o.facts:
                x.assume(subst(t, ren))
            for a in ('K0', 'Kset', 'S', 'Sset'):
                x.g.pop(a, None)
            if any(t.op == 'const' and t is FALSE for t in x.facts) or FALSE in x.facts:
                continue
            for _, _, t in self.inv(x):
                if not t.taint:
                    x.assume(t)
            if FALSE in x.facts:
                continue
            if o.g.get('#restarted') is TRUE:
                x.g['restarts'] = add(st.g['restarts'], const(1))
                x.g['lastiter'] = const(-1)
                x.g['rhocap'] = x.heap['Controller']['rho']
                x.g.pop('#restarted', None)
            x.g.pop('#restarted', None)
            outs.append((f(ret), x))
        return outs

    def subv(self, v, ren):
        if isinstance(v, T):
            return subst(v, ren)
        if isinstance(v, Tup):
            return Tup([self.subv(x, ren) for x in v.items])
        if isinstance(v, Lst):
            return Lst([self.subv(x, ren) for x in v.items]) if v.items is not None else v
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.subv(x, ren) for k, x in v.attrs})
        return v

    def state_terms(self, ret, o):
        out = []

        def go(v):
            if isinstance(v, T):
                out.append(v)
            elif isinstance(v, (Tup, Lst)) and v.items is not None:
                for x in v.items:
                    go(x)
            elif isinstance(v, Rec):
                for _, x in v.attrs:
                    go(x)
        go(ret)
        for p, v in locations(o):
            if p[0] != 'f':
                go(v)
        out.extend(o.facts)
        return out

    MUTABLE_C = None

    def generic(self, H, consts, ps, one):
        st = State()
        emap = {'args': {}, 'h': {}, 'g': {}}
        cur = H.proto_state
        for oid in ('Controller', 'model'):
            d = {}
            for a, v in cur.heap[oid].items():
                if isinstance(v, T) and (v.op == 'const' and v is NONE and a in ('h', 'lh', 'prox_uh') or v in self.rigid_terms):
                    d[a] = v
                elif isinstance(v, T):
                    if one and a in ('npt_so_far', 'kopt'):
                        d[a] = const(1 if a == 'npt_so_far' else 0)
                        continue
                    s = sym('in:%s.%s' % (oid, a))
                    d[a] = s
                    emap['h'][(oid, a)] = s
                elif isinstance(v, Lst):
                    d[a] = Lst(None, 'in')
                else:
                    d[a] = v
            st.heap[oid] = d
        for k in ('calls', 'pts', 'restarts', 'rhocap'):
            s = sym('in:g.' + k)
            st.g[k] = s
            emap['g'][k] = s
        # the counters agree with the ghosts at entry (proved at the call)
        for k, v in cur.g.items():
            if k.startswith('P:'):
                st.g[k] = v
        fr = {}
        for p in ps[1:]:
            if p in consts:
                fr[p] = consts[p]
            else:
                s = sym('in:arg.' + p)
                fr[p] = s
                emap['args'][p] = s
        if 'number_of_samples' in fr and isinstance(fr['number_of_samples'], T):
            st.g['req'] = fr['number_of_samples']
            st.assume(le(const(1), fr['number_of_samples']))
        st.frames = [fr]
        self.param_facts(st)
        for a in ('objsave',):
            if a in st.heap['model'] and isinstance(st.heap['model'][a], T):
                pass
        return st, emap

    def actual(self, st, bound, emap):
        r = {}
        for (o, a), s in emap['h'].items():
            v = st.heap[o].get(a)
            r[s] = v if isinstance(v, T) else taint('attr')
        for k, s in emap['g'].items():
            r[s] = st.g[k]
        for p, s in emap['args'].items():
            v = bound[p]
            r[s] = v if isinstance(v, T) else taint('arg')
        return r

    def summarise(self, nm, node, ps, est, emap, consts):
        H = PHooks(self)
        H.in_summary = True
        H.method = nm
        I = self.interp(H)
        mod = self.prog.methods[('Controller', nm)][0].name
        H.proto_state = est
        entry_rhoend = est.heap['Controller'].get('rhoend')
        ref = Ref('Controller', 'Controller')
        fr = est.frames[0]
        bound = {ps[0]: ref}
        bound.update(fr)
        est.frames = [{}]
        f = Fn(node, mod, self_=ref, qual='Controller.' + nm)
        I.modstack.append(mod)
        I.keep_depth = 1
        whole = I.reduce_ret

        def reduce_ret(outs, qual):
            if qual == 'Controller.' + nm and len(I.stack) == 0:
                for t in outs:
                    H.keep_invariants(I, [t], node, 'when %s returns' % nm)
                    t.g['__ret'] = H.judge_exits(I, t, t.g['__ret'], node)
            return whole(outs, qual)
        I.reduce_ret = reduce_ret
        outs = I.inline(f, bound, est, node)
        res = []
        inline = False
        for v, t in outs:
            pend = 'curP' in t.g and t.g['off'] is const('pending')
            if pend and isinstance(v, Tup) and any(s.op == 'buf' for x in v.items if isinstance(x, T) for s in subterms(x)):
                inline = True
                break
        if not inline:
            for v, t in outs:
                H.close(I, t, node, 'when %s returns' % nm)
                self.done_deferred(H, I, t, node, 'when %s returns' % nm)
                for a in ('K0', 'Kset', 'S', 'Sset', 'req'):
                    t.g.pop(a, None)
                re = t.heap['Controller'].get('rhoend')
                if re is not entry_rhoend:
                    t.g['#restarted'] = TRUE
                    self.restart_contract(H, I, t, node, entry_rhoend)
                res.append((v, t))
            self.flush(I, 'Controller.' + nm)
        I.modstack.pop()
        return Summary(res, est, inline)

    def restart_contract(self, H, I, t, node, old):
        c = t.heap['Controller']
        H.ob(I, t, ['C18', 'C10'], 'restart', node, 'a restart rescales rhoend by the documented factor', eq(c['rhoend'], mul(self.param('restarts.rhoend_scale'), old)))
        H.ob(I, t, ['C18'], 'restart', node, 'a restart resets rho to rhobeg', eq(c['rho'], c['rhobeg']))
        H.ob(I, t, ['C18'], 'restart', node, 'a restart resets delta to rhobeg', eq(c['delta'], c['rhobeg']))

    def flush(self, I, site):
        for ent in I.log:
            if ent[0] == '__tmpl':
                continue
            props, rule, where, text, v, det = ent
            if I.unsupported and v is False and 'loop did not' in ' '.join(I.unsupported):
                v = None
            self.rep.ok(props, rule, where, text, v, det, site)
        I.log = []
        self.rep.analysed |= I.funcs_seen
        for u in sorted(I.unsupported):
            self.rep.note('unsupported: ' + u)

    def interp(self, H):
        I = PInterp(self.prog, H)
        I.P = self
        I.verbose = bool(DEBUG)
        I.prune_on = True
        I.curnode = None
        orig = I.e_Call

        def e_Call(e, st, orig=orig):
            old = I.curnode
            I.curnode = e
            try:
                return orig(e, st)
            finally:
                I.curnode = old
        I.e_Call = e_Call

        def lst_elem(st, v, k):
            r = self.list_elem(H, I, st, v, k)
            return r if r is not None else taint('list element')
        I.lst_elem = lst_elem

        def join_lists(J, vs):
            tags = {v.tag for v in vs if v.items is None}
            if len(tags) == 1 and isinstance(list(tags)[0], tuple) and all(v.items is None or not v.items for v in vs):
                return Lst(None, list(tags)[0])
            return Lst(None, 'join')
        I.join_lists = join_lists
        return I

    # ------------------------------------------------ every evaluating method on its own
    def setup(self, cfg_h):
        self.cfg_h, self.cfg_old = cfg_h, False
        self.rigid = {k: sym(k) for k in RIGID}
        self.rigid['nsamples'] = sym('nsamples')
        if not cfg_h:
            self.rigid['h'] = NONE
        self.rigid_terms = set(self.rigid.values()) - {NONE}
        self.R0 = sym('R0')
        self.nruns0 = sym('nruns0')
        self.x0 = sym('x0')

    def base_state(self, H, I):
        """a controller as its constructor leaves it (values replaced by unknowns later)"""
        st = State()
        st.frames = [{}]
        if self.cfg_h:
            st.assume(bnot(isnone(self.rigid['h'])))
        self.param_facts(st)
        m, nd = self.prog.methods[('Controller', '__init__')]
        args = {}
        for p in [a.arg for a in nd.args.posonlyargs + nd.args.args][1:]:
            args[p] = self.rigid.get(p) if p in self.rigid else Ref('params', 'ParameterList') if p == 'params' else const(True) if p == 'do_logging' else sym(p)
        st.g = {'calls': sym('c0'), 'pts': sym('p0'), 'restarts': const(0), 'rhocap': sym('rhocap')}
        I.modstack.append(m.name)
        r = I.instantiate('Controller', [], args, st, nd)
        I.log = []
        return r[0][1]

    def roots(self):
        return [nm for (c, nm) in self.prog.methods if c == 'Controller' and nm in self.evaluating and nm != '__init__']

    def method(self, nm, cfg_h):
        self.setup(cfg_h)
        H = PHooks(self)
        I = self.interp(H)
        st = self.base_state(H, I)
        H.proto_state = st
        _, node = self.prog.methods[('Controller', nm)]
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        consts = {p: Ref('params', 'ParameterList') for p in ps if p == 'params'}
        consts.update({p: NONE for p in ps if p.endswith('_to_save')})
        res = []
        for one in ([True] if nm.startswith('initialise') else [False]):
            est, emap = self.generic(H, consts, ps, one)
            for f in self.invariant(est):
                est.assume(f)
            if cfg_h:
                est.assume(bnot(isnone(self.rigid['h'])))
            if nm != 'soft_restart':
                est.assume(lt(est.g['calls'], self.rigid['maxfun']))
            for p in ps[1:]:
                if p in emap['args'] and p in ('num_directions', 'knew', 'num_pts_to_move', 'nruns_so_far'):
                    est.assume(le(const(0), emap['args'][p]))
            for p, v in emap['args'].items():
                if 'thresh' in p or 'delta' in p:
                    est.assume(le(const(0), v))
            if 'knew' in emap['args']:
                est.assume(lt(emap['args']['knew'], est.heap['model']['npt_so_far']))
            res.append(self.summarise(nm, node, ps, est, emap, consts))
        return res

    # ------------------------------------------------ solve_main
    def main(self, cfg_h, cfg_old):
        self.cfg_h, self.cfg_old = cfg_h, cfg_old
        mod, node = None, None
        r = self.prog.lookup('solver', 'solve_main')
        if not r:
            return None
        _, mod, node = r
        H = PHooks(self)
        I = self.interp(H)
        ps = [a.arg for a in node.args.posonlyargs + node.args.args]
        self.rigid = {k: sym(k) for k in RIGID}
        self.rigid['nsamples'] = sym('nsamples')
        if not cfg_h:
            self.rigid['h'] = NONE
        self.rigid_terms = set(self.rigid.values()) - {NONE}
        st = State()
        st.frames = [{}]
        self.R0 = sym('R0')
        self.x0 = mk('recX', self.R0) if cfg_old else sym('x0')
        self.nruns0 = sym('nruns0')
        vals = {}
        for p in ps:
            vals[p] = self.rigid.get(p) if p in self.rigid else sym(p)
        vals['x0'] = self.x0
        self.rhobeg0 = vals['rhobeg']
        vals['nruns_so_far'], vals['nf_so_far'], vals['nx_so_far'] = self.nruns0, sym('nf0'), sym('nx0')
        vals['params'], vals['diagnostic_info'] = Ref('params', 'ParameterList'), Ref('diag', 'DiagnosticInfo')
        vals['do_logging'] = TRUE if False else const(True)
        vals['print_progress'] = const(True)
        if cfg_old:
            vals['r0_avg_old'], vals['r0_nsamples_old'], vals['r0_eval_num_old'] = mk('recR', self.R0), mk('recNS', self.R0), mk('recEN', self.R0)
            vals['default_growing_method_set_by_user'] = NONE
            st.assume(bnot(isnone(vals['r0_avg_old'])))
        else:
            for k in ('r0_avg_old', 'r0_nsamples_old', 'r0_eval_num_old'):
                vals[k] = NONE
        if cfg_h:
            st.assume(bnot(isnone(self.rigid['h'])))
        self.param_facts(st)
        st.assume(mk('truth', self.param('logging.save_diagnostic_info')))
        nf0, nx0 = vals['nf_so_far'], vals['nx_so_far']
        for f in (le(const(0), nf0), lt(nf0, self.rigid['maxfun']), le(const(0), nx0), le(nx0, nf0), le(const(0), self.nruns0), lt(const(0), vals['rhoend']), lt(vals['rhoend'], vals['rhobeg']),
                  le(vals['rhobeg'], const(10 ** 9)), le(const(2), vals['npt'])):
            st.assume(f)
        st.g = {'calls': nf0, 'pts': nx0, 'restarts': const(0), 'lastiter': const(-1), 'rhocap': vals['rhobeg']}
        H.proto_state = st
        I.modstack.append(mod)
        f = Fn(node, mod, qual='solve_main')
        I.reduce_ret = (lambda orig: lambda outs, qual: outs if qual == 'solve_main' else orig(outs, qual))(I.reduce_ret)
        outs = I.inline(f, vals, st, node)
        self.main_returns(H, I, outs, node)
        self.flush(I, 'solve_main')
        return outs

    def main_returns(self, H, I, outs, node):
        """what solve_main hands back agrees with what happened"""
        for v, t in outs:
            g = t.g
            ob = lambda p, r, text, c, d='': H.ob(I, t, p, r, node, text, c, d)
            if not isinstance(v, Tup) or len(v.items) != 12:
                ob(['C02', 'C03', 'C10', 'C18'], 'results', 'the results of a run are the twelve known fields', None)
                continue
            x, r, obj, J, ns, nf, nx, nruns, ex, diag, en, je = [i if isinstance(i, (Rec, Ref)) else I.T(i) for i in v.items]
            for what, val, gh in (('nf returned is the number of calls made', nf, g['calls']), ('nx returned is the number of points evaluated', nx, g['pts'])):
                c = eq(val, gh)
                # a value fixed before the last evaluations were made cannot count them
                if not t.entails(c) and stale(val, gh):
                    c = False
                ob(['C02'], 'results', what, c, 'returns %s after %s' % (show(val)[:60], show(gh)[:60]) if c is False else '')
            ob(['C10', 'C18'], 'results', 'the run count returned is one more than the restarts done', eq(nruns, add(add(self.nruns0, g['restarts']), const(1))))
            if isinstance(ex, Rec):
                H.judge_exits(I, t, ex, node)
                ob(['C10'], 'results', 'a run ends with an exit reason', True)
            else:
                ob(['C10'], 'results', 'a run ends with an exit reason', None if ex.taint else False if ex is NONE else True if t.entails(bnot(isnone(ex))) else None, show(ex)[:100])
            ob(['C18'], 'results', 'the table returned is the one that was filled', isinstance(diag, Ref) and diag.id == 'diag' or None)
            if x.op.startswith('rec') and len(x.args) == 1:
                R = x.args[0]
                for name, val, o, pr in (('residual vector', r, 'recR', ['C03']), ('objective', obj, 'recOBJ', ['C03', 'C04']), ('sample count', ns, 'recNS', ['C03']),
                                         ('evaluation number', en, 'recEN', ['C03', 'C11']), ('Jacobian', J, 'recJ', ['C11', 'C03']),
                                         ('evaluation numbers of the Jacobian', je, 'recJE', ['C11'])):
                    want = mk(o, R)
                    if val is NONE and o in ('recJ', 'recJE'):
                        ob(pr, 'results', 'a run may return no Jacobian', True)
                        continue
                    ob(pr, 'results', 'the %s returned belongs to the point returned' % name, None if val.taint else val is want, show(val)[:80])
                H.close(I, t, node, 'when the run ends')
                self.done_deferred(H, I, t, node, 'when the run ends')
            elif 'curP' in g:
                y = g['curX'].args[0] if g['curX'].op == 'unscale' else g['curX']
                rr = canon(r)
                ob(['C03', 'C11'], 'results', 'the point returned is the one just evaluated', None if x.taint else x is y, show(x)[:80])
                ob(['C03'], 'results', 'the residual returned is the mean of the samples taken', None if rr.taint else rr.op == 'rm' and rr.args[0] is g['curP'] and t.entails(eq(rr.args[1], g['curN'])),
                   show(rr)[:80])
                want = H.objective(t, g['curP'], g['curN'], g['curX'])
                ob(['C03', 'C04'], 'results', 'the objective returned is the one of the point returned', None if obj.taint else strip(canon(obj)) is strip(canon(want)) or t.entails(eq(canon(obj), want)),
                   '%s vs %s' % (show(obj)[:80], show(want)[:80]))
                ob(['C03'], 'results', 'the sample count returned is the number of samples taken', eq(ns, g['curN']))
                ob(['C03', 'C11'], 'results', 'the evaluation number returned is the one of the point returned', eq(en, g['curP']))
                ob(['C11'], 'results', 'no Jacobian is returned before a model exists', J is NONE and je is NONE)
            else:
                ob(['C03'], 'results', 'the point returned is known', None, show(x)[:80])


# ------------------------------------------------ drivers
ALLP = ('C01', 'C02', 'C03', 'C04', 'C06', 'C08', 'C09', 'C10', 'C11', 'C13', 'C14', 'C16', 'C17', 'C18')


def _job(prog, what, tier):
    """one root in one configuration -> (obligations, analysed, notes)"""
    from .report import Report
    rep = Report()
    P = Protocol(prog, rep, tier)
    try:
        if what[0] == 'method':
            P.method(what[1], what[2])
        else:
            P.main(what[1], what[2])
        lost = None
    except Exception as e:      # the analysis met something it does not understand: nothing is decided
        if os.environ.get('SA_DEBUG'):
            raise
        lost = '%s: %r' % (what, e)
        rep = Report()
        rep.ok(list(ALLP), 'protocol', what[1] if what[0] == 'method' else 'solve_main', 'analysis of %s' % (what,), None, lost)
    return [(o.prop, o.rule, o.where, o.text, o.verdict, o.detail, o.site) for o in rep.obls], sorted(rep.analysed), rep.notes


def run_jobs(prog, rep, tier, jobs):
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    limit = int(os.environ.get('SA_JOB_LIMIT', '360'))
    procs = []
    results = []

    def start(j):
        r, w = ctx.Pipe(False)

        def body():
            import sys
            import threading
            sys.setrecursionlimit(20000)
            w.send(_job(prog, j, tier))
            w.close()
        p = ctx.Process(target=body)
        p.start()
        w.close()
        return [j, p, r]
    import time
    todo = list(jobs)
    live = []
    t0 = time.time()
    while todo or live:
        while todo and len(live) < 8:
            live.append(start(todo.pop(0)) + [time.time()])
        for x in list(live):
            j, p, r, t = x
            if r.poll(0.02):
                try:
                    results.append((j, r.recv()))
                except EOFError:
                    results.append((j, None))
                p.join()
                live.remove(x)
            elif time.time() - t > limit:
                p.terminate()
                p.join()
                results.append((j, None))
                live.remove(x)
    order = {j: i for i, j in enumerate(jobs)}
    for j, r in sorted(results, key=lambda x: order[x[0]]):
        if r is None:
            rep.ok(list(ALLP), 'protocol', str(j[1]), 'analysis of %s' % (j,), None, 'did not finish')
            continue
        for o in r[0]:
            rep.add(*o)
        rep.analysed |= set(r[1])
        for n in r[2]:
            rep.note(n)


def called_methods(prog):
    """evaluating Controller methods that the driver calls itself (the others are analysed inside their callers)"""
    out = set()
    for nm in ('solve_main', 'solve'):
        r = prog.lookup('solver', nm)
        if r:
            out |= calls_of(r[2])
    return out


def methods(prog, rep, tier):
    P = Protocol(prog, rep, tier)
    P.setup(False)
    mine = called_methods(prog)
    jobs = [('method', nm, h) for nm in P.roots() if nm in mine for h in (False, True)]
    jobs.sort(key=lambda j: 0 if j[1].startswith(('initialise', 'soft')) else 1)
    run_jobs(prog, rep, tier, jobs)


def main_run(prog, rep, tier):
    """solve_main for each kind of call: with and without a regulariser, first run and restarted run"""
    run_jobs(prog, rep, tier, [('main', h, old) for h in (True, False) for old in (False, True)])
