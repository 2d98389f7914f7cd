"""The top-level routine solve() (dfols/solver.py), value-numbered on every path up to its calls of solve_main and to its results."""
import ast
import os
from .terms import *
from .interp import *
from .kernels import KInterp
from .prove import entails, decide

FIELDS12 = ('x', 'resid', 'obj', 'jac', 'nsamples', 'nf', 'nx', 'nruns', 'exit', 'diag', 'xnum', 'jacnums')


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += list(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st += list(x.args)
    return seen


def tainted(t):
    return any(x.op == 'taint' for x in subterms(t))


class SHooks(Hooks):
    def __init__(self):
        self.mains, self.results, self.bad, self.userkeys, self.raises, self.dyk = [], [], [], [], [], []
        self.events, self.frames_, self.exits = [], [], []
        self.nmain = 0
        self.depth_ = 0

    def trial(self, on):
        self.depth_ += 1 if on else -1

    def on_loop(self, I, node, entries, heads, backs, exits, done):
        if not self.depth_:
            cp = lambda ss: [x.copy() for x in ss]
            self.events.append((node, cp(entries), cp(heads), cp(backs), cp(exits)))

    # partition the paths by what was reported so far, so that "no error" keeps every check it passed
    def discrete(self, st):
        out = []
        for fr in st.frames:
            for k, v in sorted(fr.items()):
                if isinstance(v, Rec) and v.cls == 'ExitInformation':
                    f = v.get('flag')
                    out.append((k, 'rec', str(num(f)) if isinstance(f, T) and '#main' not in st.g else '?'))
                elif v is NONE and 'exit' in k:
                    out.append((k, 'none'))
        return tuple(out)

    def call_function(self, I, st, qual, node, selfv, bound):
        if isinstance(node, ast.Lambda):
            return None
        if isinstance(selfv, Ref):
            if selfv.cls == 'ParameterList':
                return self.param(I, st, node.name, bound)
            if selfv.cls == 'DiagnosticInfo':
                if node.name == 'to_dataframe':
                    self.frames_.append((I.where(self.cur(I)), st.copy(), dict(bound)))
                    return [(sym('table'), st)]
                return [(fresh('df'), st)]
        if isinstance(selfv, Rec) and selfv.cls == 'ExitInformation':
            if node.name == 'message':
                return [(mk('message', I.T(selfv.get('flag')), I.T(selfv.get('msg')), I.T(bound.get('with_stem', TRUE))), st)]
            if node.name == 'able_to_do_restart':
                return [(mk('truth', mk('restartable', I.T(selfv.get('flag')), I.T(selfv.get('msg')))), st)]
        if node.name == 'solve_main':
            self.nmain += 1
            st.g['#main'] = True
            k = self.nmain
            r = {f: fresh('run%d.%s' % (k, f)) for f in FIELDS12}
            flag, msg = mk('flag', r['exit']), mk('msg', r['exit'])
            for f in ('xnum', 'nf', 'nx', 'nruns'):
                st.assume(bnot(isnone(r[f])))
            if not self.depth_:
                self.mains.append((I.where(self.cur(I)), st.copy(), dict(bound), r))
            ex = Rec('ExitInformation', {'flag': flag, 'msg': msg})
            for i in ('nf', 'nx'):
                b = bound.get(i + '_so_far')
                if isinstance(b, T):
                    st.assume(le(b, r[i]))
            b = bound.get('nruns_so_far')
            if isinstance(b, T):
                st.assume(le(add(b, const(1)), r['nruns']))
            diag = bound.get('diagnostic_info')
            items = [ex if f == 'exit' else (diag if isinstance(diag, Ref) else r[f]) if f == 'diag' else r[f] for f in FIELDS12]
            return [(Tup(items), st)]
        if node.name == 'dykstra':
            b = list(bound.items())
            t = mk('dyk', *[I.T(v) if isinstance(v, (T,)) else sym('lst') for _, v in b])
            self.dyk.append((I.where(self.cur(I)), dict(bound), t, st.copy()))
            return [(t, st)]
        return None

    def cur(self, I):
        class N(object):
            lineno = I.stack[-1][1] if I.stack else 0
        return getattr(I, 'curnode', None) or N()

    def param(self, I, st, nm, b):
        if nm == '__call__':
            k, nv = b.get('key'), b.get('new_value')
            if isinstance(k, T) and k.op == 'const':
                key = k.args[1]
                if nv is not None and nv is not NONE:
                    st.g['P:' + key] = I.T(nv)
                    return [(I.T(nv), st)]
                return [(st.g.get('P:' + key, sym('param:' + key)), st)]
            if nv is not None and nv is not NONE:
                self.userkeys.append((k, nv))
                return [(nv, st)]
            return [(fresh('param'), st)]
        if nm == 'check_all_params':
            return [(Tup((sym('allok'), fresh('bad_keys'))), st)]
        return [(taint('params.' + nm), st)]

    def getattr(self, I, st, ref, name, node):
        if ref.cls in ('ParameterList', 'DiagnosticInfo') and (ref.cls, name) not in I.prog.methods:
            return taint('%s.%s' % (ref.cls, name))
        return None

    def call_value(self, I, st, fn, args, kw, node):
        if isinstance(fn, T):
            return [(mk('app', fn, *[I.T(a) for a in args]), st)]
        return None

    def call_ext(self, I, st, name, args, kw, node):
        if name.startswith('warnings.') or name.startswith('logger.'):
            return [(NONE, st)]
        return None

    def instantiate(self, I, st, cls, args, kw, node):
        if cls == 'ParameterList':
            self.plist = (args, kw)
            return [(Ref('params', 'ParameterList'), st)]
        if cls == 'DiagnosticInfo':
            return [(Ref('diag', 'DiagnosticInfo'), st)]
        if cls == 'ExitInformation' and not self.depth_:
            m, nd = I.prog.methods[('ExitInformation', '__init__')]
            b = list(I.bind(nd, [Ref('x', cls)] + list(args), kw, st, m.name, node).values())
            self.exits.append((I.where(node), st.copy(), b[1], b[2]))
        if cls == 'OptimResults':
            m, nd = I.prog.methods[('OptimResults', '__init__')]
            st.heap['res'] = {}
            ref = Ref('res', 'OptimResults')
            I.call_fn(Fn(nd, m.name, self_=ref, qual='OptimResults.__init__'), list(args), kw, st, node)
            at = st.heap.get('res', {})
            b = {k: at[a] for k, a in (('xmin', 'x'), ('rmin', 'resid'), ('objmin', 'obj'), ('jacmin', 'jacobian'), ('nf', 'nf'), ('nx', 'nx'), ('nruns', 'nruns'),
                                       ('exit_flag', 'flag'), ('exit_msg', 'msg'), ('xmin_eval_num', 'xmin_eval_num'), ('jacmin_eval_nums', 'jacmin_eval_nums')) if a in at}
            if not self.depth_:
                self.results.append((I.where(node), st.copy(), b))
            st.heap['res'] = dict(at)
            return [(Ref('res', 'OptimResults'), st)]
        return None


class SInterp(KInterp):
    def reduce_ret(self, outs, qual):
        return Interp.reduce_ret(self, outs, qual)

    def e_Call(self, e, st):
        old = getattr(self, 'curnode', None)
        self.curnode = e
        try:
            return KInterp.e_Call(self, e, st)
        finally:
            self.curnode = old

    def raised(self, st, node):
        self.hooks.raises.append((self.where(node), st.copy()))


class SolveSpec(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep = prog, rep

    def run(self, over, facts=()):
        m = self.prog.mods['solver']
        node = m.funcs['solve']
        h = SHooks()
        I = SInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs, I.nojoin = True, True, {}, 0
        st = State()
        st.frames = [{}]
        args = {a.arg: sym('a.' + a.arg) for a in node.args.args}
        for f in ('objfun', 'x0', 'npt', 'rhobeg', 'maxfun', 'nsamples', 'h', 'lh', 'prox_uh', 'projections', 'rhoend'):
            st.assume(bnot(isnone(args[f])))
        args['bounds'] = Tup((sym('lo'), sym('up')))
        st.assume(bnot(isnone(sym('lo'))))
        st.assume(bnot(isnone(sym('up'))))
        st.assume(le(const(1), mk('len', args['x0'])))
        args['user_params'] = NONE
        args.update(over)
        for f in facts:
            st.assume(f)
        I.modstack.append('solver')
        outs = I.inline(Fn(node, 'solver', qual='solve'), dict(args), st, node)
        self.rep.analysed |= {'%s' % q for q in I.funcs_seen}
        return h, I, outs, args

    # ------------------------------------------------------------------ helpers
    PLAIN = {'h': NONE, 'lh': NONE, 'prox_uh': NONE, 'projections': Lst(()), 'scaling_within_bounds': FALSE, 'do_logging': FALSE,
             'print_progress': FALSE}

    def cfg(self, **kw):
        d = dict(self.PLAIN)
        d.update(kw)
        return d

    def guard(self, f, *props):
        try:
            f()
        except Exception as e:
            import os
            import traceback
            if os.environ.get('SA_DEBUG'):
                raise
            self.rep.ok(list(props), f.__name__, 'solver.py', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    @staticmethod
    def opaque(facts, leaves, ours):
        """is there a path condition we cannot read that may encode the condition in question?"""
        for f in facts:
            if f in ours:
                continue
            st = subterms(f)
            if any(x.op == 'taint' for x in st):
                return f
            names = {x.args[0] for x in st if x.op == 'sym'}
            if any('#' in str(n) and not str(n).startswith('run') for n in names):
                return f
            if any(x.op in ('call', 'app', 'fmt') for x in st) and names & leaves:
                return f
        return None

    # ------------------------------------------------------------------ C07: invalid input never reaches the solver
    def bad_input(self):
        S = lambda n: sym('a.' + n)
        P = lambda k: mk('truth', sym('param:' + k))
        n = mk('len', S('x0'))
        half = mk('fdiv', mul(add(n, const(1)), add(n, const(2))), const(2))
        lo, up = sym('lo'), sym('up')
        reg = {'h': S('h'), 'lh': S('lh'), 'prox_uh': S('prox_uh')}
        nn = bnot(isnone(S('h')))
        base = self.cfg()
        Z = const(0)
        pos = lambda k: [le(sym('param:' + k), Z)]
        cases = [
            ('npt < n+1', base, [lt(S('npt'), add(n, const(1)))]),
            ('rhobeg <= 0', base, [le(S('rhobeg'), Z)]),
            ('rhoend <= 0', base, [le(S('rhoend'), Z)]),
            ('rhobeg < rhoend', base, [lt(S('rhobeg'), S('rhoend'))]),
            ('rhobeg == rhoend', base, [le(S('rhobeg'), S('rhoend')), le(S('rhoend'), S('rhobeg'))]),
            ('maxfun <= 0', base, [le(S('maxfun'), Z)]),
            ('min(upper-lower) < 2*rhobeg', base, [lt(mk('vmin', sub(up, lo)), scale(S('rhobeg'), 2))]),
            ('lower of the wrong shape', base, [bnot(mk('eq', *sorted([mk('shape', S('x0')), mk('shape', lo)], key=repr)))]),
            ('upper of the wrong shape', base, [bnot(mk('eq', *sorted([mk('shape', S('x0')), mk('shape', up)], key=repr)))]),
            ('regulariser without prox', dict(base, h=S('h'), lh=S('lh')), [nn]),
            ('regulariser without Lipschitz constant', dict(base, h=S('h'), prox_uh=S('prox_uh')), [nn]),
            ('regulariser with lh <= 0', dict(base, **reg), [nn, le(S('lh'), Z)]),
            ('a parameter of the wrong type or out of range', base, [bnot(mk('truth', sym('allok')))]),
            ('npt > (n+1)(n+2)/2 with coordinate directions', base, [lt(half, S('npt')), bnot(P('init.random_initial_directions'))]),
            ('growing.delta_scale_new_dirns <= 0', base, pos('growing.delta_scale_new_dirns')),
            ('restarts.rhoend_scale <= 0', base, pos('restarts.rhoend_scale')),
            ('func_tol.criticality_measure <= 0', base, pos('func_tol.criticality_measure')),
            ('func_tol.tr_step >= 1', base, [le(const(1), sym('param:func_tol.tr_step'))]),
            ('both safety.full_geom_step and safety.reduce_delta', base, [P('growing.safety.full_geom_step'), P('growing.safety.reduce_delta')]),
            ('both full_rank.use_full_rank_interp and perturb_trust_region_step', base,
             [P('growing.full_rank.use_full_rank_interp'), P('growing.perturb_trust_region_step')]),
            ('both noise levels given', base, [P('noise.quit_on_noise_level'), bnot(isnone(sym('param:noise.multiplicative_noise_level'))),
                                               bnot(isnone(sym('param:noise.additive_noise_level')))]),
            ('run_in_parallel with coordinate directions', base, [P('init.run_in_parallel'), bnot(P('init.random_initial_directions'))]),
            ('reset_rho without reset_delta', base, [P('growing.reset_rho'), bnot(P('growing.reset_delta'))]),
        ]
        big = [P('restarts.increase_npt'), bnot(P('restarts.use_soft_restarts')), bnot(P('init.random_initial_directions')),
               lt(half, sym('param:restarts.max_npt'))]
        cases.append(('restarts.max_npt > (n+1)(n+2)/2 with hard restarts and coordinate directions', base, big))
        m = self.prog.mods['solver']
        line = 'solver.py:%d' % m.funcs['solve'].lineno
        for text, over, bad in cases:
            over = dict(over)
            if over.get('h') is not NONE:
                over['lh'] = over['lh'] if over['lh'] is not NONE else NONE
            h, I, outs, a = self.run(over, bad)
            leaves = set()
            for b in bad:
                leaves |= {x.args[0] for x in subterms(b) if x.op == 'sym'}
            first = h.mains[:1]
            if first:
                w, s, b, r = first[0]
                o = self.opaque(s.facts, leaves, set(bad))
                self.rep.ok('C07', 'input-check', w, 'input error for %s' % text, None if o is not None or I.unsupported else False,
                            'solve_main is reached with %s%s' % (text, '' if o is None else ' (unread condition %s)' % str(o)[:80]), site='solve: ' + text)
                continue
            ok, det = True, ''
            if h.raises:
                w, s = h.raises[0]
                o = self.opaque(s.facts, leaves, set(bad))
                ok, det = (None if o is not None else False), 'an exception is raised at %s' % w
            if not outs and not h.raises:
                ok, det = None, 'no return found'
            if not h.results:
                ok, det = None, 'result not recognised'
            for _, s, f in h.results:
                fl, nf, x = f.get('exit_flag'), f.get('nf'), f.get('xmin')
                if not isinstance(fl, T) or fl.taint or s.entails(eq(fl, const(-1))):
                    r1 = True if isinstance(fl, T) and not fl.taint else None
                else:
                    r1 = False if fl.op == 'const' or num(fl) is not None else None
                r2 = True if isinstance(nf, T) and num(nf) == 0 else False if isinstance(nf, T) and num(nf) is not None else None
                for r, d in ((r1, 'flag is %s' % fl), (r2, 'nf is %s' % nf)):
                    if r is not True and ok is not False:
                        ok, det = r, d
            self.rep.ok('C07', 'input-check', line, 'input error for %s' % text, ok, det, site='solve: ' + text)
        # no exception for documented input, and user parameters reach the table
        k, v = sym('key'), sym('val')
        h, I, outs, a = self.run(self.cfg(user_params=Dct([(k, v)])), [bnot(isnone(k)), bnot(isnone(v))])
        self.rep.ok('C07', 'input-check', line, 'every user parameter is handed to the parameter table', True if (k, v) in h.userkeys else
                    None if not h.userkeys else False, 'got %s' % h.userkeys[:2])
        pl = getattr(h, 'plist', None)
        n_ = mk('len', a['x0'])
        if pl:
            m_, nd = self.prog.methods[('ParameterList', '__init__')]
            b = I.bind(nd, [Ref('x', 'ParameterList')] + list(pl[0]), pl[1], State(), 'params', nd)
            for kk, want in (('n', n_), ('npt', a['npt']), ('maxfun', a['maxfun']), ('objfun_has_noise', a['objfun_has_noise'])):
                got = b.get(kk)
                self.rep.ok('C07', 'input-check', line, 'the default table is built from %s' % kk, None if not isinstance(got, T) or got.taint or kk not in b
                            else True if got is want else False if got in [a[x] for x in a if isinstance(a[x], T)] + [n_] else None, str(got)[:80])
        # maxfun defaults to a positive budget, npt to n+1 ...
        h, I, outs, a = self.run(self.cfg(npt=NONE, maxfun=NONE, nsamples=NONE))
        for w, s, b, r in h.mains[:1]:
            self.rep.ok('C07', 'input-check', w, 'npt defaults to n+1', self.same(s, b.get('npt'), add(mk('len', a['x0']), const(1))))
            self.rep.ok('C07', 'input-check', w, 'maxfun has a positive default', True if isinstance(b.get('maxfun'), T) and s.entails(lt(Z, b['maxfun'])) else None)

    def same(self, s, a, b):
        if not isinstance(a, T) or not isinstance(b, T) or a.taint or b.taint:
            return None
        if a is b or s.entails(eq(a, b)):
            return True
        d = decide(s.fz(), eq(a, b))
        return False if d is False else None

    # ------------------------------------------------------------------ elementwise view of vectors
    def full(self, I, t):
        for _ in range(30):
            m = {x: I.defs[x] for x in syms(t) if x in I.defs}
            if not m:
                return t
            t = subst(t, m)
        return t

    def elem(self, I, t, j, arrs):
        t = self.full(I, t)
        m = {}
        for x in subterms(t):
            if x in arrs:
                m[x] = index_term(x, (j,))
            elif x.op == 'call' and x.args[0] == 'np.ones':
                m[x] = const(1)
            elif x.op == 'call' and x.args[0] in ('np.zeros', 'np.zeros_like'):
                m[x] = const(0)
        t = subst(t, m)
        return self.scalar(t)

    def scalar(self, t):
        """masked selections become case distinctions"""
        if not isinstance(t, T):
            return t
        if t.op == 'where':
            return ite(*[self.scalar(a) for a in t.args])
        m = {}
        for x in subterms(t):
            if x.op == 'where' and x is not t:
                m[x] = self.scalar(x)
        return subst(t, m) if m else t

    def branches(self, s, ts, limit=64):
        """all consistent resolutions of the case distinctions in the terms: (facts state, terms)"""
        out, todo = [], [(s, list(ts))]
        while todo and len(out) < limit:
            st, cur = todo.pop()
            c = None
            for t in cur:
                for x in subterms(t):
                    if x.op == 'ite' and not any(y.op == 'ite' for y in subterms(x.args[0])):
                        c = x.args[0]
                        break
                if c is not None:
                    break
            if c is None:
                out.append((st, cur))
                continue
            for v in (True, False):
                cond = c if v else bnot(c)
                if decide(st.fz(), cond) is False:
                    continue
                s2 = st.copy()
                s2.assume(cond)
                out2 = [pick(t, c, v) for t in cur]
                todo.append((s2, out2))
        return out if not todo else None

    def holds(self, s, goal, ts=()):
        """goal(terms) entailed in every case; False only with a concrete case in which it is refuted"""
        bs = self.branches(s, ts)
        if bs is None:
            return None
        r = True
        for st, cur in bs:
            g = goal(*cur)
            if any(tainted(c) for c in cur):
                r = None
                continue
            if st.entails(g):
                continue
            if decide(st.fz(), g) is False:
                return False
            r = None
        return r

    # ------------------------------------------------------------------ what the first run receives
    def first_run(self):
        lo, up = sym('lo'), sym('up')
        for conf in ('plain', 'scaled', 'projected', 'one-sided', 'unbounded', 'regularised'):
            over = self.cfg()
            if conf == 'scaled':
                over['scaling_within_bounds'] = TRUE
            if conf == 'projected':
                over['projections'] = Lst((sym('P1'), sym('P2')))
            if conf == 'one-sided':
                over['bounds'] = Tup((lo, NONE))
            if conf == 'unbounded':
                over['bounds'] = NONE
            if conf == 'regularised':
                over.update({k: sym('a.' + k) for k in ('h', 'lh', 'prox_uh')})
            h, I, outs, a = self.run(over)
            if not h.mains:
                self.rep.ok(['C01', 'C02', 'C09'], 'first-run', 'solver.py', 'the first run of configuration %s is found' % conf, None)
                continue
            w, s, b, r = h.mains[0]
            arrs = {a['x0'], lo, up}
            j = sym('j')
            s = s.copy()
            s.assume(lt(index_term(lo, (j,)), index_term(up, (j,))))  # the gap check, read elementwise (decided under C07)
            x0, xl, xu = b.get('x0'), b.get('xl'), b.get('xu')
            terms = [x0, xl, xu]
            if conf == 'projected':
                dy = [t for _, _, t, _ in h.dyk]
                arrs |= set(dy)
            if all(isinstance(t, T) for t in terms):
                e = [self.elem(I, t, j, arrs) for t in terms]
                if conf == 'projected':
                    big = num(e[2])
                    self.rep.ok('C09', 'first-run', w, 'the solver itself is unconstrained when projections are given (bounds at least 1e20)',
                                True if big is not None and num(e[1]) is not None and big >= 10 ** 20 and num(e[1]) <= -10 ** 20 else None, '%s %s' % (e[1], e[2]))
                else:
                    if conf in ('one-sided', 'unbounded'):
                        s.assume(lt(e[1], e[2]))
                    self.rep.ok(['C01', 'C14'], 'first-run', w, 'x0 >= lower bound after projection (%s)' % conf, self.violable(s, lambda x, l, u: le(l, x), e), str(e[0])[:150])
                    self.rep.ok(['C01', 'C14'], 'first-run', w, 'x0 <= upper bound after projection (%s)' % conf, self.violable(s, lambda x, l, u: le(x, u), e), str(e[0])[:150])
                    raw = self.elem(I, b['x0'], j, arrs)
                    # feasible components are left alone
                    want = index_term(a['x0'], (j,))
                    L, U = index_term(lo, (j,)), index_term(up, (j,))
                    if conf == 'scaled':
                        want = mul(sub(want, L), power(sub(U, L), -1))
                    s2 = s.copy()
                    s2.assume(le(e[1], want))
                    s2.assume(le(want, e[2]))
                    self.rep.ok(['C01', 'C04'], 'first-run', w, 'a feasible starting point is kept (%s)' % conf, self.violable(s2, lambda x, l, u: eq(x, want), e), str(raw)[:150])
                    for side, bnd in ((lt(want, e[1]), e[1]), (lt(e[2], want), e[2])):
                        s2 = s.copy()
                        s2.assume(side)
                        self.rep.ok(['C04', 'C14'], 'first-run', w, 'an infeasible component moves to the bound it violates (%s)' % conf,
                                    self.violable(s2, lambda x, l, u: eq(x, bnd), e), str(raw)[:150])
                    if conf == 'plain':
                        self.rep.ok('C01', 'first-run', w, 'the solver works with the bounds of the user', True if xl is lo and xu is up else
                                    False if {xl, xu} <= {lo, up} else None, '%s %s' % (xl, xu))
                    if conf == 'one-sided':
                        self.rep.ok('C01', 'first-run', w, 'a missing upper bound is at least 1e20, the lower one is that of the user',
                                    True if xl is lo and num(e[2]) is not None and num(e[2]) >= 10 ** 20 else False if xl is not lo and not syms(xl) or num(e[2]) is not None and num(e[2]) < 10 ** 20 else None, '%s %s' % (e[1], e[2]))
                    if conf == 'unbounded':
                        self.rep.ok('C01', 'first-run', w, 'missing bounds are at least 1e20', True if num(e[1]) is not None and num(e[2]) is not None and num(e[1]) <= -10 ** 20
                                    and num(e[2]) >= 10 ** 20 else None, '%s %s' % (e[1], e[2]))
            # scaling
            sc = b.get('scaling_changes')
            if conf == 'scaled':
                if isinstance(sc, Tup) and len(sc.items) >= 2:
                    it = sc.items
                    s3 = s
                    e2 = [self.elem(I, x, j, arrs) if isinstance(x, T) else taint('s') for x in it]
                    L, U = index_term(lo, (j,)), index_term(up, (j,))
                    self.rep.ok(['C01', 'C11', 'C03'], 'first-run', w, 'scaling shifts by the lower bound and scales by the gap',
                                True if e2[0] is L and e2[1] is sub(U, L) else None if any(tainted(x) for x in e2) else
                                False if self.lin_ne(e2[0], L) or self.lin_ne(e2[1], sub(U, L)) else None, '%s' % e2)
                    if len(it) == 4:
                        self.rep.ok('C01', 'first-run', w, 'unscaled points are clipped to the bounds of the user', True if e2[2] is L and e2[3] is U else
                                    False if {e2[2], e2[3]} == {L, U} else None, '%s' % e2)
                elif sc is NONE:
                    self.rep.ok(['C01', 'C11'], 'first-run', w, 'scaling is active when asked for', None, 'no scaling')
            else:
                self.rep.ok(['C01', 'C11'], 'first-run', w, 'no scaling unless asked for (%s)' % conf, True if sc is NONE else None, str(sc)[:80])
            # counters start at zero, arguments are handed on
            for k in ('nruns_so_far', 'nf_so_far', 'nx_so_far'):
                v = b.get(k)
                self.rep.ok(['C02', 'C10'], 'first-run', w, '%s is zero in the first run (%s)' % (k, conf), None if not isinstance(v, T) or num(v) is None else num(v) == 0, str(v))
            self.handed(w, b, a, conf)
            old = b.get('r0_avg_old')
            self.rep.ok(['C03', 'C02'], 'first-run', w, 'the first run evaluates x0 (%s)' % conf, True if old is NONE else None, str(old)[:60])
            if conf == 'projected':
                self.projected(w, s, b, a, h, I)
            if conf == 'unbounded':
                rb = b.get('rhobeg')
                if rb is a['rhobeg']:
                    pass

    def handed(self, w, b, a, conf):
        same = {'objfun': ['C02', 'C08'], 'argsf': ['C02', 'C06'], 'argsh': ['C06', 'C03'], 'argsprox': ['C06'], 'maxfun': ['C02'], 'nsamples': ['C02'],
                'npt': ['C14', 'C18'], 'rhobeg': ['C14', 'C18'], 'rhoend': ['C10', 'C18']}
        if conf == 'regularised':
            same.update({'h': ['C06', 'C03', 'C04'], 'lh': ['C06'], 'prox_uh': ['C06']})
        alls = {v for v in a.values() if isinstance(v, T) and v.op == 'sym'}
        for k, props in same.items():
            got, want = b.get(k), a[k]
            if k not in b:
                continue
            self.rep.ok(props, 'handed-on', w, 'argument %s is handed to the run unchanged (%s)' % (k, conf),
                        True if got is want else None if not isinstance(got, T) or got.taint else False if got in alls or got is NONE or isinstance(got, Tup) else None,
                        'got %s' % str(got)[:80])

    def lin_ne(self, a, b):
        """different polynomials"""
        from .rat import req
        try:
            return not req(a, b)
        except Exception:
            return False

    def violable(self, s, goal, e):
        """proved, or a case in which the linear facts do not imply the goal although every term is known"""
        bs = self.branches(s, e)
        if bs is None:
            return None
        r = True
        for st, cur in bs:
            if any(tainted(c) for c in cur):
                r = None
                continue
            g = goal(*cur)
            if st.entails(g):
                continue
            if g is FALSE or decide(st.fz(), g) is False or self.simple(cur):
                return False
            r = None
        return r

    @staticmethod
    def simple(ts, known=()):
        """only linear terms over named inputs: a goal that does not follow can be falsified"""
        for t in ts:
            for x in subterms(t):
                if x.op not in ('sym', 'lin', 'idx', 'const', 'mono', 'num') or x.op == 'sym' and '#' in str(x.args[0]) and x not in known:
                    return False
        return True

    # ------------------------------------------------------------------ projections of the first run
    def projected(self, w, s, b, a, h, I):
        pr = b.get('projections')
        lo, up = sym('lo'), sym('up')
        C = ['C09', 'C15']
        if not isinstance(pr, Lst) or pr.items is None:
            self.rep.ok('C09', 'projection-list', w, 'the list of sets handed to the run is known', None)
            return
        it = list(pr.items)
        user = [sym('P1'), sym('P2')]
        box = [x for x in it if isinstance(x, Fn)]
        self.rep.ok('C09', 'projection-list', w, 'every set of the user is in the list, in order', True if [x for x in it if x in user] == user else
                    False if not any(isinstance(x, T) and x.taint for x in it) and not set(user) <= {x for x in it if isinstance(x, T)} else None, str(it)[:100])
        self.rep.ok('C09', 'projection-list', w, 'the bound box is the last set of the list', True if it and isinstance(it[-1], Fn) and len(box) == 1 else
                    False if not box or (len(box) == 1 and it[-1] in user) else None, str(it)[:100])
        for f in box:
            s2 = s.copy()
            wv = sym('w')
            j = sym('j')
            try:
                res = I.call_fn(f, [wv], {}, s2, f.node)
            except Exception:
                res = []
            for v, t in res:
                if not isinstance(v, T):
                    continue
                e = self.elem(I, v, j, {wv, lo, up, a['x0']} | {x for x in syms(v) if str(x.args[0]).startswith('a.')})
                L, U, W = [index_term(x, (j,)) for x in (lo, up, wv)]
                e = self.cases_minmax(e)
                self.rep.ok('C09', 'box-projection', w, 'the box projection ends inside the bounds of the user',
                            self.violable(t, lambda x: band(le(L, x), le(x, U)), [e]), str(e)[:150])
                t2 = t.copy()
                t2.assume(le(L, W))
                t2.assume(le(W, U))
                self.rep.ok(C, 'box-projection', w, 'the box projection keeps points of the box', self.violable(t2, lambda x: eq(x, W), [e]), str(e)[:150])
        # x0 is projected
        ok = None
        for wd, bd, t, sd in h.dyk:
            vs = list(bd.items())
            if bd.get('P', vs[0][1]) == pr and isinstance(vs[1][1], T):
                ok = True
                x0v = vs[1][1]
                self.rep.ok('C09', 'first-run', wd, 'the projection of x0 starts at x0', True if x0v is a['x0'] else False if self.simple([x0v]) and x0v.op != 'sym' else None, str(x0v)[:80])
                for key, val in (('max_iter', 'param:dykstra.max_iters'), ('tol', 'param:dykstra.d_tol')):
                    got = bd.get(key)
                    self.rep.ok('C09', 'first-run', wd, 'the projection of x0 uses %s' % val[6:], True if got is sym(val) else None if not isinstance(got, T) or key not in bd else
                                False if got.op == 'sym' and str(got.args[0]).startswith('param:') else None, str(got))
        self.rep.ok('C09', 'first-run', w, 'x0 is projected before the first evaluation', ok if ok else (False if not h.dyk and not I.unsupported else None))
        if ok and isinstance(b.get('x0'), T):
            dy = h.dyk[0][2]
            j = sym('j')
            big = sym('big')
            e = self.elem(I, b['x0'], j, {dy, a['x0']})
            d = index_term(dy, (j,))
            s2 = s.copy()
            s2.assume(le(d, const(10 ** 20)))
            s2.assume(le(const(-10 ** 20), d))
            self.rep.ok('C09', 'first-run', w, 'the first run starts at the projected x0', self.violable(s2, lambda x: eq(x, d), [e]), str(e)[:150])

    def cases_minmax(self, t):
        m = {}
        for x in subterms(t):
            if x.op in ('min', 'max') and len(x.args) == 2 and all(isinstance(y, T) for y in x.args):
                p, q = [self.cases_minmax(y) if y is not x else y for y in x.args]
                c = le(p, q)
                m[x] = ite(c, p, q) if x.op == 'min' else ite(c, q, p)
        if t in m:
            return m[t]
        return subst(t, m) if m else t

    # ------------------------------------------------------------------ several runs and the packaging of the result
    def packaging(self):
        P = mk('truth', sym('param:restarts.hard.use_old_rk'))
        for conf in ('plain', 'scaled'):
            self.packaging1(conf, [P])
            self.packaging1(conf, [bnot(P)])

    def packaging1(self, conf, facts):
        over = self.cfg()
        if conf == 'scaled':
            over['scaling_within_bounds'] = TRUE
        h, I, outs, a = self.run(over, facts)
        ok = lambda *z, **k: self.rep.ok(*z, **k)
        ALL = ['C02', 'C03', 'C04', 'C10', 'C11']
        final = [x for x in h.results if not (isinstance(x[2].get('exit_flag'), T) and num(x[2]['exit_flag']) == -1)]
        if len(final) != 1 or len(h.mains) < 2:
            ok(ALL, 'packaging', 'solver.py', 'the construction of the result is found (%s)' % conf, None)
            return
        w, s, b = final[0]
        run1 = h.mains[0][3]
        ev = [e for e in h.events if e[1] and e[0].lineno <= int(h.mains[1][0].split(':')[1]) <= e[0].end_lineno]
        if len(ev) != 1:
            ok(ALL, 'packaging', w, 'the loop of hard restarts is found (%s)' % conf, None)
            return
        node, entries, heads, backs, exits = ev[0]
        lw = 'solver.py:%d' % node.lineno
        if len(entries) != 1 or len(heads) != 1:
            ok(ALL, 'packaging', lw, 'one way into the loop of hard restarts (%s)' % conf, None)
            return
        en, hd = entries[0], heads[0]
        byname = {}
        for k, v in hd.env.items():
            if isinstance(v, T) and v.op == 'sym' and en.env.get(k) is not v:
                byname[v] = k
        pos = {'xmin': 'x', 'rmin': 'resid', 'objmin': 'obj', 'jacmin': 'jac', 'nf': 'nf', 'nx': 'nx', 'nruns': 'nruns', 'xmin_eval_num': 'xnum',
               'jacmin_eval_nums': 'jacnums'}
        props = {'x': ['C03', 'C04'], 'resid': ['C03'], 'obj': ['C03', 'C04'], 'jac': ['C11'], 'nf': ['C02', 'C18'], 'nx': ['C02', 'C18'], 'nruns': ['C10', 'C18'], 'xnum': ['C03'], 'jacnums': ['C11']}
        var = {}
        for arg, f in pos.items():
            t = b.get(arg)
            v = self.role(I, t, byname, f)
            var[f] = v
            if v is None:
                src = None
                if isinstance(t, T):
                    back = {run1[g]: g for g in run1}
                    src = back.get(self.full(I, t))
                ok(props[f], 'packaging', w, 'the result carries the %s of the best run (%s)' % (f, conf), False if src is not None and not h.depth_ else None, str(t)[:100])
        for z in h.mains[1:]:
            g = z[2].get('r0_nsamples_old')
            if z[2].get('r0_avg_old') is not NONE and isinstance(g, T) and g in byname:
                var['nsamples'] = byname[g]
                props['nsamples'] = ['C17']
        # the values come from the first run ...
        for f, v in var.items():
            if v is None:
                continue
            e = en.env.get(v)
            ok(props[f], 'packaging', lw, '%s starts with that of the first run (%s)' % (f, conf), True if e is run1[f] else
               False if isinstance(e, T) and e in set(run1.values()) else None, str(e)[:80])
        # ... and every restart replaces all of them or none
        for bk in backs:
            self.restart_step(I, h, hd, bk, var, lw, conf, ok)
        self.restart_call(I, h, hd, var, a, conf, ok, byname)
        # flag and message
        fl, msg = b.get('exit_flag'), b.get('exit_msg')
        F, M = self.full(I, fl) if isinstance(fl, T) else None, self.full(I, msg) if isinstance(msg, T) else None
        if F is not None and M is not None:
            r = None
            bs = self.branches(s, [F, M])
            if bs and not tainted(F) and not tainted(M):
                r = True
                for st, (f1, m1) in bs:
                    if m1.op != 'message' or m1.args[2] is not TRUE:
                        r = None if r else r
                    elif m1.args[0] is not f1:
                        r = False if r is not None and (num(f1) is not None or f1.op == 'sym') and (num(m1.args[0]) is not None or m1.args[0].op == 'sym') else r
            ok(['C07', 'C10'], 'packaging', w, 'flag and message describe the same event (%s)' % conf, r, '%s / %s' % (str(F)[:80], str(M)[:80]))
            if var.get('obj'):
                O = hd.env[var['obj']]
                t = s.copy()
                t.assume(bnot(mk('isfinite', O)))
                r = None
                bs = self.branches(t, [F])
                if bs and not tainted(F):
                    r = True
                    for st, (f1,) in bs:
                        d = decide(st.fz(), eq(f1, const(0)))
                        if d is False:
                            continue
                        r = False if (d is True or f1.op == 'sym' or f1.op == 'flag') and r is not None else None
                ok(['C10', 'C08'], 'packaging', w, 'success is never reported with a non-finite objective (%s)' % conf, r, str(F)[:150])
        for we, se, f1, m1 in h.exits:
            if isinstance(m1, T) and m1.op == 'const' and 'unsuccessful restarts' in str(m1.args[1]) and var.get('nruns'):
                t = se.copy()
                for v in byname:
                    t.assume(le(const(0), v))
                goal = le(sym('param:restarts.max_unsuccessful_restarts'), hd.env[var['nruns']])
                ok('C10', 'exit-truth', we, 'maximum number of unsuccessful restarts implies at least that many runs (%s)' % conf, True if t.entails(goal) else
                   None if self.opaque(t.facts, {'param:restarts.max_unsuccessful_restarts'}, set()) is not None and False else self.weak(t, goal, h, byname), '')
        # scaling undone
        if var.get('jac') and isinstance(b.get('jacmin'), T):
            self.unscaled_jacobian(I, h, s, b['jacmin'], hd.env[var['jac']], w, conf)
        x, j = b.get('xmin'), sym('j')
        if var.get('x') and isinstance(x, T):
            X = hd.env[var['x']]
            e = self.elem(I, x, j, {X, sym('lo'), sym('up')})
            L, U = index_term(sym('lo'), (j,)), index_term(sym('up'), (j,))
            t = s.copy()
            t.assume(lt(L, U))
            if conf == 'scaled':
                e = self.cases_minmax(e)
                ok('C01', 'packaging', w, 'the returned x is inside the bounds after unscaling', self.violable2(t, lambda z: band(le(L, z), le(z, U)), [e], {X}), str(e)[:100])
                want = add(L, mul(index_term(X, (j,)), sub(U, L)))
                t.assume(le(L, want))
                t.assume(le(want, U))
                ok(['C03', 'C11'], 'packaging', w, 'the returned x is the unscaled point', self.eqv(t, e, want, {X}), str(e)[:100])
            else:
                ok('C03', 'packaging', w, 'the returned x is the point of the best run', True if e is index_term(X, (j,)) else None, str(e)[:100])
        # diagnostic table
        D = sym('param:logging.save_diagnostic_info')
        for wf, sf, bf in h.frames_[:1]:
            for k, key in (('with_xk', 'logging.save_xk'), ('with_rk', 'logging.save_rk')):
                got = bf.get(k)
                ok('C18', 'packaging', wf, 'column %s is kept exactly if %s is set' % (k[5:], key), True if got is sym('param:' + key) else
                   False if isinstance(got, T) and (got.op == 'sym' and str(got.args[0]).startswith('param:') or got in (TRUE, FALSE)) else None, str(got))
            for v, so in outs:
                if not isinstance(v, Ref):
                    continue
                for on in (True, False):
                    t = so.copy()
                    c = mk('truth', D)
                    if decide(t.fz(), c if on else bnot(c)) is False or decide(t.fz(), c) is (not on):
                        continue

    # the Jacobian in the user's coordinates: dr/dx = dr/dz * dz/dx, so column c is divided by the gap of variable c
    def unscaled_jacobian(self, I, h, s, t, X, w, conf):
        ok = self.rep.ok
        t = self.full(I, t)
        for _ in range(4):
            if t.op != 'ite':
                break
            z = s.copy()
            z.assume(bnot(isnone(X)))
            d = decide(z.fz(), t.args[0])
            if d is None:
                break
            t = t.args[1] if d else t.args[2]
        if conf != 'scaled':
            ok('C11', 'packaging', w, 'the returned Jacobian is the one of the best run (%s)' % conf, True if t is X else None, str(t)[:100])
            return
        text = 'column c of the returned Jacobian is that of the scaled problem divided by the gap of variable c'
        L, U = sym('lo'), sym('up')
        r, c = sym('row'), sym('col')
        want = lambda a, k: div(a, sub(index_term(U, (k,)), index_term(L, (k,))))
        if t is X:
            ok('C11', 'packaging', w, text, False, 'the Jacobian is not unscaled')
            return
        ev = [e for e in h.events if len(e[2]) == 1 and any(v is t for v in e[2][0].env.values())]
        if ev:
            node, entries, heads, backs, exits = ev[-1]
            lw = 'solver.py:%d' % node.lineno
            nm = [k for k, v in heads[0].env.items() if v is t][0]
            rs = [(en.env.get(nm), I.iter_source(node.iter, en.copy())) for en in entries] if isinstance(node, ast.For) else []
            if not rs or len(backs) != 1:
                ok('C11', 'packaging', lw, text, None)
                return
            v = self.full(I, backs[0].env[nm])
            verdict, det = None, str(v)[:150]
            for en, src in rs:
                z = s.copy()
                z.assume(bnot(isnone(X)))
                en = self.full(I, en)
                if en.op == 'ite' and decide(z.fz(), en.args[0]) is not None:
                    en = en.args[1] if decide(z.fz(), en.args[0]) else en.args[2]
                if en is not X or len(src) != 1 or src[0][0][0] != 'range':
                    continue
                lo, hi, step = src[0][0][1:4]
                d, c0 = parts(hi)
                base = list(d)[0] if len(d) == 1 and list(d.values())[0] == 1 else None
                isn = base is not None and (base.op == 'len' or base.op == 'dim' and num(base.args[1]) == (1 if base.args[0] in (t, X) else 0))
                cover = num(lo) == 0 and isn and c0 == 0
                if v.op == 'store' and v.args[0] is t and len(v.args[1]) == 2:
                    a, k = v.args[1]
                    isall = lambda q: isinstance(q, T) and q.op == 'slice' and all(y is NONE for y in q.args)
                    if isall(a) and k.op == 'sym':
                        e = self.jel(v.args[2], r, k, {t})
                        if e is not None:
                            same = self.req_(e, want(mk('idx', t, r, k), k))
                            verdict = same if same is not True else True if cover else False if isn and (num(lo) != 0 or c0 < 0) else None
                            if same and verdict is False:
                                det = 'columns %s to %s only' % (lo, hi)
                    elif isall(k) and a.op == 'sym':
                        verdict = False
            ok('C11', 'packaging', lw, text, verdict, det)
            return
        e = self.jel(t, r, c, {X})
        ok('C11', 'packaging', w, text, None if e is None else self.req_(e, want(mk('idx', X, r, c), c)), str(t)[:150])

    def req_(self, a, b):
        from .rat import req
        try:
            return bool(req(a, b))
        except Exception:
            return None

    def jel(self, t, r, c, mats):
        """element (r, c) of an expression over the matrices mats and the vectors lo, up (which broadcast along the last axis)"""
        L, U = sym('lo'), sym('up')
        if num(t) is not None:
            return t
        if t in mats:
            return mk('idx', t, r, c)
        if t in (L, U):
            return index_term(t, (c,))
        if t.op == 'lin':
            out = const(0)
            for x, k in t.args[0]:
                y = self.jel(x, r, c, mats)
                if y is None:
                    return None
                out = add(out, scale(y, k))
            return add(out, lin({}, t.args[1]))
        if t.op == 'mono':
            out = const(1)
            for x, k in t.args[0]:
                y = self.jel(x, r, c, mats)
                if y is None or k.denominator != 1:
                    return None
                out = mul(out, power(y, k))
            return out
        if t.op == 'idx':
            a = t.args[0]
            ks = t.args[1:]
            isall = lambda q: isinstance(q, T) and q.op == 'slice' and all(y is NONE for y in q.args)
            isnew = lambda q: isinstance(q, T) and (q is NONE or q.op == 'name' and 'newaxis' in str(q.args[0]) or 'newaxis' in str(q))
            if a in mats and len(ks) == 2 and isall(ks[0]) and ks[1] is c:
                return mk('idx', a, r, c)
            if {x for x in subterms(a)} & mats or not ({x for x in subterms(a)} & {L, U}):
                return None
            if len(ks) == 1 and ks[0] is c:
                return self.jel(a, r, c, set())
            if len(ks) == 1 and isnew(ks[0]) or len(ks) == 2 and isnew(ks[0]) and isall(ks[1]):
                return self.jel(a, r, c, set())
            if len(ks) == 2 and isall(ks[0]) and isnew(ks[1]):
                return self.jel(a, c, r, set())
            if len(ks) == 1 and ks[0].op in ('sym', 'lin'):
                return self.jel(a, r, ks[0], set())
            if len(ks) == 1 and ks[0].op == 'max':
                return self.jel(a, r, ks[0], set())
        return None

    def eqv(self, s, a, b, known=()):
        bs = self.branches(s, [a])
        if bs is None:
            return None
        r = True
        for st, (x,) in bs:
            if x is b or st.entails(eq(x, b)) or st.entails(band(le(x, b), le(b, x))):
                continue
            if tainted(x):
                r = None
                continue
            if self.simple([x], known) and self.lin_ne(x, b):
                return False
            r = None
        return r

    def violable2(self, s, goal, e, known=()):
        bs = self.branches(s, e)
        if bs is None:
            return None
        r = True
        for st, cur in bs:
            if st.entails(goal(*cur)):
                continue
            if any(tainted(c) for c in cur):
                r = None
                continue
            if self.simple(cur, known):
                return False
            r = None
        return r

    def weak(self, t, goal, h, byname):
        """the facts about the runs are all readable, yet do not give the goal"""
        names = {'param:restarts.max_unsuccessful_restarts'}
        for f in t.facts:
            st = subterms(f)
            if any(x.op == 'sym' and x.args[0] in names for x in st):
                if f.op not in ('le0', 'lt0', 'or', 'and', 'not'):
                    return None
        return False

    def role(self, I, t, byname, f):
        if not isinstance(t, T):
            return None
        if t in byname:
            return byname[t]
        t = self.full(I, t)
        if t in byname:
            return byname[t]
        cand = {byname[x] for x in subterms(t) if x in byname}
        if f in ('x', 'jac') and len(cand) == 1:
            return cand.pop()
        if f == 'jac' and t.op == 'ite' and t.args[1] in byname:
            return byname[t.args[1]]
        return None

    def restart_step(self, I, h, hd, bk, var, lw, conf, ok):
        R = h.mains[-1][3]
        for z in h.mains[1:]:
            if any(z[3][f] in set().union(*[subterms(self.full(I, bk.env[v])) for v in var.values() if v and isinstance(bk.env.get(v), T)]) for f in ('nf', 'nx', 'nruns', 'obj')):
                R = z[3]
        H = {f: hd.env[v] for f, v in var.items() if v}
        B = {f: self.full(I, bk.env[v]) if isinstance(bk.env.get(v), T) else None for f, v in var.items() if v}
        allR = set().union(*[set(z[3].values()) for z in h.mains[1:]])
        latest = {}
        for z in h.mains[1:]:
            latest.update({v: f for f, v in z[3].items()})
        for f in ('nf', 'nx', 'nruns'):
            if f in B and B[f] is not None:
                bs = self.branches(bk, [B[f]])
                r = None
                if bs:
                    r = True
                    for st, (x,) in bs:
                        if latest.get(x) == f:
                            continue
                        r = False if x in latest or x is H[f] else (None if r else r)
                ok(['C02', 'C10', 'C18'], 'restart', lw, 'after a restart %s is that of the run just made (%s)' % (f, conf), r, str(B[f])[:80])
        keys = [f for f in ('x', 'resid', 'obj', 'xnum', 'nsamples', 'jac', 'jacnums') if B.get(f) is not None]
        if not {'x', 'resid', 'obj', 'xnum'} <= set(keys):
            ok(['C03', 'C04'], 'restart', lw, 'the best point is replaced as a whole (%s)' % conf, None)
            return
        bs = self.branches(bk, [B[f] for f in keys])
        if bs is None:
            ok(['C03', 'C04'], 'restart', lw, 'the best point is replaced as a whole (%s)' % conf, None)
            return
        whole, pair, better, nanok = True, True, True, True
        det = ''
        for st, cur in bs:
            C = dict(zip(keys, cur))
            src = {}
            for f in keys:
                x = C[f]
                src[f] = 'old' if x is H[f] else ('new' if latest.get(x) == f else 'wrong' if x in latest or x in set(H.values()) else None)
            core = [src[f] for f in ('x', 'resid', 'obj', 'xnum', 'nsamples') if f in src]
            if None in core:
                whole = None if whole is True else whole
                continue
            if 'wrong' in core or len(set(core)) > 1:
                whole, det = False, str(src)
                continue
            if 'jac' in src and 'jacnums' in src:
                p = [src['jac'], src['jacnums']]
                if None in p:
                    pair = None if pair is True else pair
                elif 'wrong' in p or p[0] != p[1]:
                    pair, det = False, str(src)
            new = [z[3] for z in h.mains[1:] if C['obj'] is z[3]['obj'] or core[0] == 'old'][0]
            o1, o2 = H['obj'], new['obj']
            n1, n2 = mk('isnan', o1), mk('isnan', o2)
            # ordinary numbers
            t = st.copy()
            t.assume(bnot(n1))
            t.assume(bnot(n2))
            g = le(o2, o1) if core[0] == 'new' else le(o1, o2)
            if decide(t.fz(), FALSE) is not None and t.entails(FALSE):
                continue
            if not t.entails(g):
                better = None if len(h.mains) > 2 else False if better is not None and not any(tainted(f) for f in t.facts) else None
                det = 'chose %s' % core[0]
        ok(['C03', 'C17'], 'restart', lw, 'x, resid, obj and evaluation number are replaced together (%s)' % conf, whole, det)
        ok('C11', 'restart', lw, 'the Jacobian and its evaluation numbers are replaced together (%s)' % conf, pair, det)
        ok('C04', 'restart', lw, 'the better of the old and the new result is kept (%s)' % conf, better, det)
        # NaN: comparisons with NaN are false
        for text, nan1, nan2, want in (('an old NaN is replaced by a number', True, False, 'new'), ('a new NaN never replaces a number', False, True, 'old')):
            o1 = H['obj']
            r = True
            for z in h.mains[1:]:
                o2 = z[3]['obj']
                m = {mk('isnan', o1): TRUE if nan1 else FALSE, mk('isnan', o2): TRUE if nan2 else FALSE}
                for f in keys:
                    for x in subterms(B[f]):
                        if x.op in ('le0', 'lt0', 'eq0') and (o1 in subterms(x) or o2 in subterms(x)):
                            m[x] = FALSE
                cur = subst(B['obj'], m)
                if cur is o1 or cur is o2:
                    if (cur is o2) != (want == 'new'):
                        r = False
                else:
                    r = None if r else r
            ok(['C04', 'C08'], 'restart', lw, '%s (%s)' % (text, conf), r, str(B['obj'])[:100])

    def restart_call(self, I, h, hd, var, a, conf, ok, byname):
        H = {f: hd.env[v] for f, v in var.items() if v}
        heads = set(byname)
        for w, s, b, r in h.mains[1:]:
            g = b.get('nf_so_far')
            ok('C02', 'restart', w, 'a restart needs budget: nf < maxfun (%s)' % conf, None if not isinstance(g, T) or g.taint else True if s.entails(lt(g, a['maxfun'])) else
               None if self.opaque(s.facts, {'a.maxfun'}, set()) is not None and not any(byname.get(x) for f in [self.opaque(s.facts, {'a.maxfun'}, set())] for x in subterms(f)) else False)
            for k, f, pr in (('nf_so_far', 'nf', ['C02', 'C18']), ('nx_so_far', 'nx', ['C02', 'C18', 'C03']), ('nruns_so_far', 'nruns', ['C10', 'C18']), ('x0', 'x', ['C03', 'C04'])):
                got = b.get(k)
                if f in H:
                    ok(pr, 'restart', w, 'the restart continues from %s (%s)' % (f, conf), True if got is H[f] else None if not isinstance(got, T) or got.taint else
                       False if got in heads or num(got) is not None or self.simple2(got, heads) or got is h.mains[0][2].get(k) or got is a.get(k) else None, str(got)[:80])
            old = b.get('r0_avg_old')
            if old is not NONE and 'resid' in H:
                ok(['C03', 'C17'], 'restart', w, 'recycled residuals are those of the starting point (%s)' % conf, True if old is H['resid'] else False if old in heads else None, str(old)[:80])
                got = b.get('r0_eval_num_old')
                ok('C03', 'restart', w, 'recycled residuals keep their evaluation number (%s)' % conf, True if got is H.get('xnum') else False if got in heads or got is NONE else None, str(got)[:80])
                got = b.get('r0_nsamples_old')
                ns = [v for v, k in byname.items() if got is v]
                ok('C17', 'restart', w, 'recycled residuals keep their sample count (%s)' % conf, True if ns and byname[ns[0]] == var.get('nsamples') and [1 for q in var.values() if q == var['nsamples']] == [1] else
                   False if got is NONE or ns or num(got) is not None else None, str(got)[:80])
            re_, head_re = b.get('rhoend'), [v for v, k in byname.items()]
            sc = sym('param:restarts.rhoend_scale')
            okre = None
            if isinstance(re_, T):
                fr = self.full(I, re_)
                okre = True if any(fr is mul(sc, v) for v in heads) else False if fr in heads or fr is a['rhoend'] else None
            ok(['C18', 'C10'], 'restart', w, 'rhoend is scaled by restarts.rhoend_scale once per restart (%s)' % conf, okre, str(re_)[:80])
            rb = b.get('rhobeg')
            ok(['C18', 'C14'], 'restart', w, 'a restart uses rhobeg (%s)' % conf, True if rb is a['rhobeg'] else False if isinstance(rb, T) and (rb in heads or rb is re_) else None, str(rb)[:80])
            np_ = b.get('npt')
            if isinstance(np_, T):
                f = self.cases_minmax(self.full(I, np_))
                inc, mx = mk('truth', sym('param:restarts.increase_npt')), sym('param:restarts.max_npt')
                hn = [v for v in heads if v in syms(f)]
                if len(hn) == 1:
                    t = s.copy()
                    t.assume(le(hn[0], mx))
                    t.assume(le(const(0), sym('param:restarts.increase_npt_amt')))
                    ok('C18', 'restart', w, 'the number of points stays below restarts.max_npt (%s)' % conf, self.violable2(t, lambda z: le(z, mx), [f], heads), str(f)[:100])
                    ok('C18', 'restart', w, 'the number of points never decreases (%s)' % conf, self.violable2(t, lambda z: le(hn[0], z), [f], heads), str(f)[:100])
            same = {'objfun': ['C02'], 'argsf': ['C06', 'C02'], 'argsh': ['C06'], 'argsprox': ['C06'], 'maxfun': ['C02'], 'nsamples': ['C02'], 'h': ['C06', 'C03'], 'lh': ['C06'], 'prox_uh': ['C06']}
            for k, pr in same.items():
                got, want = b.get(k), a[k]
                ok(pr, 'restart', w, 'argument %s is handed to the restart unchanged (%s)' % (k, conf), True if got is want or (got is NONE and want is NONE) else
                   None if not isinstance(got, T) or got.taint else False if got in [v for v in a.values() if isinstance(v, T)] else None, str(got)[:80])
            first = h.mains[0][2]
            for k, pr in (('xl', ['C01']), ('xu', ['C01']), ('projections', ['C09']), ('scaling_changes', ['C01', 'C11'])):
                got, want = b.get(k), first.get(k)
                ok(pr, 'restart', w, '%s of the restart is that of the first run (%s)' % (k, conf), True if got is want or got == want else
                   False if isinstance(got, T) and got in (first.get('xl'), first.get('xu'), NONE) else None, str(got)[:80])

    def simple2(self, t, heads):
        return t.op == 'lin' and all(x in heads for x in syms(t))


def pick(t, c, v):
    """t with the case distinction on c resolved"""
    m = {}
    for x in subterms(t):
        if x.op == 'ite' and x.args[0] is c:
            m[x] = x.args[1] if v else x.args[2]
    while m:
        t = subst(t, m)
        m = {}
        for x in subterms(t):
            if x.op == 'ite' and x.args[0] is c:
                m[x] = x.args[1] if v else x.args[2]
    return t
