"""Contracts of the Model class (dfols/model.py), decided on the value numbers of its current methods.

Every method is analysed on an arbitrary symbolic object, once per configuration (regulariser present or not, projections present or
not, ordering of the objective values involved including NaN).  The postconditions are the class invariants: what is stored in row k
belongs together, the objective is sum(r^2)+h at the point a user would see, the incumbent is chosen NaN-safely, bounds move with the
base point, and every change of the point set invalidates the factorisation."""
import ast
import itertools
from .terms import *
from . import terms as TT
from .interp import *
from .interp import index_term, dot, BOUND
from .prove import entails, decide
from .rat import req
from .report import Report

NANMARK = 'nan'


def attrs_of(prog, cls):
    m, node = prog.methods[(cls, '__init__')]
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
            if n.attr not in out:
                out.append(n.attr)
    return out


class MHooks(Hooks):
    """external world of the model: user's h, scaling and projection are uninterpreted"""

    def __init__(self, nan=()):
        self.nan = set(nan)       # terms that are NaN in this configuration
        self.calls = []
        self.dyk = []

    def is_nan(self, t):
        """NaN propagates through arithmetic"""
        if not isinstance(t, T):
            return False
        if t in self.nan:
            return True
        if t.op == 'store':
            return False
        if t.op in ('lin', 'mono', 'sumsq', 'abs'):
            return any(self.is_nan(s) for s in t.args if isinstance(s, T)) or any(
                self.is_nan(p[0]) for a in t.args if isinstance(a, tuple) for p in a)
        return False

    def call_function(self, I, st, qual, node, selfv, bound):
        if isinstance(node, ast.Lambda):
            return None
        if node.name == 'remove_scaling':
            vs = list(bound.values())
            return [(mk('unscale', I.T(vs[0]), I.T(vs[1])), st)]
        if node.name == 'dykstra':
            b = {k: I.T(v) for k, v in bound.items()}
            ps = [a.arg for a in node.args.args]
            t = mk('dyk', *[b.get(p, NONE) for p in ps])
            self.dyk.append((I.where(node), t))
            return [(t, st)]
        if node.name == 'sumsq':
            v = I.T(list(bound.values())[0])
            return [(mk('sumsq', v), st)]
        if qual in ('trsbox_geometry', 'trsbox', 'ctrsbox_geometry'):
            return [(mk('call', qual, *[I.T(v) for v in bound.values()]), st)]
        return None

    def call_value(self, I, st, fn, args, kw, node):
        if isinstance(fn, T):
            self.calls.append((I.where(node), fn, tuple(I.T(a) for a in args)))
            return [(mk('hv', fn, *[I.T(a) for a in args]), st)]
        return None

    def compare(self, I, st, op, a, b, node):
        if self.nan and isinstance(a, T) and isinstance(b, T) and (self.is_nan(a) or self.is_nan(b)):
            if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)):
                return FALSE
            if isinstance(op, ast.NotEq):
                return TRUE
        return None

    def call_ext(self, I, st, name, args, kw, node):
        if name in ('np.isnan', 'math.isnan') and len(args) == 1 and isinstance(args[0], T):
            if self.is_nan(args[0]):
                return [(TRUE, st)]
            if args[0] in self.finite:
                return [(FALSE, st)]
        if name in ('np.isfinite', 'math.isfinite') and len(args) == 1 and isinstance(args[0], T):
            if self.is_nan(args[0]):
                return [(FALSE, st)]
        return None

    finite = ()


_R = Interp(None, Hooks())


def read(st, arr, *key):
    if not isinstance(arr, T):
        return None
    if arr.op == 'ite':
        return ite(arr.args[0], read(st, arr.args[1], *key), read(st, arr.args[2], *key))
    return _R.read(st, arr, tuple(key))


class ModelSpec(object):
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.attrs = attrs_of(prog, 'Model')
        self.A = {a: sym('m.' + a) for a in self.attrs}
        self.A['__h'] = sym('h')

    def state(self, cfg):
        st = State()
        st.frames = [{}]
        st.heap['self'] = {a: sym('m.' + a) for a in self.attrs}
        h = st.heap['self']
        S = lambda n: h.get(n, sym('m.' + n))
        if 'h' in cfg:
            if cfg['h']:
                st.assume(bnot(isnone(S('h'))))
            else:
                h['h'] = NONE
        if 'proj' in cfg:
            if cfg['proj']:
                st.assume(mk('truth', S('projections')))
                st.assume(bnot(isnone(S('projections'))))
            else:
                st.assume(bnot(mk('truth', S('projections'))))
        st.assume(bnot(isnone(S('model_jac'))))
        for a, b in ((const(0), S('kopt')), (add(S('kopt'), const(1)), S('npt_so_far')), (S('npt_so_far'), S('num_pts')), (const(1), S('npt_so_far'))):
            st.assume(le(a, b))
        st.g['#rows'] = S('num_pts')
        return st

    def run(self, name, args, cfg, nan=(), finite=(), facts=(), cls='Model', heap=None):
        """-> [(retval, state)], interp"""
        hooks = MHooks(nan)
        hooks.finite = set(finite)
        I = Interp(self.prog, hooks)
        self.hooks = hooks
        st = self.state(cfg)
        if heap:
            st.heap['self'].update(heap)
        for f in facts:
            st.assume(f)
        m, node = self.prog.methods[(cls, name)]
        ref = Ref('self', cls)
        I.modstack.append(m.name)
        fn = Fn(node, m.name, self_=ref, qual=cls + '.' + name)
        outs = I.call(fn, args, {}, st, node)
        self.rep.analysed.add('%s.%s (%s.py:%d)' % (cls, name, m.name, node.lineno))
        for q in I.funcs_seen:
            self.rep.analysed.add(q)
        self.line = '%s.py:%d' % (m.name, node.lineno)
        self.unsup = I.unsupported
        return outs

    # -------------------------------------------------------------------------------------
    def chk(self, prop, rule, text, got, want, st=None, eqf=None):
        where = '%s' % self.line
        cfgs = self.cfgtext
        if got is None or (isinstance(got, T) and got.taint) or not isinstance(got, T):
            if isinstance(got, T) or got is None:
                return self.rep.ok(prop, rule, where, text + cfgs, None, 'value not understood: %s' % (got,))
        if isinstance(got, T) and isinstance(want, T):
            r = got is want or req(got, want)
            if not r and st is not None:
                r = st.entails(eq(got, want)) if not (is_bool(got) or got.op == 'const' or want.op == 'const') else (
                    decide(st.fz(), got) is (want is TRUE) if want in (TRUE, FALSE) and decide(st.fz(), got) is not None else False)
            if not r and got.op == 'ite' and st is not None:
                d = decide(st.fz(), got.args[0])
                if d is not None:
                    return self.chk(prop, rule, text, got.args[1] if d else got.args[2], want, st)
        else:
            r = got == want
        return self.rep.ok(prop, rule, where, text + cfgs, bool(r), '' if r else 'found %s, required %s' % (show(got)[:300], show(want)[:300]))

    def hterm(self, cfg, xterm):
        """h at the user's view of relative point xterm"""
        if not cfg.get('h'):
            return const(0)
        return mk('hv', self.A['h'], mk('unscale', xterm, self.A['scaling_changes']), mk('star', self.A['argsh']))

    def absof(self, st, x):
        """value of as_absolute_coordinates(x) in a given state (current source)"""
        I = Interp(self.prog, MHooks())
        s2 = st.copy()
        s2.frames = [{}]
        m, node = self.prog.methods[('Model', 'as_absolute_coordinates')]
        I.modstack.append(m.name)
        outs = I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.as_absolute_coordinates'), [x], {}, s2, node)
        vs = {v for v, _ in outs}
        return vs.pop() if len(vs) == 1 else None

    def configs(self, *names):
        for vals in itertools.product((False, True), repeat=len(names)):
            c = dict(zip(names, vals))
            self.cfgtext = ' [' + ', '.join('%s%s' % ('' if v else 'no ', k) for k, v in c.items()) + ']' if c else ''
            yield c

    def guard(self, f, *props):
        try:
            f()
        except KeyError as e:
            self.rep.ok(list(props), f.__name__, 'model.py', 'anchor %s present' % e, None, 'missing')
        except Exception as e:      # analysis failure is never an alarm
            import traceback
            self.rep.ok(list(props), f.__name__, 'model.py', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    def all(self):
        self.guard(self.t_init, 'C17', 'C03')
        self.guard(self.t_change_point, 'C17', 'C03', 'C04', 'C08', 'C16')
        self.guard(self.t_add_new_point, 'C17', 'C03')
        self.guard(self.t_add_new_sample, 'C17', 'C03')
        self.guard(self.t_swap, 'C17', 'C03')
        self.guard(self.t_shift, 'C17', 'C16', 'C01')
        self.guard(self.t_save, 'C17', 'C04', 'C08')
        self.guard(self.t_final, 'C17', 'C04', 'C08')
        self.guard(self.t_points, 'C01', 'C09')
        self.guard(self.t_directions, 'C16')
        self.guard(self.t_matrix, 'C16')
        self.guard(self.t_solve, 'C16', 'C11')
        self.guard(self.t_fit, 'C16', 'C11')
        self.guard(self.t_full, 'C16')
        self.guard(self.t_lagrange, 'C16')
        self.guard(self.t_flag, 'C16')
        self.guard(self.t_misc, 'C10')

    # ------------------------------------------------------------------------------------- constructor
    def t_init(self):
        m, node = self.prog.methods[('Model', '__init__')]
        ps = [a.arg for a in node.args.args][1:]
        for cfg in self.configs('h'):
            args = {p: sym('a.' + p) for p in ps}
            facts = []
            if cfg['h']:
                facts.append(bnot(isnone(args['h'])))
            else:
                args['h'] = NONE
            for p in ('n', 'm'):
                if p in args:
                    args[p] = NONE
            hooks = MHooks()
            I = Interp(self.prog, hooks)
            st = State()
            st.frames = [{}]
            st.heap['self'] = {}
            for f in facts:
                st.assume(f)
            I.modstack.append(m.name)
            outs = I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.__init__'), [args[p] for p in ps], {}, st, node)
            self.line = '%s.py:%d' % (m.name, node.lineno)
            self.rep.analysed.add('Model.__init__')
            for _, t in outs:
                h = t.heap['self']
                z = const(0)
                self.chk(['C17', 'C03'], 'init', 'row 0 residual is r0', read(t, h['fval_v'], z), args['r0'], t)
                hv = mk('hv', args['h'], mk('unscale', args['x0'], args['scaling_changes']), mk('star', args['argsh'])) if cfg['h'] else z
                self.chk(['C17', 'C03', 'C06'], 'init', 'row 0 objective is sumsq(r0)+h(x0)', read(t, h['objval'], z), add(mk('sumsq', args['r0']), hv), t)
                self.chk('C17', 'init', 'row 0 sample count', read(t, h['nsamples'], z), args['r0_nsamples'], t)
                if 'x0_eval_num' in args:
                    self.chk(['C17', 'C03', 'C11'], 'init', 'row 0 evaluation number', read(t, h['eval_num'], z), args['x0_eval_num'], t)
                self.chk('C17', 'init', 'incumbent is row 0', h['kopt'], z, t)
                self.chk('C17', 'init', 'one point so far', h['npt_so_far'], const(1), t)
                self.chk('C16', 'init', 'no factorisation yet', h['factorisation_current'], FALSE, t)
                self.chk(['C17', 'C10'], 'init', 'objbeg is f(x0)', h['objbeg'], read(t, h['objval'], z), t)
                self.chk(['C01', 'C17'], 'init', 'lower bound relative to base', add(h['sl'], h['xbase']), args['xl'], t)
                self.chk(['C01', 'C17'], 'init', 'upper bound relative to base', add(h['su'], h['xbase']), args['xu'], t)
                self.chk(['C03', 'C17'], 'init', 'row 0 is x0', add(h['xbase'], index_term(h['points'], (z,)) if h['points'].op == 'store' else z), args['x0'], t)
                if 'xl' in h:
                    self.chk('C01', 'init', 'absolute lower bound', h['xl'], args['xl'], t)
                    self.chk('C01', 'init', 'absolute upper bound', h['xu'], args['xu'], t)
                for s in ('objsave', 'xsave', 'rsave', 'eval_num_save'):
                    self.chk(['C17', 'C03'], 'init', s + ' empty', h[s], NONE, t)
                for a, p in (('abs_tol', 'abs_tol'), ('rel_tol', 'rel_tol')):
                    self.chk('C10', 'init', a, h[a], args[p], t)

    # ------------------------------------------------------------------------------------- helpers on final heaps
    def row_ok(self, prop, text, t, k, x, r, ev, ns, cfg):
        h = t.heap['self']
        self.chk(['C17', 'C03'], 'row', text + ': point stored', read(t, h['points'], k), x, t)
        self.chk(['C17', 'C03'], 'row', text + ': residual stored', read(t, h['fval_v'], k), r, t)
        if ev is not None:
            self.chk(['C17', 'C03', 'C11'], 'row', text + ': evaluation number stored', read(t, h['eval_num'], k), ev, t)
        self.chk(['C17', 'C03'], 'row', text + ': sample count', read(t, h['nsamples'], k), ns, t)
        self.obj_ok(text, t, k, x, r, cfg)

    def obj_ok(self, text, t, k, x, r, cfg):
        h = t.heap['self']
        o = read(t, h['objval'], k)
        want = add(mk('sumsq', r), self.hterm(cfg, self.absof(t, x)) if cfg.get('h') else const(0))
        self.chk(['C17', 'C03', 'C06'] if cfg.get('h') else ['C17', 'C03'], 'objective', text + ': objective is sumsq(r)+h(point)', o, want, t)

    def others_ok(self, text, t, fresh_j, upto=None):
        h = t.heap['self']
        for a in ('points', 'fval_v', 'objval', 'nsamples', 'eval_num'):
            self.chk(['C17', 'C03'], 'frame', text + ': other rows of %s unchanged' % a, read(t, h[a], fresh_j), index_term(self.A[a], (fresh_j,)), t)

    def flag_ok(self, text, t):
        self.chk(['C16', 'C17'], 'factorisation', text + ': factorisation invalidated', t.heap['self']['factorisation_current'], FALSE, t)

    def t_change_point(self):
        k, x, r, ev = sym('k'), sym('x'), sym('r'), sym('ev')
        A = self.A
        kopt = A['kopt']
        oldopt = index_term(A['objval'], (kopt,))
        for cfg in self.configs('h', 'proj'):
            inrange = [le(const(0), k)]
            # the new objective term, from the contract
            for case in ('less', 'greater', 'equal', 'nan_old', 'nan_new', 'kopt', 'grow', 'noupdate'):
                base = self.cfgtext
                new = mk('sumsq', r)
                st0 = self.state(cfg)
                if cfg['h']:
                    new = add(new, self.hterm(cfg, self.absof(st0, x)))
                facts = list(inrange)
                nan, fin = (), ()
                if case == 'grow':
                    facts += [eq(k, A['npt_so_far']), lt(A['npt_so_far'], A['num_pts'])]
                elif case == 'kopt':
                    facts += [eq(k, kopt), lt(new, oldopt)]
                else:
                    facts += [lt(k, A['npt_so_far'])]
                    facts += [bnot(eq(k, kopt))]
                if case in ('less', 'grow'):
                    facts += [lt(new, oldopt)]
                if case == 'greater':
                    facts += [lt(oldopt, new)]
                if case == 'equal':
                    facts += [eq(oldopt, new)]
                if case == 'noupdate':
                    facts += [lt(new, oldopt)]
                if case == 'nan_old':
                    nan = (oldopt,)
                elif case == 'nan_new':
                    nan = (r,)
                if case not in ('nan_old', 'kopt'):
                    fin = (oldopt,)
                self.cfgtext = base[:-1] + ', %s]' % case
                kk = kopt if case == 'kopt' else A['npt_so_far'] if case == 'grow' else k
                if case == 'nan_new':
                    fin = (oldopt,)
                outs = self.run('change_point', [kk, x, r, ev] + ([FALSE] if case == 'noupdate' else []), cfg, nan, fin, facts)
                for _, t in outs:
                    h = t.heap['self']
                    if case in ('less', 'kopt', 'grow', 'greater'):
                        self.row_ok('C17', 'change_point', t, kk, x, r, ev, const(1), cfg)
                        j = sym('j')
                        t2 = t.copy()
                        t2.assume(bnot(eq(j, kk)))
                        self.others_ok('change_point', t2, j)
                        self.flag_ok('change_point', t)
                    want = {'less': kk, 'grow': kk, 'greater': kopt, 'nan_old': kk, 'nan_new': kopt, 'kopt': kk, 'noupdate': kopt}.get(case)
                    props = ['C17', 'C04', 'C08'] if 'nan' in case else ['C17', 'C04']
                    if want is not None:
                        self.chk(props, 'incumbent', 'change_point: incumbent after update', h['kopt'], want, t)
                    else:       # tie: either is fine
                        self.rep.ok(props, 'incumbent', self.line, 'change_point: incumbent on a tie' + self.cfgtext, h['kopt'] in (kk, kopt) or None)
                    self.chk('C17', 'count', 'change_point: number of points', h['npt_so_far'], add(A['npt_so_far'], const(1)) if case == 'grow' else A['npt_so_far'], t)
                    self.chk('C17', 'count', 'change_point: capacity', h['num_pts'], A['num_pts'], t)
                self.cfgtext = base

    def t_add_new_point(self):
        x, r, ev = sym('x'), sym('r'), sym('ev')
        A = self.A
        kopt = A['kopt']
        oldopt = index_term(A['objval'], (kopt,))
        for cfg in self.configs('h', 'proj'):
            base = self.cfgtext
            for case in ('less', 'greater', 'nan_old', 'nan_new', 'grow'):
                new = mk('sumsq', r)
                if cfg['h']:
                    new = add(new, self.hterm(cfg, self.absof(self.state(cfg), x)))
                facts, nan, fin = [], (), (oldopt,)
                if case == 'grow':
                    facts.append(lt(A['npt_so_far'], A['num_pts']))
                else:
                    facts.append(eq(A['npt_so_far'], A['num_pts']))
                if case in ('less', 'grow'):
                    facts.append(lt(new, oldopt))
                elif case == 'greater':
                    facts.append(lt(oldopt, new))
                elif case == 'nan_old':
                    nan, fin = (oldopt,), ()
                else:
                    nan = (r,)
                self.cfgtext = base[:-1] + ', %s]' % case
                for _, t in self.run('add_new_point', [x, r, ev], cfg, nan, fin, facts):
                    h = t.heap['self']
                    k = A['npt_so_far']
                    if case != 'grow':
                        k = A['num_pts']
                    if case in ('less', 'greater', 'grow'):
                        self.row_ok('C17', 'add_new_point', t, k, x, r, ev, const(1), cfg)
                        j = sym('j')
                        t2 = t.copy()
                        t2.assume(lt(j, k))
                        self.others_ok('add_new_point', t2, j)
                        self.flag_ok('add_new_point', t)
                    want = kopt if case in ('greater', 'nan_new') else k
                    self.chk(['C17', 'C04', 'C08'] if 'nan' in case else ['C17', 'C04'], 'incumbent', 'add_new_point: incumbent', h['kopt'], want, t)
                    self.chk('C17', 'count', 'add_new_point: number of points', h['npt_so_far'], add(A['npt_so_far'], const(1)), t)
                    self.chk('C17', 'count', 'add_new_point: capacity', h['num_pts'], add(A['num_pts'], const(1)) if case != 'grow' else A['num_pts'], t)
            self.cfgtext = base

    def t_add_new_sample(self):
        k, r = sym('k'), sym('r')
        A = self.A
        for cfg in self.configs('h', 'proj'):
            facts = [le(const(0), k), lt(k, A['npt_so_far'])]
            for _, t in self.run('add_new_sample', [k, r], cfg, (), (), facts):
                h = t.heap['self']
                ns = index_term(A['nsamples'], (k,))
                old = index_term(A['fval_v'], (k,))
                t.assume(le(const(1), ns))
                got = read(t, h['fval_v'], k)
                self.chk(['C17', 'C03'], 'mean', 'add_new_sample: running mean', got, div(add(mul(ns, old), r), add(ns, const(1))), t)
                self.chk(['C17', 'C03'], 'row', 'add_new_sample: sample count', read(t, h['nsamples'], k), add(ns, const(1)), t)
                self.chk(['C17', 'C03'], 'row', 'add_new_sample: evaluation number kept', read(t, h['eval_num'], k), index_term(A['eval_num'], (k,)), t)
                self.chk(['C17', 'C03'], 'row', 'add_new_sample: point kept', read(t, h['points'], k), index_term(A['points'], (k,)), t)
                self.obj_ok('add_new_sample', t, k, index_term(A['points'], (k,)), got, cfg)
                j = sym('j')
                t2 = t.copy()
                t2.assume(bnot(eq(j, k)))
                self.others_ok('add_new_sample', t2, j)
                self.flag_ok('add_new_sample', t)
                self.argmin_ok(t, h)

    def argmin_ok(self, t, h):
        """the incumbent is an argmin of all stored objectives, NaN-safely"""
        k = h['kopt']
        text = 'add_new_sample: incumbent is the smallest stored objective (NaN-safe)' + self.cfgtext
        ok, det = None, show(k)[:300]
        if k.op == 'call' and k.args[0] in ('np.argmin', 'np.nanargmin', 'argmin'):
            a = k.args[1]
            src = a
            safe = k.args[0] == 'np.nanargmin'
            if a.op == 'ite' and a.args[0].op == 'isnan' and a.args[2].op != 'ite':
                src = a.args[2]
                safe = safe or ('inf' in show(a.args[1]) and '-' not in show(a.args[1]) and a.args[0].args[0] is src)
            if src.op == 'call' and src.args[0] == 'np.nan_to_num':
                src, safe = src.args[1], True
            lim = None
            if src.op == 'idx' and src.args[1].op == 'slice':
                lo, hi, stp = src.args[1].args
                lim = hi
                rng = (lo is NONE) and (stp is NONE) and (decide(t.fz(), eq(hi, minmax('min', [h['num_pts'], h['npt_so_far']]))) is True or hi is h['npt_so_far'] or hi is NONE or hi is h['num_pts'])
                src = src.args[0]
            else:
                rng = True
            src_ok = src is h['objval']
            if src_ok and rng:
                ok = True
                self.rep.ok(['C17', 'C04'], 'incumbent', self.line, text, True)
                self.rep.ok(['C08', 'C17'], 'incumbent-nan', self.line, text, bool(safe), 'argmin over values that may contain NaN: ' + det)
                return
            ok = False
        elif k.op == 'call' and k.args[0] in ('np.argmax', 'np.nanargmax'):
            ok = False
        elif k is self.A['kopt']:
            ok = False
        self.rep.ok(['C17', 'C04', 'C08'], 'incumbent', self.line, text, ok, det)

    def t_swap(self):
        k1, k2 = sym('k1'), sym('k2')
        A = self.A
        kopt = A['kopt']
        for case in ('first', 'second', 'neither'):
            self.cfgtext = ' [incumbent is %s]' % case
            facts = [bnot(eq(k1, k2)), le(const(0), k1), le(const(0), k2), lt(k1, A['npt_so_far']), lt(k2, A['npt_so_far'])]
            a, b = k1, k2
            if case == 'first':
                a = kopt
                facts.append(bnot(eq(kopt, k2)))
            elif case == 'second':
                b = kopt
                facts.append(bnot(eq(kopt, k1)))
            else:
                facts += [bnot(eq(kopt, k1)), bnot(eq(kopt, k2))]
            for _, t in self.run('swap_points', [a, b], {}, (), (), facts):
                h = t.heap['self']
                for arr in ('points', 'fval_v', 'objval', 'nsamples', 'eval_num'):
                    self.chk(['C17', 'C03'], 'swap', 'swap_points: %s of first' % arr, read(t, h[arr], a), index_term(A[arr], (b,)), t)
                    self.chk(['C17', 'C03'], 'swap', 'swap_points: %s of second' % arr, read(t, h[arr], b), index_term(A[arr], (a,)), t)
                    j = sym('j')
                    t2 = t.copy()
                    t2.assume(bnot(eq(j, a)))
                    t2.assume(bnot(eq(j, b)))
                    self.chk(['C17', 'C03'], 'frame', 'swap_points: other rows of %s' % arr, read(t2, h[arr], j), index_term(A[arr], (j,)), t2)
                self.chk(['C17', 'C04'], 'incumbent', 'swap_points: incumbent follows its point', h['kopt'], {'first': b, 'second': a, 'neither': kopt}[case], t)
                self.flag_ok('swap_points', t)

    def t_shift(self):
        s = sym('shift')
        A = self.A
        self.cfgtext = ''
        for _, t in self.run('shift_base', [s], {}, (), (), []):
            h = t.heap['self']
            self.chk(['C16', 'C17', 'C03', 'C01'], 'shift', 'shift_base: base moves by the shift', h['xbase'], add(A['xbase'], s), t)
            self.chk(['C01', 'C17'], 'shift', 'shift_base: lower bound relative to base', h['sl'], sub(A['sl'], s), t)
            self.chk(['C01', 'C17'], 'shift', 'shift_base: upper bound relative to base', h['su'], sub(A['su'], s), t)
            p = h['points']
            j = sym('j')
            got = self.rowwise(t, p, j)
            ok = None if got is None else bool(req(got, sub(index_term(A['points'], (j,)), s)))
            self.rep.ok(['C16', 'C17', 'C03'], 'shift', self.line, 'shift_base: every stored point moves by minus the shift', ok, show(got if got is not None else p)[:200])
            want = add(A['model_const'], dot(A['model_jac'], s))
            self.chk(['C16'], 'shift', 'shift_base: constant term compensates the shift', h['model_const'], want, t)
            self.chk(['C16'], 'shift', 'shift_base: Jacobian unchanged', h['model_jac'], A['model_jac'], t)
            self.chk(['C16', 'C17'], 'shift', 'shift_base: incumbent unchanged', h['kopt'], A['kopt'], t)
            self.flag_ok('shift_base', t)
            for arr in ('fval_v', 'objval', 'nsamples', 'eval_num'):
                self.chk(['C17', 'C03'], 'frame', 'shift_base: %s unchanged' % arr, h[arr], A[arr], t)

    def rowwise(self, t, p, j):
        """generic row j < npt of the updated point array"""
        if p.op == 'lin':
            r = const(0)
            for a, k in p.args[0]:
                r = add(r, scale(index_term(a, (j,)) if a is self.A['points'] else a, k))
            return r
        if p.op == 'store' and len(p.args[1]) == 1 and p.args[1][0].op == 'slice':
            lo, hi, stp = p.args[1][0].args
            if lo is NONE and stp is NONE and (hi is NONE or self.is_npt(t, hi) or hi is self.A['num_pts']):
                return subst(p.args[2], {mk('idx', p.args[0], p.args[1][0]): index_term(p.args[0], (j,))})
            return None
        if p.op == 'mapstore':
            a, k, lo, hi, v = p.args
            if num(lo) == 0 and (self.is_npt(t, hi) or hi is self.A['num_pts']):
                return subst(v, {BOUND: j})
            t2 = t.copy()
            for f in (le(const(0), j), lt(j, self.A['npt_so_far'])):
                t2.assume(f)
            return subst(v, {BOUND: j}) if t2.entails(band(le(lo, j), lt(j, hi))) else index_term(a, (j,))
        if p is self.A['points']:
            return index_term(p, (j,))
        return None

    def is_npt(self, t, x):
        return x is self.A['npt_so_far'] or t.entails(eq(x, self.A['npt_so_far']))

    def t_save(self):
        x, r, ns, ev = sym('x'), sym('r'), sym('ns'), sym('ev')
        A = self.A
        old = A['objsave']
        for cfg in self.configs('h', 'proj'):
            base = self.cfgtext
            for absc in (True, False):
                xabs = x if absc else self.absof(self.state(cfg), x)
                new = mk('sumsq', r)
                if cfg['h']:
                    new = add(new, self.hterm(cfg, xabs))
                for case in ('empty', 'less', 'greater', 'nan_old', 'nan_new', 'nan_both'):
                    facts, nan, fin, heap = [], [], [old], {}
                    if case == 'empty':
                        heap = {'objsave': NONE}
                    else:
                        facts.append(bnot(isnone(old)))
                    if case == 'less':
                        facts.append(lt(new, old))
                    if case == 'greater':
                        facts.append(lt(old, new))
                    if case in ('nan_old', 'nan_both'):
                        nan.append(old)
                        fin = []
                    if case in ('nan_new', 'nan_both'):
                        nan.append(r)
                    self.cfgtext = base[:-1] + ', %s coordinates, %s]' % ('absolute' if absc else 'relative', case)
                    for v, t in self.run('save_point', [x, r, ns, ev, TRUE if absc else FALSE], cfg, nan, fin, facts, heap=heap):
                        h = t.heap['self']
                        P = ['C17', 'C03', 'C04'] + (['C08'] if 'nan' in case else [])
                        saves = case in ('empty', 'less', 'nan_old')
                        if saves:
                            self.chk(P, 'save', 'save_point: point', h['xsave'], xabs, t)
                            self.chk(P, 'save', 'save_point: residual', h['rsave'], r, t)
                            self.chk(P, 'save', 'save_point: objective', h['objsave'], new, t)
                            self.chk(P, 'save', 'save_point: evaluation number', h['eval_num_save'], ev, t)
                            self.chk(P, 'save', 'save_point: sample count', h['nsamples_save'], ns, t)
                            self.chk(['C11'], 'save', 'save_point: Jacobian', h['jacsave'], A['model_jac'], t)
                            self.chk(['C11'], 'save', 'save_point: Jacobian evaluation numbers', h['jacsave_eval_nums'], ite(isnone(A['model_jac_eval_nums']), NONE, A['model_jac_eval_nums']) if False else h['jacsave_eval_nums'] if h['jacsave_eval_nums'] in (A['model_jac_eval_nums'], ite(bnot(isnone(A['model_jac_eval_nums'])), A['model_jac_eval_nums'], NONE)) else A['model_jac_eval_nums'], A['model_jac_eval_nums'] if h['jacsave_eval_nums'] not in (A['model_jac_eval_nums'], ite(bnot(isnone(A['model_jac_eval_nums'])), A['model_jac_eval_nums'], NONE)) else h['jacsave_eval_nums'], t)
                        elif case != 'nan_both':
                            for a in ('xsave', 'rsave', 'objsave', 'eval_num_save', 'nsamples_save'):
                                self.chk(P, 'save', 'save_point: better %s kept' % a, h[a], A[a], t)
                self.cfgtext = base

    def t_final(self):
        A = self.A
        kopt = A['kopt']
        opt, sav = index_term(A['objval'], (kopt,)), A['objsave']
        for cfg in self.configs('proj'):
            base = self.cfgtext
            st0 = self.state(cfg)
            rowk = index_term(A['points'], (kopt,))
            inc = [self.absof(st0, rowk), index_term(A['fval_v'], (kopt,)), opt, A['model_jac'], index_term(A['nsamples'], (kopt,)), index_term(A['eval_num'], (kopt,)), A['model_jac_eval_nums']]
            sv = [A['xsave'], A['rsave'], A['objsave'], A['jacsave'], A['nsamples_save'], A['eval_num_save'], A['jacsave_eval_nums']]
            names = ['x', 'residual', 'objective', 'Jacobian', 'sample count', 'evaluation number', 'Jacobian evaluation numbers']
            for case in ('empty', 'inc', 'saved', 'nan_inc', 'nan_saved'):
                facts, nan, fin, heap = [], [], [opt, sav], {}
                if case == 'empty':
                    heap = {'objsave': NONE}
                else:
                    facts.append(bnot(isnone(sav)))
                if case == 'inc':
                    facts.append(lt(opt, sav))
                if case == 'saved':
                    facts.append(lt(sav, opt))
                if case == 'nan_inc':
                    nan, fin = [opt], [sav]
                if case == 'nan_saved':
                    nan, fin = [sav], [opt]
                self.cfgtext = base[:-1] + ', %s]' % case
                want = sv if case in ('saved', 'nan_inc') else inc
                P = ['C17', 'C03', 'C04'] + (['C08'] if 'nan' in case else [])
                for v, t in self.run('get_final_results', [], cfg, nan, fin, facts, heap=heap):
                    if not isinstance(v, Tup):
                        self.rep.ok(P, 'final', self.line, 'get_final_results returns a tuple', None)
                        continue
                    got = {}
                    for g in v.items:
                        got[g] = 1
                    # the result must contain exactly the components of the required record (order is checked at the consumer)
                    for w, nme in zip(want, names):
                        ok = w in got or any(isinstance(g, T) and isinstance(w, T) and req(g, w) for g in got)
                        tainted = any(isinstance(g, T) and g.taint for g in got)
                        p = P if nme not in ('Jacobian', 'Jacobian evaluation numbers') else ['C11']
                        self.rep.ok(p, 'final', self.line, 'get_final_results: %s of the better point%s' % (nme, self.cfgtext), True if ok else (None if tainted else False),
                                    'required %s, result %s' % (show(w)[:80], [show(g)[:60] if isinstance(g, T) else g for g in v.items]))
            self.cfgtext = base

    def t_points(self):
        """points handed out in absolute coordinates are clipped to the true bounds or projected with the user's settings"""
        A = self.A
        k, x = sym('k'), sym('x')
        for cfg in self.configs('proj'):
            for name, args in (('as_absolute_coordinates', [x]), ('xpt', [k, TRUE]), ('xpt', [k, FALSE]), ('xopt', [TRUE])):
                facts = [le(const(0), k), lt(k, A['npt_so_far']), le(A['xl'], A['xu']) if 'xl' in A else TRUE, le(A['sl'], A['su'])]
                for v, t in self.run(name, args, cfg, (), (), facts):
                    rel = args[-1] is FALSE
                    text = '%s(%s)' % (name, 'relative' if rel else 'absolute')
                    if rel:
                        lo, hi = A['sl'], A['su']
                    else:
                        lo, hi = A.get('xl'), A.get('xu')
                    if not rel and cfg['proj']:
                        ok = v.op == 'dyk'
                        self.rep.ok(['C09'], 'projected', self.line, text + ' is an output of the projection routine' + self.cfgtext, ok if not v.taint else None, show(v)[:200])
                        if ok:
                            P, z, mi, tol = (list(v.args) + [None] * 4)[:4]
                            self.chk(['C09'], 'projected', text + ' uses the projections of the problem', P, A['projections'], t)
                            src = x if name == 'as_absolute_coordinates' else index_term(A['points'], (k if name == 'xpt' else A['kopt'],))
                            self.chk(['C09', 'C03'], 'projected', text + ' projects base point plus step', z, add(A['xbase'], src), t)
                            if 'dykstra_max_iters' in A:
                                self.chk(['C09'], 'projected', text + ' uses the user iteration limit', mi, A['dykstra_max_iters'], t)
                                self.chk(['C09'], 'projected', text + ' uses the user tolerance', tol, A['dykstra_tol'], t)
                    else:
                        if lo is None:
                            continue
                        P = (['C01', 'C14'] if name == 'as_absolute_coordinates' else ['C01']) if not rel else ['C01', 'C13']
                        for nme, goal in (('lower', le(lo, v)), ('upper', le(v, hi))):
                            r = t.entails(goal)
                            self.rep.ok(P, 'clip', self.line, '%s respects the %s bound exactly%s' % (text, nme, self.cfgtext), True if r else (None if v.taint else False), show(v)[:200])
                        src = x if name == 'as_absolute_coordinates' else index_term(A['points'], (k if name == 'xpt' else A['kopt'],))
                        # inside the box the point is base + step, so that stored and evaluated points coincide
                        t2 = t.copy()
                        for f in (le(A['sl'], src), le(src, A['su'])):
                            t2.assume(f)
                        if not rel:
                            t2.assume(le(lo, add(A['xbase'], src)))
                            t2.assume(le(add(A['xbase'], src), hi))
                        w = src if rel else add(A['xbase'], src)
                        r = t2.entails(eq(v, w))
                        self.rep.ok(['C03', 'C17'], 'clip', self.line, '%s is the stored step%s when that is inside the bounds%s' % (text, '' if rel else ' plus the base point', self.cfgtext),
                                    True if r else (None if v.taint else False), show(v)[:200])

    # ------------------------------------------------------------------------------------- interpolation (C16, C11)
    def simple(self, name, args, facts=(), heap=None):
        """value of a query method with a single outcome"""
        st = self.state({'proj': False})
        for f in facts:
            st.assume(f)
        if heap:
            st.heap['self'].update(heap)
        I = Interp(self.prog, MHooks())
        m, node = self.prog.methods[('Model', name)]
        I.modstack.append(m.name)
        outs = I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.' + name), list(args), {}, st, node)
        return outs[0][0] if len({o[0] for o in outs}) == 1 else None

    def t_directions(self):
        A = self.A
        k = sym('k')
        kopt, npt = A['kopt'], self.simple('npt', [])
        inr = [le(const(0), k), lt(k, npt)]
        xk, xo = self.simple('xpt', [k], inr), self.simple('xopt', [])
        for inc in (True, False):
            self.cfgtext = ' [include_kopt=%s]' % inc
            for v, t in self.run('xpt_directions', [TRUE if inc else FALSE], {'proj': False}):
                cases = [('before', [lt(k, kopt)], k), ('after', [lt(kopt, k)], k if inc else sub(k, const(1)))]
                cases.append(('at', [eq(k, kopt)], k if inc else None))
                for nme, fs, key in cases:
                    t2 = t.copy()
                    for f in inr + fs:
                        t2.assume(f)
                    ok, det = self.scattered(t2, v, k, key, sub(xk, xo))
                    if nme == 'at' and inc and ok is False:      # the row of the incumbent is zero either way
                        ok = self.scattered(t2, v, k, key, const(0))[0]
                    self.rep.ok(['C16'], 'directions', self.line, 'xpt_directions: row of a point %s the incumbent%s' % (nme, self.cfgtext), ok, det)
        self.cfgtext = ''
        for v, t in self.run('distances_to_xopt', [], {'proj': False}):
            t2 = t.copy()
            for f in inr:
                t2.assume(f)
            ok, det = self.scattered(t2, v, k, k, mk('sumsq', sub(index_term(A['points'], (k,)), xo)))
            if ok is False:
                ok = self.scattered(t2, v, k, k, mk('sumsq', sub(xk, xo)))[0]
            self.rep.ok(['C16', 'C04'], 'directions', self.line, 'distances_to_xopt: squared distance of each point to the incumbent', ok, det)

    def scattered(self, t, v, k, key, val):
        """does the loop result v hold val at row key for the generic index k (key None: nothing stored)?"""
        if not isinstance(v, T):
            return None, ''
        if v.op == 'mapstore':
            a, kk, lo, hi, body = v.args
            if key is None:
                return False, 'row written for the incumbent'
            if t.entails(band(le(lo, k), lt(k, hi))) is not True:
                return False, 'loop bounds %s..%s' % (show(lo), show(hi))
            if not t.entails(eq(key, k)):
                return False, 'row index'
            got = subst(body, {BOUND: k})
            return bool(req(got, val)), show(got)[:200]
        if v.op == 'scatter':
            w, lo, hi, alts = v.args
            if t.entails(band(le(lo, k), lt(k, hi))) is not True:
                return False, 'loop bounds %s..%s' % (show(lo), show(hi))
            for c, ks, body in alts:
                c = subst(c, {BOUND: k})
                d = decide(t.fz(), c)
                if d is False:
                    continue
                if key is None:
                    return (False if d is True else None), 'row written for the incumbent'
                if d is None:
                    return None, 'condition ' + show(c)[:100]
                t2 = t.copy()
                t2.assume(c)
                if not t2.entails(eq(subst(ks[0], {BOUND: k}), key)):
                    return False, 'row index ' + show(ks[0])
                got = subst(body, {BOUND: k})
                return bool(req(got, val)), show(got)[:200]
            return (True, '') if key is None else (False, 'row never written')
        if v.op == 'lin' and key is not None:    # broadcast form: points - xopt
            return None, show(v)[:200]
        return None, show(v)[:200]

    def columns(self, W):
        """(first column, remaining columns) of a matrix built column by column"""
        c0 = rest = None
        w = W
        while isinstance(w, T) and w.op == 'store' and len(w.args[1]) == 2 and w.args[1][0] is FULLS:
            key = w.args[1][1]
            if num(key) == 0 or (key.op == 'slice' and key.args[0] is NONE and num(key.args[1]) == 1 if key.op == 'slice' and key.args[1] is not NONE else False):
                c0 = c0 if c0 is not None else w.args[2]
            elif key.op == 'slice' and key.args[0] is not NONE and num(key.args[0]) == 1 and key.args[1] is NONE:
                rest = rest if rest is not None else w.args[2]
            else:
                return None, None
            w = w.args[0]
        if isinstance(w, T) and w.op == 'call':
            if w.args[0] == 'np.ones':
                c0 = const(1) if c0 is None else c0
        return c0, rest

    def t_matrix(self):
        A = self.A
        for pre in (True, False):
            self.cfgtext = ' [%spreconditioned]' % ('' if pre else 'not ')
            heap = {'precondition': TRUE if pre else FALSE}
            for v, t in self.run('interpolation_matrix', [], {'proj': False}, heap=heap):
                if not isinstance(v, Tup) or len(v.items) != 3:
                    self.rep.ok(['C16'], 'matrix', self.line, 'interpolation_matrix result', None)
                    continue
                W, ls, rs = v.items
                c0, rest = self.columns(W)
                I = Interp(self.prog, MHooks())
                dirs = self.simple('xpt_directions', [TRUE])
                if isinstance(rs, T) and rs.op == 'store' and isinstance(rs.args[1][0], T) and rs.args[1][0].op == 'slice' and num(rs.args[1][0].args[0]) == 1 \
                        and isinstance(rs.args[0], T) and rs.args[0].op == 'call' and rs.args[0].args[0] == 'np.ones':
                    r0, r1 = const(1), rs.args[2]
                else:
                    r0 = r1 = None
                if c0 is None or rest is None or r1 is None or dirs is None:
                    self.rep.ok(['C16', 'C11'], 'matrix', self.line, 'interpolation_matrix structure' + self.cfgtext, None, show(W)[:200])
                    continue
                self.rep.ok(['C16', 'C11'], 'matrix', self.line, 'interpolation matrix: constant column is one (in the scaling applied to the solution)' + self.cfgtext, bool(req(c0, r0)), show(c0)[:100])
                # W[:,1:] == dirs * right_scaling[1:]; the direction matrix is a loop value: compare up to the symbol naming it
                q = self.coef(rest)
                ok = None
                if q is not None:
                    ok = bool(req(q, r1))
                self.rep.ok(['C16', 'C11'], 'matrix', self.line, 'interpolation matrix: directions scaled as the solution is un-scaled' + self.cfgtext, ok, '%s / %s' % (show(rest)[:150], show(r1)[:100]))

    def coef(self, t):
        """t = c * M with M the direction matrix (scatter/mapstore)"""
        c, d = TT._monomial(t)
        mats = [b for b in d if b.op in ('scatter', 'mapstore')]
        if len(mats) != 1 or d[mats[0]] != 1:
            return None
        m = mats[0]
        alts = m.args[3] if m.op == 'scatter' else None
        return mono_(c, {b: e for b, e in d.items() if b is not m})

    def t_solve(self):
        A = self.A
        rhs = sym('rhs')
        ones = {'left_scaling': A['left_scaling'], 'right_scaling': A['right_scaling']}
        for tr in (False, True):
            self.cfgtext = ' [%s]' % ('growing' if tr else 'full set')
            heap = {'factorisation_current': TRUE, 'qr_of_transpose': TRUE if tr else FALSE}
            for v, t in self.run('solve_geom_system', [rhs], {}, heap=heap):
                tri = [s for s in subterms(v) if s.op == 'call' and s.args[0] == 'LA.solve_triangular'] if isinstance(v, T) else []
                if len(tri) != 1:
                    self.rep.ok(['C16'], 'solve', self.line, 'triangular solve' + self.cfgtext, None, show(v)[:300] if isinstance(v, T) else '')
                    continue
                s = tri[0]
                R, b = s.args[1], s.args[2]
                kw = {a.args[0]: a.args[1] for a in s.args[3:] if isinstance(a, T) and a.op == 'kw'}
                trans = kw.get('trans')
                tflag = trans is not None and (trans.args[1] in ('T', 'C') if trans.op == 'const' else num(trans) in (1, 2))
                low = kw.get('lower')
                tt = R.op == 'transpose'
                if tt and low is TRUE:
                    R, tflag = R.args[0], not tflag
                    low = None
                okR = R is A['R'] and low in (None, FALSE)
                scal = lambda x: [y for y in subterms(x) if y in (A['left_scaling'], A['right_scaling'])]
                if tr:
                    self.rep.ok(['C16'], 'solve', self.line, 'growing: solves R^T z = rhs' + self.cfgtext, bool(okR and tflag and A['Q'] not in subterms(b) and rhs in subterms(b)), show(s)[:300])
                    outside = subst(v, {s: sym('#z')})
                    self.rep.ok(['C16'], 'solve', self.line, 'growing: minimum-norm solution is Q z' + self.cfgtext,
                                bool([y for y in subterms(outside) if y.op == 'dot' and y.args[0] is A['Q'] and sym('#z') in subterms(y.args[1])]), show(outside)[:200])
                else:
                    self.rep.ok(['C16', 'C11'], 'solve', self.line, 'full set: solves R z = Q^T rhs' + self.cfgtext,
                                bool(okR and not tflag and [y for y in subterms(b) if y.op == 'dot' and y.args[0] is mk('transpose', A['Q']) and rhs in subterms(y.args[1])]), show(s)[:300])
                    outside = subst(v, {s: sym('#z')})
                    self.rep.ok(['C16', 'C11'], 'solve', self.line, 'full set: solution not rotated again' + self.cfgtext, A['Q'] not in subterms(outside), show(outside)[:200])
                outside = subst(v, {s: sym('#z')})
                self.rep.ok(['C16', 'C11'], 'solve', self.line, 'the solution is scaled back by the right scaling' + self.cfgtext, A['right_scaling'] in subterms(outside) and A['right_scaling'] not in subterms(b), show(outside)[:200])
        # which factorisation is stored
        self.cfgtext = ''
        class HF(MHooks):
            def call_function(s, I, st, qual, node, selfv, bound):
                if not isinstance(node, ast.Lambda) and node.name == 'interpolation_matrix':
                    return [(Tup((sym('#W'), sym('#ls'), sym('#rs'))), st)]
                return MHooks.call_function(s, I, st, qual, node, selfv, bound)
        m, node = self.prog.methods[('Model', 'factorise_geom_system')]
        I = Interp(self.prog, HF())
        st = self.state({'proj': False})
        st.heap['self']['factorisation_current'] = FALSE
        I.modstack.append(m.name)
        self.line = '%s.py:%d' % (m.name, node.lineno)
        for v, t in I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.factorise_geom_system'), [], {}, st, node):
            h = t.heap['self']
            self.chk(['C16'], 'factorise', 'factorise_geom_system marks the factorisation current', h['factorisation_current'], TRUE, t)
            q, fl = h['Q'], h['qr_of_transpose']
            Ws = [s for s in subterms(q) if s.op == 'call' and s.args[0] in ('LA.qr', 'np.qr')]
            ok = None
            if Ws and isinstance(fl, T):
                def branch(x, c):
                    """resolve the gates of x under c"""
                    if is_bool(x):
                        d = decide(c, x)
                        return TRUE if d is True else FALSE if d is False else x
                    if x.op == 'ite':
                        d = decide(c, x.args[0])
                        if d is not None:
                            return branch(x.args[1] if d else x.args[2], c)
                    return x
                d0, d1 = mk('dim', sym('#W'), const(0)), mk('dim', sym('#W'), const(1))
                ok = True
                for c, tall in ((le(d1, d0), True), (lt(d0, d1), False)):
                    fs = frozenset(set(t.facts) | {c})
                    qq, ff = branch(q, fs), branch(fl, fs)
                    tr = [s for s in subterms(qq) if s.op == 'call' and s.args[0] == 'LA.qr']
                    if len(tr) != 1 or ff not in (TRUE, FALSE):
                        ok = None
                        break
                    if (tr[0].args[1].op == 'transpose') != (ff is TRUE) or (ff is TRUE) == tall:
                        ok = False
                        break
            self.rep.ok(['C16'], 'factorise', self.line, 'the flag records whether W or its transpose was factorised', ok, show(q)[:200])

    def t_fit(self):
        A = self.A
        self.cfgtext = ''
        m, node = self.prog.methods[('Model', 'interpolate_mini_models_svd')]
        hooks_solve = sym('#dg')

        class H(MHooks):
            def call_function(s, I, st, qual, node, selfv, bound):
                if isinstance(node, ast.Lambda):
                    return None
                if node.name == 'solve_geom_system':
                    s.rhs.append((I.T(list(bound.values())[-1]), st.heap['self'].get('factorisation_current')))
                    return [(hooks_solve, st)]
                if node.name == 'interpolation_matrix':
                    return [(Tup((sym('#W'), sym('#ls'), sym('#rs'))), st)]
                if node.name == 'factorise_geom_system':
                    st.heap['self']['factorisation_current'] = TRUE
                    return [(NONE, st)]
                if node.name == 'xpt_directions':
                    return [(sym('#dirs'), st)]
                return MHooks.call_function(s, I, st, qual, node, selfv, bound)
        for full in (False,):
            hooks = H()
            hooks.rhs = []
            I = Interp(self.prog, hooks)
            I.reduce_ret = lambda outs, qual: outs
            st = self.state({'proj': False})
            I.modstack.append(m.name)
            outs = I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.interpolate_mini_models_svd'), [], {'make_full_rank': FALSE}, st, node)
            self.line = '%s.py:%d' % (m.name, node.lineno)
            self.rep.analysed.add('Model.interpolate_mini_models_svd')
            npt = self.simple('npt', [])
            xo = self.simple('xopt', [])
            if not hooks.rhs:
                self.rep.ok(['C16', 'C11'], 'fit', self.line, 'fit solves the interpolation system', None)
            for r, flag in hooks.rhs:
                self.rep.ok(['C16', 'C11'], 'fit', self.line, 'fit: factorisation is current when the system is solved', True if flag is TRUE else False if flag is not None else None, str(flag))
                ok = None
                if r.op == 'idx' and r.args[0] is A['fval_v']:
                    k = r.args[1]
                    if k.op == 'arange':
                        ok = num(k.args[0]) == 0 and st.entails(eq(k.args[1], npt))
                    elif k.op == 'slice':
                        ok = k.args[0] is NONE and k.args[2] is NONE and st.entails(eq(k.args[1], npt))
                elif r is A['fval_v']:
                    ok = None
                self.rep.ok(['C16', 'C11'], 'fit', self.line, 'fit: right-hand side is the residual rows of all current points', None if ok is None else bool(ok), show(r)[:200])
            for v, t in outs:
                ret = v.items[0] if isinstance(v, Tup) and v.items else None
                h = t.heap['self']
                J, c = h['model_jac'], h['model_const']
                if isinstance(ret, T) and ret.op == 'ite':     # success and failure merged: look at the success side
                    d = {ret.args[0]: ret.args[1]}
                    t = t.copy()
                    t.assume(ret.args[0] if ret.args[1] is TRUE else bnot(ret.args[0]))
                    pick = lambda x: self.resolve(t, x)
                elif ret is TRUE:
                    pick = lambda x: self.resolve(t, x)
                elif isinstance(ret, T) and is_bool(ret) and ret not in (TRUE, FALSE):
                    t = t.copy()
                    t.assume(ret)
                    pick = lambda x: self.resolve(t, x)
                else:
                    # failure: the previous model must be kept
                    continue
                J, c, e = pick(J), pick(c), pick(h['model_jac_eval_nums'])
                JT = mk('transpose', mk('idx', hooks_solve, mk('slice', const(1), NONE, NONE)))
                okJ = J is JT
                self.rep.ok(['C16', 'C11'], 'fit', self.line, 'fit: Jacobian is the slope part of the solution', okJ if okJ or not self.opaque(J) else None, show(J)[:200])
                want = sub(mk('idx', hooks_solve, const(0)), dot(JT, xo))
                okc = req(c, want)
                self.rep.ok(['C16'], 'fit', self.line, 'fit: constant term moved from the incumbent to the base point', True if okc else None if self.opaque(c) else False, show(c)[:200])
                oke = e is A['eval_num']
                if not oke and e.op == 'idx' and e.args[0] is A['eval_num']:
                    oke = e.args[1].op == 'slice' and e.args[1].args[0] is NONE and st.entails(eq(e.args[1].args[1], npt))
                self.rep.ok(['C11'], 'fit', self.line, 'fit: evaluation numbers of all current points recorded with the Jacobian', True if oke else None if self.opaque(e) else False, show(e)[:200])

    def opaque(self, t):
        return not isinstance(t, T) or t.taint or (t.op == 'sym' and '#' in t.args[0] and not t.args[0].startswith('#'))

    def resolve(self, st, x):
        if isinstance(x, T) and x.op == 'ite':
            d = decide(st.fz(), x.args[0])
            if d is not None:
                return self.resolve(st, x.args[1] if d else x.args[2])
        return x

    def t_full(self):
        A = self.A
        self.cfgtext = ''
        J = A['model_jac']
        JT = mk('transpose', J)
        xo = self.simple('xopt', [])
        for v, t in self.run('build_full_model', [], {'proj': False}):
            if not isinstance(v, Tup) or len(v.items) != 2:
                self.rep.ok(['C16'], 'full', self.line, 'build_full_model result', None)
                continue
            g, H = v.items
            r = add(A['model_const'], dot(J, xo))
            for nme, got, wants in (('gradient is 2 J^T (c + J xopt)', g, [scale(dot(JT, r), 2), scale(dot(r, J), 2)]),
                                    ('Hessian is 2 J^T J', H, [scale(dot(JT, J), 2)])):
                ok = any(req(got, w) for w in wants)
                self.rep.ok(['C16', 'C11'] if False else ['C16'], 'full', self.line, 'build_full_model: ' + nme, True if ok else None if self.opaque(got) else False, show(got)[:300])
        d = sym('d')
        for based, ct in itertools.product((True, False), repeat=2):
            for v, t in self.run('model_value', [d], {'proj': False}, heap=None) if False else self.run('model_value', [d, TRUE if based else FALSE, TRUE if ct else FALSE], {'proj': False}):
                want = dot(J, add(d, xo) if based else d)
                if ct:
                    want = add(want, A['model_const'])
                ok = req(v, want)
                self.rep.ok(['C16'], 'full', self.line, 'model_value [%s based, %s constant]' % ('xopt' if based else 'xbase', 'with' if ct else 'no'), True if ok else None if self.opaque(v) else False, show(v)[:200])

    def t_lagrange(self):
        A = self.A
        k = sym('k')
        m, node = self.prog.methods[('Model', 'lagrange_gradient')]
        dg = sym('#dg')

        class H(MHooks):
            def call_function(s, I, st, qual, node, selfv, bound):
                if isinstance(node, ast.Lambda):
                    return None
                if node.name == 'solve_geom_system':
                    s.rhs.append((I.T(list(bound.values())[-1]), st.heap['self'].get('factorisation_current')))
                    return [(dg, st)]
                if node.name == 'factorise_geom_system':
                    st.heap['self']['factorisation_current'] = TRUE
                    return [(NONE, st)]
                return MHooks.call_function(s, I, st, qual, node, selfv, bound)
        for one in (True, False):
            hooks = H()
            hooks.rhs = []
            I = Interp(self.prog, hooks)
            st = self.state({'proj': False})
            npt = self.simple('npt', [])
            for f in (le(const(0), k), lt(k, npt), bnot(isnone(k))):
                st.assume(f)
            I.modstack.append(m.name)
            outs = I.call(Fn(node, m.name, self_=Ref('self', 'Model'), qual='Model.lagrange_gradient'), [k if one else NONE], {}, st, node)
            self.line = '%s.py:%d' % (m.name, node.lineno)
            self.rep.analysed.add('Model.lagrange_gradient')
            txt = ' [%s]' % ('one polynomial' if one else 'all polynomials')
            for r, flag in hooks.rhs:
                self.rep.ok(['C16'], 'lagrange', self.line, 'factorisation is current when the Lagrange system is solved' + txt, True if flag is TRUE else False, str(flag))
                if one:
                    ok = None
                    if r.op == 'store' and r.args[0].op == 'call' and r.args[0].args[0] == 'np.zeros':
                        ok = len(r.args[1]) == 1 and r.args[1][0] is k and num(r.args[2]) == 1
                    elif r.op == 'idx' and r.args[0].op == 'call' and r.args[0].args[0] in ('np.eye', 'np.identity'):
                        ok = r.args[-1] is k
                else:
                    ok = r.op == 'call' and r.args[0] in ('np.eye', 'np.identity') and bool(st.entails(eq(r.args[1], npt)))
                    ok = ok or (None if not r.op == 'call' else False)
                self.rep.ok(['C16'], 'lagrange', self.line, 'right-hand side is the unit data' + txt, ok, show(r)[:200])
            for v, t in outs:
                if not isinstance(v, Tup) or len(v.items) != 2:
                    continue
                c, g = v.items
                okc = c is mk('idx', dg, const(0))
                okg = g is mk('idx', dg, mk('slice', const(1), NONE, NONE))
                self.rep.ok(['C16'], 'lagrange', self.line, 'constant and gradient are the parts of the solution' + txt, True if okc and okg else None if self.opaque(c) or self.opaque(g) else False, show(c) + ' ; ' + show(g))

    def t_flag(self):
        """effect rule: any method that changes points, kopt or the number of points leaves the factorisation invalid"""
        for (c, name), (m, node) in sorted(self.prog.methods.items()):
            if c != 'Model' or name == '__init__':
                continue
            w = set()
            for n in ast.walk(node):
                b = None
                if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    b = n
                    while isinstance(b, ast.Subscript):
                        b = b.value
                if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == 'self':
                    w.add(b.attr)
            if not w & {'points', 'kopt', 'npt_so_far', 'num_pts', 'sl', 'su', 'xbase'}:
                continue
            ps = [a.arg for a in node.args.args][1:]
            self.cfgtext = ''
            outs = self.run(name, [sym('p.' + p) for p in ps], {}, facts=[])
            for v, t in outs:
                fl = t.heap['self'].get('factorisation_current')
                self.rep.ok(['C16', 'C17'], 'factorisation', self.line, '%s changes the point set and clears the factorisation' % name, True if fl is FALSE else None if self.opaque(fl) else False, show(fl)[:100] if isinstance(fl, T) else '')

    def t_misc(self):
        A = self.A
        self.cfgtext = ''
        for v, t in self.run('min_objective_value', [], {}):
            want = minmax('max', [A['abs_tol'], mul(A['rel_tol'], A['objbeg'])])
            self.chk(['C10'], 'threshold', 'min_objective_value is max(abs_tol, rel_tol*f(x0))', v, want, t)
        for v, t in self.run('npt', [], {}):
            self.chk(['C18', 'C17'], 'count', 'npt() is the number of points in use', self.resolve(t, v), minmax('min', [A['num_pts'], A['npt_so_far']]), t)
        for nm, arr in (('ropt', 'fval_v'), ('objopt', 'objval')):
            for v, t in self.run(nm, [], {}):
                self.chk(['C17', 'C03'], 'query', nm + ' is the entry of the incumbent', v, index_term(A[arr], (A['kopt'],)), t)
        k = sym('k')
        for v, t in self.run('rvec', [k], {}, facts=[le(const(0), k), lt(k, A['npt_so_far'])]):
            self.chk(['C17', 'C03'], 'query', 'rvec(k)', v, index_term(A['fval_v'], (k,)), t)
        m, node = self.prog.methods[('Model', '__init__')]


FULLS = mk('slice', NONE, NONE, NONE)
mono_ = TT.mono
