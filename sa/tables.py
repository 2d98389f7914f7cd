"""Tables of the package: parameters and their ranges, exit codes and messages, and the dict/JSON form of the results."""
import ast
import os
import re
from .terms import *
from .interp import *
from .solvespec import SInterp, subterms, tainted
from .prove import decide
from .paramspec import SPEC
from .witness import differ, assignments

EXITS = ['EXIT_SLOW_WARNING', 'EXIT_MAXFUN_WARNING', 'EXIT_SUCCESS', 'EXIT_INPUT_ERROR', 'EXIT_TR_INCREASE_ERROR', 'EXIT_LINALG_ERROR',
         'EXIT_FALSE_SUCCESS_WARNING', 'EXIT_AUTO_DETECT_RESTART_WARNING', 'EXIT_TR_INCREASE_WARNING', 'EXIT_EVAL_ERROR']
PYTYPES = {'builtins.int': 'int', 'builtins.float': 'float', 'builtins.bool': 'bool', 'builtins.str': 'str', 'builtins.list': 'list', 'builtins.dict': 'dict',
           'builtins.tuple': 'tuple'}


TABLE = Dct([(const(n), Lst((sym(n + '.0'), sym(n + '.1')))) for n in ('xk', 'rk', 'fk', 'mu', 'iter_type')])


class THooks(Hooks):
    def __init__(self, types=None):
        self.types = types or {}
        self.raises, self.problems = [], []
        self.fn = {}
        self.json = False
        self.orient = []

    def typed(self, v):
        if isinstance(v, Dct):
            return 'dict'
        if isinstance(v, Lst):
            return 'list'
        if isinstance(v, Tup):
            return 'tuple'
        if v in self.types:
            return self.types[v]
        if v is NONE:
            return 'none'
        return None

    def call_function(self, I, st, qual, node, selfv, bound):
        f = self.fn.get(node.name) if not isinstance(node, ast.Lambda) else None
        if f:
            return f(I, st, bound)
        return None

    def call_ext(self, I, st, name, args, kw, node):
        if name == 'builtins.isinstance' and len(args) == 2:
            k = self.typed(args[0])
            ts = list(args[1].items) if isinstance(args[1], Tup) else [args[1]]
            names = [t.name if isinstance(t, Ext) else None for t in ts]
            if k is None or any(n is None for n in names):
                return [(mk('truth', fresh('isinstance')), st)]
            hit = any(PYTYPES.get(n) == k or (k == 'bool' and n == 'builtins.int') or (k == 'nan' and n == 'builtins.float') for n in names)
            if not hit and any(n not in PYTYPES for n in names):
                return [(mk('truth', fresh('isinstance')), st)]
            return [(TRUE if hit else FALSE, st)]
        if name in ('math.isinf', 'math.isfinite', 'np.isinf', 'np.isfinite') and args and isinstance(args[0], T) and self.types.get(args[0]) == 'nan':
            return [(FALSE, st)]
        if name in ('math.isnan', 'np.isnan') and args and isinstance(args[0], T) and args[0] in self.types:
            return [(TRUE if self.types[args[0]] == 'nan' else FALSE, st)]
        if name == 'builtins.len' and args and args[0] is NONE:
            self.problems.append((I.where(node), 'len(None)'))
        if name.startswith('method.') and args and args[0] is NONE:
            self.problems.append((I.where(node), '%s of None' % name[7:]))
        if self.json:
            return self.json_ext(I, st, name, args, kw, node)
        return None

    # values on their way to JSON and back
    def json_ext(self, I, st, name, args, kw, node):
        a = args[0] if args else None
        if name == 'method.tolist' and isinstance(a, T):
            return [(mk('list_of', a), st)]
        if name in ('builtins.int', 'builtins.float', 'builtins.str') and isinstance(a, T):
            return [(mk('py', const(name[9:]), a), st)]
        if name == 'builtins.dict' and isinstance(a, Dct) and not kw:
            return [(Dct(a.items, a.open), st)]
        if name == 'method.copy' and isinstance(a, Dct):
            return [(Dct(a.items, a.open), st)]
        if name in ('np.array', 'np.asarray') and isinstance(a, T):
            dt = kw.get('dtype', args[1] if len(args) > 1 else None)
            dt = dt.name if isinstance(dt, Ext) else None if dt is None else '?'
            return [(mk('np_array', a, const(str(dt))), st)]
        if name == 'method.to_dict' and isinstance(a, T):
            o = kw.get('orient', args[1] if len(args) > 1 else None)
            self.orient.append((I.where(node), o))
            return [(self.table, st)]
        if name.endswith('DataFrame.from_dict') or name.endswith('pd.DataFrame') or name.endswith('pandas.DataFrame'):
            self.frame = (I.where(node), a, kw)
            return [(sym('reloaded'), st)]
        return None

    def compare(self, I, st, op, a, b, node):
        if a is b and isinstance(a, T) and self.types.get(a) == 'nan' and isinstance(op, (ast.Eq, ast.NotEq)):
            return FALSE if isinstance(op, ast.Eq) else TRUE
        return Hooks.compare(self, I, st, op, a, b, node)

    def instantiate(self, I, st, cls, args, kw, node):
        return None

    def getattr(self, I, st, ref, name, node):
        return None


class TInterp(SInterp):
    def attr(self, o, a, st, e):
        if o is NONE and isinstance(e, ast.Attribute) and a in ('size', 'shape', 'T', 'dtype', 'ndim'):
            self.hooks.problems.append((self.where(e), '%s of None' % a))
        return SInterp.attr(self, o, a, st, e)

    def raised(self, st, node):
        e = getattr(node, 'exc', None)
        if isinstance(e, ast.Call):
            e = e.func
        n = 'AssertionError' if isinstance(node, ast.Assert) else e.id if isinstance(e, ast.Name) else None
        self.hooks.raises.append((self.where(node), st.copy(), n))

    def binop(self, op, a, b, e):
        if isinstance(op, ast.Mod) and isinstance(a, T) and a.op == 'const' and isinstance(a.args[1], str):
            conv = [c for c in re.findall(r'%(?:\(\w+\))?[-+ #0]*[\d*]*(?:\.\d+)?([a-zA-Z%])', a.args[1]) if c != '%']
            vals = list(b.items) if isinstance(b, Tup) and b.items is not None else [b]
            if len(conv) != len(vals):
                self.hooks.problems.append((self.where(e), 'format %r gets %d values' % (a.args[1], len(vals))))
            for c, v in zip(conv, vals):
                if v is NONE and c in 'gfeEGFdi':
                    self.hooks.problems.append((self.where(e), '%%%s of None' % c))
                if c == 'r':
                    self.hooks.problems.append((self.where(e), 'repr of a field: differs between numpy and plain numbers'))
            if isinstance(b, Tup):
                return mk('fmt', a, *[self.T(v) for v in vals])
        return SInterp.binop(self, op, a, b, e)


class Tables(object):
    def __init__(self, prog, rep, tier='quick'):
        self.prog, self.rep = prog, rep

    def interp(self, types=None, fn=None):
        h = THooks(types)
        h.fn = fn or {}
        I = TInterp(self.prog, h)
        I.havoc, I.prune_on, I.defs, I.nojoin = False, False, None, 0
        return I, h

    def method(self, cls, name, args, heap=None, facts=(), types=None, fn=None, prep=None):
        """-> [(value, state)], hooks"""
        I, h = self.interp(types, fn)
        if prep:
            prep(h)
        m, node = self.prog.methods[(cls, name)]
        st = State()
        st.frames = [{}]
        st.heap['self'] = dict(heap or {})
        for f in facts:
            st.assume(f)
        static = any(ast.unparse(d) == 'staticmethod' for d in node.decorator_list)
        I.modstack.append(m.name)
        outs = I.call_fn(Fn(node, m.name, self_=None if static else Ref('self', cls), qual='%s.%s' % (cls, name)), [], dict(args), st, node)
        self.rep.analysed |= set(I.funcs_seen)
        self.line = '%s.py:%d' % (m.name, node.lineno)
        return outs, h, I

    def function(self, mod, name, args, facts=(), types=None, fn=None):
        I, h = self.interp(types, fn)
        node = self.prog.mods[mod].funcs[name]
        st = State()
        st.frames = [{}]
        for f in facts:
            st.assume(f)
        I.max_recursion = 5
        I.modstack.append(mod)
        outs = I.call_fn(Fn(node, mod, qual=name), list(args), {}, st, node)
        self.rep.analysed |= set(I.funcs_seen)
        self.line = '%s.py:%d' % (mod, node.lineno)
        return outs, h, I

    def guard(self, f, *props):
        try:
            f()
        except Exception as e:
            import traceback
            if os.environ.get('SA_DEBUG'):
                raise
            self.rep.ok(list(props), f.__name__, 'dfols', 'analysis', None, 'analysis failed: %r %s' % (e, traceback.format_exc()[-300:]))

    # ------------------------------------------------------------------ parameters
    def params(self):
        ok = self.rep.ok
        m, init = self.prog.methods[('ParameterList', '__init__')]
        n, npt, maxfun = sym('n'), sym('npt'), sym('maxfun')
        outs, h, I = self.method('ParameterList', '__init__', {'n': n, 'npt': npt, 'maxfun': maxfun})
        line = self.line
        tab = None
        for v, s in outs:
            for a, d in s.heap['self'].items():
                if isinstance(d, Dct) and not d.open and any(k.op == 'const' and k.args[1] in SPEC for k, _ in d.items if isinstance(k, T)):
                    if tab is None or len(d.items) > len(tab[1].items) or any(k.args[1] == 'model.abs_tol' and num(w) is not None for k, w in d.items):
                        tab = tab if tab and num(tab[1].get(const('model.abs_tol'))) is not None else (a, d)
        if tab is None:
            ok('C07', 'parameters', line, 'the table of default parameters is found', None)
            return
        keys = [k.args[1] for k, _ in tab[1].items]
        for k in SPEC:
            ok('C07', 'parameters', line, 'documented parameter %s exists' % k, True if k in keys else False, site='parameter ' + k)
        # documentation
        try:
            doc = open(os.path.join(self.prog.root, '..', 'docs', 'advanced.rst')).read()
            for k in sorted(set(re.findall(r':code:`([a-z_]+\.[a-zA-Z_.]+)`', doc))):
                if k.split('.')[0] in {x.split('.')[0] for x in SPEC}:
                    ok('C07', 'parameters', 'docs/advanced.rst', 'parameter %s of the manual exists' % k, k in keys)
        except IOError:
            pass
        # every parameter that is read exists
        for mod in self.prog.mods.values():
            for c in ast.walk(mod.tree):
                if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant) and isinstance(c.args[0].value, str) and '.' in c.args[0].value \
                        and ast.unparse(c.func).split('.')[-1] == 'params':
                    k = c.args[0].value
                    ok('C07', 'parameters', '%s.py:%d' % (mod.name, c.lineno), 'parameter %s that is read exists' % k, k in keys)
        # types of the defaults
        ty = self.default_types(init)
        for k in keys:
            outs, h, I = self.method('ParameterList', 'param_type', {'key': const(k), 'npt': npt})
            pl = self.line
            if len(outs) != 1 or not isinstance(outs[0][0], Tup):
                ok('C07', 'parameters', pl, 'type and range of %s are known' % k, False if not outs and not I.unsupported else None, 'the check of every call would fail', site='parameter ' + k)
                continue
            it = outs[0][0].items
            if len(it) != 4:
                ok('C07', 'parameters', pl, 'type and range of %s are known' % k, None)
                continue
            typ = it[0].args[1] if isinstance(it[0], T) and it[0].op == 'const' else None
            if k in SPEC:
                sp = SPEC[k]
                ok('C07', 'parameters', pl, '%s is of type %s' % (k, sp[0]), typ == sp[0] if typ else None, str(typ), site='parameter ' + k)
                ok('C07', 'parameters', pl, '%s may %sbe None' % (k, '' if sp[1] else 'not '), (it[1] is TRUE) == sp[1] if it[1] in (TRUE, FALSE) else None, site='parameter ' + k)
                for side, got, want in (('lower', it[2], sp[2]), ('upper', it[3], sp[3])):
                    w = NONE if want is None else npt if want == 'npt' else sub(npt, const(1)) if want == 'npt - 1' else const(want)
                    r = None if not isinstance(got, T) or got.taint else True if got is w or (got is not NONE and w is not NONE and decide(frozenset(), eq(got, w)) is True) else \
                        False if got is NONE or w is NONE or num(got) is not None or got in (npt, sub(npt, const(1))) or (num(w) is not None and not got.taint and got.op in ('lin', 'sym')) else None
                    ok('C07', 'parameters', pl, '%s limit of %s is %s' % (side, k, want), r, str(got), site='parameter ' + k)
            # the default passes
            t = ty.get(k)
            if t:
                good = True
                for x in t:
                    if x is None:
                        good = None
                    elif x == 'none':
                        good = good and it[1] is TRUE
                    elif x != typ:
                        good = False
                        break
                ok('C07', 'parameters', line, 'the default of %s has the declared type' % k, good, '%s vs %s' % (sorted(map(str, t)), typ), site='parameter ' + k)
            dv = tab[1].get(const(k))
            if isinstance(dv, T) and typ in ('int', 'float') and dv is not NONE:
                facts = frozenset([le(const(1), n), le(add(n, const(1)), npt), le(const(1), maxfun)])
                for b, g in ((it[2], le(it[2], dv) if isinstance(it[2], T) and it[2] is not NONE else None), (it[3], le(dv, it[3]) if isinstance(it[3], T) and it[3] is not NONE else None)):
                    if g is not None and not dv.taint:
                        bad = decide(facts, g)
                        ok('C07', 'parameters', line, 'the default of %s is in range' % k, True if bad is True else False if bad is False else self.cases(facts, dv, g), '%s vs %s' % (dv, b), site='parameter ' + k)
        self.lookup(tab)

    def cases(self, facts, dv, g):
        r = True
        for c in [x.args[0] for x in subterms(dv) if x.op == 'ite']:
            for f in (c, bnot(c)):
                d = decide(facts | {f}, g)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        return None

    def default_types(self, init):
        """possible Python types of the defaults, from the expressions assigned"""
        env = {'n': {'int'}, 'npt': {'int'}, 'maxfun': {'int'}, 'objfun_has_noise': {'bool'}}
        out = {}

        def ty(e):
            if isinstance(e, ast.Constant):
                v = e.value
                return {'none' if v is None else 'bool' if isinstance(v, bool) else type(v).__name__}
            if isinstance(e, ast.Name):
                return env.get(e.id, {None})
            if isinstance(e, ast.IfExp):
                return ty(e.body) | ty(e.orelse)
            if isinstance(e, ast.UnaryOp):
                return {'bool'} if isinstance(e.op, ast.Not) else ty(e.operand)
            if isinstance(e, ast.BinOp):
                a, b = ty(e.left), ty(e.right)
                if None in a | b:
                    return {None}
                if isinstance(e.op, ast.Div) or 'float' in a | b:
                    return {'float'}
                return {'int'}
            if isinstance(e, (ast.Compare,)):
                return {'bool'}
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('int', 'float', 'bool'):
                return {e.func.id}
            if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
                return out.get(e.slice.value, {None})
            return {None}
        for s in ast.walk(init):
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                t = s.targets[0]
                if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                    out[t.slice.value] = out.get(t.slice.value, set()) | ty(s.value) if t.slice.value in out else ty(s.value)
                elif isinstance(t, ast.Name):
                    env[t.id] = ty(s.value)
                if isinstance(s.value, ast.Dict):
                    for k, v in zip(s.value.keys, s.value.values):
                        if isinstance(k, ast.Constant) and isinstance(k.value, str):
                            out[k.value] = ty(v)
        return out

    def lookup(self, tab):
        ok = self.rep.ok
        attr = tab[0]
        d = Dct([(const('a.b'), sym('v1')), (const('c.d'), sym('v2'))])
        ch = Dct([(const('a.b'), FALSE), (const('c.d'), FALSE)])
        m, init = self.prog.methods[('ParameterList', '__init__')]
        for mode, nv in (('read', NONE), ('set', sym('new'))):
            for key in ('a.b', 'x.y'):
                facts = [bnot(isnone(sym('new')))]
                heap = {attr: d, 'params_changed': ch}
                outs, h, I = self.method('ParameterList', '__call__', {'key': const(key), 'new_value': nv}, heap, facts)
                unk = [r for r in h.raises]
                if key == 'x.y':
                    ok('C07', 'unknown-parameter', self.line, 'an unknown parameter raises (%s)' % mode, True if not outs and unk else False if outs and not any(tainted(v) for v, _ in outs if isinstance(v, T)) else None, '')
                    for w, s, e in unk:
                        ok('C07', 'unknown-parameter', w, 'the error of an unknown parameter is a ValueError (%s)' % mode, None if e is None else e == 'ValueError', str(e))
                else:
                    good = True if outs and not unk else (False if not outs else None)
                    for v, s in outs:
                        cur = s.heap['self'].get(attr)
                        if mode == 'read':
                            good = True if v is sym('v1') and good else False if isinstance(v, T) and v in (sym('v2'), NONE) else None
                        else:
                            good = True if isinstance(cur, Dct) and cur.get(const('a.b')) is sym('new') and cur.get(const('c.d')) is sym('v2') and good else \
                                False if isinstance(cur, Dct) and cur == d else None
                    ok('C07', 'unknown-parameter', self.line, 'a known parameter can be %s' % mode, good)
        # the checks
        val, lo, hi = sym('val'), sym('lower'), sym('upper')
        for typ in ('int', 'float', 'bool'):
            for k in ('int', 'float', 'bool', 'str', 'none'):
                if typ == 'int' and k == 'bool':
                    continue
                for none_ok in (TRUE, FALSE):
                    for L in ((NONE, lo) if k == typ and typ != 'bool' else (NONE,)):
                        for U in ((NONE, hi) if k == typ and typ != 'bool' else (NONE,)):
                            self.check_one(typ, k, none_ok, L, U, val)
        # all parameters are checked
        for c1 in (True, False):
            for c2 in (True, False):
                o1, o2 = mk('truth', sym('ok:k1')), mk('truth', sym('ok:k2'))
                facts = [o1 if c1 else bnot(o1), o2 if c2 else bnot(o2)]

                def one(I, st, b):
                    k = [v for v in b.values() if isinstance(v, T) and v.op == 'const' and v.args[1] in ('k1', 'k2')]
                    return [(mk('truth', sym('ok:' + k[0].args[1])) if k else taint('key'), st)]
                outs, h, I = self.method('ParameterList', 'check_all_params', {'npt': sym('npt')}, {attr: Dct([(const('k1'), sym('v1')), (const('k2'), sym('v2'))]), 'params_changed': ch},
                                         facts, fn={'check_param': one})
                r = True if outs else None
                for v, s in outs:
                    g = v.items[0] if isinstance(v, Tup) and v.items else None
                    d0 = None if not isinstance(g, T) else decide(s.fz(), I.truth(g))
                    if d0 is None:
                        r = None if r is not False else r
                    elif d0 is not (c1 and c2):
                        r = False
                ok('C07', 'parameters', self.line, 'the check of all parameters passes exactly if every single check does (%s, %s)' % (c1, c2), r)

    def check_one(self, typ, k, none_ok, L, U, val):
        v = NONE if k == 'none' else val
        pt = lambda I, st, b: [(Tup((const(typ), none_ok, L, U)), st)]
        lo, hi = sym('lower'), sym('upper')
        if k == 'none':
            cases = [([], none_ok is TRUE)]
        elif k != typ:
            cases = [([], False)]
        else:
            cases = [([le(L, v)] * (L is not NONE) + [le(v, U)] * (U is not NONE), True)]
            if L is not NONE:
                cases.append(([lt(v, L)], False))
                cases.append(([le(L, v), le(v, L)] + [le(v, U)] * (U is not NONE), True))
            if U is not NONE:
                cases.append(([lt(U, v)], False))
                cases.append(([le(U, v), le(v, U)] + [le(L, v)] * (L is not NONE), True))
        for facts, want in cases:
            nn = [bnot(isnone(x)) for x in (val, lo, hi)]
            outs, h, I = self.method('ParameterList', 'check_param', {'key': const('k'), 'value': v, 'npt': sym('npt')}, {}, nn + facts, types={val: k}, fn={'param_type': pt})
            r = True if outs else None
            for x, s in outs:
                d = decide(s.fz(), I.truth(x)) if isinstance(x, T) and not x.taint else None
                if d is None:
                    r = None if r is not False else r
                elif d is not want:
                    r = False
            self.rep.ok('C07', 'parameters', self.line, 'a %s value for a %s parameter%s%s%s is %s' % (k, typ, '' if none_ok is FALSE else ' (None allowed)', '' if not facts else ' with ',
                        ', '.join(map(str, facts)), 'accepted' if want else 'rejected'), r, site='check of %s for %s' % (k, typ))

    # ------------------------------------------------------------------ exit codes
    def exits(self):
        ok = self.rep.ok
        vals = {}
        I, h = self.interp()
        for n in EXITS:
            r = self.prog.lookup('solver', n)
            v = None
            if r and r[0] == 'const':
                try:
                    v = ast.literal_eval(r[2])
                except Exception:
                    v = None
            else:
                ok('C07', 'exit-codes', 'solver.py', 'exit code %s is defined' % n, False if r is None else None)
            vals[n] = v
        m, node = self.prog.classes['ExitInformation']
        names = dict(vals)
        for mod in self.prog.mods.values():
            for k, e in mod.consts.items():
                if k.startswith('EXIT_') and k not in names:
                    try:
                        names[k] = ast.literal_eval(e)
                    except Exception:
                        pass
        known = [v for v in names.values() if v is not None]
        ok('C07', 'exit-codes', '%s.py:%d' % (m.name, node.lineno), 'the exit codes are distinct', len(known) == len(set(known)), str(sorted(map(str, known))))
        for n, v in names.items():
            if v is None:
                continue
            outs, h, I = self.method('ExitInformation', 'message', {'with_stem': TRUE}, {'flag': const(v), 'msg': sym('details')})
            r = True if outs else None
            for x, s in outs:
                if not isinstance(x, T) or x.taint:
                    r = None
                elif x is NONE or x.op == 'const' and not x.args[1]:
                    r = False
                elif sym('details') not in subterms(x):
                    r = None
            ok('C07', 'exit-codes', self.line, 'the message of %s is not empty' % n, r)
        # the result exposes them
        m, node = self.prog.methods[('OptimResults', '__init__')]
        args = {a.arg: sym('f.' + a.arg) for a in node.args.args[1:]}
        outs, h, I = self.method('OptimResults', '__init__', args)
        doc = set(EXITS)
        try:
            doc |= set(re.findall(r'soln\.(EXIT_[A-Z_]+)', open(os.path.join(self.prog.root, '..', 'docs', 'userguide.rst')).read()))
        except IOError:
            pass
        heap = outs[0][1].heap['self'] if outs else {}
        for n in sorted(doc):
            got = heap.get(n)
            want = names.get(n)
            r = None
            if outs and got is None:
                cls = [x for x in self.prog.classes['OptimResults'][1].body if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets)]
                dyn = any(isinstance(c, ast.Call) and ast.unparse(c.func) in ('setattr', 'self.__dict__.update', 'vars') for c in ast.walk(node))
                r = True if cls else None if dyn or I.unsupported else False
            elif isinstance(got, T) and num(got) is not None and want is not None:
                r = num(got) == want
            ok('C07', 'exit-codes', self.line, 'the result exposes %s with its value' % n, r, '%s vs %s' % (got, want))
        # every exit that is created has a known flag and a text
        for mod in self.prog.mods.values():
            for c in ast.walk(mod.tree):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'ExitInformation' and len(c.args) == 2:
                    f, t = c.args
                    w = '%s.py:%d' % (mod.name, c.lineno)
                    r = None
                    if isinstance(f, ast.Name) and f.id.isupper():
                        r = f.id in names
                    elif isinstance(f, ast.Constant) or isinstance(f, ast.UnaryOp):
                        try:
                            r = ast.literal_eval(f) in known
                        except Exception:
                            r = None
                    ok('C07', 'exit-codes', w, 'the exit created here has a documented flag', r, ast.unparse(f))
                    if isinstance(t, ast.Constant):
                        ok('C07', 'exit-codes', w, 'the exit created here has a message', isinstance(t.value, str) and bool(t.value))

    # ------------------------------------------------------------------ results
    def results(self):
        ok = self.rep.ok
        F = {k: sym('r.' + k) for k in ('x', 'resid', 'obj', 'jacobian', 'nf', 'nx', 'nruns', 'flag', 'msg', 'diagnostic_info', 'xmin_eval_num', 'jacmin_eval_nums')}
        arrays = {'x': 'float', 'resid': 'float', 'jacobian': 'float', 'jacmin_eval_nums': 'int'}
        nn = [bnot(isnone(v)) for v in F.values()] + [bnot(isnone(mk('json', F[k]))) for k in arrays]
        nn += [bnot(isnone(v)) for _, c in TABLE.items for v in c.items]
        outs, h, I = self.method('OptimResults', '__init__', {a.arg: sym('f.' + a.arg) for a in self.prog.methods[('OptimResults', '__init__')][1].args.args[1:]})
        consts = {k: v for k, v in outs[0][1].heap['self'].items() if k.startswith('EXIT_')} if outs else {}
        for nojac in (False, True):
            for nonum in (False, True):
                for nodiag in (False, True):
                    for inp in (False, True):
                        fl = dict(F)
                        if nojac:
                            fl['jacobian'] = NONE
                        if nonum:
                            fl['jacmin_eval_nums'] = NONE
                        if nodiag:
                            fl['diagnostic_info'] = NONE
                        facts = list(nn)
                        err = consts.get('EXIT_INPUT_ERROR', const(-1))
                        if inp:
                            if not (nojac and nonum and nodiag):
                                continue
                            for k in ('x', 'resid', 'obj'):
                                fl[k] = NONE
                            fl['flag'] = err
                        else:
                            facts.append(bnot(eq(F['flag'], err)))
                        heap = dict(consts)
                        heap.update(fl)
                        outs, h, I = self.method('OptimResults', '__str__', {}, heap, facts)
                        cfg = 'input error' if inp else 'Jacobian %s, numbers %s, table %s' % tuple('absent' if z else 'present' for z in (nojac, nonum, nodiag))
                        P = ['C07'] if inp else ['C07', 'C20']
                        ok(P, 'printing', self.line, 'str() never fails (%s)' % cfg, False if h.problems or h.raises else True if outs and not any(isinstance(v, T) and v.taint for v, _ in outs) else None,
                           str(h.problems[:1] or h.raises[:1]))
                        if not inp:
                            self.round_trip(F, fl, heap, facts, arrays, cfg)
        self.nan_to_none()

    def unwrap(self, v):
        while isinstance(v, T) and v.op in ('py', 'nonan'):
            v = v.args[-1]
        return v

    def round_trip(self, F, fl, heap, facts, arrays, cfg):
        ok = self.rep.ok
        for replace in (True, False):
            for nanobj in ((False, True) if replace else (False,)):
                def rep_none(I, st, b):
                    d = list(b.values())[0]
                    def go(v):
                        if isinstance(v, Dct):
                            return Dct([(k, go(x)) for k, x in v.items], v.open)
                        if isinstance(v, Lst):
                            return Lst([go(x) for x in v.items]) if v.items is not None else v
                        return mk('nonan', v) if isinstance(v, T) and v is not NONE else v
                    return [(go(d), st)]

                def prep(h):
                    h.json = True
                    h.table = TABLE
                    h.frame = None
                outs, h, I = self.method('OptimResults', 'to_dict', {'replace_nan': TRUE if replace else FALSE}, heap, facts, fn={'replace_nan_with_none': rep_none}, prep=prep)
                line = self.line
                if len(outs) != 1 or not isinstance(outs[0][0], Dct):
                    ok('C20', 'round-trip', line, 'to_dict gives a dictionary (%s)' % cfg, False if h.raises or h.problems else None, str(h.raises[:1] + h.problems[:1]))
                    continue
                for p in h.problems:
                    ok('C20', 'round-trip', p[0], 'to_dict never fails (%s)' % cfg, False, p[1])
                d0 = outs[0][0]
                for m, case in assignments([v for _, v in d0.items], set(F.values())):
                    d = Dct([(k, subst(v, m) if m and isinstance(v, T) else v) for k, v in d0.items], d0.open) if m else d0
                    self.one_trip(d, F, fl, facts, arrays, cfg + (', ' + case if case else ''), replace, nanobj, h, prep, line)

    def one_trip(self, d, F, fl, facts, arrays, cfg, replace, nanobj, h, prep, line):
        ok = self.rep.ok
        back = []
        for k, v in d.items:
            kk = k.args[1]
            if isinstance(v, T) and v is not NONE and kk in fl and kk != 'diagnostic_info':
                wrapped = v.op == 'nonan'
                u = self.unwrap(v)
                inner = v.args[0] if wrapped else v
                if replace and kk in ('x', 'resid', 'obj', 'jacobian'):
                    ok('C20', 'round-trip', line, 'NaN entries of %s become None when asked for (%s)' % (kk, cfg), True if wrapped else False if u is F[kk] or u is mk('list_of', F[kk]) else None)
                if kk in arrays:
                    r = True if u is mk('list_of', F[kk]) else False if u is F[kk] or (u.op == 'list_of' and u.args[0] in F.values()) else None
                else:
                    r = True if u is F[kk] else False if u in F.values() or differ(u, F[kk], [F[i] for i in ('nf', 'nx', 'nruns', 'xmin_eval_num') if i in F]) else None
                    if r and kk == 'xmin_eval_num':
                        r = True if inner.op == 'py' and inner.args[0].args[1] == 'int' else False
                    if r and inner.op == 'py' and inner.args[0].args[1] != {'obj': 'float', 'msg': 'str'}.get(kk, 'int'):
                        r = False
                ok('C20', 'round-trip', line, 'entry %s is %s as plain data (%s)' % (kk, kk, cfg), r, str(v), site='to_dict ' + kk)
                j = mk('json', F[kk]) if kk in arrays else F[kk]
                if kk == 'obj' and nanobj:
                    j = NONE
                back.append((k, j if r else u))
            elif v is NONE and kk in fl:
                ok('C20', 'round-trip', line, 'entry %s is None only if %s is (%s)' % (kk, kk, cfg), fl[kk] is NONE, site='to_dict ' + kk)
                back.append((k, NONE))
            elif kk == 'diagnostic_info':
                u = self.unwrap(v) if isinstance(v, T) else v
                if isinstance(u, Dct):
                    u = self.table_entries(u, h, line, cfg, replace)
                else:
                    ok('C20', 'round-trip', line, 'the diagnostic table is included (%s)' % cfg, (u is NONE) == (fl[kk] is NONE) if u is NONE else None)
                for w, o in h.orient:
                    name = o.args[1] if isinstance(o, T) and o.op == 'const' else None if o is not None else 'dict'
                    ok('C20', 'round-trip', w, 'row labels survive the round trip (orient of the table)', True if name in ('list', 'records', 'tight', 'split') else False if name in ('dict', 'series', 'index') else None, str(name))
                back.append((k, u if isinstance(u, Dct) else NONE))
            else:
                back.append((k, v))
        missing = [k for k in fl if not any(kk.args[1] == k for kk, _ in d.items)]
        ok('C20', 'round-trip', line, 'every field is in the dictionary (%s)' % cfg, not missing if not d.open else None, 'missing %s' % missing)
        if missing:
            return
        b2 = Dct(back)
        outs, h, I = self.method('OptimResults', 'from_dict', {'soln_dict': b2}, {}, facts, prep=prep)
        for p in h.problems:
            ok('C20', 'round-trip', p[0], 'from_dict never fails (%s)' % cfg, False, p[1])
        if len(outs) != 1 or not isinstance(outs[0][0], (Ref, Rec)):
            ok('C20', 'round-trip', self.line, 'from_dict gives a result (%s)' % cfg, False if h.raises else None)
            return
        v, s = outs[0]
        at = s.heap.get(v.id, {}) if isinstance(v, Ref) else dict(v.attrs)
        for k in fl:
            got = at.get(k)
            want = fl[k]
            r = None
            if k == 'diagnostic_info':
                r = True if (got is NONE) == (want is NONE) and isinstance(got, T) and not got.taint else False if isinstance(got, T) and not got.taint else None
                if r and want is not NONE:
                    self.table_back(h, cfg, replace)
            elif got is want:
                r = k not in arrays or want is NONE
            elif isinstance(got, T) and got.op == 'np_array':
                src, dt = got.args[0], got.args[1].args[1]
                dt = {'builtins.float': 'float', 'np.float64': 'float', 'np.double': 'float', 'builtins.int': 'int', 'np.int64': 'int', 'np.int32': 'int', 'None': None}.get(dt, '?')
                if src is mk('json', F.get(k, NONE)) and dt == arrays.get(k):
                    r = True
                elif src.op == 'json' and (src is not mk('json', F.get(k, NONE)) or dt in ('int', 'float') and dt != arrays.get(k)):
                    r = False
                elif dt is None and arrays.get(k) == 'float' and replace:
                    r = False       # None entries make an object array
            elif k == 'obj' and nanobj:
                r = True if 'nan' in str(got) and not getattr(got, 'taint', False) else False if got is NONE else None
            elif isinstance(got, T) and (got in F.values() or got is NONE or got.op == 'json'):
                r = False
            elif isinstance(got, T) and isinstance(want, T) and k not in arrays and not got.taint:
                w = differ(got, want, [F[i] for i in ('nf', 'nx', 'nruns', 'xmin_eval_num') if i in F])
                r = False if w else None
            ok('C20', 'round-trip', self.line, 'field %s survives the round trip (%s%s)' % (k, cfg, ', NaN objective' if nanobj else ''), r, '%s, not %s' % (got, want), site='from_dict ' + k)

    def table_entries(self, u, h, line, cfg, replace):
        """the columns as written; -> the columns as read back from JSON"""
        ok = self.rep.ok
        back = []
        for k, col in TABLE.items:
            name = k.args[1]
            got = u.get(k)
            if got is None:
                ok('C20', 'round-trip', line, 'column %s of the diagnostic table is included (%s)' % (name, cfg), None if u.open else False)
                continue
            out = []
            r = True
            for i, x in enumerate(col.items):
                g = got.items[i] if isinstance(got, (Lst, Tup)) and got.items is not None and len(got.items) == len(col.items) else None
                g = self.unwrap(g) if isinstance(g, T) else g
                if name in ('xk', 'rk'):
                    v = True if g is mk('list_of', x) else False if g is x else None
                    out.append(mk('json', x))
                else:
                    v = True if g is x else None
                    out.append(NONE if replace and name == 'mu' else x)
                r = None if v is None and r else False if v is False else r
            ok('C20', 'round-trip', line, 'column %s of the diagnostic table is plain data (%s)' % (name, cfg), r, str(got))
            back.append((k, Lst(out)))
        return Dct(back, u.open)

    def table_back(self, h, cfg, replace):
        ok = self.rep.ok
        if not h.frame or not isinstance(h.frame[1], Dct) or h.frame[1].open:
            ok('C20', 'round-trip', self.line, 'the table is rebuilt from its columns (%s)' % cfg, None)
            return
        where, a, kw = h.frame
        for k, col in TABLE.items:
            name = k.args[1]
            got = a.get(k)
            r = None if got is not None else False
            if name == 'mu' and isinstance(got, T) and not got.taint:
                r = True if 'nan' in str(got) and got.op not in ('const',) else False if num(got) is not None else None
            elif isinstance(got, (Lst, Tup)) and got.items is not None:
                if len(got.items) != len(col.items):
                    r = False
                else:
                    r = True
                    for g, x in zip(got.items, col.items):
                        if name in ('xk', 'rk'):
                            v = None
                            if isinstance(g, T) and g.op == 'np_array' and g.args[0] is mk('json', x):
                                v = g.args[1].args[1] in ('builtins.float', 'np.float64', 'np.double') or (None if not replace else False)
                            elif g is mk('json', x):
                                v = False
                        elif name == 'mu':
                            v = False if g is NONE else True if g is x or 'nan' in str(g) else None
                        else:
                            v = True if g is x else False if g is NONE else None
                        r = False if v is False else None if v is None and r else r
            ok('C20', 'round-trip', where, 'column %s of the diagnostic table survives the round trip (%s)' % (name, cfg), r, str(got))

    def nan_to_none(self):
        ok = self.rep.ok
        nan, x, i, t = sym('nan'), sym('x'), sym('i'), sym('t')
        types = {nan: 'nan', x: 'float', i: 'int', t: 'str', TRUE: 'bool'}
        if 'replace_nan_with_none' not in self.prog.mods['util'].funcs:
            ok('C20', 'nan-to-none', 'util.py', 'replace_nan_with_none is found', None)
            return
        for text, arg, want in (('a NaN', nan, NONE), ('a number', x, x), ('an integer', i, i), ('a string', t, t), ('None', NONE, NONE),
                                ('a list', Lst((nan, x, Lst((x, nan)))), Lst((NONE, x, Lst((x, NONE))))), ('a nested dictionary', Dct([(const('a'), Lst((nan,))), (const('b'), x), (const('c'), Dct([(const('d'), nan)]))]),
                                                                      Dct([(const('a'), Lst((NONE,))), (const('b'), x), (const('c'), Dct([(const('d'), NONE)]))]))):
            outs, h, I = self.function('util', 'replace_nan_with_none', [arg], types=types)
            r = None
            if len(outs) == 1:
                g = outs[0][0]
                r = True if g is want or g == want else False if isinstance(g, T) and g in types or g == arg or (isinstance(g, T) and g is NONE) else None
            ok('C20', 'nan-to-none', self.line, 'NaN replacement is right for %s' % text, r, str(outs[0][0])[:100] if outs else '')
