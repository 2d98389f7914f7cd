"""Effect rules: references that outlive a copy, caller data, sources of nondeterminism (C19; alias hazards for the numerical modules)."""
import ast
from .alias import Alias, dotted

RANDOM_KEYS = {'init.random_initial_directions', 'regression.momentum_extra_steps', 'restarts.increase_npt', 'restarts.increase_npt_amt',
               'growing.perturb_trust_region_step', 'growing.num_new_dirns_each_iter', 'growing.ndirs_initial', 'init.random_directions_make_orthogonal'}
PURE_RNG = {'RandomState', 'default_rng', 'Generator', 'SeedSequence', 'PCG64', 'MT19937'}
NONDET = {'time.time', 'time.perf_counter', 'time.monotonic', 'time.time_ns', 'time.process_time', 'os.urandom', 'os.getpid', 'uuid.uuid4', 'uuid.uuid1', 'datetime.now',
          'datetime.datetime.now', 'secrets.token_bytes', 'id', 'hash'}
PURE_MODS = {'params', 'controller', 'model', 'solver', 'trust_region', 'util', 'hessian'}

TAGS = {'trust_region': ['C12', 'C13'], 'util': ['C14'], 'model': ['C16', 'C17', 'C03'], 'controller': ['C03', 'C17'], 'solver': ['C03', 'C19'], 'hessian': ['C16']}


def tags(mod, fn, text):
    if fn == 'dykstra':
        return ['C15', 'C09']
    if mod == 'trust_region':
        if fn in ('trsbox', 'alt_trust_step'):
            return ['C12']
        return ['C13']
    if mod == 'controller' and 'trsbox' in text:
        return ['C12', 'C13']
    r = TAGS.get(mod, [])
    if mod == 'model' and (not text or 'jac' in text or 'eval_num' in text):
        r = r + ['C11']
    return r


def alias(prog, rep, tier=None):
    A = Alias(prog).run()
    bad = {}
    for kind, u, line, text in A.hazards:
        bad.setdefault(id(u), []).append((kind, line, text))
    for u in A.units:
        where = '%s.py:%d' % (u.mod, u.node.lineno)
        tg = tags(u.mod, u.name, '')
        name = (u.cls + '.' if u.cls else '') + u.name
        if id(u) not in bad:
            if tg:
                rep.ok(tg, 'alias', where, '%s: no array is read through a reference after being changed in place, none is kept while changed' % name, True)
        for kind, line, text in bad.get(id(u), ()):
            t2 = tags(u.mod, u.name, text)
            if t2:
                rep.ok(t2, 'alias', '%s.py:%d' % (u.mod, line), '%s: no stale reference (%s)' % (name, text), False, text)
    entry = [u for u in A.units if u.name == 'solve' and u.cls is None and u.mod == 'solver']
    for u in entry:
        for p in u.params:
            bad = p in u.mutates or p in u.late
            rep.ok('C19', 'caller-data', 'solver.py:%d' % u.pmut.get(p, u.node.lineno), 'solve never changes the caller\'s %s in place' % p, not bad,
                   'argument %s of solve is changed in place' % p)
    rep.ok('C19', 'caller-data', 'solver.py:1', 'entry point solve found', True if entry else None)
    for u in A.units:
        a = u.node.args
        ps = a.posonlyargs + a.args
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if isinstance(d, (ast.List, ast.Dict, ast.Set)) or (isinstance(d, ast.Call) and dotted(d.func) in ('list', 'dict', 'set', 'np.zeros', 'np.array', 'np.ones')):
                rep.ok('C19', 'default-arg', '%s.py:%d' % (u.mod, u.node.lineno), '%s: mutable default argument %s is never changed' % (u.name, p.arg), p.arg not in u.mutates,
                       'the default value of %s is changed in place and carries over to the next call' % p.arg)


class Calls(object):
    """call sites with the conditions that control them"""

    def __init__(self, prog):
        self.prog = prog
        self.fns = {}          # (mod, cls, name) -> node
        self.sites = {}        # callee name -> [(caller key, call, conds)]
        self.rng = []
        self.other = []
        self.glob = []
        self.fdefs = {}
        self.imports = {}
        for mod, m in prog.mods.items():
            self.imp = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for x in n.names:
                        if x.asname:
                            self.imp[x.asname] = x.name
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    for x in n.names:
                        self.imp[x.asname or x.name] = (n.module or '') + '.' + x.name
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.fn((mod, None, n.name), n)
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            self.fn((mod, n.name, k.name), k)

    def fn(self, key, node):
        self.fns[key] = node
        self.defs = self.fdefs[key] = {}
        for s in ast.walk(node):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.defs.setdefault(s.targets[0].id, []).append(s.value)
            if isinstance(s, ast.Global):
                self.glob.append((key, s.lineno, ','.join(s.names)))
        self.block(key, node.body, [])

    def mention(self, e, key, depth=2):
        r = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
                r.add(n.args[0].value)
            if isinstance(n, ast.Name) and depth > 0:
                for d in self.fdefs[key].get(n.id, ()):
                    r |= self.mention(d, key, depth - 1)
        return r

    def imply(self, e, pos, key, depth=3):
        """does e having truth value pos imply that an option for random directions is on (or the growing phase)?"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.imply(e.operand, not pos, key, depth)
        if isinstance(e, ast.BoolOp):
            rs = [self.imply(v, pos, key, depth) for v in e.values]
            if isinstance(e.op, ast.And) == pos:
                return True if True in rs else None if None in rs else False
            return False if False in rs else None if None in rs else True
        r = self.leaf(e, pos, key, depth)
        if r:
            return True
        if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.Constant) and e.args[0].value in RANDOM_KEYS:
            return False
        return None if pos and self.mention(e, key) & RANDOM_KEYS else False

    def leaf(self, e, pos, key, depth):
        if isinstance(e, ast.Call):
            if dotted(e.func) in ('bool', 'int') and e.args:
                return self.imply(e.args[0], pos, key, depth)
            return pos and bool(e.args) and isinstance(e.args[0], ast.Constant) and e.args[0].value in RANDOM_KEYS
        if isinstance(e, ast.IfExp):
            return all(self.imply(v, pos, key, depth) or self.imply(e.test, t, key, depth) or (isinstance(v, ast.Constant) and bool(v.value) != pos)
                       for v, t in ((e.body, True), (e.orelse, False)))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, op, r = e.left, e.ops[0], e.comparators[0]
            lm, rm = self.mention(l, key), self.mention(r, key)
            zero = isinstance(r, ast.Constant) and r.value in (0, 1, True, False)
            if zero and lm & RANDOM_KEYS:
                up = isinstance(op, (ast.Gt, ast.GtE, ast.NotEq)) if r.value in (0,) and r.value is not False else isinstance(op, (ast.GtE, ast.Eq, ast.Is))
                return up == pos
            if self.npt(r) and not self.npt(l):
                l, r = r, l
                op = {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(type(op), op)
            if self.npt(l) and any(isinstance(n, ast.Attribute) and n.attr == 'num_pts' for n in ast.walk(r)):
                return (isinstance(op, (ast.Lt, ast.LtE, ast.NotEq))) == pos
            return False
        if isinstance(e, (ast.Name, ast.Attribute)):
            nm = e.id if isinstance(e, ast.Name) else e.attr
            if 'grow' in nm.lower():
                return ('finish' in nm.lower() or 'done' in nm.lower()) != pos
            if isinstance(e, ast.Name) and depth > 0:
                ds = self.fdefs[key].get(nm, ())
                return bool(ds) and all(self.imply(d, pos, key, depth - 1) or (isinstance(d, ast.Constant) and bool(d.value) != pos) for d in ds)
        return False

    def npt(self, e):
        return any(isinstance(n, ast.Attribute) and n.attr in ('npt', 'npt_so_far') for n in ast.walk(e))

    def conj(self, e, pos):
        """(term, polarity) conjuncts known to hold when e has truth value pos"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.conj(e.operand, not pos)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if pos else ast.Or):
            r = []
            for v in e.values:
                r += self.conj(v, pos)
            return r
        return [(e, pos)]

    def block(self, key, body, conds):
        conds = list(conds)
        for s in body:
            self.stmt(key, s, conds)
            if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break, ast.Raise)) and not s.orelse:
                conds = conds + self.conj(s.test, False)

    def stmt(self, key, s, conds):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.If):
            self.exprs(key, s.test, conds)
            self.block(key, s.body, conds + self.conj(s.test, True))
            self.block(key, s.orelse, conds + self.conj(s.test, False))
        elif isinstance(s, ast.While):
            self.exprs(key, s.test, conds)
            self.block(key, s.body, conds + self.conj(s.test, True))
            self.block(key, s.orelse, conds)
        elif isinstance(s, ast.For):
            self.exprs(key, s.iter, conds)
            self.block(key, s.body, conds)
            self.block(key, s.orelse, conds)
        elif isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                self.block(key, b, conds)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.exprs(key, i.context_expr, conds)
            self.block(key, s.body, conds)
        else:
            self.exprs(key, s, conds)

    def exprs(self, key, e, conds):
        ifs = {}
        stack = [(e, conds)]
        while stack:
            n, c = stack.pop()
            if isinstance(n, ast.IfExp):
                stack.append((n.test, c))
                stack.append((n.body, c + self.conj(n.test, True)))
                stack.append((n.orelse, c + self.conj(n.test, False)))
                continue
            if isinstance(n, ast.BoolOp):
                cc = list(c)
                for v in n.values:
                    stack.append((v, list(cc)))
                    cc = cc + self.conj(v, isinstance(n.op, ast.And))
                continue
            if isinstance(n, ast.Call):
                d = dotted(n.func) or ''
                terms = c
                parts = d.split('.')
                for _ in range(2):
                    ds = self.defs.get(parts[0], ())
                    if len(ds) == 1 and isinstance(ds[0], (ast.Attribute, ast.Name)) and dotted(ds[0]):
                        parts = dotted(ds[0]).split('.') + parts[1:]
                parts = self.imp.get(parts[0], parts[0]).split('.') + parts[1:]
                d = '.'.join(parts)
                if ('random' in parts[:-1] and parts[0] in ('np', 'numpy', 'random', 'scipy')) or (parts[0] == 'random' and len(parts) > 1):
                    if parts[-1] in PURE_RNG:
                        if not n.args and not n.keywords:
                            self.other.append((key, n.lineno, d + '() without a seed'))
                    elif parts[-1] == 'seed' and n.args:
                        self.other.append((key, n.lineno, 'reseeds the global generator'))
                    else:
                        self.rng.append((key, n, terms))
                elif d in NONDET:
                    self.other.append((key, n.lineno, d))
                if parts[-1]:
                    self.sites.setdefault(parts[-1], []).append((key, n, terms))
                elif isinstance(n.func, ast.Attribute):
                    self.sites.setdefault(n.func.attr, []).append((key, n, terms))
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and (key[0], None, n.id) and not getattr(n, '_called', False):
                pass
            if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, (ast.Set, ast.SetComp)):
                self.other.append((key, n.iter.lineno, 'iteration over a set'))
            for k in ast.iter_child_nodes(n):
                stack.append((k, c))


def rng(prog, rep, tier=None):
    C = Calls(prog)

    def guarded(terms, key):
        rs = [C.imply(e, p, key) for e, p in terms]
        return True if True in rs else None if None in rs else False

    def walk(key, node, terms, path, seen, maybe=False):
        g = guarded(terms, key)
        if g:
            return [(True, path)]
        maybe = maybe or g is None
        if key[2] == 'solve' and key[1] is None:
            return [(None if maybe else False, path)]
        if key in seen:
            return []
        out = []
        for ck, cn, ct in C.sites.get(key[2], ()):
            out += walk(ck, cn, ct, path + ['%s.py:%d %s' % (ck[0], cn.lineno, ck[2])], seen | {key}, maybe)
        return out
    n = 0
    for key, node, terms in C.rng:
        for good, path in walk(key, node, terms, ['%s.py:%d %s' % (key[0], node.lineno, key[2])], frozenset()):
            n += 1
            rep.ok('C19', 'rng', path[-1].split(' ')[0], 'global random generator reached only under an option for random directions: ' + ' <- '.join(p.split(':')[0] + ':' + p.split(' ')[1] for p in path), good,
                   'random numbers are drawn on a path no random-direction option controls: ' + ' <- '.join(path))
    rep.ok('C19', 'rng', 'util.py:1', '%d call paths from solve to the global random generator examined' % n, True)
    reach = set()
    todo = ['solve']
    while todo:
        f = todo.pop()
        for k, node in C.fns.items():
            if (k[2] == f or (k[2] == '__init__' and k[1] == f)) and k not in reach:
                reach.add(k)
                for m in ast.walk(node):
                    if isinstance(m, ast.Attribute):
                        todo.append(m.attr)
                    elif isinstance(m, ast.Name):
                        todo.append(m.id)
    bad = [x for x in C.other if x[0] in reach]
    for key, line, what in bad:
        rep.ok('C19', 'nondet', '%s.py:%d' % (key[0], line), '%s: no other source of nondeterminism (%s)' % (key[2], what), False if 'without a seed' in what else None, what)
    rep.ok('C19', 'nondet', 'solver.py:1', 'no clock, process or set-order dependence in the %d functions reachable from solve' % len(reach), True if not bad else None)
    gl = [g for g in C.glob if g[0] in reach]
    for key, line, names in gl:
        rep.ok('C19', 'global', '%s.py:%d' % (key[0], line), '%s: no module state carried between calls (%s)' % (key[2], names), None)
    # module level containers changed by a reachable function
    for mod, m in prog.mods.items():
        names = {t.id: n.lineno for n in m.tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)
                 and (isinstance(n.value, (ast.List, ast.Dict, ast.Set)) or (isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] in ('zeros', 'array', 'list', 'dict', 'set', 'RandomState', 'default_rng', 'OrderedDict', 'defaultdict', 'count')))}
        for k in reach:
            if k[0] != mod or not names:
                continue
            loc = {a.arg for a in C.fns[k].args.args} | {n.id for n in ast.walk(C.fns[k]) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for n in ast.walk(C.fns[k]):
                t = None
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                    t = n.value.id
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                        n.func.attr in ('append', 'extend', 'update', 'setdefault', 'pop', 'add', 'clear', 'insert', 'normal', 'uniform', 'randn', 'standard_normal', 'randint'):
                    t = n.func.value.id
                if t in names and t not in loc:
                    rep.ok('C19', 'global', '%s.py:%d' % (mod, n.lineno), '%s: module state %s is not changed between calls' % (k[2], t), False, 'module-level %s is changed' % t)


def _poly(e, env):
    from fractions import Fraction
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return {(): Fraction(e.value)}
    if isinstance(e, ast.Name):
        return {(e.id,): Fraction(1)}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        p = _poly(e.operand, env)
        return p and {k: -v for k, v in p.items()}
    if isinstance(e, ast.BinOp):
        a, b = _poly(e.left, env), _poly(e.right, env)
        if a is None or b is None:
            return None
        if isinstance(e.op, (ast.Add, ast.Sub)):
            s = -1 if isinstance(e.op, ast.Sub) else 1
            r = dict(a)
            for k, v in b.items():
                r[k] = r.get(k, 0) + s * v
            return {k: v for k, v in r.items() if v}
        if isinstance(e.op, ast.Mult):
            r = {}
            for k1, v1 in a.items():
                for k2, v2 in b.items():
                    k = tuple(sorted(k1 + k2))
                    r[k] = r.get(k, 0) + v1 * v2
            return {k: v for k, v in r.items() if v}
        if isinstance(e.op, (ast.Div, ast.FloorDiv)) and list(b) == [()]:
            return {k: v / b[()] for k, v in a.items()}
        if isinstance(e.op, ast.Pow) and list(b) == [()] and b[()] == 2:
            return _poly(ast.BinOp(left=e.left, op=ast.Mult(), right=e.left), env)
    return None


OFF_BY_DEFAULT = ['regression.momentum_extra_steps', 'restarts.increase_npt']


def defaults(prog, rep):
    """the options for random directions are off unless the caller asks (or needs them: npt > (n+1)(n+2)/2)"""
    m = prog.mods.get('params')
    vals = {}
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant):
            vals[n.targets[0].slice.value] = n.value
        if isinstance(n, ast.Dict):
            for k, v in zip(n.keys, n.values):
                if isinstance(k, ast.Constant):
                    vals.setdefault(k.value, v)
    for k in OFF_BY_DEFAULT:
        v = vals.get(k)
        c = None if v is None or not isinstance(v, ast.Constant) else not v.value
        rep.ok('C19', 'default', 'params.py:%d' % getattr(v, 'lineno', 1), 'option %s is off by default' % k, c, 'random directions are used by default')
    k = 'init.random_initial_directions'
    v = vals.get(k)
    c = None
    test = v
    pos = True
    if isinstance(v, ast.IfExp) and isinstance(v.body, ast.Constant) and isinstance(v.orelse, ast.Constant):
        test, pos = v.test, bool(v.body.value)
        if bool(v.body.value) == bool(v.orelse.value):
            test = v.body
    if isinstance(test, ast.Constant):
        c = not test.value
    elif isinstance(test, ast.Compare) and len(test.ops) == 1:
        d = _poly(ast.BinOp(left=test.left, op=ast.Sub(), right=test.comparators[0]), None)
        want = _poly(ast.parse('npt - (n+1)*(n+2)/2', mode='eval').body, None)
        if d is not None:
            if isinstance(test.ops[0], (ast.Lt, ast.LtE)):
                d, strict = {a: -b for a, b in d.items()}, isinstance(test.ops[0], ast.Lt)
            else:
                strict = isinstance(test.ops[0], ast.Gt)
            diff = dict(d)
            for a, b in want.items():
                diff[a] = diff.get(a, 0) - b
            diff = {a: b for a, b in diff.items() if b}
            c = (not diff and strict) if pos and isinstance(test.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)) else None
            if pos and not diff and not strict:
                c = False
            if pos and set(diff) == {()}:
                c = True if diff[()] < 0 else (strict is False and diff[()] <= -1) or (diff[()] == 0 and strict)
    rep.ok('C19', 'default', 'params.py:%d' % getattr(v, 'lineno', 1), 'option %s is on by default only when npt > (n+1)(n+2)/2' % k, c, 'random directions are used by default')


def c19(prog, rep, tier=None):
    rng(prog, rep, tier)
    defaults(prog, rep)
