"""A generic abstract interpreter for the Python subset used by dfols.

Domain: value numbering (hash-consed terms) x a set of facts.  Branches are merged with gates (as in gated SSA) or, when that
is impossible, by anti-unification with fresh phi symbols; states are only kept apart when a location holds different *kinds*
of values (None / object / tuple).  Loops are iterated to a fixpoint.  Callees in the analysed package are analysed in their
calling context, so extracting or inlining helpers does not change the result."""
import ast
import os
from fractions import Fraction
from .terms import *
from . import terms as TT
from . import live
from .prove import entails, decide


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and self.items == o.items

    def __hash__(self):
        return hash(('Tup', self.items))

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Lst(object):
    """python list as a value: items known, or None plus a generic element"""
    __slots__ = ('items', 'tag')

    def __init__(self, items, tag=None):
        self.items = None if items is None else tuple(items)
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Lst) and self.items == o.items and self.tag == o.tag

    def __hash__(self):
        return hash(('Lst', self.items, self.tag))

    def __repr__(self):
        return 'Lst%r' % (self.items if self.items is not None else self.tag,)


class Dct(object):
    __slots__ = ('items', 'open')

    def __init__(self, items, open_=False):
        self.items = tuple(items)
        self.open = open_

    def get(self, k):
        for a, b in self.items:
            if a == k:
                return b
        return None

    def __eq__(self, o):
        return isinstance(o, Dct) and self.items == o.items and self.open == o.open

    def __hash__(self):
        return hash(('Dct', self.items))


class Ref(object):
    __slots__ = ('id', 'cls')

    def __init__(self, id_, cls):
        self.id, self.cls = id_, cls

    def __eq__(self, o):
        return isinstance(o, Ref) and self.id == o.id

    def __hash__(self):
        return hash(('Ref', self.id))

    def __repr__(self):
        return 'Ref(%s)' % (self.id,)


class Rec(object):
    """immutable instance value"""
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, tuple(sorted(attrs.items() if isinstance(attrs, dict) else attrs, key=lambda p: p[0]))

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def with_(self, n, v):
        d = dict(self.attrs)
        d[n] = v
        return Rec(self.cls, d)

    def __eq__(self, o):
        return isinstance(o, Rec) and self.cls == o.cls and self.attrs == o.attrs

    def __hash__(self):
        return hash(('Rec', self.cls, self.attrs))

    def __repr__(self):
        return 'Rec(%s,%r)' % (self.cls, self.attrs)


class Fn(object):
    """function, lambda or bound method"""
    __slots__ = ('node', 'mod', 'env', 'self', 'qual', 'home')

    def __init__(self, node, mod, env=None, self_=None, qual='', home=None):
        self.node, self.mod, self.env, self.self, self.qual = node, mod, env, self_, qual
        self.home = home                # (depth, activation) of the frame that defined it

    def __eq__(self, o):
        return isinstance(o, Fn) and self.node is o.node and self.self == o.self

    def __hash__(self):
        return hash(('Fn', id(self.node)))

    def __repr__(self):
        return 'Fn(%s)' % self.qual


class Cls(object):
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Cls) and self.name == o.name

    def __hash__(self):
        return hash(('Cls', self.name))


class Ext(object):
    """external module or function by dotted name"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name

    def __hash__(self):
        return hash(('Ext', self.name))

    def __repr__(self):
        return 'Ext(%s)' % self.name


class Meth(object):
    """method of a plain value (list.append, array.copy)"""
    __slots__ = ('recv', 'name', 'lval')

    def __init__(self, recv, name, lval):
        self.recv, self.name, self.lval = recv, name, lval

    def __eq__(self, o):
        return isinstance(o, Meth) and self.name == o.name and self.recv == o.recv

    def __hash__(self):
        return hash(('Meth', self.name))


class State(object):
    __slots__ = ('frames', 'heap', 'facts', 'g', '_fz', 'broken')

    def __init__(self):
        self.frames, self.heap, self.facts, self.g, self._fz = [], {}, set(), {}, None
        self.broken = frozenset()

    def copy(self):
        s = State()
        s.frames = [dict(f) for f in self.frames]
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.facts = set(self.facts)
        s.g = dict(self.g)
        s._fz = self._fz
        s.broken = self.broken
        return s

    @property
    def env(self):
        return self.frames[-1]

    def fz(self):
        if self._fz is None or len(self._fz) != len(self.facts):
            self._fz = frozenset(self.facts)
        return self._fz

    def assume(self, t):
        if t is TRUE:
            return
        if t.op == 'and':
            for x in t.args:
                self.assume(x)
            return
        self.facts.add(t)
        self._fz = None

    def entails(self, t, depth=5):
        return entails(self.fz(), t, depth)


class Module(object):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.consts, self.stars = {}, {}, {}, {}, []
        for st in self.tree.body:
            self._top(st)

    def _top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.funcs[st.name] = st
        elif isinstance(st, ast.ClassDef):
            self.classes[st.name] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.imports[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                if a.name == '*':
                    self.stars.append(('.' if st.level else '') + (st.module or ''))
                else:
                    self.imports[a.asname or a.name] = ('.' if st.level else '') + (st.module or '') + '.' + a.name
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.consts[t.id] = st.value
        elif isinstance(st, (ast.Try, ast.If)):
            for b in st.body + getattr(st, 'orelse', []):
                self._top(b)
            for h in getattr(st, 'handlers', []):
                for b in h.body:
                    self._top(b)


class Program(object):
    def __init__(self, root='/repo/dfols'):
        self.root = root
        self.mods = {}
        for f in sorted(os.listdir(root)):
            if f.endswith('.py'):
                self.mods[f[:-3]] = Module(f[:-3], os.path.join(root, f))
        self.classes = {}
        self.methods = {}
        for m in self.mods.values():
            for c, node in m.classes.items():
                self.classes[c] = (m, node)
                for st in node.body:
                    if isinstance(st, ast.FunctionDef):
                        self.methods[(c, st.name)] = (m, st)
        self.mutable = {}
        from .desugar import desugar
        desugar(self)

    def lookup(self, mod, name, seen=None):
        """module-level name -> ('func'|'class'|'const'|'ext', ...)"""
        seen = seen or set()
        if (mod, name) in seen or mod not in self.mods:
            return None
        seen.add((mod, name))
        m = self.mods[mod]
        if name in m.funcs:
            return ('func', mod, m.funcs[name])
        if name in m.classes:
            return ('class', name)
        if name in m.consts:
            return ('const', mod, m.consts[name])
        if name in m.imports:
            t = m.imports[name]
            if t.startswith('.'):
                a, b = t[1:].rsplit('.', 1) if '.' in t[1:] else ('', t[1:])
                if a in self.mods:
                    return self.lookup(a, b, seen)
                if b in self.mods and not a:
                    return ('ext', 'dfols.' + b)
                return ('ext', t)
            if t.startswith('dfols.'):
                a, b = t[6:].rsplit('.', 1) if '.' in t[6:] else (t[6:], None)
                if b and a in self.mods:
                    return self.lookup(a, b, seen)
            return ('ext', t)
        for s in m.stars:
            r = self.lookup(s.lstrip('.'), name, seen) if s.startswith('.') else None
            if r:
                return r
        return None

    def is_value_class(self, name):
        """no method but __init__ stores to self: instances behave as values"""
        r = self.mutable.get(name)
        if r is None:
            r = True
            for st in self.classes[name][1].body:
                if isinstance(st, ast.FunctionDef) and st.name != '__init__':
                    for n in ast.walk(st):
                        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                            b = n
                            while isinstance(b, (ast.Attribute, ast.Subscript)):
                                b = b.value
                            if isinstance(b, ast.Name) and b.id == 'self':
                                r = False
            self.mutable[name] = r
        return r


EXT_ALIASES = {'scipy.linalg': 'LA', 'numpy.linalg': 'LA', 'numpy': 'np', 'scipy.stats': 'STAT'}


def canon_ext(name):
    for a in ('numpy.linalg', 'scipy.linalg'):
        if name == a or name.startswith(a + '.'):
            return 'LA' + name[len(a):]
    if name == 'numpy' or name.startswith('numpy.'):
        return 'np' + name[5:]
    if name.startswith('np.linalg'):
        return 'LA' + name[9:]
    return name


BOOLOPS = ('le0', 'lt0', 'eq', 'eq0', 'not', 'and', 'or', 'isnone', 'truth', 'any', 'all', 'isnan', 'isfinite', 'in')


def is_bool(t):
    return isinstance(t, T) and (t in (TRUE, FALSE) or t.op in BOOLOPS)


class Unsupported(Exception):
    pass


def kind(v):
    if isinstance(v, T):
        return 'T'
    if isinstance(v, Tup):
        return ('tup',) + tuple(kind(x) for x in v.items)
    if isinstance(v, Lst):
        return 'lst'
    if isinstance(v, Ref):
        return ('ref', v.id)
    if isinstance(v, Rec):
        return ('rec', v.cls)
    if isinstance(v, Fn):
        return ('fn', id(v.node))
    if isinstance(v, Dct):
        return 'dct'
    if isinstance(v, Meth):
        return ('meth', v.name)
    return ('x', repr(v))


def kind_n(v):
    if v is NONE:
        return 'N'
    return kind(v)


STRUCT = {'buf', 'smp', 'rm', 'X', 'OBJ', 'idx', 'unscale', 'feas', 'rowpt', 'rowns', 'kopt', 'dist', 'objval', 'sumsq', 'norm', 'hval', 'JAC', 'JN',
          'samples', 'FPT'}


class Joiner(object):
    """anti-unification of the locations of several states with shared phi symbols"""

    def __init__(self, tag):
        self.tag = tag
        self.map = {}
        self.phis = {}      # phi -> tuple of terms

    def phi(self, ts):
        p = self.map.get(ts)
        if p is None:
            p = taint('phi') if all(t.taint for t in ts) else fresh('%s' % self.tag)
            self.map[ts] = p
            self.phis[p] = ts
        return p

    def au(self, ts, depth=0):
        t0 = ts[0]
        if all(t is t0 for t in ts):
            return t0
        if t0.op == 'pset' and all(t.op == 'pset' for t in ts):
            full = [t for t in ts if t.args[0] is not NONE]
            if full and all(t.args[0] is full[0].args[0] for t in full):
                ts = tuple(t if t.args[0] is not NONE else mk('pset', full[0].args[0], full[0].args[1], full[0].args[1]) for t in ts)
                return mk('pset', full[0].args[0], self.au(tuple(t.args[1] for t in ts), depth + 1), self.au(tuple(t.args[2] for t in ts), depth + 1))
            return mk('pset', mk('any'), const(0), const(0))
        if depth < 4 and all(t.op == t0.op and len(t.args) == len(t0.args) for t in ts) and t0.op in STRUCT:
            return TT.rebuild(t0.op, tuple(self.au_arg(tuple(t.args[i] for t in ts), depth + 1) for i in range(len(t0.args))))
        if any(is_bool(t) or (t.op == 'const') for t in ts):
            return self.phi(ts)
        # linear: factor out the common part and a constant offset, normalise the sign
        ps = [parts(t) for t in ts]
        common = {a: k for a, k in ps[0][0].items() if all(p[0].get(a) == k for p in ps[1:])}
        rest = [({a: k for a, k in p[0].items() if a not in common}, p[1]) for p in ps]
        c0 = rest[0][1]
        rest = [(d, c - c0) for d, c in rest]
        lead = None
        for d, c in rest:
            if d:
                lead = d[min(d, key=lambda a: a.id)]
                break
        if lead is None:
            for d, c in rest:
                if c:
                    lead = c
                    break
        sgn = 1 if lead is None or lead > 0 else -1
        key = tuple(lin({a: sgn * k for a, k in d.items()}, sgn * c) for d, c in rest)
        if not common and sgn == 1 and depth < 4:
            k0 = key[0]
            if all(t.op == k0.op and len(t.args) == len(k0.args) for t in key) and k0.op in STRUCT:
                inner = self.au(key, depth + 1)
                return add(inner, const(0) if c0 == 0 else lin({}, c0))
        p = self.phi(key)
        return add(scale(p, sgn), lin(common, c0))

    def au_arg(self, ts, depth):
        if all(isinstance(t, T) for t in ts):
            return self.au(ts, depth)
        if all(t == ts[0] for t in ts):
            return ts[0]
        if all(isinstance(t, tuple) and len(t) == len(ts[0]) for t in ts):
            return tuple(self.au_arg(tuple(t[i] for t in ts), depth) for i in range(len(ts[0])))
        return taint('au')

    def val(self, vs):
        v0 = vs[0]
        if all(v is v0 for v in vs):
            return v0
        if all(isinstance(v, T) for v in vs):
            return self.au(tuple(vs))
        if all(isinstance(v, Tup) and len(v.items) == len(v0.items) for v in vs) and isinstance(v0, Tup):
            return Tup(self.val([v.items[i] for v in vs]) for i in range(len(v0.items)))
        if isinstance(v0, Lst) and all(isinstance(v, Lst) for v in vs):
            if v0.items is not None and all(v.items is not None and len(v.items) == len(v0.items) for v in vs):
                return Lst([self.val([v.items[i] for v in vs]) for i in range(len(v0.items))])
            if all(v == v0 for v in vs):
                return v0
            return self.hook_lst(vs)
        if isinstance(v0, Rec) and all(isinstance(v, Rec) and v.cls == v0.cls for v in vs):
            ks = [k for k, _ in v0.attrs if all(v.get(k) is not None for v in vs)]
            return Rec(v0.cls, {k: self.val([v.get(k) for v in vs]) for k in ks})
        if all(v == v0 for v in vs):
            return v0
        return taint('mix')

    def hook_lst(self, vs):
        return Lst(None, 'join')


def locations(st):
    """all (path, value) pairs of a state"""
    for i, f in enumerate(st.frames):
        for k, v in f.items():
            if not k.startswith('__alias_'):
                yield ('f', i, k), v
    for o, d in st.heap.items():
        for k, v in d.items():
            yield ('h', o, k), v
    for k, v in st.g.items():
        yield ('g', k), v


def set_location(st, path, v):
    if path[0] == 'f':
        st.frames[path[1]][path[2]] = v
    elif path[0] == 'h':
        st.heap[path[1]][path[2]] = v
    else:
        st.g[path[1]] = v


def del_location(st, path):
    if path[0] == 'f':
        st.frames[path[1]].pop(path[2], None)
    elif path[0] == 'h':
        st.heap[path[1]].pop(path[2], None)
    else:
        st.g.pop(path[1], None)


class Hooks(object):
    def call_function(self, I, st, qual, node, selfv, bound):
        return None

    def call_ext(self, I, st, name, args, kw, node):
        return None

    def call_value(self, I, st, fn, args, kw, node):
        return None

    def instantiate(self, I, st, cls, args, kw, node):
        return None

    def getattr(self, I, st, ref, name, node):
        return None

    def setattr(self, I, st, ref, name, v, node):
        return False

    def on_assume(self, I, st, cond):
        pass

    def on_store(self, I, st, arr, key, v):
        return None

    def templates(self, st):
        return []

    def discrete(self, st):
        return ()

    def none_matters(self, path):
        return False

    def opaque_ref(self, I, st, ref, name, args, node):
        return None

    def compare(self, I, st, op, a, b, node):
        return None

    def allow_map(self, node):
        return True

    def trial(self, on):
        pass

    def normalise(self, I, st):
        pass

    def join_templates(self, st, phis):
        return []

    def joined(self, I, st, states):
        pass

    def merged(self, I, st, a, b):
        pass

    def keepsakes(self, st):
        """conclusions to draw before facts about dead values are dropped"""
        return ()

    def havoc(self, I, node, name, v):
        return None

    def loop_head(self, I, node, entry, head):
        pass

    def on_loop(self, I, node, entries, heads, backs, exits, done):
        """stabilised loop: head states (symbolic), states at the back edge, at normal exit/break, and leaving otherwise"""


class Interp(object):
    def __init__(self, prog, hooks, max_depth=40):
        self.prog, self.hooks, self.max_depth = prog, hooks, max_depth
        self.depth = 0
        self.funcs_seen = set()
        self.calls = 0
        self.stack = []          # (qual, line)
        self.unsupported = set()
        self.log = []            # obligations, transactional
        self.modstack = []
        self.max_recursion = 1

    # ------------------------------------------------------------------ helpers
    def where(self, node):
        mod = self.modstack[-1] if self.modstack else '?'
        return '%s.py:%s' % (mod, getattr(node, 'lineno', '?'))

    def unsup(self, node, why):
        self.unsupported.add('%s %s' % (self.where(node), why))
        return taint(why)

    # ------------------------------------------------------------------ joins
    def shape(self, st):
        out = [len(st.frames)]
        for p, v in locations(st):
            k = kind(v)
            if k == 'T':
                if self.hooks.none_matters(p) and v is NONE:
                    out.append((p, 'N'))
                continue
            out.append((p, k))
        out.sort(key=repr)
        return (tuple(map(repr, out)), self.hooks.discrete(st))

    nojoin = 0
    minmax = False

    def reduce(self, states, tag='j'):
        """merge states of equal shape (dropping locations not defined in all)"""
        if len(states) < 2:
            return states
        if self.nojoin and len(states) <= self.nojoin:
            return states
        groups = {}
        for s in states:
            groups.setdefault(self.shape(s), []).append(s)
        out = []
        for k, g in groups.items():
            out.append(g[0] if len(g) == 1 else self.join(g, tag))
        return out

    def join(self, states, tag='j'):
        J = Joiner(tag)
        J.hook_lst = lambda vs: self.join_lists(J, vs)
        base = states[0].copy()
        locs = [dict(locations(s)) for s in states]
        for p, v in list(locs[0].items()):
            vs = []
            for l in locs:
                if p not in l:
                    break
                vs.append(l[p])
            if len(vs) < len(locs):
                del_location(base, p)
                continue
            if all(x is v or (not isinstance(x, T) and x == v) for x in vs):
                continue
            set_location(base, p, J.val(vs))
        facts = set(states[0].facts)
        for s in states[1:]:
            facts &= s.facts
        base.facts = facts
        base._fz = None
        # candidate facts on the phis
        cands = set()
        inv = [dict() for _ in states]
        for phi, ts in J.phis.items():
            if phi.taint:
                continue
            for i, t in enumerate(ts):
                if t.op not in ('const', 'lin') and not is_bool(t):
                    inv[i].setdefault(t, phi)
        for i, s in enumerate(states):
            if not inv[i]:
                continue
            keys = set(inv[i])
            for f in s.facts:
                if f not in facts and f.size < 40 and f.op != 'or' and subterms(f) & keys:
                    cands.add(subst(f, inv[i]))
        for phi, ts in J.phis.items():
            if phi.taint or any(is_bool(t) or t.op == 'const' for t in ts):
                continue
            for t in set(ts):
                if t.size < 25:
                    cands.add(le(t, phi))
                    cands.add(le(phi, t))
        sig = [{phi: ts[i] for phi, ts in J.phis.items()} for i in range(len(states))]
        for c in cands:
            if c in facts or c.taint:
                continue
            if all(s.entails(subst(c, sig[i]), 2) for i, s in enumerate(states)):
                base.assume(c)
        for c in self.hooks.templates(base) + self.hooks.join_templates(base, J.phis):
            if c in base.facts or c is TRUE or c is FALSE:
                continue
            if all(s.entails(subst(c, sig[i]), 3) for i, s in enumerate(states)):
                base.assume(c)
        for s in states:
            base.broken |= s.broken
        self.hooks.joined(self, base, states)
        return base

    def join_lists(self, J, vs):
        return Lst(None, 'join')

    def gate(self, c, a, b):
        """merge two states of equal shape with ite on c; None when shapes differ"""
        if self.shape(a) != self.shape(b):
            return None
        base = a.copy()
        la, lb = dict(locations(a)), dict(locations(b))
        for p, v in la.items():
            if p not in lb:
                if not self.maydef:
                    del_location(base, p)
                continue
            w = lb[p]
            if v is w or (not isinstance(v, T) and v == w):
                continue
            set_location(base, p, self.gate_val(c, v, w))
        if self.maydef:             # a name bound on one side only: where it is read without error, it has that value
            for p, w in lb.items():
                if p not in la:
                    set_location(base, p, w)
        common = a.facts & b.facts
        base.facts = set(common)
        nc = bnot(c)
        for f in a.facts - common:
            if f.size < 60 and (f.op != 'or' or f.size < 14):
                base.facts.add(bor(nc, f))
        for f in b.facts - common:
            if f.size < 60 and (f.op != 'or' or f.size < 14):
                base.facts.add(bor(c, f))
        base.facts.discard(TRUE)
        base._fz = None
        base.broken = a.broken | b.broken
        return base

    factor_common = False
    maydef = False

    def gate_val(self, c, v, w):
        if v is w:
            return v
        if isinstance(v, T) and isinstance(w, T):
            if self.factor_common and (v.op == 'lin' or w.op == 'lin') and not is_bool(v) and not is_bool(w):
                dv, cv = parts(v)
                dw, cw = parts(w)
                com = {a: k for a, k in dv.items() if dw.get(a) == k and not is_bool(a)}
                if com:
                    base = lin(com, 0)
                    return add(base, ite(c, sub(v, base), sub(w, base)))
            return pick(c, v, w) if self.minmax else ite(c, v, w)
        if isinstance(v, Tup) and isinstance(w, Tup) and len(v.items) == len(w.items):
            return Tup(self.gate_val(c, x, y) for x, y in zip(v.items, w.items))
        if isinstance(v, Rec) and isinstance(w, Rec) and v.cls == w.cls:
            return Rec(v.cls, {k: self.gate_val(c, x, w.get(k)) for k, x in v.attrs if w.get(k) is not None})
        if isinstance(v, Lst) and isinstance(w, Lst):
            if v.items is not None and w.items is not None and len(v.items) == len(w.items):
                return Lst([self.gate_val(c, x, y) for x, y in zip(v.items, w.items)])
            return v if v == w else Lst(None, ('ite', c, v, w))
        if isinstance(v, Dct) and isinstance(w, Dct) and len(v.items) == len(w.items) and all(x[0] is y[0] for x, y in zip(v.items, w.items)):
            return Dct([(x[0], self.gate_val(c, x[1], y[1])) for x, y in zip(v.items, w.items)], v.open or w.open)
        return v if v == w else taint('mix')

    # ------------------------------------------------------------------ truth and assumption
    def truth(self, v):
        if isinstance(v, T):
            if is_bool(v):
                return v
            if v is NONE:
                return FALSE
            if v.op == 'const':
                return TRUE if v.args[1] else FALSE
            n = num(v)
            if n is not None:
                return TRUE if n else FALSE
            if v.op == 'ite':
                return ite(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
            return mk('truth', v)
        if isinstance(v, (Tup, Lst, Dct)):
            if isinstance(v, Lst) and v.items is None:
                return mk('truth', sym('lst:%r' % (v.tag,)))
            return TRUE if v.items else FALSE
        return TRUE

    def branch(self, st, c):
        """-> (state where c, state where not c), None if infeasible"""
        d = decide(st.fz(), c)
        if d is True:
            return st, None
        if d is False:
            return None, st
        a = st
        b = st.copy()
        a.assume(c)
        b.assume(bnot(c))
        self.hooks.on_assume(self, a, c)
        self.hooks.on_assume(self, b, bnot(c))
        return a, b

    # ------------------------------------------------------------------ statements
    def block(self, stmts, states):
        """-> (list of next states, list of (kind, state, value))"""
        done = []
        for s in stmts:
            nxt = []
            for st in states:
                for o in self.stmt(s, st):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    else:
                        done.append(o)
            states = nxt
            if self.prune_on:
                lv = self.live()
                if lv is not None and id(s) in lv.out:
                    self.drop_dead(states, lv.out[id(s)], lv)
            if len(states) > 1:
                states = self.reduce(states)
            if not states:
                break
        return states, done

    # ------------------------------------------------------------------ dead names and dead facts
    prune_on = False

    def live(self):
        f = self.stack[-1][0] if self.stack else None
        if f is None or isinstance(f, ast.Lambda):
            return None
        return live.table(f)

    def drop_dead(self, states, keep, lv):
        for st in states:
            fr = st.frames[-1]
            dead = [k for k in fr if not k.startswith('__') and k not in keep and k not in lv.always]
            for k in dead:
                del fr[k]
                fr.pop('__alias_' + k, None)

    def tidy(self, states):
        for st in states:
            self.hooks.normalise(self, st)
        self.prune(states)

    def prune(self, states):
        """drop facts about values no location refers to any more"""
        if not self.prune_on:
            return
        for st in states:
            if len(st.facts) < 40:
                continue
            lv = set()

            def go(v):
                if isinstance(v, T):
                    lv.update(syms(v))
                elif isinstance(v, (Tup, Lst)):
                    for x in v.items or ():
                        go(x)
                elif isinstance(v, Rec):
                    for _, x in v.attrs:
                        go(x)
                elif isinstance(v, Fn) and isinstance(v.self, T):
                    go(v.self)
            for p, v in locations(st):
                go(v)
            n = len(st.facts)
            new = {f for f in st.facts if all(s in lv or (s.op == 'sym' and '#' not in s.args[0]) for s in syms(f))}
            if len(new) != n:
                new.update(t for t in self.hooks.keepsakes(st) if t not in new and not t.taint and t is not TRUE and st.entails(t))
                st.facts = new
                st._fz = None

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsup(s, 'statement ' + type(s).__name__)
            return [('next', st, None)]
        return m(s, st)

    def s_Pass(self, s, st):
        return [('next', st, None)]

    s_Import = s_ImportFrom = s_Global = s_Pass

    def s_Nonlocal(self, s, st):
        h = st.env.get('__alias_#home')
        for n in s.names:
            k = h
            while k is not None and n not in st.frames[k]:
                k = st.frames[k].get('__alias_#home')
            if k is None:
                self.unsup(s, 'nonlocal ' + n)
            else:
                st.env['__alias_#out_' + n] = k
        return [('next', st, None)]

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [('next', st, None)]
        return [('next', t, None) for v, t in self.ev(s.value, st)]

    def alias_path(self, e, st):
        """heap location a plain name/attribute expression refers to"""
        if isinstance(e, ast.Name):
            return st.env.get('__alias_' + e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, (ast.Name, ast.Attribute)):
            try:
                o = self.ev(e.value, st)[0][0]
            except Exception:
                return None
            if isinstance(o, Ref) and e.attr in st.heap.get(o.id, {}):
                return (o.id, e.attr)
        return None

    def note_alias(self, tg, e, st):
        if isinstance(tg, ast.Name):
            p = self.alias_path(e, st) if e is not None else None
            if p:
                st.env['__alias_' + tg.id] = p
            else:
                st.env.pop('__alias_' + tg.id, None)

    def s_Assign(self, s, st):
        out = []
        al = self.alias_path(s.value, st) if isinstance(s.value, (ast.Name, ast.Attribute)) else None
        for v, t in self.ev(s.value, st):
            for tg in s.targets:
                self.assign(tg, v, t)
                if isinstance(tg, ast.Name):
                    if al and isinstance(v, T):
                        t.env['__alias_' + tg.id] = al
                    else:
                        t.env.pop('__alias_' + tg.id, None)
            out.append(('next', t, None))
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [('next', st, None)]
        out = []
        for v, t in self.ev(s.value, st):
            self.assign(s.target, v, t)
            out.append(('next', t, None))
        return out

    def s_AugAssign(self, s, st):
        out = []
        ld = ast.parse(ast.unparse(s.target), mode='eval').body
        ast.copy_location(ld, s.target)
        for n in ast.walk(ld):
            ast.copy_location(n, s.target)
        for a, t in self.ev(ld, st):
            for b, t2 in self.ev(s.value, t):
                if isinstance(a, Lst) and isinstance(s.op, ast.Add):
                    r = self.lst_concat(a, b)
                else:
                    r = self.binop(s.op, a, b, s)
                self.assign(s.target, r, t2)
                out.append(('next', t2, None))
        return out

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return [('next', st, None)]

    def s_Return(self, s, st):
        if s.value is None:
            return [('return', st, NONE)]
        return [('return', t, v) for v, t in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [('break', st, None)]

    def s_Continue(self, s, st):
        return [('continue', st, None)]

    def s_Raise(self, s, st):
        return [('raise', st, s)]

    def s_Assert(self, s, st):
        out = []
        for v, t in self.ev(s.test, st):
            c = self.truth(v)
            if c is FALSE:
                continue
            if not c.taint:
                t.assume(c)
            out.append(('next', t, None))
        return out

    def s_FunctionDef(self, s, st):
        st.env[s.name] = Fn(s, self.modstack[-1], env=st.env, qual=s.name, home=(len(st.frames) - 1, st.env.get('__alias_#fn')))
        return [('next', st, None)]

    def s_With(self, s, st):
        nxt, done = self.block(s.body, [st])
        return [('next', x, None) for x in nxt] + done

    def s_If(self, s, st):
        res = []
        for v, t in self.ev(s.test, st):
            c = self.truth(v)
            a, b = self.branch(t, c)
            if a is None or b is None:
                nxt, done = self.block(s.body if b is None else s.orelse, [a or b])
                res += [('next', x, None) for x in nxt] + done
                continue
            an, ad = self.block(s.body, [a])
            bn, bd = self.block(s.orelse, [b]) if s.orelse else ([b], [])
            an, bn = self.reduce(an), self.reduce(bn)
            used = set()
            for x in an:
                hit = None
                for j, y in enumerate(bn):
                    if j not in used:
                        m = self.gate(c, x, y)
                        if m is not None:
                            hit = (j, m)
                            break
                if hit:
                    used.add(hit[0])
                    self.hooks.merged(self, hit[1], x, bn[hit[0]])
                    res.append(('next', hit[1], None))
                else:
                    res.append(('next', x, None))
            res += [('next', y, None) for j, y in enumerate(bn) if j not in used]
            res += ad + bd
        return res

    def s_Try(self, s, st):
        states = [st]
        pres = [st.copy()]
        done = []
        for b in s.body:
            nxt = []
            for x in states:
                for o in self.stmt(b, x):
                    if o[0] == 'next':
                        nxt.append(o[1])
                    elif o[0] == 'raise':
                        pres.append(o[1])
                        done.append(o)
                    else:
                        done.append(o)
            states = self.reduce(nxt)
            if b is not s.body[-1]:
                pres += [x.copy() for x in states]
            if not states:
                break
        if s.orelse:
            states, d2 = self.block(s.orelse, states)
            done += d2
        outs = [('next', x, None) for x in states]
        pres = self.reduce(pres)
        for h in s.handlers:
            for p in pres:
                q = p.copy()
                if h.name:
                    q.env[h.name] = fresh('exc')
                nxt, d2 = self.block(h.body, [q])
                outs += [('next', x, None) for x in nxt] + d2
        outs += done
        if s.finalbody:
            res = []
            for k, x, v in outs:
                nxt, d2 = self.block(s.finalbody, [x])
                res += [(k, y, v) for y in nxt] + d2
            outs = res
        return outs

    # ------------------------------------------------------------------ loops
    def s_While(self, s, st):
        def head(x):
            tr, fa = [], []
            for v, t in self.ev(s.test, x):
                a, b = self.branch(t, self.truth(v))
                if a is not None:
                    tr.append(a)
                if b is not None:
                    fa.append(b)
            return tr, fa
        return self.loop(s, [st], head, lambda x: [x])

    def s_For(self, s, st):
        res = []
        for v, t in self.iter_source(s.iter, st):
            if v[0] == 'unroll':
                states, done = [t], []
                brk = []
                for pos, it in enumerate(v[1]):
                    nxt = []
                    for x in states:
                        self.assign(s.target, it, x)
                        self.note_alias(s.target, s.iter.elts[pos] if isinstance(s.iter, (ast.Tuple, ast.List)) and len(s.iter.elts) == len(v[1]) else None, x)
                        n, d = self.block(s.body, [x])
                        nxt += n
                        for o in d:
                            if o[0] == 'continue':
                                nxt.append(o[1])
                            elif o[0] == 'break':
                                brk.append(o[1])
                            else:
                                done.append(o)
                    states = self.reduce(nxt)
                if s.orelse:
                    states, d = self.block(s.orelse, states)
                    done += d
                res += [('next', x, None) for x in self.reduce(states + brk)] + done
                continue
            lo, hi, step, elem = v[1:]
            k = '__k%d_%d' % (s.lineno, s.col_offset)
            t.env[k] = lo

            def head(x, k=k, hi=hi, step=step, elem=elem):
                kv = x.env[k]
                c = lt(kv, hi) if (num(step) is None or num(step) > 0) else lt(hi, kv)
                a, b = self.branch(x, c)
                if a is not None:
                    if num(step) == 1:
                        a.assume(le(add(kv, const(1)), hi))     # integers
                    self.assign(s.target, elem(kv), a)
                return ([a] if a is not None else []), ([b] if b is not None else [])

            def step_(x, k=k, step=step):
                x.env[k] = add(x.env[k], step)
                return [x]
            if num(step) == 1 and not s.orelse:
                r = self.try_map(s, t, k, lo, hi, elem)
                if r is not None:
                    res.append(('next', r, None))
                    continue
            for o in self.loop(s, [t], head, step_, bound=(k, lo, hi, step)):
                o[1].env.pop(k, None)
                res.append(o)
        return res

    def iter_source(self, e, st):
        """-> [(descr, state)], descr = ('unroll', items) | ('range', lo, hi, step, elem)"""
        one = const(1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('range', 'enumerate', 'zip', 'reversed') \
                and e.func.id not in st.env and not e.keywords:
            if e.func.id == 'range':
                out = []
                for args, t in self.evs(e.args, st):
                    if len(args) == 1:
                        lo, hi, step = const(0), args[0], one
                    elif len(args) == 2:
                        lo, hi, step = args[0], args[1], one
                    else:
                        lo, hi, step = args
                    out.append((('range', lo, hi, step, lambda k: k), t))
                return out
            if e.func.id == 'enumerate' and len(e.args) == 1:
                out = []
                for d, t in self.iter_source(e.args[0], st):
                    if d[0] == 'unroll':
                        out.append((('unroll', [Tup((const(i), x)) for i, x in enumerate(d[1])]), t))
                    else:
                        out.append((('range', d[1], d[2], d[3], (lambda el, lo: lambda k: Tup((sub(k, lo), el(k))))(d[4], d[1])), t))
                return out
            if e.func.id == 'zip':
                ds = None
                t = st
                descs = []
                for a in e.args:
                    r = self.iter_source(a, t)
                    if len(r) != 1:
                        break
                    descs.append(r[0][0])
                    t = r[0][1]
                else:
                    if all(d[0] == 'range' and d[1] is descs[0][1] for d in descs):
                        return [(('range', descs[0][1], minmax('min', [d[2] for d in descs]), one,
                                  lambda k: Tup([d[4](k) for d in descs])), t)]
                    if all(d[0] == 'unroll' for d in descs):
                        return [(('unroll', [Tup(x) for x in zip(*[d[1] for d in descs])]), t)]
        out = []
        for v, t in self.ev(e, st):
            if isinstance(v, (Tup, Lst)) and v.items is not None and len(v.items) <= 40:
                out.append((('unroll', list(v.items)), t))
            elif isinstance(v, Dct) and not v.open and len(v.items) <= 100:
                out.append((('unroll', [k for k, _ in v.items]), t))
            elif isinstance(v, T) and v.op == 'arange' and v.args[1] is not NONE:
                out.append((('range', v.args[0], v.args[1], one, lambda k: k), t))
            elif isinstance(v, Lst):
                n = mk('len', sym('lst:%r' % (v.tag,)))
                out.append((('range', const(0), n, one, lambda k, v=v, t=t: self.lst_elem(t, v, k)), t))
            elif isinstance(v, T):
                b, lo, hi = self.flat_slice(v)
                out.append((('range', lo, hi, one, lambda k, b=b: self.index(b, (k,))), t))
            else:
                out.append((('range', const(0), fresh('len'), one, lambda k: taint('iter')), t))
        return out

    def flat_slice(self, v):
        """(array, lo, hi) when v is a contiguous slice (of slices) of the rows of array"""
        if v.op == 'idx' and len(v.args) == 2 and v.args[1].op == 'slice' and (v.args[1].args[2] is NONE or num(v.args[1].args[2]) == 1):
            b, l0, h0 = self.flat_slice(v.args[0])
            lo, hi = v.args[1].args[0], v.args[1].args[1]
            neg = lambda t: num(t) is not None and num(t) < 0
            l = l0 if lo is NONE else add(h0, lo) if neg(lo) else add(l0, lo)
            if hi is NONE:
                return b, l, h0
            h = add(h0, hi) if neg(hi) else add(l0, hi)
            if b is not v.args[0] and not neg(hi):
                h = minmax('min', [h, h0])
            return b, l, h
        return v, const(0), self.length(v)

    def lst_elem(self, st, v, k):
        return taint('list element')

    def loop(self, node, entries, head, step, bound=None):
        if self.havoc:
            return self.loop1(node, entries, head, step, bound)
        tag = 'L%d' % node.lineno
        heads = {}
        lv = self.live() if self.prune_on else None
        hl = lv.head.get(id(node)) if lv is not None else None
        if hl is not None:
            self.drop_dead(entries, hl, lv)
            self.tidy(entries)
        for e in self.reduce(entries, tag):
            heads[self.shape(e)] = [e, [e]]        # current head, entry states
        entry = {k: [v[0].copy()] for k, v in heads.items()}
        npass = 0
        while True:
            npass += 1
            mark = len(self.log)
            exits, done, backs = [], [], []
            for k, (h, _) in list(heads.items()):
                tr, fa = head(h.copy())
                if bound:
                    for f in fa:
                        self.exit_fact(f, bound)
                exits += fa
                for x in self.reduce(tr):
                    nxt, d = self.block(node.body, [x])
                    for o in d:
                        if o[0] == 'break':
                            exits.append(o[1])
                        elif o[0] == 'continue':
                            nxt.append(o[1])
                        else:
                            done.append(o)
                    for y in nxt:
                        backs += step(y)
            if hl is not None:
                self.drop_dead(backs, hl, lv)
                self.tidy(backs)
            inputs = {k: list(v) for k, v in entry.items()}
            for b in backs:
                inputs.setdefault(self.shape(b), []).append(b)
            if len(inputs) > 12:            # too many partitions: coarsen
                pass
            changed = False
            heads0 = [v[0] for v in heads.values()]
            for k, ins in inputs.items():
                if k not in heads:
                    heads[k] = [ins[0] if len(ins) == 1 else self.join(ins, tag), None]
                    changed = True
                    continue
                h = heads[k][0]
                ok = True
                for i in ins:
                    if not self.instance(h, i, npass > 5):
                        ok = False
                        break
                if not ok:
                    if npass > 5:
                        heads[k][0] = self.widen(h, ins, tag, npass > 7)
                    else:
                        heads[k][0] = self.join(ins, tag)
                    changed = True
            if not changed or npass > 12:
                if npass > 12:
                    self.unsup(node, 'loop did not stabilise')
                break
            del self.log[mark:]
        self.hooks.on_loop(self, node, [x for v in entry.values() for x in v], heads0, backs, exits, done)
        if getattr(node, 'orelse', None):
            fall = exits
            nxt, d = self.block(node.orelse, fall)
            exits, done = nxt, done + d
        if hl is not None:
            self.drop_dead(exits, lv.out[id(node)], lv)
            self.tidy(exits)
        exits = self.reduce(exits, tag + 'x')
        return [('next', x, None) for x in exits] + done

    havoc = False
    defs = None         # symbol -> term, when values are named after the assignment that computes them

    def name_value(self, tg, v):
        if isinstance(v, T) and not v.taint and v.size > 5 and not is_bool(v):
            for k, w in self.defs.items():
                if w is v and k.args[0].startswith('$%s.' % tg.id):
                    return k
            k = fresh('$%s.%s' % (tg.id, tg.lineno))
            self.defs[k] = v
            return k
        return v

    def assigned(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) \
                    and n.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update'):
                out.add(n.func.value.id)
        return out

    def loop1(self, node, entries, head, step, bound=None):
        """one arbitrary iteration: everything the body assigns is unknown at the head (no fixpoint needed)"""
        names = self.assigned(node)
        tag = 'L%d' % node.lineno
        mark = len(self.log)
        self.hooks.trial(True)
        probe = self.loop_once(node, [e.copy() for e in entries], head, step, bound, names, tag)
        self.hooks.trial(False)
        del self.log[mark:]
        stable = {n for n in names if all(h.env.get(n) is not None and all(b.env.get(n) is h.env[n] for b in probe[1]) for h in probe[0])} \
            if len(probe[0]) == 1 else set()
        heads, backs, exits, done = self.loop_once(node, entries, head, step, bound, names - stable, tag)
        self.hooks.on_loop(self, node, entries, heads, backs, exits, done)
        if getattr(node, 'orelse', None):
            nxt, d = self.block(node.orelse, exits)
            exits, done = nxt, done + d
        return [('next', x, None) for x in self.reduce(exits, tag + 'x')] + done

    def loop_once(self, node, entries, head, step, bound, names, tag):
        heads, exits, done, backs = [], [], [], []
        for e in self.reduce(entries, tag):
            h = e.copy()
            for n in sorted(names):
                if n in h.env:
                    v = h.env[n]
                    if isinstance(v, (T, Tup)):
                        h.env[n] = self.hooks.havoc(self, node, n, v) or fresh('%s.%s' % (tag, n))
                    elif isinstance(v, Lst):
                        h.env[n] = Lst(None, ('havoc', n, tag))
                    elif isinstance(v, Rec):
                        h.env[n] = Rec(v.cls, {a: fresh('%s.%s.%s' % (tag, n, a)) for a, _ in v.attrs})
                else:
                    h.env[n] = fresh('%s.%s' % (tag, n))
            if bound:
                h.env[bound[0]] = fresh(tag + '.k')
                h.assume(le(bound[1], h.env[bound[0]]))
            self.hooks.loop_head(self, node, e, h)
            heads.append(h)
            tr, fa = head(h.copy())
            if bound:
                for f in fa:
                    self.exit_fact(f, bound)
            exits += fa
            for x in self.reduce(tr):
                nxt, d = self.block(node.body, [x])
                for o in d:
                    if o[0] == 'break':
                        exits.append(o[1])
                    elif o[0] == 'continue':
                        nxt.append(o[1])
                    else:
                        done.append(o)
                for y in nxt:
                    backs += step(y)
        return heads, backs, exits, done

    def try_map(self, node, st, kname, lo, hi, elem):
        """loop whose only effect is A[k] = f(k, A[k]) for each k: summarised exactly, without a fixpoint"""
        if not self.hooks.allow_map(node):
            return None
        for n in ast.walk(node):
            if isinstance(n, (ast.Break, ast.Return, ast.Raise)) and n is not node:
                return None
        x = st.copy()
        k = fresh('mk')
        x.env.pop(kname, None)
        x.assume(le(lo, k))
        x.assume(lt(k, hi))
        before = dict(locations(x))
        x0facts = set(x.facts)
        tvars = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        mark, uns = len(self.log), set(self.unsupported)
        self.hooks.trial(True)
        try:
            self.assign(node.target, elem(k), x)
            nxt, done = self.block(node.body, [x])
        finally:
            self.hooks.trial(False)
        bad = len(self.log) != mark
        del self.log[mark:]
        self.unsupported = uns
        ends = list(nxt)
        for o in done:
            if o[0] != 'continue':
                return None
            ends.append(o[1])
        if bad or not ends:
            return None
        top = len(st.frames) - 1
        eff = {}        # path -> [(cond, key, val)]
        local = set()
        for y in ends:
            cond = band(*[f for f in y.facts if f not in x0facts and f.size < 80])
            for p, v in locations(y):
                w = before.get(p)
                if w is not None and (v is w or (not isinstance(v, T) and v == w)):
                    continue
                if p[0] == 'f' and p[1] == top and (w is None or p[2] in tvars):
                    local.add(p)
                    continue
                if w is None:
                    return None
                alts = []
                if not self._scatter(v, w, cond, alts):
                    return None
                eff.setdefault(p, []).extend(alts)
        changed = set(eff)
        out = {}
        for p, alts in eff.items():
            w = before[p]
            simple = len(alts) == 1 and alts[0][1] == (k,) and len(ends) == 1 and alts[0][0] is TRUE
            cell = mk('idx', w, k)
            for c, key, val in alts:
                rest = subst(val, {cell: sym('#cell')}) if simple else val
                if w in subterms(rest) or any(w in subterms(q) for q in key) or w in subterms(c):
                    return None
                for q in changed:
                    if q != p and (before[q] in subterms(subst(val, {mk('idx', before[q], k): sym('#cell')})) or before[q] in subterms(c)):
                        return None
            if simple:
                out[p] = mk('mapstore', w, (BOUND,), lo, hi, subst(alts[0][2], {k: BOUND}))
            else:
                out[p] = mk('scatter', w, lo, hi, tuple((subst(c, {k: BOUND}), tuple(subst(q, {k: BOUND}) for q in key), subst(v, {k: BOUND})) for c, key, v in alts))
        z = st
        z.env.pop(kname, None)
        for p in local:
            z.env.pop(p[2], None)
            z.env[p[2]] = fresh('after_' + p[2])
        for p, v in out.items():
            set_location(z, p, v)
        return z

    def _scatter(self, v, w, cond, alts):
        """v as a (gated) single store into w"""
        if v is w:
            return True
        if not isinstance(v, T):
            return False
        if v.op == 'ite':
            return self._scatter(v.args[1], w, band(cond, v.args[0]), alts) and self._scatter(v.args[2], w, band(cond, bnot(v.args[0])), alts)
        if v.op == 'store' and v.args[0] is w and v.args[1][0].op not in ('slice', 'list', 'tuple') and not is_bool(v.args[1][0]):
            alts.append((cond, v.args[1], v.args[2]))
            return True
        return False

    def exit_fact(self, st, bound):
        k, lo, hi, step = bound
        kv = st.env.get(k)
        if kv is not None and num(step) == 1 and not kv.taint:
            # the counter stops exactly at max(lo, hi)
            st.assume(le(kv, minmax('max', [lo, hi])))
            if st.entails(le(lo, hi), 2):
                d = sub(kv, hi)
                if num(d) is None:
                    st.assume(eq(kv, hi))

    def instance(self, h, i, relaxed=False):
        """is state i an instance of the generalised state h?"""
        lh, li = dict(locations(h)), dict(locations(i))
        sigma = {}
        checks = []
        for p, hv in lh.items():
            if p not in li:
                return False
            if not self.match(hv, li[p], sigma, checks):
                return False
        for hv, iv in checks:
            if subst(hv, sigma) is not iv:
                return False
        for f in h.facts:
            g = subst(f, sigma)
            if g in i.facts:
                continue
            if not i.entails(g, 3):
                return False
        return True

    def match(self, hv, iv, sigma, checks):
        if isinstance(hv, T) and isinstance(iv, T):
            if hv.op == 'sym' or (hv.op == 'taint'):
                if hv in sigma:
                    return sigma[hv] is iv
                if hv is iv or '#' in hv.args[0]:
                    sigma[hv] = iv
                    return True
                return False
            if hv.op == 'taint':
                return True
            if hv.op == 'lin' and len(hv.args[0]) >= 1:
                # solve for a single unbound fresh symbol when possible
                un = [(a, k) for a, k in hv.args[0] if a.op == 'sym' and '#' in a.args[0] and a not in sigma and abs(k) == 1]
                if len(un) == 1 or (un and len(hv.args[0]) == 1):
                    a, k = un[0]
                    rest = sub(hv, scale(a, k))
                    if not any(s not in sigma and '#' in s.args[0] and s is not a and not self._occurs(s, iv) for s in syms(rest)):
                        if a not in subterms(iv) or True:
                            cand = scale(sub(iv, subst(rest, sigma)), Fraction(1) / k)
                            # only commit when it cannot be obtained from a plain location later
                            checks.append((hv, iv))
                            sigma.setdefault(a, cand)
                            return True
            checks.append((hv, iv))
            return True
        if isinstance(hv, Tup):
            return isinstance(iv, Tup) and len(hv.items) == len(iv.items) and all(self.match(a, b, sigma, checks) for a, b in zip(hv.items, iv.items))
        if isinstance(hv, Rec):
            return isinstance(iv, Rec) and hv.cls == iv.cls and all(iv.get(k) is not None and self.match(v, iv.get(k), sigma, checks) for k, v in hv.attrs)
        if isinstance(hv, Lst):
            if not isinstance(iv, Lst):
                return False
            if hv.items is None:
                return hv.tag == iv.tag or hv.tag == 'join'
            return iv.items is not None and len(hv.items) == len(iv.items) and all(self.match(a, b, sigma, checks) for a, b in zip(hv.items, iv.items))
        return hv == iv

    def _occurs(self, s, t):
        return s in subterms(t)

    def widen(self, h, ins, tag, hard):
        w = self.join(ins, tag)
        if hard:
            base = w.copy()
            common = set(ins[0].facts)
            for i in ins[1:]:
                common &= i.facts
            for p, v in list(locations(base)):
                if isinstance(v, T) and any(s.op == 'sym' and ('#' in s.args[0]) for s in syms(v)):
                    vs = [dict(locations(i)).get(p) for i in ins]
                    if any(x is not vs[0] for x in vs):
                        set_location(base, p, fresh(tag + 'w'))
            base.facts = common
            base._fz = None
            return base
        return w

    # ------------------------------------------------------------------ assignment
    def assign(self, tg, v, st):
        if isinstance(tg, ast.Name):
            v = self.name_value(tg, v) if self.defs is not None else v
            k = st.env.get('__alias_#out_' + tg.id)
            (st.env if k is None else st.frames[k])[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            if any(isinstance(e, ast.Starred) for e in tg.elts):
                for e in tg.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, taint('starred'), st)
                return
            if isinstance(v, (Tup, Lst)) and v.items is not None and len(v.items) == n:
                items = v.items
            elif isinstance(v, T):
                items = [proj(v, i) for i in range(n)]
            else:
                items = [taint('unpack') for _ in range(n)]
            for e, x in zip(tg.elts, items):
                self.assign(e, x, st)
        elif isinstance(tg, ast.Attribute):
            rs = self.ev(tg.value, st)
            o, t = rs[0]
            if isinstance(o, Ref):
                if not self.hooks.setattr(self, st, o, tg.attr, v, tg):
                    st.heap.setdefault(o.id, {})[tg.attr] = v
            elif isinstance(o, Rec):
                self.assign(tg.value, o.with_(tg.attr, v), st)
            elif isinstance(o, T):
                pass
        elif isinstance(tg, ast.Subscript):
            o, t = self.ev(tg.value, st)[0]
            key = self.key(tg.slice, st)
            if isinstance(o, Dct):
                if o.get(key[0]) is not None:
                    d = [(a, v if a == key[0] else b) for a, b in o.items]
                else:
                    d = list(o.items) + [(key[0], v)]
                self.mutate(tg.value, o, Dct(d, o.open), st)
                return
            if isinstance(o, Lst):
                n = num(key[0]) if isinstance(key[0], T) else None
                if o.items is not None and n is not None and n.denominator == 1 and -len(o.items) <= n < len(o.items):
                    items = list(o.items)
                    items[int(n)] = v
                    self.mutate(tg.value, o, Lst(items), st)
                else:
                    self.mutate(tg.value, o, Lst(None, 'stored'), st)
                return
            r = self.hooks.on_store(self, st, o, key, v)
            if r is None:
                r = self.store(o, key, v)
            if isinstance(tg.value, ast.Name):
                al = st.env.get('__alias_' + tg.value.id)
                if al and st.heap.get(al[0], {}).get(al[1]) is o:
                    st.heap[al[0]][al[1]] = r
                    st.env[tg.value.id] = r
                    return
                if al:
                    st.env.pop('__alias_' + tg.value.id, None)
            self.assign(tg.value, r, st)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, taint('starred'), st)

    def mutate(self, tg, old, new, st):
        """in-place change of a list or dictionary: every other name for the same object sees it"""
        def go(v):
            if v is old:
                return new
            if isinstance(v, (Lst, Tup)) and v.items:
                it = [go(x) for x in v.items]
                if any(x is not y for x, y in zip(it, v.items)):
                    return Lst(it, v.tag) if isinstance(v, Lst) else Tup(it)
            elif isinstance(v, Dct) and v.items:
                it = [(k, go(x)) for k, x in v.items]
                if any(x[1] is not y[1] for x, y in zip(it, v.items)):
                    return Dct(it, v.open)
            return v
        try:
            self.assign(tg, new, st)
        finally:
            for d in st.frames + list(st.heap.values()):
                for k, v in list(d.items()):
                    if isinstance(v, (Lst, Tup, Dct)):
                        w = go(v)
                        if w is not v:
                            d[k] = w

    def key(self, sl, st):
        """subscript -> tuple of key terms (trailing full slices removed)"""
        if isinstance(sl, ast.Tuple):
            ks = [self.key1(e, st) for e in sl.elts]
        else:
            ks = [self.key1(sl, st)]
        while len(ks) > 1 and ks[-1] is FULL:
            ks.pop()
        return tuple(ks)

    def key1(self, e, st):
        if isinstance(e, ast.Slice):
            f = lambda x: NONE if x is None else self.T(self.ev(x, st)[0][0])
            lo, hi, stp = f(e.lower), f(e.upper), f(e.step)
            if lo is not NONE and num(lo) == 0:
                lo = NONE
            if lo is NONE and hi is NONE and stp is NONE:
                return FULL
            return mk('slice', lo, hi, stp)
        v = self.ev(e, st)[0][0]
        if isinstance(v, Lst) and v.items is not None:
            return mk('list', *[self.T(x) for x in v.items])
        return self.T(v)

    def store(self, arr, key, v):
        if not isinstance(arr, T):
            return taint('store')
        v = self.T(v)
        if len(key) == 1 and is_bool(key[0]):
            m = key[0]
            return where(m, unmask(v, m), arr)
        if len(key) == 1 and key[0] is FULL:
            return v
        return mk('store', arr, key, v)

    def index(self, arr, key):
        if isinstance(arr, (Tup, Lst)):
            n = num(key[0]) if isinstance(key[0], T) else None
            if arr.items is not None and len(key) == 1 and isinstance(key[0], T) and key[0].op == 'slice':
                lo, hi, stp = [None if x is NONE else num(x) if num(x) is not None else 'x' for x in (list(key[0].args) + [NONE] * 3)[:3]]
                if 'x' not in (lo, hi, stp):
                    it = arr.items[(None if lo is None else int(lo)):(None if hi is None else int(hi)):(None if stp is None else int(stp))]
                    return type(arr)(tuple(it))
            if arr.items is not None and n is not None and n.denominator == 1 and -len(arr.items) <= n < len(arr.items) and len(key) == 1:
                return arr.items[int(n)]
            return taint('index')
        if isinstance(arr, Dct):
            r = arr.get(key[0])
            return r if r is not None else taint('dict')
        if not isinstance(arr, T):
            return taint('index')
        if len(key) == 1 and key[0] is FULL:
            return arr
        if len(key) == 1 and is_bool(key[0]):
            return msel(arr, key[0])
        return index_term(arr, key)

    # ------------------------------------------------------------------ expressions
    def T(self, v):
        """coerce to a term"""
        if isinstance(v, T):
            return v
        if isinstance(v, Tup):
            return mk('tuple', *[self.T(x) for x in v.items])
        if isinstance(v, Lst):
            if v.items is not None:
                return mk('list', *[self.T(x) for x in v.items])
            return sym('lst:%r' % (v.tag,))
        if isinstance(v, Ref):
            return sym('ref:%s' % (v.id,))
        if isinstance(v, Fn):
            return sym('fn:%s:%s' % (v.qual or 'lambda', v.node.lineno))
        if isinstance(v, (Ext, Cls)):
            return sym('name:' + v.name)
        if isinstance(v, Rec):
            return mk('rec', v.cls, tuple((k, self.T(x)) for k, x in v.attrs))
        if isinstance(v, Dct):
            return mk('dict', tuple((self.T(a) if not isinstance(a, str) else a, self.T(b)) for a, b in v.items))
        return taint('value')

    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return [(self.unsup(e, 'expression ' + type(e).__name__), st)]
        return m(e, st)

    def evs(self, es, st):
        acc = [([], st)]
        for e in es:
            nacc = []
            for vs, s in acc:
                for v, t in self.ev(e, s):
                    nacc.append((vs + [v], t))
            acc = nacc
        return acc

    def e_Constant(self, e, st):
        v = e.value
        if v is Ellipsis or isinstance(v, complex):
            return [(taint('const'), st)]
        return [(const(v), st)]

    def e_Name(self, e, st):
        return [(self.name(e.id, st, e), st)]

    def name(self, n, st, node=None):
        env = st.env
        if n in env:
            return env[n]
        # enclosing function scopes (closures)
        h = env.get('__alias_#home')
        while h is not None:
            if n in st.frames[h]:
                return st.frames[h][n]
            h = st.frames[h].get('__alias_#home')
        cl = env.get('__closure__')
        if cl is not None:
            for d in cl:
                if n in d:
                    return d[n]
        r = self.prog.lookup(self.modstack[-1], n)
        if r is None:
            return Ext('builtins.' + n)
        return self.global_value(r, n)

    def global_value(self, r, n):
        if r[0] == 'func':
            return Fn(r[2], r[1], qual=r[2].name)
        if r[0] == 'class':
            return Cls(r[1])
        if r[0] == 'ext':
            return Ext(canon_ext(r[1]))
        v = r[2]
        try:
            c = ast.literal_eval(v)
            if isinstance(c, (int, float, str, bool, type(None))):
                return const(c)
        except Exception:
            pass
        if isinstance(v, ast.Call) and ast.unparse(v.func).endswith('getLogger'):
            return Ext('logger')
        return sym('glob:' + n)

    def e_Attribute(self, e, st):
        out = []
        for o, t in self.ev(e.value, st):
            out.append((self.attr(o, e.attr, t, e), t))
        return out

    def attr(self, o, a, st, e):
        if isinstance(o, Ref):
            r = self.hooks.getattr(self, st, o, a, e)
            if r is not None:
                return r
            h = st.heap.get(o.id, {})
            if a in h:
                return h[a]
            if (o.cls, a) in self.prog.methods:
                m, node = self.prog.methods[(o.cls, a)]
                if any(ast.unparse(d) == 'property' for d in node.decorator_list):
                    return taint('property')
                return Fn(node, m.name, self_=o, qual=o.cls + '.' + a)
            return taint('attr %s.%s' % (o.cls, a))
        if isinstance(o, Rec):
            r = o.get(a)
            if r is not None:
                return r
            if (o.cls, a) in self.prog.methods:
                m, node = self.prog.methods[(o.cls, a)]
                return Fn(node, m.name, self_=o, qual=o.cls + '.' + a)
            return taint('attr %s.%s' % (o.cls, a))
        if isinstance(o, Ext):
            return Ext(canon_ext(o.name + '.' + a))
        if isinstance(o, Cls):
            if (o.name, a) in self.prog.methods:
                m, node = self.prog.methods[(o.name, a)]
                return Fn(node, m.name, qual=o.name + '.' + a)
            return taint('class attr')
        if isinstance(o, T):
            if a == 'T':
                return o.args[0] if o.op == 'transpose' else mk('transpose', o)
            if a in ('shape', 'size', 'ndim', 'dtype'):
                return mk(a, o)
        return Meth(o, a, e.value)

    def e_Subscript(self, e, st):
        out = []
        for o, t in self.ev(e.value, st):
            out.append((self.subscript(o, self.key(e.slice, t), t, e), t))
        return out

    def read(self, st, arr, key):
        """element of an array term, resolving store chains with the facts of the state"""
        if len(key) == 1 and (key[0] is FULL or is_bool(key[0])) or any(k.op in ('slice', 'list', 'tuple') for k in key):
            return self.index(arr, key)
        while True:
            if arr.op == 'store':
                a, k, v = arr.args
                if len(k) == 1 and k[0].op in ('list', 'tuple'):
                    hit = None
                    for i, kk in enumerate(k[0].args):
                        d = decide(st.fz(), eq(kk, key[0]))
                        if d is True:
                            hit = i
                        elif d is None:
                            return self.index(arr, key)
                    if hit is None:
                        arr = a
                        continue
                    if v.op == 'idx' and v.args[1].op in ('list', 'tuple'):
                        arr, key = v.args[0], (v.args[1].args[hit],) + key[1:]
                        continue
                    return index_term(v, (const(hit),) + key[1:])
                if k[0].op in ('slice', 'list', 'tuple') or is_bool(k[0]):
                    return self.index(arr, key)
                d = decide(st.fz(), eq(k[0], key[0])) if k[0] is not key[0] else True
                if d is True:
                    if len(k) <= len(key) and all(x is y or decide(st.fz(), eq(x, y)) is True for x, y in zip(k, key)):
                        for kk in key[len(k):]:
                            v = index_term(v, (kk,))
                        return v
                    if len(k) > 1 and len(key) > 1 and k[1].op not in ('slice',) and decide(st.fz(), eq(k[1], key[1])) is False:
                        arr = a
                        continue
                    return self.index(arr, key)
                if d is False:
                    arr = a
                    continue
                return self.index(arr, key)
            if arr.op == 'mapstore':
                a, k, lo, hi, v = arr.args
                if decide(st.fz(), band(le(lo, key[0]), lt(key[0], hi))) is True and len(key) >= len(k):
                    v = subst(v, {BOUND: key[0]})
                    for kk in key[len(k):]:
                        v = index_term(v, (kk,))
                    return v
                return self.index(arr, key)
            if arr.op == 'call' and arr.args[0] in ('np.append', 'np.vstack', 'np.concatenate', 'np.hstack', 'np.r_') and st.g.get('#rows') is not None:
                if arr.args[0] == 'np.append' and len(arr.args) > 2:
                    base, new = arr.args[1], arr.args[2]
                elif arr.args[1].op in ('tuple', 'list') and len(arr.args[1].args) == 2:
                    base, new = arr.args[1].args
                else:
                    return self.index(arr, key)
                n = st.g.get('#rows')
                d = decide(st.fz(), eq(key[0], n))
                if d is True:
                    while new.op in ('list', 'tuple') and len(new.args) == 1:
                        new = new.args[0]
                    return new
                if d is False and decide(st.fz(), lt(key[0], n)) is True:
                    arr = base
                    continue
                return self.index(arr, key)
            return self.index(arr, key)

    def subscript(self, o, key, st, e):
        if isinstance(o, T) and o.op in ('store', 'mapstore', 'call'):
            return self.read(st, o, key)
        if isinstance(o, Lst) and key and isinstance(key[0], T) and key[0].op == 'slice' and len(key) == 1:
            lo, hi, stp = key[0].args
            f = lambda x: None if x is NONE else (int(num(x)) if num(x) is not None else 'bad')
            a, b, c = f(lo), f(hi), f(stp)
            if o.items is not None and 'bad' not in (a, b, c):
                return Lst(o.items[slice(a, b, c)])
            return Lst(None, ('slice', o.tag))
        if isinstance(o, Tup) and key and isinstance(key[0], T) and key[0].op == 'slice':
            lo, hi, stp = key[0].args
            f = lambda x: None if x is NONE else (int(num(x)) if num(x) is not None else 'bad')
            a, b, c = f(lo), f(hi), f(stp)
            if 'bad' not in (a, b, c):
                return Tup(o.items[slice(a, b, c)])
        if isinstance(o, Lst) and o.items is None:
            return self.lst_elem(st, o, key[0])
        return self.index(o, key)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(taint('starred tuple'), st)]
        return [(Tup(vs), t) for vs, t in self.evs(e.elts, st)]

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(Lst(None, 'starred'), st)]
        return [(Lst(vs), t) for vs, t in self.evs(e.elts, st)]

    def e_Set(self, e, st):
        return [(Lst(vs), t) for vs, t in self.evs(e.elts, st)]

    def e_Dict(self, e, st):
        items = []
        t = st
        for k, v in zip(e.keys, e.values):
            if k is None:
                return [(Dct((), True), st)]
            kk, t = self.ev(k, t)[0]
            vv, t = self.ev(v, t)[0]
            items.append((kk, vv))
        return [(Dct(items), t)]

    def e_JoinedStr(self, e, st):
        return [(mk('fmt', const(ast.unparse(e))), st)]

    def e_Lambda(self, e, st):
        return [(Fn(e, self.modstack[-1], env=st.env, qual='lambda', home=(len(st.frames) - 1, st.env.get('__alias_#fn'))), st)]

    def e_Starred(self, e, st):
        return [(taint('starred'), st)]

    def e_NamedExpr(self, e, st):
        out = []
        for v, t in self.ev(e.value, st):
            self.assign(e.target, v, t)
            out.append((v, t))
        return out

    def _comp(self, e, st):
        """comprehension: small known sources are unrolled, otherwise an opaque list"""
        if len(e.generators) == 1 and not getattr(e, 'key', None):
            g = e.generators[0]
            r = self.iter_source(g.iter, st)
            d, t = r[0]
            saved = dict(t.env)
            if d[0] == 'unroll' and not g.ifs:
                items = []
                for it in d[1]:
                    self.assign(g.target, it, t)
                    r = self.ev(e.elt, t)
                    if len(r) != 1:
                        return [(Lst(None, 'comp'), st)]
                    v, t = r[0]
                    items.append(v)
                self._restore(t, saved, g)
                return [(Lst(items), t)]
            if d[0] == 'range':
                k = fresh('ck')
                self.assign(g.target, d[4](k), t)
                conds = []
                for c in g.ifs:
                    v, t = self.ev(c, t)[0]
                    conds.append(self.truth(v))
                v, t = self.ev(e.elt, t)[0]
                self._restore(t, saved, g)
                b = BOUND
                if isinstance(v, T):
                    return [(Lst(None, ('comp', subst(v, {k: b}), subst(band(*conds), {k: b}), d[1], d[2])), t)]
                return [(Lst(None, 'comp'), t)]
        return [(Lst(None, 'comp'), st)]

    def _restore(self, t, saved, g):
        for n in ast.walk(g.target):
            if isinstance(n, ast.Name):
                if n.id in saved:
                    t.env[n.id] = saved[n.id]
                else:
                    t.env.pop(n.id, None)

    e_ListComp = e_GeneratorExp = e_SetComp = _comp

    def e_DictComp(self, e, st):
        if len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            d, t = self.iter_source(g.iter, st)[0]
            saved = dict(t.env)
            if d[0] == 'unroll':
                items = []
                for it in d[1]:
                    self.assign(g.target, it, t)
                    for x in (e.key, e.value):
                        r = self.ev(x, t)
                        if len(r) != 1:
                            return [(Dct((), True), st)]
                        items.append(r[0][0])
                        t = r[0][1]
                self._restore(t, saved, g)
                ks, vs = items[::2], items[1::2]
                if all(isinstance(k, T) and k.op == 'const' for k in ks):
                    return [(Dct(zip(ks, vs)), t)]
        return [(Dct((), True), st)]

    def e_IfExp(self, e, st):
        out = []
        for v, t in self.ev(e.test, st):
            c = self.truth(v)
            d = decide(t.fz(), c)
            if d is True:
                out += self.ev(e.body, t)
            elif d is False:
                out += self.ev(e.orelse, t)
            else:
                t2 = t.copy()
                t2.assume(c)
                t3 = t.copy()
                t3.assume(bnot(c))
                a = self.ev(e.body, t2)
                b = self.ev(e.orelse, t3)
                if len(a) == 1 and len(b) == 1 and kind(a[0][0]) == kind(b[0][0]):
                    m = self.gate(c, a[0][1], b[0][1])
                    if m is not None:
                        out.append((self.gate_val(c, a[0][0], b[0][0]), m))
                        continue
                out += a + b
        return out

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = []
        acc = [([], st)]
        for x in e.values:
            nacc = []
            for cs, s in acc:
                if cs and cs[-1] is (FALSE if isand else TRUE):
                    nacc.append((cs, s))
                    continue
                for v, t in self.ev(x, s):
                    nacc.append((cs + [v], t))
            acc = nacc
        for vs, s in acc:
            if any(not isinstance(v, T) for v in vs) and not isand:
                # `x or default` with objects
                v0 = vs[0]
                if not isinstance(v0, T):
                    res.append((v0, s))
                    continue
            cs = [self.truth(v) for v in vs]
            if not isand and len(vs) == 2 and isinstance(vs[0], T) and not is_bool(vs[0]) and isinstance(vs[1], T) and not is_bool(vs[1]):
                res.append((ite(cs[0], vs[0], vs[1]), s))
                continue
            res.append((band(*cs) if isand else bor(*cs), s))
        return res

    def e_UnaryOp(self, e, st):
        out = []
        for v, t in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                out.append((bnot(self.truth(v)), t))
            elif isinstance(e.op, ast.USub) and isinstance(v, T):
                out.append((neg(v), t))
            elif isinstance(e.op, ast.UAdd):
                out.append((v, t))
            elif isinstance(e.op, ast.Invert) and isinstance(v, T):
                out.append((bnot(v) if is_bool(v) else mk('not', v), t))
            else:
                out.append((taint('unary'), t))
        return out

    def lst_concat(self, a, b):
        if isinstance(b, (Lst, Tup)) and a.items is not None and b.items is not None:
            return Lst(a.items + b.items)
        return Lst(None, ('concat', a.tag, getattr(b, 'tag', None)))

    def e_BinOp(self, e, st):
        out = []
        for (a, b), t in [((x[0], x[1]), t) for x, t in self.evs([e.left, e.right], st)]:
            if isinstance(a, Lst) and isinstance(e.op, ast.Add):
                out.append((self.lst_concat(a, b), t))
                continue
            if isinstance(a, Lst) and isinstance(e.op, ast.Mult):
                n = num(b) if isinstance(b, T) else None
                out.append((Lst(a.items * int(n)) if n is not None and a.items is not None and n < 50 else Lst(None, 'rep'), t))
                continue
            if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(e.op, ast.Add):
                out.append((Tup(a.items + b.items), t))
                continue
            out.append((self.binop(e.op, a, b, e), t))
        return out

    def binop(self, op, a, b, e):
        a, b = self.T(a), self.T(b)
        if isinstance(op, ast.Add):
            if (a.op == 'const' and isinstance(a.args[1], str)) or (b.op == 'const' and isinstance(b.args[1], str)) or a.op in ('fmt', 'concat'):
                if a.op == 'const' and b.op == 'const':
                    return const(str(a.args[1]) + str(b.args[1]))
                return mk('concat', a, b)
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            n = num(b)
            if n is not None:
                return power(a, n)
            return mk('pow', a, b)
        if isinstance(op, ast.Mod):
            if a.op == 'const':
                return mk('fmt', a, b)
            return mk('mod', a, b)
        if isinstance(op, ast.FloorDiv):
            na, nb = num(a), num(b)
            if na is not None and nb:
                return const(int(na // nb))
            return mk('fdiv', a, b)
        if isinstance(op, ast.MatMult):
            return mk('dot', a, b)
        if isinstance(op, ast.BitAnd):
            return band(a, b)
        if isinstance(op, ast.BitOr):
            return bor(a, b)
        return taint('binop')

    def e_Compare(self, e, st):
        out = []
        for vs, t in self.evs([e.left] + e.comparators, st):
            cs = [self.compare(op, vs[i], vs[i + 1], t, e) for i, op in enumerate(e.ops)]
            out.append((band(*cs), t))
        return out

    def compare(self, op, a, b, st, e):
        r = self.hooks.compare(self, st, op, a, b, e)
        if r is not None:
            return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                r = isnone(x) if isinstance(x, T) else FALSE
            else:
                r = self.equal(a, b)
            return r if isinstance(op, ast.Is) else bnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b)
            return r if isinstance(op, ast.In) else bnot(r)
        if isinstance(op, ast.Eq):
            return self.equal(a, b)
        if isinstance(op, ast.NotEq):
            return bnot(self.equal(a, b))
        a, b = self.T(a), self.T(b)
        for x in (a, b):
            if x is NONE:
                return taint('cmp None')
        if isinstance(op, ast.Lt):
            return lt(a, b)
        if isinstance(op, ast.LtE):
            return le(a, b)
        if isinstance(op, ast.Gt):
            return lt(b, a)
        return le(b, a)

    def equal(self, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return band(*[self.equal(x, y) for x, y in zip(a.items, b.items)])
        a, b = self.T(a), self.T(b)
        if a is b:
            return TRUE
        if a is NONE or b is NONE:
            return isnone(b if a is NONE else a)
        for x, y in ((a, b), (b, a)):
            if x in (TRUE, FALSE) and is_bool(y):
                return y if x is TRUE else bnot(y)
        return eq(a, b)

    def contains(self, a, b):
        if isinstance(b, (Lst, Tup)) and b.items is not None:
            return bor(*[self.equal(a, x) for x in b.items])
        if isinstance(b, Dct) and not b.open:
            return bor(*[self.equal(a, k) for k, _ in b.items])
        a, b = self.T(a), self.T(b)
        if a.op == 'const' and b.op == 'const' and isinstance(a.args[1], str) and isinstance(b.args[1], str):
            return TRUE if a.args[1] in b.args[1] else FALSE
        if b.op == 'ite':
            return ite(b.args[0], self.contains(a, b.args[1]), self.contains(a, b.args[2]))
        return mk('in', a, b)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id not in st.env:
            # logging calls: evaluated only by the hook
            r = self.prog.lookup(self.modstack[-1], e.func.value.id)
            if r and r[0] == 'const' and isinstance(r[2], ast.Call) and ast.unparse(r[2].func).endswith('getLogger'):
                x = self.hooks.call_ext(self, st, 'logger.' + e.func.attr, e, None, e)
                return [(NONE, st)] if x is None else x
        out = []
        for f, t in self.ev(e.func, st):
            argsv = []
            star = None
            nodes = []
            for a in e.args:
                if isinstance(a, ast.Starred):
                    nodes.append(('*', a.value))
                else:
                    nodes.append(('', a))
            kwn = [(k.arg, k.value) for k in e.keywords]
            for vs, t2 in self.evs([n for _, n in nodes] + [v for _, v in kwn], t):
                args, rest = [], vs[len(nodes):]
                for (s, _), v in zip(nodes, vs):
                    if s:
                        if isinstance(v, (Tup, Lst)) and v.items is not None:
                            args += list(v.items)
                        else:
                            args.append(mk('star', self.T(v)))
                    else:
                        args.append(v)
                self.argalias = {}
                if not any(x for x, _ in nodes):
                    for i, (_, a) in enumerate(nodes):
                        if isinstance(a, (ast.Name, ast.Attribute)):
                            p = self.alias_path(a, t2)
                            if p:
                                self.argalias[i] = p
                kw = {}
                for (k, _), v in zip(kwn, rest):
                    if k is None:
                        kw['**'] = v
                    else:
                        kw[k] = v
                out += self.call(f, args, kw, t2, e)
        return out

    def call(self, f, args, kw, st, e):
        self.calls += 1
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, st, e)
        if isinstance(f, Cls):
            return self.instantiate(f.name, args, kw, st, e)
        if isinstance(f, Ext):
            r = self.hooks.call_ext(self, st, f.name, args, kw, e)
            if r is not None:
                return r
            return [(self.ext(f.name, args, kw, st, e), st)]
        if isinstance(f, Meth):
            return self.call_meth(f, args, kw, st, e)
        if isinstance(f, Ref):
            if (f.cls, '__call__') in self.prog.methods:
                m, node = self.prog.methods[(f.cls, '__call__')]
                return self.call_fn(Fn(node, m.name, self_=f, qual=f.cls + '.__call__'), args, kw, st, e)
        r = self.hooks.call_value(self, st, f, args, kw, e)
        if r is not None:
            return r
        return [(self.unsup(e, 'call of unknown value'), st)]

    def bind(self, node, args, kw, st, mod, e):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if i < len(params):
                bound[params[i]] = v
            else:
                extra.append(v)
        if a.vararg:
            bound[a.vararg.arg] = Tup(extra)
        elif extra:
            self.unsup(e, 'too many arguments')
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in params or k in kwo:
                bound[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            bound[a.kwarg.arg] = Dct([(const(k), v) for k, v in rest.items()])
        defaults = a.defaults
        for p, d in zip(params[len(params) - len(defaults):], defaults):
            if p not in bound:
                bound[p] = self.default(d, mod)
        for p, d in zip(kwo, a.kw_defaults):
            if p not in bound and d is not None:
                bound[p] = self.default(d, mod)
        for p in params:
            if p not in bound:
                bound[p] = self.unsup(e, 'missing argument ' + p)
        return bound

    def default(self, d, mod):
        s = State()
        s.frames = [{}]
        self.modstack.append(mod)
        try:
            return self.ev(d, s)[0][0]
        finally:
            self.modstack.pop()

    def call_fn(self, f, args, kw, st, e):
        al, self.argalias = getattr(self, 'argalias', {}), {}
        off = 0
        if f.self is not None:
            args = [f.self] + list(args)
            off = 1
        bound = self.bind(f.node, args, kw, st, f.mod, e)
        if al and not isinstance(f.node, ast.Lambda):
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            self.pending_alias = {'__alias_' + ps[i + off]: p for i, p in al.items() if i + off < len(ps)}
        else:
            self.pending_alias = {}
        r = self.hooks.call_function(self, st, f.qual, f.node, f.self, bound)
        if r is not None:
            return r
        return self.inline(f, bound, st, e)

    def inline(self, f, bound, st, e):
        if len(self.stack) > self.max_depth or any(q is f.node for q, _ in self.stack) and sum(q is f.node for q, _ in self.stack) > self.max_recursion:
            return [(self.unsup(e, 'recursion'), st)]
        self.funcs_seen.add(f.qual)
        fr = dict(bound)
        fr.update(getattr(self, 'pending_alias', {}))
        self.pending_alias = {}
        if f.env is not None:
            cl = [{k: v for k, v in f.env.items() if k != '__closure__'}]
            fr['__closure__'] = cl + (list(f.env.get('__closure__') or []))
            if f.home is not None and f.home[0] < len(st.frames) and st.frames[f.home[0]].get('__alias_#fn') == f.home[1]:
                fr['__alias_#home'] = f.home[0]
        fr['__alias_#fn'] = (f.qual, id(f.node), getattr(e, 'lineno', 0))
        st.frames.append(fr)
        self.stack.append((f.node, getattr(e, 'lineno', 0)))
        self.modstack.append(f.mod)
        try:
            if isinstance(f.node, ast.Lambda):
                res = [('return', t, v) for v, t in self.ev(f.node.body, st)]
            else:
                nxt, done = self.block(f.node.body, [st])
                res = [('return', x, NONE) for x in nxt] + done
        finally:
            self.stack.pop()
            self.modstack.pop()
        outs = []
        for k, t, v in res:
            if k == 'raise':
                self.raised(t, v)
                continue
            t.frames.pop()
            t.g['__ret'] = v
            outs.append(t)
        if self.prune_on:
            for t in outs:
                self.hooks.normalise(self, t)
        outs = self.reduce_ret(outs, f.qual)
        return [(t.g.pop('__ret'), t) for t in outs]

    def reduce_ret(self, outs, qual):
        if 1 < len(outs) <= 6:
            outs = self.gate_returns(outs)
        return self.reduce(outs, 'ret')

    def gate_returns(self, outs):
        """early returns that differ in nothing but the value returned become one case distinction on the fact that separates them"""
        outs = list(outs)
        i = 0
        while i < len(outs) - 1:
            m = None
            for j in range(i + 1, len(outs)):
                a, b = outs[i], outs[j]
                if self.shape(a) != self.shape(b):
                    continue
                la, lb = dict(locations(a)), dict(locations(b))
                if set(la) != set(lb) or any(v is not lb[p] and (isinstance(v, T) or isinstance(lb[p], T) or v != lb[p]) for p, v in la.items() if p != ('g', '__ret')):
                    continue
                if not isinstance(la[('g', '__ret')], T) or not isinstance(lb[('g', '__ret')], T):
                    continue
                c = next((f for f in sorted(a.facts - b.facts, key=lambda f: f.id) if bnot(f) in b.facts), None)
                if c is None:
                    continue
                m = self.gate(c, a, b)
                if m is not None:
                    outs[j:j + 1] = []
                    outs[i] = m
                    break
            if m is None:
                i += 1
        return outs

    def raised(self, st, node):
        pass

    def instantiate(self, name, args, kw, st, e):
        r = self.hooks.instantiate(self, st, name, args, kw, e)
        if r is not None:
            return r
        if (name, '__init__') not in self.prog.methods:
            return [(Rec(name, {}), st)] if name in self.prog.classes else [(taint('class'), st)]
        m, node = self.prog.methods[(name, '__init__')]
        oid = '%s' % name
        st.heap[oid] = {}
        ref = Ref(oid, name)
        out = []
        for _, t in self.call_fn(Fn(node, m.name, self_=ref, qual=name + '.__init__'), args, kw, st, e):
            if self.prog.is_value_class(name):
                v = Rec(name, t.heap.pop(oid))
            else:
                v = ref
            out.append((v, t))
        return out

    # ------------------------------------------------------------------ methods of plain values
    def call_meth(self, f, args, kw, st, e):
        o, n = f.recv, f.name
        r = self.hooks.call_ext(self, st, 'method.' + n, [o] + list(args), kw, e)
        if r is not None:
            return r
        if isinstance(o, Lst):
            if n == 'append':
                self.mutate(f.lval, o, Lst(o.items + (args[0],)) if o.items is not None else self.lst_append(o, args[0]), st)
                return [(NONE, st)]
            if n == 'insert' and o.items is not None and num(args[0]) is not None and num(args[0]) >= 0:
                i = int(num(args[0]))
                self.mutate(f.lval, o, Lst(o.items[:i] + (args[1],) + o.items[i:]), st)
                return [(NONE, st)]
            if n == 'pop' and o.items is not None and o.items and not args:
                self.mutate(f.lval, o, Lst(o.items[:-1]), st)
                return [(o.items[-1], st)]
            if n == 'extend' and isinstance(args[0], (Lst, Tup)) and args[0].items is not None and o.items is not None:
                self.mutate(f.lval, o, Lst(o.items + args[0].items), st)
                return [(NONE, st)]
            if n == 'insert' and o.items is None and num(args[0]) == 0:
                self.mutate(f.lval, o, self.lst_concat(Lst((args[1],)), o), st)
                return [(NONE, st)]
            if n == 'extend' and isinstance(args[0], (Lst, Tup)):
                b = Lst(args[0].items) if isinstance(args[0], Tup) else args[0]
                self.mutate(f.lval, o, self.lst_concat(o, b), st)
                return [(NONE, st)]
            if n == 'copy':
                return [(Lst(o.items, o.tag), st)]
            if n in ('append', 'insert', 'pop', 'extend', 'remove', 'clear'):
                self.mutate(f.lval, o, Lst(None, 'mutated'), st)
                return [(fresh('popped'), st)]
            return [(mk('call', n, self.T(o)), st)]
        if isinstance(o, Dct):
            if n == 'items' and not o.open:
                return [(Lst([Tup((k, v)) for k, v in o.items]), st)]
            if n == 'keys' and not o.open:
                return [(Lst([k for k, v in o.items]), st)]
            if n == 'values' and not o.open:
                return [(Lst([v for k, v in o.items]), st)]
            if n == 'copy':
                return [(Dct(o.items, o.open), st)]
            if n == 'get' and not o.open and args and isinstance(args[0], T) and args[0].op == 'const' and all(k.op == 'const' for k, _ in o.items):
                r = o.get(args[0])
                return [(r if r is not None else args[1] if len(args) > 1 else NONE, st)]
            if n == 'update' and len(args) == 1 and isinstance(args[0], Dct) and not kw:
                ks = [k for k, _ in args[0].items]
                self.mutate(f.lval, o, Dct([(k, v) for k, v in o.items if k not in ks] + list(args[0].items), o.open or args[0].open), st)
                return [(NONE, st)]
            if n in ('update', 'setdefault', 'pop', 'popitem', 'clear'):
                self.mutate(f.lval, o, Dct((), True), st)
            return [(fresh('dct'), st)]
        if isinstance(o, T):
            ts = [self.T(a) for a in args]
            if n in ('copy', 'astype', 'tolist', 'ravel', 'flatten', 'item'):
                return [(o, st)]
            if n == 'reshape':
                return [(o, st)]
            if n == 'dot':
                return [(dot(o, ts[0]), st)]
            if n == 'format':
                return [(mk('fmt', o, *ts), st)]
            if n in ('min', 'max', 'any', 'all', 'mean', 'sum', 'argmin', 'argmax', 'argsort'):
                return [(self.ext('np.' + n, [o] + list(args), kw, st, e), st)]
            return [(mk('call', n, o, *ts), st)]
        return [(self.unsup(e, 'method ' + n), st)]

    def lst_append(self, o, v):
        return Lst(None, ('append', o.tag))

    # ------------------------------------------------------------------ external functions
    def ext(self, name, args, kw, st, e):
        n = name.split('.', 1)[1] if name.startswith(('builtins.', 'math.')) else name
        ts = [self.T(a) for a in args]
        if n in ('min', 'max') and name.startswith('builtins'):
            if len(args) == 1 and isinstance(args[0], (Lst, Tup)) and args[0].items:
                return minmax(n, [self.T(x) for x in args[0].items])
            if len(ts) >= 2:
                return minmax(n, ts)
            return mk('v' + n, ts[0])
        if n in ('np.minimum', 'np.fmin') and len(ts) == 2:
            return minmax('min', ts)
        if n in ('np.maximum', 'np.fmax') and len(ts) == 2:
            return minmax('max', ts)
        if n == 'np.clip' and len(ts) == 3:
            return minmax('min', [minmax('max', [ts[0], ts[1]]), ts[2]])
        if n in ('np.min', 'np.amin') and len(ts) == 1 and not kw:
            return mk('vmin', ts[0])
        if n in ('np.max', 'np.amax') and len(ts) == 1 and not kw:
            return mk('vmax', ts[0])
        if n in ('abs', 'np.abs', 'np.absolute', 'fabs', 'np.fabs'):
            c = num(ts[0])
            return lin({}, abs(c)) if c is not None else mk('abs', ts[0])
        if n in ('sqrt', 'np.sqrt'):
            return power(ts[0], Fraction(1, 2))
        if n in ('np.square',):
            return power(ts[0], 2)
        if n in ('np.dot', 'np.inner', 'np.vdot') and len(ts) == 2:
            return dot(ts[0], ts[1])
        if n == 'LA.norm':
            if 'ord' in kw and len(ts) == 1:
                ts = ts + [self.T(kw.pop('ord'))]
            return mk('norm', *(ts + [mk('kw', k, self.T(v)) for k, v in sorted(kw.items())]))
        if n == 'len':
            return self.length(args[0])
        if n in ('float', 'np.float64', 'np.asarray', 'np.array', 'np.copy', 'np.ascontiguousarray') and ts:
            return ts[0]
        if n == 'bool':
            return self.truth(args[0])
        if n == 'int':
            return ts[0]
        if n in ('str', 'repr'):
            return mk('fmt', ts[0]) if ts else const('')
        if n in ('list', 'tuple'):
            if not args:
                return Lst(()) if n == 'list' else Tup(())
            a = args[0]
            if isinstance(a, (Lst, Tup)):
                if a.items is not None:
                    return Lst(a.items) if n == 'list' else Tup(a.items)
                return Lst(None, a.tag) if n == 'list' and isinstance(a, Lst) else a
            if isinstance(a, T):
                return Lst(None, ('of', a)) if n == 'list' else a
            return taint('list()')
        if n == 'dict':
            if args and isinstance(args[0], Dct) and not kw:
                return Dct(args[0].items, args[0].open)
            return args[0] if args else Dct(())
        if n in ('any', 'np.any'):
            if isinstance(args[0], (Lst, Tup)) and args[0].items is not None:
                return bor(*[self.truth(x) for x in args[0].items])
            return mk('any', ts[0]) if ts[0] not in (TRUE, FALSE) else ts[0]
        if n in ('all', 'np.all'):
            if isinstance(args[0], (Lst, Tup)) and args[0].items is not None:
                return band(*[self.truth(x) for x in args[0].items])
            return mk('all', ts[0]) if ts[0] not in (TRUE, FALSE) else ts[0]
        if n in ('np.isnan', 'isnan'):
            return mk('isnan', ts[0])
        if n in ('np.isfinite', 'isfinite'):
            return mk('isfinite', ts[0])
        if n == 'np.logical_and':
            return band(*ts)
        if n == 'np.logical_or':
            return bor(*ts)
        if n == 'np.logical_not':
            return bnot(ts[0])
        if n in ('np.where',) and len(ts) == 3:
            return ite(ts[0] if is_bool(ts[0]) else mk('truth', ts[0]), ts[1], ts[2])
        if n == 'np.shape':
            return mk('shape', ts[0])
        if n == 'np.size':
            return mk('size', ts[0])
        if n in ('np.arange', ) and len(ts) == 1:
            return mk('arange', const(0), ts[0])
        if n in ('np.mean',):
            ax = kw.get('axis', args[1] if len(args) > 1 else None)
            return mean_term(ts[0], None if ax is None else self.T(ax))
        if n == 'np.full' and len(ts) == 2:
            return ts[1]
        if n in ('isinstance',):
            return mk('in', ts[0], ts[1])
        if n in ('print', 'warnings.warn', 'warnings.simplefilter'):
            return NONE
        if n.startswith('np.random') or n.startswith('random'):
            return fresh('rnd')
        if n in ('np.inf', 'np.nan', 'np.pi'):
            return sym(n)
        return mk('call', n, *(ts + [mk('kw', k, self.T(v)) for k, v in sorted(kw.items())]))

    def length(self, v):
        if isinstance(v, (Lst, Tup)) and v.items is not None:
            return const(len(v.items))
        if isinstance(v, Lst) and isinstance(v.tag, tuple) and v.tag and v.tag[0] == 'of':
            return mk('len', v.tag[1])
        t = self.T(v)
        if t.op in ('list', 'tuple'):
            return const(len(t.args))
        return mk('len', t)


FULL = mk('slice', NONE, NONE, NONE)
BOUND = sym('#bound')


def where(m, a, b):
    """elementwise selection"""
    if m is TRUE or m is FALSE:
        return a if m is TRUE else b
    if a.op == 'where' and a.args[0] is m:
        a = a.args[1]
    if b.op == 'where' and b.args[0] is m:
        b = b.args[2]
    return a if a is b else mk('where', m, a, b)


def unmask(v, m):
    """the elementwise expression v over the selection m, as an expression over the whole array"""
    if v.op == 'msel' and v.args[1] is m:
        return v.args[0]
    if v.op == 'lin':
        r = lin({}, v.args[1])
        for a, k in v.args[0]:
            r = add(r, scale(unmask(a, m), k))
        return r
    if v.op == 'mono':
        r = const(1)
        for a, e in v.args[0]:
            r = mul(r, power(unmask(a, m), e))
        return r
    if v.op in ('min', 'max', 'abs'):
        return TT.rebuild(v.op, tuple(unmask(a, m) if isinstance(a, T) else a for a in v.args))
    if v.op == 'ite':
        return ite(v.args[0], unmask(v.args[1], m), unmask(v.args[2], m))
    return v


def msel(a, m):
    if a.op == 'where' and a.args[0] is m:
        return msel(a.args[1], m)
    return mk('msel', a, m)


def dot(a, b):
    if a is b:
        return mk('sumsq', a)
    if a.op == 'ite':
        return ite(a.args[0], dot(a.args[1], b), dot(a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], dot(a, b.args[1]), dot(a, b.args[2]))
    for left in (True, False):      # bilinear
        x = a if left else b
        if x.op in ('lin', 'const') and (num(x) is not None or len(x.args[0]) > 1 or x.args[1] != 0 or x.args[0][0][1] != 1):
            if num(x) is not None:
                if num(x) == 0:
                    return x
                continue
            r = const(0)
            for t, k in x.args[0]:
                r = add(r, scale(dot(t, b) if left else dot(a, t), k))
            if x.args[1] != 0:
                r = add(r, scale(mk('dot', const(1), b) if left else mk('dot', a, const(1)), x.args[1]))
            return r
    return mk('dot', a, b)


def proj(t, i):
    if t.op == 'tuple' and i < len(t.args):
        return t.args[i]
    if t.op == 'ite':
        return ite(t.args[0], proj(t.args[1], i), proj(t.args[2], i))
    if t.op == 'shape':
        return mk('dim', t.args[0], const(i))
    return mk('idx', t, const(i))


def index_term(arr, key):
    if arr.op == 'ite':
        return ite(arr.args[0], index_term(arr.args[1], key), index_term(arr.args[2], key))
    if arr.op == 'tuple' and len(key) == 1 and num(key[0]) is not None and 0 <= num(key[0]) < len(arr.args):
        return arr.args[int(num(key[0]))]
    if arr.op == 'shape' and len(key) == 1 and num(key[0]) is not None:
        return mk('dim', arr.args[0], key[0])
    if arr.op == 'store':
        a, k, v = arr.args
        if k == key:
            return v
        if len(k) <= len(key) and k == key[:len(k)]:
            return index_term(v, key[len(k):])
        if len(k) == 1 and len(key) >= 1:
            d = sub(k[0], key[0]) if k[0].op not in ('slice', 'list') and key[0].op not in ('slice', 'list') else None
            if d is not None and num(d) is not None and num(d) != 0:
                return index_term(a, key)
    f = INDEX.get(arr.op)
    if f:
        r = f(arr, key)
        if r is not None:
            return r
    if len(key) == 1:
        return mk('idx', arr, key[0])
    return mk('idx', arr, *key)


INDEX = {}
MEAN = {}


def mean_term(a, ax):
    f = MEAN.get(a.op)
    if f:
        r = f(a, ax)
        if r is not None:
            return r
    if a.op == 'ite':
        return ite(a.args[0], mean_term(a.args[1], ax), mean_term(a.args[2], ax))
    return mk('mean', a, ax if ax is not None else NONE)


def _re_idx(arr, *key):
    return index_term(arr, tuple(key))


REBUILD['idx'] = _re_idx
REBUILD['mean'] = lambda a, ax: mean_term(a, None if ax is NONE else ax)
REBUILD['sumsq'] = lambda a: mk('sumsq', a)
REBUILD['dot'] = dot
