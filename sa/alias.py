"""May-alias and in-place-effect analysis of the numpy code.

Storages: parameters, attributes (by name), allocation sites of locals.  A variable that still refers to (a view of) a storage is stale once
that storage is changed in place through another name; reading it afterwards is a hazard, as is a caller's argument changed in place by a callee
and read later, an attribute that keeps a reference to another array that is changed in place, and an argument of the public entry point that is changed."""
import ast

VIEW_CALLS = {'ravel', 'reshape', 'view', 'squeeze', 'transpose', 'swapaxes'}
NP_VIEW = {'asarray', 'atleast_1d', 'atleast_2d', 'ravel', 'reshape', 'squeeze', 'transpose'}
ARRAY_MAKERS = {'zeros', 'ones', 'empty', 'array', 'zeros_like', 'ones_like', 'arange', 'eye', 'full', 'copy', 'maximum', 'minimum', 'dot', 'append', 'vstack', 'hstack'}


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + '.' + e.attr if b else None
    return None


class Unit(object):
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.arrayish = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.arrayish.add(n.value.id)
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ('shape', 'size', 'dot', 'copy', 'T', 'astype'):
                self.arrayish.add(n.value.id)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
                f = n.value.func
                nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
                if nm in ARRAY_MAKERS:
                    self.arrayish.add(n.targets[0].id)
        self.mutates = set()      # parameter names whose storage is changed
        self.returns = set()      # storages the result may refer to
        self.keeps = {}           # attribute -> storages stored by reference
        self.late = set()         # parameters an attribute keeps by reference and later changes in place
        self.amut = {}            # attributes whose arrays are changed in place, here or in a callee
        self.pmut = {}            # parameter -> line of a change in place


class Alias(object):
    def __init__(self, prog):
        self.prog = prog
        self.units = []
        self.byname = {}
        self.meth = {}
        self.ctor = {}
        self.hazards = []
        self.attr_mut = {}
        self.attr_2d = set()
        self.scalar_attr = set()
        for mod, m in prog.mods.items():
            if mod in ('params', 'version', '__init__'):
                pass
            for n in m.tree.body:
                if isinstance(n, ast.FunctionDef):
                    u = Unit(mod, n)
                    self.units.append(u)
                    self.byname[n.name] = u
                elif isinstance(n, ast.ClassDef):
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            u = Unit(mod, k, n.name)
                            self.units.append(u)
                            if k.name == '__init__':
                                self.ctor[n.name] = u
                                continue
                            self.meth.setdefault(k.name, []).append(u)
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and isinstance(n.slice, ast.Tuple):
                    self.attr_2d.add(n.value.attr)

    def run(self):
        def snap():
            return [(set(u.mutates), set(u.returns), set(u.amut), set(u.late)) for u in self.units]
        arr = self.array_attrs()
        for it in range(8):
            before = snap()
            self.hazards = []
            self.attr_mut = {}
            for u in self.units:
                Walk(self, u).go()
            for u in self.units:
                for a, ss in u.keeps.items():
                    for x, line in ss:
                        if a in arr and x[0] == 'p' and (a in self.attr_mut or x[1] in u.arrayish):
                            if a in self.attr_mut:
                                u.late.add(x[1])
                        if x[0] == 'a' and x[1] in arr and (a in arr or x[1] in self.attr_mut) and (x[1] in self.attr_mut or a in self.attr_mut) and x[1] != a:
                            self.hazards.append(('keep', u, line, 'self.%s keeps a reference to self.%s, which is changed in place' % (a, x[1])))
            if before == snap():
                break
        return self


class Walk(object):
    def __init__(self, A, u):
        self.A, self.u = A, u
        self.env = {}
        self.stale = {}
        self.seen = set()
        self.kept = {}

    def go(self):
        for p in self.u.params:
            self.env[p] = {('p', p)}
        self.block(self.u.node.body)

    def hz(self, kind, line, text):
        key = (kind, self.u.mod, self.u.name, text)
        if key not in self.seen:
            self.seen.add(key)
            self.A.hazards.append((kind, self.u, line, text))

    # -------------------------------------------------------------- expressions
    def al(self, e):
        """storages the value of e may share"""
        if isinstance(e, ast.Name):
            return set(self.env.get(e.id, ()))
        if isinstance(e, ast.Attribute):
            if e.attr == 'T':
                return self.al(e.value)
            d = dotted(e)
            if d and d.split('.')[0] not in ('np', 'LA', 'math', 'sys'):
                return {('a', e.attr)}
            return set()
        if isinstance(e, ast.Subscript):
            idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if self.u.name == 'solve' and isinstance(e.slice, ast.Constant) and isinstance(e.value, ast.Name) and e.value.id in self.u.params:
                return self.al(e.value)       # an element of a caller's sequence
            simple = all(isinstance(i, (ast.Slice, ast.Constant, ast.Name, ast.UnaryOp, ast.BinOp, ast.Attribute)) for i in idx)
            if simple and any(isinstance(i, ast.Slice) for i in idx) and not any(isinstance(i, ast.Name) and self.is_mask(i.id) for i in idx):
                return self.al(e.value)
            return set()
        if isinstance(e, ast.IfExp):
            return self.al(e.body) | self.al(e.orelse)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute):
                if isinstance(f.value, ast.Name) and f.value.id in ('np', 'numpy'):
                    return self.al(e.args[0]) if f.attr in NP_VIEW and e.args else set()
                if f.attr in VIEW_CALLS:
                    return self.al(f.value)
                r = set()
                for u in self.A.meth.get(f.attr, ()):
                    r |= self.mapret(u, e, True)
                return r
            if isinstance(f, ast.Name) and f.id in self.A.byname:
                return self.mapret(self.A.byname[f.id], e, False)
            return set()
        if isinstance(e, (ast.Tuple, ast.List)):
            r = set()
            for x in e.elts:
                r |= self.al(x)
            return r
        return set()

    def is_mask(self, n):
        return False

    def bind(self, u, e, meth):
        ps = u.params[1:] if meth and u.params[:1] == ['self'] else u.params
        out = {}
        for i, a in enumerate(e.args):
            if i < len(ps):
                out[ps[i]] = a
        for k in e.keywords:
            if k.arg:
                out[k.arg] = k.value
        return out

    def mapret(self, u, e, meth):
        b = self.bind(u, e, meth)
        r = set()
        for s in u.returns:
            if s[0] == 'a':
                r.add(s)
            elif s[0] == 'p' and s[1] in b:
                r |= self.al(b[s[1]])
        return r

    # -------------------------------------------------------------- effects
    def reads(self, e):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.stale:
                self.hz('stale', n.lineno, '%s (a reference to %s) is read after %s was changed in place' % ((n.id,) + self.stale[n.id]))
            if isinstance(n, ast.Call):
                self.call(n)

    def call(self, e):
        f = e.func
        us = []
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate(k.value, e.lineno, None)
        if isinstance(f, ast.Attribute):
            us = [(u, True) for u in self.A.meth.get(f.attr, ())] if not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'LA')) else []
            if isinstance(f.value, ast.Name) and f.value.id == 'np':
                if f.attr in ('copyto', 'put', 'fill_diagonal', 'place', 'putmask', 'put_along_axis') and e.args:
                    self.mutate(e.args[0], e.lineno, None)
            elif f.attr in ('shuffle',) and e.args:
                self.mutate(e.args[0], e.lineno, None)
            elif f.attr in ('sort', 'fill', 'partition', 'resize', 'put', 'itemset', 'pop', 'update', 'setdefault', 'clear', 'append', 'extend', 'insert', 'remove', 'popitem'):
                self.mutate(f.value, e.lineno, None)
        elif isinstance(f, ast.Name) and f.id in self.A.byname:
            us = [(self.A.byname[f.id], False)]
        elif isinstance(f, ast.Name) and f.id in self.A.ctor:
            us = [(self.A.ctor[f.id], True)]
        for u, m in us:
            b = self.bind(u, e, m)
            for at in u.amut:
                self.touch(('a', at), e.lineno, None)
            for at, ss in u.keeps.items():
                for x, line in ss:
                    if x[0] == 'p' and x[1] in b:
                        for st in self.al(b[x[1]]):
                            if st[0] == 'a' and st[1] != at and st[1] in self.A.array_attrs() and st[1] in self.A.attr_mut:
                                self.hz('keep', e.lineno, 'self.%s is given a reference to self.%s, which is changed in place' % (at, st[1]))
            for p in u.mutates | u.late:
                if p in b:
                    a = b[p]
                    for s in self.al(a):
                        self.touch(s, e.lineno, a.id if isinstance(a, ast.Name) else None)
                    if isinstance(a, ast.Name):
                        self.pending.append((a.id, dotted(f) or '?'))

    pending = []

    def touch(self, s, line, via):
        """storage s changed in place through variable via"""
        if s[0] == 'p':
            self.u.mutates.add(s[1])
            self.u.pmut.setdefault(s[1], line)
        if s[0] == 'a':
            self.u.amut.setdefault(s[1], line)
            self.A.attr_mut.setdefault(s[1], (self.u, line))
        if s in self.kept and s[0] != 'a':
            self.hz('keep', line, 'self.%s keeps a reference to an array that is changed in place afterwards' % self.kept[s])
        for v, ss in self.env.items():
            if v != via and s in ss and v not in self.stale:
                self.stale[v] = ('self.' + s[1] if s[0] == 'a' else s[1] if s[0] == 'p' else 'the array made in line %s' % (s[1][0] if isinstance(s[1], tuple) else s[1]), 'it' if via is None else via)

    def mutate(self, target, line, value):
        e = target
        via = e.id if isinstance(e, ast.Name) else None
        for s in self.al(e):
            self.touch(s, line, via)

    def assign(self, tg, value, line):
        if isinstance(tg, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(tg.elts) else [None] * len(tg.elts)
            for i, (t, v) in enumerate(zip(tg.elts, vs)):
                self.assign(t, v, line if v is not None else (line, i))
                if v is None and isinstance(value, ast.Name) and isinstance(t, ast.Name) and value.id in self.u.params:
                    self.env[t.id] = self.al(value)
            return
        if isinstance(tg, ast.Starred):
            tg = tg.value
        if isinstance(tg, ast.Name):
            s = self.al(value) if value is not None else set()
            self.env[tg.id] = s or {('l', line)}
            self.stale.pop(tg.id, None)
        elif isinstance(tg, ast.Attribute):
            if value is not None:
                s = {x for x in self.al(value) if x != ('a', tg.attr)}
                self.u.keeps.setdefault(tg.attr, set()).update((x, line) for x in s)
                if tg.attr in self.A.array_attrs():
                    for x in s:
                        self.kept.setdefault(x, tg.attr)
        elif isinstance(tg, ast.Subscript):
            self.mutate(tg.value, line, value)

    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        self.pending = []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Assign):
            self.reads(s.value)
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.reads(t.slice)
                self.assign(t, s.value, s.lineno)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.reads(s.value)
                self.assign(s.target, s.value, s.lineno)
        elif isinstance(s, ast.AugAssign):
            self.reads(s.value)
            t = s.target
            if isinstance(t, ast.Subscript):
                self.mutate(t.value, s.lineno, s.value)
            elif isinstance(t, ast.Name):
                if t.id in self.stale:
                    self.hz('stale', s.lineno, '%s (a reference to %s) is read after %s was changed in place' % ((t.id,) + self.stale[t.id]))
                if t.id in self.u.arrayish:
                    self.mutate(t, s.lineno, s.value)
            elif isinstance(t, ast.Attribute) and t.attr in self.A.array_attrs():
                self.mutate(t, s.lineno, s.value)
        elif isinstance(s, (ast.If,)):
            self.reads(s.test)
            e0, st0 = {k: set(v) for k, v in self.env.items()}, dict(self.stale)
            self.block(s.body)
            e1, st1 = self.env, self.stale
            self.env, self.stale = e0, st0
            self.block(s.orelse)
            leave1 = s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            leave2 = s.orelse and isinstance(s.orelse[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))
            if leave2:
                self.env, self.stale = e1, st1
            elif not leave1:
                for k, v in e1.items():
                    self.env.setdefault(k, set()).update(v)
                for k, v in st1.items():
                    self.stale.setdefault(k, v)
        elif isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.reads(s.iter)
            for _ in range(2):
                if isinstance(s, ast.While):
                    self.reads(s.test)
                else:
                    self.assign(s.target, None, s.lineno)
                self.block(s.body)
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, ast.With):
            self.block(s.body)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.reads(s.value)
                self.u.returns |= {x for x in self.al(s.value) if x[0] in 'pa'}
        elif isinstance(s, ast.Expr):
            self.reads(s.value)
        elif isinstance(s, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(s):
                self.reads(c)
        # arguments changed by a callee and not reassigned by this statement
        tg = set()
        if isinstance(s, ast.Assign):
            for t in s.targets:
                for n in ast.walk(t):
                    if isinstance(n, ast.Name):
                        tg.add(n.id)
        for v, f in self.pending:
            if v not in tg and v in self.env:
                self.stale[v] = (v, 'its array (by %s)' % f)


def _array_attrs(self):
    r = getattr(self, '_aa', None)
    if r is None:
        r = set(self.attr_2d)
        for mod, m in self.prog.mods.items():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                    r.add(n.value.attr)
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Call):
                    f = n.value.func
                    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
                    if nm in ARRAY_MAKERS:
                        r.add(n.targets[0].attr)
        self._aa = r
    return r


Alias.array_attrs = _array_attrs
