"""Backward liveness of local names over the structured AST; used to drop dead locals before states are merged."""
import ast


def reads(e, out=None):
    out = set() if out is None else out
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
            out.add(n.id)
    return out


def stores(tg):
    return {n.id for n in ast.walk(tg) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Live(object):
    def __init__(self, fn):
        self.inn, self.out, self.head = {}, {}, {}
        self.always = set()
        body = fn.body
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.always |= reads(n)
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        self.always.add(x.id)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                self.always |= set(n.names)
        self.exc = set()
        self.block(body, set(), set(), set())

    def block(self, ss, out, brk, cont):
        for s in reversed(ss):
            self.out[id(s)] = frozenset(out) | self.out.get(id(s), frozenset())
            out = self.stmt(s, out, brk, cont) | self.exc
            self.inn[id(s)] = frozenset(out) | self.inn.get(id(s), frozenset())
        return out

    def stmt(self, s, out, brk, cont):
        t = type(s).__name__
        if t == 'Assign':
            w = set()
            r = reads(s.value)
            for tg in s.targets:
                w |= stores(tg)
                r |= reads(tg)
            return (out - w) | r
        if t == 'AnnAssign':
            return (out - stores(s.target)) | (reads(s.value) if s.value else set()) | reads(s.target)
        if t == 'AugAssign':
            return out | reads(s.value) | stores(s.target) | reads(s.target)
        if t == 'Return':
            return reads(s.value) if s.value else set()
        if t == 'Raise':
            return reads(s) | self.exc
        if t == 'Break':
            return set(brk)
        if t == 'Continue':
            return set(cont)
        if t == 'If':
            return reads(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if t in ('While', 'For', 'AsyncFor'):
            after = self.block(s.orelse, out, brk, cont) if s.orelse else set(out)
            if t == 'While' and isinstance(s.test, ast.Constant) and s.test.value:
                after = set()
            hd = set(after)
            while True:
                b = self.block(s.body, hd, out, hd)
                if t == 'While':
                    new = after | b | reads(s.test)
                else:
                    new = after | (b - stores(s.target)) | reads(s.iter) | reads(s.target)
                if new <= hd:
                    break
                hd = hd | new
            self.head[id(s)] = frozenset(hd) | self.head.get(id(s), frozenset())
            return hd | (reads(s.iter) if t != 'While' else set())
        if t == 'Try':
            fin = self.block(s.finalbody, out, brk, cont) if s.finalbody else set(out)
            hs = set()
            for h in s.handlers:
                hb = self.block(h.body, fin, brk, cont)
                hs |= hb | (reads(h.type) if h.type else set())
            els = self.block(s.orelse, fin, brk, cont) if s.orelse else fin
            old = self.exc
            self.exc = self.exc | hs | (fin if s.finalbody else set())
            b = self.block(s.body, els, brk, cont)
            self.exc = old
            return b | hs
        if t in ('With', 'AsyncWith'):
            b = self.block(s.body, out, brk, cont)
            r = set()
            for it in s.items:
                r |= reads(it.context_expr)
                if it.optional_vars is not None:
                    b = b - stores(it.optional_vars)
            return b | r
        if t in ('FunctionDef', 'ClassDef'):
            return out - {s.name} | reads(s)
        return out | reads(s)


_memo = {}


def table(fn):
    r = _memo.get(id(fn))
    if r is None or r[0] is not fn:
        r = (fn, Live(fn))
        _memo[id(fn)] = r
    return r[1]
