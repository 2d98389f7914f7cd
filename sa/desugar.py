"""Counting while loops rewritten as the for loops they are (same iterations, same values of the counter afterwards), so that a loop is
judged by what it does and not by how it is written."""
import ast
from .ploop import stored_by


def own(body):
    """statements of the loop body that belong to this loop (not to loops nested in it)"""
    for s in body:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if isinstance(s, (ast.For, ast.While)) and f == 'body':
                continue
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            for x in own(getattr(s, f, []) or []):
                yield x
        for h in getattr(s, 'handlers', []):
            for x in own(h.body):
                yield x


def incremented(s):
    """name n when s is n += 1"""
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) \
            and s.value.value == 1:
        return s.target.id
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) \
            and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        for x, y in ((a, b), (b, a)):
            if isinstance(x, ast.Name) and x.id == s.targets[0].id and isinstance(y, ast.Constant) and y.value == 1:
                return x.id
    return None


def offset(e, n):
    """c when e is n + c"""
    if isinstance(e, ast.Name) and e.id == n:
        return 0
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        sg = 1 if isinstance(e.op, ast.Add) else -1
        if isinstance(e.left, ast.Name) and e.left.id == n and isinstance(e.right, ast.Constant) and isinstance(e.right.value, int):
            return sg * e.right.value
        if sg == 1 and isinstance(e.right, ast.Name) and e.right.id == n and isinstance(e.left, ast.Constant) and isinstance(e.left.value, int):
            return e.left.value
    return None


def limit(t, n):
    """(N, c) when the test t is n < N + c"""
    neg = False
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        neg, t = not neg, t.operand
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    l, o, r = t.left, t.ops[0], t.comparators[0]
    if offset(l, n) is None:
        l, r = r, l
        o = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(o), type(o))()
    if neg:
        o = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt}.get(type(o), type(o))()
    c = offset(l, n)
    if c is None or not isinstance(o, (ast.Lt, ast.LtE)):
        return None
    return r, -c + (1 if isinstance(o, ast.LtE) else 0)


def plus(e, c):
    if c == 0:
        return e
    return ast.BinOp(left=e, op=ast.Add() if c > 0 else ast.Sub(), right=ast.Constant(value=abs(c)))


def convert(prog, w):
    """replacement statements for the while loop w, or None"""
    body = list(w.body)
    test = w.test
    if w.orelse or not body:
        return None
    if isinstance(test, ast.Constant) and test.value:
        # while True: if C: break; ...
        if isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse and len(body) > 1:
            test = ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=body[0].test), body[0].test)
            body = body[1:]
        else:
            return None
    conj = list(test.values) if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
    for first in (False, True):
        n = incremented(body[0] if first else body[-1])
        if n is None:
            continue
        rest = body[1:] if first else body[:-1]
        if not rest:
            continue
        if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Store, ast.Del)) for s in rest for x in ast.walk(s)):
            continue
        if not first and any(isinstance(s, ast.Continue) for s in own(rest)):
            continue
        for i, t in enumerate(conj):
            lm = limit(t, n)
            if lm is None:
                continue
            N, c = lm
            if any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(N)):
                continue
            ok = True
            stored = {x.id for s in rest for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            attrs = set()
            for s in rest:
                attrs |= stored_by(prog, s)
            for x in ast.walk(N):
                if isinstance(x, ast.Name) and x.id in stored or isinstance(x, ast.Attribute) and x.attr in attrs:
                    ok = False
                if isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in ('len', 'min', 'max', 'int') or
                                                    isinstance(x.func, ast.Attribute) and x.func.attr in ('n', 'm', 'npt', 'min', 'max')):
                    ok = False
                if isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Subscript)) and not (
                        isinstance(x, ast.Subscript) and isinstance(x.value, ast.Attribute) and x.value.attr == 'shape'):
                    ok = False
            if not ok:
                continue
            others = conj[:i] + conj[i + 1:]
            start, stop = '__from_%s_%d' % (n, w.lineno), '__to_%s_%d' % (n, w.lineno)
            name = lambda k: ast.Name(id=k, ctx=ast.Load())
            out = [ast.Assign(targets=[ast.Name(id=start, ctx=ast.Store())], value=name(n)),
                   ast.Assign(targets=[ast.Name(id=stop, ctx=ast.Store())], value=plus(N, c))]
            if others:
                cond = others[0] if len(others) == 1 else ast.BoolOp(op=ast.And(), values=others)
                rest = [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=cond), body=[ast.Break()], orelse=[])] + rest
            if first:
                lo, hi = plus(name(start), 1), plus(name(stop), 1)
                if others:
                    continue        # the other conditions see the counter before it is advanced
            else:
                lo, hi = name(start), name(stop)
            f = ast.For(target=ast.Name(id=n, ctx=ast.Store()), iter=ast.Call(func=name('range'), args=[lo, hi], keywords=[]), body=rest,
                        orelse=[])
            last = [ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                                           value=ast.Call(func=name('max'), args=[name(start), name(stop)], keywords=[]))]
            out.append(f)
            if any(isinstance(x, ast.Break) for x in own(rest)):
                f.orelse = last
            else:
                out += last
            for s in out:
                for x in ast.walk(s):
                    if not hasattr(x, 'lineno') and isinstance(x, (ast.expr, ast.stmt)):
                        ast.copy_location(x, w)
                ast.fix_missing_locations(s)
            return out
    return None


def desugar(prog):
    def block(stmts):
        out = []
        for s in stmts:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list):
                    setattr(s, f, block(getattr(s, f)))
            for h in getattr(s, 'handlers', []):
                h.body = block(h.body)
            r = convert(prog, s) if isinstance(s, ast.While) else None
            out += r if r is not None else [s]
        return out
    for m in prog.mods.values():
        m.tree.body = block(m.tree.body)
