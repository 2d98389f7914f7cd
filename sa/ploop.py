"""Loop rule for loops that drive whole iterations of the algorithm: one arbitrary iteration.

Every location the body can change is unknown at the head, except that (a) locations that keep a constant difference to each other share one
unknown and (b) the class invariants that hold at entry and at every back edge are assumed.  Both are found by starting from everything
that holds at entry and dropping what one iteration does not preserve (greatest fixpoint)."""
import ast
from .terms import *
from .interp import *


def stored_by(prog, node, cache={}):
    """attribute names that running this statement can store (by name, through every function it may call)"""
    funcs, meths = {}, {}
    for m in prog.mods.values():
        for f, nd in m.funcs.items():
            funcs.setdefault(f, []).append(nd)
    for (c, f), (m, nd) in prog.methods.items():
        meths.setdefault(f, []).append(nd)
    out, seen, work = set(), set(), [node]
    while work:
        n = work.pop()
        for x in ast.walk(n):
            b = x
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(b, ast.Attribute):
                out.add(b.attr)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) \
                    and x.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
                out.add(x.func.value.attr)
            nm = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
            if not isinstance(getattr(x, 'ctx', None), ast.Load):
                continue
            for kind, defs in (('m', meths), ('f', funcs)):
                if nm in defs and (kind, nm) not in seen and (kind == 'm') == isinstance(x, ast.Attribute):
                    seen.add((kind, nm))
                    work.extend(defs[nm])
    return out


def rigid_diff(a, b):
    d = sub(a, b)
    if d.taint or any('#' in s.args[0] for s in syms(d) if s.op == 'sym'):
        return None
    if d.size > 6:
        return None
    return d


class PInterp(Interp):
    minmax = True
    P = None
    factor_common = True
    verbose = False
    nmain = 0

    def loop(self, node, entries, head, step, bound=None):
        if entries and 'Controller' in entries[0].heap and self.P.evaluating & {
                n.func.attr for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}:
            if self.keeps_results(self.stack[-1][0]):
                return Interp.loop(self, node, entries, head, step, bound)
            res = []
            if self.verbose:
                for e in self.reduce(entries, 'M'):
                    self.dbg = getattr(self, 'dbg', []) + [self.shape(e)]
                    if len(self.dbg) > 1:
                        print('DIFF', set(self.dbg[0][0]) ^ set(self.dbg[1][0]), self.dbg[0][1], self.dbg[1][1])
                    print('ENTRY', self.hooks.discrete(e), sorted(k for k in e.env))
            for e in self.reduce(entries, 'M'):
                res += self.iteration(node, e, head, step, bound)
            return res
        return Interp.loop(self, node, entries, head, step, bound)

    def keeps_results(self, fn):
        """does the function put evaluations aside in a list, to be processed by a later loop?"""
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('append', 'insert', 'extend') and any(
                    isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in self.P.evaluating for a in n.args for x in ast.walk(a)):
                return True
        return False

    def iteration(self, node, entry, head, step, bound):
        tag = 'L%d' % node.lineno
        lv = self.live() if self.prune_on else None
        hl = lv.head.get(id(node)) if lv is not None else None
        if hl is not None:
            self.drop_dead([entry], hl, lv)
        H = self.hooks
        names = self.assigned(node)
        attrs = set()
        for b in node.body:
            attrs |= stored_by(self.prog, b)
        top = len(entry.frames) - 1
        changed = set()
        for p, v in locations(entry):
            if p[0] == 'f' and p[1] == top and p[2] in names:
                changed.add(p)
            elif p[0] == 'h' and (p[2] in attrs or p[2].startswith('#')):
                changed.add(p)
            elif p[0] == 'g' and p[1] in ('calls', 'pts'):
                changed.add(p)
        base = dict(locations(entry))
        classes = None
        dropped = set()
        special = {}
        heads = {}

        def unknown(p):
            if p not in heads:
                heads[p] = fresh('%s.%s' % (tag, p[-1]))
            return heads[p]
        for attempt in range(10):
            if classes is None:
                classes = []
                for p in sorted(changed, key=repr):
                    v = base[p]
                    if not isinstance(v, T) or is_bool(v) or v.taint or v.op == 'const' and num(v) is None:
                        continue
                    for c in classes:
                        if H.may_move_together(p, v, c[0], base[c[0]]) and rigid_diff(v, base[c[0]]) is not None:
                            c.append(p)
                            break
                    else:
                        classes.append([p])
            h = entry.copy()
            h.facts = {f for f in entry.facts}
            member = {}
            for c in classes:
                r = unknown(c[0])
                for p in c:
                    member[p] = add(r, rigid_diff(base[p], base[c[0]]))
            for p in sorted(changed, key=repr):
                v = base[p]
                if p in special:
                    nv = special[p]
                elif p in member:
                    nv = member[p]
                elif isinstance(v, T):
                    nv = unknown(p)
                    if is_bool(v):
                        nv = mk('truth', nv)
                elif isinstance(v, Lst):
                    nv = Lst(None, ('havoc', p[-1], tag))
                elif isinstance(v, (Tup, Rec)):
                    nv = unknown(p)
                else:
                    continue
                set_location(h, p, nv)
            cands = H.templates(h)
            at_entry = H.templates(entry)
            ninv = H.n_invariants(entry)
            use = []
            for i in range(len(cands)):
                if i in dropped or cands[i].taint:
                    continue
                if cands[i] in h.facts or entry.entails(at_entry[i]) or i < ninv and not entry.entails(bnot(at_entry[i])):
                    use.append(i)
            for i in use:
                h.assume(cands[i])
            hv = dict(locations(h))
            mark = len(self.log)
            exits, done, backs = [], [], []
            tr, fa = head(h.copy())
            exits += fa
            for x in self.reduce(tr):
                nxt, d = self.block(node.body, [x])
                for o in d:
                    if o[0] == 'break':
                        exits.append(o[1])
                    elif o[0] == 'continue':
                        nxt.append(o[1])
                    else:
                        done.append(o)
                for y in nxt:
                    backs += step(y)
            if hl is not None:
                self.drop_dead(backs, hl, lv)
            again = found = False
            lbs = [dict(locations(b)) for b in backs]
            for b, lb in zip(backs, lbs):
                for p, v in hv.items():
                    if p in changed or p[0] == 'g' and (p[1].startswith('__') or p[1] in ('Kset', 'Sset')):
                        continue
                    w = lb.get(p)
                    if w is not None and not (w is v or (not isinstance(v, T) and w == v)):
                        changed.add(p)
                        classes = None
                        again = True
                        if self.verbose:
                            print('changed', p)
            for b, lb in zip(backs, lbs):
                # sets of rows overwritten so far
                if again:
                    break
                for p in (('g', 'Kset'), ('g', 'Sset')):
                    if p in hv and p in lb and p not in special:
                        w = lb[p]
                        if w is not hv[p] and w.op == 'pset':
                            old = {heads[q]: base[q] for q in heads if isinstance(base.get(q), T)}
                            stable = not any(x in old for x in subterms(w.args[0])) and w.args[0].op not in ('any', 'single')
                            special[p] = mk('pset', w.args[0], subst(w.args[1], old), w.args[1]) if stable and base[p].op == 'pset' and base[p].args[0] is NONE else \
                                mk('pset', mk('any'), const(0), const(0))
                            found = True
            again = again or found
            for p in special:
                for b, lb in zip(backs, lbs):
                    if p not in hv or not within(b, lb.get(p), hv[p], heads, lb):
                        if special[p].args[0].op != 'any':
                            special[p] = mk('pset', mk('any'), const(0), const(0))
                            again = True
                            break
            if not again:
                new = []
                for c in classes:
                    groups = {}
                    for p in c:
                        key = []
                        for lb in lbs:
                            v = lb.get(p)
                            key.append(sub(v, hv[p]) if isinstance(v, T) else None)
                        groups.setdefault(tuple(key), []).append(p)
                    gl = list(groups.items())
                    merged = []
                    for key, g in gl:
                        for m in merged:
                            if all(x is y or (x is not None and y is not None and b.entails(eq(x, y))) for x, y, b in zip(key, m[0], backs)):
                                m[1].extend(g)
                                break
                        else:
                            merged.append((key, list(g)))
                    if len(merged) > 1:
                        again = True
                        if self.verbose:
                            print('split', [m[1] for m in merged])
                    new += [m[1] for m in merged]
                classes = new
            for i in use:
                if i < ninv:
                    continue
                for b in backs:
                    t = H.templates(b)
                    if i < len(t) and not t[i].taint and not b.entails(t[i]):
                        if self.verbose:
                            print('dropped', show(t[i])[:200])
                        dropped.add(i)
                        again = True
                        break
            if not again:
                break
            del self.log[mark:]
        else:
            self.unsup(node, 'iteration invariants did not stabilise')
        H.keep_invariants(self, [entry], node, 'before the loop', [i for i in use if i < ninv])
        H.keep_invariants(self, backs, node, 'at the end of an iteration', [i for i in use if i < ninv])
        H.on_iteration(self, node, entry, h, backs, exits, done)
        if getattr(node, 'orelse', None):
            nxt, d = self.block(node.orelse, exits)
            exits, done = nxt, done + d
        if hl is not None:
            self.drop_dead(exits, lv.out[id(node)], lv)
        exits = self.reduce(exits, tag + 'x')
        return [('next', x, None) for x in exits] + done


def within(st, w, h, heads, lb):
    """is the set of rows at the back edge covered by the assumed one (with the counters as they are at the back edge)?"""
    if w is None or w.op != 'pset' or h.op != 'pset':
        return False
    if h.args[0].op == 'any' or w.args[0] is NONE:
        return True
    now = {s: lb[q] for q, s in heads.items() if isinstance(lb.get(q), T)}
    lo, hi = subst(h.args[1], now), subst(h.args[2], now)
    return w.args[0] is h.args[0] and st.entails(le(lo, w.args[1])) and st.entails(le(w.args[2], hi))
