"""C18: what the methods of DiagnosticInfo do to the table - one row per call of save_info_from_control in every documented column,
each holding the documented quantity, and updates that touch the last row of their own column only."""
from .terms import *
from .witness import differ
from .interp import *
from .tables import Tables

STATE = {'nf': 'nf', 'nx': 'nx', 'delta': 'delta', 'rho': 'rho'}
COLUMNS = ['xk', 'rk', 'fk', 'rho', 'delta', 'interpolation_error', 'interpolation_condition_number', 'interpolation_change_J_norm',
           'interpolation_total_residual', 'poisedness', 'max_distance_xk', 'norm_gk', 'norm_sk', 'nruns', 'nf', 'nx', 'npt', 'nsamples',
           'iter_this_run', 'iters_total', 'iter_type', 'ratio', 'slow_iter']
UPDATES = {'update_interpolation_information': {'interpolation_error': 'interp_error', 'interpolation_condition_number': 'interp_cond_num',
                                                'interpolation_total_residual': 'interp_total_resid', 'interpolation_change_J_norm': 'norm_change_J',
                                                'norm_gk': 'norm_gk', 'norm_sk': 'norm_sk'},
           'update_ratio': {'ratio': 'ratio'}, 'update_iter_type': {'iter_type': 'iter_type'}, 'update_slow_iter': {'slow_iter': 'slow_iter'}}


class Diag(Tables):
    def table_of(self, heap):
        for a, d in heap['self'].items():
            if isinstance(d, Dct) and any(isinstance(k, T) and k.op == 'const' and k.args[1] in COLUMNS for k, _ in d.items):
                return a, d
        return None, None

    def run(self):
        ok = self.rep.ok
        meths = {n for c, n in self.prog.methods if c == 'DiagnosticInfo'}
        outs, h, I = self.method('DiagnosticInfo', '__init__', {})
        where0 = self.line
        heaps = [s.heap for v, s in outs]
        name, tab = self.table_of(heaps[0]) if len(heaps) == 1 else (None, None)
        if tab is None or tab.open:
            ok('C18', 'columns', where0, 'the columns of the table are known', None, 'the table is not a dictionary built in __init__')
            return
        for c in COLUMNS:
            v = tab.get(const(c))
            ok('C18', 'columns', where0, 'column %s exists and starts empty' % c, False if v is None else True if isinstance(v, Lst) and v.items == () else
               False if isinstance(v, Lst) and v.items else None, str(v))
        cols = [k.args[1] for k, _ in tab.items]
        one = {c: sym('row1.' + c) for c in cols}
        heap = dict(heaps[0]['self'])
        heap[name] = Dct([(k, Lst((one[k.args[1]],))) for k, _ in tab.items])
        self.save(name, cols, one, heap)
        heap = dict(heap)
        two = {c: sym('row2.' + c) for c in cols}
        heap[name] = Dct([(k, Lst((one[k.args[1]], two[k.args[1]]))) for k, _ in tab.items])
        for m, spec in UPDATES.items():
            if m in meths:
                self.update(m, spec, name, cols, one, two, heap)
        if 'to_dataframe' in meths:
            self.frame(name, cols, heap)

    def save(self, name, cols, one, heap):
        ok = self.rep.ok
        m, node = self.prog.methods[('DiagnosticInfo', 'save_info_from_control')]
        ps = [a.arg for a in node.args.args][1:]
        if len(ps) < 3:
            ok('C18', 'columns', m.name, 'save_info_from_control takes the controller, run number and iteration number', None)
            return
        S = lambda n: sym('S.' + n)
        res = [S(x) for x in ('x', 'rvec', 'obj', 'jac', 'nsamples', 'eval_num', 'jac_eval_nums')]
        fn = {'npt': lambda I, st, b: [(S('npt'), st)], 'get_final_results': lambda I, st, b: [(Tup(res), st)],
              'distances_to_xopt': lambda I, st, b: [(S('sqdist'), st)], 'poisedness_constant': lambda I, st, b: [(S('poised'), st)],
              'remove_scaling': lambda I, st, b: [(mk('unscaled', *[I.T(x) for x in list(b.values())[:2]]), st)]}
        w = '%s.py:%d' % (m.name, node.lineno)
        outs = []
        for flag in ((TRUE, FALSE) if ps[3:] else (None,)):
            args = {ps[0]: Ref('Controller', 'Controller'), ps[1]: sym('nruns'), ps[2]: sym('iter')}
            for p in ps[3:]:
                args[p] = flag
            I, h = self.interp(None, fn)
            st = State()
            st.frames = [{}]
            st.heap['self'] = dict(heap)
            st.heap['Controller'] = {'nf': S('nf'), 'nx': S('nx'), 'delta': S('delta'), 'rho': S('rho'), 'scaling_changes': S('scaling'), 'model': Ref('model', 'Model')}
            st.heap['model'] = {'nsamples': S('model.nsamples'), 'npt_so_far': S('npt'), 'num_pts': S('num_pts')}
            I.modstack.append(m.name)
            o = I.call_fn(Fn(node, m.name, self_=Ref('self', 'DiagnosticInfo'), qual='DiagnosticInfo.save_info_from_control'), [], args, st, node)
            self.rep.analysed |= set(I.funcs_seen)
            if h.raises or not o:
                ok('C18', 'columns', w, 'one row is recorded', None, str(h.raises[:1]))
            outs += o
        want = {'nf': S('nf'), 'nx': S('nx'), 'delta': S('delta'), 'rho': S('rho'), 'npt': S('npt'), 'fk': res[2], 'rk': res[1],
                'xk': mk('unscaled', res[0], S('scaling')), 'nruns': sym('nruns'), 'iter_this_run': sym('iter'), 'iters_total': const(1)}
        for v, s in outs:
            d = s.heap['self'].get(name)
            if not isinstance(d, Dct) or d.open:
                ok('C18', 'columns', w, 'one row is recorded', None, 'the table cannot be followed')
                continue
            for c in cols:
                g = d.get(const(c))
                if not isinstance(g, Lst) or g.items is None:
                    ok('C18', 'columns', w, 'column %s gets one entry per row' % c, None, str(g))
                    continue
                good = len(g.items) == 2 and g.items[0] is one[c]
                ok('C18', 'columns', w, 'column %s gets one entry per row' % c, good, '%d entries after recording the second row' % len(g.items))
                if good and c in want:
                    x = g.items[1]
                    x = I.T(x) if not isinstance(x, T) else x
                    r = True if x is want[c] else None if x.taint or any(t.op == 'sym' and '#' in t.args[0] for t in syms(x)) else False
                    if r is False and c not in ('nf', 'nx', 'delta', 'rho', 'npt', 'fk', 'xk', 'rk') and any(t.op not in ('sym', 'const', 'lin') for t in subterms(x)):
                        r = False if not x.taint and syms(x) <= {sym('nruns'), sym('iter')} and differ(x, want[c], [sym('nruns'), sym('iter')]) else None
                    ok('C18', 'columns', w, 'column %s records %s' % (c, show(want[c])), r, show(x)[:120])
                elif good and c == 'nsamples':
                    x = g.items[1]
                    if isinstance(x, T) and not x.taint:
                        ok('C18', 'columns', w, 'column nsamples counts the samples of the current points', True if S('model.nsamples') in subterms(x) else None, show(x)[:120])
            extra = [k for k, _ in d.items if not (isinstance(k, T) and k.op == 'const' and k.args[1] in cols)]
            ok('C18', 'columns', w, 'no column appears after the first row', not extra, str(extra[:2]))

    def update(self, meth, spec, name, cols, one, two, heap):
        ok = self.rep.ok
        m, node = self.prog.methods[('DiagnosticInfo', meth)]
        ps = [a.arg for a in node.args.args][1:]
        args = {p: sym('new.' + p) for p in ps}
        outs, h, I = self.method('DiagnosticInfo', meth, args, heap)
        w = self.line
        if h.raises or not outs:
            ok('C18', 'columns', w, '%s updates the last row' % meth, None, str(h.raises[:1]))
        order = list(spec)
        for v, s in outs:
            d = s.heap['self'].get(name)
            if not isinstance(d, Dct) or d.open:
                ok('C18', 'columns', w, '%s updates the last row' % meth, None)
                continue
            for c in cols:
                g = d.get(const(c))
                if not isinstance(g, Lst) or g.items is None:
                    ok('C18', 'columns', w, '%s keeps the length of column %s' % (meth, c), None)
                    continue
                ok('C18', 'columns', w, '%s keeps the length of column %s' % (meth, c), len(g.items) == 2, '%d' % len(g.items))
                if len(g.items) != 2:
                    continue
                ok('C18', 'columns', w, '%s leaves earlier rows of column %s alone' % (meth, c), True if g.items[0] is one[c] else False, str(g.items[0]))
                if c not in spec:
                    ok('C18', 'columns', w, '%s leaves column %s alone' % (meth, c), True if g.items[1] is two[c] else None if c not in COLUMNS else False, str(g.items[1]))
                elif spec[c] in args:
                    x = g.items[1]
                    r = True if x is args[spec[c]] else False if x is two[c] or any(x is y for y in args.values()) else None
                    ok('C18', 'columns', w, '%s stores its argument in column %s' % (meth, c), r, str(x))

    def frame(self, name, cols, heap):
        ok = self.rep.ok
        m, node = self.prog.methods[('DiagnosticInfo', 'to_dataframe')]
        ps = [a.arg for a in node.args.args][1:]
        for xk in (True, False):
            for rk in (True, False):
                got = []
                want = {'xk': xk, 'rk': rk}
                if not all('with_' + k in ps for k in want):
                    ok('C18', 'columns', m.name, 'columns of the data frame', None)
                    return
                I, h = self.interp()
                old = h.call_ext

                def call_ext(I, st, nm, args, kw, node, old=old):
                    if nm.split('.')[-1] in ('DataFrame', 'from_dict'):
                        got.append((args[0] if args else kw.get('data'), dict(kw)))
                        return [(sym('frame'), st)]
                    return old(I, st, nm, args, kw, node)
                h.call_ext = call_ext
                st = State()
                st.frames = [{}]
                st.heap['self'] = dict(heap)
                I.modstack.append(m.name)
                I.call_fn(Fn(node, m.name, self_=Ref('self', 'DiagnosticInfo'), qual='DiagnosticInfo.to_dataframe'), [],
                          {'with_' + k: TRUE if v else FALSE for k, v in want.items()}, st, node)
                w = '%s.py:%d' % (m.name, node.lineno)
                for d, kw in got:
                    if not isinstance(d, Dct) or d.open or kw:
                        ok('C18', 'columns', w, 'columns of the data frame', None)
                        continue
                    for c in cols:
                        has = d.get(const(c))
                        exp = want.get(c, True)
                        v = (has is not None) == exp
                        if v and has is not None:
                            v = True if has == heap[name].get(const(c)) or str(has) == str(heap[name].get(const(c))) else None
                        ok('C18', 'columns', w, 'column %s is %s the data frame (with_xk=%s, with_rk=%s)' % (c, 'in' if exp else 'left out of', xk, rk), v)
                if not got:
                    ok('C18', 'columns', w, 'columns of the data frame', None)


def diag(prog, rep, tier):
    d = Diag(prog, rep, tier)
    d.guard(d.run, 'C18')
