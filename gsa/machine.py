"""Statements, and running an analysis."""

import ast

from .terms import (T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, walk, subst, show)
from .project import Func, Class, own_nodes, dotted, live_branch
from . import engine as E
from .engine import Exc, Obj, Frame, State, Event, Monitor, Config
from .calls import Calls


class Machine(Calls):
    def __init__(self, project, monitors=(), cfg=None):
        Calls.__init__(self, project, monitors, cfg)
        self.catch_stack = []
        self.yield_hook = []
        self.classes()

    # ------------------------------------------------------------- assignment
    def setattr(self, b, name, v, st, node):
        """-> states"""
        if b.op == 'proxy':
            b = b.args[0]
        if b.op not in ('cls', 'mod'):
            st = self.deref(b, st, node, 'attribute %s' % name)
            if st is None:
                return []
        c = self.cls_of(b, st) if b.op != 'cls' else None
        if c is not None:
            f, _ = self.p.lookup(c, name, 'setters')
            if f is not None:
                st = self.emit(st, 'setprop', node, obj=b, attr=name, value=v, target=f)
                if st is None:
                    return []
                return [s for _, s in self.call_func(f, [b, v], {}, st, node)]
        st = self.emit(st, 'setattr', node, obj=b, attr=name, value=v, cls=c)
        if st is None:
            return []
        if name in self.cfg.volatile:
            return [st]
        return [self.put_attr(b, name, v, st)]

    def bind(self, target, v, st, node):
        """assign v to a target -> states"""
        if isinstance(target, ast.Name):
            fn = self.fn_of(st)
            if fn is not None and not isinstance(fn.node, ast.Lambda) and target.id not in self.local_names(fn) and not target.id.startswith('$'):
                # global / nonlocal
                st = self.emit(st, 'setglobal', node, name=target.id, value=v)
                if st is None:
                    return []
                f = fn
                while f.parent is not None:
                    f = f.parent
                    for i in range(len(st.frames) - 2, -1, -1):
                        if st.frames[i].func is f:
                            s = st.copy()
                            fr = s.frames[i]
                            e = dict(fr.env)
                            e[target.id] = v
                            s.frames = s.frames[:i] + (Frame(fr.func, e),) + s.frames[i + 1:]
                            return [s]
                return [st]
            return [st.set(target.id, v)]
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.unpack(target, v, st, node)
        if isinstance(target, ast.Starred):
            return self.bind(target.value, v, st, node)
        if isinstance(target, ast.Attribute):
            s0 = st.set('$v', v)
            out = []
            for b, s in self.ev(target.value, s0):
                v2 = s.get('$v')
                out += self.setattr(b, target.attr, v2, s.unset(['$v']), target)
            return out
        if isinstance(target, ast.Subscript):
            s0 = st.set('$v', v)
            out = []
            if isinstance(target.slice, ast.Slice):
                for b, sl, s in self.slice_parts(target, s0):
                    v = s.get('$v')
                    s = s.unset(['$v'])
                    s = self.emit(s, 'mutate', target, obj=b, op='setslice', args=[v])
                    if s is not None:
                        if b.op == 'ref' and b.args in s.heap:
                            o = s.heap[b.args]
                            xs = self.known_items(v, s)
                            if sl is not None and o.kind == 'list' and xs is not None and o.items is not None and not any(x.op == '*' for x in o.items) and (sl.step is None or sl.step == 1):
                                ys = list(o.items)
                                ys[sl] = list(xs)
                                s = s.with_heap(b.args, Obj(o.kind, o.cls, {k: x for k, x in o.attrs.items() if k == '$pin'}, tuple(ys)))
                            elif target.slice.lower is None and target.slice.upper is None:
                                s = s.with_heap(b.args, Obj(o.kind, o.cls, {}, tuple(self.seq_items(v, s))))
                            else:
                                s = self.havoc(b, s)
                        out.append(s)
                return out
            for (b, k), s in self.ev_list([target.value, target.slice], s0):
                v2 = s.get('$v')
                s = s.unset(['$v'])
                out += self.setitem(b, k, v2, s, target)
            return out
        return [st.degrade()]

    def slice_parts(self, target, st):
        """-> (list, slice or None if it is not known, state)"""
        t = target.slice
        out = []
        for vs, s in self.ev_list([target.value] + [x for x in (t.lower, t.upper, t.step) if x is not None], st):
            it = iter(vs[1:])
            ps = [next(it) if x is not None else NONE for x in (t.lower, t.upper, t.step)]
            known = all(x.op == 'const' and (cval(x) is None or isinstance(cval(x), int)) for x in ps)
            out.append((self.unproxy(vs[0]), slice(*[cval(x) for x in ps]) if known else None, s))
        return out

    def setitem(self, b, k, v, st, node):
        if b.op == 'proxy':
            b = b.args[0]
        st = self.deref(b, st, node, 'item assignment')
        if st is None:
            return []
        c = self.cls_of(b, st)
        if c is not None:
            f, _ = self.p.lookup(c, '__setitem__')
            if f is not None:
                return [s for _, s in self.call_func(f, [b, k, v], {}, st, node)]
        st = self.emit(st, 'setitem', node, base=b, key=k, value=v)
        if st is None:
            return []
        if b.op == 'ref' and b.args in st.heap:
            o = st.heap[b.args]
            if o.kind in ('list', 'bytearray'):
                if o.items is not None and k.op == 'const' and isinstance(cval(k), int) and not any(x.op == '*' for x in o.items):
                    i = cval(k)
                    if -len(o.items) <= i < len(o.items):
                        i %= len(o.items)
                        return [st.with_heap(b.args, o.with_items(o.items[:i] + (v,) + o.items[i + 1:]))]
                    self.may('IndexError', st, node)
                    return []
                if o.items is not None and len(o.items) <= 12 and not any(x.op == '*' for x in o.items):
                    # unknown position: any element may have changed
                    return [self.havoc(b, st)]
                return [self.havoc(b, st)]
        return [self.dict_write(b, k, v, st)]

    def unpack(self, target, v, st, node):
        n = len(target.elts)
        star = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
        xs = self.known_items(v, st)
        if xs is not None:
            if not star and len(xs) == n or star and len(xs) >= n - 1:
                vals = xs
                if star:
                    i = star[0]
                    m = len(xs) - (n - 1)
                    lst, st = self.alloc(st, target, Obj('list', None, {}, tuple(xs[i:i + m])), 'star')
                    vals = xs[:i] + [lst] + xs[i + m:]
                sts = [st]
                for k, val in enumerate(vals):
                    sts = [s.set('$u%d' % k, val) for s in sts]
                for k, e in enumerate(target.elts):
                    sts = [s2 for s in sts for s2 in self.bind(e, s.get('$u%d' % k), s, node)]
                return [s.unset(['$u%d' % k for k in range(n)]) for s in sts]
            self.may('ValueError', st, node)
            st = self.emit(st, 'badunpack', node, value=v, want=n, got=len(xs))
            return []
        st = self.deref(v, st, node, 'unpacking')
        if st is None:
            return []
        self.may('ValueError', st, node)
        st = self.emit(st, 'unpack', node, value=v, want=n, star=bool(star))
        if st is None:
            return []
        c = self.content(v, st)
        if v.op == 'm' and v.args[0] == 'groups':
            vals = [T('m', ('group', v.args[1], const(i + 1))) for i in range(n)]
        else:
            vals = [T('item', (c, const(i))) for i in range(n)]
        sts = [st]
        for e, val in zip(target.elts, vals):
            sts = [s2 for s in sts for s2 in self.bind(e, val, s, node)]
        return sts

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, sts):
        """-> [(kind, value, state)] kinds: None, 'break', 'continue', 'return'"""
        outs = []
        cur = list(sts)
        for s in stmts:
            nxt = []
            for st in cur:
                for kind, v, s2 in self.exec_stmt(s, st):
                    if kind is None:
                        nxt.append(self.prune(s2, s))
                    else:
                        outs.append((kind, v, s2))
            cur = self.dedupe(nxt)
            self.stats['states'] += len(cur)
            if not cur:
                break
        outs = self.dedupe_outs(outs)
        outs += [(None, None, s) for s in cur]
        return outs

    def dedupe_outs(self, outs):
        if len(outs) < 2:
            return outs
        by = {}
        for k, v, s in outs:
            by.setdefault(k, []).append(s)
        return [(k, None, s) for k, ss in by.items() for s in self.dedupe(ss)]

    def exec_stmt(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise E.Budget('step budget exhausted')
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            return [(None, None, st.degrade())]
        return m(n, st)

    def st_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(None, None, st)]
        return [(None, None, s) for v, s in self.ev(n.value, st)]

    def st_Pass(self, n, st):
        return [(None, None, st)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, n, st):
        return [(None, None, st)]

    def st_ImportFrom(self, n, st):
        return [(None, None, st)]

    def st_Assert(self, n, st):
        ts, fs = self.cond(n.test, st)
        for s in fs:
            self.may('AssertionError', s, n)
        return [(None, None, s) for s in ts]

    def st_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            sts = [s.set('$a', v)] if len(n.targets) > 1 or not isinstance(n.targets[0], ast.Name) else None
            if sts is None:
                for s2 in self.bind(n.targets[0], v, s, n):
                    out.append((None, None, s2))
                continue
            for t in n.targets:
                sts = [s3 for s2 in sts for s3 in self.bind(t, s2.get('$a'), s2, n)]
            out += [(None, None, s2.unset(['$a'])) for s2 in sts]
        return out

    def st_AnnAssign(self, n, st):
        if n.value is None:
            return [(None, None, st)]
        return [(None, None, s2) for v, s in self.ev(n.value, st) for s2 in self.bind(n.target, v, s, n)]

    def st_AugAssign(self, n, st):
        o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**', ast.MatMult: '@'}[type(n.op)]
        rd = ast.copy_location(_load(n.target), n.target)
        out = []
        for (a, b), s in self.ev_list([rd, n.value], st):
            oa = s.heap.get(a.args) if a.op == 'ref' else None
            if oa is not None and oa.kind in ('list', 'bytearray') and o == '+':
                for _, s2 in self.method_model(a, 'extend', [b], {}, s, n):
                    out.append((None, None, s2))
                continue
            s = self.deref(a, s, n, 'augmented assignment')
            if s is None:
                continue
            v, s = self.binval(o, a, b, s, n)
            for s2 in self.bind(n.target, v, s, n):
                out.append((None, None, s2))
        return out

    def st_Delete(self, n, st):
        sts = [st]
        for t in n.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    nxt.append(s.unset([t.id]))
                elif isinstance(t, ast.Subscript):
                    if isinstance(t.slice, ast.Slice):
                        for b, sl, s2 in self.slice_parts(t, s):
                            s2 = self.emit(s2, 'mutate', t, obj=b, op='delslice', args=[])
                            if s2 is not None:
                                if b.op == 'ref' and b.args in s2.heap:
                                    o = s2.heap[b.args]
                                    if sl is not None and o.kind in ('list', 'bytearray') and o.items is not None and not any(x.op == '*' for x in o.items):
                                        ys = list(o.items)
                                        del ys[sl]
                                        s2 = s2.with_heap(b.args, o.with_items(tuple(ys)))
                                    elif t.slice.lower is None and t.slice.upper is None:
                                        s2 = s2.with_heap(b.args, Obj(o.kind, o.cls, {}, ()))
                                    else:
                                        s2 = self.havoc(b, s2)
                                nxt.append(s2)
                        continue
                    for (b, k), s2 in self.ev_list([t.value, t.slice], s):
                        b = self.unproxy(b)
                        c = self.cls_of(b, s2)
                        f = self.p.lookup(c, '__delitem__')[0] if c is not None else None
                        if f is not None:
                            nxt += [s3 for _, s3 in self.call_func(f, [b, k], {}, s2, t)]
                            continue
                        s2 = self.deref(b, s2, t, 'item deletion')
                        if s2 is None:
                            continue
                        o = s2.heap.get(b.args) if b.op == 'ref' else None
                        if o is not None and o.kind == 'list':
                            for _, s3 in self.method_model(b, 'pop', [k], {}, s2, t):
                                nxt.append(s3)
                            continue
                        known = self.decide(self.membership(k, b, s2), s2)
                        s2 = self.emit(s2, 'keyread', t, base=b, index=k, known=known, caught=self.is_caught(Exc('KeyError', True, (), None)))
                        if s2 is None:
                            continue
                        if known is not True:
                            self.may('KeyError', s2, t, base=b, index=k)
                        s2 = self.emit(s2, 'delitem', t, base=b, key=k, default=False, caught=self.is_caught(Exc('KeyError', True, (), None)))
                        if s2 is not None:
                            nxt.append(self.dict_write(b, k, None, s2))
                elif isinstance(t, ast.Attribute):
                    for b, s2 in self.ev(t.value, s):
                        s2 = self.emit(s2, 'delattr', t, obj=b, attr=t.attr)
                        if s2 is not None:
                            nxt.append(self.put_attr(b, t.attr, sym('!deleted'), s2))
                else:
                    nxt.append(s.degrade())
            sts = nxt
        return [(None, None, s) for s in sts]

    def st_Return(self, n, st):
        if n.value is None:
            s = self.emit(st.set('$ret', NONE), 'return', n, value=NONE)
            return [('return', None, s)] if s is not None else []
        out = []
        for v, s in self.ev(n.value, st):
            s = self.emit(s.set('$ret', v), 'return', n, value=v)
            if s is not None:
                out.append(('return', None, s))
        return out

    def st_Break(self, n, st):
        return [('break', None, st)]

    def st_Continue(self, n, st):
        return [('continue', None, st)]

    def st_If(self, n, st):
        lb = live_branch(n.test)
        if lb is not None:
            return self.exec_block(n.body if lb else n.orelse, [st])
        ts, fs = self.cond(n.test, st)
        out = []
        if ts:
            out += self.exec_block(n.body, self.dedupe([self.prune(s, n, True) for s in ts]))
        if fs:
            out += self.exec_block(n.orelse, self.dedupe([self.prune(s, n, True) for s in fs]))
        return out

    def st_Raise(self, n, st):
        if n.exc is None:
            if st.handled:
                self.throw(st.handled[-1], st, n)
            else:
                self.throw(Exc('RuntimeError', True, (), n.lineno), st, n)
            return []
        for v, s in self.ev(n.exc, st):
            if v.op == 'cls' and self.p.is_exc(self.p_class(v)):
                for v2, s2 in self.instantiate(self.p_class(v), [], {}, s, n):
                    self.throw(self.exc_of(v2, n), s2, n)
            else:
                self.throw(self.exc_of(v, n), s, n)
        return []

    def st_FunctionDef(self, n, st):
        fn = self.fn_of(st)
        f = fn.nested.get(n.name)
        if f is None or f.node is not n:
            f = None
            for g in self.p.funcs.values():
                if g.node is n:
                    f = g
                    break
            if f is None:
                f = Func(fn.mod, fn.cls, n.name, n, parent=fn)
                self.p.funcs[f.qual] = f
        return [(None, None, st.set(n.name, self.closure(f, st)))]

    def st_ClassDef(self, n, st):
        return [(None, None, st.set(n.name, sym('!localclass:%s' % n.name)))]

    def st_With(self, n, st):
        return self.with_items(n, 0, st)

    def with_items(self, n, i, st):
        if i == len(n.items):
            return self.exec_block(n.body, [st])
        it = n.items[i]
        out = []
        for v, s in self.ev(it.context_expr, st):
            ty = self.typ(v, s)
            if v.op == 'ctx':
                out += self.with_ctx(n, i, v, s)
                continue
            key = '$w%d_%d_%d' % (n.lineno, n.col_offset, i)
            c = self.cls_of(v, s)
            fenter = self.p.lookup(c, '__enter__')[0] if c is not None else None
            if fenter is not None:
                s = s.set(key, v)
                ent = self.call_func(fenter, [v], {}, s, it.context_expr)
            else:
                if ty == 'lock' or ty == 'lock?' or self.lockish(v, s):
                    s = self.lock(v, s, it.context_expr)
                    if s is None:
                        continue
                else:
                    s = self.emit(s, 'ctxenter', it.context_expr, value=v)
                    if s is None:
                        continue
                s = s.set(key, v)
                ent = [(v, s)]
            for ev, s1 in ent:
                sts = [s1]
                if it.optional_vars is not None:
                    sts = self.bind(it.optional_vars, ev, s1, n)
                for s2 in sts:
                    saved = self.sink
                    self.sink = []
                    outs = self.with_items(n, i + 1, s2)
                    excs, self.sink = self.sink, saved
                    for kind, val, s3 in outs:
                        for s4 in self.ctx_exit(key, fenter, c, s3, it):
                            out.append((kind, val, s4))
                    for e, s3 in excs:
                        for s4 in self.ctx_exit(key, fenter, c, s3, it):
                            self.throw_quiet(e, s4)
        return self.dedupe_outs(out)

    def lockish(self, v, s):
        return any(l is v for l in s.locks)

    def ctx_exit(self, key, fenter, c, s, it):
        w = s.get(key)
        s = s.unset([key])
        if w is None:
            return [s]
        if fenter is not None:
            fexit = self.p.lookup(c, '__exit__')[0]
            if fexit is not None:
                return [s2 for _, s2 in self.call_func(fexit, [w, NONE, NONE, NONE], {}, s, it.context_expr)]
            return [s]
        if any(l is w for l in s.locks):
            s = self.unlock(w, s, it.context_expr)
            return [s] if s is not None else []
        s = self.emit(s, 'ctxexit', it.context_expr, value=w)
        return [s] if s is not None else []

    def with_ctx(self, n, i, v, st):
        """with over a project @contextmanager function: the body runs at the yield"""
        func = self.p.funcs[v.args[0]]
        env = {c.args[0]: c.args[1] for c in v.args[1]}
        it = n.items[i]
        results = []

        def hook(val, s):
            inner = s.frames[-1]
            s1 = s.set('$yv', val).pop()
            val = s.get('$yv') if s.get('$yv') is not None else val
            # keep the generator's frame alive below the caller's frame
            caller = s1.frames[-1]
            s2 = s1.copy()
            s2.frames = s1.frames[:-1] + (inner, caller)
            sts = [s2]
            if it.optional_vars is not None:
                sts = self.bind(it.optional_vars, val, s2, n)
            cont = []
            saved = self.sink
            self.sink = []
            outs = []
            for x in sts:
                outs += self.with_items(n, i + 1, x)
            excs, self.sink = self.sink, saved
            for kind, vv, x in outs:
                y = x.copy()
                y.frames = x.frames[:-2] + (x.frames[-1], x.frames[-2])
                y = y.set('$k', const(kind if kind else ''))
                cont.append(y)
            for e, x in excs:
                y = x.copy()
                y.frames = x.frames[:-2] + (x.frames[-1], x.frames[-2])
                self.throw_quiet(e, y)
            return cont
        self.yield_hook.append(hook)
        s = st.push(func, env)
        saved = self.sink
        self.sink = []
        try:
            outs = self.exec_block(func.node.body, [s])
        finally:
            self.yield_hook.pop()
            excs, self.sink = self.sink, saved
        for e, x in excs:
            self.throw_quiet(e, x.pop())
        res = []
        for kind, vv, x in outs:
            k = x.get('$k')
            k = cval(k) if k is not None else ''
            res.append((k or None, None, x.pop()))
        return res

    # ------------------------------------------------------------------- try
    def st_Try(self, n, st):
        outer = self.sink
        self.sink = []
        classes = []
        for h in n.handlers:
            classes += self.handler_classes(h, st)
        self.catch_stack.append(classes)
        try:
            outs = self.exec_block(n.body, [st])
        finally:
            self.catch_stack.pop()
        excs = self.dedupe_excs(self.sink)
        self.sink = []
        res = []
        norm = []
        for kind, v, s in outs:
            if kind is None and n.orelse:
                norm.append(s)
            else:
                res.append((kind, v, s))
        if n.finalbody:
            self.catch_stack.append([])
        if norm:
            res += self.exec_block(n.orelse, self.dedupe(norm))
        groups = {}
        for e, s in excs:
            self.handle(n, e, s, groups)
        for (i, e), ss in groups.items():
            h = n.handlers[i]
            sts = []
            for s in ss:
                s = s.copy()
                s.handled = s.handled + (e,)
                if h.name:
                    s = s.set(h.name, self.exc_term(e))
                s = self.emit(s, 'handler', h, exc=e)
                if s is not None:
                    sts.append(s)
            saved = self.sink
            self.sink = []
            outs = self.exec_block(h.body, self.dedupe(sts))
            got, self.sink = self.sink, saved
            for kind, v, s in outs:
                s = s.copy()
                s.handled = s.handled[:-1]
                if h.name:
                    s = s.unset([h.name])
                res.append((kind, v, s))
            for e2, s in got:
                s = s.copy()
                s.handled = s.handled[:-1]
                if h.name:
                    s = s.unset([h.name])
                self.sink.append((e2, s))
        if n.finalbody:
            self.catch_stack.pop()
        left = self.dedupe_excs(self.sink)
        self.sink = outer
        if not n.finalbody:
            self.sink.extend(left)
            return self.dedupe_outs(res)
        final = []
        byk = {}
        for kind, v, s in res:
            byk.setdefault(kind, []).append(s)
        for kind, ss in byk.items():
            for k2, v2, s2 in self.exec_block(n.finalbody, self.dedupe(ss)):
                final.append((kind if k2 is None else k2, None, s2))
        bye = {}
        for e, s in left:
            bye.setdefault(e, []).append(s)
        for e, ss in bye.items():
            sts = []
            for s in ss:
                s = s.copy()
                s.handled = s.handled + (e,)
                sts.append(s)
            for k2, v2, s2 in self.exec_block(n.finalbody, self.dedupe(sts)):
                e2 = s2.handled[-1]
                s2 = s2.copy()
                s2.handled = s2.handled[:-1]
                if k2 is None:
                    self.throw_quiet(e2, s2)
                else:
                    final.append((k2, None, s2))
        return self.dedupe_outs(final)

    st_TryStar = st_Try

    def dedupe_excs(self, xs):
        seen = set()
        r = []
        for e, s in xs:
            k = (e, s.key())
            if k not in seen:
                seen.add(k)
                r.append((e, s))
        if len(r) > self.cfg.max_states:
            by = {}
            for e, s in r:
                by.setdefault(e, []).append(s)
            r = [(e, s) for e, ss in by.items() for s in self.join(ss)]
        return r

    def handler_classes(self, h, st):
        if h.type is None:
            return [None]
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        fn = self.fn_of(st)
        for t in ts:
            v = self._fold(t, fn.mod, None)
            if v is not None and v.op == 'tuple':
                vs = v.args
            else:
                vs = [v]
            for x in vs:
                c = self.exc_class_of(x) if x is not None else None
                out.append(c if c is not None else 'Exception?')
        return out

    def handle(self, n, e, s, groups):
        for i, h in enumerate(n.handlers):
            cl = self.handler_classes(h, s)
            for c in cl:
                if c is None:
                    groups.setdefault((i, e), []).append(s)
                    return
                if c == 'Exception?':
                    groups.setdefault((i, e), []).append(s.degrade())
                    continue
                if self.exc_sub(e.cls, c):
                    groups.setdefault((i, e), []).append(s)
                    return
                if not e.exact and self.exc_sub(c, e.cls):
                    e2 = Exc(c, False, e.args, e.site)
                    groups.setdefault((i, e2), []).append(s)
        self.sink.append((e, s))

    # ------------------------------------------------------------------ loops
    def loop_names(self, n):
        k = ('loopnames', id(n))
        r = self._cfold.get(k)
        if r is None:
            r = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            self._cfold[k] = r
        return r

    def widen(self, st, entry, n, hard=False):
        names = self.loop_names(n)
        line = '%s:%d' % (self.fn_of(st).qual.split('.')[-1], n.lineno)
        s = st
        for nm in sorted(names):
            v = s.get(nm)
            if v is None:
                continue
            w = sym('w:%s@%s' % (nm, line), self.wtyp(v, s))
            if v is w:
                continue
            if not hard and not self.growing(v):
                continue
            if self.typ(v, s) in ('list', 'dict', 'set', 'bytearray') and v.op == 'ref':
                continue
            s = self.drop_facts(s, w)
            s = s.set(nm, w)
        heap = dict(s.heap)
        ch = False
        for oid, o in s.heap.items():
            e = entry.heap.get(oid)
            if e is not None and e.key() == o.key():
                continue
            if e is None and not hard:
                if o.items is not None and len(o.items) > 3 and o.kind in ('list', 'bytearray', 'set', 'dict'):
                    heap[oid] = Obj(o.kind, o.cls, {'$c': sym('w:$c@%s:%s' % (line, oid[0] if isinstance(oid[0], str) else '~'), o.kind)}, None, o.site)
                    ch = True
                continue
            if o.items is not None and (e is None or e.items != o.items):
                et = {self.typ(x, s) for x in o.items if isinstance(x, T) and x.op != '*'}
                k = o.kind + (':' + list(et)[0] if len(et) == 1 and None not in et else '')
                heap[oid] = Obj(o.kind, o.cls, {'$c': sym('w:$c@%s:%s' % (line, oid[0] if isinstance(oid[0], str) else '~'), k)}, None, o.site)
                ch = True
                continue
            at = dict(o.attrs)
            for k, v in o.attrs.items():
                if e is not None and e.attrs.get(k) is v:
                    continue
                if v.op == 'ref':
                    continue
                if not hard and not self.growing(v):
                    continue
                w = sym('w:.%s@%s' % (k, line), self.wtyp(v, s))
                at[k] = w
            if at != o.attrs:
                heap[oid] = Obj(o.kind, o.cls, at, o.items, o.site)
                ch = True
        if ch:
            s = s.copy()
            s.heap = heap
        return self.gc(s)

    def wtyp(self, v, s):
        if v.op == 'sym':
            return v.args[1]
        if v.op == 'ref':
            return None
        t = self.typ(v, s)
        return t if t != 'none' else None

    def growing(self, v):
        return v.op in ('bin', 'str', 'bits', 'neg', 'slice') or v.op == 'const' and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool) or v.d > 8

    def drop_facts(self, st, w):
        if not any(w in set(walk(k)) for k in st.facts):
            return st
        s = st.copy()
        s.facts = {k: v for k, v in st.facts.items() if w not in set(walk(k))}
        return s

    def st_While(self, n, st):
        def step(s):
            ts, fs = self.cond(n.test, s)
            return ts, fs
        return self.fix(n, st, step)

    def iterated(self, e, st):
        """what a loop takes its items from"""
        out = []
        for itv, s in self.ev(e, st):
            c = self.cls_of(itv, s)
            f = self.p.lookup(c, '__iter__')[0] if c is not None else None
            if f is not None and f.qual in self.cfg.opaque:
                out += self.call_func(f, [itv], {}, s, e)
            else:
                out.append((itv, s))
        return out

    def st_For(self, n, st):
        out = []
        for itv, s in self.iterated(n.iter, st):
            s = self.deref(itv, s, n.iter, 'iteration')
            if s is None:
                continue
            s = self.emit(s, 'iter', n, value=itv)
            if s is None:
                continue
            c = self.cls_of(itv, s)
            xs = self.known_items(itv, s)
            if xs is None and itv.op == 'ref' and itv.args in s.heap and s.heap[itv.args].kind == 'list' and s.heap[itv.args].items is not None and len(s.heap[itv.args].items) <= 8:
                # known prefix with unknown runs: iterate run by run
                xs = None
            if xs is not None and len(xs) <= max(24, self.cfg.known):
                out += self.unroll(n, xs, s)
                continue
            key = '$it%d_%d' % (n.lineno, n.col_offset)
            s = s.set(key, itv)

            first = [self.nonempty(itv, s)]

            def step(q, key=key, first=first):
                t = q.get(key)
                more = first.pop() if first else False
                ts = []
                for v, q2 in self.fresh_elem(t, q, n):
                    ts += self.bind(n.target, v, q2, n)
                return ts, ([] if more else [q])
            out += [(k, v, q.unset([key])) for k, v, q in self.fix(n, s, step)]
        return self.dedupe_outs(out)

    st_AsyncFor = st_For

    def nonempty(self, itv, s):
        """the iterated collection is known to have an element"""
        if itv.op == 'call' and itv.args[0] in ('enumerate', 'list', 'reversed', 'iter', 'tuple') and len(itv.args) > 1:
            itv = itv.args[1]
        return s.facts.get(T('lt', (T('len', (itv,)), const(1)))) is False or s.facts.get(T('truthy', (itv,))) is True

    def unroll(self, n, xs, st):
        outs = []
        brk = []
        keys = ['$x%d_%d_%d' % (n.lineno, n.col_offset, i) for i in range(len(xs))]
        for k, x in zip(keys, xs):
            st = st.set(k, x)
        cur = [st]
        for k in keys:
            nxt = []
            for s in cur:
                v = s.get(k)
                for s2 in self.bind(n.target, v, s.unset([k]), n):
                    for kind, vv, s3 in self.exec_block(n.body, [s2]):
                        if kind in (None, 'continue'):
                            nxt.append(s3)
                        elif kind == 'break':
                            brk.append(s3.unset(keys))
                        else:
                            outs.append((kind, vv, s3))
            cur = self.dedupe([self.prune(s, n, True) for s in nxt])
        if n.orelse:
            outs += self.exec_block(n.orelse, cur)
        else:
            outs += [(None, None, s) for s in cur]
        return outs + [(None, None, s) for s in self.dedupe(brk)]

    def fix(self, n, st, step):
        """fixpoint over a loop head"""
        self.stats['loops'] += 1
        outs = []
        brk = []
        done = []
        entry = self.prune(st, n, True)
        work = [(entry, 0)]
        visited = set()
        total = 0
        while work:
            s, it = work.pop(0)
            k = s.key()
            if k in visited:
                continue
            visited.add(k)
            total += 1
            if total > self.cfg.loop_limit:
                if not (isinstance(n, ast.While) and isinstance(n.test, ast.Constant) and n.test.value):
                    done.append(s.degrade())
                break
            ts, fs = step(s)
            done += fs
            nxt = []
            for s2 in ts:
                s2 = self.emit(s2, 'iteration', n)
                if s2 is None:
                    continue
                for kind, v, s3 in self.exec_block(n.body, [s2]):
                    if kind in (None, 'continue'):
                        nxt.append(s3)
                    elif kind == 'break':
                        brk.append(s3)
                    else:
                        outs.append((kind, v, s3))
            nxt = [self.prune(x, n, True) for x in nxt]
            it += 1
            if it >= self.cfg.loop_unroll:
                nxt = [self.prune(self.widen(x, entry, n, hard=it >= self.cfg.loop_unroll + 6), n, True) for x in nxt]
            nxt = self.dedupe(nxt)
            if total > self.cfg.loop_limit // 2 and len(nxt) > 1:
                nxt = self.join([self.widen(x, entry, n, hard=True) for x in nxt])
            work += [(x, it) for x in nxt]
        done = self.dedupe(done)
        if n.orelse:
            if done:
                outs += self.exec_block(n.orelse, done)
        else:
            outs += [(None, None, s) for s in done]
        return self.dedupe_outs(outs + [(None, None, s) for s in self.dedupe(brk)])

    # ---------------------------------------------------------------- running
    def run(self, func, env, st=None):
        """analyse a function -> [('return', value, st) | ('raise', Exc, st)]"""
        st = st if st is not None else State()
        top = Func(func.mod, None, '<entry>', ast.parse('def entry(): pass').body[0])
        st = st.push(top, {})
        self.sink = []
        res = self.run_func(func, env, (), st, func.node)
        out = [('return', v, s) for v, s in res] + [('raise', e, s) for e, s in self.dedupe_excs(self.sink)]
        self.sink = []
        return out


def _load(t):
    import copy
    c = copy.copy(t)
    c.ctx = ast.Load()
    return c
