"""Calls: inlining of project code, models of the library functions the project uses."""

import ast
import re

from .terms import (T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, walk, subst, show)
from .project import Func, Class, own_nodes, dotted
from . import engine as E
from .engine import Exc, Obj, Frame, State, Event, STR_METHODS_STR, STR_METHODS_BOOL, STR_METHODS_LIST, STR_METHODS_INT
from .interp import Interp, PURE_EXT, PURE_METHODS, MUTATORS, regex_groups

LOG_NAMES = {'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}
SHORT = {'builtins.' + x: x for x in ('int', 'len', 'ord', 'chr', 'str', 'repr', 'hex', 'max', 'min', 'abs', 'round', 'float', 'bool', 'range', 'bytes', 'sum', 'enumerate', 'zip',
                                       'reversed', 'sorted', 'any', 'all', 'divmod', 'map', 'filter', 'list', 'tuple', 'set', 'frozenset', 'iter', 'format', 'hash', 'bin', 'pow', 'id')}


def const_match(m):
    """the match of a constant pattern on a constant string (False: not both constant)"""
    if m.op == 'm' and len(m.args) == 3 and m.args[0] in ('match', 'search', 'fullmatch') and m.args[1].op == 'regex' and m.args[2].op == 'const':
        from .lines import flagbits
        try:
            return getattr(re.compile(m.args[1].args[0], flagbits(m.args[1].args[1])), m.args[0])(cval(m.args[2]))
        except Exception:
            return False
    if m.op == 'm' and m.args[0] == 'nth':
        ms = const_matches(m.args[1], m.args[2])
        return ms[cval(m.args[3])] if ms is not None and cval(m.args[3]) < len(ms) else False
    return False


def const_matches(rx, subject):
    """all matches of a constant pattern in a constant string (None: not both constant)"""
    if rx.op != 'regex' or subject.op != 'const':
        return None
    from .lines import flagbits
    try:
        return list(re.compile(rx.args[0], flagbits(rx.args[1] if len(rx.args) > 1 else '')).finditer(cval(subject)))
    except Exception:
        return None


class Calls(Interp):

    def eqt(self, a, b, st=None):
        if a.op == 'typeof' or b.op == 'typeof':
            if b.op == 'typeof' and a.op != 'typeof':
                a, b = b, a
            if b.op in ('cls', 'ext'):
                return T('istype', (a.args[0], b))
        return Interp.eqt(self, a, b, st)

    def truth(self, t, st):
        if t.op == 'istype':
            return t
        return Interp.truth(self, t, st)

    def decide(self, b, st):
        if b.op == 'istype':
            if b in st.facts:
                return st.facts[b]
            x, c = b.args
            k = self.cls_of(x, st)
            exact = x.op == 'ref'
            if k is not None and c.op == 'cls':
                want = self.p_class(c)
                if exact:
                    return k is want
                if want is not k and k not in self.p.mro(want):
                    return False
                r = st.facts.get(T('isinst', (x, c)))
                if r is False:
                    return False
                return None
            if c.op == 'ext':
                ty = self.typ(x, st)
                n = c.args[0].replace('builtins.', '')
                ty = {'octet': 'int', 'none': 'NoneType'}.get(ty, ty)
                if ty and not ty.endswith('?'):
                    if n == ty or (n == 'datetime.timedelta' and ty == 'timedelta') or (n == 'datetime.datetime' and ty == 'datetime'):
                        return True
                    if ty in ('str', 'bytes', 'bytearray', 'int', 'list', 'dict', 'tuple', 'bool', 'float', 'iter', 'timedelta', 'datetime', 'obj', 'instance'):
                        return False
                for f, v in st.facts.items():
                    if v and f.op == 'istype' and f.args[0] is x and f.args[1] is not c:
                        return False
            return None
        if b.op == 'isinst':
            if b in st.facts:
                return st.facts[b]
            x, c = b.args
            k = self.cls_of(x, st)
            if k is not None and c.op == 'cls':
                want = self.p_class(c)
                if want in self.p.mro(k):
                    return True
                if x.op == 'ref' or k not in self.p.mro(want):
                    return False
                for f, v in st.facts.items():
                    if v and f.op == 'istype' and f.args[0] is x and f.args[1].op == 'cls':
                        return want in self.p.mro(self.p_class(f.args[1]))
                return None
        return Interp.decide(self, b, st)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, n, st):
        self.stats['calls'] += 1
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and self.lookup_name('super', st) is None:
            return self.super_value(n, st)
        nodes = []
        plan = []
        method = isinstance(f, ast.Attribute)
        nodes.append(f.value if method else f)
        for a in n.args:
            if isinstance(a, ast.Starred):
                plan.append('*')
                nodes.append(a.value)
            else:
                plan.append('')
                nodes.append(a)
        kwplan = []
        for k in n.keywords:
            kwplan.append(k.arg)
            nodes.append(k.value)
        out = []
        for vs, s in self.ev_list(nodes, st):
            args = []
            star_unknown = False
            for p, v in zip(plan, vs[1:1 + len(plan)]):
                if p == '*':
                    xs = self.known_items(v, s)
                    if xs is None:
                        star_unknown = True
                    else:
                        args += xs
                else:
                    args.append(v)
            kwargs = {}
            for k, v in zip(kwplan, vs[1 + len(plan):]):
                if k is None:
                    o = s.heap.get(v.args) if v.op == 'ref' else None
                    if o is not None and o.kind == 'dict' and o.items is not None and all(a.op == 'const' for a, b in o.items):
                        for a, b in o.items:
                            kwargs[cval(a)] = b
                    elif v.op == 'cdict':
                        for a, b in v.args:
                            kwargs[cval(a)] = b
                    else:
                        star_unknown = True
                else:
                    kwargs[k] = v
            if star_unknown:
                s = s.degrade()
            if method:
                out += self.call_method(vs[0], f.attr, args, kwargs, s, n, star_unknown)
            else:
                out += self.call_value(vs[0], args, kwargs, s, n, star_unknown)
        return out

    def super_value(self, n, st):
        fn = self.fn_of(st)
        f = fn
        while f.parent is not None:
            f = f.parent
        if n.args:
            out = []
            for vs, s in self.ev_list(n.args, st):
                if vs[0].op == 'cls' and len(vs) > 1:
                    out.append((T('super', ('s', vs[1], vs[0].args[0])), s))
                else:
                    out.append((sym('!super'), s.degrade()))
            return out
        if f.cls is None or not f.params:
            return [(sym('!super'), st.degrade())]
        me = self.lookup_name(f.params[0], st)
        return [(T('super', ('s', me, f.cls.qual)), st)]

    def call_method(self, recv, name, args, kwargs, st, node, star=False):
        if recv.op == 'proxy':
            recv = recv.args[0]
        if recv.op in ('mod', 'ext', 'cls', 'super'):
            out = []
            for v, s in self.getattr(recv, name, st, node):
                out += self.call_value(v, args, kwargs, s, node, star)
            return out
        st = self.deref(recv, st, node, 'method %s' % name)
        if st is None:
            return []
        c = self.cls_of(recv, st)
        key = recv.args if recv.op == 'ref' else ('~', recv)
        o = st.heap.get(key)
        if c is not None or (o is not None and name in o.attrs):
            out = []
            for v, s in self.getattr(recv, name, st, node):
                if v.op == 'attr' and v.args == (recv, name):
                    out += self.method_model(recv, name, args, kwargs, s, node)
                else:
                    out += self.call_value(v, args, kwargs, s, node, star)
            return out
        return self.method_model(recv, name, args, kwargs, st, node)

    def call_value(self, f, args, kwargs, st, node, star=False):
        op = f.op
        if op == 'fn':
            return self.call_func(self.p.funcs[f.args[0]], args, kwargs, st, node, star=star)
        if op == 'rawfn':
            return self.call_func(self.p.funcs[f.args[0]], args, kwargs, st, node, raw=True, star=star)
        if op == 'bm':
            return self.call_func(self.p.funcs[f.args[0]], [f.args[1]] + list(args), kwargs, st, node, star=star)
        if op == 'clo':
            return self.call_func(self.p.funcs[f.args[0]], args, kwargs, st, node, caps=f.args[1], star=star)
        if op == 'cls':
            return self.instantiate(self.p_class(f), args, kwargs, st, node)
        if op == 'ext':
            return self.ext_call(f.args[0], args, kwargs, st, node)
        if op == 'partial':
            kw = dict((k.args[0], k.args[1]) for k in f.args[2])
            kw.update(kwargs)
            return self.call_value(f.args[0], list(f.args[1]) + list(args), kw, st, node, star)
        if op == 'superm':
            return self.super_ext(f, args, kwargs, st, node)
        if op == 'attr':
            return self.method_model(f.args[0], f.args[1], args, kwargs, st, node)
        if op == 'method':
            return self.method_model(f.args[0], f.args[1], args, kwargs, st, node)
        c = self.cls_of(f, st)
        if c is not None:
            g, _ = self.p.lookup(c, '__call__')
            if g is not None:
                return self.call_func(g, [f] + list(args), kwargs, st, node, star=star)
        st = self.deref(f, st, node, 'call')
        if st is None:
            return []
        st = self.emit(st, 'callback', node, callee=f, args=args, kwargs=kwargs)
        if st is None:
            return []
        st = self.escape(args, st)
        v, st = self.fresh(st, self.site(st, node, 'cb'))
        return [(v, st)]

    def escape(self, args, st):
        return st

    def super_ext(self, f, args, kwargs, st, node):
        name, recv, after = f.args
        if name == '__new__':
            a0 = args[0] if args else None
            if a0 is not None and a0.op == 'cls':
                c = self.p_class(a0)
                if self.p.is_exc(c):
                    return [(T('exc', (c.qual, True, tuple(args[1:]), node.lineno)), st)]
                st = self.emit(st, 'new', node, cls=c)
                if st is None:
                    return []
                v, st = self.alloc(st, node, Obj('instance', c, {}), 'obj:' + c.name)
                return [(v, st)]
        st = self.emit(st, 'call', node, name=name, target=None, ext='super.' + name, recv=recv, args=args, kwargs=kwargs)
        if st is None:
            return []
        v, st = self.fresh(st, self.site(st, node, 'sup'))
        return [(NONE if name == '__init__' else v, st)]

    # ----------------------------------------------------- project functions
    def bind_args(self, func, args, kwargs, st, node, star=False):
        """-> (env or None, problem)"""
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        problem = None
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                problem = 'too many positional arguments'
            extra = args[len(names):]
            args = args[:len(names)]
        else:
            extra = []
        for nme, v in zip(names, args):
            env[nme] = v
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in env:
                problem = 'multiple values for %s' % k
            elif k in names or k in kwo:
                env[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                problem = 'unexpected keyword %s' % k
        nd = len(a.defaults)
        for i, nme in enumerate(names):
            if nme not in env:
                j = i - (len(names) - nd)
                if j >= 0:
                    env[nme] = self.default_value(func, a.defaults[j])
                elif star:
                    env[nme] = sym('star:' + nme)
                else:
                    problem = problem or 'missing argument %s' % nme
                    env[nme] = sym('missing:' + nme)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                if d is not None:
                    env[x.arg] = self.default_value(func, d)
                else:
                    problem = problem or 'missing argument %s' % x.arg
                    env[x.arg] = sym('missing:' + x.arg)
        if a.vararg is not None:
            env[a.vararg.arg] = tup(extra) if not star else sym('varargs', 'tuple')
        if a.kwarg is not None:
            env['**'] = rest
        return env, problem

    def default_value(self, func, d):
        v = self.fold(d, func.mod, func.cls)
        if v is None:
            return sym('!default:%s:%d' % (func.qual, d.lineno))
        return v

    def call_func(self, func, args, kwargs, st, node, caps=(), raw=False, star=False):
        env, problem = self.bind_args(func, args, kwargs, st, node, star)
        if problem and not star:
            st = self.emit(st, 'arity', node, target=func, problem=problem)
            if st is None:
                return []
        decs = [d for d in getattr(func.node, 'decorator_list', []) if not raw]
        special = ('property', 'staticmethod', 'classmethod')
        decs = [d for d in decs if not (dotted(d) in special or (dotted(d) or '').split('.')[-1] in ('setter', 'getter', 'deleter', 'contextmanager', 'wraps', 'lru_cache', 'abstractmethod'))]
        if decs:
            v = T('rawfn', (func.qual,))
            outs = [(v, st)]
            ok = True
            for d in reversed(decs):
                nxt = []
                dv = self.dec_value(d, func)
                if dv is None:
                    ok = False
                    break
                for w, s in outs:
                    nxt += self.call_value(dv, [w], {}, s, node)
                outs = nxt
            if ok:
                out = []
                for w, s in outs:
                    out += self.call_value(w, args, kwargs, s, node, star)
                return out
            st = st.degrade()
        recv = args[0] if func.cls is not None and not func.is_static and args else None
        st = self.emit(st, 'call', node, name=func.name, target=func, ext=None, recv=recv, args=list(args), kwargs=kwargs, env=env)
        if st is None:
            return []
        model = self.cfg.opaque.get(func.qual)
        if model is not None:
            return model(self, func, env, st, node)
        depth = sum(1 for fr in st.frames if fr.func is func)
        if depth > self.cfg.recursion or len(st.frames) > E.MAX_DEPTH or not self.cfg.inline(func):
            st = self.emit(st, 'recurse' if depth else 'opaque', node, target=func, args=list(args), env=env)
            if st is None:
                return []
            v, st = self.fresh(st, self.site(st, node, 'rec:' + func.name))
            return [(v, st)]
        if func.is_gen and not func.is_ctx:
            v, st = self.fresh(st.degrade(), self.site(st, node, 'gen'), 'list')
            return [(v, st)]
        if func.is_ctx and func.is_gen:
            return [(T('ctx', (func.qual, tuple(T('cap', (k, v)) for k, v in env.items() if isinstance(v, T)))), st)]
        return self.run_func(func, env, caps, st, node)

    def dec_value(self, d, func):
        r = self.resolve_path(func.mod, dotted(d)) if dotted(d) else None
        if isinstance(r, Func):
            return T('fn', (r.qual,))
        if dotted(d) and func.cls is not None and '.' not in dotted(d) and dotted(d) in func.cls.methods:
            return T('fn', (func.cls.methods[dotted(d)].qual,))
        return None

    def run_func(self, func, env, caps, st, node):
        self.stats['functions'].add(func.qual)
        env = dict(env)
        kw = env.pop('**', None)
        if func.node.args.kwarg is not None and isinstance(kw, dict):
            ref, st = self.alloc(st, node, Obj('dict', None, {}, tuple((const(k), v) for k, v in kw.items())), 'kw')
            env[func.node.args.kwarg.arg] = ref
        for c in caps:
            env['^' + c.args[0]] = c.args[1]
        s = st.push(func, env)
        s = self.emit(s, 'enter', node, target=func)
        if s is None:
            return []
        saved = self.sink
        self.sink = []
        try:
            if isinstance(func.node, ast.Lambda):
                outs = [('return', None, s2.set('$ret', v)) for v, s2 in self.ev(func.node.body, s)]
            else:
                outs = self.exec_block(func.node.body, [s])
        finally:
            excs, self.sink = self.sink, saved
        seen = set()
        for e, x in excs:
            x = x.pop()
            x = self.gc(x)
            k = (e, x.key())
            if k not in seen:
                seen.add(k)
                x = self.emit(x, 'leave', node, target=func, exc=e)
                if x is not None:
                    self.sink.append((e, x))
        res = []
        seen = set()
        for kind, v, s2 in outs:
            rv = s2.get('$ret') if kind == 'return' else NONE
            if rv is None:
                rv = NONE
            s3 = s2.pop()
            s3 = self.emit(s3, 'leave', node, target=func, exc=None, value=rv)
            if s3 is None:
                continue
            f = s3.frames[-1] if s3.frames else None
            s3 = self.gc(s3.set('$rv', rv)).unset(['$rv']) if f is not None else s3
            k = (rv, s3.key())
            if k not in seen:
                seen.add(k)
                res.append((rv, s3))
        if len(res) > self.cfg.max_states:
            res = self.limit_results(res)
        return res

    def limit_results(self, res):
        by = {}
        for v, s in res:
            by.setdefault(v, []).append(s)
        out = []
        for v, ss in by.items():
            if len(ss) > 40:
                ss = [x.set('$rv', v) for x in ss]
                ss = self.join(ss)
                out += [(x.get('$rv'), x.unset(['$rv'])) for x in ss]
            else:
                out += [(v, x) for x in ss]
        return out

    def instantiate(self, cls, args, kwargs, st, node):
        st = self.emit(st, 'call', node, name=cls.name, target=cls, ext=None, recv=None, args=list(args), kwargs=kwargs)
        if st is None:
            return []
        ct = T('cls', (cls.qual,))
        model = self.cfg.opaque.get(cls.qual)
        if model is not None:
            return model(self, cls, {'args': list(args), 'kwargs': kwargs}, st, node)
        new, owner = self.p.lookup(cls, '__new__')
        init, iowner = self.p.lookup(cls, '__init__')
        if self.p.is_exc(cls):
            if init is not None:
                env, problem = self.bind_args(init, [NONE] + list(args), kwargs, st, node)
                if problem:
                    st = self.emit(st, 'arity', node, target=init, problem=problem)
                    if st is None:
                        return []
                pos = [env[p] for p in init.params[1:] if p in env]
            else:
                pos = list(args)
            if new is not None and sum(1 for fr in st.frames if fr.func is new) < 3:
                out = []
                for v, s in self.run_func(new, self.bind_args(new, [ct] + list(args), kwargs, st, node)[0], (), st, node):
                    if v.op == 'exc' and v.args[0] == cls.qual:
                        v = T('exc', (cls.qual, True, tuple(pos), getattr(node, 'lineno', None)))
                    out.append((v, s))
                return out
            return [(T('exc', (cls.qual, True, tuple(pos), getattr(node, 'lineno', None))), st)]
        objs = []
        if new is not None:
            objs = self.run_func(new, self.bind_args(new, [ct] + list(args), kwargs, st, node)[0], (), st, node)
        else:
            v, s = self.alloc(st, node, Obj('instance', cls, {}), 'obj:' + cls.name)
            objs = [(v, s)]
        out = []
        for v, s in objs:
            k = self.cls_of(v, s)
            if k is None or cls not in self.p.mro(k):
                out.append((v, s))
                continue
            ini, _ = self.p.lookup(k, '__init__')
            if ini is None:
                out.append((v, s))
                continue
            s = s.set('$new%d' % len(s.frames), v)
            for _, s2 in self.call_func(ini, [v] + list(args), kwargs, s, node):
                w = s2.get('$new%d' % len(s2.frames))
                out.append((w, s2.unset(['$new%d' % len(s2.frames)])))
        return out

    # ------------------------------------------------------- library models
    def ext_call(self, name, args, kwargs, st, node):
        m = self.cfg.ext.get(name)
        st = self.emit(st, 'call', node, name=name, target=None, ext=name, recv=None, args=args, kwargs=kwargs)
        if st is None:
            return []
        if m is not None:
            return m(self, args, kwargs, st, node)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith('builtins.') and name.count('.') == 2:
            # unbound method of a builtin type: str.join(sep, x), dict.values(d)
            if args:
                return self.method_model(args[0], name.split('.')[2], args[1:], kwargs, st, node, quiet=True)
        if name in PURE_EXT and not kwargs:
            return [(T('call', (SHORT.get(name, name),) + tuple(self.content(a, st) if a.op == 'ref' else a for a in args)), st)]
        if name in PURE_EXT:
            return [(T('call', (SHORT.get(name, name),) + tuple(args) + tuple(T('kw', (k, v)) for k, v in sorted(kwargs.items()))), st)]
        b = name.replace('builtins.', '')
        import builtins
        o = getattr(builtins, b, None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return [(T('exc', (b, True, tuple(args), getattr(node, 'lineno', None))), st)]
        if name in E.EXT_EXC_BASES:
            return [(T('exc', (name, True, tuple(args), getattr(node, 'lineno', None))), st)]
        st = self.havoc_args(args, st)
        v, st = self.fresh(st, self.site(st, node, name))
        return [(v, st)]

    def havoc_args(self, args, st):
        for a in args:
            if a.op == 'ref' and a.args in st.heap and st.heap[a.args].kind in ('list', 'dict', 'set', 'bytearray'):
                st = self.havoc(a, st)
        return st

    def havoc(self, ref, st, tag='hv'):
        o = st.heap[ref.args]
        et = None
        c = o.attrs.get('$c')
        if c is not None:
            et = self.elem_typ(c, st)
        elif o.items:
            ts = {self.typ(x, st) for x in o.items if isinstance(x, T) and x.op != '*'}
            et = ts.pop() if len(ts) == 1 and None not in ts else None
        nm = '%s:%s' % (tag, ref.args[0])
        v, st = self.fresh(st, nm, o.kind + (':' + et if et else ''))
        o = st.heap.get(ref.args, o)
        a = dict(o.attrs)
        a['$c'] = v
        return st.with_heap(ref.args, Obj(o.kind, o.cls, a, None, o.site))

    def x_builtins_len(self, args, kwargs, st, node):
        t = args[0]
        st = self.deref(t, st, node, 'len()')
        if st is None:
            return []
        c = self.cls_of(t, st)
        if c is not None:
            f, _ = self.p.lookup(c, '__len__')
            if f is not None:
                return self.call_func(f, [t], {}, st, node)
        return [(self.length(t, st), st)]

    def length(self, t, st):
        if t.op in ('tuple', 'clist', 'cdict'):
            return const(len(t.args))
        if t.op == 'const' and isinstance(cval(t), (str, bytes, tuple)):
            return const(len(cval(t)))
        if t.op == 'ref' and t.args in st.heap:
            o = st.heap[t.args]
            if o.items is not None and o.kind in ('list', 'dict', 'set', 'bytearray'):
                stars = [x for x in o.items if isinstance(x, T) and x.op == '*']
                if not stars:
                    return const(len(o.items))
                n = len(o.items) - len(stars)
                acc = None
                for x in stars:
                    l = T('len', (self.content(x.args[0], st),))
                    acc = l if acc is None else self.binop('+', acc, l, st)
                return self.binop('+', acc, const(n), st) if n else acc
            c = o.attrs.get('$c')
            if c is not None:
                return T('len', (c,))
        if t.op == 'slice':
            b, lo, hi, sp = t.args
            if is_k(hi, None) and is_k(sp, None) and lo.op == 'const' and cval(lo) in (None, 0):
                return T('len', (b,))
        return T('len', (t,))

    def x_builtins_isinstance(self, args, kwargs, st, node):
        x, c = args
        x = self.unproxy(x)
        cs = list(c.args) if c.op == 'tuple' else [c]
        return [(self.anyof([T('isinst', (x, k)) if x is not NONE else FALSE for k in cs]), st)]

    def x_builtins_type(self, args, kwargs, st, node):
        if len(args) == 1:
            return [(T('typeof', (args[0],)), st)]

    def x_builtins_int(self, args, kwargs, st, node):
        if not args:
            return [(const(0), st)]
        x = args[0]
        st = self.deref(x, st, node, 'int()')
        if st is None:
            return []
        if x.op == 'const':
            try:
                return [(const(int(cval(x), *[cval(a) for a in args[1:]])), st)]
            except ValueError:
                self.may('ValueError', st, node, conv='int', value=x)
                return []
            except Exception:
                self.may('TypeError', st, node, conv='int', value=x)
                return []
        ty = self.typ(x, st)
        if ty in ('int', 'octet') and len(args) == 1:
            return [(x, st)]
        if ty not in ('int', 'octet', 'float', 'bool'):
            self.may('ValueError', st, node, conv='int', value=x)
        if x.op == 'bin' and x.args[0] == '/' and len(args) == 1:
            a, b = x.args[1], x.args[2]
            if b.op == 'const' and self.typ(a, st) in ('int', 'octet') and isinstance(cval(b), int):
                la = self.interval(a, st)[0]
                if la is not None and la >= 0:
                    return [(self.binop('//', a, b, st), st)]
        return [(T('call', ('int', x) + tuple(args[1:])), st)]

    def x_builtins_str(self, args, kwargs, st, node):
        if not args:
            return [(const(''), st)]
        x = args[0]
        if len(args) > 1:
            return [(T('call', ('str',) + tuple(args)), st)]
        c = self.cls_of(x, st)
        if c is not None and x.op != 'exc':
            f, _ = self.p.lookup(c, '__str__')
            if f is not None and self.cfg.inline(f) and f.qual not in self.cfg.opaque:
                return self.call_func(f, [x], {}, st, node)
        if x.op == 'const':
            return [(const(str(cval(x))), st)]
        if self.typ(x, st) == 'str':
            return [(x, st)]
        return [(T('tostr', (x,)), st)]

    def x_builtins_repr(self, args, kwargs, st, node):
        if args[0].op == 'const':
            return [(const(repr(cval(args[0]))), st)]

    def x_builtins_bool(self, args, kwargs, st, node):
        if not args:
            return [(FALSE, st)]
        b = self.truth(args[0], st)
        return [(TRUE, s) for s in self.assume(b, True, st)] + [(FALSE, s) for s in self.assume(b, False, st)]

    def x_builtins_chr(self, args, kwargs, st, node):
        if args[0].op == 'const':
            try:
                return [(const(chr(cval(args[0]))), st)]
            except Exception:
                return []

    def x_builtins_ord(self, args, kwargs, st, node):
        if args[0].op == 'const':
            try:
                return [(const(ord(cval(args[0]))), st)]
            except Exception:
                return []
        if args[0].op == 'call' and args[0].args[0] == 'chr':
            return [(args[0].args[1], st)]

    def _fold_num(self, name, args, st):
        if all(a.op == 'const' for a in args) and args:
            import builtins
            try:
                return const(getattr(builtins, name)(*[cval(a) for a in args]))
            except Exception:
                return None
        return None

    def _minmax(self, name, args, kwargs, st, node):
        r = self._fold_num(name, args, st)
        if r is not None:
            return [(r, st)]
        if len(args) == 1 and not kwargs:
            xs = self.known_items(args[0], st)
            r = self._fold_num(name, [const(tuple(cval(x) for x in xs))], st) if xs and all(x.op == 'const' for x in xs) else None
            if r is not None:
                return [(r, st)]
        if len(args) == 2 and not kwargs:
            for a, b in ((args[0], args[1]), (args[1], args[0])):
                d = self.decide(self.ltt(a, b, st), st)
                if d is True:
                    return [((b if name == 'max' else a), st)]
                if d is False:
                    return [((a if name == 'max' else b), st)]
            return [(T('call', (name,) + tuple(sorted(args, key=repr))), st)]
        return None

    def x_builtins_max(self, args, kwargs, st, node):
        return self._minmax('max', args, kwargs, st, node)

    def x_builtins_min(self, args, kwargs, st, node):
        return self._minmax('min', args, kwargs, st, node)

    def x_builtins_abs(self, args, kwargs, st, node):
        r = self._fold_num('abs', args, st)
        return [(r, st)] if r is not None else None

    def x_math_ceil(self, args, kwargs, st, node):
        return None

    def x_builtins_divmod(self, args, kwargs, st, node):
        if len(args) == 2:
            return [(tup([self.binop('//', args[0], args[1], st), self.binop('%', args[0], args[1], st)]), st)]

    def x_builtins_any(self, args, kwargs, st, node):
        xs = self.known_items(args[0], st)
        if xs is not None:
            return [(self.anyof([self.truth(x, st) for x in xs]), st)]
        v, st = self.fresh(st, self.site(st, node, 'any'), 'bool')
        return [(v, st)]

    def x_builtins_all(self, args, kwargs, st, node):
        xs = self.known_items(args[0], st)
        if xs is not None:
            return [(self.neg(self.anyof([self.neg(self.truth(x, st)) for x in xs])), st)]
        v, st = self.fresh(st, self.site(st, node, 'all'), 'bool')
        return [(v, st)]

    def x_builtins_list(self, args, kwargs, st, node):
        if not args:
            return [self.alloc(st, node, Obj('list', None, {}, ()))]
        st = self.deref(args[0], st, node, 'list()')
        if st is None:
            return []
        return [self.mklist('list', args[0], st, node)]

    def mklist(self, kind, src, st, node):
        xs = self.known_items(src, st)
        if xs is not None:
            return self.alloc(st, node, Obj(kind, None, {}, tuple(xs)))
        if src.op == 'ref' and src.args in st.heap and st.heap[src.args].items is not None and st.heap[src.args].kind in ('list', 'bytearray', 'set'):
            return self.alloc(st, node, Obj(kind, None, {}, st.heap[src.args].items))
        if src.op == 'ref' and src.args in st.heap and st.heap[src.args].kind == 'iter':
            c = T('rest', (src,))
        else:
            c = self.content(src, st)
        return self.alloc(st, node, Obj(kind, None, {'$c': c}, None))

    def x_builtins_set(self, args, kwargs, st, node):
        if not args:
            return [self.alloc(st, node, Obj('set', None, {}, ()))]
        return [self.mklist('set', args[0], st, node)]

    def x_builtins_dict(self, args, kwargs, st, node):
        if not args:
            return [self.alloc(st, node, Obj('dict', None, {}, tuple((const(k), v) for k, v in kwargs.items())))]
        c = self.content(args[0], st)
        return [self.alloc(st, node, Obj('dict', None, {'$c': c}, None))]

    def x_builtins_tuple(self, args, kwargs, st, node):
        if not args:
            return [(tup([]), st)]
        xs = self.known_items(args[0], st)
        if xs is not None:
            return [(tup(xs), st)]
        return [(T('call', ('tuple', self.content(args[0], st))), st)]

    def x_builtins_bytearray(self, args, kwargs, st, node):
        if not args:
            return [self.alloc(st, node, Obj('bytearray', None, {}, ()))]
        a = args[0]
        ty = self.typ(a, st)
        if a.op == 'ref' or a.op in ('tuple', 'clist') or a.op == 'const' and isinstance(cval(a), bytes):
            return [self.alloc(st, node, Obj('bytearray', None, {}, tuple(self.seq_items(a, st))))]
        return [self.alloc(st, node, Obj('bytearray', None, {}, (T('*', (a,)),)))]

    def x_builtins_bytes(self, args, kwargs, st, node):
        if not args:
            return [(const(b''), st)]
        if len(args) > 1:
            return [(T('call', ('bytes',) + tuple(args)), st)]
        xs = self.seq_items(args[0], st)
        if all(x.op == 'const' for x in xs):
            try:
                return [(const(bytes(cval(x) for x in xs)), st)]
            except Exception:
                pass
        return None

    def x_collections_deque(self, args, kwargs, st, node):
        return self.x_builtins_list(args, {}, st, node)

    def x_builtins_map(self, args, kwargs, st, node):
        xs = self.known_items(args[1], st) if len(args) == 2 else None
        if xs is None or len(xs) > max(24, self.cfg.known) or kwargs:
            return None
        states = [((), st)]
        for x in xs:
            states = [(vs + (v,), s2) for vs, s in states for v, s2 in self.call_value(args[0], [x], {}, s, node)]
        return [(tup(list(vs)), s) for vs, s in states]

    def x_builtins_iter(self, args, kwargs, st, node):
        a = args[0]
        st = self.deref(a, st, node, 'iter()')
        if st is None:
            return []
        if a.op == 'ref' and a.args in st.heap and st.heap[a.args].kind == 'iter':
            return [(a, st)]
        return [self.alloc(st, node, Obj('iter', None, {'src': self.content(a, st) if self.known_items(a, st) is None else a, 'pos': const(0)}), 'iter')]

    def x_builtins_next(self, args, kwargs, st, node):
        it = args[0]
        st = self.emit(st, 'next', node, it=it, default=args[1] if len(args) > 1 else None)
        if st is None:
            return []
        o = st.heap.get(it.args) if it.op == 'ref' else None
        out = []
        if o is not None and o.kind == 'list' and o.items is not None and not any(isinstance(x, T) and x.op == '*' for x in o.items):
            if o.items:     # (a generator expression)
                return [(o.items[0], st.with_heap(it.args, o.with_items(o.items[1:])))]
            if len(args) > 1:
                return [(args[1], st)]
            self.throw(Exc('StopIteration', True, (), None), st, node)
            return []
        if o is not None and o.kind == 'iter' and o.attrs['pos'].op == 'const':
            pos = o.attrs['pos']
            xs = self.known_items(o.attrs['src'], st)
            if xs is not None:
                if cval(pos) < len(xs):
                    return [(xs[cval(pos)], st.with_heap(it.args, o.with_attr('pos', const(cval(pos) + 1))))]
                if len(args) > 1:
                    return [(args[1], st)]
                self.throw(Exc('StopIteration', True, (), None), st, node)
                return []
        if len(args) > 1:
            out.append((args[1], st))
        else:
            self.may('StopIteration', st, node)
        if o is not None and o.kind == 'iter':
            src, pos = o.attrs['src'], o.attrs['pos']
            if pos.op == 'const' and cval(pos) < 48:
                v = T('item', (src, pos))
                out.append((v, st.with_heap(it.args, o.with_attr('pos', const(cval(pos) + 1)))))
            elif pos.op == 'bin' and pos.args[0] == '+' and pos.args[2].op == 'const' and cval(pos.args[2]) < 48:
                out.append((T('item', (src, pos)), st.with_heap(it.args, o.with_attr('pos', self.binop('+', pos, const(1), st)))))
            elif pos.op == 'sym':
                out.append((T('item', (src, pos)), st.with_heap(it.args, o.with_attr('pos', T('bin', ('+', pos, const(1)))))))
            else:
                v, st = self.fresh(st, self.site(st, node, 'next'), self.elem_typ(src, st))
                out.append((v, st))
            return out
        v, st = self.fresh(st, self.site(st, node, 'next'), self.elem_typ(it, st))
        out.append((v, st))
        return out

    def x_builtins_getattr(self, args, kwargs, st, node):
        if len(args) >= 2 and args[1].op == 'const':
            return self.getattr(args[0], cval(args[1]), st, node)

    def x_builtins_setattr(self, args, kwargs, st, node):
        if len(args) == 3 and args[1].op == 'const':
            return [(NONE, s) for s in self.setattr(args[0], cval(args[1]), args[2], st, node)]

    def x_builtins_hasattr(self, args, kwargs, st, node):
        v, st = self.fresh(st, self.site(st, node, 'hasattr'), 'bool')
        return [(v, st)]

    def x_builtins_callable(self, args, kwargs, st, node):
        ty = self.typ(args[0], st)
        if ty == 'callable':
            return [(TRUE, st)]
        if ty == 'none':
            return [(FALSE, st)]
        v, st = self.fresh(st, self.site(st, node, 'callable'), 'bool')
        return [(v, st)]

    def x_builtins_print(self, args, kwargs, st, node):
        return [(NONE, st)]

    def x_builtins_sorted(self, args, kwargs, st, node):
        return [self.mklist('list', T('call', ('sorted', self.content(args[0], st))), st, node)]

    def x_builtins_globals(self, args, kwargs, st, node):
        v, st = self.fresh(st.degrade(), 'globals', 'dict')
        return [(v, st)]

    def x_functools_partial(self, args, kwargs, st, node):
        return [(T('partial', (args[0], tuple(args[1:]), tuple(T('kwa', (k, v)) for k, v in sorted(kwargs.items())))), st)]

    def x_copy_copy(self, args, kwargs, st, node):
        a = args[0]
        if a.op == 'ref' and a.args in st.heap:
            o = st.heap[a.args]
            return [self.alloc(st, node, Obj(o.kind, o.cls, dict(o.attrs), o.items), 'copy')]
        return [(a, st)]

    x_copy_deepcopy = x_copy_copy

    def _mk(self, kind, st, node, attrs=None):
        v, st = self.alloc(st, node, Obj(kind, None, attrs or {}), kind)
        return [(v, st)]

    def x_threading_Event(self, args, kwargs, st, node):
        return self._mk('Event', st, node)

    def x_threading_RLock(self, args, kwargs, st, node):
        return self._mk('lock', st, node, {'reentrant': TRUE})

    def x_threading_Lock(self, args, kwargs, st, node):
        return self._mk('lock', st, node, {'reentrant': FALSE})

    def x_threading_Thread(self, args, kwargs, st, node):
        target = kwargs.get('target', args[1] if len(args) > 1 else NONE)
        targs = kwargs.get('args', args[3] if len(args) > 3 else tup([]))
        kw = kwargs.get('kwargs', NONE)
        return self._mk('Thread', st, node, {'$target': target, '$args': targs, '$kwargs': kw, 'daemon': kwargs.get('daemon', NONE)})

    def x_threading_Timer(self, args, kwargs, st, node):
        fn = kwargs.get('function', args[1] if len(args) > 1 else NONE)
        return self._mk('Timer', st, node, {'$target': fn, '$args': kwargs.get('args', args[2] if len(args) > 2 else NONE), '$kwargs': NONE})

    def x_threading_current_thread(self, args, kwargs, st, node):
        v, st = self.fresh(st, '!curthread', 'Thread')
        return [(v, st)]

    def x_weakref_proxy(self, args, kwargs, st, node):
        return [(T('proxy', (self.unproxy(args[0]),)), st)]

    def x_weakref_ref(self, args, kwargs, st, node):
        return [(T('wref', (args[0],)), st)]

    def x_weakref_WeakValueDictionary(self, args, kwargs, st, node):
        return [self.alloc(st, node, Obj('dict', None, {'$weak': TRUE}, ()), 'weakdict')]

    def x_serial_Serial(self, args, kwargs, st, node):
        self.throw(Exc('serial.SerialException', False, (), None), st, node)
        return self._mk('Serial', st, node)

    def x_re_compile(self, args, kwargs, st, node):
        if args[0].op == 'const':
            return [(T('regex', (cval(args[0]), show(args[1]) if len(args) > 1 else '')), st)]
        return [(T('regexv', (args[0],)), st)]

    def _re_fn(self, name, args, st, node):
        p = args[0]
        r = T('regex', (cval(p), '')) if p.op == 'const' and isinstance(cval(p), str) else (p if p.op == 'regex' else T('regexv', (p,)))
        return self.method_model(r, name, args[1:], {}, st, node, quiet=True)

    def x_re_match(self, args, kwargs, st, node):
        return self._re_fn('match', args, st, node)

    def x_re_search(self, args, kwargs, st, node):
        return self._re_fn('search', args, st, node)

    def x_re_fullmatch(self, args, kwargs, st, node):
        return self._re_fn('fullmatch', args, st, node)

    def x_re_findall(self, args, kwargs, st, node):
        return self._re_fn('findall', args, st, node)

    def x_re_finditer(self, args, kwargs, st, node):
        return self._re_fn('finditer', args, st, node)

    def x_time_sleep(self, args, kwargs, st, node):
        return [(NONE, st)]

    def x_time_time(self, args, kwargs, st, node):
        v, st = self.fresh(st, self.site(st, node, 'time'), 'float')
        return [(v, st)]

    x_time_monotonic = x_time_time

    def x_sys_exit(self, args, kwargs, st, node):
        self.throw(Exc('SystemExit', True, tuple(args), getattr(node, 'lineno', None)), st, node)
        return []

    x_builtins_exit = x_sys_exit

    def x_atexit_register(self, args, kwargs, st, node):
        return [(args[0], st)]

    def x_logging_getLogger(self, args, kwargs, st, node):
        return [(sym('!logger', 'logger'), st)]

    # -------------------------------------------------------------- methods
    def method_model(self, recv, name, args, kwargs, st, node, quiet=False):
        if recv.op == 'proxy':
            recv = recv.args[0]
        if quiet:
            st = self.deref(recv, st, node, 'method %s' % name)
            if st is None:
                return []
        ty = self.typ(recv, st)
        st = self.emit(st, 'call', node, name=name, target=None, ext=None, recv=recv, args=args, kwargs=kwargs)
        if st is None:
            return []
        m = self.cfg.methods.get(name)
        if m is not None:
            r = m(self, recv, args, kwargs, st, node)
            if r is not None:
                return r
        if name in LOG_NAMES and ty in (None, 'logger') and recv.op in ('sym', 'ext', 'attr') and name != 'log' and 'log' in show(recv).lower():
            return [(NONE, st)]
        h = getattr(self, 'm_' + {'str': 'str', 'list': 'list', 'dict': 'dict', 'set': 'set', 'bytearray': 'list', 'Event': 'Event', 'lock': 'lock', 'Thread': 'Thread',
                                  'Timer': 'Thread', 'Serial': 'Serial', 'Match': 'Match', 'regex': 'regex', 'weakdict': 'dict', 'Event?': 'Event', 'Match?': 'Match', 'Timer?': 'Thread', 'Thread?': 'Thread',
                                  'iter': 'iter', 'exc': 'exc', 'Serial?': 'Serial', 'lock?': 'lock'}.get(ty, 'unknown'), None)
        if recv.op == 'regexv':
            h = self.m_regex
        if h is not None:
            r = h(recv, name, args, kwargs, st, node)
            if r is not None:
                return r
        return self.unknown_method(recv, name, args, kwargs, st, node)

    def unknown_method(self, recv, name, args, kwargs, st, node):
        if name == 'format' and self.typ(recv, st) is None and False:
            pass
        if name in PURE_METHODS and not kwargs and recv.op != 'ref':
            if name in ('match', 'search', 'fullmatch') and recv.op == 'sym' and self.typ(recv, st) is None:
                pass
            if name in ('items', 'values', 'keys', 'copy') and self.typ(recv, st) not in (None, 'dict'):
                pass
            return [(T('m', (name, recv) + tuple(self.content(a, st) if a.op == 'ref' else a for a in args)), st)]
        if name in MUTATORS and recv.op == 'sym' and self.typ(recv, st) is None:
            st = self.forget_in(recv, st)
        st = self.havoc_args(args, st) if name not in ('write', 'append', 'add', 'insert', 'put') else st
        v, st = self.fresh(st, self.site(st, node, name))
        st = self.emit(st, 'result', node, name=name, recv=recv, args=args, value=v)
        return [(v, st)] if st is not None else []

    def forget_in(self, recv, st):
        bad = [k for k in st.facts if k.op == 'in' and k.args[1] is recv or k.op == 'lt' and T('len', (recv,)) in k.args]
        if not bad:
            return st
        s = st.copy()
        s.facts = {k: v for k, v in st.facts.items() if k not in bad}
        return s

    def m_unknown(self, recv, name, args, kwargs, st, node):
        if name == 'is_set' or name == 'isSet':
            return self.m_Event(recv, name, args, kwargs, st, node)
        if name == 'get' and args and not kwargs:
            return self.m_dict(recv, name, args, kwargs, st, node)
        return None

    def m_exc(self, recv, name, args, kwargs, st, node):
        v, st = self.fresh(st, self.site(st, node, name))
        return [(v, st)]

    def private_event(self, ref, st):
        """an event that nobody has set, and that nobody but the current function knows"""
        o = st.heap.get(ref.args) if ref.op == 'ref' else None
        if o is None or o.kind != 'Event' or '$used' in o.attrs:
            return False
        for k, x in st.heap.items():
            if any(isinstance(v, T) and ref in v.subs for v in x.attrs.values()) or any(isinstance(v, T) and ref in v.subs for e in x.items or () for v in (e if isinstance(e, tuple) else (e,))):
                return False
        for fr in st.frames:
            if any(isinstance(v, T) and v is not ref and ref in v.subs for v in fr.env.values()):
                return False
        return True

    def m_Event(self, recv, name, args, kwargs, st, node):
        if name in ('set', 'clear'):
            if recv.op == 'ref' and recv.args in st.heap and st.heap[recv.args].kind == 'Event':
                o = st.heap[recv.args]
                st = st.with_heap(recv.args, Obj(o.kind, o.cls, dict(o.attrs, **{'$used': TRUE}), o.items))
            return [(NONE, st)]
        if name in ('is_set', 'isSet') and self.private_event(recv, st):
            return [(FALSE, st)]
        if name in ('is_set', 'isSet', 'wait'):
            v, st = self.fresh(st, self.site(st, node, name), 'bool')
            st = self.emit(st, 'result', node, name=name, recv=recv, args=args, value=v)
            return [(v, st)] if st is not None else []
        return None

    def m_lock(self, recv, name, args, kwargs, st, node):
        if name == 'acquire':
            st = self.lock(recv, st, node)
            return [(TRUE, st)] if st is not None else []
        if name == 'release':
            st = self.unlock(recv, st, node)
            return [(NONE, st)] if st is not None else []
        if name in ('__enter__',):
            st = self.lock(recv, st, node)
            return [(TRUE, st)] if st is not None else []
        if name in ('__exit__',):
            st = self.unlock(recv, st, node)
            return [(NONE, st)] if st is not None else []

    def lock(self, l, st, node):
        st = self.emit(st, 'lock', node, lock=l)
        if st is None:
            return None
        s = st.copy()
        s.locks = s.locks + (l,)
        return s

    def unlock(self, l, st, node):
        s = st.copy()
        ls = list(s.locks)
        for i in range(len(ls) - 1, -1, -1):
            if ls[i] is l:
                del ls[i]
                break
        s.locks = tuple(ls)
        return self.emit(s, 'unlock', node, lock=l)

    def m_Thread(self, recv, name, args, kwargs, st, node):
        if name == 'start':
            o = st.heap.get(recv.args) if recv.op == 'ref' else None
            st = self.emit(st, 'spawn', node, thread=recv, target=o.attrs.get('$target') if o is not None else None,
                           args=o.attrs.get('$args') if o is not None else None, kwargs=o.attrs.get('$kwargs') if o is not None else None, tkind=o.kind if o is not None else None)
            if st is not None and o is not None and o.kind == 'Timer' and self.cfg.timer_fires and o.attrs.get('$target') is not None:
                # the timer fires at once, or not (yet)
                return [(NONE, st)] + [(NONE, s) for v, s in self.call_value(o.attrs['$target'], [], {}, st, node)]
            return [(NONE, st)] if st is not None else []
        if name == 'cancel':
            st = self.emit(st, 'cancel', node, thread=recv)
            return [(NONE, st)] if st is not None else []
        if name in ('join', 'setDaemon'):
            return [(NONE, st)]
        if name in ('is_alive', 'isAlive'):
            v, st = self.fresh(st, self.site(st, node, name), 'bool')
            return [(v, st)]

    def m_Serial(self, recv, name, args, kwargs, st, node):
        if self.cfg.serial_faults and name in ('read', 'write', 'inWaiting', 'flush', 'readline', 'close'):
            self.throw(Exc('serial.SerialException', False, (), None), st, node)
        ty = {'read': 'str', 'inWaiting': 'int', 'readline': 'str'}.get(name)
        if name in ('close', 'flush', 'flushInput', 'flushOutput'):
            return [(NONE, st)]
        v, st = self.fresh(st, self.site(st, node, name), ty)
        st = self.emit(st, 'result', node, name=name, recv=recv, args=args, value=v)
        return [(v, st)] if st is not None else []

    def m_regex(self, recv, name, args, kwargs, st, node):
        if name in ('match', 'search', 'fullmatch') and args:
            st = self.deref(args[0], st, node, 'regex match')
            if st is None:
                return []
            c = self.content(args[0], st)
            m = T('m', (name, recv, c))
            if c.op == 'const':
                k = const_match(m)
                if k is None:
                    return [(NONE, st)]
                if k is not False:
                    st = st.with_fact(T('isnone', (m,)), False)
            return [(m, st)]
        if name == 'finditer' and len(args) == 1 and self.cfg.closed:
            c = self.content(args[0], st)
            ms = const_matches(recv, c)
            if ms is not None:
                return [(tup([T('m', ('nth', recv, c, const(i))) for i in range(len(ms))]), st)]
        if name in ('findall', 'finditer', 'split', 'sub'):
            return [(T('m', (name, recv) + tuple(args)), st)]
        if name == 'groups' or name == 'pattern':
            return [(T('attr', (recv, name)), st)]

    def m_Match(self, recv, name, args, kwargs, st, node):
        if name == 'group':
            if not args:
                args = [const(0)]
            k = const_match(recv)
            if k and all(a.op == 'const' for a in args):
                try:
                    gs = [const(k.group(cval(a))) for a in args]
                    return [(gs[0] if len(gs) == 1 else tup(gs), st)]
                except IndexError:
                    pass
            if len(args) == 1:
                return [(T('m', ('group', recv, args[0])), st)]
            return [(tup([T('m', ('group', recv, a)) for a in args]), st)]
        if name == 'groups':
            k = const_match(recv)
            if k:
                return [(tup([const(x) for x in k.groups()]), st)]
            g = self.match_groups(recv)
            if g is not None:
                return [(tup([T('m', ('group', recv, const(i + 1))) for i in range(g)]), st)]
            return [(T('m', ('groups', recv)), st)]

    def match_groups(self, m):
        if m.op == 'm' and m.args[1].op == 'regex':
            g = regex_groups(m.args[1].args[0])
            if g is not None:
                return g[0]
        return None

    def m_str(self, recv, name, args, kwargs, st, node):
        if name == 'format':
            if recv.op == 'const':
                r = self.fmt(cval(recv), args, kwargs)
                if r is not None:
                    return [(r, st)]
            elif recv.op == 'str' and all(x.op == 'const' or self.typ(x, st) is not None for x in recv.args):
                pass
            return [(T('m', ('format', recv) + tuple(args) + tuple(T('kw', (k, v)) for k, v in sorted(kwargs.items()))), st)]
        if name == 'join' and len(args) == 1:
            a = args[0]
            st = self.deref(a, st, node, 'join')
            if st is None:
                return []
            xs = self.known_items(a, st)
            if xs is None and a.op == 'ref' and a.args in st.heap and st.heap[a.args].items is not None:
                xs = list(st.heap[a.args].items)
            if xs is not None:
                if not xs:
                    return [(const(''), st)]
                parts = []
                for i, x in enumerate(xs):
                    if i:
                        parts.append(recv)
                    if x.op == '*':
                        parts.append(T('m', ('join', recv, x.args[0])))
                    else:
                        parts.append(x)
                return [(self.mkstr(parts), st)]
            return [(T('m', ('join', recv, self.content(a, st))), st)]
        if recv.op == 'const' and not kwargs and all(a.op == 'const' for a in args) and (name in STR_METHODS_STR or name in STR_METHODS_BOOL or name in STR_METHODS_INT or name in STR_METHODS_LIST or name in ('partition', 'rpartition', 'encode')):
            try:
                r = getattr(cval(recv), name)(*[cval(a) for a in args])
            except Exception as e:
                self.may(type(e).__name__, st, node)
                return []
            if isinstance(r, list):
                return [self.alloc(st, node, Obj('list', None, {}, tuple(const(x) for x in r)))]
            if isinstance(r, tuple):
                return [(tup([const(x) for x in r]), st)]
            return [(const(r), st)]
        if name in ('startswith', 'endswith') and args:
            if args[0].op == 'tuple':
                return [(self.anyof([T('truthy', (T('m', (name, recv, a)),)) for a in args[0].args]), st)]
            if recv.op == 'str' and name == 'startswith' and recv.args[0].op == 'const' and args[0].op == 'const' and len(args) == 1:
                p, q = cval(recv.args[0]), cval(args[0])
                if p.startswith(q):
                    return [(TRUE, st)]
                if not q.startswith(p):
                    return [(FALSE, st)]
        if name == 'split':
            v = T('m', (name, recv) + tuple(args) + tuple(T('kw', (k, w)) for k, w in sorted(kwargs.items())))
            return [self.alloc(st, node, Obj('list', None, {'$c': v}, None), 'split')]
        return None

    def m_list(self, recv, name, args, kwargs, st, node):
        o = st.heap.get(recv.args) if recv.op == 'ref' else None
        if o is None:
            if name in MUTATORS:
                st = self.emit(st, 'mutate', node, obj=recv, op=name, args=args)
                if st is None:
                    return []
                st = self.forget_in(recv, st)
                if name in ('pop',):
                    v, st = self.fresh(st, self.site(st, node, 'pop'), self.elem_typ(recv, st))
                    return [(v, st)]
                return [(NONE, st)]
            return None
        if name in MUTATORS:
            st = self.emit(st, 'mutate', node, obj=recv, op=name, args=args)
            if st is None:
                return []
            o = st.heap[recv.args]
        items = o.items
        if name == 'append':
            return [(NONE, self.push_items(recv, o, [args[0]], st))]
        if name == 'extend':
            return [(NONE, self.push_items(recv, o, self.seq_items(args[0], st), st))]
        if name == 'insert':
            if items is not None and is_k(args[0], 0):
                return [(NONE, st.with_heap(recv.args, o.with_items((args[1],) + items)))]
            if items is not None and args[0].op == 'const' and isinstance(cval(args[0]), int) and 0 <= cval(args[0]) and not any(x.op == '*' for x in items):
                k = cval(args[0])
                return [(NONE, st.with_heap(recv.args, o.with_items(items[:k] + (args[1],) + items[k:])))]
            return [(NONE, self.havoc(recv, st))]
        if name == 'pop' or name == 'popleft':
            i = args[0] if args else const(-1 if name == 'pop' else 0)
            if items is not None and i.op == 'const' and not any(x.op == '*' for x in items):
                k = cval(i)
                try:
                    v = items[k]
                except IndexError:
                    self.may('IndexError', st, node)
                    return []
                k = k % len(items)
                return [(v, st.with_heap(recv.args, o.with_items(items[:k] + items[k + 1:])))]
            if items is not None and is_k(i, 0) and items and items[0].op != '*':
                return [(items[0], st.with_heap(recv.args, o.with_items(items[1:])))]
            self.may('IndexError', st, node)
            c = o.attrs.get('$c')
            if c is not None:
                v = T('item', (c, i))
                s = st.set('$pop', v)
                s = self.havoc(recv, s)
                v = s.get('$pop')
                return [(v, s.unset(['$pop']))]
            st = self.havoc(recv, st)
            v, st = self.fresh(st, self.site(st, node, 'pop'))
            return [(v, st)]
        if name == 'clear':
            return [(NONE, st.with_heap(recv.args, Obj(o.kind, o.cls, {}, ())))]
        if name == 'copy':
            return [self.mklist(o.kind, recv, st, node)]
        if name == 'remove':
            self.may('ValueError', st, node)
            if items is not None and not any(x.op == '*' for x in items):
                for k, x in enumerate(items):
                    if self.eqt(x, args[0], st) is TRUE:
                        return [(NONE, st.with_heap(recv.args, o.with_items(items[:k] + items[k + 1:])))]
            return [(NONE, self.havoc(recv, st))]
        if name in ('reverse', 'sort'):
            if name == 'reverse' and items is not None:
                return [(NONE, st.with_heap(recv.args, o.with_items(items[::-1])))]
            return [(NONE, self.havoc(recv, st))]
        if name == 'decode' or name in STR_METHODS_BOOL or name in STR_METHODS_INT:
            return [(T('m', (name, self.content(recv, st)) + tuple(args)), st)]
        return None

    def push_items(self, recv, o, xs, st):
        if o.items is not None and len(o.items) + len(xs) <= self.cfg.chunks:
            return st.with_heap(recv.args, o.with_items(o.items + tuple(xs)))
        return self.havoc(recv, st)

    def m_set(self, recv, name, args, kwargs, st, node):
        o = st.heap.get(recv.args) if recv.op == 'ref' else None
        if o is None:
            return None
        if name in ('add', 'discard', 'remove'):
            st = self.emit(st, 'mutate', node, obj=recv, op=name, args=args)
            if st is None:
                return []
        if name == 'add':
            if o.items is not None:
                if args[0] in o.items:
                    return [(NONE, st)]
                if len(o.items) < E.MAX_LIST:
                    return [(NONE, st.with_heap(recv.args, o.with_items(o.items + (args[0],))))]
            return [(NONE, self.havoc(recv, st))]
        if name in ('discard', 'remove'):
            if o.items is not None and args[0] in o.items:
                return [(NONE, st.with_heap(recv.args, o.with_items(tuple(x for x in o.items if x is not args[0]))))]
            return [(NONE, self.havoc(recv, st))]
        return None

    def m_dict(self, recv, name, args, kwargs, st, node):
        o = st.heap.get(recv.args) if recv.op == 'ref' else None
        if name == 'get' and args:
            d = args[1] if len(args) > 1 else NONE
            its = recv.args if recv.op == 'cdict' else o.items if o is not None else None
            if its is not None:
                if args[0].op == 'const' or not its:
                    if all(k.op == 'const' for k, v in its):
                        for k, v in its:
                            if self.eqt(k, args[0], st) is TRUE:
                                return [(v, st)]
                        return [(d, st)]
                for k, v in its:
                    if k is args[0] or self.eqt(k, args[0], st) is TRUE:
                        return [(v, st)]
                if len(its) <= 16 and all(k.op == 'const' for k, v in its):
                    out = []
                    for v, s in self.by_key(its, args[0], st, node):
                        out.append((d if v is None else v, s))
                    return out
            c = self.content(recv, st)
            b = T('in', (args[0], c))
            out = []
            if d is NONE:
                dd = self.decide(b, st)
                if dd is True:
                    return [(T('item', (c, args[0])), st)]
                if dd is False:
                    return [(NONE, st)]
                for s in self.assume(b, True, st):
                    out.append((T('item', (c, args[0])), s))
                for s in self.assume(b, False, st):
                    out.append((NONE, s))
                return out
            for s in self.assume(b, True, st):
                out.append((T('item', (c, args[0])), s))
            for s in self.assume(b, False, st):
                out.append((d, s))
            return out
        if name == 'pop' and args:
            st = self.emit(st, 'delitem', node, base=recv, key=args[0], default=len(args) > 1, caught=self.is_caught(Exc('KeyError', True, (), None)))
            if st is None:
                return []
            c = self.content(recv, st)
            known = self.decide(T('in', (args[0], c)), st)
            if o is not None and o.items is not None:
                known = True if any(k is args[0] for k, v in o.items) else known
            if len(args) == 1 and known is not True:
                st2 = self.emit(st, 'keyread', node, base=recv, index=args[0], known=known, caught=self.is_caught(Exc('KeyError', True, (), None)))
                if st2 is None:
                    return []
                self.may('KeyError', st2, node, base=recv, index=args[0])
                st = st2
            if o is not None and o.items is not None:
                for k, v in o.items:
                    if k is args[0]:
                        return [(v, st.with_heap(recv.args, o.with_items(tuple(kv for kv in o.items if kv[0] is not k))))]
                if all(isinstance(kv, tuple) and kv[0].op == 'const' for kv in o.items) and len(o.items) <= 16:
                    out = []
                    for v, s in self.by_key(o.items, args[0], st, node):
                        if v is not None:
                            k = [kv[0] for kv in o.items if kv[1] is v][0]
                            out.append((v, s.with_heap(recv.args, o.with_items(tuple(kv for kv in o.items if kv[0] is not k)))))
                        elif len(args) > 1:
                            out.append((args[1], s))
                    return out
            out = []
            v = T('item', (c, args[0]))
            s = st.set('$pop', v).set('$popk', args[0])
            s = self.dict_write(recv, args[0], None, s)
            out.append((s.get('$pop'), s.unset(['$pop', '$popk'])))
            if len(args) > 1 and known is not True:
                for s in self.assume(T('in', (args[0], c)), False, st):
                    out.append((args[1], s))
            return out
        if name in ('keys', 'values', 'items'):
            return [(T('m', (name, recv)), st)]
        if name in ('itervalues', 'iteritems', 'iterkeys'):
            return [(T('m', (name[4:], recv)), st)]
        if name == 'setdefault' and len(args) == 2:
            st = self.emit(st, 'setitem', node, base=recv, key=args[0], value=args[1], weak=True)
            if st is None:
                return []
            s = st.set('$sd', args[1])
            s = self.dict_write(recv, args[0], args[1], s)
            return [(s.get('$sd'), s.unset(['$sd']))]
        if name in ('update', 'clear', 'popitem'):
            st = self.emit(st, 'mutate', node, obj=recv, op=name, args=args)
            if st is None:
                return []
            if name == 'clear' and o is not None:
                return [(NONE, st.with_heap(recv.args, Obj(o.kind, o.cls, {}, ())))]
            if o is not None:
                st = self.havoc(recv, st)
            return [(NONE, st)]
        if name == 'copy':
            if o is not None:
                return [self.alloc(st, node, Obj(o.kind, None, dict(o.attrs), o.items), 'copy')]
            return [(recv, st)]
        return None

    def by_key(self, its, key, st, node):
        """one successor per constant key of a dictionary, and one (value None) for any other key"""
        out = []
        rest = st
        for k, v in its:
            b = self.eqt(key, k, rest)
            ts, fs = self.fork(b, rest, node)
            out += [(v, s) for s in ts]
            if not fs:
                return out
            rest = fs[0]
        out.append((None, rest))
        return out

    def fork(self, b, st, node):
        out = []
        for val in (True, False):
            l = []
            for s in self.assume(b, val, st):
                if b.op != 'const':
                    s = self.emit(s, 'branch', node, term=b, taken=val)
                if s is not None:
                    l.append(s)
            out.append(l)
        return out

    def dict_write(self, ref, k, v, st):
        """d[k] = v (v None: deletion) on a heap dictionary"""
        if ref.op != 'ref' or ref.args not in st.heap:
            st = self.forget_in(ref, st)
            return st.with_fact(T('in', (k, ref)), v is not None)
        o = st.heap[ref.args]
        if o.items is not None:
            if v is None:
                if any(kk is k for kk, _ in o.items):
                    return st.with_heap(ref.args, o.with_items(tuple(kv for kv in o.items if kv[0] is not k)))
            else:
                if any(kk is k for kk, _ in o.items):
                    return st.with_heap(ref.args, o.with_items(tuple((kk, v if kk is k else vv) for kk, vv in o.items)))
                if all(self.eqt(kk, k, st) is FALSE for kk, _ in o.items) and len(o.items) < E.MAX_LIST:
                    return st.with_heap(ref.args, o.with_items(o.items + ((k, v),)))
        st = st.set('$dk', k)
        if v is not None:
            st = st.set('$dv', v)
        old = st.heap[ref.args].attrs.get('$c')
        keep = [(f.args[0], x) for f, x in st.facts.items() if old is not None and f.op == 'in' and f.args[1] is old and f.args[0] is not k]
        for i, (kk, x) in enumerate(keep):
            st = st.set('$dq%d' % i, kk)
        st = self.havoc(ref, st, 'dw')
        c = st.heap[ref.args].attrs['$c']
        k = st.get('$dk')
        for i, (kk, x) in enumerate(keep):
            # a write can only change membership of (possibly) the same key
            if x == (v is not None):
                st = st.with_fact(T('in', (st.get('$dq%d' % i), c)), x)
        st = st.with_fact(T('in', (k, c)), v is not None)
        return st.unset(['$dk', '$dv'] + ['$dq%d' % i for i in range(len(keep))])

    def m_iter(self, recv, name, args, kwargs, st, node):
        if name in ('__next__', 'next'):
            return self.x_builtins_next([recv], {}, st, node)
        return None
