"""Expression and statement semantics of the abstract interpreter."""

import ast

from .terms import (T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, walk, subst, show)
from .project import Func, Class, own_nodes, dotted, live_branch
from . import engine as E
from .engine import Engine, Exc, Obj, Frame, State, Event, Monitor, Config, STR_METHODS_STR, STR_METHODS_BOOL, STR_METHODS_LIST, STR_METHODS_INT

PURE_EXT = {
    'builtins.int', 'builtins.len', 'builtins.ord', 'builtins.chr', 'builtins.str', 'builtins.repr', 'builtins.hex', 'builtins.max', 'builtins.min',
    'builtins.abs', 'builtins.round', 'builtins.float', 'builtins.bool', 'builtins.range', 'builtins.bytes', 'builtins.hash', 'builtins.divmod', 'builtins.sum',
    'builtins.format', 'builtins.any', 'builtins.all', 'builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.bin', 'builtins.oct', 'builtins.pow',
    'math.ceil', 'math.floor', 'math.trunc', 'datetime.timedelta', 'codecs.decode', 'codecs.encode', 'datetime.datetime.strptime', 'builtins.map', 'builtins.filter',
    'builtins.int.from_bytes', 'binascii.unhexlify', 'binascii.hexlify', 'itertools.chain', 'builtins.id',
}
PURE_METHODS = STR_METHODS_STR | STR_METHODS_BOOL | STR_METHODS_LIST | STR_METHODS_INT | {
    'group', 'groups', 'start', 'end', 'span', 'groupdict', 'utcoffset', 'encode', 'join', 'format', 'partition', 'rpartition', 'keys', 'values', 'items', 'to_bytes', 'bit_length',
    'match', 'search', 'fullmatch', 'findall', 'finditer', 'hex', 'copy', 'lower'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'popitem', 'sort', 'reverse'}
BUILTIN_NAMES = None


def _terms_in(v):
    if isinstance(v, T):
        yield v
    elif isinstance(v, (tuple, frozenset, list)):
        for x in v:
            for t in _terms_in(x):
                yield t


E._terms_in = _terms_in


def _builtin(name):
    import builtins
    return hasattr(builtins, name)


def _complex(node):
    """may evaluating this expression run project code or create new objects/symbols"""
    for n in ast.walk(node):
        if isinstance(n, (ast.Call, ast.Attribute, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.List, ast.Dict, ast.Set, ast.NamedExpr, ast.Yield)):
            return True
    return False


def regex_groups(pat):
    """(number of groups, set of groups that may not take part, names) of a pattern or None"""
    import re
    try:
        c = re.compile(pat)
    except re.error:
        return None
    try:
        import re._parser as sp
    except ImportError:
        import sre_parse as sp
    opt = set()

    def go(items, optional):
        for op, av in items:
            o = str(op)
            if o == 'SUBPATTERN':
                if av[0] is not None and optional:
                    opt.add(av[0])
                go(av[3], optional)
            elif o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                go(av[2], optional or av[0] == 0)
            elif o == 'BRANCH':
                for b in av[1]:
                    go(b, True)
            elif o in ('ASSERT', 'ASSERT_NOT'):
                go(av[1], True)
            elif o == 'ATOMIC_GROUP':
                go(av, optional)
    go(sp.parse(pat), False)
    return c.groups, opt, dict(c.groupindex)


def extterm(n):
    """an external name (or its value, where it is a constant)"""
    return const(2 ** 63 - 1) if n == 'sys.maxsize' else T('ext', (n,))


class Interp(Engine):
    """adds expression/statement evaluation to the engine"""

    # ------------------------------------------------------------ utilities
    def exc_term(self, e):
        return T('exc', (e.cls if isinstance(e.cls, str) else e.cls.qual, e.exact, tuple(e.args), e.site))

    def exc_of(self, t, node=None):
        """Exc for a raised value"""
        if t.op == 'exc':
            c = t.args[0]
            self.classes()
            return Exc(self._classes.get(c, c), t.args[1], t.args[2], t.args[3])
        if t.op == 'cls':
            return Exc(self.p_class(t), True, (), getattr(node, 'lineno', None))
        if t.op == 'ext':
            return Exc(t.args[0].replace('builtins.', ''), True, (), getattr(node, 'lineno', None))
        return Exc('Exception', False, (), getattr(node, 'lineno', None))

    def classes(self):
        if not hasattr(self, '_classes'):
            self._mkclasses()
        return self._classes

    def may(self, excname, st, node, **kw):
        """an operation that may raise a built-in exception: follow the exception only where a handler takes it"""
        e = Exc(excname, True, (), None)
        st2 = self.emit(st, 'mayraise', node, exc=e, caught=self.is_caught(e), **kw)
        if st2 is None:
            return
        if self.is_caught(e):
            self.throw_quiet(e, st2)

    def is_caught(self, e):
        for hs in self.catch_stack:
            for h in hs:
                if h is None or self.exc_sub(e.cls, h):
                    return True
        return False

    def new_instance(self, st, cls, name, attrs=None, kind='instance'):
        st = st.with_heap((name, 0), Obj(kind, cls, dict(attrs or {}, **{'$pin': TRUE})))
        st.made = st.made | {name}
        return T('ref', (name, 0)), st

    def cls_of(self, t, st):
        if t.op == 'proxy':
            return self.cls_of(t.args[0], st)
        if t.op == 'ref':
            o = st.heap.get(t.args)
            return o.cls if o is not None and isinstance(o.cls, Class) else None
        if t.op == 'sym' and isinstance(t.args[1], str) and t.args[1].startswith('obj:'):
            return self.classes().get(t.args[1][4:].rstrip('?'))
        if t.op == 'exc':
            return self.classes().get(t.args[0])
        if t.op == 'attr':
            c = self.cls_of(t.args[0], st)
            if c is not None:
                k = self.attr_kind(c, t.args[1])
                if k and k.startswith('obj:'):
                    return self.classes().get(k[4:].rstrip('?'))
        if t.op == 'item':
            ek = self.elem_typ(t.args[0], st)
            if ek and ek.startswith('obj:'):
                return self.classes().get(ek[4:].rstrip('?'))
        return None

    def typ(self, t, st=None):
        op = t.op
        if op == 'sym':
            k = t.args[1]
            if isinstance(k, str) and ':' in k:
                b = k.split(':')[0]
                return b + '?' if k.endswith('?') and b != 'list' else b
            return k
        if op == 'item':
            ek = self.elem_typ(t.args[0], st)
            if ek:
                return ek.split(':')[0]
            return None
        if op == 'attr':
            c = self.cls_of(t.args[0], st) if st is not None else None
            if c is not None:
                k = self.attr_kind(c, t.args[1])
                return k.split(':')[0] if k else None
            if t.args[0].op == 'exc' and t.args[1] == 'args':
                return 'tuple'
            return None
        if op == 'exc':
            return 'exc'
        if op in ('and', 'or'):
            return 'bool'
        if op == 'm' and t.args[0] == 'group':
            m = t.args[1]
            if m.op == 'm' and m.args[0] in ('match', 'search', 'fullmatch') and m.args[1].op == 'regex':
                g = regex_groups(m.args[1].args[0])
                n = cval(t.args[2]) if len(t.args) > 2 and t.args[2].op == 'const' else 0
                if g is not None and n in g[1]:
                    return 'str?'
            return 'str'
        if op == 'm' and t.args[0] == 'utcoffset':
            return 'timedelta'
        return Engine.typ(self, t, st)

    def elem_typ(self, t, st=None):
        """type of the elements of a container term"""
        op = t.op
        if op == 'sym':
            k = t.args[1]
            if isinstance(k, str) and ':' in k and not k.startswith('obj'):
                return k.split(':', 1)[1]
            if k == 'str':
                return 'str'
            if k in ('bytes', 'bytearray'):
                return 'octet'
            return None
        if op in ('str', 'tostr'):
            return 'str'
        if op == 'const' and isinstance(cval(t), str):
            return 'str'
        if op == 'const' and isinstance(cval(t), bytes):
            return 'octet'
        if op == 'slice':
            return self.elem_typ(t.args[0], st)
        if op == 'm':
            if t.args[0] in STR_METHODS_LIST:
                return 'str'
            if t.args[0] in STR_METHODS_STR:
                return 'str'
            if t.args[0] == 'finditer':
                return 'Match'
            if t.args[0] in ('group',):
                return 'str'
            if t.args[0] == 'values' and len(t.args) > 1:
                return self.elem_typ(t.args[1], st)
            return None
        if op == 'call' and t.args[0] in ('list', 'sorted', 'reversed', 'tuple', 'iter') and len(t.args) > 1:
            return self.elem_typ(t.args[1], st)
        if op == 'call' and t.args[0] == 'range':
            return 'int'
        if op == 'ref' and st is not None and t.args in st.heap:
            o = st.heap[t.args]
            if o.kind == 'bytearray':
                return 'octet'
            c = o.attrs.get('$c')
            if c is not None and c is not t:
                return self.elem_typ(c, st)
        return None

    # ---------------------------------------------------- class/attr knowledge
    def attr_kind(self, cls, attr):
        """type string of an instance attribute from all assignments to it in the class family"""
        key = (cls.qual, attr)
        if key in self._attr_kinds:
            return self._attr_kinds[key]
        self._attr_kinds[key] = None
        if attr in self.cfg.attr_types:
            self._attr_kinds[key] = self.cfg.attr_types[attr]
            return self._attr_kinds[key]
        kinds = set()
        fam = [k for k in self.p.mro(cls) if isinstance(k, Class)]
        fam += [c for c in self.classes().values() if cls in self.p.mro(c) and c not in fam]
        for c in fam:
            for d in (c.methods, c.getters, c.setters):
                for f in d.values():
                    me = f.params[0] if f.params else None
                    for n in ast.walk(f.node):
                        tg = []
                        if isinstance(n, ast.Assign):
                            for t0 in n.targets:
                                tg += [(t0, n.value)]
                                if isinstance(t0, (ast.Tuple, ast.List)):
                                    if isinstance(n.value, (ast.Tuple, ast.List)) and len(n.value.elts) == len(t0.elts):
                                        tg += list(zip(t0.elts, n.value.elts))
                                    else:
                                        tg += [(e, None) for e in t0.elts]
                        elif isinstance(n, ast.AnnAssign) and n.value is not None:
                            tg = [(n.target, n.value)]
                        elif isinstance(n, ast.AugAssign):
                            tg = []
                        for t0, v in tg:
                            if isinstance(t0, ast.Attribute) and t0.attr == attr and isinstance(t0.value, ast.Name) and t0.value.id == me:
                                kinds.add(self.expr_kind(v, f, c) if v is not None else None)
                        if isinstance(n, (ast.For,)):
                            for t0 in ast.walk(n.target):
                                if isinstance(t0, ast.Attribute) and t0.attr == attr:
                                    kinds.add(None)
            if attr in c.attrs:
                kinds.add(self.expr_kind(c.attrs[attr], None, c))
        r = None
        if None in kinds:
            known = {k for k in kinds if k and k not in ('none',)}
            if known and all(k in ('list', 'dict', 'Event', 'lock', 'Thread', 'Timer', 'regex', 'Serial') or k.startswith('obj:') for k in known):
                kinds = kinds - {None}
        if kinds and None not in kinds:
            nn = kinds - {'none'}
            if nn == {'bool', 'int'}:
                nn = {'int'}
            if len(nn) == 1:
                r = nn.pop()
                if 'none' in kinds:
                    r += '?'
            elif len(nn) == 2 and {'Event', 'bool'} == nn:
                r = None
        self._attr_kinds[key] = r
        return r

    def expr_kind(self, v, fn, cls):
        if isinstance(v, ast.Constant):
            return 'none' if v.value is None else type(v.value).__name__
        if isinstance(v, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(v, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(v, (ast.JoinedStr,)):
            return 'str'
        if isinstance(v, ast.Compare):
            return 'bool'
        if isinstance(v, ast.Call):
            d = dotted(v.func)
            mod = (fn.mod if fn else cls.mod)
            if d:
                r = self.resolve_path(mod, d)
                if isinstance(r, Class):
                    return 'exc' if self.p.is_exc(r) else 'obj:' + r.qual
                if isinstance(r, tuple) and r[0] == 'ext':
                    k = {'threading.Event': 'Event', 'threading.RLock': 'lock', 'threading.Lock': 'lock', 'threading.Thread': 'Thread', 'threading.Timer': 'Timer',
                         're.compile': 'regex', 'serial.Serial': 'Serial', 'weakref.WeakValueDictionary': 'dict', 'list': 'list', 'dict': 'dict',
                         'builtins.list': 'list', 'builtins.dict': 'dict', 'collections.deque': 'list', 'threading.Condition': 'lock', 'queue.Queue': 'Queue'}.get(r[1])
                    if k:
                        return k
                    if r[1] == 'weakref.proxy' and fn is not None and v.args and isinstance(v.args[0], ast.Name):
                        return self.param_kind(cls, fn, v.args[0].id)
                if d in ('list', 'sorted'):
                    return 'list'
                if d in ('dict',):
                    return 'dict'
                if d in ('str',):
                    return 'str'
                if d in ('int', 'len'):
                    return 'int'
            if fn is not None and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and fn.params and v.func.value.id == fn.params[0] and cls is not None:
                g = self.p.lookup(cls, v.func.attr)[0]
                if g is not None and g is not fn and not g.is_gen:
                    ks = {self.expr_kind(r.value, g, cls) if r.value is not None else 'none' for r in own_nodes(g.node) if isinstance(r, ast.Return)}
                    if len(ks) == 1:
                        return ks.pop()
        if isinstance(v, ast.Name) and fn is not None and v.id in fn.params:
            return self.param_kind(cls, fn, v.id)
        return None

    def param_kind(self, cls, fn, pname):
        """class of a constructor parameter when every instantiation in the project passes `self` of one class"""
        if fn.name != '__init__':
            return None
        key = ('param', cls.qual, pname)
        if key in self._attr_kinds:
            return self._attr_kinds[key]
        self._attr_kinds[key] = None
        found = set()
        fam = [c for c in self.classes().values() if cls in self.p.mro(c)]
        for f in self.p.funcs.values():
            if f.cls is None:
                continue
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    r = self.resolve_path(f.mod, d) if d else None
                    if r in fam:
                        init, _ = self.p.lookup(r, '__init__')
                        if init is None:
                            continue
                        ps = init.params[1:]
                        idx = ps.index(pname) if pname in ps else None
                        if idx is None:
                            continue
                        a = n.args[idx] if idx < len(n.args) else next((k.value for k in n.keywords if k.arg == pname), None)
                        if isinstance(a, ast.Name) and f.params and a.id == f.params[0]:
                            found.add('obj:' + f.cls.qual)
        r = found.pop() if len(found) == 1 else None
        self._attr_kinds[key] = r
        return r

    def resolve_path(self, mod, d):
        parts = d.split('.')
        r = self.p.resolve(mod, parts[0])
        if r is None:
            return ('ext', 'builtins.' + d) if _builtin(parts[0]) and len(parts) == 1 else None
        for p in parts[1:]:
            if isinstance(r, tuple) and r[0] in ('mod', 'ext'):
                r = self.p.resolve_dotted(r[1] + '.' + p)
            else:
                return None
        return r

    def assigned_attrs(self):
        """names of class attributes assigned through instances or through the class anywhere: {(class qual, attr)} and plain names"""
        if hasattr(self, '_assigned'):
            return self._assigned
        out = set()
        for f in self.p.funcs.values():
            for n in own_nodes(f.node):
                tgts = []
                if isinstance(n, ast.Assign):
                    tgts = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tgts = [n.target]
                for t in tgts:
                    for e in ast.walk(t):
                        if isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Store):
                            b = e.value.id if isinstance(e.value, ast.Name) else None
                            r = self.p.resolve(f.mod, b) if b else None
                            if isinstance(r, Class):
                                out.add((r.qual, e.attr))
                            elif f.cls is not None and f.params and b == f.params[0]:
                                for k in self.p.mro(f.cls):
                                    if isinstance(k, Class):
                                        out.add((k.qual, e.attr))
        self._assigned = out
        return out

    # -------------------------------------------------------------- folding
    def fold(self, expr, mod, cls=None):
        """term of a module- or class-level expression (None when it is not a foldable constant)"""
        key = id(expr)
        if key in self._cfold:
            return self._cfold[key]
        self._cfold[key] = None
        r = self._fold(expr, mod, cls)
        self._cfold[key] = r
        return r

    def _fold(self, e, mod, cls):
        if isinstance(e, ast.Constant):
            return const(e.value) if not isinstance(e.value, type(Ellipsis)) else None
        if isinstance(e, ast.Name):
            if cls is not None and e.id in cls.attrs:
                return self.fold(cls.attrs[e.id], mod, cls)
            return self.global_name(mod, e.id)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                r = self.resolve_path(mod, d)
                if r is not None:
                    return self.res_term(r)
                b = self._fold(e.value, mod, cls)
                if b is not None and b.op == 'cls':
                    c = self.p_class(b)
                    for k in self.p.mro(c):
                        if isinstance(k, Class) and e.attr in k.attrs:
                            return self.fold(k.attrs[e.attr], k.mod, k)
                if b is not None and b.op == 'ext':
                    return extterm(b.args[0] + '.' + e.attr)
            return None
        if isinstance(e, ast.Tuple):
            xs = [self._fold(x, mod, cls) for x in e.elts]
            return tup(xs) if all(x is not None for x in xs) else None
        if isinstance(e, (ast.List, ast.Set)):
            xs = [self._fold(x, mod, cls) for x in e.elts]
            return T('clist', tuple(xs)) if all(x is not None for x in xs) else None
        if isinstance(e, ast.Dict):
            ks = [self._fold(k, mod, cls) if k is not None else None for k in e.keys]
            vs = [self._fold(v, mod, cls) for v in e.values]
            if all(k is not None for k in ks) and all(v is not None for v in vs):
                d = {}
                for k, v in zip(ks, vs):
                    d[k] = v
                return T('cdict', tuple(d.items()))
            return None
        if isinstance(e, ast.BinOp):
            l, r = self._fold(e.left, mod, cls), self._fold(e.right, mod, cls)
            if l is not None and r is not None:
                o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**'}.get(type(e.op))
                if o:
                    v = self.binop(o, l, r, State())
                    return v if v.op != 'bin' else None
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self._fold(e.operand, mod, cls)
            if v is not None and v.op == 'const':
                return const(-cval(v))
            return None
        if isinstance(e, ast.Call):
            d = dotted(e.func)
            r = self.resolve_path(mod, d) if d else None
            args = [self._fold(a, mod, cls) for a in e.args]
            if isinstance(r, tuple) and r[0] == 'ext' and all(a is not None for a in args) and args and not e.keywords:
                if r[1] == 're.compile' and args[0].op == 'const':
                    return T('regex', (cval(args[0]), show(args[1]) if len(args) > 1 else ''))
                if r[1] == 'builtins.chr' and args[0].op == 'const':
                    return const(chr(cval(args[0])))
                if r[1] == 'builtins.ord' and args[0].op == 'const':
                    return const(ord(cval(args[0])))
                if r[1] in ('builtins.tuple', 'builtins.frozenset', 'builtins.list', 'builtins.set') and args[0].op in ('tuple', 'clist'):
                    return args[0]
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'format' and not e.keywords:
                b = self._fold(e.func.value, mod, cls)
                if b is not None and b.op == 'const' and isinstance(cval(b), str) and all(a is not None for a in args):
                    return self.fmt(cval(b), args, {})
            if isinstance(r, tuple) and r[0] == 'ext' and r[1] == 're.compile' and args and args[0] is not None and args[0].op == 'const':
                return T('regex', (cval(args[0]), 'flags'))
            return None
        if isinstance(e, ast.Lambda):
            return T('fn', (self.lambda_func(e, mod, cls, None).qual,))
        return None

    def lambda_func(self, node, mod, cls, parent):
        k = ('lambda', id(node))
        f = self._cfold.get(k)
        if f is None:
            f = Func(mod, cls, '<lambda:%d:%d>' % (node.lineno, node.col_offset), node, parent)
            self.p.funcs[f.qual] = f
            self._cfold[k] = f
        return f

    def res_term(self, r):
        if isinstance(r, Func):
            return T('fn', (r.qual,))
        if isinstance(r, Class):
            return T('cls', (r.qual,))
        if isinstance(r, tuple):
            if r[0] == 'mod':
                return T('mod', (r[1],))
            if r[0] == 'ext':
                return extterm(r[1])
            if r[0] == 'assign':
                v = self.fold(r[2], r[1])
                if v is not None and self._reassigned_global(r[1], r[3]):
                    v = None
                return v if v is not None else sym('!glob:%s.%s' % (r[1].name, r[3]), None)
        return None

    def _reassigned_global(self, mod, name):
        if not hasattr(self, '_reasg'):
            self._reasg = {}
        r = self._reasg.get((mod, name))
        if r is None:
            r = self._reasg[(mod, name)] = self._reassigned_global_(mod, name)
        return r

    def _reassigned_global_(self, mod, name):
        for f in self.p.funcs.values():
            if f.mod is mod:
                gl = {n for x in own_nodes(f.node) if isinstance(x, ast.Global) for n in x.names}
                if name in gl:
                    for n in own_nodes(f.node):
                        if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                            return True
        return False

    def global_name(self, mod, name):
        r = self.p.resolve(mod, name)
        if r is not None:
            t = self.res_term(r)
            if t is not None:
                return t
        if _builtin(name):
            return T('ext', ('builtins.' + name,))
        return sym('!undef:%s.%s' % (mod.name, name), None)

    # =========================================================== expressions
    def ev(self, n, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise E.Budget('step budget exhausted')
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            v, st = self.fresh(st.degrade(), 'unk@%d:%d' % (n.lineno, n.col_offset))
            return [(v, st)]
        return m(n, st)

    def ev_list(self, nodes, st):
        """evaluate expressions left to right -> [(list of values, st)]"""
        if not nodes:
            return [([], st)]
        cx = [_complex(x) for x in nodes]
        if not any(cx[1:]):
            cur = [([], st)]
            for x in nodes:
                nxt = []
                for vs, s in cur:
                    for v, s2 in self.ev(x, s):
                        nxt.append((vs + [v], s2))
                cur = nxt
            return cur
        self.tmpn = getattr(self, 'tmpn', 0) + 1
        base = self.tmpn
        pre = '$t%d_' % base
        cur = [st]
        for i, x in enumerate(nodes):
            nxt = []
            for s in cur:
                for v, s2 in self.ev(x, s):
                    nxt.append(s2.set(pre + str(i), v))
            cur = nxt
        out = []
        names = [pre + str(i) for i in range(len(nodes))]
        for s in cur:
            vs = [s.get(nm) for nm in names]
            out.append((vs, s.unset(names)))
        self.tmpn = base - 1
        return out

    def ev_Constant(self, n, st):
        if n.value is Ellipsis:
            return [(sym('!ellipsis'), st)]
        return [(const(n.value), st)]

    def lookup_name(self, name, st):
        fr = st.frames[-1]
        if name in fr.env:
            return fr.env[name]
        fn = fr.func
        f = fn
        depth = len(st.frames) - 1
        while f is not None and f.parent is not None:
            f = f.parent
            for i in range(depth - 1, -1, -1):
                if st.frames[i].func is f:
                    if name in st.frames[i].env:
                        return st.frames[i].env[name]
                    break
            cap = fr.env.get('^' + name)
            if cap is not None:
                return cap
        return None

    def ev_Name(self, n, st):
        v = self.lookup_name(n.id, st)
        if v is not None:
            return [(v, st)]
        fn = self.fn_of(st)
        if n.id in self.local_names(fn):
            # possibly unbound local
            st = self.emit(st, 'unbound', n, name=n.id)
            if st is None:
                return []
            v, st = self.fresh(st, 'unbound:%s' % n.id)
            return [(v, st.set(n.id, v))]
        return [(self.global_name(fn.mod, n.id), st)]

    def local_names(self, fn):
        k = ('locals', fn.qual)
        r = self._cfold.get(k)
        if r is None:
            r = set()
            gl = set()
            if not isinstance(fn.node, ast.Lambda):
                for x in own_nodes(fn.node):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        r.add(x.id)
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        r.add(x.name)
                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                        gl |= set(x.names)
                    elif isinstance(x, ast.ExceptHandler) and x.name:
                        r.add(x.name)
                r -= gl
            self._cfold[k] = r
        return r

    def ev_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            out += self.getattr(b, n.attr, s, n)
        return out

    def mangle(self, name, st):
        return name

    def getattr(self, b, name, st, node):
        """-> [(value, st)]"""
        if b.op == 'proxy':
            b = b.args[0]
        if b.op == 'mod':
            r = self.p.resolve_dotted(b.args[0] + '.' + name)
            t = self.res_term(r) if r is not None else None
            return [(t if t is not None else sym('!undef:%s.%s' % (b.args[0], name)), st)]
        if b.op == 'ext':
            return [(extterm(b.args[0] + '.' + name), st)]
        if b.op == 'super':
            cur, recv, after = b.args
            f, k = (None, None)
            if recv is not None:
                rc = self.cls_of(recv, st) or (self.p_class(recv) if recv.op == 'cls' else None)
                c = rc if rc is not None and self.classes()[after] in self.p.mro(rc) else self.classes()[after]
                f, k = self.p.lookup(c, name, after=self.classes()[after])
                if f is None:
                    g, _ = self.p.lookup(c, name, 'getters', after=self.classes()[after])
                    if g is not None:
                        return self.call_func(g, [recv], {}, st, node)
            if f is None:
                return [(T('superm', (name, recv, after)), st)]
            return [(T('bm', (f.qual, recv)), st)]
        if b.op == 'cls':
            c = self.p_class(b)
            f, k = self.p.lookup(c, name)
            if f is not None:
                if f.is_classmethod and name != '__new__':
                    return [(T('bm', (f.qual, b)), st)]
                return [(T('fn', (f.qual,)), st)]
            for k in self.p.mro(c):
                if isinstance(k, Class) and name in k.attrs:
                    o = st.heap.get(('~', b))
                    if o is not None and name in o.attrs:
                        return [(o.attrs[name], st)]
                    if (k.qual, name) in self.assigned_attrs() and not self.cfg.closed:
                        break
                    v = self.fold(k.attrs[name], k.mod, k)
                    if v is not None:
                        return [(v, st)]
                    break
            return [(sym('!%s.%s' % (c.name, name), None), st)]
        # nullable base
        st = self.deref(b, st, node, 'attribute %s' % name)
        if st is None:
            return []
        c = self.cls_of(b, st)
        key = b.args if b.op == 'ref' else ('~', b)
        o = st.heap.get(key)
        if name in self.cfg.volatile and c is not None and self.is_field(c, name):
            pin = o.attrs.get('$own:' + name) if o is not None else None
            v, st = self.fresh(st, 'vol:%s' % name, self.attr_kind(c, name))
            st = self.emit(st, 'getattr', node, obj=b, attr=name, value=v)
            return [(v, st)] if st is not None else []
        if o is not None and name in o.attrs:
            v = o.attrs[name]
            st = self.emit(st, 'getattr', node, obj=b, attr=name, value=v)
            return [(v, st)] if st is not None else []
        if c is not None:
            mods = ('methods', 'getters')
            g, _ = self.p.lookup(c, name, 'getters')
            if g is not None:
                st = self.emit(st, 'getprop', node, obj=b, attr=name, target=g)
                if st is None:
                    return []
                return self.call_func(g, [b], {}, st, node)
            f, _ = self.p.lookup(c, name)
            if f is not None:
                if f.is_static:
                    return [(T('fn', (f.qual,)), st)]
                return [(T('bm', (f.qual, b)), st)]
            for k in self.p.mro(c):
                if isinstance(k, Class) and name in k.attrs:
                    over = st.heap.get(('~', T('cls', (k.qual,)))) if self.cfg.closed else None
                    if over is not None and name in over.attrs:
                        return [(over.attrs[name], st)]
                    if (k.qual, name) not in self.assigned_attrs() or self.cfg.closed and b.op == 'ref' and b.args[0] in st.made:
                        v = self.fold(k.attrs[name], k.mod, k)
                        if v is not None:
                            return [(v, st)]
                    break
            if b.op == 'exc':
                return [(self.exc_attr(b, name), st)]
            if self.is_field(c, name) or any(isinstance(k, Class) and name in k.attrs for k in self.p.mro(c)):
                return self.lazy_attr(b, c, name, st, node)
            # nothing known about this name: inherited from an external base or undefined
            st = self.emit(st, 'noattr', node, obj=b, attr=name, cls=c)
            if st is None:
                return []
            return [(T('attr', (b, name)), st)]
        if b.op == 'exc':
            return [(self.exc_attr(b, name), st)]
        # unknown receiver: property by unique name
        g = self.unique_getter(name)
        v = T('attr', (b, name))
        st = self.emit(st, 'getattr', node, obj=b, attr=name, value=v)
        return [(v, st)] if st is not None else []

    def unique_getter(self, name):
        return None

    def exc_attr(self, b, name):
        cls = self.classes().get(b.args[0])
        if b.args[1] and cls is not None:
            init, k = self.p.lookup(cls, '__init__')
            v = self.ctor_attr(init, k, list(b.args[2]), name) if init is not None else None
            if v is not None:
                return v
        return T('attr', (b, name))

    def ctor_attr(self, init, cls, args, name, depth=0):
        """value of an attribute after a simple constructor: `self.name = param`, possibly in the base class' constructor"""
        ps = init.params[1:]
        dn = init.node.args.defaults
        vals = {}
        for i, p in enumerate(ps):
            if i < len(args):
                vals[p] = args[i]
            elif i >= len(ps) - len(dn):
                vals[p] = self.fold(dn[i - (len(ps) - len(dn))], init.mod)

        def value(e):
            return vals.get(e.id) if isinstance(e, ast.Name) and e.id in vals else self.fold(e, init.mod)
        up = None
        for n in own_nodes(init.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == name:
                return value(n.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '__init__':
                up = n
        if up is None or depth > 4 or up.keywords or any(isinstance(x, ast.Starred) for x in up.args):
            return None
        if isinstance(up.func.value, ast.Call):     # super(...)
            g, k = self.p.lookup(cls, '__init__', after=cls)
            xs = up.args
        else:
            r = self.p.resolve(init.mod, dotted(up.func.value) or '')
            g, k = self.p.lookup(r, '__init__') if isinstance(r, Class) else (None, None)
            xs = up.args[1:]
        if g is None:
            return None
        xs = [value(x) for x in xs]
        return self.ctor_attr(g, k, xs, name, depth + 1) if all(x is not None for x in xs) else None

    def is_field(self, c, name):
        k = ('field', c.qual, name)
        r = self._cfold.get(k)
        if r is None:
            r = any((kk.qual, name) in self.assigned_attrs() for kk in self.p.mro(c) if isinstance(kk, Class))
            if not r:
                for sub in self.classes().values():
                    if c in self.p.mro(sub) and (sub.qual, name) in self.assigned_attrs():
                        r = True
                        break
            self._cfold[k] = r
        return r

    def lazy_attr(self, b, c, name, st, node):
        kind = self.attr_kind(c, name)
        nm = '%s.%s' % (show(b), name)
        if kind in ('list', 'dict') or (kind and kind.split(':')[0] in ('list', 'dict') and not kind.endswith('?')):
            base = kind.split(':')[0]
            oid = (nm, 0)
            if oid not in st.heap:
                st = st.with_heap(oid, Obj(base, None, {'$c': sym(nm + '*', kind)}, None))
                st.made = st.made | {nm}
            v = T('ref', oid)
            if b.op == 'ref' and '@' not in b.args[0] and b.args[1] == 0:
                self.lazy_of[nm] = (b.args, name)
        else:
            if self.p.is_exc(c) if c else False:
                kind = None
            v = T('attr', (b, name)) if kind is None else sym(nm, kind)
            if kind is None and b.op == 'ref':
                v = sym(nm, None)
            if b.op == 'ref' and '@' not in b.args[0] and b.args[1] == 0 and v.op == 'sym':
                # a field of an object of the analysed context that was never written: named by its place
                self.lazy_of[nm] = (b.args, name)
                st = self.emit(st, 'getattr', node, obj=b, attr=name, value=v)
                return [(v, st)] if st is not None else []
        st = self.put_attr(b, name, v, st)
        st = self.emit(st, 'getattr', node, obj=b, attr=name, value=v)
        return [(v, st)] if st is not None else []

    def put_attr(self, b, name, v, st):
        key = b.args if b.op == 'ref' else ('~', b)
        o = st.heap.get(key)
        if o is None:
            o = Obj('sym', self.cls_of(b, st), {})
        return st.with_heap(key, o.with_attr(name, v))

    def deref(self, b, st, node, what):
        """the program uses b as an object; b must not be None"""
        if b.op == 'const' and cval(b) is None:
            st = self.emit(st, 'deref', node, value=b, what=what, null=True)
            self.may('AttributeError' if what.startswith('attr') else 'TypeError', st, node) if st is not None else None
            return None
        ty = self.typ(b, st)
        if ty is not None and ty.endswith('?') or b.op == 'attr':
            t = T('isnone', (b,))
            d = self.decide(t, st)
            if ty is not None and ty.endswith('?') and d is not False or d is True:
                st = self.emit(st, 'deref', node, value=b, what=what, null=(True if d else None))
                if st is None:
                    return None
                if d is True:
                    return None
                r = self.assume(t, False, st)
                return r[0] if r else None
        return st

    # ------------------------------------------------------------ subscripts
    def ev_Subscript(self, n, st):
        out = []
        if isinstance(n.slice, ast.Slice):
            parts = [n.value] + [x for x in (n.slice.lower, n.slice.upper, n.slice.step) if x is not None]
            for vs, s in self.ev_list(parts, st):
                it = iter(vs[1:])
                lo = next(it) if n.slice.lower is not None else NONE
                hi = next(it) if n.slice.upper is not None else NONE
                sp = next(it) if n.slice.step is not None else NONE
                s = self.deref(vs[0], s, n, 'slice')
                if s is not None:
                    out.append(self.slice(vs[0], lo, hi, sp, s, n))
            return out
        for vs, s in self.ev_list([n.value, n.slice], st):
            s = self.deref(vs[0], s, n, 'subscript')
            if s is not None:
                out += self.item(vs[0], vs[1], s, n)
        return out

    def slice(self, b, lo, hi, sp, st, node):
        cs = all(x.op == 'const' for x in (lo, hi, sp))
        if cs:
            sl = slice(cval(lo), cval(hi), cval(sp))
            if b.op == 'const' and isinstance(cval(b), (str, bytes, tuple)):
                return (const(cval(b)[sl]), st)
            if b.op == 'tuple':
                return (tup(b.args[sl]), st)
            if b.op == 'clist':
                return (T('clist', b.args[sl]), st)
            if b.op == 'ref' and b.args in st.heap and st.heap[b.args].items is not None and st.heap[b.args].kind in ('list', 'bytearray'):
                o = st.heap[b.args]
                if not any(isinstance(x, T) and x.op == '*' for x in o.items):
                    return self.alloc(st, node, Obj(o.kind, None, {}, o.items[sl]))
            if is_k(lo, None) and is_k(hi, None) and is_k(sp, None) and b.op != 'ref':
                return (b, st)
        ty = self.typ(b, st)
        c = self.content(b, st)
        v = T('slice', (c, lo, hi, sp))
        if ty in ('list', 'bytearray') and b.op == 'ref':
            return self.alloc(st, node, Obj(ty, None, {'$c': v}, None), 'slice')
        return (v, st)

    def content(self, b, st):
        if b.op == 'ref' and b.args in st.heap:
            c = st.heap[b.args].attrs.get('$c')
            if c is not None:
                return c
        return b

    def item(self, b, i, st, node):
        if b.op == 'proxy':
            b = b.args[0]
        cls = self.cls_of(b, st)
        if cls is not None:
            f, _ = self.p.lookup(cls, '__getitem__')
            if f is not None:
                return self.call_func(f, [b, i], {}, st, node)
        if b.op in ('tuple', 'clist') and i.op == 'const' and isinstance(cval(i), int):
            try:
                return [(b.args[cval(i)], st)]
            except IndexError:
                self.may('IndexError', st, node, base=b, index=i)
                return []
        if b.op == 'const' and i.op == 'const':
            try:
                return [(const(cval(b)[cval(i)]), st)]
            except Exception:
                self.may('IndexError', st, node, base=b, index=i)
                return []
        if b.op == 'cdict':
            for k, v in b.args:
                if self.eqt(k, i, st) is TRUE:
                    return [(v, st)]
            if i.op != 'const' and len(b.args) <= 16 and all(k.op == 'const' for k, v in b.args):
                out = []
                for v, s in self.by_key(b.args, i, st, node):
                    if v is None:
                        self.may('KeyError', s, node, base=b, index=i, definite=False)
                    else:
                        out.append((v, s))
                return out
            known = i.op == 'const'
            self.may('KeyError', st, node, base=b, index=i, definite=known)
            if known:
                return []
            return [(T('item', (b, i)), st)]
        if b.op == 'ref' and b.args in st.heap:
            o = st.heap[b.args]
            if o.kind in ('list', 'bytearray', 'tuple') and o.items is not None and i.op == 'const' and isinstance(cval(i), int):
                k = cval(i)
                seq = o.items
                pre = 0
                while pre < len(seq) and not (isinstance(seq[pre], T) and seq[pre].op == '*'):
                    pre += 1
                if pre == len(seq):
                    try:
                        return [(seq[k], st)]
                    except IndexError:
                        self.may('IndexError', st, node, base=b, index=i)
                        return []
                if 0 <= k < pre:
                    return [(seq[k], st)]
            if o.kind == 'dict' and o.items is not None:
                for k, v in o.items:
                    if k is i or self.eqt(k, i, st) is TRUE:
                        return [(v, st)]
                if i.op == 'const' and all(k.op == 'const' for k, v in o.items):
                    self.may('KeyError', st, node, base=b, index=i)
                    return []
                if o.items and len(o.items) <= 16 and all(k.op == 'const' for k, v in o.items):
                    out = []
                    for v, s in self.by_key(o.items, i, st, node):
                        if v is None:
                            self.may('KeyError', s, node, base=b, index=i)
                        else:
                            out.append((v, s))
                    return out
        c = self.content(b, st)
        ty = self.typ(b, st)
        if ty == 'dict' or ty == 'weakdict':
            d = self.decide(T('in', (i, c)), st)
            st2 = self.emit(st, 'keyread', node, base=b, index=i, known=d, caught=self.is_caught(Exc('KeyError', True, (), None)))
            if st2 is None:
                return []
            st = st2
            if d is not True:
                self.may('KeyError', st, node, base=b, index=i)
        else:
            self.may('IndexError', st, node, base=b, index=i)
        v = T('item', (c, i))
        if ty in ('str', 'bytes') or c.op in ('sym', 'slice', 'm', 'call', 'item', 'attr', 'cmd'):
            return [(v, st)]
        return [(v, st)]

    # ------------------------------------------------------------- operators
    def ev_BinOp(self, n, st):
        o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**', ast.MatMult: '@'}[type(n.op)]
        return [self.binval(o, a, b, s, n) for (a, b), s in self.ev_list([n.left, n.right], st)]

    def binval(self, o, a, b, st, node):
        oa = st.heap.get(a.args) if a.op == 'ref' else None
        ob = st.heap.get(b.args) if b.op == 'ref' else None
        if o == '+' and (oa is not None and oa.kind in ('list', 'bytearray')):
            xs = self.seq_items(a, st)
            ys = self.seq_items(b, st)
            return self.alloc(st, node, Obj(oa.kind, None, {}, tuple(xs + ys)))
        if o == '+' and ob is not None and ob.kind in ('list', 'bytearray'):
            return self.alloc(st, node, Obj(ob.kind, None, {}, tuple(self.seq_items(a, st) + self.seq_items(b, st))))
        if o == '*' and oa is not None and oa.kind == 'list':
            if oa.items is not None and b.op == 'const' and isinstance(cval(b), int) and len(oa.items) * max(cval(b), 0) <= 40:
                return self.alloc(st, node, Obj('list', None, {}, oa.items * cval(b)))
            v, st = self.fresh(st, self.site(st, node, 'rep'), 'list:' + (self.typ(oa.items[0], st) or 'any') if oa.items else 'list')
            return self.alloc(st, node, Obj('list', None, {'$c': v}, None))
        return (self.binop(o, a, b, st), st)

    def seq_items(self, t, st):
        """items of a sequence term; unknown sequences become one '*' item"""
        if t.op in ('tuple', 'clist'):
            return list(t.args)
        if t.op == 'ref' and t.args in st.heap:
            o = st.heap[t.args]
            if o.kind in ('list', 'bytearray', 'set') and o.items is not None:
                return list(o.items)
            if o.kind == 'iter':
                return [T('*', (t,))]
            c = o.attrs.get('$c')
            if c is not None:
                return [T('*', (c,))]
        if t.op == 'const' and isinstance(cval(t), (bytes,)):
            return [const(x) for x in cval(t)]
        if t.op == 'const' and isinstance(cval(t), (str,)):
            return [const(x) for x in cval(t)]
        return [T('*', (t,))]

    def ev_UnaryOp(self, n, st):
        if isinstance(n.op, ast.Not):
            out = []
            ts, fs = self.cond(n.operand, st)
            out += [(FALSE, s) for s in ts]
            out += [(TRUE, s) for s in fs]
            return out
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.USub):
                if v.op == 'const' and isinstance(cval(v), (int, float)):
                    out.append((const(-cval(v)), s))
                else:
                    out.append((T('neg', (v,)), s))
            elif isinstance(n.op, ast.Invert):
                out.append((const(~cval(v)) if v.op == 'const' and isinstance(cval(v), int) else T('inv', (v,)), s))
            else:
                out.append((v, s))
        return out

    def ev_BoolOp(self, n, st):
        out = []
        cur = [st]
        isand = isinstance(n.op, ast.And)
        for i, x in enumerate(n.values):
            last = i == len(n.values) - 1
            nxt = []
            for s in cur:
                for v, s2 in self.ev(x, s):
                    if last:
                        out.append((v, s2))
                        continue
                    b = self.truth(v, s2)
                    s3 = s2.set('$b', v)
                    for val in (not isand, isand):
                        for s4 in self.assume(b, val, s3):
                            if b.op != 'const':
                                s4 = self.emit(s4, 'branch', n, term=b, taken=val)
                                if s4 is None:
                                    continue
                            if val == isand:
                                nxt.append(s4.unset(['$b']))
                            else:
                                out.append((s4.get('$b'), s4.unset(['$b'])))
            cur = nxt
        return out

    def ev_Compare(self, n, st):
        if len(n.ops) == 1:
            out = []
            for (a, b), s in self.ev_list([n.left, n.comparators[0]], st):
                out += self.compare(n.ops[0], a, b, s, n)
            return out
        out = []
        ts, fs = self.cond(n, st)
        return [(TRUE, s) for s in ts] + [(FALSE, s) for s in fs]

    def compare(self, op, a, b, st, node):
        """-> [(boolean term, st)]"""
        k = type(op)
        if k in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            r = self.eqt(self.unproxy(a), self.unproxy(b), st)
            if k in (ast.Eq, ast.NotEq):
                r = self.eq_special(a, b, r, st)
            return [(self.neg(r) if k in (ast.NotEq, ast.IsNot) else r, st)]
        if k in (ast.Lt, ast.Gt, ast.LtE, ast.GtE):
            for x in (a, b):
                st = self.deref(x, st, node, 'comparison')
                if st is None:
                    return []
            if k is ast.Lt:
                return [(self.ltt(a, b, st), st)]
            if k is ast.Gt:
                return [(self.ltt(b, a, st), st)]
            if k is ast.GtE:
                return [(self.neg(self.ltt(a, b, st)), st)]
            return [(self.neg(self.ltt(b, a, st)), st)]
        # membership
        st = self.deref(b, st, node, 'membership test')
        if st is None:
            return []
        cls = self.cls_of(b, st)
        if cls is not None:
            f, _ = self.p.lookup(cls, '__contains__')
            if f is not None:
                out = []
                for v, s in self.call_func(f, [b, a], {}, st, node):
                    t = self.truth(v, s)
                    out.append((self.neg(t) if k is ast.NotIn else t, s))
                return out
        t = self.membership(a, b, st)
        return [(self.neg(t) if k is ast.NotIn else t, st)]

    def unproxy(self, t):
        return t.args[0] if t.op == 'proxy' else t

    def eq_special(self, a, b, r, st):
        """equality of heap lists by contents"""
        oa = st.heap.get(a.args) if a.op == 'ref' else None
        ob = st.heap.get(b.args) if b.op == 'ref' else None
        if oa is not None and oa.kind in ('list', 'bytearray', 'dict', 'set') or ob is not None and ob.kind in ('list', 'bytearray', 'dict', 'set'):
            if a is b:
                return TRUE
            if is_k(a, None) or is_k(b, None):
                return FALSE
            if oa is not None and ob is not None and oa.items is not None and ob.items is not None:
                if len(oa.items) != len(ob.items) and not any(isinstance(x, T) and x.op == '*' for x in oa.items + ob.items):
                    return FALSE
                if oa.items == ob.items:
                    return TRUE if not oa.items or oa.kind == 'list' else r
            ca, cb = self.content(a, st), self.content(b, st)
            return T('same', (ca, cb))
        return r

    def membership(self, a, b, st):
        if b.op == 'm' and b.args[0] == 'keys' and isinstance(b.args[1], T) and b.args[1].op in ('ref', 'cdict'):
            b = b.args[1]
        if b.op in ('tuple', 'clist') or b.op == 'cdict':
            xs = b.args if b.op != 'cdict' else tuple(k for k, v in b.args)
            if len(xs) > 40:
                return T('in', (a, b))
            return self.anyof([self.eqt(a, x, st) for x in xs])
        if b.op == 'ref' and b.args in st.heap and st.heap[b.args].items is not None:
            o = st.heap[b.args]
            xs = [k for k, v in o.items] if o.kind == 'dict' else list(o.items)
            if len(xs) <= 40 and not any(x.op == '*' for x in xs):
                return self.anyof([self.eqt(a, x, st) for x in xs])
            return T('in', (a, b))
        if b.op == 'const' and a.op == 'const':
            try:
                return TRUE if cval(a) in cval(b) else FALSE
            except Exception:
                pass
        return T('in', (a, self.content(b, st)))

    def anyof(self, bs):
        if any(x is TRUE for x in bs):
            return TRUE
        bs = [x for x in bs if x is not FALSE]
        if not bs:
            return FALSE
        if len(bs) == 1:
            return bs[0]
        return T('or', tuple(bs))

    def truth(self, t, st):
        if t.op in ('and', 'or'):
            return t
        if t.op == 'proxy':
            return TRUE
        if t.op == 'ref':
            o = st.heap.get(t.args)
            if o is not None and o.kind in ('list', 'dict', 'set', 'bytearray') and o.items is not None and any(isinstance(x, T) and x.op == '*' for x in o.items) and all(isinstance(x, T) and x.op == '*' for x in o.items):
                return T('truthy', (t,))
            if o is not None and o.items is None and o.kind in ('list', 'dict', 'set', 'bytearray') and o.attrs.get('$c') is not None:
                return T('lt', (const(0), T('len', (o.attrs['$c'],))))
        return Engine.truth(self, t, st)

    def decide(self, b, st):
        if b.op == 'and':
            r = [self.decide(x, st) for x in b.args]
            if any(x is False for x in r):
                return False
            return True if all(x is True for x in r) else None
        if b.op == 'or':
            r = [self.decide(x, st) for x in b.args]
            if any(x is True for x in r):
                return True
            return False if all(x is False for x in r) else None
        return Engine.decide(self, b, st)

    def branch(self, b, st):
        """split a state on a boolean term -> [(bool, st)]"""
        d = self.decide(b, st)
        if d is not None:
            return [(d, s) for s in self.assume(b, d, st)]
        return [(True, s) for s in self.assume(b, True, st)] + [(False, s) for s in self.assume(b, False, st)]

    def cond(self, n, st):
        """-> (states where n is true, states where n is false)"""
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            cur = [st]
            done = []
            for x in n.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(x, s)
                    if isand:
                        nxt += t
                        done += f
                    else:
                        nxt += f
                        done += t
                cur = self.dedupe(nxt)
            return (cur, self.dedupe(done)) if isand else (self.dedupe(done), cur)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            t, f = self.cond(n.operand, st)
            return f, t
        if isinstance(n, ast.Compare) and len(n.ops) > 1:
            out_t, out_f = [], []
            for vs, s in self.ev_list([n.left] + n.comparators, st):
                cur = [s]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for s1 in cur:
                        for b, s2 in self.compare(op, vs[i], vs[i + 1], s1, n):
                            x, y = self.fork(self.truth(b, s2), s2, n)
                            nxt += x
                            out_f += y
                    cur = nxt
                out_t += cur
            return out_t, out_f
        ts, fs = [], []
        for v, s in self.ev(n, st):
            self.stats['branches'] += 1
            b = self.truth(v, s)
            for out, val in ((ts, True), (fs, False)):
                for s2 in self.assume(b, val, s):
                    s2 = self.emit(s2, 'branch', n, term=b, taken=val)
                    if s2 is not None:
                        out.append(s2)
        return ts, fs

    def ev_IfExp(self, n, st):
        ts, fs = self.cond(n.test, st)
        out = []
        for s in ts:
            out += self.ev(n.body, s)
        for s in fs:
            out += self.ev(n.orelse, s)
        return out

    def ev_NamedExpr(self, n, st):
        return [(v, s.set(n.target.id, v)) for v, s in self.ev(n.value, st)]

    def ev_Tuple(self, n, st):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self.starred(n, st, tup)
        return [(tup(vs), s) for vs, s in self.ev_list(n.elts, st)]

    def starred(self, n, st, mk):
        out = []
        for vs, s in self.ev_list([x.value if isinstance(x, ast.Starred) else x for x in n.elts], st):
            items = []
            for x, v in zip(n.elts, vs):
                items += self.seq_items(v, s) if isinstance(x, ast.Starred) else [v]
            out.append((mk(items), s))
        return out

    def ev_List(self, n, st):
        out = []
        for vs, s in self.ev_list([x.value if isinstance(x, ast.Starred) else x for x in n.elts], st):
            items = []
            for x, v in zip(n.elts, vs):
                items += self.seq_items(v, s) if isinstance(x, ast.Starred) else [v]
            out.append(self.alloc(s, n, Obj('list', None, {}, tuple(items))))
        return out

    def ev_Set(self, n, st):
        return [self.alloc(s, n, Obj('set', None, {}, tuple(dict.fromkeys(vs)))) for vs, s in self.ev_list(n.elts, st)]

    def ev_Dict(self, n, st):
        out = []
        if any(k is None for k in n.keys):
            for vs, s in self.ev_list([x for x in n.values], st):
                v, s = self.fresh(s, self.site(s, n, 'dict*'), 'dict')
                out.append(self.alloc(s, n, Obj('dict', None, {'$c': v}, None)))
            return out
        k = len(n.keys)
        for vs, s in self.ev_list(list(n.keys) + list(n.values), st):
            d = {}
            for a, b in zip(vs[:k], vs[k:]):
                d[a] = b
            out.append(self.alloc(s, n, Obj('dict', None, {}, tuple(d.items()))))
        return out

    def ev_JoinedStr(self, n, st):
        nodes = [v.value for v in n.values if isinstance(v, ast.FormattedValue)]
        out = []
        for vs, s in self.ev_list(nodes, st):
            it = iter(vs)
            parts = []
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    x = next(it)
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        spec = ast.unparse(v.format_spec)[2:-1] if v.format_spec is not None else ''
                        if x.op == 'const' and v.conversion == -1:
                            x = const(format(cval(x), spec))
                        else:
                            x = T('fmtspec', (x, spec))
                    parts.append(x)
                else:
                    parts.append(const(v.value))
            out.append((self.mkstr(parts), s))
        return out

    def ev_Lambda(self, n, st):
        fn = self.fn_of(st)
        f = self.lambda_func(n, fn.mod, fn.cls, fn)
        return [(self.closure(f, st), st)]

    def closure(self, f, st):
        free = set()
        for x in ast.walk(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                free.add(x.id)
        caps = []
        for nm in sorted(free):
            v = self.lookup_name(nm, st)
            if v is not None and nm not in f.params:
                caps.append(T('cap', (nm, v)))
        if not caps:
            return T('fn', (f.qual,))
        return T('clo', (f.qual, tuple(caps)))

    def ev_Yield(self, n, st):
        hook = self.yield_hook[-1] if self.yield_hook else None
        out = []
        vals = self.ev(n.value, st) if n.value is not None else [(NONE, st)]
        if hook is None:
            for v, s in vals:
                s = self.emit(s, 'yield', n, value=v)
                if s is not None:
                    out.append((NONE, s))
            return out
        for v, s in vals:
            for s2 in hook(v, s):
                out.append((NONE, s2))
        return out

    def ev_YieldFrom(self, n, st):
        hook = self.yield_hook[-1] if self.yield_hook else None
        if hook is not None:
            out = []
            for v, s in self.ev(n.value, st):
                xs = self.known_items(v, s)
                ss = [s] if xs is not None else [s.degrade()]
                for x in xs or ():
                    ss = [s3 for s2 in ss for s3 in hook(x, s2)]
                out += [(NONE, s2) for s2 in ss]
            return out
        return [(NONE, s.degrade()) for v, s in self.ev(n.value, st)]

    def ev_Starred(self, n, st):
        return [(T('*', (v,)), s) for v, s in self.ev(n.value, st)]

    def ev_Await(self, n, st):
        return [(v, s.degrade()) for v, s in self.ev(n.value, st)]

    # --------------------------------------------------------- comprehension
    def ev_ListComp(self, n, st):
        return self.comp(n, st, 'list', n.elt)

    def ev_SetComp(self, n, st):
        return self.comp(n, st, 'set', n.elt)

    def ev_GeneratorExp(self, n, st):
        return self.comp(n, st, 'gen', n.elt)

    def ev_DictComp(self, n, st):
        return self.comp(n, st, 'dict', n.value)

    def comp(self, n, st, kind, elt):
        """comprehension: unrolled over known items, else one symbolic pass over a generic element"""
        saved = {}
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)

        def run(gi, s, items):
            # -> [(items, exact, st)]
            if gi == len(n.generators):
                nodes = [n.key, n.value] if kind == 'dict' else [elt]
                out = []
                for vs, s2 in self.ev_list(nodes, s):
                    out.append((items + [tuple(vs) if kind == 'dict' else vs[0]], True, s2))
                return out
            g = n.generators[gi]
            out = []
            for itv, s1 in self.ev(g.iter, s):
                s1 = self.deref(itv, s1, g.iter, 'iteration')
                if s1 is None:
                    continue
                xs, s1 = self.take_items(itv, s1)
                if xs is not None and len(xs) <= max(40, self.cfg.known):
                    cur = [(items, True, s1)]
                    for x in xs:
                        nxt = []
                        for its, ex, s2 in cur:
                            for s3 in self.bind(g.target, x, s2, n):
                                ts, fs = [s3], []
                                for c in g.ifs:
                                    nt = []
                                    for q in ts:
                                        t, f = self.cond(c, q)
                                        nt += t
                                        fs += f
                                    ts = nt
                                for q in ts:
                                    for its2, ex2, s4 in run(gi + 1, q, its):
                                        nxt.append((its2, ex and ex2, s4))
                                for q in fs:
                                    nxt.append((its, ex, q))
                        cur = nxt[:200]
                    out += cur
                else:
                    # generic element; the whole result is unknown afterwards
                    for x, s2 in self.fresh_elem(itv, s1, n):
                        for s3 in self.bind(g.target, x, s2, n):
                            ts = [s3]
                            for c in g.ifs:
                                nt = []
                                for q in ts:
                                    t, f = self.cond(c, q)
                                    nt += t
                                ts = nt
                            got = []
                            for q in ts:
                                got += run(gi + 1, q, items)
                            for its2, ex2, s4 in got[:8]:
                                out.append((items + [T('*', (T('map', (self.content(itv, s4), its2[-1] if its2 and isinstance(its2[-1], T) else NONE)),))], False, s4))
                            if not got:
                                out.append((items, True, s3))
            return out
        out = []
        for items, exact, s in run(0, st, []):
            s = s.unset([x for x in names if st.get(x) is None])
            for x in names:
                if st.get(x) is not None:
                    s = s.set(x, st.get(x))
            if kind == 'dict':
                if exact and all(isinstance(x, tuple) for x in items):
                    out.append(self.alloc(s, n, Obj('dict', None, {}, tuple(dict(items).items()))))
                else:
                    v, s = self.fresh(s, self.site(s, n, 'comp'), 'dict')
                    out.append(self.alloc(s, n, Obj('dict', None, {'$c': v}, None)))
            else:
                out.append(self.alloc(s, n, Obj('list' if kind != 'set' else 'set', None, {}, tuple(items))))
        return self.dedupe_pairs(out)

    def dedupe_pairs(self, out):
        seen = set()
        r = []
        for v, s in out:
            k = (v, s.key())
            if k not in seen:
                seen.add(k)
                r.append((v, s))
        return r

    def take_items(self, t, st):
        return self.known_items(t, st), st

    def known_items(self, t, st):
        """elements of an iterable when all are known"""
        if t.op in ('tuple', 'clist'):
            return list(t.args)
        if t.op == 'cdict':
            return [k for k, v in t.args]
        if t.op == 'const' and isinstance(cval(t), str):
            return [const(c) for c in cval(t)] if len(cval(t)) <= self.cfg.known else None
        if t.op == 'ref' and t.args in st.heap:
            o = st.heap[t.args]
            if o.items is not None and o.kind in ('list', 'set', 'bytearray') and not any(x.op == '*' for x in o.items):
                return list(o.items)
            if o.items is not None and o.kind == 'dict':
                return [k for k, v in o.items]
            return None
        if t.op == 'call':
            nm, a = t.args[0], t.args[1:]
            if nm == 'range' and all(x.op == 'const' and isinstance(cval(x), int) for x in a) and a:
                r = range(*[cval(x) for x in a])
                return [const(i) for i in r] if len(r) <= self.cfg.known else None
            if nm == 'enumerate':
                xs = self.known_items(a[0], st)
                base = cval(a[1]) if len(a) > 1 and a[1].op == 'const' else 0
                return [tup([const(i + base), x]) for i, x in enumerate(xs)] if xs is not None else None
            if nm in ('list', 'iter', 'sorted', 'tuple'):
                if nm == 'sorted':
                    xs = self.known_items(a[0], st) if len(a) == 1 else None
                    if xs is None or not all(x.op == 'const' for x in xs):
                        return None
                    try:
                        return [const(y) for y in sorted(cval(x) for x in xs)]
                    except TypeError:
                        return None
                return self.known_items(a[0], st) if a else []
            if nm == 'reversed':
                xs = self.known_items(a[0], st)
                return xs[::-1] if xs is not None else None
            if nm == 'zip':
                ys = [self.known_items(x, st) for x in a]
                return [tup(z) for z in zip(*ys)] if all(y is not None for y in ys) else None
        if t.op == 'm':
            nm, b = t.args[0], t.args[1]
            if b.op == 'cdict':
                if nm == 'items':
                    return [tup(kv) for kv in b.args]
                if nm == 'keys':
                    return [k for k, v in b.args]
                if nm == 'values':
                    return [v for k, v in b.args]
            if b.op == 'ref' and b.args in st.heap and st.heap[b.args].kind == 'dict' and st.heap[b.args].items is not None:
                it = st.heap[b.args].items
                return [tup(kv) for kv in it] if nm == 'items' else [k for k, v in it] if nm == 'keys' else [v for k, v in it] if nm == 'values' else None
        return None

    def fresh_elem(self, t, st, node):
        """a generic element of an unknown iterable -> [(value, st)]"""
        nm = self.site(st, node, 'elem')
        if t.op == 'call' and t.args[0] == 'enumerate':
            i, st = self.fresh(st, nm + 'i', 'int')
            st = st.set('$e', i)
            out = []
            for v, s in self.fresh_elem(t.args[1], st, node):
                out.append((tup([s.get('$e'), v]), s.unset(['$e'])))
            return out
        if t.op == 'call' and t.args[0] == 'zip':
            vs = []
            for k, x in enumerate(t.args[1:]):
                v, st = self.fresh(st, nm + 'z%d' % k, self.elem_typ(x, st))
                vs.append(v)
            return [(tup(vs), st)]
        if t.op == 'call' and t.args[0] in ('reversed', 'sorted', 'list', 'iter', 'tuple', 'set') and len(t.args) > 1:
            return self.fresh_elem(t.args[1], st, node)
        if t.op == 'call' and t.args[0] == 'map' and len(t.args) == 3:
            out = []
            for v, s in self.fresh_elem(t.args[2], st, node):
                out += self.call_value(t.args[1], [v], {}, s, node)
            return out
        if t.op == 'call' and t.args[0] == 'range':
            i, st = self.fresh(st, nm, 'int')
            a = t.args[1:]
            lo = const(0) if len(a) == 1 else a[0]
            hi = a[0] if len(a) == 1 else a[1]
            step = a[2] if len(a) > 2 else const(1)
            if step.op == 'const' and isinstance(cval(step), int) and cval(step) > 0:
                st = st.with_fact(T('lt', (i, lo)), False)
                st = st.with_fact(T('lt', (i, hi)), True)
            return [(i, st)]
        if t.op == 'm' and t.args[0] == 'items':
            k, st = self.fresh(st, nm + 'k')
            v, st = self.fresh(st, nm + 'v', self.elem_typ(t.args[1], st))
            st = st.with_fact(T('in', (k, self.content(t.args[1], st))), True)
            return [(tup([k, v]), st)]
        if t.op == 'm' and t.args[0] == 'values':
            v, st = self.fresh(st, nm, self.elem_typ(t.args[1], st))
            st = st.with_fact(T('valof', (v, self.content(t.args[1], st))), True)
            return [(v, st)]
        ek = self.elem_typ(t, st)
        if self.typ(t, st) in ('dict',) or (t.op == 'm' and t.args[0] == 'keys'):
            ek = None
        v, st = self.fresh(st, nm, ek)
        st = st.with_fact(T('in', (v, self.content(t, st))), True)
        return [(v, st)]
