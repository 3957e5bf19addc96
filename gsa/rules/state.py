"""Shared state: effect analysis of writes to class-level data, module-level data and default argument values."""

import ast

from ..common import World
from ..project import own_nodes, dotted, Class, Func

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem', 'appendleft', 'extendleft', 'popleft',
            'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__'}
MAKERS = {'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque', 'bytearray', 'Counter', 'WeakValueDictionary', 'WeakKeyDictionary', 'WeakSet'}
PARTS = {'get', 'setdefault', 'values', 'items', '__getitem__'}


def mutable(e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        return (dotted(e.func) or '').split('.')[-1] in MAKERS
    if isinstance(e, ast.Tuple):
        return any(mutable(x) for x in e.elts)
    return False


class Effects(object):
    """roots: ('class', qual, attr), ('module', modname, var), ('default', func, param), ('param', func, index)"""

    def __init__(self, p):
        self.p = p
        self.module_vars = {}
        for m in p.modules.values():
            self.module_vars[m.name] = self.toplevel(m.tree.body)
        self.fields = {}        # (class qual, field) -> roots it may be
        self.mutated = {}       # function qual -> parameter indices it mutates
        self.hits = {}
        self.instance_set = {}  # class qual -> fields assigned on self in methods
        for f in p.funcs.values():
            if f.cls is None or not f.params:
                continue
            for n in own_nodes(f.node):
                for t in targets(n):
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.params[0] and not f.is_classmethod:
                        self.instance_set.setdefault(f.cls.qual, {}).setdefault(t.attr, set()).add(f.name)
        for _ in range(6):
            before = (repr(sorted(self.fields.items())), repr(sorted(self.mutated.items())))
            self.hits = {}
            for f in list(p.funcs.values()):
                self.scan(f)
            if before == (repr(sorted(self.fields.items())), repr(sorted(self.mutated.items()))):
                break

    def toplevel(self, body):
        out = {}
        for n in body:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        out.setdefault(t.id, []).append(n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                out.setdefault(n.target.id, []).append(n.value)
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for part in ('body', 'orelse', 'finalbody'):
                    for k, v in self.toplevel(getattr(n, part, []) or []).items():
                        out.setdefault(k, []).extend(v)
                for h in getattr(n, 'handlers', []) or []:
                    for k, v in self.toplevel(h.body).items():
                        out.setdefault(k, []).extend(v)
        return out

    def class_attr(self, c, name):
        for k in self.p.mro(c):
            if isinstance(k, Class) and name in k.attrs:
                return k
        return None

    def own_field(self, c, name):
        """the constructor gives every object its own value"""
        for k in self.p.mro(c):
            if isinstance(k, Class) and '__init__' in self.instance_set.get(k.qual, {}).get(name, ()):
                return True
        return False

    def sub(self, c):
        return [c]

    def roots(self, f, e, env):
        """shared objects the expression may denote"""
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.locals_of(f):
                return set()
            g = f
            while g is not None and getattr(g, 'parent', None) is not None:
                g = g.parent
                if isinstance(g, Func) and e.id in self.locals_of(g):
                    return set()
            r = self.p.resolve(f.mod, e.id)
            mv = self.module_vars.get(f.mod.name, {})
            if e.id in mv:
                return {('module', f.mod.name, e.id)} if any(mutable(x) for x in mv[e.id]) else set()
            home = self.imported(f.mod, e.id)
            if home:
                return {('module',) + home} if any(mutable(x) for x in self.module_vars[home[0]][home[1]]) else set()
            return set()
        if isinstance(e, ast.Attribute):
            c = self.class_of(f, e.value)
            if c is not None:
                k = self.class_attr(c, e.attr)
                if k is not None and mutable(k.attrs[e.attr]):
                    return {('class', k.qual, e.attr)}
                return set()
            if self.is_self(f, e.value):
                out = set()
                for k in self.p.mro(f.cls):
                    if isinstance(k, Class):
                        out |= self.fields.get((k.qual, e.attr), set())
                k = self.class_attr(f.cls, e.attr)
                if k is not None and mutable(k.attrs[e.attr]) and not self.own_field(f.cls, e.attr):
                    out = out | {('class', k.qual, e.attr)}
                return out
            d = dotted(e)
            if d:
                r = self.p.resolve(f.mod, d.split('.')[0])
                if isinstance(r, tuple) and r[0] == 'mod' and len(d.split('.')) == 2 and e.attr in self.module_vars.get(r[1], {}):
                    return {('module', r[1], e.attr)} if any(mutable(x) for x in self.module_vars[r[1]][e.attr]) else set()
            return set()
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set()
            return {x if x[-1] == 'part' else x + ('part',) for x in self.roots(f, e.value, env)}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in PARTS:
            return {x if x[-1] == 'part' else x + ('part',) for x in self.roots(f, e.func.value, env)}
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.roots(f, x, env) for x in e.values])
        if isinstance(e, ast.IfExp):
            return self.roots(f, e.body, env) | self.roots(f, e.orelse, env)
        if isinstance(e, ast.NamedExpr):
            return self.roots(f, e.value, env)
        return set()

    def imported(self, mod, name):
        r = self.p.resolve(mod, name)
        if isinstance(r, tuple) and r[0] == 'assign' and r[3] in self.module_vars.get(r[1].name, {}):
            return (r[1].name, r[3])
        return None

    def locals_of(self, f):
        if not hasattr(f, '_locals'):
            ls, gl = set(f.params), set()
            a = f.node.args
            for x in a.args + a.kwonlyargs + getattr(a, 'posonlyargs', []) + [y for y in (a.vararg, a.kwarg) if y]:
                ls.add(x.arg)
            for n in own_nodes(f.node):
                if isinstance(n, ast.Global):
                    gl |= set(n.names)
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    ls.add(n.id)
                if isinstance(n, ast.ExceptHandler) and n.name:
                    ls.add(n.name)
            f._locals, f._globals = ls - gl, gl
        return f._locals

    def is_self(self, f, e):
        g = f
        while g is not None:
            if g.cls is not None and g.params and isinstance(e, ast.Name) and e.id == g.params[0] and not g.is_static and not g.is_classmethod:
                return True
            g = getattr(g, 'parent', None)
            g = g if isinstance(g, Func) else None
        return False

    def class_of(self, f, e):
        """the class an expression names"""
        if isinstance(e, ast.Name):
            if f.is_classmethod and f.params and e.id == f.params[0]:
                return f.cls
            if e.id in self.locals_of(f):
                return None
            r = self.p.resolve(f.mod, e.id)
            return r if isinstance(r, Class) else None
        if isinstance(e, ast.Attribute) and e.attr == '__class__' and self.is_self(f, e.value):
            return f.cls
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1 and self.is_self(f, e.args[0]):
            return f.cls
        d = dotted(e) if isinstance(e, ast.Attribute) else None
        if d and len(d.split('.')) == 2:
            r = self.p.resolve(f.mod, d.split('.')[0])
            if isinstance(r, tuple) and r[0] in ('mod', 'ext'):
                x = self.p.resolve_dotted(r[1] + '.' + e.attr)
                return x if isinstance(x, Class) else None
        return None

    def hit(self, f, roots, node, what):
        for r in roots:
            r0 = r[:-1] if r[-1] == 'part' else r
            if r0[0] == 'param':
                if r0[1] == f.qual:
                    self.mutated.setdefault(f.qual, set()).add(r0[2])
                continue
            self.hits.setdefault((r0, f.qual), (f, node, what))

    def scan(self, f):
        self.locals_of(f)
        env = {}
        a = f.node.args
        ps = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        for i, x in enumerate(ps):
            env[x] = {('param', f.qual, i)}
        for x, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if mutable(d):
                env[x] = env.get(x, set()) | {('default', f.qual, x)}
        nodes = list(own_nodes(f.node))
        for _ in range(3):
            for n in nodes:
                if isinstance(n, ast.Assign):
                    r = self.roots(f, n.value, env)
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in f._globals and r:
                            env[t.id] = env.get(t.id, set()) | r
                        elif isinstance(t, ast.Attribute) and self.is_self(f, t.value):
                            keep = {x for x in r if x[0] != 'param' and x[-1] != 'part'}
                            if keep:
                                k = (f.cls.qual if f.cls is not None else '', t.attr)
                                self.fields[k] = self.fields.get(k, set()) | keep
                elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                    r = {x if x[-1] == 'part' else x + ('part',) for x in self.roots(f, n.iter, env)}
                    if r:
                        env[n.target.id] = env.get(n.target.id, set()) | r
                elif isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    r = self.roots(f, n.value, env)
                    if r:
                        env[n.target.id] = env.get(n.target.id, set()) | r
        for n in nodes:
            for t in targets(n):
                if isinstance(t, ast.Name) and t.id in f._globals:
                    self.hits.setdefault((('module', f.mod.name, t.id), f.qual), (f, n, 'assigned'))
                elif isinstance(t, ast.Attribute):
                    c = self.class_of(f, t.value)
                    if c is not None:
                        k = self.class_attr(c, t.attr) or c
                        self.hits.setdefault((('class', k.qual, t.attr), f.qual), (f, n, 'assigned'))
                        continue
                    d = dotted(t)
                    r = self.p.resolve(f.mod, d.split('.')[0]) if d and d.split('.')[0] not in self.locals_of(f) else None
                    if isinstance(r, tuple) and r[0] == 'mod' and len(d.split('.')) == 2:
                        self.hits.setdefault((('module', r[1], t.attr), f.qual), (f, n, 'assigned'))
                elif isinstance(t, ast.Subscript):
                    self.hit(f, self.roots(f, t.value, env), n, 'changed')
            if isinstance(n, ast.AugAssign) and not isinstance(n.target, ast.Subscript) and isinstance(n.value, (ast.List, ast.ListComp, ast.Set, ast.Dict)):
                self.hit(f, self.roots(f, n.target, env), n, 'extended')
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    self.hit(f, self.roots(f, n.func.value, env), n, 'changed (%s)' % n.func.attr)
                if isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args:
                    c = self.class_of(f, n.args[0])
                    if c is not None:
                        nm = n.args[1].value if len(n.args) > 1 and isinstance(n.args[1], ast.Constant) else '?'
                        self.hits.setdefault((('class', c.qual, nm), f.qual), (f, n, 'assigned'))
                for g, off in self.callees(f, n.func):
                    m = self.mutated.get(g.qual, ())
                    gp = [x.arg for x in getattr(g.node.args, 'posonlyargs', []) + g.node.args.args]
                    for i, x in enumerate(n.args):
                        if not isinstance(x, ast.Starred) and i + off in m:
                            self.hit(f, self.roots(f, x, env), n, 'changed by %s()' % g.name)
                    for k in n.keywords:
                        if k.arg in gp and gp.index(k.arg) in m:
                            self.hit(f, self.roots(f, k.value, env), n, 'changed by %s()' % g.name)

    def callees(self, f, e):
        if isinstance(e, ast.Name):
            r = self.p.resolve(f.mod, e.id)
            if isinstance(r, Func):
                return [(r, 0)]
            if isinstance(r, Class):
                g = self.p.lookup(r, '__init__')[0]
                return [(g, 1)] if g is not None else []
        elif isinstance(e, ast.Attribute) and self.is_self(f, e.value) and f.cls is not None:
            g = self.p.lookup(f.cls, e.attr)[0]
            if g is not None:
                return [(g, 0 if g.is_static else 1)]
        return []


def targets(n):
    if isinstance(n, ast.Assign):
        ts = list(n.targets)
    elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
        ts = [n.target]
    elif isinstance(n, ast.Delete):
        ts = list(n.targets)
    elif isinstance(n, ast.For):
        ts = [n.target]
    else:
        return []
    out = []
    while ts:
        t = ts.pop()
        if isinstance(t, (ast.Tuple, ast.List)):
            ts = ts + list(t.elts)
        else:
            out.append(t)
    return out


KIND = {'class': 'the class-level', 'module': 'the module-level', 'default': 'the default argument value'}


def check_G01(rep, root, tier):
    w = World(root)
    e = Effects(w.p)
    for f in w.p.funcs.values():
        rep.functions.add(f.qual)
        rep.ob('G01', f.qual)
    for (r, q), (f, n, what) in sorted(e.hits.items(), key=lambda x: str(x[0])):
        owner = r[1].split('.')[-1]
        rep.bad('G01', '%s.%s' % (owner, r[2]) if r[0] != 'default' else 'default of %s in %s' % (r[2], f.qual.split('.', 1)[-1]),
                '%s:%d' % (f.mod.relpath, n.lineno), '%s %s %s is %s at run time: every other object in the process sees it' % (KIND[r[0]], owner, r[2], what))


RULES = {
    'G01': (check_G01, 'other', 'effect analysis: aliases of class-level, module-level and default-argument objects followed through names, fields and calls; every write to one of them is a violation'),
}
