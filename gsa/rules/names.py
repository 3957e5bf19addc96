"""Names, attributes, calls and format strings of the package fit each other (T03)."""

import ast
import builtins
import importlib
import string
import sys

from ..common import World
from ..project import Func, Class, dotted, live_branch

TECH = 'name resolution, attribute and signature checks over the whole syntax tree'
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def live(n):
    """the children of a node that can run on this platform"""
    if isinstance(n, (ast.If, ast.IfExp)):
        b = live_branch(n.test)
        if b is not None:
            body = n.body if b else n.orelse
            return [n.test] + (body if isinstance(body, list) else [body])
    return list(ast.iter_child_nodes(n))


def walk(n):
    todo = [n]
    while todo:
        x = todo.pop()
        yield x
        todo += live(x)


def bound(body):
    """names stored in a scope (not in functions and classes within it)"""
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            todo += n.decorator_list
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name.split('.')[0]) for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        todo += list(ast.iter_child_nodes(n))
    return out


def params(a):
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}


def catches(h, *names):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any((dotted(t) or '').split('.')[-1] in names + ('Exception', 'BaseException') for t in ts)


class Checker(object):
    def __init__(self, rep, w):
        self.rep, self.w, self.p = rep, w, w.p
        self.stored = set()         # attributes that something gives to some object
        self.asked = set()          # attributes whose presence is asked for
        for m in self.p.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hasattr', 'getattr', 'setattr', 'delattr') and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.asked.add(n.args[1].value)
                    elif n.func.id == 'setattr':
                        self.asked.add('*')
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    self.asked.add('*')
        self.subs = {}
        for m in self.p.modules.values():
            for c in m.classes.values():
                for b in self.p.mro(c):
                    if isinstance(b, Class):
                        self.subs.setdefault(b.qual, []).append(c)

    def bad(self, key, n, msg):
        self.rep.bad('T03', '%s: %s' % (self.mod.name, key), '%s:%d' % (self.mod.relpath, n.lineno), msg)

    # ------------------------------------------------------------------ scopes
    def module(self, m):
        self.mod = m
        self.globals = bound(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, FUNCS[:2]):
                gl = {x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names}
                self.globals |= gl & bound(n.body)
        self.open = False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                self.open = True
        self.cls = None
        self.fn = None
        self.scopes = []
        self.guard = []
        self.block(m.tree.body)

    def block(self, xs):
        for x in xs:
            self.node(x)

    def node(self, n):
        if isinstance(n, ast.Try) or type(n).__name__ == 'TryStar':
            self.guard.append(n.handlers)
            self.block(n.body)
            self.guard.pop()
            self.block(n.handlers + n.orelse + n.finalbody)
            return
        if isinstance(n, FUNCS):
            a = n.args
            self.block(getattr(n, 'decorator_list', []) + a.defaults + [x for x in a.kw_defaults if x])
            body = n.body if isinstance(n.body, list) else [n.body]
            gl = {x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names}
            old = self.fn, self.scopes, self.guard
            self.scopes = self.scopes + [(bound(body) | params(a)) - gl]
            self.guard = list(self.guard) if isinstance(n, ast.Lambda) else []
            if isinstance(n, ast.Lambda) or old[0] is not None:
                self.fn = old[0]
            else:
                self.fn = n
            self.block(body)
            self.fn, self.scopes, self.guard = old
            return
        if isinstance(n, ast.ClassDef):
            self.block(n.decorator_list + n.bases + [k.value for k in n.keywords])
            old = self.cls, self.fn, self.scopes
            if not self.scopes:
                self.cls = self.mod.classes.get(n.name)
                if self.cls is not None and self.cls.node is not n:
                    self.cls = None
            else:
                self.cls = None
            own = bound(n.body)
            for x in n.body:        # (the names of the class are seen by its body only)
                if isinstance(x, FUNCS):
                    self.scopes_default = own
                    self.fn = None
                    self.scopes = old[2]
                    self.node_def(x, own)
                else:
                    self.scopes = old[2] + [own]
                    self.node(x)
            self.cls, self.fn, self.scopes = old
            return
        if isinstance(n, COMPS):
            names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            old = self.scopes
            self.scopes = self.scopes + [names]
            self.block(list(ast.iter_child_nodes(n)))
            self.scopes = old
            return
        if isinstance(n, ast.Name):
            self.name(n)
            return
        if isinstance(n, ast.Attribute):
            self.attribute(n)
        elif isinstance(n, ast.Call):
            self.call(n)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
            self.percent(n)
        elif isinstance(n, ast.Raise):
            self.raised(n)
        elif isinstance(n, ast.ImportFrom):
            self.imported(n)
        elif isinstance(n, ast.Assign):
            self.unpacked(n)
        self.block(live(n))

    def node_def(self, n, own):
        a = n.args
        old = self.scopes
        self.scopes = old + [own]
        self.block(getattr(n, 'decorator_list', []) + a.defaults + [x for x in a.kw_defaults if x])
        self.scopes = old
        gl = {x for g in ast.walk(n) if isinstance(g, ast.Global) for x in g.names}
        guard = self.guard
        self.scopes = old + [(bound(n.body) | params(a)) - gl]
        self.fn, self.guard = n, []
        self.block(n.body)
        self.scopes, self.fn, self.guard = old, None, guard

    def guarded(self, *excs):
        return any(catches(h, *excs) for hs in self.guard for h in hs)

    def where(self):
        return '%s%s' % (self.cls.name + '.' if self.cls else '', self.fn.name if self.fn else '<module>')

    # ------------------------------------------------------------------ names
    def local(self, name):
        return any(name in s for s in self.scopes)

    def name(self, n):
        if not isinstance(n.ctx, ast.Load) or self.local(n.id) or n.id in self.globals:
            return
        if hasattr(builtins, n.id) or n.id in ('__file__', '__name__', '__doc__', '__path__', '__package__', '__class__', '__module__', '__qualname__', '__spec__'):
            return
        if self.open or self.guarded('NameError'):
            return
        self.bad('%s in %s' % (n.id, self.where()), n, 'the name %s is not defined' % n.id)

    def imported(self, n):
        into = {}
        self.p._imp(self.mod, n, into)
        for a in n.names:
            path = into.get(a.asname or a.name)
            if a.name == '*' or path is None or '.' not in path or self.guarded('ImportError'):
                continue
            base = path.rsplit('.', 1)[0]
            if base in self.p.modules:
                m = self.p.modules[base]
                self.rep.ob('T03 imports', path)
                if path not in self.p.modules and a.name not in bound(m.tree.body) and not any(isinstance(x, ast.ImportFrom) and any(y.name == '*' for y in x.names) for x in ast.walk(m.tree)) and '__getattr__' not in m.funcs:
                    self.bad('import ' + path, n, '%s does not define %s' % (base, a.name))
            elif base.split('.')[0] in sys.stdlib_module_names:
                k = stdlib(base)
                if k is not None:
                    self.rep.ob('T03 imports', path)
                    if not hasattr(k, a.name) and stdlib(path) is None:
                        self.bad('import ' + path, n, 'Python 3 has no %s' % path)

    # ------------------------------------------------------------------ attributes
    def is_self(self, n):
        return isinstance(n, ast.Name) and self.cls is not None and self.fn is not None and self.fn.args.args and n.id == self.fn.args.args[0].arg and \
            not any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in self.fn.decorator_list) and n.id not in bound(self.fn.body)

    def closed(self, c):
        """every class the objects of c are made of is known"""
        ks = [k for x in self.subs.get(c.qual, [c]) for k in self.p.mro(x)]
        return all(isinstance(k, Class) and not any(g in k.methods for g in ('__getattr__', '__getattribute__')) or k in ('object', 'builtins.object') for k in ks) and \
            all(b in (None, 'object') or isinstance(self.base(k, b), Class) for k in ks if isinstance(k, Class) for b in k.bases) and not any(k.node.keywords for k in ks if isinstance(k, Class))

    def base(self, k, b):
        if '.' in b:
            h, t = b.split('.', 1)
            r = self.p.resolve(k.mod, h)
            return self.p.resolve_dotted(r[1] + '.' + t) if isinstance(r, tuple) and r[0] in ('mod', 'ext') else None
        return self.p.resolve(k.mod, b)

    def has(self, c, name):
        for x in self.subs.get(c.qual, [c]):
            for k in self.p.mro(x):
                if isinstance(k, Class) and (name in k.methods or name in k.getters or name in k.setters or name in k.attrs or name in bound(k.node.body)):
                    return True
        return False

    def attribute(self, n):
        if not isinstance(n.ctx, ast.Load) or n.attr.startswith('__') and n.attr.endswith('__'):
            return
        if self.is_self(n.value):
            if not self.closed(self.cls):
                return
            a = n.attr
            self.rep.ob('T03 attributes', '%s.%s' % (self.cls.name, a))
            if self.has(self.cls, a) or a in self.stored or a in self.asked or '*' in self.asked or self.guarded('AttributeError'):
                return
            self.bad('self.%s in %s' % (a, self.where()), n, '%s objects have no attribute %s' % (self.cls.name, a))
            return
        d = dotted(n)
        if d is None or self.local(d.split('.')[0]) or d.split('.')[0] not in self.mod.imports or self.guarded('AttributeError'):
            return
        path = self.mod.imports[d.split('.')[0]] + '.' + d.split('.', 1)[1]
        base, a = path.rsplit('.', 1)
        if base in self.p.modules:
            m = self.p.modules[base]
            self.rep.ob('T03 attributes', path)
            if path not in self.p.modules and a not in bound(m.tree.body) and a not in self.stored and '__getattr__' not in m.funcs and not any(isinstance(x, ast.ImportFrom) and any(y.name == '*' for y in x.names) for x in ast.walk(m.tree)):
                self.bad('%s in %s' % (path, self.where()), n, '%s does not define %s' % (base, a))
        elif base.split('.')[0] in sys.stdlib_module_names and a not in self.asked:
            k = stdlib(base)
            if k is not None:
                self.rep.ob('T03 attributes', path)
                if not hasattr(k, a) and stdlib(path) is None:
                    self.bad('%s in %s' % (path, self.where()), n, 'Python 3 has no %s' % path)
        else:
            r = self.p.resolve_dotted(base)
            if isinstance(r, Class) and self.closed(r):
                self.rep.ob('T03 attributes', path)
                if not self.has(r, a) and a not in self.stored and a not in self.asked:
                    self.bad('%s in %s' % (path, self.where()), n, '%s has no attribute %s' % (base, a))

    # ------------------------------------------------------------------ calls
    def callee(self, f):
        """-> (Func or Class, number of arguments given by the object)"""
        if isinstance(f, ast.Name):
            if self.local(f.id):
                return None
            r = self.p.resolve(self.mod, f.id)
            return (r, 0) if isinstance(r, (Func, Class)) else None
        if not isinstance(f, ast.Attribute):
            return None
        if self.is_self(f.value):
            return self.method(self.cls, f.attr, self.p.mro(self.cls), True)
        v = f.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and self.cls is not None:
            c = self.cls
            if v.args:
                if not isinstance(v.args[0], ast.Name):
                    return None
                c = self.p.resolve(self.mod, v.args[0].id)
                if not isinstance(c, Class):
                    return None
            return self.method(c, f.attr, self.p.mro(c)[1:], True)
        d = dotted(f)
        if d is None or self.local(d.split('.')[0]):
            return None
        head, rest = d.split('.', 1)
        if head in self.mod.imports:
            r = self.p.resolve_dotted(self.mod.imports[head] + '.' + rest)
            if isinstance(r, (Func, Class)):
                return r, 0
        r = self.p.resolve(self.mod, head)
        if isinstance(r, Class) and '.' not in rest:
            return self.method(r, rest, self.p.mro(r), False)
        return None

    def method(self, c, name, mro, by_object):
        if name in self.stored:
            return None
        for k in mro:
            if not isinstance(k, Class):
                return None
            if name in k.attrs or name in k.getters:
                return None
            f = k.methods.get(name)
            if f is not None:
                if f.is_static:
                    return f, 0
                return f, 1 if by_object or f.is_classmethod else 0
            if name in bound(k.node.body):
                return None
        return None

    def call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str):
            self.format(n, f.value.value)
            return
        r = self.callee(f)
        if r is None:
            return
        g, given = r
        what = g.name
        if isinstance(g, Class):
            g2 = None
            for k in self.p.mro(g):
                if not isinstance(k, Class):
                    if k in ('object', 'builtins.object'):
                        continue
                    return
                if '__new__' in k.methods or k.node.decorator_list or k.node.keywords:
                    return
                if '__init__' in k.methods:
                    g2 = k.methods['__init__']
                    break
                if any(b not in (None, 'object') and not isinstance(self.base(k, b), Class) for b in k.bases):
                    return
            if g2 is None:
                if (n.args or n.keywords) and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
                    self.bad('%s() in %s' % (what, self.where()), n, '%s() takes no arguments' % what)
                return
            g, given = g2, 1
        if [d for d in g.decorators if d not in ('staticmethod', 'classmethod')] or isinstance(g.node, ast.Lambda):
            return
        self.rep.ob('T03 calls', '%s calls %s' % (self.where(), g.qual))
        a = g.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(pos) < given and not a.vararg:
            return
        pos_free = pos[given:]
        star = any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords)
        kws = [k.arg for k in n.keywords if k.arg]
        names = set(pos_free) - {x.arg for x in a.posonlyargs} | {x.arg for x in a.kwonlyargs}
        why = None
        count = len([x for x in n.args if not isinstance(x, ast.Starred)])
        if not a.vararg and count > len(pos_free):
            why = 'takes at most %d arguments (%d given)' % (len(pos_free), count)
        for k in kws:
            if k not in names and not a.kwarg:
                why = 'has no parameter %s' % k
            elif not any(isinstance(x, ast.Starred) for x in n.args) and k in pos_free[:count]:
                why = 'gets %s twice' % k
        if not star and why is None:
            need = pos_free[:len(pos_free) - len(a.defaults)] if len(a.defaults) <= len(pos_free) else []
            miss = [x for i, x in enumerate(need) if i >= count and x not in kws] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in kws]
            if miss:
                why = 'needs %s' % miss[0]
        if why and not self.guarded('TypeError'):
            self.bad('%s() in %s' % (what, self.where()), n, '%s %s' % (g.qual, why))

    # ------------------------------------------------------------------ format strings
    def format(self, n, text):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        names = {k.arg for k in n.keywords}
        auto = 0
        self.rep.ob('T03 formats', '%s:%d' % (self.mod.relpath, n.lineno))
        try:
            todo = list(string.Formatter().parse(text))
            for _, field, spec, conv in todo:
                if field is None:
                    continue
                for _, f2, _, _ in string.Formatter().parse(spec or ''):
                    if f2 is not None:
                        todo.append(('', f2, '', None))
                head = field.replace('[', '.').split('.')[0]
                if head == '':
                    head = str(auto)
                    auto += 1
                if head.isdigit():
                    if int(head) >= len(n.args):
                        self.bad('format in ' + self.where(), n, 'the format string %r needs %d arguments (%d given)' % (text[:40], int(head) + 1, len(n.args)))
                        return
                elif head not in names:
                    self.bad('format in ' + self.where(), n, 'the format string %r needs %s' % (text[:40], head))
                    return
        except ValueError:
            self.bad('format in ' + self.where(), n, 'the format string %r is not well formed' % text[:40])

    def percent(self, n):
        if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            return
        import re
        fs = [x for x in re.findall(r'%(?:%|(\(\w*\))?[#0\-+ ]*(\*|\d*)(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z]))', n.left.value) if x[2]]
        if any(x[0] or x[1] == '*' for x in fs):
            return
        self.rep.ob('T03 formats', '%s:%d' % (self.mod.relpath, n.lineno))
        if isinstance(n.right, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in n.right.elts):
            k = len(n.right.elts)
        elif isinstance(n.right, (ast.Constant, ast.JoinedStr)):
            k = 1
        else:
            return
        if k != len(fs):
            self.bad('format in ' + self.where(), n, 'the format string %r needs %d arguments (%d given)' % (n.left.value[:40], len(fs), k))

    # ------------------------------------------------------------------ others
    def raised(self, n):
        e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
        if isinstance(e, ast.Constant) or isinstance(e, ast.Name) and e.id == 'NotImplemented':
            self.bad('raise in ' + self.where(), n, 'what is raised is no exception')
        elif isinstance(e, ast.Name) and not self.local(e.id):
            r = self.p.resolve(self.mod, e.id)
            if isinstance(r, Class) and all(isinstance(k, Class) or k in ('object', 'builtins.object') for k in self.p.mro(r)) and all(b in (None, 'object') or isinstance(self.base(k, b), Class) for k in self.p.mro(r) if isinstance(k, Class) for b in k.bases):
                self.bad('raise in ' + self.where(), n, '%s is no exception' % e.id)
            elif isinstance(r, Func) and not isinstance(n.exc, ast.Call):
                self.bad('raise in ' + self.where(), n, '%s is no exception' % e.id)

    def unpacked(self, n):
        if len(n.targets) != 1 or not isinstance(n.targets[0], (ast.Tuple, ast.List)) or any(isinstance(x, ast.Starred) for x in n.targets[0].elts) or not isinstance(n.value, ast.Call):
            return
        r = self.callee(n.value.func)
        if r is None or not isinstance(r[0], Func) or r[0].is_gen or r[0].decorators and r[0].decorators not in (['staticmethod'], ['classmethod']):
            return
        from ..project import own_nodes
        rets = [x.value for x in own_nodes(r[0].node) if isinstance(x, ast.Return)]
        if not rets:
            if not any(isinstance(x, ast.Raise) for x in own_nodes(r[0].node)):
                self.bad('unpacking in ' + self.where(), n, '%s returns nothing' % r[0].qual)
            return
        k = len(n.targets[0].elts)
        self.rep.ob('T03 calls', '%s unpacks %s' % (self.where(), r[0].qual))
        if all(isinstance(v, ast.Tuple) and not any(isinstance(x, ast.Starred) for x in v.elts) and len(v.elts) != k for v in rets):
            self.bad('unpacking in ' + self.where(), n, '%s returns %d values, not %d' % (r[0].qual, len(rets[0].elts), k))


_std = {}


def stdlib(name):
    """a module of the standard library of the interpreter (nothing of the repository is loaded)"""
    if name not in _std:
        _std[name] = None
        if name.split('.')[0] in sys.stdlib_module_names and name.split('.')[0] not in ('antigravity', 'this', 'idlelib', 'turtle', 'turtledemo', '__main__'):
            try:
                path = sys.path
                _std[name] = importlib.import_module(name)
            except Exception:
                pass
    return _std[name]


def check_T03(rep, root, tier):
    """names, attributes, calls and formats"""
    w = World(root)
    c = Checker(rep, w)
    for name, m in sorted(w.p.modules.items()):
        rep.ob('T03 modules', name)
        c.module(m)
    rep.functions |= {f.qual for f in w.p.funcs.values()}


RULES = {'T03': (check_T03, 'other', TECH)}
