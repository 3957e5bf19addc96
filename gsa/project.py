"""Source model of the analysed repository: modules, classes, functions, names."""

import ast
import os


class Anchor(Exception):
    """something every rule of a property hangs on is not in the source any more"""


class Func(object):
    def __init__(self, mod, cls, name, node, parent=None):
        self.mod, self.cls, self.name, self.node, self.parent = mod, cls, name, node, parent
        self.decorators = [dotted(d.func if isinstance(d, ast.Call) else d) for d in getattr(node, 'decorator_list', [])]
        self.qual = '%s%s%s' % (mod.name + '.', (cls.name + '.') if cls else '', name)
        if parent is not None:
            self.qual = parent.qual + '.<locals>.' + name
        self.is_static = 'staticmethod' in self.decorators
        self.is_classmethod = 'classmethod' in self.decorators or (name == '__new__')
        self.is_property = 'property' in self.decorators
        self.is_ctx = any(d and d.split('.')[-1] == 'contextmanager' for d in self.decorators)
        self.is_gen = not isinstance(node, ast.Lambda) and _has_yield(node)
        self.nested = {}

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def loc(self):
        return '%s:%d' % (self.mod.relpath, self.node.lineno)

    def __repr__(self):
        return '<Func %s>' % self.qual


KNOWN = {}


def class_known(qual):
    return KNOWN[qual]


class Class(object):
    def __init__(self, mod, name, node):
        self.mod, self.name, self.node = mod, name, node
        self.methods = {}
        self.getters = {}
        self.setters = {}
        self.attrs = {}        # class level name -> value expression
        self.bases = [dotted(b) for b in node.bases]
        self.qual = '%s.%s' % (mod.name, name)
        KNOWN[self.qual] = self

    def __reduce__(self):
        return class_known, (self.qual,)       # between the processes of one check

    def __repr__(self):
        return '<Class %s>' % self.qual


class Module(object):
    def __init__(self, name, relpath, tree, src):
        self.name, self.relpath, self.tree, self.src = name, relpath, tree, src
        self.funcs = {}
        self.classes = {}
        self.imports = {}      # local name -> dotted path
        self.assigns = {}      # name -> value expression (last live one)
        self.lines = src.split('\n')


def _has_yield(node):
    for n in _own_nodes(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


_own = {}


def _own_nodes(fn):
    """nodes of a function without those of nested functions/classes"""
    r = _own.get(id(fn))
    if r is None or r[0] is not fn:
        r = _own[id(fn)] = (fn, list(_own_nodes0(fn)))
    return r[1]


def _own_nodes0(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


own_nodes = _own_nodes


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return b + '.' + n.attr if b else None
    return None


def live_branch(test):
    """branch selected on Python 3 for version/platform tests; None if not such a test"""
    try:
        s = ast.unparse(test)
    except Exception:
        return None
    names = {n.id for n in ast.walk(test) if isinstance(n, ast.Name)}
    if not (names & {'PYTHON_VERSION', 'sys', 'os'}) or not names <= {'PYTHON_VERSION', 'sys', 'os'}:
        return None
    if any(isinstance(n, ast.Call) for n in ast.walk(test)):
        return None
    import types
    fake_sys = types.SimpleNamespace(version_info=(3, 12, 3), platform='linux', maxsize=2 ** 63 - 1)
    fake_os = types.SimpleNamespace(name='posix')
    # constant folding of a closed comparison on literals
    try:
        return bool(_fold_test(test, {'PYTHON_VERSION': 3, 'sys': fake_sys, 'os': fake_os}))
    except Exception:
        return None


def _fold_test(n, env):
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        return env[n.id]
    if isinstance(n, ast.Attribute):
        return getattr(_fold_test(n.value, env), n.attr)
    if isinstance(n, ast.Subscript):
        return _fold_test(n.value, env)[_fold_test(n.slice, env)]
    if isinstance(n, ast.Tuple):
        return tuple(_fold_test(e, env) for e in n.elts)
    if isinstance(n, ast.BoolOp):
        vals = [_fold_test(v, env) for v in n.values]
        return all(vals) if isinstance(n.op, ast.And) else any(vals)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        return not _fold_test(n.operand, env)
    if isinstance(n, ast.Compare):
        l = _fold_test(n.left, env)
        for op, r in zip(n.ops, n.comparators):
            r = _fold_test(r, env)
            ok = {'Eq': lambda: l == r, 'NotEq': lambda: l != r, 'Lt': lambda: l < r, 'LtE': lambda: l <= r,
                  'Gt': lambda: l > r, 'GtE': lambda: l >= r}[type(op).__name__]()
            if not ok:
                return False
            l = r
        return True
    raise ValueError(n)


class Project(object):
    PACKAGES = (('gsmmodem', 'gsmmodem'), ('tools', ''), ('tools/gsmtermlib', 'gsmtermlib'))

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.errors = []
        for sub, pkg in self.PACKAGES:
            d = os.path.join(root, sub)
            if not os.path.isdir(d):
                continue
            for f in sorted(os.listdir(d)):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(src, p)
                stem = f[:-3]
                name = pkg if stem == '__init__' else (pkg + '.' + stem if pkg else stem)
                m = Module(name, os.path.relpath(p, root), tree, src)
                self.modules[name] = m
                self._scan(m, tree.body)
        self.funcs = {}
        for m in self.modules.values():
            for f in m.funcs.values():
                self._reg(f)
            for c in m.classes.values():
                for d in (c.methods, c.getters, c.setters):
                    for f in d.values():
                        self._reg(f)
        self._mro = {}
        self._local_imports()

    def _local_imports(self):
        for f in list(self.funcs.values()):
            for n in own_nodes(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imp(f.mod, n, f.mod.imports)

    def _reg(self, f):
        self.funcs[f.qual] = f
        if f in ():
            return
        for n in own_nodes(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Func(f.mod, f.cls, n.name, n, parent=f)
                f.nested[n.name] = g
                self._reg(g)

    def _imp(self, m, n, into):
        if isinstance(n, ast.Import):
            for a in n.names:
                into[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        else:
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                if not m.relpath.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                into[a.asname or a.name] = base + '.' + a.name if base else a.name

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self._imp(m, n, m.imports)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.funcs[n.name] = Func(m, None, n.name, n)
            elif isinstance(n, ast.ClassDef):
                m.classes[n.name] = self._class(m, n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.assigns[n.target.id] = n.value
            elif isinstance(n, ast.If):
                lb = live_branch(n.test)
                if lb is None:
                    self._scan(m, n.body)
                    self._scan(m, n.orelse)
                else:
                    self._scan(m, n.body if lb else n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(m, n.body)
                self._scan(m, n.orelse)
                self._scan(m, n.finalbody)

    def _class(self, m, n):
        c = Class(m, n.name, n)
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, c, s.name, s)
                decs = f.decorators
                if 'property' in decs or any(d and d.endswith('.getter') for d in decs):
                    c.getters[s.name] = f
                elif any(d and d.endswith('.setter') for d in decs):
                    c.setters[s.name] = f
                    f.qual += '.setter'
                elif any(d and d.endswith('.deleter') for d in decs):
                    pass
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
                # x = property(f, g)
                v = s.value
                if isinstance(v, ast.Call) and dotted(v.func) == 'property':
                    for t in s.targets:
                        if not isinstance(t, ast.Name):
                            continue
                        a = [dotted(x) for x in v.args] + [None, None]
                        for k in v.keywords:
                            if k.arg == 'fget':
                                a[0] = dotted(k.value)
                            elif k.arg == 'fset':
                                a[1] = dotted(k.value)
                        if a[0] in c.methods:
                            c.getters[t.id] = c.methods[a[0]]
                        if a[1] in c.methods:
                            c.setters[t.id] = c.methods[a[1]]
                        c.attrs.pop(t.id, None)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                c.attrs[s.target.id] = s.value
        return c

    # -- lookup ---------------------------------------------------------
    def resolve(self, m, name, seen=None):
        """what a global name of module m denotes: Func, Class, ('assign', mod, expr), ('mod', name), ('ext', dotted), None"""
        if name in m.funcs:
            return m.funcs[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.assigns:
            return ('assign', m, m.assigns[name], name)
        if name in m.imports:
            return self.resolve_dotted(m.imports[name], seen)
        return None

    def resolve_dotted(self, path, seen=None):
        seen = seen or set()
        if path in seen:
            return ('ext', path)
        seen = seen | {path}
        if path in self.modules:
            return ('mod', path)
        if '.' in path:
            b, n = path.rsplit('.', 1)
            if b in self.modules:
                r = self.resolve(self.modules[b], n, seen)
                if r is not None:
                    return r
        return ('ext', path)

    def mro(self, c):
        if c.qual in self._mro:
            return self._mro[c.qual]
        out = [c]
        self._mro[c.qual] = out
        for b in c.bases:
            if not b:
                continue
            if '.' in b:
                h, t = b.split('.', 1)
                r = self.resolve(c.mod, h)
                r = self.resolve_dotted((r[1] if isinstance(r, tuple) else h) + '.' + t) if isinstance(r, tuple) else None
            else:
                r = self.resolve(c.mod, b)
            if isinstance(r, Class):
                for k in self.mro(r):
                    if k not in out:
                        out.append(k)
            elif isinstance(r, tuple) and r[0] == 'ext':
                out.append(r[1])
            else:
                out.append(b)
        return out

    def lookup(self, c, name, kind='methods', after=None):
        for k in self._after(c, after):
            if isinstance(k, Class) and name in getattr(k, kind):
                return getattr(k, kind)[name], k
        return None, None

    def _after(self, c, after):
        ms = self.mro(c)
        if after is None:
            return ms
        return ms[ms.index(after) + 1:] if after in ms else ms

    def is_exc(self, c):
        return any((isinstance(k, str) and is_builtin_exc(k)) for k in self.mro(c))

    # -- anchors --------------------------------------------------------
    def cls(self, name, modname=None):
        for m in self.modules.values():
            if name in m.classes and (modname is None or m.name == modname):
                return m.classes[name]
        raise Anchor('class %s' % name)

    def method(self, cname, name):
        c = self.cls(cname)
        f, _ = self.lookup(c, name)
        if f is None:
            f, _ = self.lookup(c, name, 'getters')
        if f is None:
            raise Anchor('method %s.%s' % (cname, name))
        return f

    def func(self, modname, name):
        m = self.modules.get(modname)
        if m is None or name not in m.funcs:
            if m is not None and name in m.imports:
                r = self.resolve(m, name)
                if isinstance(r, Func):
                    return r
            raise Anchor('function %s.%s' % (modname, name))
        return m.funcs[name]


def is_builtin_exc(name):
    import builtins
    o = getattr(builtins, name.split('.')[-1], None)
    return isinstance(o, type) and issubclass(o, BaseException)
