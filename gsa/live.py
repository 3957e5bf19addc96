"""Backward live-variable analysis of one function (structured, over the syntax tree)."""

import ast

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


class Live(object):
    """out[id(stmt)]: names live after a statement; head[id(stmt)]: names live before its body is chosen/entered"""

    def __init__(self, fn):
        self.out = {}
        self.head = {}
        self.always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, SCOPES):
                self.always |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                pass
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                self.always |= set(x.names)
        self.loops = []
        self.handlers = [frozenset()]
        self.fin = [frozenset()]
        self.block(fn.body, frozenset())

    def uses(self, n):
        if n is None:
            return set()
        return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}

    def defs(self, t):
        """names certainly bound by an assignment target"""
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            return set().union(*[self.defs(e) for e in t.elts]) if t.elts else set()
        if isinstance(t, ast.Starred):
            return self.defs(t.value)
        return set()

    def block(self, stmts, out):
        for s in reversed(stmts):
            out = self.stmt(s, out)
        return out

    def stmt(self, s, out):
        extra = self.handlers[-1]
        out = frozenset(out) | extra
        self.out[id(s)] = self.out.get(id(s), frozenset()) | out
        if isinstance(s, (ast.Return,)):
            return frozenset(self.uses(s)) | self.fin[-1] | extra
        if isinstance(s, ast.Raise):
            return frozenset(self.uses(s)) | self.fin[-1] | extra
        if isinstance(s, ast.Break):
            r = (self.loops[-1][0] if self.loops else frozenset()) | self.fin[-1] | extra
            self.out[id(s)] |= r
            return r
        if isinstance(s, ast.Continue):
            r = (self.loops[-1][1] if self.loops else frozenset()) | self.fin[-1] | extra
            self.out[id(s)] |= r
            return r
        if isinstance(s, ast.If):
            a = self.block(s.body, out)
            b = self.block(s.orelse, out)
            self.head[id(s)] = self.head.get(id(s), frozenset()) | a | b
            return a | b | self.uses(s.test) | extra
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out) | out
            isfor = not isinstance(s, ast.While)
            test = frozenset() if isfor else frozenset(self.uses(s.test))
            head = after | test
            for _ in range(3):
                self.loops.append((out, head))
                b = self.block(s.body, head)
                self.loops.pop()
                if isfor:
                    b = (b - self.defs(s.target)) | self.uses(s.target)
                n = head | b | test
                if n == head:
                    break
                head = n
            self.head[id(s)] = self.head.get(id(s), frozenset()) | head
            return head | (self.uses(s.iter) if isfor else set()) | extra
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, out)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    b = b - self.defs(it.optional_vars) | self.uses(it.optional_vars)
                b = b | self.uses(it.context_expr)
            self.head[id(s)] = self.head.get(id(s), frozenset()) | b
            return b | extra
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            fin = self.block(s.finalbody, out) if s.finalbody else frozenset(out)
            f = frozenset(fin) if s.finalbody else frozenset()
            # within handlers and the body, the final block may run at any point
            self.handlers.append(extra | f)
            self.fin.append(self.fin[-1] | f)
            hs = frozenset()
            for h in s.handlers:
                b = self.block(h.body, fin)
                if h.name:
                    b = b - {h.name}
                hs |= b | self.uses(h.type)
            els = self.block(s.orelse, fin)
            self.handlers.append(extra | f | hs)
            self.fin.append(self.fin[-1])
            body = self.block(s.body, els)
            self.handlers.pop()
            self.handlers.pop()
            self.fin.pop()
            self.fin.pop()
            return body | hs | f | extra
        if isinstance(s, ast.Assign):
            d = set().union(*[self.defs(t) for t in s.targets])
            u = self.uses(s.value).union(*[self.uses(t) for t in s.targets])
            return (out - d) | u | extra
        if isinstance(s, ast.AugAssign):
            return out | self.uses(s.value) | self.uses(s.target) | self.defs(s.target)
        if isinstance(s, ast.AnnAssign):
            return (out - (self.defs(s.target) if s.value is not None else set())) | self.uses(s.value) | self.uses(s.target) | extra
        if isinstance(s, SCOPES):
            return out | set().union(*[self.uses(d) for d in s.decorator_list])
        return out | self.uses(s)
