"""Hash-consed value terms of the abstract interpreter.

A term describes where a value comes from (constants, parameters, results of
calls, fields, arithmetic on those).  Terms are never solved; they are compared
structurally after a light normalisation.
"""


class T(object):
    __slots__ = ('op', 'args', 'h', 'd', '_lv', '_sb', '_rp')
    _pool = {}

    def __new__(cls, op, args):
        key = (op, args)
        t = cls._pool.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.h = hash(key)
            d = 0
            for a in args:
                if isinstance(a, T):
                    d = max(d, a.d)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, T):
                            d = max(d, b.d)
            t.d = d + 1
            t._lv = t._sb = t._rp = None
            cls._pool[key] = t
        return t

    def __reduce__(self):
        return T, (self.op, self.args)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return repr(self) < repr(o)

    def __repr__(self):
        r = self._rp
        if r is None:
            r = self._rp = show(self)
        return r

    @property
    def leaves(self):
        """symbols and references occurring in the term"""
        r = self._lv
        if r is None:
            if self.op in ('sym', 'ref'):
                r = frozenset((self,))
            else:
                r = frozenset()
                for a in self.args:
                    if isinstance(a, T):
                        r = r | a.leaves if r else a.leaves
                    elif isinstance(a, tuple):
                        for b in a:
                            if isinstance(b, T):
                                r = r | b.leaves if r else b.leaves
            self._lv = r
        return r

    @property
    def subs(self):
        """all sub-terms"""
        r = self._sb
        if r is None:
            r = self._sb = frozenset(walk(self))
        return r


def const(v):
    if isinstance(v, (list, dict, set, bytearray)):
        raise TypeError('mutable constant')
    return T('const', (_K(v),))


class _K(object):
    """type-exact wrapper for constants (True != 1 != 1.0)"""
    __slots__ = ('v', 'k')

    def __init__(self, v):
        self.v = v
        self.k = (type(v).__name__, repr(v))

    def __hash__(self):
        return hash(self.k)

    def __eq__(self, o):
        return isinstance(o, _K) and self.k == o.k

    def __repr__(self):
        return repr(self.v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0].v


def is_k(t, v):
    """t is exactly the constant v (type-exact)"""
    return t.op == 'const' and t.args[0] == _K(v)


def tup(items):
    return T('tuple', tuple(items))


def sym(name, typ=None, gen=0):
    return T('sym', (name, typ, gen))


def walk(t):
    """all sub-terms"""
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        stack.append(b)


def subst(t, f, memo):
    """rebuild t bottom-up applying f to leaves (f returns None to keep)"""
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, T):
                b = subst(a, f, memo)
                ch = ch or b is not a
                na.append(b)
            elif isinstance(a, tuple) and any(isinstance(x, T) for x in a):
                b = tuple(subst(x, f, memo) if isinstance(x, T) else x for x in a)
                ch = ch or any(p is not q for p, q in zip(a, b))
                na.append(b)
            else:
                na.append(a)
        r = T(t.op, tuple(na)) if ch else t
    memo[t] = r
    return r


def show(t):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.args
    if op == 'const':
        return repr(a[0])
    if op == 'sym':
        return '%s%s' % (a[0], "'" * a[2])
    if op == 'ref':
        return '&%s%s' % (a[0], "'" * a[1])
    if op == 'str':
        return 'S(' + '+'.join(show(x) for x in a) + ')'
    if op == 'attr':
        return '%s.%s' % (show(a[0]), a[1])
    if op == 'bin':
        return '(%s %s %s)' % (show(a[1]), a[0], show(a[2]))
    if op == 'item':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'm':
        return '%s.%s(%s)' % (show(a[1]), a[0], ', '.join(show(x) for x in a[2:]))
    if op == 'call':
        return '%s(%s)' % (a[0], ', '.join(show(x) for x in a[1:]))
    return '%s(%s)' % (op, ', '.join(show(x) for x in a))
