"""Languages of regular expressions: NFA construction from the parsed pattern, equality and inclusion by subset construction.

Only line languages are considered (no line breaks), so '$' means the end of the string."""

import re
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                     # pragma: no cover
    import sre_parse as sp
    import sre_constants as sc


class Unsupported(Exception):
    pass


class NFA(object):
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.chars = {}
        self.asserts = {}

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)


CATS = {
    'CATEGORY_DIGIT': lambda c: c.isdigit(), 'CATEGORY_NOT_DIGIT': lambda c: not c.isdigit(),
    'CATEGORY_SPACE': lambda c: c.isspace(), 'CATEGORY_NOT_SPACE': lambda c: not c.isspace(),
    'CATEGORY_WORD': lambda c: c.isalnum() or c == '_', 'CATEGORY_NOT_WORD': lambda c: not (c.isalnum() or c == '_'),
}


def charset(items, flags):
    neg = False
    preds = []
    for op, av in items:
        o = str(op)
        if o == 'NEGATE':
            neg = True
        elif o == 'LITERAL':
            preds.append(lambda c, k=chr(av): c == k)
        elif o == 'RANGE':
            preds.append(lambda c, a=av[0], b=av[1]: a <= ord(c) <= b)
        elif o == 'CATEGORY':
            preds.append(CATS[str(av)])
        else:
            raise Unsupported(o)

    def p(c):
        r = any(q(c) for q in preds)
        return r != neg
    return p


def fold(p, flags):
    if flags & re.IGNORECASE:
        return lambda c: p(c.lower()) or p(c.upper()) or p(c)
    return p


def build(pattern, flags=0, subst=None):
    subst = subst or {}
    tree = sp.parse(pattern, flags)
    flags = tree.state.flags
    a = NFA()

    def seq(items, s):
        for op, av in items:
            s = one(str(op), av, s)
        return s

    def one(o, av, s):
        if o == 'LITERAL':
            t = a.new()
            a.chars.setdefault(s, []).append((fold(lambda c, k=chr(av): c == k, flags), t))
            return t
        if o == 'NOT_LITERAL':
            t = a.new()
            a.chars.setdefault(s, []).append((fold(lambda c, k=chr(av): c != k, flags), t))
            return t
        if o == 'ANY':
            t = a.new()
            a.chars.setdefault(s, []).append((lambda c: c != '\n', t))
            return t
        if o == 'IN':
            t = a.new()
            a.chars.setdefault(s, []).append((fold(charset(av, flags), flags), t))
            return t
        if o == 'BRANCH':
            t = a.new()
            for alt in av[1]:
                u = a.new()
                a.e(s, u)
                a.e(seq(alt, u), t)
            return t
        if o == 'SUBPATTERN':
            if av[0] in subst:
                return seq(sp.parse(subst[av[0]], 0), s)
            return seq(av[3], s)
        if o in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
            lo, hi, sub = av
            for _ in range(lo):
                s = seq(sub, s)
            if hi == sc.MAXREPEAT:
                u = a.new()
                a.e(s, u)
                v = seq(sub, u)
                a.e(v, u)
                t = a.new()
                a.e(u, t)
                return t
            t = a.new()
            a.e(s, t)
            for _ in range(hi - lo):
                s = seq(sub, s)
                a.e(s, t)
            return t
        if o == 'AT':
            k = str(av)
            t = a.new()
            if k in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                a.asserts.setdefault(s, []).append(('^', t))
            elif k in ('AT_END', 'AT_END_STRING'):
                a.asserts.setdefault(s, []).append(('$', t))
            else:
                raise Unsupported(k)
            return t
        raise Unsupported(o)
    s = a.new()
    f = seq(tree, s)
    alpha = chars_of(pattern, flags)
    for v in subst.values():
        alpha |= chars_of(v, 0)
    return a, s, f, alpha


def chars_of(pattern, flags):
    out = set()

    def go(items):
        for op, av in items:
            o = str(op)
            if o in ('LITERAL', 'NOT_LITERAL'):
                for c in (av - 1, av, av + 1):
                    if 0 <= c < 0x110000:
                        out.add(chr(c))
            elif o == 'IN':
                go([x for x in av if str(x[0]) != 'RANGE' and str(x[0]) != 'CATEGORY' and str(x[0]) != 'NEGATE'])
                for x in av:
                    if str(x[0]) == 'RANGE':
                        for c in (x[1][0] - 1, x[1][0], x[1][1], x[1][1] + 1):
                            if 0 <= c < 0x110000:
                                out.add(chr(c))
            elif o == 'BRANCH':
                for alt in av[1]:
                    go(alt)
            elif o == 'SUBPATTERN':
                go(av[3])
            elif 'REPEAT' in o:
                go(av[2])
    go(sp.parse(pattern, flags))
    return out


class Lang(object):
    """set of lines x with  re.<how>(pattern, x) successful"""
    def __init__(self, pattern, flags=0, how='match', subst=None):
        self.a, self.s, self.f, self.alpha = build(pattern, flags, subst)
        self.how = how

    def start(self):
        return self.close({(self.s, False)}, True)

    def close(self, st, at0):
        st = set(st)
        work = list(st)
        while work:
            q, ended = work.pop()
            nxt = [(r, ended) for r in self.a.eps.get(q, ())]
            for k, r in self.a.asserts.get(q, ()):
                if k == '^' and at0:
                    nxt.append((r, ended))
                elif k == '$':
                    nxt.append((r, True))
            for x in nxt:
                if x not in st:
                    st.add(x)
                    work.append(x)
        return frozenset(st)

    def step(self, st, c):
        nxt = set()
        for q, ended in st:
            if ended:
                continue
            for p, r in self.a.chars.get(q, ()):
                if p(c):
                    nxt.add((r, False))
        if self.how in ('match', 'search') and any(q == self.f and not e for q, e in st):
            nxt.add((self.f, False))
        if self.how == 'search':
            nxt.add((self.s, False))
        return self.close(nxt, False)

    def acc(self, st):
        if self.how == 'fullmatch':
            return any(q == self.f for q, e in st)
        return any(q == self.f for q, e in st)


class Const(object):
    """a finite set of strings, optionally as prefixes"""
    def __init__(self, words, prefix=False):
        self.words, self.prefix = tuple(words), prefix
        self.alpha = set(''.join(words))

    def start(self):
        return frozenset((w, 0) for w in self.words)

    def step(self, st, c):
        out = set()
        for w, i in st:
            if i == len(w):
                if self.prefix:
                    out.add((w, i))
            elif w[i] == c:
                out.add((w, i + 1))
        return frozenset(out)

    def acc(self, st):
        return any(i == len(w) for w, i in st)


class Comb(object):
    def __init__(self, op, *ls):
        self.op, self.ls = op, ls
        self.alpha = set().union(*[l.alpha for l in ls]) if ls else set()

    def start(self):
        return tuple(l.start() for l in self.ls)

    def step(self, st, c):
        return tuple(l.step(s, c) for l, s in zip(self.ls, st))

    def acc(self, st):
        v = [l.acc(s) for l, s in zip(self.ls, st)]
        return {'or': any, 'and': all}[self.op](v) if self.op != 'not' else not v[0]


BASE = set('aZ059 \t_!,":+-^é')


def differ(x, y, limit=20000):
    """a shortest string in exactly one of the two languages: (string, in x) or None"""
    alpha = sorted((x.alpha | y.alpha | BASE) - {'\n', '\r'})
    s = (x.start(), y.start())
    seen = {s}
    work = [(s, '')]
    while work:
        nxt = []
        for (a, b), w in work:
            if x.acc(a) != y.acc(b):
                return w, x.acc(a)
            for c in alpha:
                t = (x.step(a, c), y.step(b, c))
                if t not in seen:
                    seen.add(t)
                    if len(seen) > limit:
                        raise Unsupported('too many states')
                    nxt.append((t, w + c))
        work = nxt
    return None


def included(x, y):
    """a string of x that is not in y, or None"""
    d = differ(Comb('and', x, y), x)
    return d[0] if d else None
