"""Abstract domain for the PDU codec.

The values of a message (characters, digits, septets, octets) stay symbolic; what the analysis
follows is where every *bit* of an octet and every *character* of a text comes from:

  char:<class>   one character of a class (all that is known about it is the class)
  octet, septet  one 8-bit (7-bit) value of the input
  bits(...)      a number given by the origin of each of its bits
  hexc(...)      the character that shows four such bits
  td(...)        a timedelta by its seconds
"""

import ast
import datetime
import math

from . import engine as E
from .engine import Config, State, Obj, Exc
from .machine import Machine
from .terms import T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, subst

# ---------------------------------------------------------------- the standard
BASIC = ('@\u00a3$\u00a5\u00e8\u00e9\u00f9\u00ec\u00f2\u00c7\n\u00d8\u00f8\r\u00c5\u00e5\u0394_\u03a6\u0393\u039b\u03a9\u03a0\u03a8\u03a3\u0398\u039e\x1b\u00c6\u00e6\u00df\u00c9'
         ' !"#\u00a4%&\'()*+,-./0123456789:;<=>?\u00a1ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c4\u00d6\u00d1\u00dc\u00a7\u00bfabcdefghijklmnopqrstuvwxyz\u00e4\u00f6\u00f1\u00fc\u00e0')
EXTENSION = {'\x0c': 0x0A, '^': 0x14, '{': 0x28, '}': 0x29, '\\': 0x2F, '[': 0x3C, '~': 0x3D, ']': 0x3E, '|': 0x40, '\u20ac': 0x65}

FINITE = {'b': frozenset(BASIC) - {'\x1b'}, 'e': frozenset(EXTENSION), 'd': frozenset('0123456789'),
          'l': frozenset('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz')}
FINITE['o'] = frozenset(chr(i) for i in list(range(0x250)) + list(range(0x370, 0x530)) + list(range(0x2010, 0x2123))) - FINITE['b'] - FINITE['e']
FINITE['f'] = FINITE['b'] | FINITE['e']
RANGE = {'u': (0x3400, 0x9FFF), 's': (0x10000, 0x10FFFF), 'x': (0xD800, 0xDFFF)}
DIGITS = '0123456789'


def char(name, cls):
    return sym(name, 'char:' + cls)


def cclass(t):
    if t.op == 'sym' and isinstance(t.args[1], str) and t.args[1].startswith('char:'):
        return t.args[1][5:]
    return None


def classify(t, pred):
    """does pred hold for every (True), no (False) or some (None) member of a character's class"""
    c = cclass(t)
    if c in FINITE:
        rs = {bool(pred(x)) for x in FINITE[c]}
        return rs.pop() if len(rs) == 1 else None
    return None


def in_set(t, keys):
    """membership of a symbolic character in a set of strings"""
    c = cclass(t)
    if c in FINITE:
        n = len(FINITE[c] & keys)
        return True if n == len(FINITE[c]) else False if n == 0 else None
    if c in RANGE:
        lo, hi = RANGE[c]
        n = sum(1 for k in keys if isinstance(k, str) and len(k) == 1 and lo <= ord(k) <= hi)
        return False if n == 0 else None
    return None


class Codec(Machine):
    follow = False      # follow also uncertain exceptions that nothing catches

    # ------------------------------------------------------------ exceptions, facts
    def may(self, excname, st, node, **kw):
        """a certain exception is raised; an uncertain one leaves a mark on the path that takes it"""
        if kw.get('definite'):
            self.throw(Exc(excname, True, (), None), st, node)
            return
        if self.follow and not self.is_caught(Exc(excname, True, (), None)):
            self.throw_quiet(Exc(excname, True, (), None), st.with_fact(T('maybe', (excname, getattr(node, 'lineno', 0))), True))
            return
        Machine.may(self, excname, st.with_fact(T('maybe', (excname, getattr(node, 'lineno', 0))), True), node, **kw)

    GENERATIONS = 24

    def alloc(self, st, node, obj, tag=''):
        """objects made at one place are kept apart while they are in use"""
        name = self.site(st, node, tag or obj.kind)
        if (name, 0) in st.heap:
            used = lambda s: next((g for g in range(self.GENERATIONS) if (name, g) not in s.heap), None)
            free = used(st)
            if free is None or free > 2:
                st = Machine.gc(self, st) if free is None else st
                free = used(st)
            if free is None:
                st = st.degrade()
                free = self.GENERATIONS - 1

            def f(t):
                if t.op == 'ref' and t.args[0] == name and t.args[1] < free:
                    return T('ref', (name, t.args[1] + 1))
                return None
            st = self.rewrite(st, f, lambda t: False)
        else:
            st = st.copy()
        st.made = st.made | {name}
        obj.site = node
        oid = (name, 0)
        st = st.with_heap(oid, obj)
        return T('ref', oid), st

    def gc(self, st):
        """facts about the values of the message are kept; collected now and then only (long texts)"""
        n = len(st.heap) + len(st.facts) + max([len(o.items) for o in st.heap.values() if o.items is not None] or [0]) + max([len(v.args) for fr in st.frames for v in fr.env.values() if isinstance(v, T)] or [0])
        self.gcs = getattr(self, 'gcs', 0) + 1
        if n > 40 and self.gcs % (n // 2):
            return st
        s = Machine.gc(self, st)
        lost = [k for k in st.facts if k not in s.facts and (k.op == 'maybe' or all(x.op == 'sym' and domain(x) is not None for x in k.leaves))]
        if lost:
            s = s.copy() if s is st else s
            s.facts = dict(s.facts)
            for k in lost:
                s.facts[k] = st.facts[k]
        return s

    # ------------------------------------------------------------------ types
    def typ(self, t, st=None):
        if t.op == 'sym' and isinstance(t.args[1], str):
            k = t.args[1]
            if k.startswith('char:'):
                return 'str'
            if k in ('septet', 'gcode', 'xcode', 'uhigh'):
                return 'octet'
            if k in ('nat', 'period'):
                return 'int'
        if t.op in ('hexc', 'hexs'):
            return 'str'
        if t.op == 'td':
            return 'timedelta'
        if t.op == 'dt':
            return 'datetime'
        if t.op == 'tz':
            return 'tzinfo'
        return Machine.typ(self, t, st)

    def charset_vals(self, t):
        """values of a table lookup over a character class"""
        if t.op == 'm' and t.args[0] in ('find', 'index') and len(t.args) == 3 and t.args[1].op == 'const' and cclass(t.args[2]) in FINITE:
            s = cval(t.args[1])
            return [s.find(c) for c in FINITE[cclass(t.args[2])]] if isinstance(s, str) else None
        if t.op == 'item' and t.args[0].op == 'cdict' and cclass(t.args[1]) in FINITE:
            m = {cval(k): v for k, v in t.args[0].args if k.op == 'const'}
            vs = [m.get(c) for c in FINITE[cclass(t.args[1])]]
            if any(v is None or v.op != 'const' for v in vs):
                return None
            return [cval(v) for v in vs]
        if t.op == 'call' and t.args[0] == 'ord':
            x = t.args[1]
            if cclass(x) in FINITE:
                return [ord(c) for c in FINITE[cclass(x)]]
            vs = self.charset_vals(x)
            if vs and all(isinstance(v, str) and len(v) == 1 for v in vs):
                return [ord(v) for v in vs]
        return None

    def interval(self, t, st, depth=0):
        if depth > 8:
            return (None, None)
        if t.op in ('m', 'item', 'call'):
            vs = self.charset_vals(t)
            if vs and all(isinstance(v, int) for v in vs):
                return (min(vs), max(vs))
        if t.op == 'call' and t.args[0] == 'ord' and cclass(t.args[1]) in RANGE:
            return RANGE[cclass(t.args[1])]
        lo, hi = Machine.interval(self, t, st, depth)
        if t.op == 'sym' and t.args[1] in ('septet', 'gcode', 'xcode'):
            lo, hi = max(lo or 0, 0), min(127 if hi is None else hi, 127)
        if t.op == 'sym' and t.args[1] == 'nat':
            lo = max(lo or 0, 0)
        if t.op == 'sym' and t.args[1] == 'period':
            lo, hi = max(lo or 1, 1), min(relative(255) if hi is None else hi, relative(255))
        return (lo, hi)

    def truth(self, t, st):
        if t.op == 'td':
            return self.neg(self.eqt(t.args[0], const(0), st))
        if t.op in ('hexc', 'hexs', 'dt', 'tz') or cclass(t) or t.op == 'str' and self.chars(t):
            return TRUE
        return Machine.truth(self, t, st)

    def eqt(self, a, b, st=None):
        for x, c in ((a, b), (b, a)):
            if c.op == 'const' and isinstance(cval(c), str):
                if cclass(x) is not None:
                    r = in_set(x, frozenset([cval(c)]))
                    if r is False:
                        return FALSE
                if x.op == 'hexc':
                    v = cval(c)
                    if len(v) != 1 or v not in (HEXU if x.args[0] else HEXL):
                        return FALSE
                    return self.eqt(self.mkbits(x.args[1:]), const((HEXU if x.args[0] else HEXL).index(v)), st)
                xs = self.chars(x) if x.op == 'str' else None
                if xs is not None:
                    if len(xs) != len(cval(c)):
                        return FALSE
                    rs = [self.eqt(y, const(z), st) for y, z in zip(xs, cval(c))]
                    if any(r is FALSE for r in rs):
                        return FALSE
        if a.op == 'typeof' or b.op == 'typeof':
            r = self.typeq(a, b, st)
            if r is not None:
                return r
        if a.op == b.op == 'ext' and a.args[0].startswith(('builtins.', 'datetime.')) and b.args[0].startswith(('builtins.', 'datetime.')):
            return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op == 'td' and b.op == 'td':
            return self.eqt(a.args[0], b.args[0], st)
        return Machine.eqt(self, a, b, st)

    def typeq(self, a, b, st):
        if b.op == 'typeof':
            a, b = b, a
        x = a.args[0]
        n = {'td': 'datetime.timedelta', 'dt': 'datetime.datetime'}.get(x.op)
        if n and b.op == 'ext':
            return TRUE if b.args[0] == n else FALSE
        return None

    def decide(self, b, st):
        if b.op == 'isnone' and b.args[0].op in ('td', 'dt', 'tz', 'hexc', 'bits'):
            return False
        if b.op == 'isinst' and b.args[0].op in ('td', 'dt') and b.args[1].op == 'ext':
            n = {'td': 'datetime.timedelta', 'dt': 'datetime.datetime'}[b.args[0].op]
            return b.args[1].args[0] == n or n == 'datetime.datetime' and b.args[1].args[0] == 'datetime.date'
        if b.op == 'truthy' and b.args[0].op == 'm' and len(b.args[0].args) == 2:
            n, x = b.args[0].args
            xs = self.chars(x)
            if n in ('isdigit', 'isalnum', 'isalpha', 'isdecimal', 'isnumeric', 'isspace', 'isupper', 'islower') and xs is not None:
                if not xs:
                    return False
                rs = [getattr(cval(c), n)() if c.op == 'const' else classify(c, lambda q: getattr(q, n)()) for c in xs]
                if n in ('isupper', 'islower'):
                    return None
                if any(r is False for r in rs):
                    return False
                if all(r is True for r in rs):
                    return True
        if b.op == 'eq' and b.args[1].op == 'const' and isinstance(cval(b.args[1]), int):
            vs = self.charset_vals(b.args[0])
            if vs is not None:
                n = sum(1 for v in vs if v == cval(b.args[1]))
                if n == 0:
                    return False
                if n == len(vs):
                    return True
        r = Machine.decide(self, b, st)
        return self.by_value(b, st) if r is None else r

    def by_value(self, b, st):
        """a test on one value of the message, decided over all values it can have on this path"""
        lv = b.leaves
        if len(lv) != 1 or b.op not in ('eq', 'lt', 'in', 'truthy', 'not', 'isnone'):
            return None
        x = next(iter(lv))
        d = domain(x)
        if d is None:
            return None
        fs = frozenset((k, v) for k, v in st.facts.items() if x in k.leaves and len(k.leaves) == 1)
        key = (b, fs)
        if key in self._byval:
            return self._byval[key]
        seen = set()
        try:
            for v in d:
                env = {x: v}
                if all(truthval(k, env) == w for k, w in fs if k.op != 'maybe'):
                    seen.add(truthval(b, env))
                    if len(seen) > 1:
                        break
        except Unknown:
            seen = set()
        r = seen.pop() if len(seen) == 1 else None
        if cclass(x) in RANGE:
            r = None
        self._byval[key] = r
        return r

    @property
    def _byval(self):
        if not hasattr(self, '_bv'):
            self._bv = {}
        return self._bv

    def assume(self, b, val, st):
        r = Machine.assume(self, b, val, st)
        # a single undetermined bit is known after the test
        if b.op == 'eq' and b.args[0].op == 'bits' and b.args[1].op == 'const':
            unk = [x for x in b.args[0].args if x not in (0, 1)]
            if len(unk) == 1:
                v = cval(b.args[1])
                i = [k for k, x in enumerate(b.args[0].args) if x not in (0, 1)][0]
                bit = (v >> i) & 1
                if not val:
                    bit = 1 - bit
                r = [s.with_fact(T('bitis', (unk[0],)), bool(bit)) for s in r]
        return r

    # ----------------------------------------------------------------- strings
    def chars(self, t):
        """single-character terms of a string of known length, or None"""
        if t.op == 'const':
            return [const(c) for c in cval(t)] if isinstance(cval(t), str) else None
        if cclass(t) is not None or t.op == 'hexc' or t.op == 'call' and t.args[0] == 'chr':
            return [t]
        if t.op == 'hexs':
            return None
        if t.op == 'item' and t.args[0].op == 'const' and isinstance(cval(t.args[0]), str):
            return [t]
        if t.op == 'item' and t.args[0].op == 'cdict' and all(v.op == 'const' and isinstance(cval(v), str) and len(cval(v)) == 1 for k, v in t.args[0].args):
            return [t]
        if t.op in ('str', 'tostr'):
            out = []
            for a in t.args:
                x = self.chars(a)
                if x is None:
                    return None
                out += x
            return out
        return None

    def hexstr(self, v, upper, width, st):
        """text of a number in hexadecimal, at least width digits long"""
        if v.op == 'const':
            return const(format(cval(v), '0%d%s' % (width, 'X' if upper else 'x')))
        bs = self.tobits(v, st)
        if bs is None:
            return None
        n = (len(bs) + 3) // 4
        if n > max(width, 1):
            return T('hexs', (v, upper, width))
        bs = bs + [0] * (4 * max(width, 1) - len(bs))
        out = []
        for i in range(0, len(bs), 4):
            q = bs[i:i + 4]
            if all(x in (0, 1) for x in q):
                out.append(const(format(sum(x << k for k, x in enumerate(q)), 'X' if upper else 'x')))
            else:
                out.append(T('hexc', (bool(upper),) + tuple(q)))
        return self.mkstr(out[::-1])

    def known_items(self, t, st):
        if t.op in ('str', 'hexc') or cclass(t) is not None:
            xs = self.chars(t)
            if xs is not None:
                return xs
        if t.op == 'ref' and t.args in st.heap and st.heap[t.args].kind == 'iter':
            o = st.heap[t.args]
            xs = self.known_items(o.attrs['src'], st)
            if xs is not None and o.attrs['pos'].op == 'const':
                return None     # (consumed step by step: see st_For; a bulk consumer takes the rest)
        return Machine.known_items(self, t, st)

    def rest_items(self, t, st):
        """what is left in an iterator over a known sequence"""
        if t.op == 'ref' and t.args in st.heap and st.heap[t.args].kind == 'iter':
            o = st.heap[t.args]
            xs = self.known_items(o.attrs['src'], st)
            if xs is not None and o.attrs['pos'].op == 'const':
                return xs[cval(o.attrs['pos']):], st.with_heap(t.args, o.with_attr('pos', const(len(xs))))
        return None

    def take_items(self, t, st):
        return self.rest_items(t, st) or (self.known_items(t, st), st)

    def mklist(self, kind, src, st, node):
        r = self.rest_items(src, st)
        if r is not None:
            return self.alloc(r[1], node, Obj(kind, None, {}, tuple(r[0])))
        return Machine.mklist(self, kind, src, st, node)

    def m_list(self, recv, name, args, kwargs, st, node):
        if name == 'extend' and args:
            r = self.rest_items(args[0], st)
            if r is not None:
                v, st = self.alloc(r[1], node, Obj('list', None, {}, tuple(r[0])))
                args = [v]
        return Machine.m_list(self, recv, name, args, kwargs, st, node)

    def x_builtins_bytearray(self, args, kwargs, st, node):
        if args and args[0].op == 'ref':
            r = self.rest_items(args[0], st)
            if r is not None:
                return [self.alloc(r[1], node, Obj('bytearray', None, {}, tuple(r[0])))]
        if args and args[0].op == 'call' and args[0].args[0] in ('range', 'map'):
            xs = self.known_items(args[0], st)
            if xs is not None:
                return [self.alloc(st, node, Obj('bytearray', None, {}, tuple(xs)))]
        return Machine.x_builtins_bytearray(self, args, kwargs, st, node)

    def length(self, t, st):
        if t.op == 'str' or cclass(t) is not None or t.op == 'hexc':
            xs = self.chars(t)
            if xs is not None:
                return const(len(xs))
        return Machine.length(self, t, st)

    def slice(self, b, lo, hi, sp, st, node):
        if all(x.op == 'const' for x in (lo, hi, sp)):
            if b.op == 'hexs' and len(b.args) == 4 and is_k(lo, 2) and hi is NONE and sp is NONE:
                return (T('hexs', b.args[:3]), st)
            if b.op in ('str', 'hexc') or cclass(b) is not None:
                xs = self.chars(b)
                if xs is not None:
                    return (self.mkstr(xs[cval(lo):cval(hi):cval(sp)]), st)
            if b.op == 'call' and b.args[0] == 'range':
                xs = self.known_items(b, st)
                if xs is not None:
                    return (tup(xs[cval(lo):cval(hi):cval(sp)]), st)
        return Machine.slice(self, b, lo, hi, sp, st, node)

    def item(self, b, i, st, node):
        if i.op == 'const' and isinstance(cval(i), int) and b.op == 'ref' and b.args in st.heap and st.heap[b.args].kind in ('list', 'bytearray'):
            o = st.heap[b.args]
            if o.items is not None and not any(isinstance(x, tuple) or x.op == '*' for x in o.items) and not -len(o.items) <= cval(i) < len(o.items):
                self.may('IndexError', st, node, base=b, index=i, definite=True)
                return []
        if i.op == 'const' and (b.op in ('str', 'hexc') or cclass(b) is not None):
            xs = self.chars(b)
            if xs is not None:
                try:
                    return [(xs[cval(i)], st)]
                except IndexError:
                    self.may('IndexError', st, node, base=b, index=i, definite=True)
                    return []
        if b.op == 'cdict' and (cclass(i) is not None):
            r = in_set(i, frozenset(cval(k) for k, v in b.args if k.op == 'const'))
            if r is not True:
                self.may('KeyError', st, node, base=b, index=i, definite=r is False)
            return [(T('item', (b, i)), st)] if r is not False else []
        if b.op == 'cdict' and i.op != 'const':
            lo, hi = self.interval(i, st)
            ks = [cval(k) for k, v in b.args if k.op == 'const']
            if lo is not None and hi is not None and all(isinstance(k, int) for k in ks):
                hit = [k for k in range(lo, hi + 1) if k in ks] if hi - lo < 1024 else []
                ok = len(hit) == hi - lo + 1 or self.decided_keys(i, ks, lo, hi, st)
                if not ok:
                    self.may('KeyError', st, node, base=b, index=i, definite=not hit)
                if hit:
                    return [(T('item', (b, i)), st)]
                if not ok and hi - lo < 1024:
                    return []
        if b.op == 'const' and isinstance(cval(b), (str, bytes)) and i.op != 'const':
            lo, hi = self.interval(i, st)
            n = len(cval(b))
            if lo is None or hi is None or lo < -n or hi >= n:
                self.may('IndexError', st, node, base=b, index=i)
            return [(T('item', (b, i)), st)]
        return Machine.item(self, b, i, st, node)

    def decided_keys(self, i, ks, lo, hi, st):
        return hi - lo < 1024 and all(k in ks or self.decide(self.eqt(i, const(k), st), st) is False for k in range(lo, hi + 1))

    def membership(self, a, b, st):
        keys = None
        if b.op == 'cdict':
            keys = frozenset(cval(k) for k, v in b.args if k.op == 'const')
        elif b.op in ('tuple', 'clist') and all(x.op == 'const' for x in b.args):
            keys = frozenset(cval(x) for x in b.args)
        elif b.op == 'const' and isinstance(cval(b), str):
            keys = frozenset(cval(b))
        if keys is not None and cclass(a) is not None:
            r = in_set(a, keys)
            if r is not None:
                return TRUE if r else FALSE
            return T('in', (a, b))
        return Machine.membership(self, a, b, st)

    def m_dict(self, recv, name, args, kwargs, st, node):
        if name == 'get' and args and recv.op == 'cdict' and args[0].op != 'const':
            d = args[1] if len(args) > 1 else NONE
            if cclass(args[0]) is not None:
                r = in_set(args[0], frozenset(cval(k) for k, v in recv.args if k.op == 'const'))
                if r is True:
                    return [(T('item', (recv, args[0])), st)]
                if r is False:
                    return [(d, st)]
            elif self.interval(args[0], st)[0] is not None:
                lo, hi = self.interval(args[0], st)
                ks = [cval(k) for k, v in recv.args if k.op == 'const' and isinstance(cval(k), int)]
                if hi is not None and hi - lo < 1024 and self.decided_keys(args[0], ks, lo, hi, st):
                    return [(T('item', (recv, args[0])), st)]
        if name == 'update' and recv.op == 'ref' and st.heap[recv.args].items is not None and len(args) <= 1:
            o = st.heap[recv.args]
            its = []
            if args:
                q = st.heap.get(args[0].args) if args[0].op == 'ref' else None
                its = list(q.items) if q is not None and q.kind == 'dict' and q.items is not None else list(args[0].args) if args[0].op == 'cdict' else None
            if its is not None:
                its += [(const(k), v) for k, v in kwargs.items()]
                for k, v in its:
                    st = self.emit(st, 'setitem', node, base=recv, index=k, value=v)
                    if st is None:
                        return []
                if all(k.op == 'const' for k, v in list(o.items) + its):
                    new = dict(o.items)
                    new.update(its)
                    return [(NONE, st.with_heap(recv.args, o.with_items(tuple(new.items()))))]
        return Machine.m_dict(self, recv, name, args, kwargs, st, node)

    def m_str(self, recv, name, args, kwargs, st, node):
        if recv.op == 'hexs' and len(recv.args) == 3:
            v, up, w = recv.args
            if name == 'zfill' and args and args[0].op == 'const' or name == 'rjust' and len(args) == 2 and args[0].op == 'const' and is_k(args[1], '0'):
                return [(self.hexstr(v, up, max(w, cval(args[0])), st), st)]
            if name in ('upper', 'lower'):
                return [(T('hexs', (v, name == 'upper', w)), st)]
        if name in ('upper', 'lower', 'zfill', 'rjust', 'ljust', 'startswith', 'endswith', 'rstrip', 'lstrip', 'strip', 'replace') and recv.op in ('str', 'hexc') or cclass(recv) is not None:
            xs = self.chars(recv)
            if xs is not None:
                if name in ('upper', 'lower') and all(x.op in ('const', 'hexc') for x in xs):
                    return [(self.mkstr([const(getattr(cval(x), name)()) if x.op == 'const' else T('hexc', (name == 'upper',) + x.args[1:]) for x in xs]), st)]
                if name in ('zfill', 'rjust') and args and args[0].op == 'const':
                    f = '0' if name == 'zfill' else cval(args[1]) if len(args) > 1 and args[1].op == 'const' else ' '
                    return [(self.mkstr([const(f * max(cval(args[0]) - len(xs), 0))] + xs), st)]
                if name in ('startswith', 'endswith') and len(args) == 1 and args[0].op == 'const' and isinstance(cval(args[0]), str):
                    w = cval(args[0])
                    if len(w) > len(xs):
                        return [(FALSE, st)]
                    ys = xs[:len(w)] if name == 'startswith' else xs[len(xs) - len(w):]
                    bs = [self.eqt(y, const(z), st) for y, z in zip(ys, w)]
                    if any(b is FALSE for b in bs):
                        return [(FALSE, st)]
                    return [(self.conj([b for b in bs if b is not TRUE]), st)]
                if name in ('rstrip', 'lstrip', 'strip') and len(args) == 1 and args[0].op == 'const':
                    s0 = frozenset(cval(args[0]))
                    todo, done = [(list(xs), st)], []
                    for end in ([-1] if name == 'rstrip' else [0] if name == 'lstrip' else [0, -1]):
                        done = []
                        while todo is not None and todo:
                            ys, q = todo.pop()
                            while ys:
                                y = ys[end]
                                r = (cval(y) in s0) if y.op == 'const' else in_set(y, s0) if cclass(y) else None
                                if r is None:
                                    es = [self.eqt(y, const(c), q) for c in sorted(s0)]
                                    es = [e for e in es if e is not FALSE]
                                    if len(es) > 1:
                                        todo = done = None
                                        break
                                    for v, q2 in (self.branch(es[0], q) if es else [(False, q)]):
                                        if v:
                                            todo.append((ys[1:] if end == 0 else ys[:-1], q2))
                                        else:
                                            done.append((ys, q2))
                                    ys = None
                                    break
                                if not r:
                                    break
                                ys.pop(end)
                            if done is None:
                                break
                            if ys is not None:
                                done.append((ys, q))
                        todo = list(done) if done is not None else None
                        if todo is None:
                            break
                    if done is not None:
                        return [(self.mkstr(ys) if ys else const(''), q) for ys, q in done]
        if name in ('find', 'index') and recv.op == 'const' and len(args) == 1 and cclass(args[0]) is not None:
            r = in_set(args[0], frozenset(cval(recv)))
            if r is False:
                if name == 'find':
                    return [(const(-1), st)]
                self.may('ValueError', st, node, definite=True)
                return []
            if name == 'index' and r is None:
                self.may('ValueError', st, node)
            return [(T('m', (name, recv, args[0])), st)]
        if name == 'decode' and recv.op == 'm' and recv.args[0] == 'encode' and len(recv.args) >= 3 and args and recv.args[2] is args[0]:
            return [(T('recode', (recv.args[1],) + tuple(recv.args[2:])), st)]
        if name == 'encode':
            xs = self.chars(recv)
            e = cval(args[0]).lower().replace('_', '-') if args and args[0].op == 'const' and isinstance(cval(args[0]), str) else ''
            if not (len(args) > 1 and args[1].op == 'const') and not (e[:3] == 'utf' and xs is not None and all(x.op == 'const' or cclass(x) in ('b', 'e', 'o', 'd', 'l', 'f', 'u', 's') for x in xs)):
                self.may('UnicodeEncodeError', st, node)
            if e == 'utf-16-be' and xs is not None and recv.op != 'const' and all(x.op != 'const' and cclass(x) or x.op == 'const' and len(cval(x)) == 1 and ord(cval(x)) < 0x10000 for x in xs):
                return [self.utf16(xs, st, node)]
            if recv.op != 'const' or not all(a.op == 'const' for a in args):
                return [(T('m', ('encode', recv) + tuple(args)), st)]
        if name == 'join' and args:
            r = self.rest_items(args[0], st)
            if r is not None:
                args = [tup(r[0])]
                st = r[1]
        return Machine.m_str(self, recv, name, args, kwargs, st, node)

    # ------------------------------------------------------------ hexadecimal text
    def unhex(self, t, st, node):
        """octets written as hexadecimal text"""
        while t.op == 'm' and t.args[0] == 'encode' or t.op == 'call' and t.args[0] in ('bytes', 'bytearray') and len(t.args) > 1 and isinstance(t.args[1], T):
            t = t.args[1]
        if t.op == 'const' and isinstance(cval(t), bytes):
            try:
                t = const(cval(t).decode('ascii'))
            except UnicodeDecodeError:
                return None
        xs = self.chars(t)
        if xs is not None and any(cclass(x) in tuple('ousxe') for x in xs):
            self.may('ValueError', st, node, conv='hex', definite=True)
            return []
        if xs is None or any(x.op not in ('const', 'hexc') and cclass(x) != 'd' for x in xs):
            return None
        if len(xs) % 2 or any(x.op == 'const' and cval(x) not in '0123456789abcdefABCDEF' for x in xs):
            self.may('ValueError', st, node, conv='hex', definite=True)
            return []
        out = []
        for a, b in zip(xs[::2], xs[1::2]):
            bits = []
            for x in (b, a):
                bits += [(int(cval(x), 16) >> i) & 1 for i in range(4)] if x.op == 'const' else list(x.args[1:]) if x.op == 'hexc' else [T('bit', (x, i)) for i in range(4)]
            v = self.mkbits(bits)
            out.append(const(sum(q << i for i, q in enumerate(v.args))) if v.op == 'bits' and all(q in (0, 1) for q in v.args) else v)
        return [self.alloc(st, node, Obj('bytearray', None, {}, tuple(out)))]

    def hextext(self, t, st, upper=False):
        xs = self.known_items(t, st)
        ps = [self.hexstr(x, upper, 2, st) for x in xs] if xs is not None else [None]
        if any(p is None or p.op == 'hexs' for p in ps):
            return None
        return self.mkstr(ps) if ps else const('')

    def x_codecs_decode(self, args, kwargs, st, node):
        if len(args) > 1 and args[1].op == 'const' and cval(args[1]) in ('hex', 'hex_codec'):
            return self.unhex(args[0], st, node)

    def x_bytearray_fromhex(self, args, kwargs, st, node):
        return self.unhex(args[0], st, node)

    x_bytes_fromhex = x_builtins_bytearray_fromhex = x_builtins_bytes_fromhex = x_binascii_unhexlify = x_binascii_a2b_hex = x_bytearray_fromhex

    def x_codecs_encode(self, args, kwargs, st, node):
        if len(args) > 1 and args[1].op == 'const' and cval(args[1]) in ('hex', 'hex_codec'):
            return self.x_binascii_hexlify(args[:1], {}, st, node)

    def x_binascii_hexlify(self, args, kwargs, st, node):
        r = self.hextext(args[0], st)
        return [(T('m', ('encode', r, const('ascii'))), st)] if r is not None else None

    x_binascii_b2a_hex = x_binascii_hexlify

    def x_builtins_str(self, args, kwargs, st, node):
        if len(args) > 1 and args[0].op == 'm' and args[0].args[0] == 'encode':
            return [(args[0].args[1], st)]
        return Machine.x_builtins_str(self, args, kwargs, st, node)

    def x_builtins_bytes(self, args, kwargs, st, node):
        if len(args) == 2 and args[1].op == 'const' and self.chars(args[0]) is not None:
            return [(T('m', ('encode', args[0], args[1])), st)]
        if len(args) == 1 and args[0].op == 'ref' and self.known_items(args[0], st) is not None:
            return self.x_builtins_bytearray(args, kwargs, st, node)
        return Machine.x_builtins_bytes(self, args, kwargs, st, node)

    def conj(self, bs):
        if not bs:
            return TRUE
        return bs[0] if len(bs) == 1 else T('and', tuple(bs))

    def utf16(self, xs, st, node):
        out = []
        for x in xs:
            v = self.x_builtins_ord([x], {}, st, node)[0][0]
            if cclass(x) == 's':
                v = self.binop('-', v, const(0x10000), st)
                b = (self.tobits(v, st) + [0] * 20)[:20]
                hi, lo = b[10:] + [0, 1, 1, 0, 1, 1], b[:10] + [1, 1, 1, 0, 1, 1]
                hi = b[10:20] + [0, 1, 1, 0, 1, 1]
                units = [hi, lo]
            else:
                units = [([(cval(v) >> i) & 1 for i in range(16)] if v.op == 'const' else self.tobits(v, st) + [0] * 16)[:16]]
            for u in units:
                for part in (u[8:], u[:8]):
                    t = self.mkbits(part)
                    out.append(const(sum(q << i for i, q in enumerate(t.args))) if t.op == 'bits' and all(q in (0, 1) for q in t.args) else t)
        return self.alloc(st, node, Obj('bytearray', None, {}, tuple(out)))

    def method_model(self, recv, name, args, kwargs, st, node, quiet=False):
        if name == 'decode' and recv.op == 'm' and recv.args[0] == 'encode':
            r = self.m_str(recv, name, args, kwargs, st, node)
            if r is not None:
                return r
        if recv.op == 'const' and isinstance(cval(recv), bytes) and name == 'decode' and all(a.op == 'const' for a in args):
            try:
                return [(const(cval(recv).decode(*[cval(a) for a in args])), st)]
            except Exception:
                self.may('UnicodeDecodeError', st, node, definite=True)
                return []
        if name == 'hex' and not args and recv.op == 'ref' and self.known_items(recv, st) is not None:
            r = self.hextext(recv, st)
            if r is not None:
                return [(r, st)]
        if name == 'decode' and recv.op == 'm' and recv.args[0] == 'encode' and args and is_k(args[0], 'ascii'):
            return [(recv.args[1], st)]
        if recv.op == 'td' and name == 'total_seconds':
            return [(recv.args[0], st)]
        if recv.op == 'dt':
            r = self.m_dt(recv, name, args, kwargs, st, node)
            if r is not None:
                return r
        return Machine.method_model(self, recv, name, args, kwargs, st, node, quiet)

    # a datetime is known by its zone (NONE, a timedelta, or a tzinfo object) and its six numbers
    ORDER = {'y': 0, 'm': 1, 'd': 2, 'H': 3, 'M': 4, 'S': 5}
    FIELDS = {'year': 0, 'month': 1, 'day': 2, 'hour': 3, 'minute': 4, 'second': 5}

    def two(self, a, b, st):
        """number written with two decimal digits"""
        t = self.x_builtins_int([self.mkstr([a, b])], {}, st, None)
        if not t:
            return None
        t = t[0][0]
        self.twodigit[t] = (a, b)
        return t

    @property
    def twodigit(self):
        if not hasattr(self, '_two'):
            self._two = {}
        return self._two

    def m_dt(self, recv, name, args, kwargs, st, node):
        z, f = recv.args[0], recv.args[1:]
        if name == 'utcoffset':
            if z is NONE or z.op == 'td':
                return [(z, st)]
        if name == 'replace' and not args:
            f = list(f)
            for k, v in kwargs.items():
                if k == 'tzinfo':
                    z = v.args[0] if v.op == 'tz' else v
                elif k in self.FIELDS:
                    f[self.FIELDS[k]] = v
                elif k != 'microsecond':
                    return None
            return [(T('dt', (z,) + tuple(f)), st)]
        if name == 'strftime' and args and args[0].op == 'const':
            out = []
            s = cval(args[0])
            k = 0
            while k < len(s):
                if s[k] == '%' and k + 1 < len(s):
                    if s[k + 1] not in self.ORDER:
                        return None
                    x = f[self.ORDER[s[k + 1]]]
                    if x.op == 'const':
                        out.append(const('%02d' % (cval(x) % 100)))
                    elif s[k + 1] == 'y' and x.op == 'bin' and x.args[0] == '+' and is_k(x.args[2], 2000) and x.args[1] in self.twodigit:
                        out += self.twodigit[x.args[1]]
                    elif x in self.twodigit:
                        out += self.twodigit[x]
                    else:
                        return None
                    k += 2
                else:
                    out.append(const(s[k]))
                    k += 1
            return [(self.mkstr(out), st)]

    def x_datetime_datetime(self, args, kwargs, st, node):
        kw = dict(zip(['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'], args))
        kw.update(kwargs)
        f = [kw.get(k, const(0)) for k in ('year', 'month', 'day', 'hour', 'minute', 'second')]
        if not all(x.op == 'const' for x in f):
            self.may('ValueError', st, node, conv='datetime')
        z = kw.get('tzinfo', NONE)
        return [(T('dt', (z.args[0] if z.op == 'tz' else z,) + tuple(f)), st)]

    def x_datetime_timezone(self, args, kwargs, st, node):
        if len(args) == 1 and args[0].op == 'td':
            return [(T('tz', (args[0],)), st)]

    def x_datetime_datetime_strptime(self, args, kwargs, st, node):
        xs = self.chars(args[0])
        f = cval(args[1]) if args[1].op == 'const' else None
        bad = False
        if xs is not None and isinstance(f, str):
            if all(x.op == 'const' for x in xs):
                try:
                    datetime.datetime.strptime(''.join(cval(x) for x in xs), f)
                except ValueError:
                    bad = True
            n = f.count('%')
            if f in ('%y%m%d%H%M%S', '%Y%m%d%H%M%S') and (not n < len(xs) <= 2 * n + 2 or any(x.op == 'const' and not cval(x).isdigit() for x in xs)):
                bad = True
        self.may('ValueError', st, node, conv='strptime', definite=bad)
        if bad:
            return []
        if xs is not None and isinstance(f, str):
            got = {}
            k = i = 0
            while k < len(f):
                if f[k] == '%' and f[k + 1:k + 2] and f[k + 1] in self.ORDER and i + 1 < len(xs):
                    v = self.two(xs[i], xs[i + 1], st)
                    if v is None:
                        break
                    got[f[k + 1]] = v
                    i += 2
                    k += 2
                elif i < len(xs) and xs[i] is const(f[k]):
                    i += 1
                    k += 1
                else:
                    break
            if k >= len(f) and i == len(xs) and len(got) == 6:
                ns = [got[c] for c in 'ymdHMS']
                ns[0] = self.binop('+', ns[0], const(2000), st) if ns[0].op != 'const' else const(cval(ns[0]) + (2000 if cval(ns[0]) < 69 else 1900))
                return [(T('dt', (NONE,) + tuple(ns)), st)]
        return [(T('call', ('strptime',) + tuple(args)), st)]

    # ------------------------------------------------------------------ numbers
    def fmt(self, tmpl, args, kwargs):
        import string
        import re
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(tmpl):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if spec and not conv:
                    v = args[auto] if field == '' else args[int(field)] if field.isdigit() else kwargs.get(field)
                    m = re.match(r'^(0>|0)?(\d*)([xX])$', spec)
                    if v is not None and m and v.op != 'const':
                        h = self.hexstr(v, m.group(3) == 'X', int(m.group(2) or 1) if m.group(1) else 1, State())
                        if h is not None:
                            auto += field == ''
                            parts.append(h)
                            continue
                    m = re.match(r'^(0>|0)2d?$', spec)
                    if m and v in self.twodigit:
                        auto += field == ''
                        parts += self.twodigit[v]
                        continue
                    m = re.match(r'^(0>|0)(\d+)d?$', spec)
                    if v is not None and m and (self.chars(v) is not None and v.op != 'const'):
                        xs = self.chars(v)
                        auto += field == ''
                        parts += [const('0' * max(int(m.group(2)) - len(xs), 0))] + xs
                        continue
                if '.' in field or '[' in field:
                    return None
                parts.append(T('ph', ('{%s%s%s}' % (field if field else auto, '!' + conv if conv else '', ':' + spec if spec else ''),)))
                if field == '':
                    auto += 1
        except (IndexError, KeyError, ValueError, TypeError):
            return None
        if all(p.op != 'ph' for p in parts):
            return self.mkstr(parts)
        out = []
        for p in parts:
            if p.op == 'ph':
                r = Machine.fmt(self, p.args[0], args, kwargs)
                if r is None:
                    return None
                out.append(r)
            else:
                out.append(p)
        return self.mkstr(out)

    def percent(self, tmpl, b):
        import re
        args = list(b.args) if b.op == 'tuple' else [b]
        if '(' not in tmpl and '*' not in tmpl:
            parts = []
            pos = 0
            ok = True
            for m in re.finditer(r'%(?:%|([0#\-+ ]*)(\d*)(\.\d+)?([a-zA-Z]))', tmpl):
                if '%' in tmpl[pos:m.start()]:
                    ok = False
                    break
                parts.append(const(tmpl[pos:m.start()]))
                pos = m.end()
                if m.group(0) == '%%':
                    parts.append(const('%'))
                    continue
                if not args:
                    ok = False
                    break
                v = args.pop(0)
                if v.op == 'const':
                    try:
                        parts.append(const(m.group(0) % (cval(v),)))
                        continue
                    except (TypeError, ValueError):
                        ok = False
                        break
                if m.group(3) or m.group(1) not in ('', '0'):
                    ok = False
                    break
                if m.group(4) in 'xXd':
                    spec = ('0' if m.group(1) else '') + m.group(2) + m.group(4)
                    if m.group(2) and not m.group(1):
                        ok = False
                        break
                    r = self.fmt('{0:%s}' % (spec if spec != 'd' else ''), [v], {}) if spec != 'd' else v
                    if r is None:
                        ok = False
                        break
                    parts.append(r)
                elif m.group(4) == 's' and not m.group(2):
                    parts.append(v)
                else:
                    ok = False
                    break
            if ok and not args and '%' not in tmpl[pos:]:
                return self.mkstr(parts + [const(tmpl[pos:])])
        return Machine.percent(self, tmpl, b)

    def x_builtins_format(self, args, kwargs, st, node):
        if len(args) == 2 and args[1].op == 'const':
            r = self.fmt('{0:%s}' % cval(args[1]), [args[0]], {})
            if r is not None:
                return [(r, st)]

    def x_builtins_hex(self, args, kwargs, st, node):
        x = args[0]
        if x.op == 'const':
            return [(const(hex(cval(x))), st)]
        if self.tobits(x, st) is not None:
            return [(T('hexs', (x, False, 1, '0x')), st)]

    def x_builtins_int(self, args, kwargs, st, node):
        if args and args[0].op != 'const':
            xs = self.chars(args[0]) if self.typ(args[0], st) == 'str' else None
            base = cval(args[1]) if len(args) > 1 and args[1].op == 'const' else 10
            if xs and base in (10, 16):
                vals = []
                for x in xs:
                    if x.op == 'const':
                        c = cval(x)
                        if c not in '0123456789abcdefABCDEF'[:10 if base == 10 else None]:
                            self.may('ValueError', st, node, conv='int', value=args[0], definite=True)
                            return []
                        vals.append((const(int(c, 16)), True))
                    elif cclass(x) == 'd':
                        vals.append((self.mkbits([T('bit', (x, i)) for i in range(4)]), True))
                    elif x.op == 'hexc':
                        q = x.args[1:]
                        known = base == 16 or q[3] == 0 or q[1] == 0 and q[2] == 0 or all(isinstance(y, T) and cclass(y.args[0]) == 'd' for y in q)
                        vals.append((self.mkbits(q), known))
                    else:
                        vals = None
                        break
                if vals is not None:
                    if not all(k for v, k in vals):
                        self.may('ValueError', st, node, conv='int', value=args[0])
                    acc = None
                    if base == 16:
                        bs = []
                        for v, k in reversed(vals):
                            q = self.tobits(v, st)
                            bs += (q + [0] * 4)[:4]
                        return [(self.mkbits(bs), st)]
                    for v, k in vals:
                        acc = v if acc is None else self.binop('+', self.binop('*', acc, const(10), st), v, st)
                    return [(acc, st)]
            if xs is not None and not xs:
                self.may('ValueError', st, node, conv='int', value=args[0], definite=True)
                return []
        return Machine.x_builtins_int(self, args, kwargs, st, node)

    def x_math_ceil(self, args, kwargs, st, node):
        if args[0].op == 'const' and isinstance(cval(args[0]), (int, float)):
            return [(const(math.ceil(cval(args[0]))), st)]
        return [(T('call', ('math.ceil', args[0])), st)]

    def x_math_floor(self, args, kwargs, st, node):
        if args[0].op == 'const' and isinstance(cval(args[0]), (int, float)):
            return [(const(math.floor(cval(args[0]))), st)]
        return [(T('call', ('math.floor', args[0])), st)]

    def x_builtins_divmod(self, args, kwargs, st, node):
        return [(tup([self.binop('//', args[0], args[1], st), self.binop('%', args[0], args[1], st)]), st)]

    def x_builtins_round(self, args, kwargs, st, node):
        if all(a.op == 'const' for a in args):
            return [(const(round(*[cval(a) for a in args])), st)]
        return [(T('call', ('round',) + tuple(args)), st)]

    def x_builtins_ord(self, args, kwargs, st, node):
        x = args[0]
        if x.op == 'const' and isinstance(cval(x), str) and len(cval(x)) == 1:
            return [(const(ord(cval(x))), st)]
        if x.op == 'call' and x.args[0] == 'chr':
            return [(x.args[1], st)]
        if self.typ(x, st) == 'str' and (cclass(x) or x.op == 'item'):
            return [(T('call', ('ord', x)), st)]
        return Machine.x_builtins_ord(self, args, kwargs, st, node)

    def x_builtins_chr(self, args, kwargs, st, node):
        x = args[0]
        if x.op == 'const':
            return Machine.x_builtins_chr(self, args, kwargs, st, node)
        lo, hi = self.interval(x, st)
        if lo is None or hi is None or lo < 0 or hi > 0x10FFFF:
            self.may('ValueError', st, node, conv='chr', value=x)
        return [(T('call', ('chr', x)), st)]

    def x_builtins_iter(self, args, kwargs, st, node):
        r = Machine.x_builtins_iter(self, args, kwargs, st, node)
        return r

    def tobits(self, t, st, width=None):
        if t.op == 'sym' and t.args[1] in ('septet', 'gcode', 'xcode'):
            return [T('bit', (t, i)) for i in range(7)]
        r = Machine.tobits(self, t, st, width)
        if r is None and t.op not in ('bits', 'const'):
            lo, hi = self.interval(t, st)
            if lo is not None and hi is not None and isinstance(hi, int) and lo >= 0 and hi <= 0x1FFFFF and self.typ(t, st) in ('int', None):
                r = [T('bit', (t, i)) for i in range(max(hi.bit_length(), 1))]
        return r

    def mkbits(self, bs):
        bs = list(bs)
        while len(bs) > 1 and bs[-1] == 0:
            bs.pop()
        s = bs[0].args[0] if isinstance(bs[0], T) else None
        if s is not None and s.op == 'sym' and s.args[1] in ('septet', 'gcode', 'xcode') and len(bs) == 7 and all(isinstance(b, T) and b.args == (s, i) for i, b in enumerate(bs)):
            return s
        return Machine.mkbits(self, bs)

    def binop(self, o, a, b, st):
        if o in ('+', '-', '*', '/', '//', '%'):
            r = self.arith(o, a, b, st)
            if r is not None:
                return r
        return Machine.binop(self, o, a, b, st)

    def arith(self, o, a, b, st):
        if a.op == 'td' or b.op == 'td':
            if o in '+-' and a.op == b.op == 'td':
                return T('td', (self.binop(o, a.args[0], b.args[0], st),))
            if o in ('/', '//', '%') and a.op == b.op == 'td':
                r = self.binop(o, a.args[0], b.args[0], st)
                return T('td', (r,)) if o == '%' else r
            if o == '*' and a.op == 'td':
                return T('td', (self.binop('*', a.args[0], b, st),))
            if o == '*':
                return T('td', (self.binop('*', b.args[0], a, st),))
            if o in ('/', '//') and a.op == 'td':
                return T('td', (self.binop(o, a.args[0], b, st),))
            return None
        if a.op == 'const' and b.op == 'const':
            return None
        num = lambda t: self.typ(t, st) in ('int', 'octet')
        # numbers made of separate bits: the sum is the union
        if o == '+' and (a.op == 'bits' or b.op == 'bits') and num(a) and num(b):
            A, B = self.tobits(a, st), self.tobits(b, st)
            if A is not None and B is not None and all(x == 0 or y == 0 for x, y in zip(A, B)):
                return self.bitop('|', a, b, st)
        # powers of two are shifts
        for x, c in ((a, b), (b, a)):
            if c.op == 'const' and isinstance(cval(c), int) and cval(c) > 0 and cval(c) & (cval(c) - 1) == 0 and cval(c) > 1 and (x.op == 'bits' or x.op == 'sym' and self.typ(x, st) == 'octet'):
                n = cval(c).bit_length() - 1
                if o == '*':
                    return self.bitop('<<', x, const(n), st)
                if x is a and o == '//':
                    return self.bitop('>>', x, const(n), st)
                if x is a and o == '%':
                    return self.bitop('&', x, const(cval(c) - 1), st)
        return None

    # ------------------------------------------------------------- date and time
    def getattr(self, b, name, st, node):
        if b.op == 'td':
            s = b.args[0]
            if name == 'tdsym':
                return None
            if len(b.args) == 3 and name in ('days', 'seconds'):
                return [(b.args[1 if name == 'days' else 2], st)]
            if s.op == 'const' and isinstance(cval(s), int):
                if name == 'days':
                    return [(const(cval(s) // 86400), st)]
                if name == 'seconds':
                    return [(const(cval(s) % 86400), st)]
                if name == 'microseconds':
                    return [(const(0), st)]
            if name == 'microseconds':
                return [(const(0), st)]
            if name in ('days', 'seconds'):
                return [(T('bin', ('//' if name == 'days' else '%', s, const(86400))), st)]
        if b.op == 'dt' and name == 'tzinfo':
            return [(T('tz', (b.args[0],)) if b.args[0].op == 'td' else b.args[0], st)]
        if b.op == 'dt' and name in self.FIELDS:
            return [(b.args[1 + self.FIELDS[name]], st)]
        return Machine.getattr(self, b, name, st, node)

    def x_datetime_timedelta(self, args, kwargs, st, node):
        names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
        kw = dict(zip(names, args))
        kw.update(kwargs)
        mult = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
        acc = const(0)
        for k, v in kw.items():
            if k not in mult:
                if is_k(v, 0):
                    continue
                return None
            acc = self.binop('+', acc, self.binop('*', v, const(mult[k]), st), st)
        return [(T('td', (acc,)), st)]

    def x_builtins_type(self, args, kwargs, st, node):
        if len(args) == 1:
            x = args[0]
            n = self.typ(x, st)
            if x.op == 'td':
                return [(T('ext', ('datetime.timedelta',)), st)]
            if x.op == 'dt':
                return [(T('ext', ('datetime.datetime',)), st)]
            if x.op == 'ref' and x.args in st.heap and st.heap[x.args].kind == 'iter':
                return [(T('ext', ('builtins.iterator',)), st)]
            if n in ('str', 'bytes', 'bytearray', 'list', 'int', 'tuple', 'dict'):
                return [(T('ext', ('builtins.' + n,)), st)]
        return Machine.x_builtins_type(self, args, kwargs, st, node)

    def ltt(self, a, b, st=None):
        if a.op == 'td' and b.op == 'td':
            return self.ltt(a.args[0], b.args[0], st)
        return Machine.ltt(self, a, b, st)

    # ------------------------------------------------------------------- tables
    def _fold(self, e, mod, cls):
        r = Machine._fold(self, e, mod, cls)
        if r is None and isinstance(e, (ast.DictComp, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.Call, ast.BinOp, ast.Subscript, ast.IfExp)) and cls is None:
            r = self.table(e, mod)
        return r

    def table(self, e, mod):
        """value of a module-level table that is computed from others"""
        from .project import Func
        import copy as _copy
        key = ('table', id(e))
        if key in self._cfold:
            return self._cfold[key]
        self._cfold[key] = None
        save = (self.sink, self.catch_stack if hasattr(self, 'catch_stack') else None, self.ret_sink, self.monitors)
        k0, c0 = self.cfg.known, self.cfg.chunks
        try:
            self.sink = []
            self.monitors = []
            self.cfg.known = self.cfg.chunks = 400
            f = Func(mod, None, '<table>', ast.parse('def entry(): pass').body[0])
            st = State().push(f, {})
            outs = self.ev(e, st)
            if len(outs) == 1 and not self.sink:
                v, s = outs[0]
                r = self.frozen(v, s)
                self._cfold[key] = r
                return r
        except Exception:
            return None
        finally:
            self.sink, cs, self.ret_sink, self.monitors = save
            self.cfg.known, self.cfg.chunks = k0, c0
        return None

    def frozen(self, v, s):
        if v.op in ('const', 'cdict', 'clist', 'tuple', 'fn', 'cls'):
            return v
        if v.op == 'ref' and v.args in s.heap:
            o = s.heap[v.args]
            if o.items is None:
                return None
            if o.kind == 'dict':
                kv = [(self.frozen(a, s), self.frozen(b, s)) for a, b in o.items]
                return T('cdict', tuple(kv)) if all(a is not None and b is not None for a, b in kv) else None
            if o.kind in ('list', 'set', 'bytearray'):
                xs = [self.frozen(a, s) for a in o.items]
                return T('clist', tuple(xs)) if all(a is not None for a in xs) else None
        return None

    # -------------------------------------------------------------------- loops
    def st_For(self, n, st):
        """a loop over an iterator of known items takes them one by one (others may go on with the rest)"""
        outs = []
        for itv, s in self.iterated(n.iter, st):
            o = s.heap.get(itv.args) if itv.op == 'ref' else None
            xs = self.known_items(o.attrs['src'], s) if o is not None and o.kind == 'iter' and o.attrs['pos'].op == 'const' else None
            if xs is None:
                key = '$fv%d_%d' % (n.lineno, n.col_offset)
                m = self.at_iter.get(id(n))
                if m is None:
                    import copy as _copy
                    m = _copy.copy(n)
                    m.iter = ast.copy_location(ast.Name(id=key, ctx=ast.Load()), n.iter)
                    self.at_iter[id(n)] = m
                s = s.set(key, itv)
                if self.known_items(itv, s) is None:
                    s = s.degrade()     # (how often the body runs is not known)
                outs += [(k, v, q.unset([key])) for k, v, q in Machine.st_For(self, m, s)]
                continue
            key = '$ik%d_%d' % (n.lineno, n.col_offset)
            cur = [s.set(key, itv)]
            brk = []
            for _ in range(len(xs) + 1):
                nxt = []
                for q in cur:
                    r = q.get(key)
                    o = q.heap.get(r.args)
                    xs = self.known_items(o.attrs['src'], q) if o is not None else None
                    if xs is None or o.attrs['pos'].op != 'const':
                        outs.append((None, None, q.unset([key]).degrade()))
                        continue
                    p = cval(o.attrs['pos'])
                    if p >= len(xs):
                        q = q.unset([key])
                        outs += self.exec_block(n.orelse, [q]) if n.orelse else [(None, None, q)]
                        continue
                    q = q.with_heap(r.args, o.with_attr('pos', const(p + 1)))
                    for q2 in self.bind(n.target, xs[p], q, n):
                        for kind, vv, q3 in self.exec_block(n.body, [q2]):
                            if kind in (None, 'continue'):
                                nxt.append(q3)
                            elif kind == 'break':
                                brk.append(q3.unset([key]))
                            else:
                                outs.append((kind, vv, q3))
                cur = self.dedupe([self.prune(q, n, True) for q in nxt])
                if not cur:
                    break
            outs += [(None, None, q) for q in self.dedupe(brk)]
        return self.dedupe_outs(outs)

    @property
    def at_iter(self):
        if not hasattr(self, '_at_iter'):
            self._at_iter = {}
        return self._at_iter


HEXU = '0123456789ABCDEF'
HEXL = '0123456789abcdef'


# ---------------------------------------------------------------- evaluation of result terms
def codec_config(**kw):
    c = Config()
    c.closed = True
    c.known = 800
    c.chunks = 1200
    c.loop_unroll = 800
    c.loop_limit = 4000
    for k, v in kw.items():
        setattr(c, k, v)
    return c


class Unknown(Exception):
    """the value of a term is not determined by the given symbols"""


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '//': lambda a, b: a // b, '/': lambda a, b: a / b, '%': lambda a, b: a % b, '&': lambda a, b: a & b,
       '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}


def value(t, env):
    """what a term stands for, given the values of its symbols"""
    op = t.op
    if op == 'sym':
        if t in env:
            return env[t]
        raise Unknown()
    if op == 'const':
        return cval(t)
    a = t.args
    try:
        if op == 'bits':
            s = 0
            for i, b in enumerate(a):
                if b not in (0, 1):
                    b = (num(value(b.args[0], env)) >> b.args[1]) & 1
                s |= b << i
            return s
        if op == 'bit':
            return (num(value(a[0], env)) >> a[1]) & 1
        if op == 'hexc':
            s = 0
            for i, b in enumerate(a[1:]):
                if b not in (0, 1):
                    b = (num(value(b.args[0], env)) >> b.args[1]) & 1
                s |= b << i
            return (HEXU if a[0] else HEXL)[s]
        if op == 'm' and a[0] in ('find', 'index', 'rfind', 'rindex') and len(a) == 3:
            return getattr(value(a[1], env), a[0])(value(a[2], env))
        if op == 'm' and a[0] in ('upper', 'lower', 'isdigit', 'isalnum', 'isalpha', 'isdecimal') and len(a) == 2:
            return getattr(value(a[1], env), a[0])()
        if op == 'm' and a[0] == 'get':
            for k, v in a[1].args:
                if value(k, env) == value(a[2], env):
                    return value(v, env)
            return value(a[3], env) if len(a) > 3 else None
        if op == 'item':
            i = value(a[1], env)
            if a[0].op == 'cdict':
                for k, v in a[0].args:
                    if value(k, env) == i:
                        return value(v, env)
                raise Unknown()
            if a[0].op in ('tuple', 'clist'):
                return value(a[0].args[i], env)
            return value(a[0], env)[i]
        if op == 'call' and a[0] in ('ord', 'chr', 'int', 'hex', 'len', 'max', 'min', 'abs', 'round', 'math.ceil', 'math.floor'):
            return {'ord': ord, 'chr': chr, 'int': int, 'hex': hex, 'len': len, 'max': max, 'min': min, 'abs': abs, 'round': round, 'math.ceil': math.ceil, 'math.floor': math.floor}[a[0]](*[value(x, env) for x in a[1:]])
        if op == 'bin' and a[0] in OPS:
            return OPS[a[0]](value(a[1], env), value(a[2], env))
        if op == 'str':
            return ''.join(value(x, env) for x in a)
        if op == 'recode':
            return value(a[0], env).encode(*[value(x, env) for x in a[1:]]).decode(*[value(x, env) for x in a[1:]])
        if op == 'neg':
            return -value(a[0], env)
    except Unknown:
        raise
    except Exception:
        raise Unknown()
    raise Unknown()


def num(v):
    return int(v, 16) if isinstance(v, str) else v


def truthval(b, env):
    """truth of a path fact, given the values of its symbols"""
    op, a = b.op, b.args
    if op == 'const':
        return bool(cval(b))
    if op == 'not':
        return not truthval(a[0], env)
    if op == 'and':
        return all(truthval(x, env) for x in a)
    if op == 'or':
        return any(truthval(x, env) for x in a)
    if op == 'bitis':
        return value(a[0], env) == 1
    if op == 'truthy':
        return bool(value(a[0], env))
    if op == 'isnone':
        return value(a[0], env) is None
    try:
        if op == 'eq':
            return value(a[0], env) == value(a[1], env)
        if op == 'lt':
            return value(a[0], env) < value(a[1], env)
        if op == 'in':
            x = value(a[0], env)
            if a[1].op == 'cdict':
                return any(value(k, env) == x for k, v in a[1].args)
            if a[1].op in ('tuple', 'clist'):
                return any(value(k, env) == x for k in a[1].args)
            return x in value(a[1], env)
    except Unknown:
        raise
    except Exception:
        raise Unknown()
    return bool(value(b, env))


def relative(v):
    """seconds that a relative validity period octet stands for"""
    return (v + 1) * 300 if v < 144 else 43200 + (v - 143) * 1800 if v < 168 else (v - 166) * 86400 if v < 197 else (v - 192) * 604800


# the periods at which an octet of a relative validity period must change, and their neighbours
PERIODS = sorted({d + k for d in [relative(v) for v in range(256)] + [n * 86400 for n in range(1, 442)] for k in (-60, -1, 0, 1, 60, 3600) if d + k > 0 and d + k <= relative(255)} | {1, 60, 299})


def domain(t):
    """the values a symbol can have (for wide ranges: the boundary values and some between)"""
    k = t.args[1] if t.op == 'sym' else None
    c = cclass(t)
    if c in FINITE:
        return sorted(FINITE[c])
    if c in RANGE:
        lo, hi = RANGE[c]
        return [chr(x) for x in sorted({lo, lo + 1, lo + 0xFF, lo + 0x100, lo + 0x123, lo + (hi - lo) // 3, lo + (hi - lo) // 2, hi - 0x100, hi - 1, hi})]
    if k == 'septet':
        return range(128)
    if k == 'gcode':
        return [x for x in range(128) if x != 27]
    if k == 'uhigh':
        return [x for x in range(256) if not 0xD8 <= x <= 0xDF]
    if k == 'xcode':
        return sorted(EXTENSION.values())
    if k == 'octet':
        return range(256)
    if k == 'period':
        return PERIODS
    return None


def symbols(t):
    return sorted((x for x in t.leaves if x.op == 'sym'), key=repr)
