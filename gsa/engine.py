"""Path-sensitive abstract interpreter (typestate dataflow) over the Python syntax tree.

Every function of the analysed project is interpreted over abstract states
(local variables, an allocation-site heap, path facts, held locks and the states
of the monitors).  Loops are iterated to a fixpoint with widening, project
functions are inlined up to recursion, everything else is a model or an unknown
value.  No code of the analysed project is executed and no solver is involved.
"""

import ast
import builtins as _b

from .terms import (T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, walk, subst, show)
from .live import Live
from .project import Func, Class, Project, own_nodes, dotted, live_branch

MAX_STATES = 600
MAX_DEPTH = 14
MAX_LIST = 12
MAX_CHUNKS = 40
MAX_TERM_DEPTH = 24


# facts that only carry information (never split on)
TAG_FACTS = {'resp', 'partial', 'decoded', 'valof'}


class Budget(Exception):
    pass


# ----------------------------------------------------------------- exceptions
EXT_EXC_BASES = {
    'serial.SerialException': 'OSError', 'serial.serialutil.SerialException': 'OSError',
    'serial.SerialTimeoutException': 'serial.SerialException',
    'binascii.Error': 'ValueError', 'termios.error': 'Exception', 'queue.Empty': 'Exception',
}


class Exc(object):
    """abstract exception: class (Class or dotted name), exactness, constructor arguments"""
    __slots__ = ('cls', 'exact', 'args', 'site')

    def __init__(self, cls, exact=True, args=(), site=None):
        self.cls, self.exact, self.args, self.site = cls, exact, tuple(args), site

    def key(self):
        return (self.cls if isinstance(self.cls, str) else self.cls.qual, self.exact, self.args, self.site)

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Exc) and self.key() == o.key()

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name

    def __repr__(self):
        return '%s%s(%s)' % (self.name, '' if self.exact else '+', ', '.join(show(a) if isinstance(a, T) else repr(a) for a in self.args))


class Obj(object):
    """heap object (immutable; replaced on update)"""
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'site', '_h')

    def __init__(self, kind, cls=None, attrs=None, items=None, site=None):
        self.kind, self.cls, self.attrs, self.items, self.site = kind, cls, attrs or {}, items, site
        self._h = None

    def key(self):
        if self._h is None:
            self._h = (self.kind, self.cls.qual if isinstance(self.cls, Class) else self.cls,
                       frozenset(self.attrs.items()), self.items)
        return self._h

    def with_attr(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return Obj(self.kind, self.cls, a, self.items, self.site)

    def with_items(self, items):
        return Obj(self.kind, self.cls, self.attrs, items, self.site)


class Frame(object):
    __slots__ = ('func', 'env', 'depthid')

    def __init__(self, func, env):
        self.func, self.env = func, env


class State(object):
    __slots__ = ('frames', 'heap', 'facts', 'locks', 'mon', 'made', 'degraded', 'handled', 'itpos', '_b')

    def __init__(self):
        self.frames = ()
        self.heap = {}
        self.facts = {}
        self.locks = ()
        self.mon = {}
        self.made = frozenset()
        self.degraded = False
        self.handled = ()     # stack of exceptions being handled
        self.itpos = {}
        self._b = None

    def copy(self):
        s = State.__new__(State)
        s.frames, s.heap, s.facts, s.locks, s.mon = self.frames, self.heap, self.facts, self.locks, self.mon
        s.made, s.degraded, s.handled, s.itpos = self.made, self.degraded, self.handled, self.itpos
        s._b = None
        return s

    # locals
    def get(self, n):
        return self.frames[-1].env.get(n)

    def set(self, n, v):
        s = self.copy()
        f = s.frames[-1]
        e = dict(f.env)
        e[n] = v
        s.frames = s.frames[:-1] + (Frame(f.func, e),)
        return s

    def unset(self, names):
        f = self.frames[-1]
        if not any(n in f.env for n in names):
            return self
        s = self.copy()
        e = {k: v for k, v in f.env.items() if k not in names}
        s.frames = s.frames[:-1] + (Frame(f.func, e),)
        return s

    def push(self, func, env):
        s = self.copy()
        s.frames = s.frames + (Frame(func, env),)
        return s

    def pop(self):
        s = self.copy()
        s.frames = s.frames[:-1]
        return s

    def with_heap(self, oid, obj):
        s = self.copy()
        s.heap = dict(s.heap)
        s.heap[oid] = obj
        return s

    def with_mon(self, k, v):
        s = self.copy()
        s.mon = dict(s.mon)
        s.mon[k] = v
        return s

    def with_fact(self, b, v):
        s = self.copy()
        s.facts = dict(s.facts)
        s.facts[b] = v
        return s

    def degrade(self):
        if self.degraded:
            return self
        s = self.copy()
        s.degraded = True
        return s

    def base(self):
        """everything but the path facts"""
        if self._b is None:
            self._b = (tuple((f.func.qual if f.func else None, frozenset(f.env.items())) for f in self.frames),
                       frozenset((k, v.key()) for k, v in self.heap.items()), self.locks,
                       frozenset(self.mon.items()), self.degraded, self.handled)
        return self._b

    def key(self):
        return (self.base(), frozenset(self.facts.items()))


class Event(object):
    """kind: call | cmd | setattr | setitem | delitem | raise | lock | unlock | deref | spawn | callback | alloc |
    enter | leave | return | iter"""
    def __init__(self, kind, node, fn, **kw):
        self.kind, self.node, self.fn = kind, node, fn
        self.__dict__.update(kw)

    @property
    def where(self):
        return '%s:%d' % (self.fn.mod.relpath if self.fn else '?', getattr(self.node, 'lineno', 0))

    @property
    def func(self):
        return self.fn.qual if self.fn else '?'


class Monitor(object):
    """Typestate monitor.  `init` is the initial (hashable) state kept in every abstract state."""
    name = 'monitor'
    init = None

    def on(self, ev, st):
        """return the new state (or None to cut the path)"""
        return st

    # helpers
    def get(self, st):
        return st.mon.get(self.name, self.init)

    def put(self, st, v):
        return st.with_mon(self.name, v)


class Config(object):
    """what an analysis treats as opaque and how it models it"""
    def __init__(self):
        self.opaque = {}          # Func.qual -> model(engine, func, bound, st, node) -> [(val, st)] (may use engine.throw)
        self.ext = {}             # dotted external name -> model
        self.methods = {}         # method name on non-project receiver -> model(engine, recv, args, kwargs, st, node) or None
        self.inline = lambda f: True
        self.volatile = frozenset()   # attribute names re-read freshly on every access
        self.next_stops = False
        self.loop_unroll = 4
        self.timer_fires = False
        self.loop_limit = 400
        self.max_states = MAX_STATES
        self.attr_types = {'serial': 'Serial'}    # attribute name -> type string
        self.recursion = 0            # how often a function may be active again
        self.serial_faults = True     # operations on the serial port may raise SerialException
        self.chunks = MAX_CHUNKS      # known items kept per sequence
        self.known = 16               # characters/numbers of a known iterable that are unrolled
        self.closed = False           # objects made in the analysis see class attributes as set in it


BUILTIN_TYPES = {'int', 'str', 'list', 'dict', 'tuple', 'set', 'bytes', 'bytearray', 'float', 'bool', 'object', 'type', 'frozenset'}
STR_METHODS_STR = {'strip', 'join', 'format', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'zfill', 'title', 'capitalize', 'ljust', 'rjust', 'center', 'expandtabs', 'swapcase', 'casefold', 'removeprefix', 'removesuffix', 'decode', 'translate', 'strftime', 'isoformat'}
STR_METHODS_BOOL = {'startswith', 'endswith', 'isdigit', 'isalnum', 'isalpha', 'isspace', 'isdecimal', 'isnumeric', 'isupper', 'islower'}
STR_METHODS_LIST = {'split', 'rsplit', 'splitlines', 'readlines'}
STR_METHODS_INT = {'find', 'index', 'rfind', 'rindex', 'count', 'total_seconds'}


class Engine(object):
    def __init__(self, project, monitors=(), cfg=None):
        self.p = project
        self.monitors = list(monitors)
        for m in self.monitors:
            m.eng = self
        self.cfg = cfg or Config()
        self.sink = []
        self.stack = []
        self.steps = 0
        self.stats = {'functions': set(), 'states': 0, 'calls': 0, 'branches': 0, 'loops': 0}
        self._attr_kinds = {}
        self._live = {}
        self.lazy_of = {}       # name of a lazily created field value -> (owner, field)
        self._cfold = {}
        self.max_steps = 4000000
        self.ret_sink = None
        self.cur_fn = None

    # ================================================================ events
    def emit(self, st, kind, node, **kw):
        if st is None:
            return None
        ev = Event(kind, node, self.fn_of(st), **kw)
        for m in self.monitors:
            st = m.on(ev, st)
            if st is None:
                return None
        return st

    def fn_of(self, st):
        return st.frames[-1].func if st.frames else None

    def throw(self, exc, st, node=None):
        if st is None:
            return
        st = self.emit(st, 'raise', node, exc=exc)
        if st is not None:
            self.sink.append((exc, st))

    def throw_quiet(self, exc, st):
        if st is not None:
            self.sink.append((exc, st))

    # ============================================================ exceptions
    def exc_bases(self, c):
        if isinstance(c, Class):
            return self.p.mro(c)
        o = getattr(_b, c.split('.')[-1], None)
        if isinstance(o, type) and issubclass(o, BaseException):
            return [k.__name__ for k in o.__mro__]
        out = [c]
        while c in EXT_EXC_BASES:
            c = EXT_EXC_BASES[c]
            out += self.exc_bases(c) if c not in EXT_EXC_BASES else [c]
        if len(out) == 1:
            out += ['Exception', 'BaseException']
        return out

    def exc_sub(self, a, b):
        """is exception class a a subclass of b"""
        an = set()
        for k in self.exc_bases(a):
            if isinstance(k, Class):
                an.add(k.qual)
            else:
                k = {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'serial.serialutil.SerialException': 'serial.SerialException'}.get(k, k)
                an.add(k)
                for q in (self.exc_bases(k) if k not in an or True else ()):
                    an.add(q.qual if isinstance(q, Class) else q)
        bn = b.qual if isinstance(b, Class) else {'IOError': 'OSError', 'EnvironmentError': 'OSError', 'serial.serialutil.SerialException': 'serial.SerialException'}.get(b, b)
        return bn in an

    def exc_class_of(self, t):
        """exception class denoted by a value term"""
        if t.op == 'cls':
            return self.p_class(t)
        if t.op == 'ext':
            n = t.args[0]
            return n[9:] if n.startswith('builtins.') else n
        return None

    def p_class(self, t):
        return self._classes[t.args[0]] if hasattr(self, '_classes') else self._mkclasses()[t.args[0]]

    def _mkclasses(self):
        self._classes = {}
        for m in self.p.modules.values():
            for c in m.classes.values():
                self._classes[c.qual] = c
        return self._classes

    # ================================================================= facts
    def typ(self, t, st=None):
        """coarse type of a term: str/int/bool/list/dict/tuple/float/none/Match/obj/... or None"""
        op = t.op
        if op == 'const':
            v = cval(t)
            return 'none' if v is None else type(v).__name__
        if op == 'sym':
            return t.args[1]
        if op in ('str', 'tostr'):
            return 'str'
        if op in ('tuple', 'clist'):
            return 'tuple'
        if op == 'cdict':
            return 'dict'
        if op in ('cmp', 'not', 'isnone', 'eq', 'lt', 'in', 'truthy', 'isinst', 'same'):
            return 'bool'
        if op in ('bits', 'len'):
            return 'int'
        if op == 'ref':
            if st is not None and t.args in st.heap:
                o = st.heap[t.args]
                return o.kind
            return 'obj'
        if op in ('fn', 'cls', 'ext', 'mod', 'bm'):
            return 'callable'
        if op == 'regex':
            return 'regex'
        if op == 'proxy':
            return 'obj'
        if op == 'm':
            n = t.args[0]
            if n in STR_METHODS_STR:
                return 'str'
            if n in STR_METHODS_BOOL:
                return 'bool'
            if n in STR_METHODS_LIST:
                return 'list'
            if n in STR_METHODS_INT:
                return 'int'
            if n in ('match', 'search', 'fullmatch'):
                return 'Match?'
            if n == 'nth':
                return 'Match'
            if n == 'group':
                return 'str'
            if n in ('findall', 'finditer', 'keys', 'values', 'items'):
                return 'list'
            if n == 'inWaiting':
                return 'int'
            return None
        if op == 'call':
            n = t.args[0]
            return {'int': 'int', 'len': 'int', 'ord': 'int', 'chr': 'str', 'str': 'str', 'repr': 'str', 'list': 'list', 'sorted': 'list',
                    'tuple': 'tuple', 'range': 'range', 'iter': 'iter', 'bytearray': 'bytearray', 'bytes': 'bytes', 'max': 'int', 'min': 'int', 'abs': 'int',
                    'float': 'float', 'hex': 'str', 'datetime.timedelta': 'timedelta', 'round': 'int', 'math.ceil': 'int', 'math.floor': 'int',
                    'time.time': 'float', 'map': 'list', 'zip': 'list', 'filter': 'list', 'reversed': 'list', 'enumerate': 'list', 'set': 'set', 'dict': 'dict', 'sum': 'int',
                    'isinstance': 'bool', 'any': 'bool', 'all': 'bool', 'bool': 'bool', 'math.trunc': 'int'}.get(n)
        if op == 'bin':
            o, a, b = t.args
            ta, tb = self.typ(a, st), self.typ(b, st)
            if o in ('<<', '>>', '&', '|', '^', '//', '-', '*', '%', '/') and ta in ('int', 'octet', 'bool', 'float') and tb in ('int', 'octet', 'bool', 'float'):
                return 'float' if o == '/' or 'float' in (ta, tb) else 'int'
            if o == '+':
                if ta == tb:
                    return 'int' if ta == 'octet' else ta
                if ta in ('int', 'octet', 'bool') and tb in ('int', 'octet', 'bool'):
                    return 'int'
                return ta or tb
            return None
        if op == 'neg':
            return self.typ(t.args[0], st)
        if op == 'slice':
            k = self.typ(t.args[0], st)
            return k[:-1] if k and k.endswith('?') else k
        if op == 'listcomp':
            return 'list'
        return None

    NONNULL = {'str', 'int', 'octet', 'bool', 'list', 'dict', 'tuple', 'float', 'callable', 'bytes', 'bytearray', 'regex', 'obj', 'lock', 'set',
               'range', 'iter', 'Event', 'timedelta', 'datetime', 'Match', 'Thread', 'Timer', 'instance', 'module', 'weakdict', 'exc'}
    SIZED = {'str', 'list', 'dict', 'tuple', 'bytes', 'bytearray', 'set', 'range', 'weakdict'}
    ALWAYS_TRUE = {'callable', 'regex', 'obj', 'lock', 'Event', 'Match', 'Thread', 'Timer', 'iter', 'module', 'datetime', 'exc'}

    def truth(self, t, st):
        """boolean term equivalent to bool(t)"""
        op = t.op
        if op == 'const':
            return TRUE if cval(t) else FALSE
        if op in ('isnone', 'eq', 'lt', 'in', 'truthy', 'isinst', 'same', 'bterm'):
            return t
        if op == 'not':
            return self.neg(self.truth(t.args[0], st))
        if op == 'tuple':
            return TRUE if t.args else FALSE
        if op in ('clist', 'cdict'):
            return TRUE if t.args else FALSE
        if op == 'ref':
            o = st.heap.get(t.args)
            if o is not None and o.kind in ('list', 'dict', 'set', 'bytearray'):
                if o.items is not None:
                    return TRUE if o.items else FALSE
                return T('lt', (const(0), T('len', (t,))))
            if o is not None and o.cls and isinstance(o.cls, Class):
                for n in ('__bool__', '__nonzero__', '__len__'):
                    if self.p.lookup(o.cls, n)[0]:
                        return T('truthy', (t,))
            return TRUE
        ty = self.typ(t, st)
        if op == 'str':
            if any(x.op == 'const' and cval(x) for x in t.args):
                return TRUE
        if ty in self.SIZED:
            return T('lt', (const(0), T('len', (t,))))
        if ty in self.ALWAYS_TRUE:
            return TRUE
        if ty == 'none':
            return FALSE
        if ty and ty.endswith('?') and ty[:-1] in self.ALWAYS_TRUE | {'Event', 'Match'}:
            return self.neg(T('isnone', (t,)))
        if ty in ('int', 'octet', 'float'):
            return self.neg(self.eqt(t, const(0), st))
        if op == 'm' and t.args[0] in STR_METHODS_BOOL:
            return T('truthy', (t,))
        if op == 'm' and t.args[0] == 'is_set':
            return T('truthy', (t,))
        return T('truthy', (t,))

    def neg(self, b):
        if b is TRUE:
            return FALSE
        if b is FALSE:
            return TRUE
        if b.op == 'not':
            return b.args[0]
        return T('not', (b,))

    def eqt(self, a, b, st=None):
        if a is b and a.op not in ('top',):
            return TRUE
        if a.op == 'const' and b.op == 'const':
            try:
                return TRUE if cval(a) == cval(b) else FALSE
            except Exception:
                return FALSE
        if a.op == 'const' and b.op != 'const':
            a, b = b, a
        if is_k(b, None):
            return FALSE if a.op == 'tuple' else T('isnone', (a,))
        if a.op == 'tuple' and b.op == 'tuple' and len(a.args) != len(b.args):
            return FALSE
        if a.op == 'ref' and b.op == 'ref' and st is not None and a.args in st.heap and b.args in st.heap:
            oa, ob = st.heap[a.args], st.heap[b.args]       # objects made at different places (or times)
            if oa.kind == 'instance' and ob.kind == 'instance' and all(isinstance(o.cls, Class) and self.p.lookup(o.cls, '__eq__')[0] is None for o in (oa, ob)):
                return FALSE
        ta, tb = self.typ(a, st), self.typ(b, st)
        if ta == 'bool' and b in (TRUE, FALSE) and a.op in ('isnone', 'eq', 'lt', 'in', 'truthy', 'isinst', 'same', 'not'):
            return a if b is TRUE else self.neg(a)
        num = {'int', 'octet', 'bool', 'float'}
        if ta and tb and not ta.endswith('?') and not tb.endswith('?') and ta != tb and ta in self.NONNULL and tb in self.NONNULL:
            if ({ta, tb} <= num) or ({ta, tb} <= {'bytes', 'bytearray'}) or ({ta, tb} & {'instance', 'obj'}):
                pass
            else:
                return FALSE
        if a.op == 'bits' and b.op == 'const' and isinstance(cval(b), int):
            return self.bits_eq(a, cval(b))
        if b.op != 'const' and repr(b) < repr(a):
            a, b = b, a
        # x - c == 0 and similar stay as they are
        return T('eq', (a, b))

    def bits_eq(self, a, v):
        unk = []
        for i, x in enumerate(a.args):
            want = (v >> i) & 1
            if x in (0, 1):
                if x != want:
                    return FALSE
            else:
                unk.append((x, want))
        if v >> len(a.args):
            return FALSE
        if not unk:
            return TRUE
        return T('eq', (a, const(v)))

    def ltt(self, a, b, st=None):
        if a.op == 'const' and b.op == 'const':
            try:
                return TRUE if cval(a) < cval(b) else FALSE
            except Exception:
                return T('lt', (a, b))
        return T('lt', (a, b))

    def decide(self, b, st):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == 'not':
            r = self.decide(b.args[0], st)
            return None if r is None else (not r)
        f = st.facts
        if b in f:
            return f[b]
        op = b.op
        if op == 'isnone':
            x = b.args[0]
            if x is NONE:
                return True
            ty = self.typ(x, st)
            if ty in self.NONNULL:
                return False
            if ty == 'none':
                return True
            r = f.get(T('truthy', (x,)))
            if r is True:
                return False
            for k, v in f.items():
                if v and k.op == 'eq' and k.args[0] is x and k.args[1].op == 'const':
                    return cval(k.args[1]) is None
                if v and k.op == 'isinst' and k.args[0] is x:
                    return False
                if v and k.op == 'truthy' and k.args[0].op == 'm' and k.args[0].args[1] is x:
                    return False
                if v and k.op == 'lt' and (k.args[0] is x or k.args[1] is x or T('len', (x,)) in k.args):
                    return False
            return None
        if op == 'truthy':
            x = b.args[0]
            if f.get(T('isnone', (x,))):
                return False
            for k, v in f.items():
                if v and k.op == 'eq' and k.args[0] is x and k.args[1].op == 'const':
                    return bool(cval(k.args[1]))
            return None
        if op == 'eq':
            x, c = b.args
            if c.op == 'const':
                if f.get(T('isnone', (x,))):
                    return False
                for k, v in f.items():
                    if v and k.op == 'eq' and k.args[0] is x and k.args[1].op == 'const':
                        return cval(k.args[1]) == cval(c)
                tr = f.get(T('truthy', (x,)))
                if tr is True and not cval(c):
                    return False
                if tr is False and cval(c):
                    return False
                if isinstance(cval(c), (int, float)) and not isinstance(cval(c), bool):
                    lo, hi = self.interval(x, st)
                    if lo is not None and cval(c) < lo or hi is not None and cval(c) > hi:
                        return False
                    if lo is not None and lo == hi:
                        return cval(c) == lo
                if isinstance(cval(c), str):
                    m = self.str_excludes(x, cval(c), st)
                    if m:
                        return False
            else:
                # equal to different constants / both intervals disjoint
                ex = [cval(k.args[1]) for k, v in f.items() if v and k.op == 'eq' and k.args[0] is x and k.args[1].op == 'const']
                ey = [cval(k.args[1]) for k, v in f.items() if v and k.op == 'eq' and k.args[0] is c and k.args[1].op == 'const']
                if ex and ey:
                    return ex[0] == ey[0]
                lt1 = self.decide_lt(x, c, st)
                if lt1:
                    return False
                lt2 = self.decide_lt(c, x, st)
                if lt2:
                    return False
            return None
        if op == 'lt':
            return self.decide_lt(b.args[0], b.args[1], st)
        if op == 'isinst':
            x, c = b.args
            ty = self.typ(x, st)
            if x.op == 'ref' and x.args in st.heap:
                o = st.heap[x.args]
                if isinstance(o.cls, Class) and c.op == 'cls':
                    return self.p_class(c) in self.p.mro(o.cls)
                if o.kind in ('list', 'dict', 'set', 'bytearray') and c.op == 'ext':
                    return c.args[0] == 'builtins.' + o.kind
            if c.op == 'ext' and ty in BUILTIN_TYPES | {'octet'}:
                ty = 'int' if ty == 'octet' else ty
                n = c.args[0].replace('builtins.', '')
                if n == ty:
                    return True
                if n in BUILTIN_TYPES:
                    return n == 'object' or (ty == 'bool' and n == 'int')
            if f.get(T('isnone', (x,))):
                return False
            for k, v in f.items():
                if v and k.op == 'isinst' and k.args[0] is x and k.args[1] is not c and k.args[1].op == 'ext' and c.op == 'ext':
                    return False
            return None
        if op == 'in':
            return None
        if op == 'same':
            return None
        return None

    def str_excludes(self, x, s, st):
        """facts already exclude x == s"""
        for k, v in st.facts.items():
            if k.op == 'truthy' and k.args[0].op == 'm' and k.args[0].args[0] in ('startswith', 'endswith') and k.args[0].args[1] is x:
                a = k.args[0].args[2] if len(k.args[0].args) > 2 else None
                if a is not None and a.op == 'const' and isinstance(cval(a), str):
                    r = s.startswith(cval(a)) if k.args[0].args[0] == 'startswith' else s.endswith(cval(a))
                    if r != v:
                        return True
            if k.op == 'in' and k.args[1] is x and k.args[0].op == 'const' and isinstance(cval(k.args[0]), str):
                if (cval(k.args[0]) in s) != v:
                    return True
        if x.op == 'str' and x.args and x.args[0].op == 'const' and isinstance(cval(x.args[0]), str):
            p = cval(x.args[0])
            if not s.startswith(p):
                return True
        return False

    def decide_lt(self, a, c, st):
        la, ha = self.interval(a, st)
        lb, hb = self.interval(c, st)
        if ha is not None and lb is not None and ha < lb:
            return True
        if la is not None and hb is not None and la >= hb:
            return False
        f = st.facts
        r = f.get(T('lt', (c, a)))
        if r is True:
            return False
        if T('eq', (a, c)) in f and f[T('eq', (a, c))]:
            return False
        if T('eq', (c, a)) in f and f[T('eq', (c, a))]:
            return False
        return None

    def interval(self, t, st, depth=0):
        """integer/float bounds (lo, hi) of a term under the path facts (None = unbounded)"""
        if depth > 8:
            return (None, None)
        op = t.op
        if op == 'const':
            v = cval(t)
            if isinstance(v, bool):
                return (int(v), int(v))
            if isinstance(v, (int, float)):
                return (v, v)
            return (None, None)
        lo = hi = None
        ty = self.typ(t, st)
        isint = ty in ('int', 'octet', 'bool')
        if ty == 'octet':
            lo, hi = 0, 255
        if op == 'len':
            lo = 0
            x = t.args[0]
            if x.op == 'tuple':
                lo = hi = len(x.args)
            elif x.op == 'const' and isinstance(cval(x), (str, bytes, tuple)):
                lo = hi = len(cval(x))
            elif x.op == 'ref' and x.args in st.heap and st.heap[x.args].items is not None and st.heap[x.args].kind in ('list', 'set', 'dict'):
                lo = hi = len(st.heap[x.args].items)
        elif op == 'bits':
            lo = sum(1 << i for i, b in enumerate(t.args) if b == 1)
            hi = sum(1 << i for i, b in enumerate(t.args) if b != 0)
        elif op == 'bin':
            o, a, b = t.args
            la, ha = self.interval(a, st, depth + 1)
            lb, hb = self.interval(b, st, depth + 1)
            if o == '+':
                lo = la + lb if la is not None and lb is not None else None
                hi = ha + hb if ha is not None and hb is not None else None
            elif o == '-':
                lo = la - hb if la is not None and hb is not None else None
                hi = ha - lb if ha is not None and lb is not None else None
            elif o == '*' and None not in (la, ha, lb, hb):
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            elif o in ('//', '/') and lb is not None and lb == hb and lb > 0:
                lo = None if la is None else (la // lb if o == '//' else la / lb)
                hi = None if ha is None else (ha // lb if o == '//' else ha / lb)
            elif o == '%' and lb is not None and lb == hb and lb > 0:
                lo, hi = 0, lb - (1 if isint else 0)
            elif o == '&' and lb is not None and lb == hb and lb >= 0:
                lo, hi = 0, lb
            elif o == '>>' and lb is not None and lb == hb and la is not None and la >= 0:
                lo = la >> lb
                hi = ha >> lb if ha is not None else None
            elif o == '<<' and lb is not None and lb == hb and la is not None and la >= 0 and isinstance(la, int):
                lo = la << lb
                hi = ha << lb if ha is not None else None
        elif op == 'neg':
            la, ha = self.interval(t.args[0], st, depth + 1)
            lo = -ha if ha is not None else None
            hi = -la if la is not None else None
        elif op == 'call' and t.args[0] in ('max', 'min') and len(t.args) >= 3:
            iv = [self.interval(x, st, depth + 1) for x in t.args[1:]]
            if t.args[0] == 'max':
                los = [x[0] for x in iv if x[0] is not None]
                lo = max(los) if los else None
                hi = None if any(x[1] is None for x in iv) else max(x[1] for x in iv)
            else:
                his = [x[1] for x in iv if x[1] is not None]
                hi = min(his) if his else None
                lo = None if any(x[0] is None for x in iv) else min(x[0] for x in iv)
        elif op == 'call' and t.args[0] == 'int' and len(t.args) == 2:
            import math
            la, ha = self.interval(t.args[1], st, depth + 1)
            lo = None if la is None else math.trunc(la)
            hi = None if ha is None else math.trunc(ha)
        for k, v in st.facts.items():
            if k.op == 'lt':
                a, b = k.args
                if a is t and b.op == 'const' or b is t and a.op == 'const':
                    other = b if a is t else a
                    c = cval(other)
                    if not isinstance(c, (int, float)):
                        continue
                    if a is t:
                        if v:      # t < c
                            n = c - 1 if isint and isinstance(c, int) else c
                            hi = n if hi is None else min(hi, n)
                        else:      # t >= c
                            lo = c if lo is None else max(lo, c)
                    else:
                        if v:      # c < t
                            n = c + 1 if isint and isinstance(c, int) else c
                            lo = n if lo is None else max(lo, n)
                        else:      # t <= c
                            hi = c if hi is None else min(hi, c)
            elif k.op == 'eq' and k.args[0] is t and k.args[1].op == 'const' and isinstance(cval(k.args[1]), (int, float)):
                c = cval(k.args[1])
                if v:
                    lo = hi = c
                elif isint and lo is not None and c == lo:
                    lo = lo + 1
                elif isint and hi is not None and c == hi:
                    hi = hi - 1
        return (lo, hi)

    def assume(self, b, val, st):
        """states in which boolean term b has the value val (list)"""
        if b is TRUE:
            return [st] if val else []
        if b is FALSE:
            return [] if val else [st]
        if b.op == 'not':
            return self.assume(b.args[0], not val, st)
        if b.op == 'and':
            if val:
                sts = [st]
                for x in b.args:
                    sts = [s2 for s in sts for s2 in self.assume(x, True, s)]
                return sts
            out = []
            cur = [st]
            for x in b.args:
                for s in cur:
                    out += self.assume(x, False, s)
                cur = [s2 for s in cur for s2 in self.assume(x, True, s)]
            return out
        if b.op == 'or':
            return self.assume(T('and', tuple(self.neg(x) for x in b.args)), not val, st)
        d = self.decide(b, st)
        if d is not None:
            return [st] if d == val else []
        s = st.with_fact(b, val)
        if b.op == 'eq' and val:
            x, c = b.args
            if x.op == 'bits' and c.op == 'const':
                pass
        return [s]

    # ======================================================= fresh and aging
    def fresh(self, st, name, typ=None):
        """a new symbol for a program point; older values from the same point age"""
        if name in st.made:
            st = self.age(st, name)
        else:
            st = st.copy()
            st.made = st.made | {name}
        return sym(name, typ), st

    def age(self, st, name):
        dead = []

        def f(t):
            if t.op == 'sym' and t.args[0] == name:
                g = min(t.args[2] + 1, 3)
                return sym(t.args[0], t.args[1], g)
            if t.op == 'ref' and t.args[0] == name:
                g = min(t.args[1] + 1, 3)
                return T('ref', (t.args[0], g))
            return None
        return self.rewrite(st, f, lambda t: (t.op in ('sym', 'ref') and t.args[0] == name and t.args[-1] >= 3))

    def rewrite(self, st, f, bad):
        memo = {}

        def g(v):
            return subst(v, f, memo) if isinstance(v, T) else v
        s = st.copy()
        s.frames = tuple(Frame(fr.func, {k: g(v) for k, v in fr.env.items()}) for fr in st.frames)
        heap = {}
        for oid, o in st.heap.items():
            nid = g(T('ref', oid)).args
            no = Obj(o.kind, o.cls, {k: g(v) for k, v in o.attrs.items()},
                     None if o.items is None else tuple((g(x) if isinstance(x, T) else (tuple(g(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)) for x in o.items), o.site)
            heap[nid] = no
        s.heap = heap
        facts = {}
        for k, v in st.facts.items():
            k2 = g(k)
            if k2 is not k and any(bad(x) for x in walk(k2)):
                continue
            facts[k2] = v
        s.facts = facts
        s.locks = tuple(g(x) for x in st.locks)
        s.mon = {k: self._rw_mon(v, g) for k, v in st.mon.items()}
        s.handled = tuple(Exc(e.cls, e.exact, tuple(g(a) for a in e.args), e.site) for e in st.handled)
        return s

    def _rw_mon(self, v, g):
        if isinstance(v, T):
            return g(v)
        if isinstance(v, tuple):
            return tuple(self._rw_mon(x, g) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self._rw_mon(x, g) for x in v)
        return v

    def alloc(self, st, node, obj, tag=''):
        name = self.site(st, node, tag or obj.kind)
        if name in st.made:
            st = self.age(st, name)
        else:
            st = st.copy()
            st.made = st.made | {name}
        oid = (name, 0)
        obj.site = node
        st = st.with_heap(oid, obj)
        return T('ref', oid), st

    def site(self, st, node, tag):
        fn = self.fn_of(st)
        return '%s@%s:%d:%d' % (tag, fn.qual.split('.', 1)[-1] if fn else 'top', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))

    # ============================================================== liveness
    def live_names(self, fn):
        r = self._live.get(fn.qual)
        if r is None:
            r = self._live[fn.qual] = Live(fn.node)
        return r

    def prune(self, st, stmt, head=False):
        """forget dead local variables after a statement (or at its head), then collect garbage"""
        fn = self.fn_of(st)
        if fn is None or isinstance(fn.node, ast.Lambda):
            return st
        lv = self.live_names(fn)
        live = (lv.head if head else lv.out).get(id(stmt))
        if live is not None:
            dead = [n for n in st.frames[-1].env if n not in live and n not in lv.always and n[0] not in '$^']
            if dead:
                st = st.unset(dead)
        return self.gc(st)

    def roots(self, st):
        for fr in st.frames:
            for v in fr.env.values():
                if isinstance(v, T):
                    yield v
        for x in st.locks:
            yield x
        for e in st.handled:
            for a in e.args:
                if isinstance(a, T):
                    yield a
        for v in st.mon.values():
            for t in _terms_in(v):
                yield t

    def gc(self, st):
        """drop unreachable heap objects and facts about unreachable values"""
        leaves = set()
        syn = {}
        for k in st.heap:
            if k[0] == '~':
                syn[k[1]] = k
        todo = list(self.roots(st))
        for k, v in st.heap.items():
            if v.attrs.get('$pin') is TRUE:
                todo.append(T('ref', k))
        seen = set()
        hit = set()
        lazy = self.lazy_of

        def edges(oid, o):
            for n, x in o.attrs.items():
                if isinstance(x, T):
                    if x.op == 'ref' and x.args[0] in lazy and lazy[x.args[0]] == (oid, n) and self.pristine(x, st):
                        continue
                    todo.append(x)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            if syn:
                for k in syn:
                    if k not in hit and (k in v.subs or k.op == 'cls'):
                        hit.add(k)
                        todo.extend(x for x in st.heap[syn[k]].attrs.values() if isinstance(x, T))
            for t in v.leaves:
                if t in leaves:
                    continue
                leaves.add(t)
                if t.op == 'ref':
                    o = st.heap.get(t.args)
                    if o is not None:
                        edges(t.args, o)
                        if o.items:
                            for x in o.items:
                                todo.extend(_terms_in(x))
        nheap = len(st.heap)
        heap = {k: v for k, v in st.heap.items() if (k[1] in hit or k[1].op == 'cls' if k[0] == '~' else T('ref', k) in leaves)}
        for k, v in list(heap.items()):
            if k[0] != '~' and lazy and '@' not in k[0]:
                at = None
                for n, x in v.attrs.items():
                    if isinstance(x, T) and x.op == 'ref' and x not in leaves and x.args[0] in lazy:
                        at = dict(v.attrs) if at is None else at
                        del at[n]
                if at is not None:
                    heap[k] = Obj(v.kind, v.cls, at, v.items, v.site)

        def alive(t):
            if t in leaves:
                return True
            nm = t.args[0]
            if nm.endswith('*'):
                nm = nm[:-1]
            z = lazy.get(nm)
            if z is None or t.args[-1] != 0:
                return False
            o = heap.get(z[0])
            return o is not None and (z[1] not in o.attrs)
        facts = {}
        for k, v in st.facts.items():
            for t in k.leaves:
                if not alive(t) and not (t.op == 'sym' and t.args[0].startswith('!')):
                    break
            else:
                facts[k] = v
        if len(heap) == nheap and len(facts) == len(st.facts) and all(heap[k] is v for k, v in st.heap.items()):
            return st
        s = st.copy()
        s.heap, s.facts = heap, facts
        return s

    def pristine(self, ref, st):
        o = st.heap.get(ref.args)
        return o is None or (o.items is None and len(o.attrs) == 1 and '$c' in o.attrs and o.attrs['$c'].op == 'sym' and o.attrs['$c'].args[0] == ref.args[0] + '*')

    def dedupe(self, sts):
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault(s.base(), []).append(s)
        out = []
        for g in groups.values():
            out += self.merge_facts(g) if len(g) > 1 else g
        if len(out) > self.cfg.max_states:
            out = self.join(out)
        return out

    def merge_facts(self, g):
        """states differing in facts only: unite complementary ones, drop subsumed ones (no loss of precision)"""
        cur = {}
        for s in g:
            cur.setdefault(frozenset(s.facts.items()), s)
        if len(cur) > 300:
            return list(cur.values())
        work = sorted(cur, key=len, reverse=True)
        while work:
            k = work.pop(0)
            if k not in cur:
                continue
            for f in k:
                b, v = f
                if b.op in TAG_FACTS:
                    continue
                o = (k - {f}) | {(b, not v)}
                if o in cur:
                    m = k - {f}
                    s = cur.pop(k)
                    cur.pop(o)
                    if m not in cur:
                        s = s.copy()
                        s.facts = dict(m)
                        cur[m] = s
                        work.append(m)
                    break
        ks = sorted(cur, key=len)
        keep = []
        for k in ks:
            if not any(q <= k for q in keep):
                keep.append(k)
        return [cur[k] for k in keep]

    def join(self, sts):
        """merge states with equal monitor state, forgetting facts and differing values"""
        groups = {}
        for s in sts:
            k = (frozenset(s.mon.items()), s.locks, s.degraded, tuple(f.func.qual if f.func else None for f in s.frames), s.handled)
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            a = g[0]
            if len(g) > 1:
                a = a.copy()
                fs = dict(a.facts)
                for s in g[1:]:
                    fs = {k: v for k, v in fs.items() if s.facts.get(k) == v}
                a.facts = fs
                frames = []
                for i, fr in enumerate(a.frames):
                    env = {}
                    for n, v in fr.env.items():
                        vs = {s.frames[i].env.get(n) for s in g}
                        if len(vs) == 1:
                            env[n] = v
                        else:
                            env[n] = sym('join:%s' % n, None)
                    frames.append(Frame(fr.func, env))
                a.frames = tuple(frames)
                heap = {}
                for oid, o in a.heap.items():
                    os_ = [s.heap.get(oid) for s in g]
                    if all(x is not None and x.key() == o.key() for x in os_):
                        heap[oid] = o
                    else:
                        attrs = {}
                        for n, v in o.attrs.items():
                            if all(x is not None and x.attrs.get(n) is v for x in os_):
                                attrs[n] = v
                            elif all(x is not None and n in x.attrs for x in os_):
                                attrs[n] = sym('join:.%s' % n, None)
                        heap[oid] = Obj(o.kind, o.cls, attrs, None, o.site)
                a.heap = heap
            out.append(a)
        return out

    # ================================================================ values
    def str_parts(self, t):
        if t.op == 'str':
            return list(t.args)
        if t.op == 'const' and isinstance(cval(t), str):
            return [t] if cval(t) else []
        if t.op == 'tostr':
            return [t.args[0]]
        return [t]

    def mkstr(self, parts):
        out = []
        for p in parts:
            if p.op == 'str':
                ps = p.args
            elif p.op == 'tostr':
                ps = (p.args[0],)
            else:
                ps = (p,)
            for q in ps:
                if q.op == 'const' and not isinstance(cval(q), str):
                    v = cval(q)
                    if isinstance(v, (int, float, bool)) or v is None:
                        q = const(str(v))
                if q.op == 'const' and cval(q) == '':
                    continue
                if out and out[-1].op == 'const' and q.op == 'const' and isinstance(cval(out[-1]), str) and isinstance(cval(q), str):
                    out[-1] = const(cval(out[-1]) + cval(q))
                else:
                    out.append(q)
        if not out:
            return const('')
        if len(out) == 1:
            q = out[0]
            if q.op == 'const' and isinstance(cval(q), str):
                return q
            if self.typ(q) == 'str':
                return q
            return T('tostr', (q,))
        return T('str', tuple(out))

    def fmt(self, tmpl, args, kwargs):
        """str.format normalised to a concatenation; None if not representable"""
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(tmpl):
                if lit:
                    parts.append(const(lit))
                if field is None:
                    continue
                if '.' in field or '[' in field:
                    return None
                if field == '':
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kwargs[field]
                if v is None:
                    return None
                if spec or conv:
                    if v.op == 'const' and not conv:
                        v = const(format(cval(v), spec))
                    elif v.op == 'const':
                        v = const(('{0!%s:%s}' % (conv, spec)).format(cval(v)))
                    else:
                        v = T('fmtspec', (v, (spec or '') + ('!' + conv if conv else '')))
                parts.append(v)
        except (IndexError, KeyError, ValueError, TypeError):
            return None
        return self.mkstr(parts)

    def binop(self, o, a, b, st):
        if a.op == 'const' and b.op == 'const':
            try:
                import operator
                f = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
                     '<<': operator.lshift, '>>': operator.rshift, '&': operator.and_, '|': operator.or_, '^': operator.xor, '**': operator.pow}[o]
                if o == '*' and (isinstance(cval(a), str) and isinstance(cval(b), int) and abs(cval(b)) > 1000):
                    raise ValueError
                if o == '**' and (abs(cval(b)) > 64):
                    raise ValueError
                if o == '<<' and cval(b) > 256:
                    raise ValueError
                r = f(cval(a), cval(b))
                return const(r)
            except Exception:
                return T('bin', (o, a, b))
        ta, tb = self.typ(a, st), self.typ(b, st)
        if o == '+':
            if ta == 'str' or tb == 'str':
                return self.mkstr([a, b]) if (ta in ('str', None) and tb in ('str', None)) else T('bin', (o, a, b))
            if a.op == 'tuple' and b.op == 'tuple':
                return tup(a.args + b.args)
            if is_k(b, 0) and ta in ('int', 'octet', 'float'):
                return a
            if is_k(a, 0) and tb in ('int', 'octet', 'float'):
                return b
            if b.op == 'const' and a.op == 'bin' and a.args[0] in ('+', '-') and a.args[2].op == 'const' and isinstance(cval(b), int) and isinstance(cval(a.args[2]), int):
                c = cval(a.args[2]) * (1 if a.args[0] == '+' else -1) + cval(b)
                return self.addc(a.args[1], c, st)
            if a.op == 'const' and isinstance(cval(a), int) and b.op != 'const':
                return self.binop('+', b, a, st)
        if o == '-' and b.op == 'const' and isinstance(cval(b), int) and not isinstance(cval(b), bool):
            if ta in ('int', 'octet', 'float', None):
                return self.binop('+', a, const(-cval(b)), st) if a.op == 'bin' and a.args[0] in '+-' and a.args[2].op == 'const' else self.addc(a, -cval(b), st)
        if o == '-' and a is b:
            return const(0)
        if o == '%' and ta == 'str' and a.op == 'const':
            r = self.percent(cval(a), b)
            if r is not None:
                return r
        if o == '*' and is_k(a, 1) and tb in ('int', 'octet', 'float'):
            return b
        if o == '*' and is_k(b, 1) and ta in ('int', 'octet', 'float'):
            return a
        if o == '*' and a.op == 'const' and b.op != 'const' and ta in ('int', 'float'):
            a, b = b, a
        if o in ('&', '|', '<<', '>>', '^'):
            r = self.bitop(o, a, b, st)
            if r is not None:
                return r
        r = T('bin', (o, a, b))
        return r

    def addc(self, a, c, st):
        if c == 0:
            return a
        return T('bin', ('+', a, const(c)) if c > 0 else ('-', a, const(-c)))

    def percent(self, tmpl, b):
        args = list(b.args) if b.op == 'tuple' else [b]
        parts = []
        i = 0
        cur = ''
        while i < len(tmpl):
            ch = tmpl[i]
            if ch == '%':
                if i + 1 >= len(tmpl):
                    return None
                c = tmpl[i + 1]
                if c == '%':
                    cur += '%'
                elif c in 'sd':
                    if cur:
                        parts.append(const(cur))
                        cur = ''
                    if not args:
                        return None
                    parts.append(args.pop(0))
                else:
                    return None
                i += 2
            else:
                cur += ch
                i += 1
        if cur:
            parts.append(const(cur))
        return self.mkstr(parts) if not args else None

    def tobits(self, t, st, width=None):
        """little-endian bit vector of a non-negative value or None"""
        if t.op == 'bits':
            return list(t.args)
        if t.op == 'const' and isinstance(cval(t), int) and cval(t) >= 0:
            v = cval(t)
            return [(v >> i) & 1 for i in range(max(v.bit_length(), 1))]
        ty = self.typ(t, st)
        if ty == 'octet':
            return [T('bit', (t, i)) for i in range(8)]
        lo, hi = self.interval(t, st)
        if ty in ('int', 'bool') and lo is not None and hi is not None and lo >= 0 and hi <= 0xFFFF and isinstance(hi, int):
            return [T('bit', (t, i)) for i in range(max(hi.bit_length(), 1))]
        return None

    def mkbits(self, bs):
        bs = list(bs)
        while len(bs) > 1 and bs[-1] == 0:
            bs.pop()
        if all(b in (0, 1) for b in bs):
            return const(sum(b << i for i, b in enumerate(bs)))
        # a complete octet in order is the octet itself
        s = bs[0].args[0] if isinstance(bs[0], T) else None
        if s is not None and s.op == 'sym' and s.args[1] == 'octet' and len(bs) == 8 and all(isinstance(b, T) and b.args == (s, i) for i, b in enumerate(bs)):
            return s
        return T('bits', tuple(bs))

    def bitop(self, o, a, b, st):
        if o in ('<<', '>>'):
            if b.op != 'const' or not isinstance(cval(b), int) or not (0 <= cval(b) <= 32):
                return None
            A = self.tobits(a, st)
            if A is None:
                return None
            n = cval(b)
            return self.mkbits([0] * n + A) if o == '<<' else self.mkbits(A[n:] or [0])
        A, B = self.tobits(a, st), self.tobits(b, st)
        if A is None or B is None:
            # masking an unknown non-negative int with a constant
            if o == '&':
                for x, c in ((a, b), (b, a)):
                    if c.op == 'const' and isinstance(cval(c), int) and 0 <= cval(c) <= 0xFFFF and self.typ(x, st) in ('int', None):
                        C = self.tobits(c, st)
                        return self.mkbits([T('bit', (x, i)) if C[i] else 0 for i in range(len(C))])
            return None
        n = max(len(A), len(B))
        A += [0] * (n - len(A))
        B += [0] * (n - len(B))
        out = []
        for x, y in zip(A, B):
            if o == '&':
                out.append(0 if x == 0 or y == 0 else (y if x == 1 else (x if y == 1 or x is y else None)))
            elif o == '|':
                out.append(1 if x == 1 or y == 1 else (y if x == 0 else (x if y == 0 or x is y else None)))
            else:
                out.append(y if x == 0 else (x if y == 0 else (0 if x is y else ((1 - y) if x == 1 and y in (0, 1) else None))))
            if out[-1] is None:
                return None
        return self.mkbits(out)
