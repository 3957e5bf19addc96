"""The tools: completion trie, AT command table, terminal, command line scripts; the helper functions of the package."""

import ast
import itertools
import multiprocessing
import os

from ..common import *
from ..engine import State, Obj, Monitor, Exc, Config, Budget
from ..machine import Machine
from ..project import Func, live_branch, dotted
from ..terms import T, const, NONE, TRUE, FALSE, is_const, cval, is_k, sym
from ..pdulab import Lab, Sheet, same_time, zone, outcomes
from ..codec import Codec, codec_config, char

TECH = 'abstract interpretation of each operation, to a fixpoint over the reachable abstract states'


# ---------------------------------------------------------------------- snapshots
def freeze(t, st, seen=()):
    """an object graph as a value"""
    if t.op == 'ref':
        if t.args in seen:
            return ('loop',)
        o = st.heap.get(t.args)
        if o is None:
            return ('?',)
        seen = seen + (t.args,)
        if o.kind in ('dict', 'list', 'tuple', 'set') and (o.items is None or any(isinstance(x, T) and x.op == '*' for x in o.items)):
            return ('?',)
        if o.kind == 'dict':
            if any(not k.op == 'const' for k, _ in o.items or ()):
                return ('?',)
            return ('dict', tuple(sorted(((k, freeze(v, st, seen)) for k, v in o.items or ()), key=lambda e: repr(cval(e[0])))))
        if o.kind in ('list', 'tuple', 'set'):
            return (o.kind, tuple(freeze(x, st, seen) for x in o.items or ()))
        if o.kind == 'instance':
            return ('obj', o.cls, tuple(sorted((k, freeze(v, st, seen)) for k, v in o.attrs.items())))
        return ('?',)
    return ('val', t)


def unknown(f):
    if f[0] in ('?', 'loop'):
        return True
    if f[0] == 'dict':
        return any(unknown(v) for _, v in f[1])
    if f[0] == 'obj':
        return any(unknown(v) for _, v in f[2])
    if f[0] == 'val':
        return not (f[1].op in ('const', 'sym'))
    return any(unknown(x) for x in f[1])


def thaw(f, st, n=None):
    n = n if n is not None else itertools.count()
    if f[0] == 'val':
        return f[1], st
    ref = ('snap%d' % next(n), 0)
    if f[0] == 'dict':
        items = []
        for k, v in f[1]:
            t, st = thaw(v, st, n)
            items.append((k, t))
        return T('ref', ref), st.with_heap(ref, Obj('dict', None, {}, tuple(items)))
    if f[0] == 'obj':
        attrs = {}
        for k, v in f[2]:
            attrs[k], st = thaw(v, st, n)
        return T('ref', ref), st.with_heap(ref, Obj('instance', f[1], attrs))
    items = []
    for x in f[1]:
        t, st = thaw(x, st, n)
        items.append(t)
    return T('ref', ref), st.with_heap(ref, Obj(f[0], None, {}, tuple(items)))


def pinned(st, *ts):
    return st.with_heap(('pinned', 0), Obj('list', None, {'$pin': TRUE}, tuple(ts)))


def lab_of(rep, w, recursion=12):
    lab = Lab(rep, w)
    lab.eng.cfg.recursion = recursion
    return lab


# ---------------------------------------------------------------------------- T01
KEYS = ('', 'a', 'ab', 'abc', 'abd', 'b', 'ba')
PROBES = KEYS + ('c', 'ac', 'abcd', 'aba', 'bab', 'ca')


class TrieLab(object):
    def __init__(self, rep, w):
        self.rep, self.w = rep, w
        self.lab = lab_of(rep, w)
        self.cls = w.p.cls('Trie')

    def run(self, op, f, *args):
        """-> (exception or None, value, frozen trie afterwards, state) or None"""
        fn = self.w.p.lookup(self.cls, op)[0]
        if fn is None:
            return None
        st = State()
        t, st = thaw(f, st)
        st = pinned(st, t)
        a = fn.node.args
        if len(fn.params) < 1 + len(args):
            return None
        outs = self.lab.call(op, [], st, fn=fn, args=dict(zip(fn.params, (t,) + args)))
        if len(outs) != 1 or not outs[0].sure:
            return None
        o = outs[0]
        g = freeze(t, o.st)
        return o.raised, (o.val if o.kind == 'return' else None), g, o.st

    def iterate(self, f):
        """what an iteration gives -> (exception, strings) or None"""
        fn = self.w.p.lookup(self.cls, '__iter__')[0]
        if fn is None:
            return 'TypeError', None
        t, st = thaw(f, State())
        st = pinned(st, t).with_heap(('yielded', 0), Obj('list', None, {'$pin': TRUE}, ()))

        def hook(v, s):
            o = s.heap[('yielded', 0)]
            return [s.with_heap(('yielded', 0), Obj('list', None, {'$pin': TRUE}, tuple(o.items) + (v,)))]
        self.lab.eng.yield_hook.append(hook)
        try:
            outs = self.lab.call('__iter__', [], st, fn=fn, args={fn.params[0]: t})
        finally:
            self.lab.eng.yield_hook.pop()
        if len(outs) != 1 or not outs[0].sure:
            return None
        o = outs[0]
        if o.kind == 'raise':
            return o.raised, None
        xs = o.st.heap[('yielded', 0)].items if fn.is_gen else self.lab.eng.known_items(o.val.args[1], o.st) if o.val.op == 'call' and o.val.args[0] == 'iter' and len(o.val.args) == 2 else self.lab.eng.known_items(o.val, o.st)
        return (None, [cval(x) for x in xs]) if xs is not None and all(x.op == 'const' for x in xs) else None

    def empty(self):
        init = self.w.p.lookup(self.cls, '__init__')[0]
        st = State().with_heap(('new', 0), Obj('instance', self.cls, {}))
        if init is None:
            return freeze(T('ref', ('new', 0)), st)
        st = pinned(st, T('ref', ('new', 0)))
        outs = self.lab.call('__init__', [], st, fn=init, args={init.params[0]: T('ref', ('new', 0))})
        if len(outs) == 1 and outs[0].sure and outs[0].kind == 'return':
            f = freeze(T('ref', ('new', 0)), outs[0].st)
            return None if unknown(f) else f
        return None


def val_of(k):
    if k in ('ab', 'b'):        # false values are values, too
        return NONE if k == 'b' else const(0)
    return sym('v:' + k, 'val')


def texts(t, st):
    """the strings of a list (or None)"""
    if t is None or t.op != 'ref' or t.args not in st.heap:
        return None
    o = st.heap[t.args]
    if o.kind not in ('list', 'tuple', 'set') or any(x.op != 'const' for x in o.items or ()):
        return None
    return [cval(x) for x in o.items or ()]


def common(ks):
    return os.path.commonprefix(ks)


def state_queries(tl, f, m):
    """queries on one state -> [(key, message)], number of decided, undecided"""
    bad = []
    n = und = 0
    what = 'a trie with the keys %s' % ', '.join(repr(k) for k in sorted(m)) if m else 'an empty trie'

    def is_exc(r, name):
        return r[0] == name

    for k in PROBES:
        for op in ('__getitem__', '__contains__', 'get'):
            r = tl.run(op, f, *((const(k), sym('default', 'val')) if op == 'get' else (const(k),)))
            if r is None:
                und += 1
                continue
            n += 1
            if op == '__getitem__':
                ok = r[1] is m[k] if k in m else r[0] == 'KeyError'
            elif op == '__contains__':
                if r[0] is None and not (r[1] is TRUE or r[1] is FALSE or r[1].op == 'const'):
                    und += 1
                    continue
                ok = r[0] is None and bool(cval(r[1])) == (k in m)
            else:
                ok = r[1] is (m[k] if k in m else sym('default', 'val'))
            if not ok:
                bad.append((op, '%s(%r) on %s %s' % (op, k, what, 'raises ' + r[0] if r[0] else 'returns %s' % show(r[1]))))
    r = tl.run('__len__', f)
    if r is None or r[0] is None and r[1].op != 'const':
        und += 1
    else:
        n += 1
        if r[0] or cval(r[1]) != len(m):
            bad.append(('__len__', 'len() of %s is %s' % (what, r[0] or show(r[1]))))
    for p in (None,) + PROBES:
        r = tl.run('keys', f, const(p)) if p is not None else tl.run('keys', f, NONE)
        ks = texts(r[1], r[3]) if r is not None and r[0] is None else None
        if r is None or r[0] is None and ks is None:
            und += 1
        else:
            n += 1
            want = sorted(k for k in m if p is None or k.startswith(p))
            if r[0] or sorted(ks) != want:
                bad.append(('keys', 'keys(%s) of %s %s' % ('' if p is None else repr(p), what, 'raises ' + r[0] if r[0] else 'returns %s' % ks)))
    r = tl.iterate(f)
    if r is None:
        und += 1
    else:
        n += 1
        if r[0] or sorted(r[1]) != sorted(m):
            bad.append(('__iter__', 'iterating over %s %s' % (what, 'raises ' + r[0] if r[0] else 'gives %s' % r[1])))
    for p in PROBES:
        r = tl.run('longestCommonPrefix', f, const(p))
        if r is None or r[0] is None and r[1].op != 'const':
            und += 1
            continue
        n += 1
        ks = [k for k in m if k.startswith(p)]
        if r[0] or cval(r[1]) != common(ks):
            bad.append(('longestCommonPrefix', 'longestCommonPrefix(%r) of %s %s' % (p, what, 'raises ' + r[0] if r[0] else 'returns %r' % cval(r[1]))))
    return bad, n, und


def transition(tl, f, m, op, k, v):
    """one update -> (findings, frozen, map) or None if undecided"""
    r = tl.run(op, f, *((const(k), v) if op == '__setitem__' else (const(k),)))
    if r is None or unknown(r[2]):
        return None
    what = 'a trie with the keys %s' % ', '.join(repr(x) for x in sorted(m)) if m else 'an empty trie'
    m2 = dict(m)
    if op == '__setitem__':
        m2[k] = v
        if r[0]:
            return [(op, 'storing %r in %s raises %s' % (k, what, r[0]))], None, None
    elif k in m:
        del m2[k]
        if r[0]:
            return [(op, 'deleting %r from %s raises %s' % (k, what, r[0]))], None, None
    elif r[0] != 'KeyError':
        return [(op, 'deleting the missing key %r from %s %s' % (k, what, 'raises ' + r[0] if r[0] else 'raises nothing'))], None, None
    return [], r[2], m2


_w = {}


def _trie_part(part):
    w, states, idx = _w['w'], _w['states'], part
    rep = Report_part(_w['rep'])
    tl = TrieLab(rep, w)
    res = []
    n = und = 0
    for i in idx:
        f, m = states[i]
        b, x, y = state_queries(tl, f, dict(m))
        res += b
        n += x
        und += y
        for k in KEYS:      # overwriting
            t = transition(tl, f, dict(m), '__setitem__', k, sym('w:' + k, 'val'))
            if t is None:
                und += 1
                continue
            res += t[0]
            n += 1
            if t[1] is not None:
                r = tl.run('__getitem__', t[1], const(k))
                if r is not None and r[1] is not sym('w:' + k, 'val'):
                    res.append(('__setitem__', 'a value stored under %r in a trie with the keys %s is not found again' % (k, sorted(dict(m)))))
    return rep, res, n, und


def Report_part(rep):
    return rep.part()


def check_T01(rep, root, tier):
    w = World(root)
    tl = TrieLab(rep, w)
    e = tl.empty()
    if e is None:
        rep.note('the empty trie is not understood')
        return
    seen = {(e, ()): 0}
    states = [(e, ())]
    work = [0]
    limit = 6000 if tier == 'thorough' else 1500
    und = 0
    loc = tl.cls.mod.path if hasattr(tl.cls.mod, 'path') else tl.cls.qual
    while work:
        i = work.pop()
        f, mt = states[i]
        m = dict(mt)
        for k in KEYS:
            for op in ('__setitem__', '__delitem__'):
                t = transition(tl, f, m, op, k, val_of(k))
                if t is None:
                    und += 1
                    continue
                for key, msg in t[0]:
                    rep.bad('T01', key, tl.w.p.lookup(tl.cls, key)[0].loc, msg)
                if t[1] is None:
                    continue
                s = (t[1], tuple(sorted(t[2].items(), key=lambda e: e[0])))
                if s not in seen and len(states) < limit:
                    seen[s] = len(states)
                    states.append(s)
                    work.append(len(states) - 1)
        if rep.findings:
            break
    # queries
    _w.update(w=w, rep=rep, states=states)
    n = 0
    np = max(1, min(8, os.cpu_count() or 1, (len(states) + 19) // 20))
    parts = [list(range(j, len(states), np)) for j in range(np)]
    if np > 1:
        with multiprocessing.get_context('fork').Pool(np) as pool:
            results = pool.map(_trie_part, parts)
    else:
        results = [_trie_part(parts[0])]
    for r, res, x, y in results:
        rep.absorb(r)
        n += x
        und += y
        for key, msg in res:
            fn = w.p.lookup(tl.cls, key)[0]
            rep.bad('T01', key, fn.loc if fn else loc, msg)
    # a key must be given
    for op in ('__setitem__', '__getitem__', '__delitem__'):
        for f, m in states[:5]:
            r = tl.run(op, f, *((NONE, val_of('x')) if op == '__setitem__' else (NONE,)))
            if r is None:
                und += 1
            else:
                rep.check(r[0] == 'ValueError', 'T01 no key', op, w.p.lookup(tl.cls, op)[0].loc, '%s without a key %s instead of raising ValueError' % (op, 'raises ' + r[0] if r[0] else 'returns'))
    rep.ob('T01', 'operations over %d reachable states' % len(states))
    for k in KEYS:
        rep.ob('T01', 'updates of key %r' % k)
    for k in PROBES:
        rep.ob('T01', 'queries for %r' % k)
    if und:
        rep.note('%d of %d operations undecided' % (und, und + n))


# ---------------------------------------------------------------------------- U01
class LineLab(Codec):
    """lines are tested against a prefix or pattern; the outcome of every test is part of the case: 0 none, 1 at the start, 2 only later in the line"""
    lines = ()

    def hit(self, line, later=False):
        k = self.lines[int(line.args[0][4:])]
        return k == 1 or later and k == 2

    def is_line(self, t):
        return isinstance(t, T) and t.op == 'sym' and isinstance(t.args[0], str) and t.args[0].startswith('line')

    def method_model(self, recv, name, args, kwargs, st, node, quiet=False):
        if self.is_line(recv) and name in ('startswith', 'find', 'index', 'count', 'strip', 'lstrip', 'rstrip') and (args and args[0] is sym('string', 'str') or not args):
            if name == 'startswith' and len(args) == 1:
                return [(TRUE if self.hit(recv) else FALSE, st)]
            if name == 'find' and len(args) == 1:
                return [(const(0) if self.hit(recv) else const(7) if self.hit(recv, True) else const(-1), st)]
        if recv is sym('pattern', 'Pattern') and name in ('match', 'search', 'fullmatch') and len(args) == 1 and self.is_line(args[0]):
            return [(self.found(args[0], name), st)]
        return Codec.method_model(self, recv, name, args, kwargs, st, node, quiet)

    def found(self, line, name):
        if name == 'fullmatch' and self.hit(line):
            return sym('fullmatch of a line', 'unknown')
        return sym('match of ' + line.args[0], 'Match') if self.hit(line, name == 'search') else NONE

    def regex(self, name):
        def model(args, kwargs, st, node):
            if len(args) >= 2 and args[0] in (sym('regex', 'str'), sym('pattern', 'Pattern')) and self.is_line(args[1]):
                if args[0] is sym('regex', 'str'):
                    self.flagged(args[2:], kwargs)
                return [(self.found(args[1], name), st)]
        return model

    def x_re_compile(self, args, kwargs, st, node):
        if args and args[0] is sym('regex', 'str'):
            self.flagged(args[1:], kwargs)
            return [(sym('pattern', 'Pattern'), st)]

    def flagged(self, args, kwargs):
        """flags that give the expression another meaning"""
        todo = [a for a in list(args) + [kwargs.get('flags')] if a is not None]
        while todo:
            x = todo.pop()
            if x.op == 'ext' and x.args[0] in ALTERING:
                self.altered = x.args[0]
            todo += [a for a in x.args if isinstance(a, T)]

    def x_re_match(self, args, kwargs, st, node):
        return self.regex('match')(args, kwargs, st, node)

    def x_re_search(self, args, kwargs, st, node):
        return self.regex('search')(args, kwargs, st, node)

    def membership(self, a, b, st):
        if a is sym('string', 'str') and self.is_line(b):
            return TRUE if self.hit(b, True) else FALSE
        return Codec.membership(self, a, b, st)

    def decide(self, b, st):
        if b.op == 'isnone' and b.args[0].op == 'sym' and b.args[0].args[1] == 'Match':
            return False
        return Codec.decide(self, b, st)

    def truth(self, t, st):
        if t.op == 'sym' and t.args[1] == 'Match':
            return TRUE
        return Codec.truth(self, t, st)


ALTERING = ('re.IGNORECASE', 're.I', 're.VERBOSE', 're.X', 're.ASCII', 're.A')


class Guess(Monitor):
    """a test was decided by neither the case nor the code"""
    name = 'guess'
    init = False

    def on(self, ev, st):
        if ev.kind == 'branch' and ev.term.op != 'const':
            return self.put(st, True)
        return st


UTIL = 'gsmmodem.util'
LINES = (('lineStartingWith', sym('string', 'str'), 'line'), ('lineMatching', sym('regex', 'str'), 'match'), ('lineMatchingPattern', sym('pattern', 'Pattern'), 'match'),
         ('allLinesMatchingPattern', sym('pattern', 'Pattern'), 'all'))


def check_U01(rep, root, tier):
    """helper functions"""
    w = World(root)
    lab = lab_of(rep, w, 4)
    und = []
    # time stamps of text mode
    f = w.p.func(UTIL, 'parseTextModeTimeStr')
    ds = [char('d%d' % i, 'd') for i in range(12)]
    body = []
    for i, sep in enumerate(('/', '/', ',', ':', ':', '')):
        body += ds[2 * i:2 * i + 2] + ([const(sep)] if sep else [])
    for q in range(-48, 57):
        for z in (['%+03d' % q] if q else ['+00', '-00']):
            t = lab.eng.mkstr(body + [const(c) for c in z])
            rep.ob('U01 time stamp', 'zone ' + z)
            for out in lab.call('parseTextModeTimeStr', ds, fn=f, args={f.params[0]: t}):
                if not out.sure:
                    und.append('time stamp ' + z)
                    continue
                sh = Sheet(lab.eng, out)
                if out.kind == 'raise':
                    if out.raised == 'ValueError':      # digits that are no date
                        continue
                    r = 'raises ' + out.raised
                else:
                    r = same_time(lab, sh, out, out.val, ds, 900 * q)
                if r:
                    rep.bad('U01', 'time stamp', f.loc, 'a text mode time stamp with the zone %s: %s' % (z, r))
                elif r is False:
                    und.append('time stamp ' + z)
            lab.eng.steps = 0
    # lines
    guess = Guess()
    eng = LineLab(w.p, [guess], codec_config())
    lab2 = Lab(rep, w)
    lab2.eng = eng
    eng.max_steps = 20000
    n = 4 if tier == 'thorough' else 3
    for name, arg, kind in LINES:
        f = w.p.func(UTIL, name)
        for k in range(n + 1):
            for case in itertools.product((0, 1, 2), repeat=k):
                eng.lines, eng.altered = case, None
                ls = [sym('line%d' % i, 'str') for i in range(k)]
                st = State().with_heap(('lines', 0), Obj('list', None, {}, tuple(ls)))
                outs = lab2.call(name, [], st, fn=f, args={f.params[0]: arg, f.params[1]: T('ref', ('lines', 0))})
                rep.ob('U01 ' + name, 'lines %s' % ''.join('-=~'[c] for c in case))
                rep.check(not eng.altered, 'U01', name + ': other expression', f.loc, '%s() gives the expression another meaning (%s)' % (name, eng.altered))
                for out in outs:
                    if not out.sure or guess.get(out.st) or any(x.op == 'sym' and x.args[1] == 'unknown' for x in (out.val.leaves if isinstance(out.val, T) else ())):
                        und.append(name)
                        continue
                    hits = [i for i, c in enumerate(case) if c == 1]
                    what = '%s() on lines of which %s' % (name, 'none matches at its start' if not hits else 'number%s %s match%s at the start' % ('s' if len(hits) > 1 else '', ', '.join(str(i + 1) for i in hits), 'es' if len(hits) == 1 else ''))
                    if out.kind == 'raise':
                        rep.bad('U01', name + ': raises', f.loc, '%s raises %s' % (what, out.raised))
                    elif kind == 'all':
                        xs = eng.known_items(out.val, out.st)
                        if xs is None:
                            if out.val is NONE or out.val.op == 'sym':
                                rep.bad('U01', name + ': no list', f.loc, '%s gives no list' % what)
                            else:
                                und.append(name)
                        else:
                            rep.check(list(xs) == [sym('match of line%d' % i, 'Match') for i in hits], 'U01', name, f.loc, '%s does not give the matches of all of them in order' % what)
                    else:
                        want = NONE if not hits else ls[hits[0]] if kind == 'line' else sym('match of line%d' % hits[0], 'Match')
                        if out.val is not want and out.val.op not in ('const', 'sym'):
                            und.append(name)
                        else:
                            rep.check(out.val is want, 'U01', name, f.loc, '%s gives %s' % (what, 'nothing' if out.val is NONE else show(out.val)))
    for x in sorted(set(und)):
        rep.note('undecided: ' + x)


# ---------------------------------------------------------------------------- T06
class Cli(Monitor):
    """what a command line tool did with the modem"""
    name = 'cli'
    init = ((), (), ())     # steps, decided tests, texts shown

    def on(self, ev, st):
        steps, conds, shown = self.get(st)
        if ev.kind == 'tool':
            return self.put(st, (steps + (ev.what,), conds, shown))
        if ev.kind == 'call' and ev.name in ('print', 'builtins.print', 'write') and steps and steps[-1][0] in ('sendSms', 'close'):
            return self.put(st, (steps, conds, shown + tuple(cval(a) for a in ev.args if a.op == 'const' and isinstance(cval(a), str))))
        if ev.kind == 'branch' and (ev.term, ev.taken) not in conds and any(x.op == 'sym' and (str(x.args[0]).startswith('option ') or x.args[0] in ('sms', 'status')) for x in ev.term.leaves):
            return self.put(st, (steps, conds + ((ev.term, ev.taken),), shown))
        return st


NS = {n: sym('option ' + n, 'bool' if n in ('deliver', 'debug', 'raw') else 'str' if n in ('destination', 'baud') else None) for n in ('port', 'baud', 'pin', 'deliver', 'destination', 'debug', 'raw')}


def cli_config(w, script):
    c = w.modem_cfg()

    def method(name, excs, result=None, typ=None):
        f = w.p.lookup(w.modem, name)[0]
        if f is None:
            return

        def model(eng, func, env, st, node):
            given = tuple((p, env.get(p, NONE)) for p in func.params[1:])
            for e in excs:
                s = eng.emit(st, 'tool', node, what=(name, e, given))
                eng.throw(new_exc(eng, e, ()) if '.' not in e else Exc(e, True, (), None), s, node)
            st = eng.emit(st, 'tool', node, what=(name, 'ok', given))
            if result is not None:
                return [(result, st)]
            v, st = eng.fresh(st, eng.site(st, node, name), typ)
            return [(v, st)]
        c.opaque[f.qual] = model
    method('__init__', (), NONE)
    method('connect', ('PinRequiredError', 'IncorrectPinError', 'TimeoutException', 'CommandError', 'serial.SerialException'), NONE)
    method('waitForNetworkCoverage', ('TimeoutException', 'InvalidStateException', 'CommandError'), typ='int')
    method('sendSms', ('TimeoutException', 'CommandError'), result=sym('sms', 'obj:gsmmodem.modem.SentSms'))
    method('close', (), NONE)
    g = w.p.lookup(w.p.cls('SentSms'), 'status')[0]
    if g is not None:
        c.opaque[g.qual] = lambda eng, func, env, st, node: [(sym('status', 'int'), st)]
    def write(eng, func, env, st, node):
        eng.throw(new_exc(eng, 'CommandError', ()), st, node)
        v, st = eng.fresh(st, eng.site(st, node, 'answer'), 'list:str')
        return [(v, st)]
    for n in ('write', 'manufacturer', 'model', 'revision', 'imei', 'imsi', 'networkName', 'signalStrength', 'smsc'):
        g = w.p.lookup(w.modem, n)[0]
        if g is not None:
            c.opaque[g.qual] = write

    def parsed(eng, recv, args, kwargs, st, node):
        r, st = eng.alloc(st, node, Obj('instance', None, dict(NS)), 'options')
        if getattr(recv, 'op', '') == 'ref' and recv.args in st.heap and getattr(st.heap[recv.args].cls, 'name', '') == 'PosOptionParser':
            return [(tup([r, sym('rest', 'list:str')]), st)]
        return [(r, st)]
    c.methods['parse_args'] = parsed

    def ask(eng, args, kwargs, st, node):
        st = eng.emit(st, 'tool', node, what=('input', 'ok', ()))
        return [(sym('typed', 'str'), st)]
    for n in ('input', 'builtins.input', 'raw_input', 'builtins.raw_input'):
        c.ext[n] = ask
    return c


def check_T06(rep, root, tier):
    """exit status of the command line tools"""
    w = World(root)
    for script in ('sendsms', 'identify-modem'):
        m = w.p.modules.get(script)
        f = w.p.funcs.get(script + '.main')
        if f is None:
            rep.bad('anchor', script, 'tools', 'the tool %s has no main function' % script)
            continue
        mon = Cli()
        mc = Machine(w.p, [mon], cli_config(w, script))
        outs = mc.run(f, {}, State())
        rep.ran(mc, outs)
        und = 0
        rep.ob('T06', script)
        for kind, v, s in outs:
            steps, conds, shown = mon.get(s)
            if s.degraded:
                und += 1
                continue
            fail = kind == 'raise' and not (v.name == 'SystemExit' and (not v.args or v.args[0] is NONE or is_k(v.args[0], 0)))
            if kind == 'raise' and v.name == 'SystemExit' and v.args and v.args[0].op != 'const':
                und += 1
                continue
            names = [x[0] for x in steps]
            done = lambda n: any(x[0] == n and x[1] == 'ok' for x in steps)
            failed = [x for x in steps if x[1] != 'ok']
            rep.ob('T06', '%s: %s after %s' % (script, 'failure' if fail else 'success', ', '.join('%s %s' % x[:2] for x in steps) or 'nothing'))

            def bad(key, msg):
                rep.bad('T06', '%s: %s' % (script, key), f.loc, '%s: %s' % (script, msg))
            for x in steps:
                g = dict(x[2])
                if x[0] == '__init__':
                    ps = [a for p, a in x[2]]
                    if ps and not about(ps[0], 'port'):
                        bad('port', 'the modem is not opened at the given port')
                    if len(ps) > 1 and not about(ps[1], 'baud'):
                        bad('baud', 'the modem is not opened with the given baud rate')
                if x[0] == 'connect' and x[2] and not about(x[2][0][1], 'pin'):
                    bad('pin', 'the given PIN is not used to connect')
                if x[0] == 'sendSms':
                    a = [y for p, y in x[2]]
                    if a and not about(a[0], 'destination'):
                        bad('destination', 'the message is not sent to the given destination')
                    if len(a) > 1 and not (sym('typed', 'str') in a[1].subs or a[1].op in ('sym', 'm')):
                        bad('text', 'the message sent is not the text that was typed')
                    if len(a) > 2 and not about(a[2], 'deliver', conds):
                        bad('report', 'a delivery report is not awaited exactly as requested')
            if failed and not fail:
                bad('success after %s' % failed[0][0], 'ends with exit status 0 although %s failed (%s)' % (failed[0][0] + '()', failed[0][1]))
            if failed:
                i = steps.index(failed[0])
                if any(x[0] in ('sendSms', 'waitForNetworkCoverage', 'connect') for x in steps[i + 1:]) and failed[0][0] in ('connect', 'waitForNetworkCoverage'):
                    bad('%s after failure' % steps[i + 1][0], 'goes on after %s() failed' % failed[0][0])
                if failed[0][0] in ('waitForNetworkCoverage', 'sendSms') and failed[0][1] == 'TimeoutException' and not done('close'):
                    bad('open after %s' % failed[0][0], 'the modem is not closed after %s() timed out' % failed[0][0])
            if names.count('sendSms') > 1:
                bad('sent twice', 'the message may be sent more than once')
            if 'sendSms' in names:
                if 'waitForNetworkCoverage' not in names[:names.index('sendSms')]:
                    bad('no coverage', 'the message is sent without waiting for network coverage')
                if 'connect' not in names[:names.index('sendSms')]:
                    bad('not connected', 'the message is sent before connecting')
                if names.index('sendSms') > (names.index('close') if 'close' in names else 99):
                    bad('closed', 'the message is sent after the modem was closed')
            if not fail and script == 'sendsms':
                if not done('sendSms'):
                    bad('success without sending', 'ends with exit status 0 although nothing was sent')
                elif not done('close'):
                    bad('not closed', 'the modem is not closed after sending')
            if not fail and script != 'sendsms' and not done('connect'):
                bad('success without connecting', 'ends with exit status 0 without having connected')
            if not fail and script == 'sendsms':
                said = ' '.join(shown).lower()
                ok = w.p.cls('SentSms').attrs.get('DELIVERED')
                ok = const(ok.value) if isinstance(ok, ast.Constant) else None
                ok2 = w.p.cls('StatusReport').attrs.get('DELIVERED')
                ok2 = const(ok2.value) if isinstance(ok2, ast.Constant) else None
                isreport = lambda t: any(x.op == 'attr' and x.args[1] == 'deliveryStatus' for x in t.args if isinstance(x, T))
                tests = [(t, val) for t, val in conds if t.op in ('eq', 'ne') and (sym('status', 'int') in t.args and ok in t.args or isreport(t) and ok2 in t.args)]
                st_ = [val if t.op == 'eq' else not val for t, val in tests]
                rep.ob('T06', '%s: says %r with the tests %s' % (script, said[-60:], [(show(t), val) for t, val in conds]))
                if 'delivered' in said and 'fail' not in said and (False in st_ or not st_):
                    bad('claims delivery', 'says that the message was delivered although it was not')
                if 'fail' in said and True in st_:
                    bad('denies delivery', 'says that delivery failed although the message was delivered')
            if fail and not failed and kind == 'raise' and done('sendSms') and script == 'sendsms':
                bad('failure after sending', 'ends with an error (%s) although the message was sent' % v.name)
            if script == 'sendsms' and fail and kind == 'raise' and v.name == 'SystemExit' and not steps:
                if not any(NS['port'] in t.subs for t, val in conds):
                    und += 1
        if und:
            rep.note('%s: %d exits undecided' % (script, und))


def about(t, name, conds=()):
    """does a value come from this option"""
    if not isinstance(t, T):
        return True
    if any(x in t.subs for x in NS.values()):
        return NS[name] in t.subs
    if t.op == 'const':
        return any(NS[name] in c.subs and (c.op != 'truthy' or bool(cval(t)) == val) for c, val in conds)
    return True


# ---------------------------------------------------------------------------- T05
class Port(Monitor):
    """what the terminal does with the port"""
    name = 'term'
    init = (0, ())
    shows = False

    def on(self, ev, st):
        n, out = self.get(st)
        if ev.kind == 'key':
            return self.put(st, (n + 1, out))
        if ev.kind == 'did':
            return self.put(st, (n, out + (ev.what,)))
        if ev.kind == 'call' and ev.name == 'write' and ev.target is None and ev.recv is PORT:
            return self.put(st, (n, out + (('write', ev.args[0] if ev.args else None),)))
        if self.shows and ev.kind == 'call' and ev.target is None and (str(ev.name).endswith(('stdout.write', 'stdout.writelines')) or ev.name == 'print'):
            return self.put(st, (n, out + (('shown', tuple(ev.args)),)))
        return st


PORT = sym('port', 'Serial')
SPECIAL = {'left': 'CURSOR_LEFT', 'right': 'CURSOR_RIGHT', 'up': 'CURSOR_UP', 'down': 'CURSOR_DOWN', 'delete': 'DELETE', 'home': 'HOME', 'end': 'END'}
CONTROL = {'backspace': chr(127), 'enter': '\n', 'tab': '\t', 'ctrl-z': chr(26), 'esc': chr(27), 'exit': '\x1d', 'ctrl-d': chr(4)}


class Terminal(Codec):
    def getattr(self, b, name, st, node):
        if b.op == 'sym' and str(b.args[0]).startswith('!glob:') and str(b.args[0]).endswith('.console'):
            c = self.p.cls('Console')
            if name in c.attrs:
                return self.ev(c.attrs[name], st)
        return Codec.getattr(self, b, name, st, node)


class Decided(Monitor):
    """the state is followed exactly: a test on something that is not known makes it undecided (the display and the thread apart)"""
    name = 'decided'
    init = False

    def on(self, ev, st):
        if ev.kind == 'branch' and ev.term.op != 'const' and not any(x.op == 'sym' and ('thread' in str(x.args[0]).lower() or 'olor' in str(x.args[0])) for x in ev.term.leaves):
            return self.put(st, True)
        return st


class TermLab(object):
    def __init__(self, rep, w):
        self.rep, self.w = rep, w
        c = codec_config()
        c.recursion = 3
        c.serial_faults = False
        self.mon = Port()
        self.decided = Decided()
        self.eng = Terminal(w.p, [self.mon, self.decided], c)
        self.eng.max_steps = 60000
        self.cls = w.p.cls('GsmTerm')
        self.keys = ()
        self.matches = 'none'
        self.answer = 'prompt'
        self.table = {}
        self.odd = []
        c.methods['getkey'] = lambda eng, recv, args, kwargs, st, node: self.getkey(st, node)
        c.methods['cleanup'] = c.methods['setup'] = lambda eng, recv, args, kwargs, st, node: [(NONE, st)]
        k = w.p.lookup(w.p.cls('Console'), 'getkey')[0]
        c.opaque[k.qual] = lambda eng, func, env, st, node: self.getkey(st, node)
        trie = w.p.cls('Trie')
        for n, m in (('keys', self.trie_keys), ('longestCommonPrefix', self.trie_lcp), ('get', self.trie_get), ('__getitem__', self.trie_item), ('__setitem__', self.trie_store), ('__init__', model_none), ('__iter__', self.trie_iter)):
            f = w.p.lookup(trie, n)[0]
            if f is not None:
                c.opaque[f.qual] = m
        c.opaque[w.p.method('SerialComms', 'write').qual] = self.write
        for n in ('close', 'connect'):
            f = w.p.lookup(self.cls, n)[0]
            c.opaque[f.qual] = (lambda n: lambda eng, func, env, st, node: [(NONE, eng.emit(st, 'did', node, what=(n,)))])(n)
        # the input loop is what start() runs in a thread
        from .serial import Spawns
        sp = Spawns()
        mc = Machine(w.p, [sp], Config())
        f = w.p.lookup(self.cls, 'start')[0]
        me, st = mc.new_instance(State(), self.cls, 'self')
        mc.run(f, {f.params[0]: me}, st)
        self.loop = None
        for t, ev in sp.seen:
            if t.op == 'bm' and t.args[0] in w.p.funcs:
                g = w.p.funcs[t.args[0]]
                if g.cls is not None and g.cls.name in ('GsmTerm', 'RawTerm'):
                    self.loop = g

    # models
    def getkey(self, st, node):
        n, _ = self.mon.get(st)
        if n >= len(self.keys):
            self.ends.append(('waits', st))
            return []
        return [(const(self.keys[n]), self.eng.emit(st, 'key', node))]

    def trie_keys(self, eng, func, env, st, node):
        p = env.get(func.params[1]) if len(func.params) > 1 else None
        if not isinstance(p, T) or p.op != 'const' or not isinstance(cval(p), str):
            v, st = eng.fresh(st.degrade(), eng.site(st, node, 'keys'), 'list:str')
            return [(v, st)]
        p = cval(p)
        st = eng.emit(st, 'did', node, what=('complete', p))
        if self.matches == 'table':
            xs = sorted(k for k in self.table if k.startswith(p))
        else:
            xs = {'none': [], 'same': [p], 'one': [p + 'ONE'], 'two': [p + 'ONX', p + 'ONY']}[self.matches]
        r, st = eng.alloc(st, node, Obj('list', None, {}, tuple(const(x) for x in xs)), 'keys')
        return [(r, st)]

    def trie_store(self, eng, func, env, st, node):
        k, v = env.get(func.params[1]), env.get(func.params[2])
        if isinstance(k, T) and k.op == 'const':
            self.table[cval(k)] = v
        else:
            self.odd.append(k)
        return [(NONE, st)]

    def trie_iter(self, eng, func, env, st, node):
        r, st = eng.alloc(st, node, Obj('list', None, {}, tuple(const(x) for x in sorted(self.table, key=repr))), 'all')
        return [(r, st)]

    def trie_lcp(self, eng, func, env, st, node):
        p = env.get(func.params[1]) if len(func.params) > 1 else None
        if isinstance(p, T) and p.op == 'const' and isinstance(cval(p), str):
            if self.matches == 'table':
                return [(const(os.path.commonprefix([k for k in self.table if k.startswith(cval(p))])), st)]
            return [(const(cval(p) + {'none': '', 'same': '', 'one': 'ONE', 'two': 'ON'}[self.matches]), st)]
        v, st = eng.fresh(st.degrade(), eng.site(st, node, 'lcp'), 'str')
        return [(v, st)]

    def trie_get(self, eng, func, env, st, node):
        k = env.get(func.params[1])
        if self.matches == 'table' and isinstance(k, T) and k.op == 'const' and cval(k) in self.table:
            return [(self.table[cval(k)], st)]
        return [(env.get(func.params[2], NONE) if len(func.params) > 2 else NONE, st)]

    def trie_item(self, eng, func, env, st, node):
        k = env.get(func.params[1])
        if self.matches == 'table' and isinstance(k, T) and k.op == 'const' and cval(k) in self.table:
            return [(self.table[cval(k)], st)]
        eng.throw(Exc('KeyError', True, (), None), st, node)
        return []

    def write(self, eng, func, env, st, node):
        st = eng.emit(st, 'did', node, what=('command', env.get(func.params[1])))
        if self.answer == 'timeout':
            eng.throw(new_exc(eng, 'TimeoutException', ()), st, node)
            return []
        r, st = eng.alloc(st, node, Obj('list', None, {}, (const('> ' if self.answer == 'prompt' else 'ERROR'),)), 'answer')
        return [(r, st)]

    # runs
    def start(self):
        init = self.w.p.lookup(self.cls, '__init__')[0]
        st = State().with_heap(('term', 0), Obj('instance', self.cls, {'$pin': TRUE}))
        me = T('ref', ('term', 0))
        env = {init.params[0]: me}
        for x, d in (('port', const('/dev/x')), ('baudrate', const(9600)), ('useColor', FALSE)):
            if x in init.params:
                env[x] = d
        self.eng.steps = 0
        outs = self.eng.run(init, env, st)
        self.rep.ran(self.eng, outs)
        outs = [s for k, v, s in outs if k == 'return' and not s.degraded]
        if len(outs) != 1:
            return None
        st = outs[0]
        o = st.heap[('term', 0)]
        st = st.with_heap(('term', 0), Obj('instance', o.cls, dict(o.attrs, serial=PORT, alive=TRUE)))
        return self.freeze(st)

    def freeze(self, st):
        o = st.heap[('term', 0)]
        return ('obj', o.cls, tuple(sorted((k, self.piece(k, freeze(v, st, (('term', 0),)))) for k, v in o.attrs.items() if k != '$pin' and isinstance(v, T))))

    def piece(self, k, f):
        """what is not understood is some unknown value"""
        if f[0] == 'obj':
            return ('obj', f[1], tuple((x, self.piece(x, v)) for x, v in f[2]))
        return ('val', sym('?' + k)) if f[0] in ('?', 'loop') or f[0] != 'val' and unknown(f) else f

    def press(self, f, keys, matches='none', answer='prompt'):
        """-> (ended by, what was done, frozen terminal) or None"""
        self.keys, self.matches, self.answer = keys, matches, answer
        st = State()
        attrs = {'$pin': TRUE}
        n = itertools.count()
        for k, v in f[2]:
            attrs[k], st = thaw(v, st, n)
        st = st.with_heap(('term', 0), Obj('instance', self.cls, attrs))
        self.eng.steps = 0
        self.ends = []
        try:
            outs = self.eng.run(self.loop, {self.loop.params[0]: T('ref', ('term', 0))}, st)
        except Budget:
            return None
        self.rep.ran(self.eng, outs)
        res = set()
        for k, s in self.ends + [(v.name if k == 'raise' else 'return', s) for k, v, s in outs]:
            if s.degraded or self.decided.get(s):
                return None
            n, did = self.mon.get(s)
            res.add((k, did, self.freeze(s)))
        if len(res) != 1:
            return None
        return res.pop()


def stream(did):
    """the text sent to the modem (None if unknown), and the rest"""
    out = []
    rest = []
    for d in did:
        if d[0] in ('write', 'command'):
            if d[1] is None or not isinstance(d[1], T) or d[1].op != 'const':
                return None, rest
            v = cval(d[1])
            out.append(v.decode('latin-1') if isinstance(v, bytes) else v)
        else:
            rest.append(d)
    return ''.join(out), rest


def editor(m, key, case):
    """the expected line editor: -> (state, text sent, still running)"""
    buf, cur, hist, pos, sms = m
    sent = ''
    if len(key) == 1:
        buf, cur = buf[:cur] + key + buf[cur:], cur + 1
    elif key == 'left':
        cur = max(0, cur - 1)
    elif key == 'right':
        cur = min(len(buf), cur + 1)
    elif key == 'home':
        cur = 0
    elif key == 'end':
        cur = len(buf)
    elif key == 'backspace' and cur:
        buf, cur = buf[:cur - 1] + buf[cur:], cur - 1
    elif key == 'delete':
        buf = buf[:cur] + buf[cur + 1:]
    elif key == 'up' and pos > 0:
        pos -= 1
        buf = hist[pos]
        cur = len(buf)
    elif key == 'down' and pos < len(hist) - 1:
        pos += 1
        buf = hist[pos]
        cur = len(buf)
    elif key == 'tab':
        p = buf.strip().upper()
        if case in ('one', 'two'):
            buf = p + {'one': 'ONE', 'two': 'ON'}[case]
            cur = len(buf)
    elif key == 'enter':
        if sms:
            sent, buf, cur = buf[:cur], buf[cur:], 0
        else:
            line = buf.strip()
            buf, cur = '', 0
            if line:
                hist = hist + (line,)
                pos = len(hist)
                low = line.lower()
                if line[0] == '?' or line[-2:] == '??' and len(line) > 2 or low.startswith('help') or low == 'lscat':
                    pass
                elif low.startswith('at+cmgs='):
                    sent = line + '\r'
                    sms = case == 'prompt'
                else:
                    sent = line + '\r'
    elif key == 'ctrl-z' and sms:
        sent, buf, cur, sms = buf + chr(26), '', 0, False
    elif key == 'esc' and sms:
        sent, buf, cur, sms = chr(27), '', 0, False
    elif key in ('exit', 'ctrl-d'):
        return m, '', False
    return (buf, cur, hist, pos, sms), sent, True


def char_of(w, key):
    if key in SPECIAL:
        e = w.p.cls('Console').attrs.get(SPECIAL[key])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Constant) and all(isinstance(a, ast.Call) and isinstance(a.args[0], ast.Constant) for a in e.args):
            return ''.join(chr(a.args[0].value) for a in e.args)
        return e.value if isinstance(e, ast.Constant) else None
    return CONTROL.get(key, key)


def _term_part(job):
    """the keys pressed in some states -> transitions"""
    w, rep, job = _w['w'], Report_part(_w['rep']), job
    tl = _w.get('tl') or TermLab(rep, w)
    tl.rep = rep
    out = []
    for f, m in job:
        for key in KEYS_PRESSED + tuple(c for c in 'xyz' if c not in m[0])[:1] + ((' ',) if ' ' not in m[0] and len(m[0]) == 1 else ()):
            cases = ('none', 'one', 'two', 'same') if key == 'tab' and m[0].strip() else ('prompt',)
            if key == 'tab' and not m[0].strip():
                continue
            for case in cases:
                c = char_of(w, key)
                if not c:
                    continue
                r = tl.press(f, (c,), case if key == 'tab' else 'none', case if key != 'tab' else 'prompt')
                out.append((f, m, key, case, r))
    return rep, out


KEYS_PRESSED = ('left', 'right', 'up', 'down', 'home', 'end', 'backspace', 'delete', 'enter', 'tab', 'ctrl-z', 'esc', 'exit', 'ctrl-d')


def judge(rep, tl, m, key, case, r, where, before=''):
    """one key against the expected editor -> the next state or None"""
    m2, sent, runs = editor(m, key, case)
    text, rest = stream(r[1])
    name = key if len(key) > 1 else 'a character'
    what = 'pressing %s with %r, cursor at %d%s%s' % (repr(key) if len(key) == 1 else key, m[0], m[1], ', %d commands before' % len(m[2]) if m[2] else '', ', while typing a message' if m[4] else '')
    if case in ('one', 'two', 'same') or key == 'tab':
        what += ' (completions: %s)' % case
    if runs and r[0] == 'return' or not runs and r[0] != 'return':
        rep.bad('T05', 'end: ' + name, where, '%s %s' % (what, 'ends the terminal' if runs else 'does not end the terminal (%s)' % r[0]))
        return None
    if runs and r[0] != 'waits':
        rep.bad('T05', 'raises: ' + name, where, '%s raises %s' % (what, r[0]))
        return None
    if not runs and ('close',) not in rest:
        rep.bad('T05', 'not closed: ' + name, where, '%s does not close the port' % what)
    if key == 'tab':
        ps = [d[1] for d in rest if d[0] == 'complete']
        if ps and ps[0] != m[0].strip().upper():
            rep.bad('T05', 'completion asked for', where, '%s looks for the completions of %r' % (what, ps[0]))
            return None
    if text is None:
        return None
    if text != sent and not (key == 'enter' and m[4] and text in (sent + '\r', sent + '\n', sent + '\r\n')):
        rep.bad('T05', 'sent: ' + name, where, '%s sends %r instead of %r' % (what, text, sent))
        return None
    return m2 if runs else None


def check_T05(rep, root, tier):
    """the line editor of GSMTerm"""
    w = World(root)
    tl = TermLab(rep, w)
    if tl.loop is None:
        rep.note('the input loop is not found')
        return
    f0 = tl.start()
    if f0 is None:
        rep.note('the state of a new terminal is not understood')
        return
    where = tl.loop.loc
    und = 0
    limit = 6000 if tier == 'thorough' else 420
    m0 = ('', 0, (), 0, False)
    states = [(f0, m0)]
    # message mode: entered by AT+CMGS=, by the answer of the modem
    for cmd in ('AT+CMGS=1', 'at+cmgs=1'):
        for answer in ('prompt', 'error', 'timeout'):
            r = tl.press(f0, tuple(cmd) + ('\n',), answer=answer)
            if r is None:
                und += 1
                continue
            m = (cmd, len(cmd), (), 0, False)
            rep.ob('T05 message mode', '%s, %s' % (cmd, answer))
            m2 = judge(rep, tl, m, 'enter', answer, r, where)
            if m2 is not None:
                states.append((r[2], m2))
    # lines that are commands of the terminal
    for line in ('AT', ' AT ', 'at?', '+', 'A/', '?AT', 'AT??', 'AT=??', 'help', 'HELP AT', 'lscat', '   ', 'x??'):
        r = tl.press(f0, tuple(line) + ('\n',))
        if r is None:
            und += 1
            continue
        rep.ob('T05 lines', repr(line))
        judge(rep, tl, (line, len(line), (), 0, False), 'enter', 'prompt', r, where)
    # a long history
    keys, m, sent = (), m0, ''
    for key in [k for i in range(103) for k in (chr(65 + i % 26), chr(65 + i // 26), 'enter')] + ['up'] * 21 + ['down', 'enter']:
        keys += (char_of(w, key),)
        m, x, _ = editor(m, key, 'prompt')
        sent += x
    r = tl.press(f0, keys)
    if r is None:
        und += 1
    else:
        rep.ob('T05 history', '103 commands')
        rep.check(r[0] == 'waits' and stream(r[1])[0] in (None, sent), 'T05', 'long history', where, 'after 103 commands, going back 21 times and forth once and pressing enter sends %r (%s) instead of %r' % (
            (stream(r[1])[0] or '?')[-10:], r[0], sent[-10:]))
    _w.update(w=w, rep=rep, tl=tl)
    seen = set(states)
    work = states
    n = 0
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(8, os.cpu_count() or 1)) as pool:
        while work and not rep.findings:
            jobs = [work[i:i + 3] for i in range(0, len(work), 3)]
            nxt = []
            for r0, out in pool.imap(_term_part, jobs):
                rep.absorb(r0)
                for f, m, key, case, r in out:
                    if r is None:
                        und += 1
                        continue
                    n += 1
                    rep.ob('T05 keys', '%s%s' % (key if len(key) > 1 else 'character', ', message mode' if m[4] else ''))
                    m2 = judge(rep, tl, m, key, case, r, where)
                    if m2 is None or unknown_term(r[2], f0):
                        continue
                    s = (r[2], m2)
                    if s not in seen and small(m2) and len(seen) < limit:
                        seen.add(s)
                        nxt.append(s)
            work = nxt
    rep.ob('T05', '%d states, %d keys pressed' % (len(seen), n))
    if und:
        rep.note('%d of %d keys undecided' % (und, und + n))


def small(m):
    buf, cur, hist, pos, sms = m
    return len(buf) <= (3 if not hist else 2) and len(hist) <= 2 or 'AT+CMGS' in ''.join(hist).upper() and len(buf) <= 2 and len(hist) <= 1


def unknown_term(f, f0=None):
    """something that was known in f0 is not known any more"""
    old = dict(f0[2]) if f0 else {}
    return any(v[0] == 'val' and v[1].op == 'sym' and str(v[1].args[0]) == '?' + k and old.get(k) != v for k, v in f[2])


# ---------------------------------------------------------------------------- T04
def plain(t):
    """a constant table entry as a value; ValueError if it is not one"""
    if isinstance(t, T) and t.op == 'const':
        return cval(t)
    if isinstance(t, T) and t.op in ('tuple', 'clist'):
        return tuple(plain(x) for x in t.args)
    raise ValueError


def shown(did):
    """the text shown; None in place of what is not known"""
    out = []
    for d in did:
        if d[0] == 'shown':
            for a in d[1]:
                if a.op == 'const' and isinstance(cval(a), str):
                    out.append(cval(a))
                elif a.op == 'str':
                    out += [cval(x) if x.op == 'const' else None for x in a.args]
                else:
                    out.append(None)
    return out


def squeeze(s):
    return ''.join(s.split())


def wanted(e):
    """the texts that the help of a command has to show"""
    out = [e[0], e[1]]
    if len(e) > 2:
        for i in (2, 3):
            for name, text in e[i] or ():
                out += [name, text or '']
        out += [e[4] or '', e[5] if len(e) > 5 and e[2] is not None else '']
    return [x for x in out if x]


def _help_part(cmds):
    w, rep, tl, f0 = _w['w'], _w['rep'].part(), _w['tl'], _w['f0']
    tl.rep = rep
    bad, und = [], 0
    for c in cmds:
        try:
            e = plain(tl.table[c])
        except ValueError:
            e = None
            und += 1
        if e is None:
            continue
        forms = ['?' + c, c + '??', 'help ' + c, '?' + c.lower(), c.lower() + '=??'] if len(c) > 1 else []
        for line in forms:
            r = tl.press(f0, tuple(line) + ('\n',), 'table')
            if r is None:
                und += 1
                continue
            rep.ob('T04 help', line)
            if r[0] != 'waits':
                bad.append(('help ends: ' + c, 'showing the help of %s (%s) ends the terminal (%s)' % (c, line, r[0])))
                continue
            text, rest = stream(r[1])
            if text:
                bad.append(('help sends: ' + c, '%s sends %r to the modem' % (line, text)))
            xs = shown(r[1])
            whole = squeeze(''.join(x for x in xs if x))
            after = xs[len(line):]
            for x in wanted(e):
                if squeeze(x) not in whole and None not in [y for y in after if y != after[-1]]:
                    bad.append(('help: ' + c, '%s does not show %r' % (line, x[:60])))
                    break
        for line in (c, c.lower(), c[:-1]):
            if not line.strip():
                continue
            r = tl.press(f0, tuple(line) + ('\t',), 'table')
            q = tl.press(f0, tuple(line) + ('\t', '\n'), 'table')
            if r is None or q is None:
                und += 1
                continue
            rep.ob('T04 completion', line)
            if r[0] != 'waits' or q[0] != 'waits':
                bad.append(('completion ends: ' + c, 'completing %s ends the terminal (%s)' % (line, r[0] if r[0] != 'waits' else q[0])))
                continue
            ms = sorted(k for k in tl.table if k.startswith(line.upper()))
            goal = os.path.commonprefix(ms) if ms else line
            text, rest = stream(q[1])
            if text is not None and text.upper() != goal.upper() + '\r' and goal.strip().lower() not in ('at+cmgs=', 'ls', 'help'):
                bad.append(('completion: ' + c, 'completing %s and pressing enter sends %r instead of %r' % (line, text, goal + '\r')))
            xs = shown(r[1])[len(line):]
            whole = squeeze(''.join(x for x in xs if x))
            if len(ms) > 1 and len(ms) <= 20:
                for k in ms:
                    if squeeze(k) not in whole:
                        bad.append(('matches: ' + c, 'completing %s does not show %s' % (line, k)))
            if ms == [line.upper()] and len(e) > 2 and e[2]:
                for v in e[2]:
                    if squeeze(v[0]) not in whole:
                        bad.append(('syntax: ' + c, 'completing %s does not show its parameter %s' % (line, v[0])))
    return rep, bad, und


def check_T04(rep, root, tier):
    """the built in documentation of the AT commands"""
    w = World(root)
    tl = TermLab(rep, w)
    if tl.loop is None:
        rep.note('the input loop is not found')
        return
    f0 = tl.start()
    if f0 is None:
        rep.note('the state of a new terminal is not understood')
        return
    where = tl.loop.loc
    m = w.p.modules.get('gsmtermlib.atcommands')
    table = None
    if m is not None:
        try:
            table = plain(tl.eng.global_name(m, 'ATCOMMANDS'))
        except ValueError:
            rep.note('the table is not a constant')
    if tl.odd or not tl.table:
        rep.note('the commands known to the terminal are not understood')
        return
    if table is not None:
        names = [e[0] for e in table]
        at = m.relpath
        for n in sorted(set(names)):
            rep.check(len(set(e[1] for e in table if e[0] == n)) == 1, 'T04', 'twice: ' + n, at, '%s is in the table of AT commands more than once: only the last entry can be shown' % n)
            rep.check(n == n.upper().strip(), 'T04', 'name: ' + n, at, '%r can not be found: commands are looked up in upper case, without spaces' % n)
        for e in table:
            rep.check(len(e) == 2 and e[0] in tl.table, 'T04', 'unknown: ' + e[0], at, '%s is not known to the terminal' % e[0])
            if e[0] in tl.table and names.count(e[0]) == 1:
                try:
                    rep.check(plain(tl.table[e[0]]) == e[1], 'T04', 'entry: ' + e[0], where, 'the terminal knows other documentation for %s than that of the table' % e[0])
                except ValueError:
                    pass
    tl.mon.shows = True
    und = 0
    cmds = sorted(tl.table)
    if tl.start() is None:
        return
    # the lists
    r = tl.press(f0, tuple('ls\n'), 'table')
    c = tl.press(f0, tuple('lscat\n'), 'table')
    entries = {}
    for k in cmds:
        try:
            entries[k] = plain(tl.table[k])
        except ValueError:
            und += 1
    if r is None or c is None:
        und += 1
    else:
        for x, n in ((r, 'ls'), (c, 'lscat')):
            rep.check(x[0] == 'waits' and not stream(x[1])[0], 'T04', n, where, '%s %s' % (n, 'sends something to the modem' if x[0] == 'waits' else 'ends the terminal (%s)' % x[0]))
        xs = shown(r[1])[2:]
        if None not in xs[:-2]:
            whole = squeeze(''.join(x for x in xs if x))
            for k, e in entries.items():
                rep.ob('T04 ls', k)
                rep.check(e is None or squeeze(k) in whole and squeeze(e[1]) in whole, 'T04', 'ls: ' + k, where, 'ls does not list %s' % k)
        cats = [squeeze(x) for x in shown(c[1])[5:] if x]
        for cat in sorted(set(e[0] for e in entries.values() if e)):
            if None not in shown(c[1])[6:-2]:
                rep.check(squeeze(cat) in ''.join(cats), 'T04', 'category: ' + cat, where, 'the category %s is not listed by lscat' % cat)
            for line in ('ls ' + cat, 'ls ' + cat.lower()):
                x = tl.press(f0, tuple(line) + ('\n',), 'table')
                if x is None:
                    und += 1
                    continue
                rep.ob('T04 ls', line)
                if x[0] != 'waits' or stream(x[1])[0]:
                    rep.bad('T04', 'ls category: ' + cat, where, '%r %s' % (line, 'is sent to the modem' if x[0] == 'waits' else 'ends the terminal (%s)' % x[0]))
                    continue
                xs = shown(x[1])[len(line):]
                if None in [y for y in xs if y != xs[-1]]:
                    continue
                lines = [y.split()[0] for y in xs if y and y.split()]
                mine = sorted(k for k, e in entries.items() if e and e[0] == cat)
                missing = [k for k in mine if k not in lines]
                other = [k for k in lines if k in entries and k not in mine]
                rep.check(not missing and not other, 'T04', 'ls category: ' + cat, where, '%r lists %s' % (line, 'not ' + missing[0] if missing else '%s' % other[:1]))
    for line in ('?AT+NOSUCH', 'AT+NOSUCH??', 'help AT+NOSUCH', 'help', 'ls nosuch'):
        x = tl.press(f0, tuple(line) + ('\n',), 'table')
        if x is None:
            und += 1
            continue
        rep.ob('T04 help', line)
        rep.check(x[0] == 'waits', 'T04', 'help ends: ' + line, where, '%r ends the terminal (%s)' % (line, x[0]))
    _w.update(w=w, rep=rep, tl=tl, f0=f0)
    n = min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as pool:
        for r0, bad, u in pool.imap(_help_part, [cmds[i::2 * n] for i in range(2 * n)]):
            rep.absorb(r0)
            und += u
            for k, msg in bad:
                rep.bad('T04', k, where, msg)
    if und:
        rep.note('%d cases undecided' % und)


# ---------------------------------------------------------------------------- T02
class Tty(Monitor):
    """the settings of the console, and what runs at exit"""
    name = 'tty'
    init = (None, 0, ())

    def on(self, ev, st):
        cur, n, reg = self.get(st)
        if ev.kind == 'ttyset':
            return self.put(st, (ev.to, n + 1, reg))
        if ev.kind == 'atexit':
            return self.put(st, (cur, n, reg + ((ev.what, ev.args),)))
        return st


class Script(Codec):
    """a module level run: what it assigned is known to the functions"""
    names = {}

    def global_name(self, mod, name):
        if name in self.names:
            return self.names[name]
        return Codec.global_name(self, mod, name)

    def index(self, k):
        n = k.args[0] if k.op == 'ext' else None
        return const({'termios.VINTR': 0, 'termios.VEOF': 4, 'termios.VTIME': 5, 'termios.VMIN': 6}[n]) if n in ('termios.VINTR', 'termios.VEOF', 'termios.VTIME', 'termios.VMIN') else k

    def setitem(self, b, k, v, st, node):
        return Codec.setitem(self, b, self.index(k), v, st, node)

    def item(self, b, k, st, node):
        return Codec.item(self, b, self.index(k), st, node)


def statements(body):
    """the statements that run when the module is imported on Linux"""
    out = []
    for x in body:
        if isinstance(x, ast.If):
            b = live_branch(x.test)
            if b is not None:
                out += statements(x.body if b else x.orelse)
                continue
        if isinstance(x, (ast.ClassDef, ast.FunctionDef, ast.Import, ast.ImportFrom, ast.Global, ast.Pass)) or isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
            continue
        out.append(x)
    return out


def check_T02(rep, root, tier):
    """the settings of the console are what they were before"""
    w = World(root)
    mod = w.p.modules.get('gsmtermlib.terminal')
    if mod is None:
        rep.bad('T02', 'terminal', 'tools/gsmtermlib', 'there is no module gsmtermlib.terminal')
        return
    mon = Tty()
    c = codec_config()
    c.recursion = 1
    eng = Script(w.p, [mon, Decided()], c)
    dec = eng.monitors[1]
    before = ('list', tuple(('val', sym('tty%d' % i, 'int')) for i in range(6)) + (('list', tuple(('val', sym('cc%d' % i, 'int')) for i in range(32))),))
    fd = []

    def get(eng, args, kwargs, st, node):
        cur = mon.get(st)[0] or before
        if lost(cur):
            st = st.degrade()
            v, st = eng.fresh(st, eng.site(st, node, 'tty'), 'list')
            return [(v, st)]
        fd.append(args[0] if args else None)
        gen = eng.emit(st, 'ttyget', node)
        v, st = thaw(cur, gen, itertools.count(100 * next(count)))
        return [(v, st)]

    def put(eng, args, kwargs, st, node):
        fd.append(args[0] if args else None)
        if len(args) < 3:
            return [(NONE, st.degrade())]
        return [(NONE, eng.emit(st, 'ttyset', node, to=freeze(args[2], st)))]

    def register(eng, args, kwargs, st, node):
        if not args or kwargs:
            return [(NONE, st.degrade())]
        return [(args[0], eng.emit(pinned_also(st, *args), 'atexit', node, what=args[0], args=tuple(args[1:])))]

    def pinned_also(st, *ts):
        o = st.heap.get(('atexit', 0))
        return st.with_heap(('atexit', 0), Obj('list', None, {'$pin': TRUE}, (o.items if o else ()) + tuple(ts)))

    count = itertools.count(1)
    c.ext['termios.tcgetattr'] = get
    c.ext['termios.tcsetattr'] = put
    c.ext['atexit.register'] = register
    c.ext['sys.stdin.fileno'] = lambda eng, args, kwargs, st, node: [(sym('stdin', 'int'), st)]
    body = statements(mod.tree.body)
    names = sorted({n.id for x in body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    node = ast.parse('def script():\n    return (%s)' % ''.join(n + ', ' for n in names)).body[0]
    node.body = list(body) + node.body
    ast.fix_missing_locations(node)
    f = Func(mod, None, '<import>', node)
    outs = eng.run(f, {}, State())
    rep.ran(eng, outs)
    done = [o for o in outs if o[0] == 'return']
    rep.ob('T02', 'import: %d statements' % len(body))
    if not done:
        rep.note('importing the terminal is not understood')
        return
    where = mod.relpath
    for k, v, st in done:
        cur, n, reg = mon.get(st)
        if st.degraded or dec.get(st):
            rep.note('importing the terminal is not understood')
            continue
        if not n:
            rep.note('the settings of the console are not changed by importing the terminal')
            continue
        if not reg:
            later = any(restores(w, mod, m) for m in w.p.modules.values())
            if later:
                rep.note('what restores the settings is not run by atexit')
            else:
                rep.bad('T02', 'not restored', where, 'the settings of the console are changed, but nothing restores them at exit')
            continue
        if v.op == 'tuple':
            eng.names = dict(eng.names, **dict(zip(names, v.args)))
        sts = [st]
        ok = True
        for fn, args in reversed(reg):
            nxt = []
            for s in sts:
                s = s.push(Func(mod, None, '<exit>', ast.parse('def exit(): pass').body[0]), {})
                eng.sink = []
                eng.steps = 0
                nxt += [s2 for _, s2 in eng.call_value(fn, list(args), {}, s, node)]
                if eng.sink:
                    ok = False
            sts = nxt
        for s in sts:
            end = mon.get(s)[0]
            if s.degraded or dec.get(s) or lost(end) or not ok:
                rep.note('what runs at exit is not understood')
                continue
            rep.ob('T02', 'exit')
            rep.check(end == before, 'T02', 'changed', where, 'at exit the console does not get the settings it had before GSMTerm was started')
        if not sts:
            rep.note('what runs at exit is not understood')


def lost(f):
    return f[0] in ('?', 'loop') or f[0] in ('list', 'tuple') and any(lost(x) for x in f[1])


def restores(w, home, m):
    """something in this module may restore the settings of the console: it does so itself or in a function that is used"""
    console = [y for c in ast.walk(home.tree) if isinstance(c, ast.ClassDef) and c.name == 'Console' for y in ast.walk(c)]
    old = [y for a in ast.walk(m.tree) if isinstance(a, ast.Assign) and dotted(a.targets[0]) == 'sys.exitfunc' for y in ast.walk(a)]       # (Python 2)
    for x in ast.walk(m.tree):
        if not (isinstance(x, ast.Attribute) and x.attr in ('cleanup', 'tcsetattr', 'register')) or any(x is y for y in console) or any(x is y for y in old):
            continue
        around = [f for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.Lambda)) and any(y is x for y in ast.walk(f))]
        if not around:
            return True
        for f in around:
            own = list(ast.walk(f))
            name = getattr(f, 'name', None)
            if name is None or any((isinstance(y, ast.Name) and y.id == name or isinstance(y, ast.Attribute) and y.attr == name) and not any(y is z for z in own) and not any(y is z for z in old)
                                   for k in w.p.modules.values() for y in ast.walk(k.tree)):
                return True
    return False


RULES = {k[6:]: (v, 'other', TECH) for k, v in sorted(globals().items()) if k.startswith('check_')}
