"""Serial layer: exchanges, the reader thread, the port."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc, TAG_FACTS
from ..project import own_nodes, dotted, Class
from .. import regexlang


def falsy(t):
    return t is None or (t.op == 'const' and not cval(t)) or (t.op in ('tuple', 'clist') and not t.args)


def self_fields(st, oid=('self', 0)):
    o = st.heap.get(oid)
    return {k: v for k, v in o.attrs.items() if not k.startswith('$')} if o is not None else {}


class Spawns(Monitor):
    """records thread starts"""
    name = 'spawns'
    init = ()

    def __init__(self):
        self.seen = []

    def on(self, ev, st):
        if ev.kind == 'spawn':
            self.seen.append((ev.target, ev))
        return st


# ------------------------------------------------------------------- exchange
class Exchange(Monitor):
    """typestate of one SerialComms.write() call.  State: (sent, waited event, wait result, installed event, installed list)"""
    name = 'xchg'
    init = (False, None, None, None, None, None)

    def __init__(self, rep, rules):
        self.rep, self.rules = rep, rules
        self.locks = set()
        self.fields = {}
        self.sends = 0
        self.waits = 0

    def bad(self, rule, what, ev, msg):
        if rule in self.rules:
            self.rep.bad(rule, what, ev.where, msg)

    def on(self, ev, st):
        sent, waitev, waitres, evref, lst, expect = self.get(st)
        k = ev.kind
        if k == 'setattr' and is_self(ev.obj):
            v = ev.value
            self.fields.setdefault(ev.attr, set()).add(v)
            if not st.locks and 'S01' in self.rules and 'SerialComms' in ev.func:
                self.bad('S01', 'write: exchange state changed without the lock: ' + ev.attr, ev, 'the exchange state %s is changed while the lock is not held' % ev.attr)
            kind = self.eng.typ(v, st)
            if kind == 'Event' and v.op == 'ref':
                if sent and waitev is None:
                    self.bad('S02', 'write: waiter installed after sending', ev, 'the waiter is installed (or replaced) only after the command was written: a fast response is missed')
                evref = v
            elif kind == 'list' and v.op == 'ref' and v.args in st.heap and st.heap[v.args].items == ():
                if sent and waitev is None:
                    self.bad('S02', 'write: response buffer installed after sending', ev, 'the response buffer is replaced after the command was written: a fast response is lost')
                lst = v
            elif not falsy(v) and sent and waitev is None and kind in ('list', None) and v.op == 'ref':
                self.bad('S02', 'write: exchange state changed after sending: ' + ev.attr, ev, '%s is set up only after the command was written' % ev.attr)
            return self.put(st, (sent, waitev, waitres, evref, lst, expect))
        if k == 'call' and ev.name == 'write' and ev.recv is not None and self.eng.typ(ev.recv, st) in ('Serial', 'Serial?'):
            self.sends += 1
            held = [l for l in st.locks if is_field(l) is not None]
            self.rep.ob('S01', 'port write in ' + ev.func) if 'S01' in self.rules else None
            if not held:
                self.bad('S01', 'write: port write without the lock', ev, 'the serial port is written without holding a lock shared by all exchanges')
            for l in held:
                self.locks.add(l)
            if 'S02' in self.rules:
                if sent:
                    self.bad('S02', 'write: command written twice', ev, 'one exchange writes its data to the port twice')
                a = ev.args[0] if ev.args else None
                d = sym('data', 'str')
                if a is not None and a.op != 'sym' and d not in a.leaves:
                    self.bad('S02', 'write: other data written', ev, 'the data written to the port is not the data passed in (%s)' % show(a))
            cur = self_fields(st)
            self.at_send = None
            ok_ev = any(v.op == 'ref' and v.args in st.heap and st.heap[v.args].kind == 'Event' and '@' in v.args[0] for v in cur.values())
            ok_l = any(v.op == 'ref' and v.args in st.heap and st.heap[v.args].kind == 'list' and st.heap[v.args].items == () and '@' in v.args[0] for v in cur.values())
            return self.put(st, (True, waitev, waitres, evref if ok_ev else None, lst if ok_l else None, self.expect_installed(st, cur)))
        if k == 'result' and ev.name == 'wait' and self.eng.typ(ev.recv, st) in ('Event', 'Event?'):
            self.waits += 1
            if 'S01' in self.rules:
                if not [l for l in st.locks if is_field(l) is not None]:
                    self.bad('S01', 'write: waiting without the lock', ev, 'the lock is released while the response of the command is still awaited')
            if 'S02' in self.rules:
                if not sent:
                    self.bad('S02', 'write: waits before sending', ev, 'waits for a response before the command is written')
                if evref is None or ev.recv is not evref:
                    self.bad('S02', 'write: waits for something else', ev, 'waits on an event that the reader thread was not given before the command was written')
                if lst is None:
                    self.bad('S02', 'write: no fresh response buffer', ev, 'no fresh, empty response buffer is installed before the command is written')
                cur = list(self_fields(st).values())
                if evref is not None and not any(v is evref for v in cur):
                    self.bad('S02', 'write: waiter withdrawn before waiting', ev, 'the waiter is withdrawn (or replaced) between writing the command and waiting for its response')
                if lst is not None and not any(v is lst for v in cur):
                    self.bad('S02', 'write: response buffer withdrawn before waiting', ev, 'the response buffer is replaced between writing the command and waiting for its response')
                if expect is True and self.expect_installed(st, self_fields(st)) is False:
                    self.bad('S02', 'write: terminator withdrawn before waiting', ev, 'the expected terminator is withdrawn between writing the command and waiting for its response')
                if expect is False:
                    self.bad('S02', 'write: expected terminator not installed', ev, 'the expected terminator sequence is not announced to the reader before the command is written')
                a = ev.args[0] if ev.args else None
                if a is None or (a.op == 'const') or not (sym('timeout', 'int') in a.leaves):
                    self.bad('S02', 'write: wait not bounded by the timeout', ev, 'the wait for the response is not bounded by the timeout passed in')
            # the reader thread ran meanwhile: the contents of shared lists are unknown now
            for n, v in self_fields(st).items():
                if v.op == 'ref' and v.args in st.heap and st.heap[v.args].kind == 'list':
                    st = self.eng.havoc(v, st)
            return self.put(st, (sent, ev.recv, ev.value, evref, lst, expect))
        if k == 'result' and ev.name in ('is_set', 'isSet') and waitev is not None and waitres is not None:
            return self.put(st, (sent, waitev, ('or', waitres, ev.value), evref, lst, expect))
        if k == 'unlock' and sent and 'S01' in self.rules:
            return st
        return st

    def expect_installed(self, st, cur):
        e = sym('expect', 'str?')
        if self.eng.decide(self.eng.truth(e, st), st) is not True:
            return None
        for v in cur.values():
            if e in v.leaves:
                return True
            if v.op == 'ref' and v.args in st.heap:
                o = st.heap[v.args]
                for x in list(o.attrs.values()) + list(o.items or ()):
                    if isinstance(x, T) and e in x.leaves:
                        return True
        return False


def is_self(t):
    return t.op == 'ref' and t.args == ('self', 0)


def is_field(l):
    """the lock is a field of the analysed object (or of its class), not created on the spot"""
    if l.op == 'sym' and l.args[0].startswith('&self.'):
        return l.args[0][6:]
    if l.op == 'sym' and l.args[0].startswith('!'):
        return l.args[0][1:]
    if l.op == 'attr':
        return l.args[1]
    if l.op == 'ref' and '@' not in l.args[0]:
        return l.args[0]
    return None


def run_write(rep, w, rules):
    """write() analysed for every combination of: response requested or not, terminator given or not"""
    m = Exchange(rep, rules)
    f = w.p.method('SerialComms', 'write')
    outs = []
    for wait in (True, False):
        mc = Machine(w.p, [m], Config())
        st = State()
        me, st = mc.new_instance(st, w.serial, 'self')
        env = {'self': me, 'data': sym('data', 'str'), 'waitForResponse': const(wait), 'timeout': sym('timeout', 'int'), 'expectedResponseTermSeq': sym('expect', 'str?')}
        env = {k: v for k, v in env.items() if k in f.params}
        os_ = mc.run(f, env, st)
        rep.ran(mc, os_)
        outs += [(wait, k, v, s) for k, v, s in os_]
    return m, mc, f, outs


def check_S02(rep, root, tier):
    w = World(root)
    m, mc, f, outs = run_write(rep, w, {'S02'})
    rep.ob('S02', 'waiter, buffer and terminator installed before the port write')
    rep.check(m.sends > 0, 'S02', 'write: port write', f.loc, 'write() never writes to the serial port')
    rep.check(m.waits > 0, 'S02', 'write: wait', f.loc, 'write() never waits for the response')
    for wt, k, v, s in outs:
        sent, waitev, waitres, evref, lst, expect = m.get(s)
        rep.ob('S02', 'exit %s wait=%s waited=%s' % (k if k == 'return' else v.name, wt, waitev is not None))
        if wt is True and k == 'return':
            if waitev is None:
                rep.bad('S02', 'write: returns without waiting', f.loc, 'a path returns although a response was requested and never awaited')
                continue
            ok = decide_wait(mc, waitres, s)
            if ok is not True:
                rep.bad('S02', 'write: returns after a timeout', f.loc, 'a path returns normally although the response did not complete in time')
            if lst is not None and v is not lst:
                # a copy of the response is as good as the response
                if not (v.op == 'ref' and v.args in s.heap and s.heap[v.args].kind == 'list' and derived(v, lst, s)):
                    rep.bad('S02', 'write: returns something else', f.loc, 'the value returned is not the response collected for this command (%s)' % show(v))
        elif wt is True and k == 'raise':
            if v.name == 'TimeoutException':
                ok = decide_wait(mc, waitres, s) if waitres is not None else None
                if ok is not False:
                    rep.bad('S02', 'write: spurious timeout', f.loc, 'TimeoutException is raised although the response may be complete')
                if lst is not None:
                    n = mc.decide(T('lt', (const(0), mc.length(lst, s))), s)
                    a = [x for x in v.args if isinstance(x, T) and not is_k(x, None)]
                    if not a and n is not False:
                        rep.bad('S02', 'write: partial response lost', f.loc, 'the lines received before the timeout are not attached to the TimeoutException')
                    if a and a[0] is not lst and not derived(a[0], lst, s):
                        rep.bad('S02', 'write: timeout with other data', f.loc, 'the TimeoutException carries something else than the partial response (%s)' % show(a[0]))
            elif v.name not in ('serial.SerialException',):
                rep.bad('S02', 'write: raises ' + v.name, f.loc, 'write() fails with %s' % v.name)
        elif wt is False and k == 'return':
            if waitev is not None:
                rep.bad('S02', 'write: waits although no response was requested', f.loc, 'waits for a response although none was requested')
            if not is_k(v, None):
                rep.bad('S02', 'write: returns a response nobody waited for', f.loc, 'a value is returned although no response was requested')
            if not sent:
                rep.bad('S02', 'write: nothing written', f.loc, 'a path returns without writing the data to the port')


def derived(v, lst, s):
    """v is (a copy of) the list lst"""
    if v is lst:
        return True
    c0 = s.heap[lst.args].attrs.get('$c') if lst.args in s.heap else None
    if v.op == 'ref' and v.args in s.heap:
        o = s.heap[v.args]
        c1 = o.attrs.get('$c')
        if c1 is not None and c0 is not None and (c1 is c0 or c0 in c1.subs):
            return True
        if o.items is not None and len(o.items) == 1 and o.items[0].op == '*':
            return True
    if c0 is not None and c0 in v.subs or lst in v.subs:
        return True
    return False


def decide_wait(mc, r, s):
    if isinstance(r, tuple):
        a, b = decide_wait(mc, r[1], s), decide_wait(mc, r[2], s)
        if a is True or b is True:
            return True
        if a is False and b is False:
            return False
        return None
    return mc.decide(mc.truth(r, s), s)


def check_S03(rep, root, tier):
    w = World(root)
    m, mc, f, outs = run_write(rep, w, {'S03'})
    for wt, k, v, s in outs:
        nm = k if k == 'return' else v.name
        rep.ob('S03', 'exit ' + nm)
        if s.locks:
            rep.bad('S03', 'write: lock held on exit (%s)' % nm, f.loc, 'the lock is still held when write() ends with %s' % nm)
        for a, val in self_fields(s).items():
            if val.op == 'ref' and val.args in s.heap and s.heap[val.args].kind == 'Event':
                rep.bad('S03', 'write: waiter left behind (%s, %s)' % (a, nm), f.loc, 'the waiter %s is still installed when write() ends with %s: later lines are swallowed as its response' % (a, nm))
            e = sym('expect', 'str?')
            dep = e in val.leaves
            if val.op == 'ref' and val.args in s.heap and not falsy(val):
                o = s.heap[val.args]
                for x in list(o.attrs.values()) + list(o.items or ()):
                    if isinstance(x, T) and e in x.leaves:
                        dep = True
            if dep and mc.decide(mc.truth(e, s), s) is not False:
                rep.bad('S03', 'write: terminator left behind (%s, %s)' % (a, nm), f.loc, 'the expected terminator %s is still set when write() ends with %s: later lines are cut short' % (a, nm))
    # a waiter that was already installed when write() is entered (an earlier exchange) must not survive either: covered by induction


def lock_of(w):
    """lock fields of SerialComms/GsmModem: attribute -> (reentrant, [functions assigning it])"""
    out = {}
    for c in (w.serial, w.modem):
        for coll in (c.methods, c.getters, c.setters):
            for f in coll.values():
                for n in own_nodes(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Call):
                                d = dotted(n.value.func) or ''
                                r = w.p.resolve(f.mod, d.split('.')[0]) if d else None
                                last = d.split('.')[-1]
                                if last in ('RLock', 'Lock'):
                                    out.setdefault(t.attr, (last == 'RLock', []))[1].append((f, n))
                                    if last == 'Lock':
                                        out[t.attr] = (False, out[t.attr][1])
    return out


class LockUse(Monitor):
    """lock discipline of the callers: nesting, raw port access"""
    name = 'lockuse'
    init = ()

    def __init__(self, rep, skip):
        self.rep, self.skip = rep, skip
        self.nested = set()
        self.raw = 0

    def on(self, ev, st):
        if ev.kind == 'lock':
            if any(l is ev.lock for l in st.locks):
                self.nested.add((ev.lock, ev.where))
        elif ev.kind == 'call' and ev.name == 'write' and ev.recv is not None and ev.target is None and self.eng.typ(ev.recv, st) in ('Serial', 'Serial?'):
            self.raw += 1
            self.rep.ob('S01', 'port write in ' + ev.func)
            if not [l for l in st.locks if is_field(l) is not None]:
                self.rep.bad('S01', 'port write without the lock in ' + ev.func, ev.where, 'the serial port is written without holding the lock shared by all exchanges')
        elif (ev.kind == 'cmd' or ev.kind == 'opaque' and ev.target.name in self.skip) and st.locks:
            for l in st.locks:
                self.nested.add((l, ev.where))
        return st


def check_S01(rep, root, tier):
    w = World(root)
    m, mc, f, outs = run_write(rep, w, {'S01'})
    rep.check(m.sends > 0, 'S01', 'write: port write', f.loc, 'write() never writes to the serial port')
    locks = lock_of(w)
    used = {is_field(l) for l in m.locks}
    if m.sends and len(used) > 1:
        common = [a for a in used]
        rep.note('several locks: %s' % sorted(map(str, common)))
    for a in used:
        if a in locks:
            re_, sites = locks[a]
            for g, n in sites:
                rep.ob('S01', 'lock %s created in %s' % (a, g.name))
                if g.name not in ('__init__', 'connect', '__new__') and not only_from_init(w, g):
                    rep.bad('S01', 'lock re-created in %s' % g.qual, '%s:%d' % (g.mod.relpath, n.lineno), 'the lock is replaced by a new one in %s: exchanges under the old and the new one overlap' % g.name)
    # every other piece of code that touches the port or the lock, function by function
    reach = writers(w)
    for cn in ('SerialComms', 'GsmModem', 'Call', 'IncomingCall', 'Ussd', 'ReceivedSms'):
        cls = w.p.cls(cn)
        for coll in (cls.methods, cls.getters, cls.setters):
            for g in coll.values():
                if g is f or g.is_static:
                    continue
                src = ast.dump(g.node)
                if "attr='serial'" not in src and not any("attr='%s'" % a in src for a in locks):
                    continue
                c = w.pdu(w.util(w.modem_cfg()))
                c.loop_unroll = 1
                c.inline = lambda h: False
                lu = LockUse(rep, reach)
                mc2 = Machine(w.p, [lu], c)
                outs2 = entry_run(mc2, w, g, default_env(g), cn)
                rep.ran(mc2, outs2)
                rep.ob('S01', 'lock and port use in ' + g.qual)
                for l, where in lu.nested:
                    a = is_field(l)
                    if a in used and a in locks and not locks[a][0]:
                        rep.bad('S01', 'nested acquisition in ' + g.qual, where, 'a command is written while the (non-reentrant) lock is already held by the same thread: deadlock')


def writers(w):
    """names of methods that (transitively, by name) write commands"""
    calls = {}
    for fn in w.p.funcs.values():
        calls.setdefault(fn.name, set()).update(n.func.attr for n in own_nodes(fn.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute))
    out = {'write'}
    while True:
        new = {n for n, cs in calls.items() if n not in out and cs & out}
        if not new:
            return out
        out |= new


def only_from_init(w, g):
    """g is called from constructors only"""
    callers = []
    for fn in w.p.funcs.values():
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == g.name:
                callers.append(fn.name)
    return bool(callers) and all(c in ('__init__', 'connect') for c in callers)


# ---------------------------------------------------------------- entry points
ARG_TYPES = {'number': 'str', 'destination': 'str', 'text': 'str', 'ussdString': 'str', 'timeout': 'int', 'deliveryTimeout': 'int', 'responseTimeout': 'int',
             'status': 'int', 'delFlag': 'int', 'lines': 'list:str', 'line': 'str', 'notificationLine': 'str', 'data': 'str', 'tones': 'str', 'message': 'str', 'index': 'int'}


def default_env(f, extra=None):
    env = {}
    for p in f.params[1:] if f.cls is not None and not f.is_static else f.params:
        env[p] = sym(p, ARG_TYPES.get(p))
    env.update(extra or {})
    return env


def public_methods(w, cname):
    c = w.p.cls(cname)
    out = []
    for n, f in sorted(c.methods.items()):
        if not n.startswith('_') and n != 'write':
            out.append(f)
    for n, f in sorted(c.getters.items()):
        out.append(f)
    for n, f in sorted(c.setters.items()):
        out.append(f)
    return out


def modem_entries(w, classes=('GsmModem', 'Call', 'IncomingCall', 'Ussd', 'ReceivedSms')):
    out = []
    for cn in classes:
        for f in public_methods(w, cn):
            out.append((f, default_env(f), cn))
    for f in notification_roots(w):
        out.append((f, default_env(f), 'GsmModem'))
    return out


def notification_roots(w):
    """functions of the modem that run in their own threads, and handlers stored in tables"""
    c = w.modem
    out = []
    seen = set()
    for coll in (c.methods, c.getters, c.setters):
        for f in coll.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] in ('Thread', 'Timer'):
                    for x in list(n.args) + [k.value for k in n.keywords]:
                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                            g = w.p.lookup(c, mangle(x.attr, c))[0] or w.p.lookup(c, x.attr)[0]
                            if g is not None and g.qual not in seen:
                                seen.add(g.qual)
                                out.append(g)
    return out


def table_handlers(w):
    """methods of the modem referenced (not called) inside connect(): the call status handlers"""
    c = w.modem
    out = {}
    for f in c.methods.values():
        calls = {id(n.func) for n in own_nodes(f.node) if isinstance(n, ast.Call)}
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in calls and isinstance(n.value, ast.Name) and f.params and n.value.id == f.params[0]:
                g = w.p.lookup(c, n.attr)[0]
                if g is not None and g.name not in ('_placeholderCallback',) and not g.is_static:
                    out[g.qual] = g
    return out


def mangle(name, c):
    return '_%s%s' % (c.name.lstrip('_'), name) if name.startswith('__') and not name.endswith('__') else name


def entry_run(mc, w, f, env, cname, st=None):
    st = st or State()
    me, st = mc.new_instance(st, w.p.cls(cname), 'self')
    e = dict(env)
    if f.params:
        e[f.params[0]] = me
    return mc.run(f, e, st)


# ------------------------------------------------------------- reader thread
def reader(w, cname='SerialComms'):
    """the function run by the reader thread: what connect() of the serial layer starts"""
    sp = Spawns()
    mc = Machine(w.p, [sp], Config())
    f = w.p.method('SerialComms', 'connect')
    st = State()
    me, st = mc.new_instance(st, w.p.cls('SerialComms'), 'self')
    outs = mc.run(f, {f.params[0]: me}, st)
    tg = []
    for t, ev in sp.seen:
        if t is not None and t.op == 'bm':
            g = w.p.funcs[t.args[0]]
            if g not in tg:
                tg.append(g)
        elif t is not None and t.op == 'fn':
            g = w.p.funcs[t.args[0]]
            if g not in tg:
                tg.append(g)
    return tg, mc, outs


def exchange_fields(w):
    """fields that write() sets: shared between the writing threads and the reader"""
    rep = _Null()
    m, mc, f, outs = run_write(rep, w, set())
    ev, ls, other = set(), set(), set()
    for a, vs in m.fields.items():
        for v in vs:
            if v.op == 'ref' and v.args[0].startswith('Event'):
                ev.add(a)
            elif v.op == 'ref' and v.args[0].startswith('list') and a not in ev:
                ls.add(a)
    other = set(m.fields) - ev - ls
    withdrawn = {a for a, vs in m.fields.items() if any(falsy(v) and v.op == 'const' for v in vs)}
    return ev, ls, other, withdrawn, m


class _Null(object):
    def __getattr__(self, n):
        return lambda *a, **k: None


class NullUse(Monitor):
    """a field that another thread may withdraw is used without having been read once and checked"""
    name = 'nulluse'
    init = ()

    def __init__(self, rep, rule, fields):
        self.rep, self.rule, self.fields = rep, rule, fields
        self.reads = set()

    def on(self, ev, st):
        if ev.kind == 'getattr' and ev.attr in self.fields:
            self.reads.add((ev.attr, ev.func))
            self.rep.ob(self.rule, 'read of %s in %s' % (ev.attr, ev.func))
        if ev.kind in ('deref',):
            v = ev.value
            if v.op == 'sym' and v.args[0].startswith('vol:') and v.args[0][4:] in self.fields:
                self.rep.bad(self.rule, '%s used unchecked in %s' % (v.args[0][4:], ev.func), ev.where,
                             '%s may have been withdrawn by the waiting thread when it is used here (%s)' % (v.args[0][4:], ev.what))
        if ev.kind == 'call' and ev.target is None and ev.recv is None and ev.args:
            pass
        return st


def check_S04(rep, root, tier):
    w = World(root)
    evf, lsf, other, withdrawn, m = exchange_fields(w)
    tg, mc0, _ = reader(w)
    if not tg:
        rep.bad('S04', 'no reader thread', w.serial.mod.relpath, 'connect() starts no reader thread')
        return
    fields = evf | lsf | other
    for g in tg:
        c = Config()
        c.loop_unroll = 1
        c.volatile = frozenset(fields)
        for a in withdrawn:
            k = mc0.attr_kind(w.serial, a)
            if a in evf:
                c.attr_types[a] = 'Event?'
            elif a in lsf:
                c.attr_types[a] = 'list?:str'
            else:
                c.attr_types[a] = 'list?:str'
        for a in fields - withdrawn:
            if a in lsf:
                c.attr_types[a] = 'list:str'
        mon = NullUse(rep, 'S04', withdrawn)
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, g, {}, 'SerialComms')
        rep.ran(mc, outs)
    # the threads of the modem layer
    from .waits import modem_waiters
    modem_waiters(rep, w, 'S04')



# ------------------------------------------------------------- reader rules
def unnot(t):
    return unnot(t.args[0]) if t.op == 'not' else t


CHANGES = ('strip', 'lstrip', 'rstrip', 'replace', 'lower', 'upper', 'translate', 'title', 'expandtabs', 'split')


class Lines(Monitor):
    """one iteration of the reader thread: byte -> segment -> recipient -> batch.
    state: (byte, stored, buffer, complete, delivered to, delivered value, only the terminator, idle, batch handed over, event set, handed lists)"""
    name = 'lines'
    init = (None, False, None, False, None, None, False, None, None, False, (), (None, None))

    def __init__(self, rep, rules, lsf, evf):
        self.rep, self.rules, self.lsf, self.evf = rep, rules, lsf, evf
        self.n = dict(reads=0, completes=0, response=0, notification=0, callbacks=0, sets=0)
        self.setfacts = []
        self.unchecked = []
        self.kept = False

    def bad(self, rule, what, ev, msg):
        if rule in self.rules:
            self.rep.bad(rule, what, ev.where, msg)

    def ob(self, rule, what):
        if rule in self.rules:
            self.rep.ob(rule, what)

    def on(self, ev, st):
        k = ev.kind
        if k == 'result' and ev.name in ('read', 'readline', 'inWaiting') and self.eng.typ(ev.recv, st) in ('Serial', 'Serial?'):
            if ev.name == 'inWaiting':
                s = self.get(st)
                return self.put(st, s[:7] + (ev.value,) + s[8:])
            self.n['reads'] += 1
            self.settle(st, ev)
            return self.put(st, (ev.value,) + self.init[1:])
        s = self.get(st)
        byte, stored, buf, comp, to, val, cleared, idle, handed, isset, lists, wt = s
        if byte is None:
            return st
        if k == 'branch':
            w2 = self.note_branch(ev.term, ev.taken, wt)
            if w2 != wt:
                return self.put(st, s[:11] + (w2,))
            if not stored and not comp and byte in ev.term.leaves and self.is_term_test(unnot(ev.term), st, byte, buf):
                s = (byte, True) + s[2:]
                stored = True
                st = self.put(st, s)
        if k == 'call' and ev.target is None and ev.name in ('append', 'extend', 'insert') and ev.recv is not None and ev.args:
            a = ev.args[-1]
            if ev.name == 'extend':
                xs = self.eng.known_items(a, st)
                a = xs[0] if xs and len(xs) == 1 else a
            if any(l is ev.recv for l in lists):
                self.bad('S06', 'list changed after it was handed over in ' + ev.func, ev, 'a list that was already handed to the notification callback is changed')
            if a is byte and not comp:
                if ev.name == 'insert':
                    self.bad('S05', 'characters inserted out of order', ev, 'received characters are not appended at the end of the buffer')
                return self.put(st, (byte, True, ev.recv) + s[3:])
            r = self.recipient(ev.recv, st)
            if r is None:
                return st
            return self.deliver(ev, st, r, a, ev.name)
        if k == 'setattr' and is_self(ev.obj):
            v = ev.value
            if v.op == 'ref' and v.args in st.heap and st.heap[v.args].kind == 'list':
                o = st.heap[v.args]
                if comp and o.items and len(o.items) and o.items[-1].op != '*' and to is None and (byte in o.items[-1].leaves or buf is not None):
                    return self.deliver(ev, st, 'response' if ev.attr in self.lsf else 'notification', o.items[-1], 'append')
            return st
        if k == 'branch' and ev.taken and not comp and self.is_term_test(ev.term, st, byte, buf):
            self.n['completes'] += 1
            self.ob('S05', 'terminator test in ' + ev.func)
            o = st.heap.get(buf.args) if buf is not None and buf.op == 'ref' else None
            n = len(o.items) if o is not None and o.items is not None and not any(x.op == '*' for x in o.items) else None
            kind = 'expect' if any(x.op == 'sym' and x.args[0].startswith('vol:') for x in ev.term.subs) else 'eol'
            return self.put(st, (byte, stored, buf, kind, to, val, n == 2) + s[7:])
        if k == 'branch' and comp and to is None and self.empty_test(ev.term, ev.taken):
            return self.put(st, s[:6] + (True,) + s[7:])
        if k == 'call' and ev.target is None and ev.name == 'set' and ev.recv is not None and self.eng.typ(ev.recv, st) in ('Event', 'Event?'):
            self.n['sets'] += 1
            self.ob('S06', 'completion signalled in ' + ev.func)
            if to != 'response':
                self.bad('S05', 'response completed without its last line', ev, 'the waiting thread is woken up before the final line was added to its response')
                self.bad('S06', 'response completed before its last line is stored', ev, 'the waiting thread is woken up before the final line was added to its response')
            self.setfacts.append((val, dict(st.facts), ev, comp))
            return self.put(st, s[:9] + (True,) + s[10:])
        if k == 'callback' and ev.callee.op == 'sym' and ev.args:
            a = ev.args[0]
            if self.callback_field(ev.callee) == 'notifyCallback':
                self.n['callbacks'] += 1
                self.ob('S05', 'batch handed over in ' + ev.func)
                if handed is not None:
                    self.bad('S05', 'batch handed over twice', ev, 'the same batch of lines is handed to the notification callback twice')
                if to != 'notification':
                    self.bad('S05', 'notification callback without a line', ev, 'the notification callback is called although no line was added to the batch')
                if idle is None:
                    self.bad('S05', 'batch handed over without looking at the port', ev, 'the batch is handed over without checking whether more characters are on the way')
                elif self.idle(idle, st) is False:
                    self.bad('S05', 'batch handed over too early', ev, 'the batch is handed over although more characters are on the way')
                cur = self.field_lists(st)
                empty = a.op == 'ref' and a.args in st.heap and st.heap[a.args].kind == 'list' and st.heap[a.args].items == ()
                if empty:
                    self.bad('S05', 'empty batch handed over', ev, 'the batch was emptied before it is handed over: its lines are lost')
                return self.put(st, s[:8] + (a, isset, lists + (a,), wt))
        if k in ('mutate',) and ev.op in ('clear', 'delitem', 'delslice', 'setslice', 'pop', 'remove') or (k == 'delitem'):
            o = ev.obj
            if any(l is o for l in lists):
                self.bad('S06', 'list emptied after it was handed over in ' + ev.func, ev, 'the list handed to the notification callback is emptied afterwards: the thread handling it sees no lines')
        return st

    def deliver(self, ev, st, r, a, how):
        s = self.get(st)
        byte, stored, buf, comp, to, val, cleared, idle, handed, isset, lists, wt = s
        self.n[r] += 1
        self.ob('S05', 'delivery to the %s in %s' % (r, ev.func))
        if how == 'insert':
            self.bad('S05', 'lines inserted out of order (%s)' % r, ev, 'a received line is not appended at the end of the %s' % r)
        if to is not None:
            self.bad('S05', 'line delivered twice', ev, 'a received line is delivered to more than one recipient')
        w = self.waiting(st)
        if r == 'response' and w is False:
            self.bad('S05', 'line added to a response nobody waits for', ev, 'a line is added to a response although its exchange is over')
            self.bad('S06', 'line added to a completed response', ev, 'a line is added to a response that is already complete')
        if r == 'response' and wt[1] is None:
            self.unchecked.append(ev)
        if r == 'notification' and w is True:
            self.bad('S05', 'response line treated as notification', ev, 'a line is treated as a notification although a command waits for its response')
        if not comp:
            self.bad('S05', 'incomplete line delivered', ev, 'a line is delivered before its terminator was seen')
        p = self.part(a, buf)
        if p == 'cut':
            self.bad('S05', 'line truncated', ev, 'the line delivered is not the text before the terminator (%s)' % show(a)[:80])
        return self.put(st, (byte, stored, buf, comp, r, a, cleared, idle, handed, isset, lists, wt))

    def part(self, a, buf):
        """is the delivered text cut differently than at the terminator"""
        for x in a.subs:
            if x.op == 'slice' and len(x.args) >= 3:
                lo, hi = x.args[1], x.args[2]
                if lo.op == 'const' and cval(lo) not in (None, 0):
                    return 'cut'
                if hi.op == 'const' and cval(hi) is not None and cval(hi) != -2:
                    return 'cut'
            if x.op == 'm' and x.args[0] in CHANGES:
                return 'cut'
        return None

    def idle(self, x, st, handed=True):
        """do the path facts say that nothing is waiting (when the batch is handed over / kept)"""
        d = self.eng.decide(T('eq', (x, const(0))), st)
        if d is not None:
            return d
        if not any(x in f.leaves for f in st.facts):
            return None
        lo, hi = self.eng.interval(x, st)
        if handed:
            return True if hi is not None and hi <= 0 else False
        return False if lo is not None and lo >= 1 else True

    def waiting(self, st):
        """does the path say that somebody waits for a response"""
        none, unset = self.get(st)[11]
        if none is True or unset is False:
            return False
        if none is False and unset is True:
            return True
        return None

    def note_branch(self, t, taken, w):
        """what the branch says about the waiter: (no waiter, not complete)"""
        if t.op == 'not':
            return self.note_branch(t.args[0], not taken, w)
        if t.op == 'isnone' and self.is_event(t.args[0]):
            return (taken, w[1])
        if t.op == 'truthy' and t.args[0].op == 'sym' and t.args[0].args[0].startswith('is_set@'):
            return (w[0], not taken)
        return w

    def is_event(self, t):
        return t.op == 'sym' and t.args[0].startswith('vol:') and t.args[0][4:] in self.evf

    def settle(self, st, ev):
        """before the next read: what became of the previous character"""
        byte, stored, buf, comp, to, val, cleared, idle, handed, isset, lists, wt = self.get(st)
        if byte is None:
            return
        nonempty = self.eng.decide(T('eq', (byte, const(''))), st)
        if nonempty is not True and self.eng.decide(T('lt', (const(0), T('len', (byte,)))), st) is not False and not stored and to is None and not self.reaches(byte, st):
            self.bad('S05', 'character dropped', ev, 'a received character is neither kept nor part of a delivered line')
        if comp and to is None and not self.empty_line(st):
            self.bad('S05', 'complete line not delivered', ev, 'the reader goes on although a complete, non-empty line was not handed to anyone')
        if comp and buf is not None and self.still_there(buf, st):
            self.bad('S05', 'buffer not reset', ev, 'the characters of a delivered line stay in the buffer and become part of the next line')
        if not comp and stored and buf is not None and not self.still_there(buf, st) and not self.reaches(byte, st) and self.eng_known(buf, st):
            self.bad('S05', 'buffer reset before the line is complete', ev, 'the characters of an incomplete line are thrown away')
        if to == 'notification' and handed is None:
            if idle is None:
                self.bad('S05', 'batch never handed over', ev, 'a notification line is stored without checking whether its batch can be handed over')
            elif self.idle(idle, st, False) is True:
                self.bad('S05', 'batch not handed over', ev, 'no more characters are on the way but the batch is not handed to the notification callback')
        if isset and not any(is_k(v, None) for n, v in self_fields(st).items() if n in self.evf):
            self.kept = True
        if handed is not None:
            for n, v in self_fields(st).items():
                if v is handed:
                    if v.op == 'ref' and v.args in st.heap and st.heap[v.args].items == () and False:
                        continue
                    self.bad('S06', 'delivered list kept as buffer', ev, 'the list handed to the notification callback is still used to collect later lines')
                    self.bad('S05', 'delivered lines kept in the batch', ev, 'lines already handed over stay in the batch and are delivered again')

    def eng_known(self, buf, st):
        return buf.op == 'ref'

    def reaches(self, byte, st):
        for f in st.frames:
            for v in f.env.values():
                if byte in v.leaves:
                    return True
        for o in st.heap.values():
            for x in list(o.attrs.values()) + list(o.items or ()):
                if isinstance(x, T) and byte in x.leaves:
                    return True
                if isinstance(x, tuple) and any(byte in y.leaves for y in x):
                    return True
        return False

    def still_there(self, buf, st):
        """the buffer object is still referenced by the reader and not empty"""
        if buf.op != 'ref':
            return any(v is buf for f in st.frames for v in f.env.values())
        o = st.heap.get(buf.args)
        if o is None or o.items == ():
            return False
        for f in st.frames:
            for v in f.env.values():
                if v is buf:
                    return True
        return any(v is buf for v in self_fields(st).values())

    def empty_line(self, st):
        return self.get(st)[6]

    def empty_test(self, t, taken):
        """the branch says that the line is empty"""
        if t.op == 'not':
            return self.empty_test(t.args[0], not taken)
        if any(x.op == 'sym' and x.args[0].startswith('vol:') for x in t.subs):
            return False
        if any(x.op == 'm' and x.args[0] in CHANGES for x in t.subs):
            return False
        if t.op == 'lt' and is_k(t.args[0], 0) and t.args[1].op == 'len':
            return not taken
        if t.op == 'lt' and is_k(t.args[1], 1) and t.args[0].op == 'len':
            return taken
        if t.op == 'eq' and ((t.args[0].op == 'len' and is_k(t.args[1], 0)) or is_k(t.args[1], '') or is_k(t.args[0], '')):
            return taken
        return False

    def is_term_test(self, t, st, byte, buf):
        if t.op in ('eq', 'same'):
            if any(x.op == 'const' and cval(x) in ('', None) for x in t.args):
                return False
            return True if any(x.op in ('slice', 'ref', 'item', 'str', 'tuple') for x in t.args) else False
        if t.op == 'truthy' and t.args[0].op == 'm' and t.args[0].args[0] == 'endswith':
            return True
        return False

    def field_lists(self, st):
        return {n: v for n, v in self_fields(st).items() if v.op == 'ref' and v.args in st.heap and st.heap[v.args].kind == 'list'}

    def callback_field(self, t):
        if t.op == 'sym' and t.args[0].startswith('&self.'):
            return t.args[0][6:]
        return None

    def recipient(self, o, st):
        if o.op == 'sym' and o.args[0].startswith('vol:') and o.args[0][4:] in self.lsf:
            return 'response'
        if o.op == 'sym' and o.args[0].startswith('join:.'):
            return 'notification'
        if o.op == 'ref' and o.args[0].startswith('&self.'):
            return 'notification'
        for n, v in self_fields(st).items():
            if v is o and o.op == 'ref' and st.heap.get(o.args) is not None and st.heap[o.args].kind == 'list':
                return 'response' if n in self.lsf else 'notification'
        return None


def reader_run(rep, w, rules):
    evf, lsf, other, withdrawn, m = exchange_fields(w)
    tg, mc0, _ = reader(w)
    mons = []
    for g in tg:
        c = Config()
        c.loop_unroll = 1
        c.volatile = frozenset(evf | lsf | other)
        for a in evf:
            c.attr_types[a] = 'Event?'
        for a in lsf:
            c.attr_types[a] = 'list:str'
        for a in other:
            c.attr_types[a] = 'list?:str'
        mon = Lines(rep, rules, lsf, evf)
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, g, {}, 'SerialComms')
        rep.ran(mc, outs)
        mons.append((g, mon, mc, outs))
    return mons


def completed_check(rep, rule, mon):
    """a completed response must not grow: the reader either checks the completion or withdraws the waiter itself"""
    if mon.unchecked and mon.kept:
        ev = mon.unchecked[0]
        rep.bad(rule, 'completion not checked in ' + ev.func, ev.where, 'a line is added to the response without checking that the response is not complete yet')


def check_S05(rep, root, tier):
    w = World(root)
    for g, mon, mc, outs in reader_run(rep, w, {'S05'}):
        completed_check(rep, 'S05', mon)
        for k, msg in (('reads', 'never reads the port'), ('completes', 'never recognises the end of a line'), ('response', 'never adds a line to a response'),
                       ('notification', 'never treats a line as notification'), ('callbacks', 'never hands a batch to the notification callback'), ('sets', 'never completes a response')):
            rep.check(mon.n[k] > 0, 'S05', 'reader: ' + k, g.loc, 'the reader thread ' + msg)


def check_S06(rep, root, tier):
    w = World(root)
    for g, mon, mc, outs in reader_run(rep, w, {'S06'}):
        completed_check(rep, 'S06', mon)
        rep.check(mon.n['callbacks'] > 0, 'S06', 'reader: batch handed over', g.loc, 'the reader thread never hands over a batch')
    # the response: every exchange collects into a list of its own
    f = w.p.method('SerialComms', 'write')
    c = Config()
    mon = Reuse(rep)
    mc = Machine(w.p, [mon], c)
    st = State()
    me, st = mc.new_instance(st, w.serial, 'self')
    env = {'self': me, 'data': sym('data', 'str'), 'waitForResponse': sym('wait', 'bool'), 'timeout': sym('timeout', 'int'), 'expectedResponseTermSeq': sym('expect', 'str?')}
    outs = mc.run(f, {k: v for k, v in env.items() if k in f.params}, st)
    rep.ran(mc, outs)
    for k, v, s in outs:
        if k == 'return' and not is_k(v, None):
            rep.ob('S06', 'response returned')
            if v.op == 'ref' and v.args[0].startswith('&self.') or (v.op == 'sym' and v.args[0].startswith('&self.')):
                rep.bad('S06', 'response list reused', f.loc, 'the list returned is one that earlier exchanges already returned')


class Reuse(Monitor):
    name = 'reuse'
    init = ()

    def __init__(self, rep):
        self.rep = rep

    def on(self, ev, st):
        if ev.kind in ('mutate', 'delitem', 'setitem'):
            o = ev.obj
            if o.op == 'ref' and o.args[0].startswith('&self.'):
                self.rep.bad('S06', 'earlier response changed in ' + ev.func, ev.where, 'the list of an earlier response is emptied or reused for the next one')
        return st


# ------------------------------------------------------------------ S07 / S08
BLOCKING = {'wait': 'waits for an event', 'join': 'waits for a thread', 'sleep': 'sleeps'}


class Blocking(Monitor):
    name = 'blocking'
    init = ()

    def __init__(self, rep, loopname):
        self.rep, self.root = rep, loopname
        self.spawned = 0
        self.seen = set()

    def on(self, ev, st):
        k = ev.kind
        if k == 'spawn':
            self.spawned += 1
            self.rep.ob('S07', 'work handed to its own thread in ' + ev.func)
        elif k == 'call':
            self.seen.add(ev.func)
            nm = ev.name.split('.')[-1]
            ty = self.eng.typ(ev.recv, st) if ev.recv is not None and ev.target is None else None
            n0 = len(self.rep.findings)
            if ev.target is None and (ev.ext == 'time.sleep' or (nm == 'wait' and ty in ('Event', 'Event?')) or (nm == 'join' and ty in ('Thread', 'Thread?'))):
                self.rep.bad('S07', '%s in %s' % (nm, ev.func), ev.where, 'the reader thread %s here: no response can be received meanwhile' % BLOCKING[nm])
            if ev.target is None and nm == 'write' and ty in ('Serial', 'Serial?'):
                self.rep.bad('S07', 'command written in ' + ev.func, ev.where, 'the reader thread writes a command itself: nobody is left to receive the response')
            if ev.target is not None and not isinstance(ev.target, Class) and ev.target.cls is not None and ev.target.cls.name in ('SerialComms', 'GsmModem') and nm == 'write':
                self.rep.bad('S07', 'command written in ' + ev.func, ev.where, 'the reader thread writes a command itself: nobody is left to receive the response')
            if len(self.rep.findings) > n0 or self.rep.findings and nm == 'write':
                return None
        elif k == 'lock':
            self.rep.bad('S07', 'lock taken in ' + ev.func, ev.where, 'the reader thread takes the lock that a thread waiting for a response holds')
        return st


def notify_target(w):
    """what GsmModem installs as notification callback"""
    mc = Machine(w.p, [], Config())
    f = w.p.lookup(w.modem, '__init__')[0]
    st = State()
    me, st = mc.new_instance(st, w.modem, 'self')
    env = {f.params[0]: me}
    for p in f.params[1:]:
        env[p] = sym(p, None)
    outs = mc.run(f, env, st)
    tg = set()
    for k, v, s in outs:
        if k == 'return':
            o = s.heap.get(me.args)
            x = o.attrs.get('notifyCallback') if o is not None else None
            if x is not None:
                tg.add(x)
    return tg, mc, outs


def check_S07(rep, root, tier):
    w = World(root)
    tg, mc0, outs0 = notify_target(w)
    rep.ran(mc0, outs0)
    handlers = []
    for t in tg:
        if t.op == 'bm':
            handlers.append(w.p.funcs[t.args[0]])
    if not handlers:
        rep.note('notification callback of the modem not resolved')
    rd, mc1, o1 = reader(w)
    for g in rd:
        c = Config()
        c.loop_unroll = 1
        mon = Blocking(rep, g.name)
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, g, {}, 'SerialComms')
        rep.ran(mc, outs)
        rep.ob('S07', 'reader thread ' + g.qual)
    for h in handlers:
        c = w.pdu(w.util(Config()))
        wr = w.p.method('GsmModem', 'write')
        c.opaque[wr.qual] = model_write()
        c.loop_unroll = 1
        mon = Blocking(rep, h.name)
        mc = Machine(w.p, [mon], c)
        env = {}
        for p in h.params[1:]:
            env[p] = sym(p, 'list:str')
        outs = entry_run(mc, w, h, env, 'GsmModem')
        rep.ran(mc, outs)
        rep.ob('S07', 'notification callback ' + h.qual)


class Port(Monitor):
    """order of port operations: alive flag, thread, port.  state: tuple of what happened"""
    name = 'port'
    init = ()

    def on(self, ev, st):
        s = self.get(st)
        k = ev.kind
        if k == 'setattr' and is_self(ev.obj) and ev.attr == 'alive':
            s = s + ('alive=%s' % (cval(ev.value) if ev.value.op == 'const' else '?'),)
        elif k == 'setattr' and is_self(ev.obj) and self.eng.typ(ev.value, st) in ('Serial',):
            s = s + ('open',)
        elif k == 'spawn':
            s = s + ('start',)
        elif k == 'call' and ev.target is None and ev.recv is not None:
            ty = self.eng.typ(ev.recv, st)
            if ev.name == 'join' and ty in ('Thread', 'Thread?'):
                s = s + ('join',) if not [x for x in list(ev.args) + list(ev.kwargs.values()) if not is_k(x, None)] else s + ('join(timeout)',)
            elif ev.name == 'close' and ty in ('Serial', 'Serial?'):
                s = s + ('close',)
        elif k == 'callback' and ev.callee.op == 'sym' and ev.callee.args[0] == '&self.fatalErrorCallback':
            s = s + ('fatal(%d)' % len(ev.args),)
        elif k == 'raise' and ev.exc.name.endswith('SerialException'):
            s = s + ('fault',)
        else:
            return st
        if len(s) > 12:
            s = s[-12:]
        return self.put(st, s)


def check_S08(rep, root, tier):
    w = World(root)
    # reader: a failing port ends the thread, visibly
    for g in reader(w)[0]:
        c = Config()
        c.loop_unroll = 1
        mon = Port()
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, g, {}, 'SerialComms')
        rep.ran(mc, outs)
        for k, v, s in outs:
            ev = mon.get(s)
            if 'fault' in ev:
                rep.ob('S08', 'port failure in the reader: ' + ' '.join(ev))
                tail = ev[ev.index('fault'):]
                if k == 'raise':
                    rep.bad('S08', 'reader: failure escapes', g.loc, 'a failing port makes the reader thread die with an unhandled %s' % v.name)
                    continue
                if 'alive=False' not in tail:
                    rep.bad('S08', 'reader: still marked alive', g.loc, 'after the port failed the connection is still marked as alive')
                if not any(x.startswith('fatal') for x in tail):
                    rep.bad('S08', 'reader: failure not reported', g.loc, 'a failing port is not reported to the fatal error callback')
                elif 'fatal(0)' in tail:
                    rep.bad('S08', 'reader: failure reported without the error', g.loc, 'the fatal error callback is called without the error')
                elif tail.count('fatal(1)') > 1:
                    rep.bad('S08', 'reader: failure reported twice', g.loc, 'one failure is reported to the fatal error callback twice')
                if 'alive=False' in tail and any(x.startswith('fatal') for x in tail) and tail.index('alive=False') > [i for i, x in enumerate(tail) if x.startswith('fatal')][0]:
                    rep.bad('S08', 'reader: reported before marked dead', g.loc, 'the fatal error callback runs while the connection is still marked as alive')
            else:
                rep.ob('S08', 'regular end of the reader')
                if any(x.startswith('fatal') for x in ev):
                    rep.bad('S08', 'reader: failure reported without one', g.loc, 'the fatal error callback is called although the port did not fail')
                if k == 'return' and mc.decide(T('truthy', (sym('&self.alive', None),)), s) is True and not ev:
                    pass
    for name, want in (('connect', ('open', 'alive=True', 'start')), ('close', ('alive=False', 'join', 'close'))):
        f = w.p.method('SerialComms', name)
        mon = Port()
        mc = Machine(w.p, [mon], Config())
        outs = entry_run(mc, w, f, {}, 'SerialComms')
        rep.ran(mc, outs)
        for k, v, s in outs:
            ev = mon.get(s)
            if k != 'return':
                if name == 'connect':
                    rep.check('start' not in ev or v.name != 'serial.SerialException', 'S08', 'connect: reader left running', f.loc, 'connect() fails but leaves the reader thread running')
                continue
            rep.ob('S08', '%s: %s' % (name, ' '.join(ev)))
            for x in want:
                if ev.count(x) == 0:
                    rep.bad('S08', '%s: %s missing' % (name, x), f.loc, '%s() does not %s' % (name, WHAT[x]))
            pos = [ev.index(x) for x in want if x in ev]
            if name == 'connect' and len(pos) == 3:
                if pos[2] < max(pos[:2]):
                    rep.bad('S08', 'connect: thread started too early', f.loc, 'the reader thread is started before the port is open and the connection marked alive: it ends at once or fails')
            if name == 'close' and pos != sorted(pos):
                rep.bad('S08', 'close: order', f.loc, 'close() must stop the reader, wait for it, then close the port (found: %s)' % ' '.join(ev))


WHAT = {'open': 'open the port', 'alive=True': 'mark the connection alive', 'start': 'start the reader thread', 'alive=False': 'stop the reader thread', 'join': 'wait for the reader thread', 'close': 'close the port'}

FINAL = r'^(OK|ERROR|\+CM[ES] ERROR: \d+|COMMAND NOT SUPPORT)$'


def line_lang(facts, val):
    """language of the lines for which the facts hold: list of conjuncts (positive only), or None if something is not understood"""
    out = []
    for f, v in facts.items():
        g, pos = f, v
        if g.op == 'isnone' and g.args[0].op == 'm' and g.args[0].args[0] in ('match', 'search', 'fullmatch') and g.args[0].args[1].op == 'regex':
            m = g.args[0]
            if len(m.args) < 3:
                return None
            how, rx = m.args[0], m.args[1]
            fl = rx.args[1] if len(rx.args) > 1 else ''
            l = regexlang.Lang(rx.args[0], flagbits(fl), how)
            out.append((l if not pos else regexlang.Comb('not', l)))
        elif g.op == 'eq' and val in g.args and not any(is_k(x, '') for x in g.args) and any(x.op == 'const' and isinstance(cval(x), str) for x in g.args):
            c = [cval(x) for x in g.args if x.op == 'const'][0]
            l = regexlang.Const([c])
            out.append(l if pos else regexlang.Comb('not', l))
        elif g.op == 'in' and g.args[0] is val:
            c = g.args[1]
            if c.op in ('tuple', 'clist') and all(x.op == 'const' for x in c.args):
                l = regexlang.Const([cval(x) for x in c.args])
                out.append(l if pos else regexlang.Comb('not', l))
            else:
                return None
        elif g.op == 'truthy' and g.args[0].op == 'm' and g.args[0].args[0] == 'startswith' and g.args[0].args[1] is val:
            c = g.args[0].args[2]
            if c.op == 'const' and isinstance(cval(c), str):
                l = regexlang.Const([cval(c)], True)
                out.append(l if pos else regexlang.Comb('not', l))
            elif c.op == 'tuple' and all(x.op == 'const' for x in c.args):
                l = regexlang.Const([cval(x) for x in c.args], True)
                out.append(l if pos else regexlang.Comb('not', l))
            else:
                return None
    return out


def flagbits(fl):
    import re
    if isinstance(fl, int):
        return fl
    b = 0
    for n in str(fl).replace('|', ' ').split():
        b |= int(getattr(re, n.split('.')[-1], 0) or 0)
    return b


def check_S09(rep, root, tier):
    w = World(root)
    spec = regexlang.Lang(FINAL)
    for g, mon, mc, outs in reader_run(rep, w, set()):
        langs = []
        unknown = False
        wheres = []
        rep.check(bool(mon.setfacts), 'S09', 'reader: response never completed', g.loc, 'the reader thread never completes a response')
        for val, facts, ev, comp in mon.setfacts:
            if comp == 'expect':
                rep.ob('S09', 'completed by the expected terminator')
                continue
            ls = line_lang(facts, val)
            if ls is None:
                unknown = True
                continue
            if not ls:
                rep.bad('S09', 'completed by any line in ' + ev.func, ev.where, 'a response is completed by a line that is not a final result code')
                continue
            rep.ob('S09', 'completed by a matching line in ' + ev.func)
            langs.append(regexlang.Comb('and', *ls))
            wheres.append(ev.where)
        if unknown or not langs:
            if not unknown and mon.setfacts:
                rep.bad('S09', 'final result codes not recognised', g.loc, 'no final result code completes a response')
            else:
                rep.note('terminator condition not understood')
            continue
        uniq = []
        for l in langs:
            if not any(regexlang.differ(l, u) is None for u in uniq):
                uniq.append(l)
        got = regexlang.Comb('or', *uniq)
        d = regexlang.differ(got, spec)
        rep.ob('S09', 'language of final lines = ' + FINAL)
        if d is not None:
            word, ingot = d
            if ingot:
                rep.bad('S09', 'terminator accepts too much', wheres[0], 'the line %r ends a response although it is not a final result code' % word)
            else:
                rep.bad('S09', 'terminator accepts too little', wheres[0], 'the final result code %r does not end a response: the command times out' % word)


TECH = 'path-sensitive typestate dataflow over the syntax tree'
RULES = {
    'S01': (check_S01, 'other', 'lockset analysis: ' + TECH),
    'S02': (check_S02, 'other', TECH),
    'S03': (check_S03, 'other', TECH + ', all exits'),
    'S04': (check_S04, 'other', 'nullness dataflow with fields that other threads may withdraw re-read on every access'),
    'S05': (check_S05, 'other', TECH),
    'S06': (check_S06, 'other', 'escape/ownership typestate over the syntax tree'),
    'S07': (check_S07, 'other', 'blocking-effect analysis over the call graph'),
    'S08': (check_S08, 'other', TECH),
    'S09': (check_S09, 'other', 'regular-language equivalence of the extracted terminator condition'),
}
