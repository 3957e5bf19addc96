"""Calls: notification dispatch, call objects and their states, modem profiles, DTMF."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc
from ..terms import subst
from ..project import own_nodes, dotted
from .serial import is_self, is_field, entry_run, default_env, notification_roots, modem_entries
from .setup import prefix, parts, is_cmd, unnot, TECH
from .sms import storage_models, sms_cfg, reaching, notification_run
from .waits import field_name

ANSWERS = {'AT+CFUN?': ['+CFUN: 1', 'OK'], 'AT+WIND?': ['+WIND: 50', 'OK'], 'AT+CPIN?': ['+CPIN: READY', 'OK'], 'AT+CPMS=?': ['+CPMS: ("ME","SM"),("ME","SM")', 'OK'],
           'AT+CSCA?': ['+CSCA: "+123",145', 'OK']}


class Trace(Monitor):
    """what happened on a path: commands, reads, deletions, callbacks, wake-ups, thread starts, waits"""
    name = 'trace'
    init = ()

    def __init__(self):
        self.fails = []

    def add(self, st, *x):
        t = self.get(st)
        return self.put(st, t + (x,)) if len(t) < 40 else st

    def on(self, ev, st):
        k = ev.kind
        if k == 'mayraise' and not ev.caught:
            self.fails.append(ev)
        if k == 'cmd':
            return self.add(st, 'cmd', ev.data, ev.wait_now)
        if k == 'sread':
            return self.add(st, 'read', ev.index, ev.memory)
        if k == 'sdelete':
            return self.add(st, 'delete', ev.index, ev.memory)
        if k == 'callback':
            o = st.heap.get(ev.args[0].args) if ev.args and ev.args[0].op == 'ref' else None
            return self.add(st, 'callback', ev.callee, tuple(ev.args), o.attrs.get('active') if o is not None else None)
        if k == 'call' and ev.name == 'set' and ev.target is None and ev.recv is not None and not ev.args:
            return self.add(st, 'set', ev.recv)
        if k == 'spawn':
            return self.add(st, 'spawn', ev.target, ev.kwargs, ev.args)
        if k == 'setattr' and ev.obj.op in ('ref', 'sym') and not is_self(ev.obj):
            return self.add(st, 'field', ev.obj, ev.attr, ev.value)
        return st


def answer(rejects=(), fails=(), err=None):
    """write(): the modem rejects the commands starting with one of the given texts and accepts all others"""
    def model(eng, func, env, st, node):
        a = write_params(env)
        p = prefix(a['data'])
        w = a['wait']
        st = eng.emit(st, 'cmd', node, recv=None, wait_now=not is_k(w, False), **a)
        if st is None:
            return []
        if any(p.startswith(x) for x in rejects):
            if is_k(a['parse'], False):
                items = ['ERROR']
            else:
                s = eng.emit(st, 'cmdfail', node, recv=None, why='error', **a)
                if s is not None:
                    e = err or new_exc(eng, 'CommandError', (a['data'] or NONE,), True)
                    eng.throw(e, s, node)
                return []
        else:
            items = ANSWERS.get(p, ['OK'])
        if any(p.startswith(x) for x in fails):
            s = eng.emit(st, 'cmdfail', node, recv=None, why='error', **a)
            if s is not None:
                eng.throw(err or new_exc(eng, 'CommandError', (a['data'] or NONE,), True), s, node)
        if is_k(w, False):
            return [(NONE, st)]
        ref, st = eng.alloc(st, node, Obj('list', None, {}, tuple(const(x) for x in items)), 'resp')
        st = eng.emit(st, 'cmdok', node, recv=None, resp=ref, parsed=True, **a)
        return [(ref, st)] if st is not None else []
    return model


def ms_model(v):
    def model(eng, func, env, st, node):
        if v is None:
            return [(NONE, st)]
        if isinstance(v, str):
            return [(const(v), st)]
        ref, st = eng.alloc(st, node, Obj('list', None, {}, tuple(const(x) for x in v)), 'known')
        return [(ref, st)]
    return model


# family: (name, supported commands, manufacturer, rejected commands)
BASE = ['+CFUN', '+CMGF', '+CPMS', '+CLIP', '+CRC', '+CLCC', '+CMGS', '+CNMI']
PROFILES = (
    ('Huawei (command list)', BASE + ['^CVOICE', '^DTMF', '^USSDMODE'], 'huawei', (), 'huawei'),
    ('Huawei (manufacturer)', None, 'HUAWEI', ('AT+WIND', 'AT+ZPAS'), 'huawei'),
    ('Wavecom (command list)', BASE + ['+WIND', '+VTS'], 'WAVECOM MODEM', ('AT+ZPAS',), 'wavecom'),
    ('Wavecom (probed)', None, 'WAVECOM MODEM', ('AT+ZPAS',), 'wavecom'),
    ('ZTE (command list)', BASE + ['+ZPAS', '+VTS'], 'ZTE INCORPORATED', ('AT+WIND',), 'zte'),
    ('ZTE (probed)', None, 'ZTE INCORPORATED', ('AT+WIND',), 'zte'),
    ('Huawei (other maker)', BASE + ['^DTMF'], 'Vodafone', ('AT+WIND', 'AT+ZPAS'), 'huawei'),
    ('generic (command list)', BASE + ['+VTS'], 'Nokia', ('AT+WIND', 'AT+ZPAS'), 'generic'),
    ('generic (probed)', None, 'Nokia', ('AT+WIND', 'AT+ZPAS'), 'generic'),
)


def chain(s):
    """a state to go on from after an analysis: heap only"""
    n = State()
    n.heap, n.made = s.heap, s.made
    n.facts = {k: v for k, v in s.facts.items()}
    return n


def fresh_modem(rep, w, mons=(), cfg=None):
    """a modem object made by its own constructor: (self, state)"""
    c = cfg or w.util(w.modem_cfg(serial_faults=False, timeouts=False))
    mc = Machine(w.p, list(mons), c)
    f = w.p.method('GsmModem', '__init__')
    st = State()
    me, st = mc.new_instance(st, w.modem, 'self')
    env = {f.params[0]: me, 'port': sym('port', 'str'), 'baudrate': const(115200), 'incomingCallCallbackFunc': sym('onCall', 'callable'),
           'smsReceivedCallbackFunc': sym('onSms', 'callable'), 'smsStatusReportCallback': sym('onReport', 'callable')}
    outs = mc.run(f, {k: v for k, v in env.items() if k in f.params}, st)
    rep.ran(mc, outs)
    return me, [chain(s) for k, v, s in outs if k == 'return']


def service_centre(rep, rule, w):
    """the number that the modem has after connect(): the one set before, else the one it had, also if other settings make it forget it"""
    f = w.p.method('GsmModem', 'connect')
    setter = w.modem.setters.get('smsc')
    name, cmds, maker, rejects, fam = [x for x in PROFILES if x[4] == 'generic'][0]
    OWN, SET = '+27831234', '+15557777'

    def now(trace, loses):
        n = OWN
        for x in commands(trace):
            p = prefix(x[1]) or ''
            if p.startswith('AT+CSMP=') and loses:
                n = ''
            elif p.startswith('AT+CSCA="'):
                n = cval(x[1])[9:-1] if x[1].op == 'const' else None
        return n

    for preset in (False, True):
        for loses in (False, True):
            me, sts = fresh_modem(rep, w)
            for st in sts[:1]:
                if preset:
                    mc = Machine(w.p, [], w.util(w.modem_cfg(serial_faults=False, timeouts=False)))
                    outs = mc.run(setter, {setter.params[0]: me, setter.params[1]: const(SET)}, st)
                    done = [chain(s) for k, v, s in outs if k == 'return']
                    if len(done) != 1:
                        rep.note('number set before connecting: %d results' % len(done))
                        continue
                    st = done[0]
                tr = Trace()
                base = answer(rejects)

                def model(eng, func, env, st, node):
                    a = write_params(env)
                    if not is_cmd(a['data'], 'AT+CSCA?'):
                        return base(eng, func, env, st, node)
                    n = now(tr.get(st), loses)
                    st = eng.emit(st, 'cmd', node, recv=None, wait_now=True, **a)
                    ref, st = eng.alloc(st, node, Obj('list', None, {}, (const('+CSCA: "%s",145' % n), const('OK')) if n else (const('+CSCA: "",129'), const('OK'))), 'csca')
                    return [(ref, st)]
                c = w.modem_cfg(serial_faults=False, timeouts=False)
                c.loop_unroll = 6
                c.opaque[w.p.method('GsmModem', 'write').qual] = model
                for n, v in (('supportedCommands', cmds), ('manufacturer', maker)):
                    g = w.modem.getters.get(n)
                    if g is not None:
                        c.opaque[g.qual] = ms_model(v)
                mc = Machine(w.p, [tr], c)
                st = st.with_heap(me.args, st.heap[me.args].with_attr('alive', TRUE))   # (opening the port is not followed)
                outs = mc.run(f, {f.params[0]: me, 'pin': NONE}, st)
                rep.ran(mc, outs)
                case = '%s, the modem %s' % ('a number was set before' if preset else 'no number was set before', 'forgets it during the setup' if loses else 'keeps it')
                for k, v, s in outs:
                    rep.ob(rule, 'connect: %s: %s' % (case, k))
                    if k != 'return' or s.degraded:
                        continue
                    n = now(tr.get(s), loses)
                    want = SET if preset else OWN
                    if n is not None and n != want:
                        rep.bad(rule, 'connect: number of the service centre (%s)' % case, f.loc, 'connecting leaves the modem with the service centre %r instead of %r (%s)' % (n, want, case))


def connected(rep, w, prof):
    """states of a modem of the given family after connect()"""
    name, cmds, maker, rejects, fam = prof
    me, sts = fresh_modem(rep, w)
    out = []
    f = w.p.method('GsmModem', 'connect')
    for st in sts:
        c = w.modem_cfg(serial_faults=False, timeouts=False)
        c.loop_unroll = 6
        c.opaque[w.p.method('GsmModem', 'write').qual] = answer(rejects)
        for n, v in (('supportedCommands', cmds), ('manufacturer', maker)):
            g = w.modem.getters.get(n)
            if g is None:
                raise Anchor('GsmModem.' + n)
            c.opaque[g.qual] = ms_model(v)
        mc = Machine(w.p, [], c)
        outs = mc.run(f, {f.params[0]: me, 'pin': NONE}, st)
        rep.ran(mc, outs)
        seen = {}
        for k, v, s in outs:
            if k == 'return':
                n = chain(s)
                seen[tuple(sorted((k, n.heap[k].key()) for k in n.heap))] = n
        out += list(seen.values())
    return me, out


# -------------------------------------------------------------------- scenes
class Scene(object):
    """runs the library's functions on a partly known modem object, one after the other"""

    def __init__(self, rep, w, me):
        self.rep, self.w, self.me = rep, w, me
        self.write = w.p.method('GsmModem', 'write').qual
        self.roots = [g for g in notification_roots(w) if any('otific' in x or 'lines' in x for x in [g.name] + list(g.params))]
        if not self.roots:
            raise Anchor('no thread handles notifications')
        self.model = answer()
        self.opaque = {}
        self.methods = {}
        self.monitors = []
        self.unroll = 8
        self.endless = False        # the modem was polled although the connection was closed
        self.lost = False

    def machine(self, mons):
        c = sms_cfg(self.w, unroll=self.unroll, serial_faults=False, timeouts=False)
        storage_models(self.w, c)
        del c.opaque[self.w.p.func('gsmmodem.util', 'lineStartingWith').qual]
        del c.opaque[self.w.p.func('gsmmodem.util', 'lineMatching').qual]
        c.closed = True
        c.opaque[self.write] = self.model
        c.opaque.update(self.opaque)
        c.methods.update(self.methods)
        return Machine(self.w.p, mons, c)

    def run(self, f, args, st):
        """[(how, value, state, trace)]"""
        tr = Trace()
        mc = self.machine([tr] + self.monitors)
        env, problem = mc.bind_args(f, list(args), {}, st, f.node)
        if problem:
            self.rep.note('%s: %s' % (f.name, problem))
            return []
        outs = mc.run(f, env, st)
        self.rep.ran(mc, outs)
        res = {}
        for k, v, s in outs:
            v, s = self.settle(mc, k, v, s)
            t = tr.get(s)
            n = chain(s)
            if s.degraded:
                self.lost = True
                continue
            key = (k, v if k == 'return' else v.key(), t, tuple(sorted(((x, n.heap[x].key()) for x in n.heap), key=repr)))
            res[key] = (k, v, n, t)
        if not outs and tr.fails:       # every path ends in an error of the language
            return [('raise', tr.fails[-1].exc, st, ())]
        return list(res.values())

    def settle(self, mc, k, v, s):
        """objects made during a run get names of their own (the next object made at the same place is another one)"""
        new = sorted([oid for oid, o in s.heap.items() if o.kind == 'instance' and '@' in oid[0]])
        if not new:
            return v, s
        n, ren = 0, {}
        for oid in new:
            while ('made%d' % n, 0) in s.heap:
                n += 1
            ren[oid] = ('made%d' % n, 0)
            n += 1

        def f(t):
            return T('ref', ren[t.args]) if t.op == 'ref' and t.args in ren else None
        s = mc.rewrite(s, f, lambda t: False)
        s.made = s.made | {x[0] for x in ren.values()}
        if isinstance(v, T):
            v = subst(v, f, {})
        return v, s

    def method(self, cname, name):
        return self.w.p.method(cname, name)

    def call(self, cname, name, args, st):
        return self.run(self.method(cname, name), args, st)

    def notify(self, lines, st):
        ls, st = self.mklist(st, lines)
        out = []
        for g in self.roots[:1]:
            out += self.run(g, [self.me] + [ls] * (len(g.params) - 1), st)
        return out

    def mklist(self, st, items, name='batch'):
        n = 0
        while (name, n) in st.heap:
            n += 1
        st = st.with_heap((name, n), Obj('list', None, {'$pin': TRUE}, tuple(x if isinstance(x, T) else const(x) for x in items)))
        return T('ref', (name, n)), st

    def make(self, cname, args, st):
        """construct an object: [(ref, state)]"""
        tr = Trace()
        mc = self.machine([tr])
        cls = self.w.p.cls(cname)
        init = self.w.p.lookup(cls, '__init__')[0]
        n = 0
        while ('%s%d' % (cname, n), 0) in st.heap:
            n += 1
        ref, st = mc.new_instance(st, cls, '%s%d' % (cname, n))
        if init is None:
            return [(ref, st)]
        env, problem = mc.bind_args(init, [ref] + list(args), {}, st, init.node)
        outs = mc.run(init, env, st) if not problem else []
        self.rep.ran(mc, outs)
        return [(ref, chain(s)) for k, v, s in outs if k == 'return']

    def get(self, ref, name, st):
        """attribute or property of an object"""
        o = st.heap.get(ref.args) if ref.op == 'ref' else None
        if o is None:
            return None
        if name in o.attrs:
            return o.attrs[name]
        g = None
        for b in self.w.p.mro(o.cls):
            g = b.getters.get(name) if isinstance(b, Class) else None
            if g is not None:
                break
        if g is None:
            return None
        rs = [v for k, v, s, t in self.run(g, [ref], st) if k == 'return']
        return rs[0] if len(rs) == 1 else None

    def put(self, ref, name, value, st):
        """set an attribute or property: states"""
        o = st.heap[ref.args]
        for b in self.w.p.mro(o.cls):
            g = b.setters.get(name) if isinstance(b, Class) else None
            if g is not None:
                return [s for k, v, s, t in self.run(g, [ref, value], st) if k == 'return']
        return [st.with_heap(ref.args, o.with_attr(name, value))]

    def active(self, st):
        """{id: call} of the active calls, or None"""
        a = st.heap[self.me.args].attrs.get('activeCalls')
        if a is None or a.op != 'ref' or a.args not in st.heap:
            return None
        o = st.heap[a.args]
        if o.kind != 'dict' or o.items is None or any(not isinstance(x, tuple) for x in o.items):
            return None
        if any(k.op != 'const' for k, v in o.items):
            return None
        return {cval(k): (v.args[0] if v.op == 'proxy' else v) for k, v in o.items}

    def register(self, ref, key, st):
        a = st.heap[self.me.args].attrs['activeCalls']
        o = st.heap[a.args]
        return st.with_heap(a.args, o.with_items(tuple(x for x in o.items if x[0] is not const(key)) + ((const(key), ref),)))

    def outgoing(self, cid, number, st, cb=None, answered=False, register=True):
        """an outgoing call as dial() makes it: [(ref, state)]"""
        out = []
        for ref, s in self.make('Call', [self.me, const(cid), const(0), number, cb or NONE], st):
            for s2 in (self.put(ref, 'answered', TRUE, s) if answered else [s]):
                out.append((ref, self.register(ref, cid, s2) if register else s2))
        return out

    def incoming(self, cid, number, st, register=True):
        out = []
        for ref, s in self.make('IncomingCall', [self.me, number, const(145), NONE, const(cid), const('VOICE')], st):
            out.append((ref, self.register(ref, cid, s) if register else s))
        return out


def callbacks(trace, callee):
    return [x for x in trace if x[0] == 'callback' and x[1] is callee]


def commands(trace, *pre):
    return [x for x in trace if x[0] == 'cmd' and (not pre or is_cmd(x[1], *pre))]


def ex(k, v):
    return 'returns' if k == 'return' else v.name


def modem_scene(rep, w, fields=None):
    """scenes of a connected modem of an unknown family"""
    me, sts = connected(rep, w, PROFILES[0])
    out = []
    for st in sts[:1]:
        if fields:
            o = st.heap[me.args]
            for a, v in fields.items():
                o = o.with_attr(a, v)
            st = st.with_heap(me.args, o)
        out.append((Scene(rep, w, me), st))
    return out


NUM, OTHER, CB, CB2 = sym('number', 'str'), sym('otherNumber', 'str'), sym('onStatus', 'callable'), sym('onStatus2', 'callable')

# what the modem families send: (initiation, answer, end, rejection) of call %d; None: nothing
FAMILIES = {
    'huawei': ('^ORIG:%d,0', '^CONN:%d,0', '^CEND:%d,10,29,16', '^CEND:%d,10,29,16'),
    'wavecom': ('+WIND: 5,%d', 'OK', '+WIND: 6,%d', '+WIND: 6,%d'),
    'zte': (None, 'CONNECT', 'HANGUP: %d', 'OK'),
    'generic': (None, None, None, None),
}


def line_of(t, n):
    return t % n if '%' in t else t


def clcc(n, stat, direction=0, number='0123456789'):
    return '+CLCC: %d,%d,%d,0,0,"%s",129' % (n, direction, stat, number)


def polling(sc, seq):
    """the modem answers AT+CLCC with the lines of seq in turn (None: no call); with the last one the connection is closed"""
    base = answer()

    def model(eng, func, env, st, node):
        a = write_params(env)
        if not is_cmd(a['data'], 'AT+CLCC'):
            return base(eng, func, env, st, node)
        n = len(commands(eng.monitors[0].get(st), 'AT+CLCC'))
        st = eng.emit(st, 'cmd', node, recv=None, wait_now=True, **a)
        if n > len(seq):
            sc.endless = True
            return []
        if n >= len(seq) - 1:
            st = st.with_heap(sc.me.args, st.heap[sc.me.args].with_attr('alive', FALSE))
        x = seq[min(n, len(seq) - 1)]
        if x == 'timeout':
            eng.throw(new_exc(eng, 'TimeoutException', ()), st, node)
            return []
        ref, st = eng.alloc(st, node, Obj('list', None, {}, tuple(const(y) for y in (([x] if x else []) + ['OK']))), 'clcc')
        return [(ref, st)]
    return model


def with_alive(sc, st):
    return st.with_heap(sc.me.args, st.heap[sc.me.args].with_attr('alive', TRUE))


def waiting(sc, lines):
    """Event.wait(): the given notification (if any) and the threads started so far run while the caller waits"""
    def model(eng, recv, args, kwargs, st, node):
        if eng.typ(recv, st) not in ('Event', 'Event?'):
            return None
        tr = eng.monitors[0]
        sts = [st]
        for x in [y for y in tr.get(st) if y[0] == 'spawn']:
            kw = {}
            if x[2] is not None and x[2].op == 'ref' and x[2].args in st.heap and st.heap[x[2].args].items is not None:
                kw = {cval(k): v for k, v in st.heap[x[2].args].items}
            pos = list(x[3].args) if x[3] is not None and x[3].op == 'tuple' else []
            nxt = []
            for s in sts:
                nxt += [s2 for v, s2 in eng.call_value(x[1], pos, kw, s, node)]
            sts = nxt
        for ln in lines:
            nxt = []
            for s in sts:
                ls, s = eng.alloc(s, node, Obj('list', None, {}, tuple(const(y) for y in ln)), 'batch')
                for g in sc.roots[:1]:
                    nxt += [s2 for v, s2 in eng.call_func(g, [sc.me] + [ls] * (len(g.params) - 1), {}, s, node)]
            sts = nxt
        out = []
        for s in sts:
            woken = any(x[0] == 'set' and x[1] is recv for x in tr.get(s))
            out.append((TRUE if woken else FALSE, s))
        return out
    return {'wait': model}


def new_call(sc, v, s):
    return v if v.op == 'ref' and v.args in s.heap and s.heap[v.args].cls is not None else None


def check_V05(rep, root, tier):
    w = World(root)
    f = w.p.method('GsmModem', 'dial')
    for prof in PROFILES:
        name, fam = prof[0], prof[4]
        me, sts = connected(rep, w, prof)
        rep.check(bool(sts), 'V05', '%s: cannot connect' % name, f.loc, 'connect() never completes for this kind of modem')
        init, ans, end, rej = FAMILIES[fam]
        for st in sts:
            sc = Scene(rep, w, me)
            sc.methods = waiting(sc, [[line_of(init, 3)]] if init else [])
            if fam == 'generic':
                sc.model = polling(sc, [clcc(3, 2), clcc(3, 2)])
            st = with_alive(sc, st)
            rs = sc.run(f, [me, NUM, const(5), CB], st)
            rep.ob('V05', '%s: dial' % name)
            for k, v, s, t in rs:
                what = '%s: ' % name
                atd = commands(t, 'ATD')
                if len(atd) != 1:
                    rep.bad('V05', what + 'dialled %d times' % len(atd), f.loc, 'dial() sends %d dialling commands' % len(atd))
                for x in atd:
                    if x[1].op == 'str' and list(x[1].args) != [const('ATD'), NUM, const(';')] or x[1].op in ('const', 'sym'):
                        rep.bad('V05', what + 'other command', f.loc, 'a voice call is dialled with %s instead of ATD<number>;' % show(x[1])[:60])
                    waits = x[2]
                    if fam in ('wavecom', 'zte') and waits is True:
                        rep.bad('V05', what + 'waits for OK', f.loc, 'dialling waits for the OK that this modem only sends once the call is answered')
                    if fam in ('huawei', 'generic') and waits is False:
                        rep.bad('V05', what + 'does not wait for OK', f.loc, 'the OK of the dialling command is not awaited; an error is not noticed and the OK is taken for a notification')
                if k == 'raise':
                    rep.bad('V05', what + 'initiation not recognised (%s)' % v.name, f.loc, 'dial() fails (%s) although the modem reports that the call is being set up' % v.name)
                    continue
                c = new_call(sc, v, s)
                if c is None:
                    rep.bad('V05', what + 'no call returned', f.loc, 'dial() returns %s' % show(v))
                    continue
                want = 3 if init or fam == 'generic' else None
                cid = sc.get(c, 'id', s)
                act = sc.active(s)
                rep.ob('V05', '%s: call %s' % (name, show(cid)))
                if want is not None and not is_k(cid, want):
                    rep.bad('V05', what + 'other id', f.loc, 'the call has the id %s instead of the one the modem reported' % show(cid))
                if act is None or cid is None or cid.op != 'const':
                    continue
                if act.get(cval(cid)) is not c:
                    rep.bad('V05', what + 'not registered', f.loc, 'the new call is not among the active calls under its id')
                    continue
                if sc.get(c, 'number', s) is not NUM:
                    rep.bad('V05', what + 'other number', f.loc, 'the call does not carry the dialled number')
                if not is_k(sc.get(c, 'active', s), True) or not is_k(sc.get(c, 'answered', s), False):
                    rep.bad('V05', what + 'state of the new call', f.loc, 'a new outgoing call is not "active and not answered"')
                if callbacks(t, CB):
                    rep.bad('V05', what + 'callback while dialling', f.loc, 'the status callback is called before the call\'s status changed')
                if fam == 'generic':
                    continue
                sc2 = Scene(rep, w, me)
                for kind, line in (('answer', ans), ('end', end), ('rejection', rej)):
                    for k2, v2, s2, t2 in sc2.notify([line_of(line, cval(cid))], s):
                        rep.ob('V05', '%s: %s' % (name, kind))
                        judge_update(rep, 'V05', '%s%s ' % (what, kind), sc2, c, cval(cid), k2, v2, s2, t2, 'answered' if kind == 'answer' else 'ended', CB, f.loc)


def judge_update(rep, rule, what, sc, c, cid, k, v, s, t, expect, cb, loc):
    """the effect of one status notification on the call c"""
    if k == 'raise':
        rep.bad(rule, what + 'fails (%s)' % v.name, loc, 'handling the notification ends with %s' % v.name)
        return
    a, act, reg = sc.get(c, 'answered', s), sc.get(c, 'active', s), (sc.active(s) or {})
    n = [x for x in callbacks(t, cb)] if cb is not None else []
    if expect == 'answered':
        ok = is_k(a, True) and is_k(act, True) and reg.get(cid) is c
        say = 'the call does not count as answered (and active) after the notification'
    elif expect == 'ended':
        ok = is_k(a, False) and is_k(act, False) and reg.get(cid) is not c
        say = 'the call still counts as answered, active or registered after it has ended'
    else:
        ok = True
        say = ''
        if n:
            rep.bad(rule, what + 'callback', loc, 'the status callback of a call is called although the call has not changed')
        return
    if not ok:
        rep.bad(rule, what + 'not recognised', loc, say)
        return
    r = sc.get(c, 'ringing', s)
    if expect == 'ended' and r is not None and is_k(r, True):
        rep.bad(rule, what + 'still ringing', loc, 'an incoming call that has ended still counts as ringing')
    if cb is not None and len(n) != 1:
        rep.bad(rule, what + 'callback called %d times' % len(n), loc, 'the status callback is called %d times for one change' % len(n))
    for x in n:
        if not x[2] or x[2][0] is not c and not (x[2][0].op == 'proxy' and x[2][0].args[0] is c):
            rep.bad(rule, what + 'callback with something else', loc, 'the status callback is not given the call')
        elif expect == 'ended' and x[3] is not None and is_k(x[3], True):
            rep.bad(rule, what + 'callback too early', loc, 'the status callback is called for the end of the call while the call still counts as active')


# ----------------------------------------------------------- status updates
def scene_of(rep, w, fam):
    """(scene, state) of a connected modem of the family"""
    for prof in PROFILES:
        if prof[4] == fam:
            me, sts = connected(rep, w, prof)
            for st in sts[:1]:
                return Scene(rep, w, me), st
    return None, None


def outcome(sc, ref, s):
    return tuple(sc.get(ref, a, s) for a in ('active', 'answered'))


def check_V03(rep, root, tier):
    """three calls are active: an answered outgoing one (1), an incoming one (2), two unanswered outgoing ones (3, 4)"""
    w = World(root)
    loc = w.p.cls('Call').mod.relpath
    for fam in ('huawei', 'wavecom', 'zte'):
        sc, st0 = scene_of(rep, w, fam)
        if sc is None:
            continue
        init, ans, end, rej = FAMILIES[fam]
        CBS = {i: sym('onStatus%d' % i, 'callable') for i in (1, 3, 4)}
        base = []
        for c1, s1 in sc.outgoing(1, sym('n1', 'str'), st0, CBS[1], answered=True):
            for c2, s2 in sc.incoming(2, sym('n2', 'str'), s1):
                for c3, s3 in sc.outgoing(3, sym('n3', 'str'), s2, CBS[3]):
                    for c4, s4 in sc.outgoing(4, sym('n4', 'str'), s3, CBS[4]):
                        base.append(({1: c1, 2: c2, 3: c3, 4: c4}, s4))
        numbered = '%' in ans
        tests = []
        for i in (1, 3, 4, 7):
            if numbered and i != 1:
                tests.append((ans, i, 'answered'))
            tests.append((end, i, 'ended'))
        if not numbered:
            tests.append((ans, 3, 'answered'))
        if rej and rej != end:
            tests.append((rej, 3, 'ended'))
        if init:
            tests.append((init, 3, 'none'))
            tests.append((init, 7, 'none'))
        if fam == 'zte':
            tests.append((ans, 3, 'answered'))
        for line, i, expect in tests:
            for cs, s in base:
                before = {j: outcome(sc, c, s) for j, c in cs.items()}
                text = line_of(line, i)
                for k, v, s2, t in sc.notify([text], s):
                    what = '%s %s: ' % (fam, text)
                    rep.ob('V03', what + expect)
                    if k == 'raise':
                        rep.bad('V03', what + 'fails (%s)' % v.name, loc, 'handling the notification ends with %s' % v.name)
                        continue
                    if i in cs and expect != 'none':
                        judge_update(rep, 'V03', what, sc, cs[i], i, k, v, s2, t, expect, CBS.get(i), loc)
                    reg = sc.active(s2) or {}
                    for j, c in cs.items():
                        if j == i and expect != 'none':
                            continue
                        if outcome(sc, c, s2) != before[j]:
                            rep.bad('V03', what + 'changes call %d' % j, loc, 'the notification %r changes another call (%s)' % (text, {1: 'answered', 2: 'incoming', 3: 'unanswered', 4: 'unanswered'}[j]))
                        if reg.get(j) is not c:
                            rep.bad('V03', what + 'drops call %d' % j, loc, 'the notification %r removes another call from the active calls' % text)
                        if j in CBS and callbacks(t, CBS[j]):
                            rep.bad('V03', what + 'callback of call %d' % j, loc, 'the notification %r calls the status callback of another call' % text)
                    if commands(t):
                        rep.bad('V03', what + 'sends a command', loc, 'a status notification makes the library send %s' % show(commands(t)[0][1])[:40])


# ------------------------------------------------------------------ call ids
def check_V01(rep, root, tier):
    w = World(root)
    loc = w.p.cls('Call').mod.relpath
    sets = ((), (1,), (2,), (1, 2), (1, 3), (2, 3), (1, 2, 3), (1, 2, 4), (3, 1)) + (((1, 2, 3, 4, 5), (5,), (2, 1), (1, 4), (4, 3, 2, 1)) if tier == 'thorough' else ())
    for fam, how in (('huawei', 'ring'), ('zte', 'dial')):
        sc, st0 = scene_of(rep, w, fam)
        if sc is None:
            continue
        for ids in sets:
            for kinds in ('out', 'in', 'mixed'):
                base = [({}, st0)]
                for n, i in enumerate(ids):
                    mk = sc.incoming if kinds == 'in' or kinds == 'mixed' and n % 2 else sc.outgoing
                    base = [(dict(cs, **{str(i): ref}), s2) for cs, s in base for ref, s2 in mk(i, const('0%d' % i), s)]
                for cs, s in base:
                    if how == 'ring':
                        rs = sc.notify(['+CRING: VOICE', '+CLIP: "+12345",145,,,,0'], s)
                    else:
                        sc.methods = waiting(sc, [])
                        rs = sc.call('GsmModem', 'dial', [sc.me, NUM, const(5), NONE], s)
                    what = '%s with calls %s' % (how, list(ids))
                    for k, v, s2, t in rs:
                        rep.ob('V01', what)
                        reg = sc.active(s2)
                        if k == 'raise':
                            rep.bad('V01', '%s: fails (%s)' % (how, v.name), loc, 'a new call fails with %s while the calls %s are active' % (v.name, list(ids)))
                            continue
                        if reg is None:
                            continue
                        for i, ref in cs.items():
                            if reg.get(int(i)) is not ref:
                                rep.bad('V01', '%s: replaces an active call' % how, loc, 'with the calls %s active, a new call takes the place of call %s' % (list(ids), i))
                        new = [(i, c) for i, c in reg.items() if c not in cs.values()]
                        if len(new) != 1 and all(reg.get(int(i)) is ref for i, ref in cs.items()):
                            rep.bad('V01', '%s: registered %d times' % (how, len(new)), loc, 'a new call is registered %d times' % len(new))
                        for i, c in new:
                            if not is_k(sc.get(c, 'id', s2) or NONE, i):
                                rep.bad('V01', '%s: registered under another id' % how, loc, 'a new call is registered under %s although its id is %s' % (i, show(sc.get(c, 'id', s2))))
                            if how == 'dial' and v is not c:
                                rep.bad('V01', 'dial: another call returned', loc, 'dial() returns something else than the call it registered')


# --------------------------------------------------------------------- rings
def check_V04(rep, root, tier):
    w = World(root)
    loc = w.p.cls('IncomingCall').mod.relpath
    ON = sym('onCall', 'callable')
    RING, CLIP, CLIP2 = '+CRING: VOICE', '+CLIP: "+12345",145,,,,0', '+CLIP: "0777",129'
    me, sts = connected(rep, w, PROFILES[0])
    me2, plain = connected(rep, w, PROFILES[0][:3] + (PROFILES[0][3] + ('AT+CLIP', 'AT+CRC'),) + PROFILES[0][4:])
    me3, noext = connected(rep, w, PROFILES[0][:3] + (PROFILES[0][3] + ('AT+CRC',),) + PROFILES[0][4:])

    def ring(sc, lines, s, what, number, ton=None, typ=None, same=None, count=1):
        out = []
        before = sc.active(s) or {}
        old = {c: sc.get(c, 'ringCount', s) for c in before.values()}
        for k, v, s2, t in sc.notify(lines, s):
            rep.ob('V04', what)
            if k == 'raise':
                rep.bad('V04', what + ': fails (%s)' % v.name, loc, 'handling the ring ends with %s' % v.name)
                continue
            cb = callbacks(t, ON)
            if len(cb) != 1:
                rep.bad('V04', what + ': reported %d times' % len(cb), loc, 'a ring is reported %d times to the incoming call callback' % len(cb))
                continue
            c = cb[0][2][0] if cb[0][2] else NONE
            reg = sc.active(s2) or {}
            if c.op != 'ref' or c.args not in s2.heap:
                continue
            if s2.heap[c.args].cls is not w.p.cls('IncomingCall'):
                rep.bad('V04', what + ': reported with another object', loc, 'a ring is reported with something else than an incoming call')
                continue
            cid = sc.get(c, 'id', s2)
            if cid is None or cid.op != 'const' or reg.get(cval(cid)) is not c:
                rep.bad('V04', what + ': not registered', loc, 'the ringing call is not among the active calls under its id')
            if same is not None and c is not same:
                rep.bad('V04', what + ': new call for a repeated ring', loc, 'a repeated ring of a call is reported as a new call')
                continue
            if same is None and c in before.values():
                rep.bad('V04', what + ': taken for another call', loc, 'a ring is attributed to another active call')
                continue
            if len(reg) != len(before) + (same is None):
                rep.bad('V04', what + ': %d calls' % (len(reg) - len(before)), loc, 'a ring changes the number of active calls by %d' % (len(reg) - len(before)))
            n = sc.get(c, 'ringCount', s2)
            if n is not None and n.op == 'const' and not is_k(n, count):
                rep.bad('V04', what + ': ring count', loc, 'after %d rings the ring count is %s' % (count, show(n)))
            for o, x in old.items():
                if o is not c and x is not None and sc.get(o, 'ringCount', s2) is not x:
                    rep.bad('V04', what + ': counts for another call', loc, 'a ring is counted for another call')
            if same is None:
                want = {'number': const(number), 'active': TRUE, 'answered': FALSE, 'ringing': TRUE}
                if ton is not None:
                    want['ton'] = const(ton)
                if typ is not None:
                    want['type'] = typ if isinstance(typ, T) else const(typ)
                for a, x in want.items():
                    y = sc.get(c, a, s2)
                    if y is None or y.op == 'const' and y is not x:
                        rep.bad('V04', what + ': ' + a, loc, 'the %s of the incoming call is %s instead of %s' % (a, show(y) if y is not None else 'not set', show(x)))
            out.append((c, s2))
        return out
    for st in sts[:1]:
        sc = Scene(rep, w, me)
        for c, s in ring(sc, [RING, CLIP], st, 'first ring', '+12345', '145', 0):
            for c2, s2 in ring(sc, [RING, CLIP], s, 'second ring', '+12345', same=c, count=2):
                ring(sc, [RING, CLIP], s2, 'third ring', '+12345', same=c, count=3)
                ring(sc, [RING, CLIP2], s2, 'ring of another caller', '0777', '129', 0)
            for k, v, s3, t in sc.call('IncomingCall', 'hangup', [c], s):
                if k == 'return':
                    ring(sc, [RING, CLIP], s3, 'ring after hanging up', '+12345', '145', 0)
        for c, s in sc.outgoing(1, const('+12345'), st):
            ring(sc, [RING, CLIP], s, 'ring of the number being called', '+12345', '145', 0)
        for c, s in ring(sc, [RING], st, 'ring without a number', None, None, 0):
            ring(sc, [RING], s, 'second ring without a number', None, same=c, count=2)
            ring(sc, [RING, CLIP], s, 'ring with a number after one without', '+12345', '145', 0)
        ring(sc, [RING, '+CLIP: "",128,,,,0'], st, 'ring with an empty number', None, None, 0)
        ring(sc, ['+CRING: FAX', CLIP], st, 'ring of a fax', '+12345', '145', 'FAX')
        ring(sc, ['RING', CLIP], st, 'ring without a type', '+12345', '145', NONE)
        sc.model = answer(('AT+CRC',))
        ring(sc, ['RING', CLIP], st, 'ring without a type, type not available', '+12345', '145', NONE)
    for m, xs, nm, lines in ((me2, plain, 'no caller id', ['RING']), (me3, noext, 'no call types', ['RING', CLIP])):
        for st in xs[:1]:
            sc = Scene(rep, w, m)
            num = '+12345' if len(lines) > 1 else None
            for c, s in ring(sc, lines, st, nm + ': first ring', num):
                ring(sc, lines, s, nm + ': second ring', num, same=c, count=2)


# --------------------------------------------------------------- ending calls
def check_V02(rep, root, tier):
    w = World(root)
    loc = w.p.cls('Call').mod.relpath
    sc, st0 = scene_of(rep, w, 'huawei')
    ERRS = (('CommandError', (const('ATH'),)), ('TimeoutException', ()))
    N = NUM

    def bad(what, msg):
        rep.bad('V02', what, loc, msg)

    def ended(what, c, cid, s, t, cmds, cbs, cb=CB):
        rep.ob('V02', what)
        act, ans = outcome(sc, c, s)
        reg = sc.active(s) or {}
        if not is_k(act, False) or not is_k(ans, False):
            bad(what + ': state', 'the call does not count as inactive and unanswered after it has ended')
        if c in reg.values():
            bad(what + ': still registered', 'an ended call stays among the active calls')
        got = [x[1] for x in commands(t)]
        if [show(x) for x in got] != [repr(x) for x in cmds] and all(x.op == 'const' for x in got):
            bad(what + ': commands', 'the commands sent are %s instead of %s' % ([show(x) for x in got], cmds))
        n = callbacks(t, cb)
        if len(n) != cbs:
            bad(what + ': callback called %d times' % len(n), 'the status callback is called %d times instead of %d' % (len(n), cbs))
        if any(x[3] is not None and is_k(x[3], True) for x in n):
            bad(what + ': callback too early', 'the status callback is called for the end of the call while the call still counts as active')

    for answered in (False, True):
        tag = 'answered call' if answered else 'unanswered call'
        for c, s in sc.outgoing(3, N, st0, CB, answered=answered):
            # local hangup, twice
            for k, v, s1, t in sc.call('Call', 'hangup', [c], s):
                what = tag + ', hangup'
                if k == 'raise':
                    bad(what + ': fails (%s)' % v.name, 'hanging up ends with %s' % v.name)
                    continue
                ended(what, c, 3, s1, t, ['ATH'], 1)
                for k2, v2, s2, t2 in sc.call('Call', 'hangup', [c], s1):
                    what2 = tag + ', second hangup'
                    if k2 == 'raise':
                        bad(what2 + ': fails (%s)' % v2.name, 'hanging up an ended call ends with %s' % v2.name)
                        continue
                    ended(what2, c, 3, s2, t2, [], 0)
                # the end is also reported by the modem
                for k2, v2, s2, t2 in sc.notify(['^CEND:3,10,29,16'], s1):
                    ended(tag + ', end reported after hangup', c, 3, s2, t2, [], 0)
                # the id is taken by a newer call
                for c9, s9 in sc.outgoing(3, OTHER, s1, CB2):
                    for k2, v2, s2, t2 in sc.call('Call', 'hangup', [c], s9):
                        rep.ob('V02', tag + ', hangup after the id was given to a newer call')
                        if (sc.active(s2) or {}).get(3) is not c9 or not is_k(sc.get(c9, 'active', s2), True):
                            bad(tag + ': newer call dropped', 'hanging up an ended call removes a newer call with the same id')
                        if commands(t2):
                            bad(tag + ': newer call hung up', 'hanging up an ended call hangs up the newer call')
            # remote end, then hangup
            for k, v, s1, t in sc.notify(['^CEND:3,10,29,16'], s):
                ended(tag + ', remote end', c, 3, s1, t, [], 1)
                for k2, v2, s2, t2 in sc.notify(['^CEND:3,10,29,16'], s1):
                    ended(tag + ', remote end reported twice', c, 3, s2, t2, [], 0)
                for k2, v2, s2, t2 in sc.call('Call', 'hangup', [c], s1):
                    if k2 == 'raise':
                        bad(tag + ': hangup after the remote end fails', 'hanging up an ended call ends with %s' % v2.name)
                        continue
                    ended(tag + ', hangup after the remote end', c, 3, s2, t2, [], 0)
            # hangup refused
            for en, ea in ERRS:
                sc.model = failing(w, 'ATH', en, ea)
                for k, v, s1, t in sc.call('Call', 'hangup', [c], s):
                    what = '%s, hangup refused (%s)' % (tag, en)
                    rep.ob('V02', what)
                    if k == 'return':
                        bad(what + ': error swallowed', 'the failure of hanging up is not reported')
                    elif v.name != en:
                        bad(what + ': other error', 'the failure of hanging up is reported by %s' % v.name)
                    if not is_k(sc.get(c, 'active', s1), True) or (sc.active(s1) or {}).get(3) is not c or not is_k(sc.get(c, 'answered', s1), answered):
                        bad(what + ': state', 'the call counts as ended although the modem did not end it')
                    if callbacks(t, CB):
                        bad(what + ': callback', 'the status callback is called although the call has not ended')
                sc.model = answer()
    # incoming calls
    for c, s in sc.incoming(2, N, st0):
        for k, v, s1, t in sc.call('IncomingCall', 'answer', [c], s):
            rep.ob('V02', 'answer')
            if k == 'raise':
                bad('answer fails (%s)' % v.name, 'answering ends with %s' % v.name)
                continue
            got = [show(x[1]) for x in commands(t)]
            if got != ["'ATA'"]:
                bad('answer: commands', 'answering sends %s' % got)
            if not is_k(sc.get(c, 'ringing', s1), False) or not is_k(sc.get(c, 'answered', s1), True) or not is_k(sc.get(c, 'active', s1), True):
                bad('answer: state', 'an answered call does not count as active, answered and no longer ringing')
            if (sc.active(s1) or {}).get(2) is not c:
                bad('answer: registration', 'an answered call is no longer among the active calls')
            if v is not c:
                bad('answer: result', 'answer() does not return the call')
            for k2, v2, s2, t2 in sc.call('IncomingCall', 'answer', [c], s1):
                rep.ob('V02', 'second answer')
                if commands(t2):
                    bad('second answer: commands', 'a call that is already answered is answered again')
                if v2 is not c:
                    bad('second answer: result', 'answer() does not return the call')
            for k2, v2, s2, t2 in sc.call('IncomingCall', 'hangup', [c], s1):
                ended('incoming, hangup after answering', c, 2, s2, t2, ['ATH'], 0)
        for en, ea in ERRS:
            sc.model = failing(w, 'ATA', en, ea)
            for k, v, s1, t in sc.call('IncomingCall', 'answer', [c], s):
                rep.ob('V02', 'answer refused (%s)' % en)
                if k == 'return':
                    bad('answer refused: error swallowed', 'the failure of answering is not reported')
                if not is_k(sc.get(c, 'ringing', s1), True) or not is_k(sc.get(c, 'answered', s1), False):
                    bad('answer refused: state', 'the call counts as answered although the modem refused')
            sc.model = failing(w, 'ATH', en, ea)
            for k, v, s1, t in sc.call('IncomingCall', 'hangup', [c], s):
                rep.ob('V02', 'incoming, hangup refused (%s)' % en)
                if k == 'return':
                    bad('incoming, hangup refused: error swallowed', 'the failure of hanging up is not reported')
                if not is_k(sc.get(c, 'ringing', s1), True) or not is_k(sc.get(c, 'active', s1), True) or (sc.active(s1) or {}).get(2) is not c:
                    bad('incoming, hangup refused: state', 'the call no longer counts as ringing although the modem did not end it')
            sc.model = answer()
        for k, v, s1, t in sc.call('IncomingCall', 'hangup', [c], s):
            ended('incoming, hangup while ringing', c, 2, s1, t, ['ATH'], 0)
            after_end(rep, sc, c, s1, 'hangup', bad)
        for k, v, s1, t in sc.notify(['^CEND:2,0,29,16'], s):
            ended('incoming, remote end', c, 2, s1, t, [], 0)
            after_end(rep, sc, c, s1, 'remote end', bad)


def after_end(rep, sc, c, s, how, bad):
    if not is_k(sc.get(c, 'ringing', s), False):
        bad('incoming, %s: still ringing' % how, 'an incoming call that has ended still counts as ringing')
    for k, v, s2, t in sc.call('IncomingCall', 'answer', [c], s):
        rep.ob('V02', 'answer after ' + how)
        if commands(t):
            bad('answer after %s' % how, 'a call that has ended is answered')
    for k, v, s2, t in sc.call('IncomingCall', 'hangup', [c], s):
        rep.ob('V02', 'incoming, hangup after ' + how)
        if commands(t):
            bad('incoming, hangup after %s' % how, 'a call that has ended is hung up')


def failing(w, cmd, en, ea):
    """the modem refuses one command with the given exception"""
    base = answer()

    def model(eng, func, env, st, node):
        if is_cmd(env.get('data'), cmd):
            a = write_params(env)
            wait = not is_k(a['wait'], False)
            st = eng.emit(st, 'cmd', node, recv=None, wait_now=wait, **a)
            if not wait:
                return [(NONE, st)]
            if is_k(a['parse'], False) and en != 'TimeoutException':
                ref, st = eng.alloc(st, node, Obj('list', None, {}, (const('ERROR'),)), 'resp')
                return [(ref, st)]
            eng.throw(new_exc(eng, en, ea), st, node)
            return []
        return base(eng, func, env, st, node)
    return model


# ------------------------------------------------------------------- polling
def check_V08(rep, root, tier):
    w = World(root)
    f = w.p.method('GsmModem', 'dial')
    prof = [p for p in PROFILES if p[4] == 'generic'][0]
    me, sts = connected(rep, w, prof)
    for st in sts[:1]:
        sc = Scene(rep, w, me)
        st = with_alive(sc, st)
        sc.methods = waiting(sc, [])
        sc.model = polling(sc, [clcc(3, 2), clcc(3, 2)])
        spawned, dialled = None, []
        rs = sc.run(f, [me, NUM, const(5), CB], st)
        if sc.endless:
            rep.bad('V08', 'dial: polls too long', f.loc, 'the modem is still polled after the connection was closed')
        for k, v, s, t in rs:
            sp = [x for x in t if x[0] == 'spawn']
            if sp:
                spawned = sp[0]
            if k == 'return':
                dialled.append((v, s))
        rep.check(spawned is not None, 'V08', 'not polled', f.loc, 'the status of calls of a modem without notifications is not polled')
        if spawned is None or spawned[1] is None or spawned[1].op != 'bm':
            continue
        g = w.p.funcs[spawned[1].args[0]]
        # (what the modem reports in turn, what becomes of the call: changes in order)
        runs = (
            ('answered, ended', [clcc(3, 2), clcc(3, 3), clcc(3, 0), clcc(3, 0), None, None], ['answered', 'ended']),
            ('answered at once, ended', [clcc(3, 3), clcc(3, 0), None, None], ['answered', 'ended']),
            ('rejected', [clcc(3, 2), clcc(3, 3), None, None], ['ended']),
            ('still dialling', [clcc(3, 2), clcc(3, 2), clcc(3, 3)], []),
            ('answered, held', [clcc(3, 2), clcc(3, 0), clcc(3, 1), clcc(3, 0)], ['answered']),
            ('other call reported', [clcc(3, 2), clcc(1, 4, 1), clcc(3, 0), clcc(1, 4, 1), clcc(3, 0)], ['answered']),
            ('a poll is not answered, then ended', [clcc(3, 2), clcc(3, 0), 'timeout', 'timeout'], ['answered', 'ended']),
        )
        for call, s0 in dialled:
            c = new_call(sc, call, s0)
            if c is None or not is_k(sc.get(c, 'id', s0) or NONE, 3):
                continue
            s0 = with_alive(sc, s0)
            for name, seq, want in runs:
                sc.model = polling(sc, seq)
                kw = {}
                if spawned[2] is not None and spawned[2].op == 'ref' and spawned[2].args in s0.heap and s0.heap[spawned[2].args].items is not None:
                    kw = {cval(k): v for k, v in s0.heap[spawned[2].args].items}
                args = [me] + (list(spawned[3].args) if spawned[3] is not None and spawned[3].op == 'tuple' else [])
                args += [kw[p] for p in g.params[len(args):] if p in kw] if all(p in kw for p in g.params[len(args):len(args) + len(kw)]) else []
                # (a time limit that is shorter than the calls last)
                kw, args = {p: const(1) if is_k(v, 5) else v for p, v in kw.items()}, [const(1) if is_k(v, 5) else v for v in args]
                miss = [p for p in kw if p not in g.params[:len(args)]]
                if miss:
                    tr = Trace()
                    mc = sc.machine([tr])
                    env, problem = mc.bind_args(g, args, kw, s0, g.node)
                    outs = mc.run(g, env, s0) if not problem else []
                    rep.ran(mc, outs)
                    rs = [(k, v, chain(s), tr.get(s)) for k, v, s in outs if not s.degraded]
                else:
                    rs = sc.run(g, args, s0)
                if sc.endless:
                    sc.endless = False
                    rep.bad('V08', name + ': polls too long', g.loc, 'the modem is still polled after the call has ended or the connection was closed')
                for k, v, s, t in rs:
                    rep.ob('V08', name + ': ' + ex(k, v))
                    if k == 'raise':
                        rep.bad('V08', '%s: polling fails (%s)' % (name, v.name), g.loc, 'polling ends with %s' % v.name)
                        continue
                    n = len(callbacks(t, CB))
                    act, ans = outcome(sc, c, s)
                    reg = (sc.active(s) or {}).get(3) is c
                    end = 'ended' in want
                    if end and (not is_k(act, False) or reg or not is_k(ans, False)):
                        rep.bad('V08', name + ': end not noticed', g.loc, 'the call still counts as active although the modem no longer lists it')
                    elif not end and (not is_k(act, True) or not reg):
                        rep.bad('V08', name + ': taken as ended', g.loc, 'the call counts as ended although the modem lists it')
                    elif not end and not is_k(ans, 'answered' in want):
                        rep.bad('V08', name + ': answer', g.loc, 'the call %s although %s' % (('does not count as answered', 'the modem reports it as active') if 'answered' in want else ('counts as answered', 'the modem reports it as dialling')))
                    elif n != len(want):
                        rep.bad('V08', name + ': %d status changes' % n, g.loc, 'the status callback is called %d times instead of %d' % (n, len(want)))
                    if len(commands(t, 'AT+CLCC')) > len(seq):
                        rep.bad('V08', name + ': polls too long', g.loc, 'the modem is still polled after the call has ended or the connection was closed')
                    if end and len(commands(t, 'AT+CLCC')) > len([x for x in seq]) - 1:
                        rep.bad('V08', name + ': polls an ended call', g.loc, 'polling does not stop when the call has ended')



# ------------------------------------------------------------- notifications
CMTI, CMTI2, CDSI, CUSD = '+CMTI: "ME",7', '+CMTI: "SM",12', '+CDSI: "SR",3', '+CUSD: 0,"Balance",15'


def effects_of(trace):
    """what handling notifications did that matters, in order"""
    out = []
    for x in trace:
        if x[0] == 'read':
            out.append('read ' + show(x[1]).strip("'"))
        elif x[0] == 'callback' and x[1].op == 'sym':
            out.append(x[1].args[0])
        elif x[0] == 'set':
            out.append('wake')
    return out


def check_N01(rep, root, tier):
    w = World(root)
    SMS7, SMS12, REP3 = ['read 7', 'onSms'], ['read 12', 'onSms'], ['read 3', 'onReport']
    for fam in ('huawei', 'wavecom', 'zte'):
        sc, st0 = scene_of(rep, w, fam)
        if sc is None:
            continue
        loc = sc.roots[0].loc
        ring = (['RING'] if fam != 'huawei' else ['+CRING: VOICE']) + ['+CLIP: "+12345",145']
        init, ans, end, rej = FAMILIES[fam]
        A3, E3, E1 = line_of(ans, 3), line_of(end, 3), line_of(end, 1)
        UP3, UP1 = ['status3'], ['status1']
        tests = [
            ([CMTI], SMS7), ([CDSI], REP3),
            ([CMTI, CMTI2], SMS7 + SMS12),
            ([CMTI, CDSI, CMTI2], SMS7 + REP3 + SMS12),
            ([CDSI, CMTI], REP3 + SMS7),
            (['junk', CMTI], SMS7), ([CMTI, 'junk', '', CDSI], SMS7 + REP3),
            (ring + [CMTI], ['onCall'] + SMS7),
            ([CMTI] + ring, SMS7 + ['onCall']),
            ([CMTI] + ring + [CDSI], SMS7 + ['onCall'] + REP3),
            (ring + ring, ['onCall', 'onCall']),
            (ring[:1] + [CMTI], ['onCall'] + SMS7),
            ([A3, CMTI], UP3 + SMS7), ([CMTI, A3], SMS7 + UP3),
            ([E3, E1], UP3 + UP1), ([E1, E3, CMTI], UP1 + UP3 + SMS7),
            ([A3, E3], UP3 + UP3),
            (ring + [E3], ['onCall'] + UP3), ([E3] + ring, UP3 + ['onCall']),
            ([CMTI, CUSD], SMS7), ([CMTI, A3, CUSD], SMS7 + UP3),
        ]
        if init:
            tests += [([line_of(init, 3), CMTI], SMS7)]
        base = []
        for c1, s1 in sc.outgoing(1, const('0111'), st0, sym('status1', 'callable'), answered=True):
            for c3, s3 in sc.outgoing(3, const('0333'), s1, sym('status3', 'callable')):
                base.append(s3)
        for lines, want in tests:
            for s in base:
                done = False
                name = '%s: %s' % (fam, ' | '.join(lines))
                for k, v, s2, t in sc.notify(lines, s):
                    got = effects_of(t)
                    rep.ob('N01', name)
                    if k == 'raise':    # reading a message failed (an error of the modem or a message that cannot be decoded)
                        if got != want[:len(got)]:
                            rep.bad('N01', name + ': other effects', loc, 'the notifications %s are handled as %s' % (lines, got))
                        continue
                    done = True
                    if got != want:
                        lost = [x for x in want if x not in got]
                        twice = len(got) > len(want)
                        rep.bad('N01', name, loc, 'the notifications %s %s: %s happens instead of %s' % (lines, 'are not all handled' if lost else 'are handled twice or for something else' if twice else 'are not handled in order', got, want))
                if not done and not sc.lost:
                    rep.bad('N01', name + ': never handled', loc, 'handling the notifications %s never succeeds' % lines)
    # what the reading thread passes on is handled completely, in one thread of its own
    sc, st0 = scene_of(rep, w, 'huawei')
    entry = None
    for a, v in st0.heap[sc.me.args].attrs.items():
        if v.op == 'bm' and v.args[1] is sc.me and v.args[0] in w.p.funcs and len(w.p.funcs[v.args[0]].params) == 2 and any(
                r.qual == v.args[0] or r.name in [n.attr for n in own_nodes(w.p.funcs[v.args[0]].node) if isinstance(n, ast.Attribute)] for r in sc.roots):
            entry = w.p.funcs[v.args[0]]
    if entry is None:
        rep.note('the function that receives notifications was not found')
        return
    for lines in ([CMTI], [CMTI, CDSI], ['+CUSD: 0,"a', 'b",15']):
        ls, st = sc.mklist(st0, lines)
        for k, v, s, t in sc.run(entry, [sc.me, ls], st):
            rep.ob('N01', 'passed on: %s' % lines)
            sp = [x for x in t if x[0] == 'spawn']
            if k == 'raise':
                rep.bad('N01', 'passing on fails', entry.loc, 'passing on a notification ends with %s' % v.name)
            elif not sp and not effects_of(t):
                rep.bad('N01', 'not passed on', entry.loc, 'a notification is dropped before it is handled')
            elif len(sp) > 1:
                rep.bad('N01', 'passed on %d times' % len(sp), entry.loc, 'a notification is handled by %d threads' % len(sp))
            for x in sp:
                arg = None
                if x[3] is not None and x[3].op == 'tuple' and x[3].args:
                    arg = x[3].args[0]
                elif x[2] is not None and x[2].op == 'ref' and x[2].args in s.heap and s.heap[x[2].args].items:
                    arg = s.heap[x[2].args].items[0][1]
                if arg is None or arg.op != 'ref' or arg.args not in s.heap:
                    continue
                o = s.heap[arg.args]
                if o.kind == 'list' and o.items is not None and all(y.op == 'const' for y in o.items) and [cval(y) for y in o.items] != lines:
                    rep.bad('N01', 'passed on incompletely', entry.loc, 'of the notification lines %s only %s are passed on' % (lines, [cval(y) for y in o.items]))


GARBAGE = (['+CMTI'], ['+CMTI: "ME"'], ['+CMTI: "ME",'], ['+CMTI: ME,x'], ['+CMTI: "ME",x'], ['+CDSI'], ['+CDSI:'], ['+CDSI: "SR"'], ['+CDSI: SR,1'], ['RING'], ['+CRING'], ['+CRING: '], ['+CRING:'],
           ['+CRING: VOICE', '+CLIP'], ['+CRING: VOICE', '+CLIP: "'], ['+CRING: VOICE', '+CLIP: ,'], ['RING', '+CLIP: "+12",145'], ['+CLIP: "+12",145'], ['+CLIP'],
           ['^CEND:'], ['^CEND'], ['^CEND:9'], ['^CEND:9,1,2,3'], ['^CEND:9,10,29,16'], ['^CEND:x,10,29'], ['^CONN:'], ['^CONN:9'], ['^CONN:9,0'], ['^CONN'], ['^ORIG:9'], ['^ORIG:9,0'], ['^ORIG:'],
           ['+WIND: 5'], ['+WIND: 5,9'], ['+WIND: 6,9'], ['+WIND: 6'], ['+WIND: 4'], ['+WIND:'], ['HANGUP: 9'], ['HANGUP:'], ['HANGUP'], ['CONNECT'], ['OK'], ['NO CARRIER'], ['BUSY'], ['ERROR'], ['+CME ERROR: 3'],
           ['+CUSD'], ['+CUSD:'], ['+CUSD: 2'], ['+CUSD: 0,"a'], ['+CUSD: 0,"a', 'b",15'], ['+CUSD: "a"'], [''], [' '], [','], ['"'], ['\x00'], ['junk', 'junk'], [])


class Language(Monitor):
    """errors of the language that nothing catches, and races on the table of active calls"""
    name = 'language'
    init = ()

    def __init__(self, rep, table='activeCalls'):
        self.rep, self.table = rep, table
        self.on_table = set()

    def mine(self, t):
        n = t.args[0] if t is not None and t.op in ('sym', 'ref') else ''
        return isinstance(n, str) and n.split('.')[-1] == self.table or t is not None and t.op == 'attr' and t.args[1] == self.table

    def iterates(self, t):
        """iterating over the table itself or a live view of it"""
        if t.op == 'm' and t.args[0] in ('values', 'items', 'keys', 'iter') and len(t.args) > 1 or t.op == 'call' and len(t.args) > 1 and t.args[0] in ('iter', 'dictview'):
            return self.iterates(t.args[1])
        if t.op in ('dictview', 'view'):
            return any(isinstance(x, T) and self.iterates(x) for x in t.args)
        return self.mine(t)

    def on(self, ev, st):
        k = ev.kind
        if k == 'mayraise' and not ev.caught and ev.exc.name in ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'UnboundLocalError', 'NameError', 'ValueError') and getattr(ev, 'known', None):
            self.rep.bad('N02', '%s in %s' % (ev.exc.name, ev.func), ev.where, 'handling a notification can end with %s' % ev.exc.name)
        if k == 'keyread' and self.mine(ev.base) and not ev.caught and not st.locks:
            self.rep.bad('N02', 'call read by key in %s' % ev.func, ev.where, 'another thread may have ended the call since it was looked up: its entry is gone (KeyError)')
        if k == 'delitem' and self.mine(ev.base) and not ev.default and not ev.caught and not st.locks:
            self.rep.bad('N02', 'call removed by key in %s' % ev.func, ev.where, 'another thread may have ended the call already: its entry is gone (KeyError)')
        if k == 'iter' and self.iterates(ev.value) and not st.locks:
            self.rep.bad('N02', 'iteration over the active calls in %s' % ev.func, ev.where, 'the active calls are iterated over while other threads add and remove calls (RuntimeError)')
        return st


LANGUAGE = ('KeyError', 'AttributeError', 'TypeError', 'IndexError', 'UnboundLocalError', 'NameError', 'ValueError', 'UnicodeError', 'UnicodeDecodeError', 'ZeroDivisionError', 'AssertionError', 'RuntimeError', 'Exception')


def check_N02(rep, root, tier):
    w = World(root)
    for fam in ('huawei', 'wavecom', 'zte', 'generic'):
        sc, st0 = scene_of(rep, w, fam)
        if sc is None:
            continue
        base = [st0]
        for c1, s1 in sc.outgoing(1, const('0111'), st0, NONE):
            for c2, s2 in sc.incoming(2, NONE, s1):
                base.append(s2)
        for s in base:
            for lines in GARBAGE:
                name = '%s: %s' % (fam, ' | '.join(lines))
                rep.ob('N02', name)
                for k, v, s2, t in sc.notify(lines, s):
                    if k == 'raise' and v.name in LANGUAGE:
                        rep.bad('N02', name + ': ' + v.name, sc.roots[0].loc, 'the notification %r ends the handling thread with %s' % (lines, v.name))
    # the same code with other threads changing the active calls at any time
    mon = Language(rep)
    for fam in ('huawei', 'wavecom', 'zte'):
        sc, st0 = scene_of(rep, w, fam)
        if sc is None:
            continue
        o = st0.heap[sc.me.args]
        st0 = st0.with_heap(sc.me.args, Obj(o.kind, o.cls, {k: v for k, v in o.attrs.items() if k != 'activeCalls'}, o.items, o.site))
        for lines in [[line_of(x, 3)] for x in FAMILIES[fam] if x] + [['+CRING: VOICE', '+CLIP: "+12345",145,,,,0']]:
            sc.monitors, sc.unroll = [mon], 2
            sc.notify(lines, st0)
            rep.ob('N02', 'races: %s %s' % (fam, lines))
    for cname, mname in (('Call', 'hangup'), ('IncomingCall', 'answer'), ('IncomingCall', 'hangup'), ('GsmModem', 'dial')):
        f = w.p.method(cname, mname)
        if f is None:
            continue
        c = w.modem_cfg(serial_faults=False, timeouts=False)
        c.opaque[w.p.method('GsmModem', 'write').qual] = answer()
        mc = Machine(w.p, [mon], c)
        env = {p: sym(p, None) for p in f.params[1:]}
        outs = entry_run(mc, w, f, env, cname)
        rep.ran(mc, outs)
        rep.ob('N02', 'races: ' + f.qual)
    for g in thread_targets(w):
        if g.cls is w.modem and g not in notification_roots(w) and 'timeout' not in g.name.lower():
            c = w.modem_cfg(serial_faults=False, timeouts=False)
            c.opaque[w.p.method('GsmModem', 'write').qual] = answer()
            mc = Machine(w.p, [mon], c)
            outs = entry_run(mc, w, g, default_env(w, g) if False else {p: sym(p, None) for p in g.params[1:]}, 'GsmModem')
            rep.ran(mc, outs)
            rep.ob('N02', 'races: ' + g.qual)


def thread_targets(w):
    out = []
    for f in w.modem.methods.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and (dotted(n.func) or '').split('.')[-1] == 'Thread':
                for k in n.keywords:
                    if k.arg == 'target' and isinstance(k.value, ast.Attribute):
                        nm = k.value.attr
                        g = w.modem.methods.get(nm) or w.modem.methods.get('_%s%s' % (w.modem.name, nm))
                        if g is not None and g not in out:
                            out.append(g)
    return out


# ---------------------------------------------------------------------- DTMF
def tones_of(cmds, base):
    """the tones that the commands send, or None"""
    out = ''
    for x in cmds:
        if x.op != 'const' or not isinstance(cval(x), str) or not cval(x).startswith('AT'):
            return None
        for part in cval(x)[2:].split(';'):
            if not part.startswith(base) or len(part) != len(base) + 1:
                return None
            out += part[-1]
    return out


def check_V06(rep, root, tier):
    w = World(root)
    f = w.p.method('Call', 'sendDtmfTone')
    for prof in PROFILES:
        name, fam = prof[0], prof[4]
        me, sts = connected(rep, w, prof)
        for st in sts[:1]:
            sc = Scene(rep, w, me)
            for cid in (3, 12):
                base = ('^DTMF=%d,' % cid) if fam == 'huawei' else '+VTS='
                for c, s in sc.outgoing(cid, NUM, st, CB, answered=True):
                    for tones in ('1', '5', '12', '123', '*#', '0*1#9', '11', 'AD3', '1234567890'):
                        for k, v, s2, t in sc.run(f, [c, const(tones)], s):
                            rep.ob('V06', '%s: %s' % (name, tones))
                            got = [x[1] for x in commands(t)]
                            if k == 'raise':
                                rep.bad('V06', '%s: %d tones: fails (%s)' % (name, len(tones), v.name), f.loc, 'sending the tones %s ends with %s' % (tones, v.name))
                            elif tones_of(got, base) != tones and all(x.op == 'const' for x in got):
                                rep.bad('V06', '%s: %d tones' % (name, len(tones)), f.loc, 'the tones %s of call %d are sent as %s' % (tones, cid, [show(x) for x in got]))
                            if not is_k(sc.get(c, 'answered', s2), True) or not is_k(sc.get(c, 'active', s2), True):
                                rep.bad('V06', '%s: changes the call' % name, f.loc, 'sending tones changes the state of the call')
        if fam != 'huawei':
            continue
        for st in sts[:1]:
            sc = Scene(rep, w, me)
            refused = []
            for c, s in sc.outgoing(3, NUM, st, CB, answered=False):
                refused.append(('unanswered call', c, s))
            for c, s in sc.outgoing(3, NUM, st, CB, answered=True):
                refused += [('call that was hung up', c, s1) for k, v, s1, t in sc.call('Call', 'hangup', [c], s) if k == 'return']
                refused += [('call that has ended', c, s1) for k, v, s1, t in sc.notify(['^CEND:3,10,29,16'], s) if k == 'return']
            for c, s in sc.incoming(2, NUM, st):
                refused.append(('ringing call', c, s))
                for k, v, s1, t in sc.call('IncomingCall', 'answer', [c], s):
                    if k == 'return':
                        refused += [('answered incoming call that was hung up', c, s2) for k2, v2, s2, t2 in sc.call('IncomingCall', 'hangup', [c], s1) if k2 == 'return']
                        for k2, v2, s2, t2 in sc.run(f, [c, const('12')], s1):
                            rep.ob('V06', 'answered incoming call')
                            if k2 == 'raise' or tones_of([x[1] for x in commands(t2)], '^DTMF=2,') != '12':
                                rep.bad('V06', 'answered incoming call', f.loc, 'tones cannot be sent in an answered incoming call')
            for what, c, s in refused:
                for k, v, s2, t in sc.run(f, [c, const('12')], s):
                    rep.ob('V06', what)
                    if k == 'return' or v.name != 'InvalidStateException':
                        rep.bad('V06', what + ': ' + ex(k, v), f.loc, 'sending tones in an %s ends with %s instead of InvalidStateException' % (what, ex(k, v)))
                    if commands(t):
                        rep.bad('V06', what + ': tones sent', f.loc, 'tones are sent for an %s' % what)
            for c, s in sc.outgoing(3, NUM, st, CB, answered=True):
                for en, ea, want in (('CmeError', (const('AT'), const(30)), 'InterruptedException'), ('CmeError', (const('AT'), const(3)), 'InterruptedException'),
                                     ('CmeError', (const('AT'), const(100)), 'CmeError'), ('CmeError', (const('AT'), const(4)), 'CmeError'), ('CmeError', (const('AT'), const(0)), 'CmeError'),
                                     ('CommandError', (const('AT'),), 'CommandError'), ('TimeoutException', (), 'TimeoutException')):
                    sc.model = failing(w, 'AT^DTMF', en, ea)
                    for k, v, s2, t in sc.run(f, [c, const('12')], s):
                        code = show(ea[1]) if len(ea) > 1 else ''
                        rep.ob('V06', 'refused: %s %s' % (en, code))
                        if k == 'return' or v.name != want:
                            rep.bad('V06', 'refused with %s %s: %s' % (en, code, ex(k, v)), f.loc, 'tones that the modem refuses with %s %s end with %s instead of %s' % (en, code, ex(k, v), want))
                        elif en == 'CmeError' and want == en and v.args and (len(v.args) < 2 or not is_k(v.args[1], cval(ea[1]))):
                            rep.bad('V06', 'refused with %s %s: other code' % (en, code), f.loc, 'the error of the modem is reported with another code')
                sc.model = answer()


RULES = {
    'V01': (check_V01, 'other', TECH),
    'V02': (check_V02, 'other', TECH),
    'V03': (check_V03, 'other', TECH),
    'V04': (check_V04, 'other', TECH),
    'V05': (check_V05, 'other', TECH),
    'V06': (check_V06, 'other', TECH),
    'V08': (check_V08, 'other', TECH),
    'N01': (check_N01, 'other', TECH),
    'N02': (check_N02, 'other', TECH),
}
