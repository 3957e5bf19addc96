"""SMS sending, reading, storage, delivery reports; USSD and dialling waits."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc
from ..project import own_nodes, dotted
from .. import lines
from .serial import is_self, is_field, entry_run, default_env, modem_entries, public_methods, notification_roots, table_handlers, NullUse
from .setup import prefix, parts, is_cmd, isf, unnot, holds, admits, lock_name, TECH, getter_field

DEST, TEXT = sym('destination', 'str'), sym('text', 'str')


def lookup_model(eng, func, env, st, node):
    """lineStartingWith(): the line or None"""
    pre, ls = env.get(func.params[0], NONE), env.get(func.params[1], NONE)
    v, s = eng.fresh(st, eng.site(st, node, func.name), 'str')
    out = []
    for val, s1 in ((v, s), (NONE, st)):
        s1 = eng.emit(s1, 'lookup', node, prefix=pre, lines=ls, value=val)
        if s1 is not None:
            out.append((val, s1))
    return out


def pdutext(eng, func, env, st, node):
    return [(T('call', ('pdutext', env[func.params[0]])), st)]


def sms_cfg(w, unroll=1, **kw):
    c = w.pdu(w.util(w.modem_cfg(**kw)))
    c.loop_unroll = unroll
    c.opaque[w.p.func('gsmmodem.util', 'lineStartingWith').qual] = recalled(lookup_model)
    c.opaque[w.p.method('Pdu', '__str__').qual] = pdutext
    return c


def names_of(st):
    return frozenset(lock_name(x) for x in st.locks)


# ------------------------------------------------------------------- sending
class Sending(Monitor):
    """(prompt outstanding, its parameter, locks at the prompt, unconfirmed response, last confirmation, parts sent, failed)"""
    name = 'sending'
    init = (False, None, None, None, None, 0, False)

    def __init__(self, rep, pdu_mode=None):
        self.rep = rep
        self.lookups = 0
        self.bodies = 0
        self.locks = []
        self.late = []

    def on(self, ev, st):
        prompt, par, locks, unconf, conf, n, failed = self.get(st)
        k = ev.kind
        rep = self.rep
        if k == 'cmd' and ev.data is not None:
            if is_cmd(ev.data, 'AT+CMGS'):
                rep.ob('X01', 'prompt in ' + ev.func)
                if prompt:
                    rep.bad('X01', 'prompt after prompt', ev.where, 'a message is announced before the text of the previous one was sent')
                if not (ev.expect.op == 'const' and isinstance(cval(ev.expect), str) and cval(ev.expect).strip() == '>'):
                    rep.bad('X01', 'prompt not awaited', ev.where, 'the modem\'s prompt "> " is not awaited before the text is sent')
                if is_k(ev.wait, False):
                    rep.bad('X01', 'prompt not awaited', ev.where, 'the modem\'s prompt is not awaited before the text is sent')
                if unconf is not None:
                    self.late.append((ev.where, 'the next part is sent although the modem has not confirmed the previous one'))
                self.locks.append((ev.where, names_of(st)))
                return self.put(st, (True, ev.data, bool(st.locks), None, None, n, False))
            if prompt or is_k(ev.term, '\x1a'):
                rep.ob('X01', 'text in ' + ev.func)
                if not is_k(ev.term, '\x1a'):
                    rep.bad('X01', 'text not terminated', ev.where, 'what is sent at the prompt is not terminated by Ctrl-Z')
                if failed:
                    rep.bad('X01', 'text without prompt', ev.where, 'the text is sent although the modem did not prompt for it; it would be taken as a command')
                if not prompt and not failed:
                    rep.bad('X01', 'text without announcement', ev.where, 'the text is sent without AT+CMGS before it')
                if prompt and not locks:
                    rep.bad('X01', 'exchange not protected', ev.where, 'other threads can write commands between the prompt and the message text')
                if is_k(ev.wait, False):
                    rep.bad('X02', 'confirmation not awaited', ev.where, 'the confirmation of the message is not awaited')
                self.match(par, ev.data, ev)
                self.bodies += 1
                return self.put(st, (False, par, locks, T('pending', ()), None, min(n + 1, 3), failed))
        elif k == 'cmdfail' and ev.data is not None:
            if prompt and is_cmd(ev.data, 'AT+CMGS'):
                return self.put(st, (False, par, locks, unconf, conf, n, True))
        elif k == 'cmdok' and ev.data is not None and unconf is not None and unconf.op == 'pending' and is_k(ev.term, '\x1a'):
            if getattr(ev, 'parsed', True) is False:
                rep.bad('X02', 'rejection not noticed', ev.where, 'an error answer to the message text is not reported')
            return self.put(st, (prompt, par, locks, ev.resp, conf, n, failed))
        elif k == 'lookup' and is_k(ev.prefix, '+CMGS:') or k == 'lookup' and is_k(ev.prefix, '+CMGS'):
            self.lookups += 1
            if unconf is not None and ev.lines is unconf and not is_k(ev.value, None):
                return self.put(st, (prompt, par, locks, None, ev.value, n, failed))
        elif k == 'unlock' and prompt and not st.locks and not failed:
            rep.bad('X01', 'lock released at the prompt', ev.where, 'the lock is released between the prompt and the message text; other threads can write commands there')
        return st

    def match(self, par, data, ev):
        """the text belongs to what was announced"""
        if par is None:
            return
        p = parts(par)
        rep = self.rep
        if prefix(par).startswith('AT+CMGS="'):
            if len(p) == 3 and (p[1] is not DEST or not is_k(p[2], '"')) and p[1].op in ('sym', 'const', 'm', 'slice'):
                rep.bad('X01', 'other destination', ev.where, 'the message is announced for %s instead of the given destination' % show(p[1])[:40])
            if data is not TEXT and data.op in ('const', 'slice', 'str', 'sym', 'm'):
                rep.bad('X01', 'other text', ev.where, 'another text than the given one is sent (%s)' % show(data)[:60])
        elif len(p) == 2:
            a, b = p[1], data
            pdu = b.args[0] if b.op == 'tostr' else b.args[1] if b.op == 'call' and b.args[0] == 'pdutext' else None
            if a.op == 'attr' and a.args[1] == 'tpduLength' and pdu is not None:
                if a.args[0] is not pdu:
                    rep.bad('X01', 'length of another part', ev.where, 'the announced length and the PDU sent belong to different parts')
            elif a.op == 'len' or a.op == 'bin' and a.args[0] == '//' and a.args[1].op == 'len' and b in a.subs:
                rep.bad('X01', 'length not the TPDU length', ev.where, 'the announced length is not the TPDU length of the PDU')


def send_runs(rep, w, mk, unroll=2, **kw):
    f = w.p.method('GsmModem', 'sendSms')
    out = []
    c = sms_cfg(w, unroll=unroll, **kw)
    mons = mk()
    mc = Machine(w.p, mons, c)
    env = default_env(f, {'destination': DEST, 'text': TEXT, 'waitForDeliveryReport': sym('waitForDeliveryReport', 'bool'), 'deliveryTimeout': sym('deliveryTimeout', 'int')})
    outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
    rep.ran(mc, outs)
    return f, mc, mons, outs


def write_lock(w):
    """locks held when the serial layer writes a command"""
    from .serial import run_write
    return None


class Only(object):
    """report wrapper passing only one rule"""
    def __init__(self, rep, rule):
        self.rep, self.rule = rep, rule

    def ob(self, r, i):
        if r == self.rule:
            self.rep.ob(r, i)

    def bad(self, r, *a):
        if r == self.rule:
            self.rep.bad(r, *a)

    def note(self, s):
        self.rep.note(s)


def check_X01(rep, root, tier):
    w = World(root)
    only = Only(rep, 'X01')
    f, mc, (mon,), outs = send_runs(rep, w, lambda: [Sending(only)])
    rep.check(mon.bodies > 0, 'X01', 'no message text', f.loc, 'sendSms() sends no message text')
    if mon.locks:
        common = frozenset.intersection(*[x for _, x in mon.locks])
        from .serial import lock_of
        port = serial_locks(w)
        if port and common and not common & port:
            rep.bad('X01', 'another lock', mon.locks[0][0], 'the exchange is protected by a lock (%s) that other commands do not take' % ', '.join(sorted(common)))


def serial_locks(w):
    """locks under which SerialComms.write() writes to the port"""
    from .serial import writers
    g = w.p.method('SerialComms', 'write')
    class L(Monitor):
        name = 'l'
        init = ()
        def on(self, ev, st):
            if ev.kind == 'call' and ev.target is None and ev.name == 'write' and ev.recv is not None:
                acc.append(names_of(st))
            return st
    acc = []
    c = Config()
    c.loop_unroll = 1
    mc = Machine(w.p, [L()], c)
    entry_run(mc, w, g, default_env(g), 'SerialComms')
    return frozenset.intersection(*acc) if acc else frozenset()


class Sent(Monitor):
    """what sendSms() stores by key: ((key, value), ...)"""
    name = 'sent'
    init = ()

    def on(self, ev, st):
        if ev.kind == 'setitem' and getattr(ev, 'weak', False) and 'removed' not in self.get(st):
            return st       # setdefault(): an older message that got the same reference (they are reused) keeps its place
        if ev.kind == 'setitem' and len(self.get(st)) < 6:
            return self.put(st, self.get(st) + ((ev.key, ev.value),))
        if ev.kind == 'delitem' or ev.kind == 'mutate' and ev.op in ('pop', 'clear', 'discard'):
            return self.put(st, self.get(st) + ('removed',)) if 'removed' not in self.get(st) else st
        if ev.kind == 'mutate' and ev.op == 'update' and ev.args:
            return self.put(st, self.get(st) + ((None, ev.args[-1]),))
        return st


def check_X02(rep, root, tier):
    w = World(root)
    next_reference(rep, w)
    only = Only(rep, 'X02')
    f, mc, (mon, snt), outs = send_runs(rep, w, lambda: [Sending(only), Sent()])
    strict = mon.lookups > 0
    if not strict:
        rep.note('no +CMGS lookup recognised')
    for where, msg in mon.late if strict else ():
        rep.bad('X02', 'part not confirmed', where, msg)
    for k, v, s in outs:
        prompt, par, locks, unconf, conf, n, failed = mon.get(s)
        rep.ob('X02', '%s after %d parts, %s' % (k if k == 'return' else v.name, n, 'unconfirmed' if unconf is not None else 'confirmed'))
        if k != 'return' or s.degraded:
            continue
        if n == 0:
            rep.bad('X02', 'nothing sent', f.loc, 'sendSms() can succeed without having sent the message')
            continue
        if strict and unconf is not None:
            rep.bad('X02', 'success without confirmation', f.loc, 'sendSms() succeeds although the modem has not confirmed the (last part of the) message with +CMGS')
            continue
        keys = [x[0] for x in snt.get(s) if x != 'removed' and (x[1] is v or x[0] is None)]
        if v.op == 'ref' and not keys:
            rep.bad('X02', 'message not registered', f.loc, 'the sent message is not registered for delivery reports')
        for key in keys:
            if conf is not None and key is not None and conf not in key.leaves and key.op in ('const', 'sym', 'attr', 'call', 'bin'):
                rep.bad('X02', 'registered under another reference', f.loc, 'the message is registered under %s instead of the reference in the modem\'s confirmation' % show(key)[:50])
        if conf is not None and v.op == 'ref' and v.args in s.heap:
            r = s.heap[v.args].attrs.get('reference')
            if r is not None and conf not in r.leaves:
                rep.bad('X02', 'other reference', f.loc, 'the reference of the returned message is not the one the modem reported')
            for a, want in (('number', DEST), ('text', TEXT)):
                x = s.heap[v.args].attrs.get(a)
                if x is not None and x is not want:
                    rep.bad('X02', 'returned message: other ' + a, f.loc, 'the returned message does not carry the given %s' % a)


class Encoded(Monitor):
    """(tests on the path, references given to the encoder)"""
    name = 'encodings'
    init = ((), ())

    def on(self, ev, st):
        conds, refs = self.get(st)
        if ev.kind == 'branch' and (ev.term, ev.taken) not in conds:
            return self.put(st, (conds + ((ev.term, ev.taken),), refs))
        if ev.kind == 'encoded' and ev.env.get('reference') is not None and ev.env['reference'] not in refs:
            return self.put(st, (conds, refs + (ev.env['reference'],)))
        return st


def worth(t, env):
    """value of a term when some terms have the given values (None: not decided)"""
    if t in env:
        return env[t]
    if t.op == 'const':
        return cval(t)
    if t.op == 'not':
        r = worth(t.args[0], env)
        return None if r is None else not r
    if t.op in ('eq', 'lt', 'same', 'bin', 'or', 'and', 'truthy'):
        vs = [worth(a, env) if isinstance(a, T) else a for a in t.args]
        if None in vs:
            return None
        try:
            if t.op == 'bin':
                o, a, b = vs
                return {'+': lambda: a + b, '-': lambda: a - b, '%': lambda: a % b, '&': lambda: a & b, '//': lambda: a // b, '*': lambda: a * b}[o]()
            return {'eq': lambda: vs[0] == vs[1], 'same': lambda: vs[0] == vs[1], 'lt': lambda: vs[0] < vs[1], 'truthy': lambda: bool(vs[0]),
                    'or': lambda: any(vs), 'and': lambda: all(vs)}[t.op]()
        except (KeyError, TypeError, ZeroDivisionError, ValueError):
            return None
    return None


def next_reference(rep, w):
    """the reference of the next message fits into its octet, whatever reference the modem reports for this one"""
    f, mc, (mon,), outs = send_runs(rep, w, lambda: [Encoded()], 0, serial_faults=False, timeouts=False)
    for k, v, s in outs:
        if k != 'return' or s.degraded:
            continue
        conds, refs = mon.get(s)
        for r in refs:
            fields = [x for x in r.subs if str(x).startswith('&self.')]
            if len(fields) != 1:
                continue
            after = s.heap[('self', 0)].attrs.get(str(fields[0])[6:]) if ('self', 0) in s.heap else None
            if after is None:
                continue
            xs = {y for t in [after] + [t for t, _ in conds] for y in t.subs if y.op == 'call' and y.args[0] == 'int'}
            if len(xs) != 1:
                continue
            x = xs.pop()
            rep.ob('X02', 'reference of the next message: %s' % show(after)[:60])
            for n in range(256):
                if any(worth(t, {x: n}) not in (None, b) for t, b in conds):
                    continue
                m = worth(after, {x: n})
                m = None if m is None else worth(r, {fields[0]: m})
                if isinstance(m, int) and not 0 <= m <= 255:
                    rep.bad('X02', 'reference of the next message', f.loc, 'after a message with the reference %d the next one is encoded with the reference %d, which does not fit into its octet' % (n, m))
                    break


# --------------------------------------------------------- reading after +CMTI
class Arrival(Monitor):
    """storage slot of a notification: (read (args), deleted, delivered)"""
    name = 'arrival'
    init = (None, False, 0, None)

    def __init__(self, rep, root):
        self.rep, self.root = rep, root
        self.seen = set()

    def on(self, ev, st):
        rd, dl, cb, kind = self.get(st)
        k = ev.kind
        if k == 'sread':
            self.seen.add('read')
            self.rep.ob('X03', 'read in ' + ev.func)
            self.slot(ev, 'read')
            if rd is not None and not dl and rd[0] == (ev.index, ev.memory):
                self.rep.bad('X03', 'read twice', ev.where, 'the same message is read twice')
            return self.put(st, ((ev.index, ev.memory), False, 0, ev.value))
        if k == 'sdelete':
            self.seen.add('delete')
            self.rep.ob('X03', 'delete in ' + ev.func)
            if rd is None:
                self.rep.bad('X03', 'deleted unread', ev.where, 'the message is deleted before it has been read; if reading fails it is lost')
            elif rd != (ev.index, ev.memory):
                self.rep.bad('X03', 'other message deleted', ev.where, 'another message (or memory) is deleted than the one that was read')
            if dl:
                self.rep.bad('X03', 'deleted twice', ev.where, 'the message is deleted twice')
            return self.put(st, (rd, True, cb, kind))
        if k == 'callback' and any(a is kind for a in ev.args) and kind is not None:
            nm = is_field(ev.callee) or ''
            self.seen.add('callback')
            self.rep.ob('X03', 'callback in ' + ev.func)
            if not dl:
                self.rep.bad('X03', 'delivered before deletion', ev.where, 'the message is handed to the application before it was removed from the modem; it can be delivered twice')
            if cb:
                self.rep.bad('X03', 'delivered twice', ev.where, 'the message is handed to the application twice')
            return self.put(st, (rd, dl, cb + 1, kind))
        return st

    def slot(self, ev, what):
        """index and memory come from their own fields of the notification"""
        from ..lines import group_of
        gi = group_of(ev.index) if ev.index is not None else None
        gm = group_of(ev.memory) if ev.memory is not None else None
        if ev.memory is None or is_k(ev.memory, None):
            self.rep.bad('X03', 'memory not given', ev.where, 'the message is %s from the current memory instead of the one named by the notification' % what)
        if gi and gm and (gi[1], gm[1]) == (1, 2):
            self.rep.bad('X03', 'index and memory swapped', ev.where, 'index and memory of the notification are swapped')


class Given(Monitor):
    """what happens for one given notification"""
    name = 'given'
    init = ()

    def __init__(self, rep, text, cb):
        self.rep, self.text, self.cb = rep, text, cb

    def on(self, ev, st):
        did = self.get(st)
        k = ev.kind
        what = None
        if k in ('sread', 'sdelete'):
            what = k[1:]
            for x, y in ((ev.index, '7'), (ev.memory, 'ME')):
                if x is not None and x.op == 'const' and str(cval(x)) != y:
                    self.rep.bad('X03', '%s: %s of another message' % (self.text[:5], what), ev.where, 'after the notification %s the message %s in %s is %s' % (
                        self.text, show(ev.index), show(ev.memory) if ev.memory is not None else 'the current memory', 'read' if what == 'read' else 'deleted'))
        elif k == 'callback':
            what = str(is_field(ev.callee) or '').replace('&self.', '')
            if what in ('smsReceivedCallback', 'smsStatusReportCallback') and what != self.cb:
                self.rep.bad('X03', '%s: other callback' % self.text[:5], ev.where, 'the notification %s is delivered to %s' % (self.text, what))
        elif k == 'call' and ev.name == 'set' and ev.target is None and not ev.args:
            what = 'set'
        if what and what not in did:
            return self.put(st, did + (what,))
        return st


def known_response(items):
    """write(): the modem answers with the given lines"""
    def model(eng, func, env, st, node):
        a = write_params(env)
        st = eng.emit(st, 'cmd', node, recv=None, wait_now=True, **a)
        if st is None:
            return []
        ref, st = eng.alloc(st, node, Obj('list', None, {}, tuple(items)), 'resp')
        st = eng.emit(st, 'cmdok', node, recv=None, resp=ref, parsed=True, **a)
        return [(ref, st)] if st is not None else []
    return model


def storage_models(w, c):
    def rd(eng, func, env, st, node):
        v, s = eng.fresh(st, eng.site(st, node, 'sms'), None)
        s = eng.emit(s, 'sread', node, index=env.get(func.params[1]), memory=env.get(func.params[2]) if len(func.params) > 2 else None, value=v)
        eng.throw(new_exc(eng, 'CommandError', (), False), st, node)
        return [(v, s)] if s is not None else []

    def dl(eng, func, env, st, node):
        s = eng.emit(st, 'sdelete', node, index=env.get(func.params[1]), memory=env.get(func.params[2]) if len(func.params) > 2 else None)
        if s is None:
            return []
        eng.throw(new_exc(eng, 'CommandError', (), False), s, node)
        return [(NONE, s)]
    c.opaque[w.p.method('GsmModem', 'readStoredSms').qual] = rd
    c.opaque[w.p.method('GsmModem', 'deleteStoredSms').qual] = dl
    return c


def reaching(w, *targets):
    """quals of the library's functions from which one of the named functions may be called (by name)"""
    fs = list(w.p.funcs.values())
    used = {}
    for f in fs:
        used[f.qual] = {n.attr for n in own_nodes(f.node) if isinstance(n, ast.Attribute)} | {n.id for n in own_nodes(f.node) if isinstance(n, ast.Name)}
    names = set(targets)
    while True:
        new = {f.name for f in fs if used[f.qual] & names} - names
        if not new:
            break
        names |= new
    return {f.qual for f in fs if f.name in names and f.name not in targets}


def notification_run(rep, w, mons, lines=None, conf=None):
    res = []
    for g in notification_roots(w):
        if not any('otific' in x or 'lines' in x for x in [g.name] + list(g.params)):
            continue
        c = storage_models(w, sms_cfg(w, unroll=1 if lines is None else 5, serial_faults=False, timeouts=False))
        if conf:
            conf(c, g)
        mc = Machine(w.p, mons, c)
        for m in mons:
            m.eng = mc
        st = None
        ls = sym('lines', 'list:str')
        if lines is not None:
            st = State().with_heap(('lines', 0), Obj('list', None, {'$pin': TRUE}, tuple(const(x) for x in ([lines] if isinstance(lines, str) else lines))))
            ls = T('ref', ('lines', 0))
        env = {p: ls for p in g.params[1:]}
        outs = entry_run(mc, w, g, env, 'GsmModem', st)
        rep.ran(mc, outs)
        res.append((g, mc, outs))
    return res


def check_X03(rep, root, tier):
    w = World(root)
    mon = Arrival(rep, root)
    reach = reaching(w, 'readStoredSms', 'deleteStoredSms', 'smsReceivedCallback', 'smsStatusReportCallback')

    def only_sms(c, g):
        c.inline = lambda f: f.qual in reach or f.cls is None or f.cls is not w.modem and f.cls is not w.serial
    rs = notification_run(rep, w, [mon], conf=only_sms)
    for text, cb in (('+CMTI: "ME",7', 'smsReceivedCallback'), ('+CDSI: "ME",7', 'smsStatusReportCallback')):
        one = Given(rep, text, cb)
        for g, mc, outs in notification_run(rep, w, [one], lines=text, conf=only_sms):
            for k, v, s in outs:
                did = one.get(s)
                if s.degraded or k != 'return' or not g.name.endswith('otification'):
                    continue
                rep.ob('X03', '%s: %s' % (text, ', '.join(did)))
                if 'read' not in did:
                    rep.bad('X03', '%s: not read' % text[:5], g.loc, 'the notification %s does not lead to reading the message' % text)
                elif cb not in did and 'set' not in did:
                    rep.bad('X03', '%s: not delivered' % text[:5], g.loc, 'the message of the notification %s is not handed over' % text)
    for g, mc, outs in rs:
        for k, v, s in outs:
            rd, dl, cb, kind = mon.get(s)
            if k == 'return' and rd is not None and not dl:
                rep.bad('X03', 'message left', g.loc, 'a message that was read is not deleted')
    rep.check({'read', 'delete', 'callback'} <= mon.seen, 'X03', 'arrival not handled', w.modem.mod.relpath, 'a new-message notification does not lead to reading, deleting and delivering the message')


# --------------------------------------------------------------- memory select
INDEX, MEMORY = sym('index', 'int'), sym('memory', 'str?')


class Memory(Monitor):
    """memory selected for the next storage command"""
    name = 'memory'
    init = ((), None, False, ())      # (conditions on memory/current memory, selected now, held, conditions on the flag)

    def __init__(self, rep, name):
        self.rep, self.n = rep, name
        self.used = 0
        self.locks = []
        self.fields = set()

    def on(self, ev, st):
        conds, sel, held, flag = self.get(st)
        k = ev.kind
        if k == 'branch' and ev.term.op != 'const' and FLAG in ev.term.subs and (ev.term, ev.taken) not in flag:
            return self.put(st, (conds, sel, held, flag + ((ev.term, ev.taken),)))
        if k == 'branch' and ev.term.op != 'const' and MEMORY in ev.term.subs:
            c = (ev.term, ev.taken, bool(st.locks))
            if c not in conds:
                return self.put(st, (conds + (c,), sel, held, flag))
        elif k == 'unlock' and not st.locks:
            return self.put(st, ((), None, False, flag))
        elif k == 'cmdok' and is_cmd(ev.data, 'AT+CPMS='):
            p = parts(ev.data)
            if getattr(ev, 'parsed', True) is False:
                return st
            return self.put(st, (conds, p[1] if len(p) > 1 else None, bool(st.locks), flag))
        elif k == 'cmd' and is_cmd(ev.data, 'AT+CPMS='):
            p = parts(ev.data)
            self.rep.ob('X04', 'memory selection in ' + ev.func)
            if len(p) > 1 and p[1] is not MEMORY and p[1].op in ('sym', 'attr', 'const'):
                self.rep.bad('X04', 'other memory selected in ' + self.n, ev.where, 'another memory (%s) is selected than the requested one' % show(p[1])[:40])
            if len(p) == 3 and (prefix(ev.data) != 'AT+CPMS="' or not is_k(p[2], '"')):
                self.rep.bad('X04', 'malformed selection', ev.where, 'the memory selection command is malformed (%s)' % show(ev.data)[:50])
        elif k == 'setattr' and is_self(ev.obj) and ev.value is MEMORY:
            self.rep.ob('X04', 'selected memory remembered')
            self.fields.add(ev.attr)
            if sel is not MEMORY:
                self.rep.bad('X04', 'memory remembered before it is selected', ev.where, 'the requested memory is taken as selected although the modem has not accepted it')
        elif k == 'cmd' and is_cmd(ev.data, 'AT+CMGR', 'AT+CMGD', 'AT+CMGL'):
            self.used += 1
            self.rep.ob('X04', '%s: %s' % (self.n, prefix(ev.data)[:8]))
            self.locks.append((ev.where, names_of(st)))
            none = any(unnot(t, v) == (T('isnone', (MEMORY,)), True) or unnot(t, v) == (T('truthy', (MEMORY,)), False) for t, v, h in conds)
            same = any(unnot(t, v)[0].op in ('eq', 'same') and unnot(t, v)[1] and unnot(t, v)[0].args[0] is not unnot(t, v)[0].args[1] and not any(x.op == 'const' for x in unnot(t, v)[0].args) for t, v, h in conds)
            unlocked = any(not h for t, v, h in conds if unnot(t, v)[0].op in ('eq', 'same'))
            if not st.locks:
                self.rep.bad('X04', '%s: not protected' % self.n, ev.where, 'another thread can select another memory before this command')
            elif not none and sel is not MEMORY and not same:
                self.rep.bad('X04', '%s: memory not selected' % self.n, ev.where, 'the command may work on another memory than the requested one')
            elif same and unlocked and sel is not MEMORY:
                self.rep.bad('X04', '%s: memory checked too early' % self.n, ev.where, 'another thread can select another memory between the check and this command')
            elif sel is not None and not held:
                self.rep.bad('X04', '%s: not protected' % self.n, ev.where, 'another thread can select another memory between the selection and this command')
            d = ev.data
            if is_cmd(d, 'AT+CMGR='):
                self.exact(ev, 'X04', [const('AT+CMGR='), INDEX], 'reads')
            if self.n == 'deleteStoredSms':
                self.exact(ev, 'X04', [const('AT+CMGD='), INDEX, const(',0')], 'deletes')
            if self.n == 'deleteMultipleStoredSms':
                self.exact(ev, 'X04', [const('AT+CMGD=1,'), FLAG], 'deletes')
        return st

    def exact(self, ev, rule, want, what):
        p = parts(ev.data)
        if p != want and all(x.op in ('const', 'sym', 'bin', 'slice') for x in p):
            if len(p) == 2 and len(want) == 3 and p == want[:2] and what == 'deletes':
                return          # AT+CMGD=<index> is the same
            self.rep.bad(rule, '%s: other message' % self.n, ev.where, 'the command %s something else than requested (%s)' % (what, show(ev.data)[:60]))


FLAG = sym('delFlag', 'int')


def check_X04(rep, root, tier):
    w = World(root)
    locks = []
    for n in ('readStoredSms', 'deleteStoredSms', 'deleteMultipleStoredSms', 'listStoredSms'):
        f = w.p.method('GsmModem', n)
        mon = Memory(rep, n)
        c = sms_cfg(w, serial_faults=False, timeouts=False)
        if n == 'listStoredSms':
            for h in ('deleteStoredSms', 'deleteMultipleStoredSms'):
                c.opaque[w.p.method('GsmModem', h).qual] = model_none
            c.opaque[w.p.method('GsmModem', 'write').qual] = known_response([const('OK')])
        mc = Machine(w.p, [mon], c)
        env = default_env(f, {'index': INDEX, 'memory': MEMORY, 'delFlag': FLAG})
        outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
        rep.ran(mc, outs)
        rep.check(mon.used > 0, 'X04', '%s: no storage command' % n, f.loc, '%s() sends no storage command' % n)
        locks += [x for x in mon.locks if x[1]]
        if n == 'deleteMultipleStoredSms':
            for k, v, s in outs:
                cs = mon.get(s)[3]
                rep.ob('X04', 'delFlag: %s' % (k if k == 'return' else v.name))
                if any(holds(t, FLAG, 0) is None for t, _ in cs):
                    continue
                if k == 'return' and any(admits(cs, FLAG, x) for x in (-1, 0, 5, 6, 100)):
                    rep.bad('X04', 'delFlag not checked', f.loc, 'deleteMultipleStoredSms() accepts flags outside of 1-4')
                if k == 'raise' and v.name == 'ValueError' and any(admits(cs, FLAG, x) for x in (1, 2, 3, 4)):
                    rep.bad('X04', 'delFlag rejected', f.loc, 'deleteMultipleStoredSms() rejects a flag in 1-4')
    if locks:
        common = frozenset.intersection(*[x for _, x in locks])
        if not common:
            rep.bad('X04', 'different locks', locks[0][0], 'the storage operations are not protected by one common lock')


# ------------------------------------------------------- listing and reading
class Lines(Monitor):
    """(line -> header / decodable / 'OK' on this path, deletions, conditions on the status filter, message type conditions)"""
    name = 'lines'
    init = ((), (), (), ())

    def __init__(self, rep, items, filt=None):
        self.rep, self.items, self.filt = rep, tuple(items), filt

    def on(self, ev, st):
        cl, dels, conds, types = self.get(st)
        k = ev.kind
        if k == 'branch' and ev.term.op != 'const':
            t, v = unnot(ev.term, ev.taken)
            if t.op in ('isnone', 'truthy') and lines.match_of(t.args[0]):
                subj = lines.match_of(t.args[0])[3]
                if subj in self.items:
                    hdr = v if t.op == 'truthy' else not v
                    return self.put(st, (self.cls(cl, subj, 'H' if hdr else 'B'), dels, conds, types))
            if t.op == 'eq' and any(a in self.items for a in t.args) and any(is_k(a, 'OK') for a in t.args) and v:
                return self.put(st, (self.cls(cl, [a for a in t.args if a in self.items][0], 'OK'), dels, conds, types))
            if self.filt is not None and self.filt in ev.term.subs:
                return self.put(st, (cl, dels, conds + ((t, v),), types))
            if t.op == 'eq' and any(x.op == 'item' and is_k(x.args[1], 'type') for x in t.args):
                d = [x.args[0] for x in t.args if x.op == 'item' and is_k(x.args[1], 'type')][0]
                o = [x for x in t.args if x.op == 'const']
                if o:
                    return self.put(st, (cl, dels, conds, types + ((d, cval(o[0]), v),)))
        elif k == 'decoded':
            if dict(cl).get(ev.line) == 'H':
                return None         # a header line is not a PDU
            if ev.line in self.items:
                return self.put(st, (self.cls(cl, ev.line, ('D', ev.value)), dels, conds, types))
        elif k == 'undecodable':
            if ev.line in self.items and dict(cl).get(ev.line) != 'H':
                return self.put(st, (self.cls(cl, ev.line, 'X'), dels, conds, types))
        elif k == 'call' and ev.target is not None and ev.name in ('deleteStoredSms', 'deleteMultipleStoredSms') and ev.fn.name != ev.name:
            return self.put(st, (cl, dels + ((ev.name, ev.env.get('index', ev.env.get('delFlag', const(4))), ev.where, bool(st.locks), ev.env.get('memory', NONE)),), conds, types))
        return st

    def cls(self, cl, line, what):
        d = dict(cl)
        old = d.get(line)
        if isinstance(old, tuple) or old == 'H' and what == 'B':
            return cl
        d[line] = what
        return tuple(sorted(d.items(), key=lambda x: str(x[0])))


def codec(w, c):
    """decodeSmsPdu(): a dictionary or an error, remembering the decoded line"""
    def dec(eng, func, env, st, node):
        line = env.get(func.params[0])
        s2 = eng.emit(st, 'undecodable', node, line=line)
        if s2 is not None:
            eng.throw(new_exc(eng, 'EncodingError', ()), s2, node)
        if is_k(line, 'OK'):
            return []
        v, st = eng.fresh(st, eng.site(st, node, 'smsdict'), 'dict')
        st = eng.emit(st, 'decoded', node, line=line, value=v)
        return [(v, st)] if st is not None else []

    def time(eng, func, env, st, node):
        return [(T('call', ('texttime', env.get(func.params[0]))), st)]
    c.opaque[w.p.func('gsmmodem.pdu', 'decodeSmsPdu').qual] = dec
    c.opaque[w.p.func('gsmmodem.util', 'parseTextModeTimeStr').qual] = time
    return c


def group_num(t):
    """(match subject, group number) a field was taken from, if there is exactly one"""
    found = set()
    for x in [t] + list(t.subs):
        g = lines.group_of(x)
        if g:
            found.add((lines.match_of(g[0])[3], g[1]))
    return found.pop() if len(found) == 1 else None


FIELDS = {'ReceivedSms': (('number', 'number'), ('time', 'time'), ('text', 'text'), ('smsc', 'smsc')),
          'StatusReport': (('number', 'number'), ('reference', 'reference'), ('timeSent', 'time'), ('timeFinalized', 'discharge'), ('deliveryStatus', 'status'))}
TEXTFIELDS = {'ReceivedSms': ('number', 'time'), 'StatusReport': ('reference', 'number', 'timeSent', 'timeFinalized', 'deliveryStatus')}
KIND = {'ReceivedSms': 'SMS-DELIVER', 'StatusReport': 'SMS-STATUS-REPORT'}


def simple(t):
    return t.op in ('const', 'item', 'm', 'sym', 'str', 'call', 'slice', 'attr')


def check_message(rep, rule, who, loc, cname, attrs, hdr, d, body, types):
    """the attributes of one message object come from its own header and body/PDU"""
    rep.ob(rule, '%s: %s (%s)' % (who, cname, 'PDU' if d is not None else 'text'))
    st = attrs.get('status')
    if st is not None and st.op != 'const':
        g = group_num(st)
        if g and hdr is not None and g[0] is not hdr:
            rep.bad(rule, '%s: status of another message' % who, loc, 'the status of a message is taken from another header line')
    if d is not None:
        for a, key in FIELDS.get(cname, ()):
            x = attrs.get(a)
            if x is None or not simple(x) or x.op == 'sym':
                continue
            want = T('item', (d, const(key)))
            vals = rep.__dict__.setdefault('field_values', {}).setdefault((who, cname, a), set())
            vals.add(x is want)
            if is_k(x, None) and (True in vals or x is NONE and key not in ('number', 'time', 'text')):
                rep.__dict__.setdefault('field_none', {})[(who, cname, a)] = loc
                continue
            if x is want or x.op == 'm' and x.args[0] == 'get' and x.args[1] is d and is_k(x.args[2], key):
                continue
            if want in x.subs and x.op == 'call':
                continue
            rep.bad(rule, '%s: %s of %s' % (who, a, cname), loc, '%s of the message is %s instead of the field "%s" of the decoded PDU' % (a, show(x)[:50], key))
        ts = [(val, v) for dd, val, v in types if dd is d]
        if ts and (KIND.get(cname), True) not in ts and cname in KIND:
            rep.bad(rule, '%s: %s for another type' % (who, cname), loc, 'a %s object is made for a PDU of another type' % cname)
        return
    last = 1
    for a in TEXTFIELDS.get(cname, ()):
        x = attrs.get(a)
        g = group_num(x) if x is not None else None
        if not g:
            if x is not None and x.op == 'const':
                rep.bad(rule, '%s: %s of %s' % (who, a, cname), loc, '%s of the message is constant (%s)' % (a, show(x)))
            continue
        if hdr is not None and g[0] is not hdr:
            rep.bad(rule, '%s: %s of another message' % (who, a), loc, '%s of a message is taken from another header line' % a)
        elif isinstance(g[1], int) and g[1] <= last:
            rep.bad(rule, '%s: %s of %s' % (who, a, cname), loc, '%s of the message is taken from the wrong field of the header (group %d)' % (a, g[1]))
        last = g[1] if isinstance(g[1], int) else last
    if cname == 'ReceivedSms' and body is not None:
        x = attrs.get('text')
        want = body[0] if len(body) == 1 else const('') if not body else T('str', tuple(z for i, b in enumerate(body) for z in ((const('\n'), b) if i else (b,))))
        if x is not None and x is not want and x.op in ('str', 'const', 'sym'):
            rep.bad(rule, '%s: text' % who, loc, 'the text of the message is %s instead of all of its lines (%s)' % (show(x)[:60], show(want)[:60]))


STATUS = sym('status', 'int')
DELETE = sym('delete', 'bool')


class ListMode(Monitor):
    """how the list was asked for ('text', 'pdu', None)"""
    name = 'listmode'
    init = None

    def on(self, ev, st):
        if ev.kind == 'cmd' and ev.data is not None and is_cmd(ev.data, 'AT+CMGL='):
            return self.put(st, 'text' if prefix(ev.data).startswith('AT+CMGL="') else 'pdu' if prefix(ev.data) == 'AT+CMGL=' else None)
        return st


def listing(rep, w, n):
    f = w.p.method('GsmModem', 'listStoredSms')
    items = [sym('line%d' % i, 'str') for i in range(n)]
    c = codec(w, sms_cfg(w, unroll=n + 2))
    c.opaque[w.p.method('GsmModem', 'write').qual] = known_response(items + [const('OK')])
    for h in ('deleteStoredSms', 'deleteMultipleStoredSms'):
        c.opaque[w.p.method('GsmModem', h).qual] = model_none
    mon, mode = Lines(rep, items, STATUS), ListMode()
    mc = Machine(w.p, [mon, mode], c)
    env = default_env(f, {'memory': NONE, 'status': STATUS, 'delete': DELETE})
    outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
    rep.ran(mc, outs)
    return f, items, mon, mode, outs


def expected(items, cl, mode=None):
    """messages of the response, as classified on the path: (header, decoded value / None, body lines) or None"""
    d = dict(cl)
    pdu = any(isinstance(x, tuple) or x == 'X' for x in d.values())
    cur, out = None, []
    for l in items:
        k = d.get(l)
        if k == 'H':
            cur = [l, None, []]
            out.append(cur)
        elif isinstance(k, tuple):
            if cur is not None and cur[1] is None:
                cur[1] = k[1]
        elif k == 'X' or k == 'OK' or cur is None and k == 'B':
            continue
        elif k == 'B':
            cur[2].append(l)
        elif k is None:
            return None, pdu
    if pdu:
        return [m for m in out if m[1] is not None], True
    if mode != 'text':
        return (None if any(not m[2] for m in out) else out), False
    return out, False


def regex_fields(w):
    """fields of the modem that are assigned one constant regular expression"""
    found = {}
    for f in list(w.modem.methods.values()) + list(w.modem.setters.values()):
        me = f.params[0] if f.params else None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '') == 're.compile' and n.value.args and isinstance(n.value.args[0], ast.Constant) and len(n.value.args) == 1:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        found.setdefault(t.attr, set()).add(n.value.args[0].value)
    return {a: T('regex', (v.pop(), '')) for a, v in found.items() if len(v) == 1}


def obj_of(v, s, w):
    if v.op == 'ref' and v.args in s.heap and s.heap[v.args].kind == 'instance':
        o = s.heap[v.args]
        return (getattr(o.cls, 'name', None) or str(o.cls)).split('.')[-1], o.attrs
    return None, None


def check_listing(rep, rule, fields):
    w = World(rep.root)
    for n in (2, 4):
        f, items, mon, mode, outs = listing(rep, w, n)
        some = {True: 0, False: 0}
        for k, v, s in outs:
            if k != 'return' or s.degraded:
                continue
            cl, dels, conds, types = mon.get(s)
            exp, pdu = expected(items, cl, mode.get(s))
            o = s.heap.get(v.args) if v.op == 'ref' else None
            if exp is None or o is None or o.kind != 'list' or o.items is None or any(x.op != 'ref' for x in o.items):
                continue
            msgs = [obj_of(x, s, w) for x in o.items]
            if any(a is None for _, a in msgs):
                continue
            some[pdu] += len(exp)
            if len(msgs) != len(exp):
                if not fields:
                    rep.bad(rule, 'messages lost' if len(msgs) < len(exp) else 'messages invented', f.loc, 'listStoredSms() returns %d messages for a response with %d (%s)' % (
                        len(msgs), len(exp), ' '.join('PDU' if isinstance(dict(cl).get(l), tuple) else {'H': 'header', 'B': 'text', 'X': 'junk'}.get(dict(cl).get(l), '?') for l in items)))
                continue
            if fields:
                for (cname, attrs), (hdr, d, body) in zip(msgs, exp):
                    check_message(rep, rule, 'listStoredSms', f.loc, cname, attrs, hdr, d, body, types)
                continue
            rep.ob(rule, '%d messages of %d lines, %s' % (len(msgs), n, 'deletion' if dels else 'no deletion'))
            dt = [x for x in s.facts.items() if x[0].op == 'truthy' and x[0].args[0] is DELETE]
            one = [d for d in dels if d[0] == 'deleteStoredSms']
            if any(d[0] == 'deleteMultipleStoredSms' for d in dels):
                where = [d[2] for d in dels if d[0] == 'deleteMultipleStoredSms'][0]
                only_all = conds and all(not admits(conds, STATUS, x) for x in (0, 1, 2, 3)) and admits(conds, STATUS, 4)
                if only_all:
                    rep.bad(rule, 'all messages deleted (no filter)', where, 'all messages in the memory are deleted, including those that were not returned')
                else:
                    rep.bad(rule, 'all messages deleted although filtered', where, 'all messages in the memory are deleted although only those with the given status were listed')
            elif one:
                got = [group_num(d[1]) for d in one]
                if all(got):
                    hd = [h for h, _, _ in exp]
                    for (subj, g), d in zip(got, one):
                        if subj not in hd:
                            rep.bad(rule, 'message deleted that was not returned', d[2], 'a message is deleted that was not returned')
                        elif g != 1:
                            rep.bad(rule, 'index not deleted', d[2], 'the number of the deleted message is not its index in the memory')
                    for h in hd:
                        if h not in [x[0] for x in got]:
                            rep.bad(rule, 'returned message not deleted', f.loc, 'a returned message is not deleted')
            for d in dels:
                if not d[3]:
                    rep.bad(rule, 'deletion not protected', d[2], 'other threads can change the selected memory between listing and deletion')
        for pdu in (True, False):
            rep.check(some[pdu] > 0, rule, 'no message in %s mode' % ('PDU' if pdu else 'text'), f.loc, 'listStoredSms() never returns a message in %s mode' % ('PDU' if pdu else 'text'))


class Del(Monitor):
    """(conditions on the deletion flag, deleted)"""
    name = 'del'
    init = ((), False)

    def on(self, ev, st):
        cs, d = self.get(st)
        if ev.kind == 'branch' and ev.term.op != 'const' and DELETE in ev.term.subs:
            t, v = unnot(ev.term, ev.taken)
            if t.op == 'truthy':
                return self.put(st, (cs + (v,), d))
        if ev.kind == 'call' and ev.target is not None and ev.name in ('deleteStoredSms', 'deleteMultipleStoredSms'):
            if not any(cs):
                return self.put(st, (cs, ev.where))
        return st


def check_X05(rep, root, tier):
    rep.root = root
    check_listing(rep, 'X05', False)
    w = World(root)
    f = w.p.method('GsmModem', 'listStoredSms')
    c = codec(w, sms_cfg(w, unroll=4))
    h1, b1 = sym('line0', 'str'), sym('line1', 'str')
    c.opaque[w.p.method('GsmModem', 'write').qual] = known_response([h1, b1, const('OK')])
    for h in ('deleteStoredSms', 'deleteMultipleStoredSms'):
        c.opaque[w.p.method('GsmModem', h).qual] = model_none
    for val in (TRUE, FALSE):
        mon = Lines(rep, [h1, b1], STATUS)
        mc = Machine(w.p, [mon], c)
        env = default_env(f, {'memory': NONE, 'status': STATUS, 'delete': val})
        outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
        rep.ran(mc, outs)
        for k, v, s in outs:
            cl, dels, conds, types = mon.get(s)
            exp, pdu = expected([h1, b1], cl)
            if k != 'return' or s.degraded or exp is None:
                continue
            rep.ob('X05', 'delete=%s: %d messages, %d deletions' % (cval(val), len(exp), len(dels)))
            if val is FALSE and dels:
                rep.bad('X05', 'deleted without being asked to', dels[0][2], 'messages are deleted although the caller did not ask for that')
            if val is TRUE and exp and not dels:
                rep.bad('X05', 'nothing deleted', f.loc, 'the returned messages are not deleted although the caller asked for that')


def check_X06(rep, root, tier):
    rep.root = root
    check_listing(rep, 'X06', True)
    check_reading(rep, root)
    for key, loc in sorted(rep.__dict__.get('field_none', {}).items()):
        if True not in rep.field_values[key]:
            rep.bad('X06', '%s: %s of %s' % (key[0], key[2], key[1]), loc, '%s of the message is never set' % key[2])


def check_reading(rep, root):
    w = World(root)
    f = w.p.method('GsmModem', 'readStoredSms')
    for n in (1, 2):
        items = [sym('line%d' % i, 'str') for i in range(n + 1)]
        c = codec(w, sms_cfg(w, unroll=4))
        c.opaque[w.p.method('GsmModem', 'write').qual] = known_response(items + [const('OK')])
        mon = Lines(rep, items)
        mc = Machine(w.p, [mon], c)
        env = default_env(f, {'memory': NONE})
        me, st = mc.new_instance(State(), w.modem, 'self', regex_fields(w))
        outs = mc.run(f, dict({k: v for k, v in env.items() if k in f.params}, **{f.params[0]: me}), st)
        rep.ran(mc, outs)
        some = set()
        for k, v, s in outs:
            if k != 'return' or s.degraded:
                continue
            cl, dels, conds, types = mon.get(s)
            cname, attrs = obj_of(v, s, w)
            if attrs is None:
                if is_k(v, None):
                    rep.bad('X06', 'readStoredSms: nothing returned', f.loc, 'readStoredSms() returns None')
                continue
            ds = [x[1] for l, x in cl if isinstance(x, tuple)]
            if len(ds) > 1:
                continue
            some.add((cname, bool(ds)))
            if ds and dict(cl).get(items[1]) != ('D', ds[0]):
                rep.bad('X06', 'readStoredSms: other line decoded', f.loc, 'the PDU is not taken from the line after the header')
            check_message(rep, 'X06', 'readStoredSms', f.loc, cname, attrs, items[0], ds[0] if ds else None, items[1:] if cname == 'ReceivedSms' else None, types)
        for cname in ('ReceivedSms', 'StatusReport'):
            for pdu in (True, False):
                rep.check((cname, pdu) in some, 'X06', 'no %s in %s mode' % (cname, 'PDU' if pdu else 'text'), f.loc, 'readStoredSms() never returns a %s object in %s mode' % (cname, 'PDU' if pdu else 'text'))


RULES = {
    'X01': (check_X01, 'other', TECH + ' with lock tracking'),
    'X02': (check_X02, 'other', TECH),
    'X03': (check_X03, 'other', TECH),
    'X04': (check_X04, 'other', TECH + ' with lock tracking'),
    'X05': (check_X05, 'other', TECH),
    'X06': (check_X06, 'other', TECH),
}

