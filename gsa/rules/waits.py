"""Waiting for the modem's later answers: USSD, dialling, delivery reports."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc
from ..project import own_nodes, dotted
from .serial import is_self, is_field, entry_run, default_env, notification_roots, NullUse
from .setup import prefix, parts, is_cmd, isf, unnot, holds, admits, lock_name, TECH
from .sms import sms_cfg, storage_models, notification_run, reaching, send_runs, DEST, TEXT, known_response, regex_fields
from ..calls import const_match


def event_fields(w):
    """fields of the modem in which threading.Event objects are stored: (plain fields, dictionaries)"""
    plain, tables = set(), set()
    for f in w.modem.methods.values():
        me = f.params[0] if f.params else None
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'Event':
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                        plain.add(t.attr)
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id == me:
                        tables.add(t.value.attr)
    return plain, tables


def wakers(w):
    """methods of the modem that wake up a waiting thread: they call set() on something"""
    out = []
    for f in w.modem.methods.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'set' and not n.args:
                out.append(f)
                break
    return out


def field_name(t):
    x = is_field(t) or ''
    return x.replace('&self.', '')


class TableUse(Monitor):
    """a table entry that the waiting thread may withdraw is read by key instead of looked up"""
    name = 'tableuse'
    init = ()

    def __init__(self, rep, rule, tables, weak=()):
        self.rep, self.rule, self.tables, self.weak = rep, rule, tables, weak

    def on(self, ev, st):
        if ev.kind == 'keyread' and not ev.caught:
            n = field_name(ev.base)
            if n in self.tables and not st.locks:
                self.rep.bad(self.rule, '%s read by key in %s' % (n, ev.func), ev.where, 'the entry may have been withdrawn by the waiting thread since it was checked')
            if n in self.weak:
                self.rep.bad(self.rule, '%s read by key in %s' % (n, ev.func), ev.where, 'the weakly referenced entry may have disappeared since it was checked')
        return st


def weak_fields(w):
    out = set()
    for f in w.modem.methods.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or '').split('.')[-1] == 'WeakValueDictionary':
                for t in n.targets:
                    if isinstance(t, ast.Attribute):
                        out.add(t.attr)
    return out


def waker_run(rep, w, g, mons, plain, volatile=True):
    c = storage_models(w, sms_cfg(w, serial_faults=False, timeouts=False))
    if volatile:
        c.volatile = frozenset(plain)
        for a in plain:
            c.attr_types[a] = 'Event?'
    mc = Machine(w.p, mons, c)
    outs = entry_run(mc, w, g, default_env(g), 'GsmModem')
    rep.ran(mc, outs)
    return mc, outs


def modem_waiters(rep, w, rule):
    """fields withdrawn by waiting threads are read once and checked (called by S04)"""
    plain, tables = event_fields(w)
    for g in wakers(w):
        waker_run(rep, w, g, [NullUse(rep, rule, plain), TableUse(rep, rule, tables, weak_fields(w))], plain)


# -------------------------------------------------------------- waiting calls
class Waker(Monitor):
    """what a handler stores before it wakes the waiting thread: (fields stored, event field woken)"""
    name = 'waker'
    init = ((), ())

    def __init__(self, rep, rule, plain):
        self.rep, self.rule, self.plain = rep, rule, plain
        self.pairs = {}

    def on(self, ev, st):
        stored, woken = self.get(st)
        if ev.kind == 'setattr' and is_self(ev.obj) and ev.attr not in self.plain:
            for e in woken:
                if ev.attr in self.pairs.get(e, ()):
                    self.rep.bad(self.rule, 'answer stored after waking in ' + ev.func, ev.where, 'the answer is stored after the waiting thread was woken up; it can return an older answer')
            if ev.attr not in stored:
                return self.put(st, (stored + (ev.attr,), woken))
        if ev.kind == 'call' and ev.name == 'set' and ev.target is None and ev.recv is not None:
            f = ev.recv
            n = f.args[0][4:] if f.op == 'sym' and f.args[0].startswith('vol:') else field_name(f)
            if n in self.plain:
                self.rep.ob(self.rule, 'wake-up of %s in %s' % (n, ev.func))
                self.pairs.setdefault(n, set())
                self.pairs[n] = self.pairs[n] | set(stored)
                self.empty = getattr(self, 'empty', [])
                if not stored:
                    self.empty.append((n, ev.where, ev.func))
                return self.put(st, (stored, woken + (n,)))
        return st


class Waiting(Monitor):
    """(event registered (ref, field, before the command), command sent, wait (event, value, outcome), fields read after the wait)"""
    name = 'waiting'
    init = (None, False, None, (), 0)

    def __init__(self, rep, rule, triggers, limit, name, answers):
        self.rep, self.rule, self.triggers, self.limit, self.n, self.answers = rep, rule, triggers, limit, name, answers
        self.waits = 0

    def on(self, ev, st):
        reg, sent, wt, read, early = self.get(st)
        k = ev.kind
        rep = self.rep
        if k == 'setattr' and is_self(ev.obj) and ev.value.op == 'ref' and ev.value.args[0].startswith('Event'):
            return self.put(st, ((ev.value, ev.attr, not sent), sent, wt, read, early))
        if k == 'setattr' and is_self(ev.obj) and reg is not None and ev.attr == reg[1]:
            if ev.value is not reg[0] and wt is None and sent and is_k(ev.value, None):
                return self.put(st, ((reg[0], reg[1], None), sent, wt, read, early))
            return st
        if k == 'cmd' and is_cmd(ev.data, *self.triggers):
            rep.ob(self.rule, '%s: %s' % (self.n, prefix(ev.data)[:8]))
            return self.put(st, (reg, True, wt, read, early))
        if k == 'result' and ev.name == 'wait':
            self.waits += 1
            rep.ob(self.rule, '%s: wait' % self.n)
            a = ev.args[0] if ev.args else None
            if a is None or is_k(a, None):
                rep.bad(self.rule, '%s: waits for ever' % self.n, ev.where, 'the wait for the modem\'s answer has no limit')
            elif self.limit not in a.leaves and a.op in ('const', 'sym'):
                rep.bad(self.rule, '%s: other limit' % self.n, ev.where, 'the wait is limited by %s instead of the given timeout' % show(a)[:40])
            if reg is None or ev.recv is not reg[0]:
                if ev.recv.op == 'ref':
                    rep.bad(self.rule, '%s: other event' % self.n, ev.where, 'the event that is waited for is not the one the handler sets')
            elif reg[2] is False:
                rep.bad(self.rule, '%s: armed late' % self.n, ev.where, 'the wait is only prepared after the command was sent; an answer that arrives before that is missed')
            elif reg[2] is None:
                rep.bad(self.rule, '%s: withdrawn too early' % self.n, ev.where, 'the event was withdrawn before the wait; the answer cannot wake the waiting thread')
            return self.put(st, (reg, sent, (ev.recv, ev.value, None), (), early))
        if k == 'branch' and wt is not None and wt[2] is None:
            t, v = unnot(ev.term, ev.taken)
            if t.op == 'truthy' and t.args[0] is wt[1]:
                return self.put(st, (reg, sent, (wt[0], wt[1], v), read, early))
        if k == 'getattr' and is_self(ev.obj) and ev.attr in self.answers and wt is not None and wt[2] and ev.attr not in read:
            return self.put(st, (reg, sent, wt, read + (ev.attr,), early))
        return st


WAITS = (('sendUssd', ('AT+CUSD=1',), 'responseTimeout'), ('dial', ('ATD',), 'timeout'))


def check_W01(rep, root, tier):
    w = World(root)
    plain, tables = event_fields(w)
    wk = Waker(rep, 'W01', plain)
    for g in wakers(w):
        waker_run(rep, w, g, [wk], plain)
    for n, where, fn in getattr(wk, 'empty', ()):
        rep.bad('W01', 'woken without an answer in ' + fn, where, 'the waiting thread is woken although no answer has been stored')
    for name, trig, lim in WAITS:
        f = w.p.method('GsmModem', name)
        limit = sym(lim, 'int')
        c = sms_cfg(w)
        parse = [g for g in w.modem.methods.values() if 'parse' in g.name.lower() and 'usd' in g.name.lower()]
        for g in parse:
            c.opaque[g.qual] = model_fresh(None)
        answers = set()
        for p in plain:
            answers |= wk.pairs.get(p, set())
        mon = Waiting(rep, 'W01', trig, limit, name, answers)
        mc = Machine(w.p, [mon], c)
        mon.eng = mc
        env = default_env(f, {lim: limit})
        outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
        rep.ran(mc, outs)
        for k, v, s in outs:
            reg, sent, wt, read, early = mon.get(s)
            if s.degraded:
                continue
            what = k if k == 'return' else v.name
            rep.ob('W01', '%s: %s, %s' % (name, what, 'no wait' if wt is None else {True: 'answered', False: 'expired', None: 'result ignored'}[wt[2]]))
            if reg is not None and reg[1]:
                left = s.heap[('self', 0)].attrs.get(reg[1]) if ('self', 0) in s.heap else None
                if left is not None and left is reg[0]:
                    rep.bad('W01', '%s: event left behind on %s' % (name, what), f.loc, '%s() can end (%s) without withdrawing its event; a later answer is then attributed to nobody or the wrong call' % (name, what))
            if wt is None:
                continue
            if k == 'return' and wt[2] is not True:
                rep.bad('W01', '%s: success without an answer' % name, f.loc, '%s() returns although the wait has expired' % name)
            if k == 'raise' and wt[2] is False and v.name != 'TimeoutException':
                rep.bad('W01', '%s: other exception' % name, f.loc, 'an expired wait is reported by %s instead of TimeoutException' % v.name)
            if k == 'raise' and wt[2] is True and v.name == 'TimeoutException':
                rep.bad('W01', '%s: answer dropped' % name, f.loc, '%s() reports a timeout although the answer has arrived' % name)
            mine = wk.pairs.get(reg[1]) if reg is not None else None
            if k == 'return' and wt[2] is True and mine and not set(read) & mine:
                rep.bad('W01', '%s: old answer' % name, f.loc, 'the answer is not read after the wait has succeeded')
        rep.check(mon.waits > 0, 'W01', '%s: no wait' % name, f.loc, '%s() never waits for the answer of the network' % name)
        if mon.waits and plain and not any(wk.pairs.get(p) is not None for p in plain):
            rep.bad('W01', 'nobody wakes', f.loc, 'no notification handler wakes the waiting thread')


# ------------------------------------------------------------------- reports
class Report07(Monitor):
    """sendSms(waitForDeliveryReport=True): (key, event, registered under the lock held since the confirmation), waited, outcome, removed"""
    name = 'rep07'
    init = (None, None, False, False, False)

    def __init__(self, rep):
        self.rep = rep
        self.regs = 0

    def on(self, ev, st):
        reg, wt, removed, sent, freed = self.get(st)
        k = ev.kind
        rep = self.rep
        if k == 'cmdok' and is_k(ev.term, '\x1a'):
            return self.put(st, (reg, wt, removed, True, not st.locks))
        if k == 'unlock' and sent and not st.locks and not freed:
            return self.put(st, (reg, wt, removed, sent, True))
        if k == 'setitem' and ev.value.op == 'ref' and ev.value.args[0].startswith('Event'):
            self.regs += 1
            rep.ob('X07', 'registration in ' + ev.func)
            if sent and freed:
                rep.bad('X07', 'registered too late', ev.where, 'the wait for the report is only registered after other threads could have handled the report')
            if not any(x.op in ('m', 'sym', 'slice') for x in ev.key.subs) and ev.key.op == 'const':
                rep.bad('X07', 'registered under a constant', ev.where, 'the wait is not registered under the reference of the message')
            return self.put(st, ((ev.key, ev.value, field_name(ev.base)), wt, False, sent, freed))
        if k == 'result' and ev.name == 'wait':
            rep.ob('X07', 'wait in ' + ev.func)
            a = ev.args[0] if ev.args else None
            if a is None or is_k(a, None):
                rep.bad('X07', 'waits for ever', ev.where, 'the wait for the report has no limit')
            elif TIMEOUT not in a.leaves and a.op in ('const', 'sym'):
                rep.bad('X07', 'other limit', ev.where, 'the wait is limited by %s instead of the given time' % show(a)[:40])
            if reg is None:
                rep.bad('X07', 'not registered', ev.where, 'the event waited for is not registered under the reference')
            elif ev.recv.op == 'ref' and ev.recv is not reg[1]:
                rep.bad('X07', 'other event', ev.where, 'the event waited for is not the registered one')
            elif removed:
                rep.bad('X07', 'withdrawn before the wait', ev.where, 'the registration is withdrawn before the wait')
            if st.locks:
                rep.bad('X07', 'waits holding the lock', ev.where, 'the serial lock is held while waiting; the report cannot be read')
            return self.put(st, (reg, (ev.value, None), removed, sent, freed))
        if k == 'branch' and wt is not None and wt[1] is None:
            t, v = unnot(ev.term, ev.taken)
            if t.op == 'truthy' and t.args[0] is wt[0]:
                return self.put(st, (reg, (wt[0], v), removed, sent, freed))
        if reg is not None and (k == 'delitem' and field_name(ev.base) == reg[2] and ev.key is reg[0] or k == 'mutate' and ev.op == 'pop' and field_name(ev.obj) == reg[2] and ev.args and ev.args[0] is reg[0]):
            return self.put(st, (reg, wt, True, sent, freed))
        return st


TIMEOUT = sym('deliveryTimeout', 'int')


class Handler07(Monitor):
    """status report handling: report attached to (key), looked up event (term, found), woken, callback"""
    name = 'h07'
    init = (None, (), None, 0, 0)

    def __init__(self, rep, tables, weak):
        self.rep, self.tables, self.weak = rep, tables, weak
        self.attached = 0

    def on(self, ev, st):
        rd, looks, att, woke, cb = self.get(st)
        k = ev.kind
        rep = self.rep
        if k == 'sread':
            return self.put(st, (ev.value, (), None, 0, 0))
        if rd is None:
            return st
        if k in ('call', 'keyread'):
            base, key = (ev.recv, ev.args[0] if ev.args else None) if k == 'call' else (ev.base, ev.index)
            if k == 'call' and not (ev.name in ('get', 'pop') and ev.target is None and ev.recv is not None):
                if ev.name == 'set' and ev.target is None and not ev.args and ev.recv is not None:
                    rep.ob('X07', 'wake-up in ' + ev.func)
                    if woke:
                        rep.bad('X07', 'woken twice', ev.where, 'the waiting thread is woken twice')
                    if att is None and 'unknown' not in looks:
                        pass
                    return self.put(st, (rd, looks, att, 1, cb))
                return st
            n = field_name(base)
            if n in self.tables or n in self.weak:
                rep.ob('X07', 'lookup in %s in %s' % (n, ev.func))
                if not (key.op == 'attr' and key.args[1] == 'reference' and key.args[0] is rd) and key.op in ('const', 'attr', 'sym', 'call'):
                    rep.bad('X07', 'other key in ' + n, ev.where, 'the waiting call/sent message is looked up by %s instead of the reference in the report' % show(key)[:40])
                if n not in looks:
                    return self.put(st, (rd, looks + (n,), att, woke, cb))
            return st
        if k == 'branch':
            t, v = unnot(ev.term, ev.taken)
            here = (t.op == 'isnone' and not v or t.op == 'truthy' and v) and t.args[0].op == 'item' or t.op == 'in' and v
            if here and any(('self.' + n) in show(t).split('[')[0] + show(t)[-60:] for n in self.weak) and 'found' not in looks:
                return self.put(st, (rd, looks + ('found',), att, woke, cb))
        if k == 'setattr' and ev.value is rd and not is_self(ev.obj):
            self.attached += 1
            rep.ob('X07', 'report attached in ' + ev.func)
            if ev.attr != 'report':
                rep.bad('X07', 'attached elsewhere', ev.where, 'the report is stored in .%s of the sent message' % ev.attr)
            if woke:
                rep.bad('X07', 'attached after waking', ev.where, 'the report is attached after the waiting thread was woken up')
            return self.put(st, (rd, looks, ev.attr, woke, cb))
        if k == 'callback' and any(a is rd for a in ev.args):
            return self.put(st, (rd, looks, att, woke, min(cb + 1, 2)))
        return st


def check_X07(rep, root, tier):
    w = World(root)
    plain, tables = event_fields(w)
    weak = weak_fields(w)
    f = w.p.method('GsmModem', 'sendSms')
    for want in (TRUE, FALSE):
        c = sms_cfg(w, unroll=2, serial_faults=False, timeouts=False)
        mon = Report07(rep)
        mc = Machine(w.p, [mon], c)
        mon.eng = mc
        env = default_env(f, {'destination': DEST, 'text': TEXT, 'waitForDeliveryReport': want, 'deliveryTimeout': TIMEOUT})
        outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
        rep.ran(mc, outs)
        for k, v, s in outs:
            reg, wt, removed, sent, freed = mon.get(s)
            if s.degraded or not sent:
                continue
            what = k if k == 'return' else v.name
            rep.ob('X07', 'wait=%s: %s, %s' % (cval(want), what, 'no wait' if wt is None else {True: 'reported', False: 'expired', None: 'result ignored'}[wt[1]]))
            if reg is not None and not removed:
                rep.bad('X07', 'registration left behind on ' + what, f.loc, 'sendSms() can end (%s) without withdrawing its registration; a later report with the same reference is not delivered to the callback' % what)
            if want is FALSE and (reg is not None or wt is not None):
                rep.bad('X07', 'waits although not asked to', f.loc, 'sendSms() waits for a report (or registers for one) although the caller did not ask for that')
            if want is FALSE or k == 'raise' and wt is None:
                continue
            if k == 'return' and (wt is None or wt[1] is not True):
                rep.bad('X07', 'success without a report', f.loc, 'sendSms(waitForDeliveryReport=True) returns although no report has arrived')
            if k == 'raise' and wt[1] is False and v.name != 'TimeoutException':
                rep.bad('X07', 'other exception', f.loc, 'an expired wait is reported by %s' % v.name)
            if k == 'raise' and wt[1] is True and v.name == 'TimeoutException':
                rep.bad('X07', 'report dropped', f.loc, 'sendSms() reports a timeout although the report has arrived')
    # the handler
    h = Handler07(rep, tables, weak)
    tu = TableUse(rep, 'X07', tables, weak)
    reach = reaching(w, 'readStoredSms', 'deleteStoredSms', 'smsReceivedCallback', 'smsStatusReportCallback')

    def conf(c, g):
        c.inline = lambda q: q.qual in reach or q.cls is None or q.cls is not w.modem and q.cls is not w.serial
    woken = waiting = 0
    for g, mc, outs in notification_run(rep, w, [h, tu], lines='+CDSI: "ME",7', conf=conf):
        for k, v, s in outs:
            rd, looks, att, woke, cb = h.get(s)
            if rd is None or k != 'return' or s.degraded:
                continue
            woken += woke
            rep.ob('X07', 'report: %s%s%s' % ('attached, ' if att else '', 'woken ' if woke else '', 'callback' if cb else ''))
            if 'found' in looks and not att:
                rep.bad('X07', 'report not attached', g.loc, 'the sent message is known but the report is not attached to it')
            if woke and cb:
                rep.bad('X07', 'woken and callback', g.loc, 'a report that a sendSms() call waits for is also delivered to the callback')
            if not woke and not cb:
                rep.bad('X07', 'report lost', g.loc, 'a report can be handled without waking the waiting call or calling the callback')
            if cb > 1:
                rep.bad('X07', 'callback twice', g.loc, 'a report is delivered twice')
    rep.check(woken > 0 or not tables, 'X07', 'never woken', f.loc, 'no waiting sendSms() call is ever woken by a report')
    rep.check(h.attached > 0, 'X07', 'never attached', f.loc, 'the report is never attached to the sent message')
    sent_status(rep, w)


def sent_status(rep, w):
    """SentSms.status from the report"""
    cls = w.p.cls('SentSms')
    g = cls.getters.get('status')
    if g is None:
        rep.bad('X07', 'no status', w.modem.mod.relpath, 'SentSms has no status')
        return
    R = sym('report', None)

    class C(Monitor):
        name = 'c'
        init = ()

        def on(self, ev, st):
            if ev.kind == 'branch' and ev.term.op != 'const':
                x = unnot(ev.term, ev.taken)
                if x not in self.get(st):
                    return self.put(st, self.get(st) + (x,))
            return st
    mon = C()
    mc = Machine(w.p, [mon], Config())
    me, st = mc.new_instance(State(), cls, 'self', {'report': R})
    outs = mc.run(g, {g.params[0]: me}, st)
    rep.ran(mc, outs)
    code = T('attr', (R, 'deliveryStatus'))
    ok = const_attr(w, 'StatusReport', 'DELIVERED')
    names = {const_attr(w, 'SentSms', n): n for n in ('ENROUTE', 'DELIVERED', 'FAILED')}
    for k, v, s in outs:
        if k != 'return' or v.op != 'const':
            continue
        cs = mon.get(s)
        none = [x[1] for x in cs if x[0].op == 'isnone' and x[0].args[0] is R] or [not x[1] for x in cs if x[0].op == 'truthy' and x[0].args[0] is R]
        rest = [x for x in cs if R in x[0].subs and not (x[0].op in ('isnone', 'truthy') and x[0].args[0] is R)]
        if not none or any(holds(t, code, ok) is None for t, _ in rest):
            continue
        rep.ob('X07', 'status %s' % names.get(cval(v), show(v)))
        got = names.get(cval(v))
        if none[0] and got != 'ENROUTE':
            rep.bad('X07', 'status without a report', g.loc, 'a message without a report has the status %s' % got)
        elif not none[0]:
            fits = {'DELIVERED': admits(rest, code, ok), 'FAILED': any(admits(rest, code, x) for x in range(0, 256) if x != ok)}
            for want, poss in fits.items():
                if poss and got != want:
                    rep.bad('X07', 'status %s' % want, g.loc, 'a message whose report says %s has the status %s' % (want, got))


def const_attr(w, cname, attr):
    c = w.p.cls(cname)
    for b in w.p.mro(c):
        for n in b.node.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == attr for t in n.targets) and isinstance(n.value, ast.Constant):
                return n.value.value
    return None


# ---------------------------------------------------------------------- USSD
class Codes(Monitor):
    """conditions on the first group of the matched notifications; commands"""
    name = 'codes'
    init = ((), ())

    def on(self, ev, st):
        cs, cmds = self.get(st)
        if ev.kind == 'branch' and ev.term.op != 'const':
            t, v = unnot(ev.term, ev.taken)
            if any(is_group(x) for x in t.subs) and (t, v) not in cs:
                return self.put(st, (cs + ((t, v),), cmds))
        if ev.kind == 'cmd':
            return self.put(st, (cs, cmds + (('write', ev.data),)))
        if ev.kind == 'ussd':
            return self.put(st, (cs, cmds + (('sendUssd', ev.data),)))
        return st


def is_group(x):
    return x.op == 'm' and x.args[0] == 'group' and len(x.args) == 3 and x.args[2].op == 'const'


def judge_ussd(rep, w, g, outs, mon, who, pick):
    n = 0
    for k, v, s in outs:
        o = pick(k, v, s)
        if o is None or s.degraded:
            continue
        msg, act = o.attrs.get('message'), o.attrs.get('sessionActive')
        if msg is None or act is None or not is_group(msg):
            continue
        n += 1
        cs, _ = mon.get(s)
        if act.op != 'const':
            t0, v0 = unnot(act, True)
            known = [v2 for t, v2 in cs if t is t0]
            d = mon.eng.decide(act, s) if not known else known[-1] == v0
            if d is not None:
                if not known:
                    cs += ((t0, d == v0),)
                act = const(d)
        m, num = msg.args[1], cval(msg.args[2])
        if num != 2:
            rep.bad('W02', '%s: message' % who, g.loc, 'the USSD message is taken from the wrong field of the notification (%s)' % num)
        g1 = [x for t, v2 in cs for x in t.subs if is_group(x) and x.args[1] is m and is_k(x.args[2], 1)] + [x for x in act.subs | {act} if is_group(x) and x.args[1] is m]
        other = [x for t, v2 in cs for x in t.subs if is_group(x) and x.args[1] is not m and is_k(x.args[2], 1)]
        if act.op not in ('const',) and any(is_group(x) and x.args[1] is not m for x in act.subs):
            rep.bad('W02', '%s: state of another notification' % who, g.loc, 'the session state is taken from another notification than the message')
            continue
        if not g1:
            if act.op == 'const':
                rep.bad('W02', '%s: state is constant' % who, g.loc, 'the session state does not depend on the notification')
            continue
        code = g1[0]
        released = any(admits([(t, v2)], y, '2') and not admits([(t, v2)], y, '1') for y in other for t, v2 in cs if y in t.subs)
        for c in ('0', '1', '2', '3', '4', '5'):
            if not admits(cs, code, c):
                continue
            got = cval(act) if act.op == 'const' else holds(act, code, c)
            rep.ob('W02', '%s: code %s%s' % (who, c, ', session released' if released else ''))
            if got is None:
                continue
            if c == '1' and got is False and not released:
                rep.bad('W02', '%s: active session taken as closed' % who, g.loc, 'a session that the network keeps open (code 1) is reported as closed')
            if c != '1' and got is True:
                rep.bad('W02', '%s: closed session taken as active' % who, g.loc, 'a session that is closed (code %s) is reported as active' % c)
    return n


ANSWERS = [
    (['+CUSD: 0,"Balance: 5, ok",15'], 'Balance: 5, ok', False), (['+CUSD: 1,"1 = Yes",72'], '1 = Yes', True), (['+CUSD: 2,"Bye",15'], 'Bye', False),
    (['+CUSD: 2'], None, False), (['+CUSD: 0'], None, False), (['+CUSD: 1'], None, True),
    (['+CUSD: 1,"1. a', '2. b', '3. c",15'], '1. a\r\n2. b\r\n3. c', True), (['+CUSD: 0,"a', 'b",15'], 'a\r\nb', False),
    (['+CUSD: 1,"Menu",15', '+CUSD: 2,"",15'], 'Menu', False), (['+CUSD: 2,"",15', '+CUSD: 1,"Menu",15'], 'Menu', False),
    (['+CUSD: 0,"Done",15', '+CUSD: 2,"x",15'], 'Done', False), (['+CUSD: 2,"x",15', '+CUSD: 0,"Done",15'], 'Done', False),
]


def truth_value(t):
    """True, False or None (undecided) for a term about constants"""
    if t.op == 'const':
        return bool(cval(t))
    if t.op == 'not':
        r = truth_value(t.args[0])
        return None if r is None else not r
    if t.op == 'isnone':
        m = const_match(t.args[0])
        return None if m is False else m is None
    return None


def whole_answers(rep, w, f):
    """text and state of answers given line by line"""
    def cfg(write):
        c = w.modem_cfg(serial_faults=False, timeouts=False)
        c.closed = True
        c.loop_unroll = 5
        c.opaque[w.p.method('GsmModem', 'write').qual] = write
        return c

    def judge(who, loc, o, ls, text, active):
        a, m = o.attrs.get('sessionActive'), o.attrs.get('message')
        a = None if a is None else truth_value(a)
        rep.ob('W02', '%s: %s' % (who, ls))
        if a is not None and a != active:
            rep.bad('W02', '%s: state of %s' % (who, ls), loc, 'the session counts as %s after the answer %s' % ('active' if a else 'closed', ls))
        if m is not None and m.op == 'const' and cval(m) != text:
            rep.bad('W02', '%s: text of %s' % (who, ls), loc, 'the text of the answer %s is %r instead of %r' % (ls, cval(m), text))

    for ls, text, active in ANSWERS:
        c = cfg(known_response([const(x) for x in ls] + [const('OK')]))
        mc = Machine(w.p, [], c)
        me, st = mc.new_instance(State(), w.modem, 'self', regex_fields(w))
        outs = mc.run(f, dict({k: v for k, v in default_env(f, {}).items() if k in f.params}, **{f.params[0]: me}), st)
        rep.ran(mc, outs)
        for k, v, s in outs:
            if k == 'return' and not s.degraded and v.op == 'ref' and v.args in s.heap:
                judge('sendUssd', f.loc, s.heap[v.args], ls, text, active)
        for g in [x for x in wakers(w) if 'lines' in x.params or 'ussd' in x.name.lower()]:
            c = cfg(known_response([const('OK')]))
            mc = Machine(w.p, [], c)
            me, st = mc.new_instance(State(), w.modem, 'self', regex_fields(w))
            st = st.with_heap(('lines', 0), Obj('list', None, {'$pin': TRUE}, tuple(const(x) for x in ls)))
            outs = mc.run(g, dict({p: T('ref', ('lines', 0)) for p in g.params[1:]}, **{g.params[0]: me}), st)
            rep.ran(mc, outs)
            for k, v, s in outs:
                if k != 'return' or s.degraded or me.args not in s.heap:
                    continue
                for a, x in s.heap[me.args].attrs.items():
                    if x.op == 'ref' and x.args in s.heap and s.heap[x.args].attrs.get('sessionActive') is not None:
                        judge('notification', g.loc, s.heap[x.args], ls, text, active)


def check_W02(rep, root, tier):
    w = World(root)
    whole_answers(rep, w, w.p.method('GsmModem', 'sendUssd'))
    n = 0
    f = w.p.method('GsmModem', 'sendUssd')
    line = sym('line', 'str')
    c = sms_cfg(w, unroll=3)
    c.opaque[w.p.method('GsmModem', 'write').qual] = known_response([line, const('OK')])
    mon = Codes()
    mc = Machine(w.p, [mon], c)
    env = default_env(f, {})
    outs = entry_run(mc, w, f, {k: v for k, v in env.items() if k in f.params}, 'GsmModem')
    rep.ran(mc, outs)

    def returned(k, v, s):
        return s.heap[v.args] if k == 'return' and v.op == 'ref' and v.args in s.heap else None
    n += judge_ussd(rep, w, f, outs, mon, 'sendUssd', returned)
    for k, v, s in outs:
        if k == 'return' and v.op == 'const':
            rep.bad('W02', 'nothing returned', f.loc, 'sendUssd() can return %s' % show(v))
    # the notification
    for g in [x for x in wakers(w) if 'lines' in x.params or 'ussd' in x.name.lower()]:
        c = sms_cfg(w, unroll=3)
        mon = Codes()
        mc = Machine(w.p, [mon], c)
        st = State().with_heap(('lines', 0), Obj('list', None, {'$pin': TRUE}, (line,)))
        outs = entry_run(mc, w, g, {p: T('ref', ('lines', 0)) for p in g.params[1:]}, 'GsmModem', st)
        rep.ran(mc, outs)

        def stored(k, v, s):
            if k != 'return' or ('self', 0) not in s.heap:
                return None
            for a, x in s.heap[('self', 0)].attrs.items():
                if x.op == 'ref' and x.args in s.heap and s.heap[x.args].attrs.get('sessionActive') is not None:
                    return s.heap[x.args]
            return None
        n += judge_ussd(rep, w, g, outs, mon, 'notification', stored)
    rep.check(n > 0, 'W02', 'no message', f.loc, 'no USSD message is ever made from a notification')
    # replying and cancelling
    cls = w.p.cls('Ussd')
    for name in ('reply', 'cancel'):
        g = w.p.method('Ussd', name)
        for active in (TRUE, FALSE):
            c = w.modem_cfg(serial_faults=False, timeouts=False)

            def send(eng, func, env, st, node):
                st = eng.emit(st, 'ussd', node, data=env.get(func.params[1]))
                v, st = eng.fresh(st, eng.site(st, node, 'ussd'), None)
                return [(v, st)]
            c.opaque[f.qual] = send
            mon = Codes()
            mc = Machine(w.p, [mon], c)
            st = State()
            modem, st = mc.new_instance(st, w.modem, 'modem')
            me, st = mc.new_instance(st, cls, 'self', {'_gsmModem': modem, 'sessionActive': active})
            msg = sym('message', 'str')
            # the modem is kept in whatever field the constructor stores its proxy
            init = w.p.lookup(cls, '__init__')[0]
            if init is not None:
                for a in owner_fields(init):
                    st = st.with_heap(me.args, Obj('instance', cls, dict(st.heap[me.args].attrs, **{a: modem})))
            outs = mc.run(g, {p: v for p, v in zip(g.params, [me, msg])}, st)
            rep.ran(mc, outs)
            for k, v, s in outs:
                _, cmds = mon.get(s)
                rep.ob('W02', '%s, %s: %s' % (name, 'active' if active is TRUE else 'closed', k if k == 'return' else v.name))
                if active is FALSE:
                    if cmds:
                        rep.bad('W02', '%s in a closed session' % name, g.loc, '%s() sends something although the session is closed' % name)
                    if name == 'reply' and not (k == 'raise' and v.name == 'InvalidStateException'):
                        rep.bad('W02', 'reply in a closed session not refused', g.loc, 'reply() in a closed session does not raise InvalidStateException')
                elif k == 'return':
                    if not cmds:
                        rep.bad('W02', '%s does nothing' % name, g.loc, '%s() sends nothing although the session is active' % name)
                    elif name == 'reply' and cmds[0][0] == 'sendUssd':
                        if cmds[0][1] is not msg and cmds[0][1].op in ('const', 'sym', 'attr', 'slice', 'str'):
                            rep.bad('W02', 'other reply', g.loc, 'reply() sends %s instead of the given text' % show(cmds[0][1])[:40])
                        if is_k(v, None):
                            rep.bad('W02', 'answer to the reply dropped', g.loc, 'reply() does not return the network\'s answer')
                    elif name == 'cancel' and not is_k(cmds[0][1], 'AT+CUSD=2') and cmds[0][1].op == 'const':
                        rep.bad('W02', 'other cancel command', g.loc, 'cancel() sends %s instead of AT+CUSD=2' % show(cmds[0][1]))


def owner_fields(init):
    """fields in which a constructor stores (a weak reference to) its second parameter"""
    out = []
    if len(init.params) < 2:
        return out
    own = init.params[1]
    for n in own_nodes(init.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == own for x in ast.walk(n.value)):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]:
                    out.append(t.attr)
    return out


RULES = {
    'X07': (check_X07, 'other', TECH + ' with lock tracking'),
    'W01': (check_W01, 'other', TECH),
    'W02': (check_W02, 'other', TECH),
}
