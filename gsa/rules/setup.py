"""Initialisation, SIM unlocking, cached settings, SMS mode, incomplete responses, coverage wait."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc
from ..project import own_nodes, dotted
from ..regexlang import Lang, Const, Comb
from .. import lines
from .serial import is_self, entry_run, default_env, modem_entries, public_methods, notification_roots, table_handlers, lock_of, is_field

TECH = 'path-sensitive typestate analysis over the abstract interpreter'
PIN = sym('pin', 'str?')


def unnot(t, v):
    while t.op == 'not':
        t, v = t.args[0], not v
    return t, v


def isf(x, field):
    """x is the (initial) value of the object's field"""
    return x.op == 'attr' and x.args[1] == field or x.op == 'sym' and str(x.args[0]).endswith('self.' + field)


def prefix(t):
    """constant text a command starts with"""
    if t is None:
        return ''
    if t.op == 'const' and isinstance(cval(t), str):
        return cval(t)
    if t.op == 'str' and t.args and t.args[0].op == 'const':
        return str(cval(t.args[0]))
    return ''


def is_cmd(t, *names):
    p = prefix(t)
    return any(p.startswith(n) for n in names)


def parts(t):
    return list(t.args) if t.op == 'str' else [t]


OPTIONAL = ('AT+CFUN', 'AT^CVOICE', 'AT^USSDMODE', 'AT+WIND?', 'AT+ZPAS', 'AT+CLAC', 'AT+COPS', 'AT+CSMP', 'AT+CPMS=?', 'AT+CNMI', 'AT+CLIP', 'AT+CRC', 'AT+CVHU')
REQUIRED = ('ATZ', 'ATE0', 'AT+CPIN?', 'AT+CMEE=1', 'AT+CMGF=', 'AT+CLIP=1')
TRACKED = OPTIONAL + REQUIRED + ('AT+CPIN', 'AT+CSCA')
SETTINGS = ('AT+CMGF', 'AT+CSMP', 'AT+CPMS=', 'AT+CNMI', 'AT+CLIP', 'AT+CRC', 'AT+WIND=', 'AT+CVHU', 'AT^', 'ATE0', 'AT+COPS=')

KEEP = REQUIRED + ('AT+CLIP', 'AT+CRC', 'AT+CNMI')


def key_of(data):
    p = prefix(data)
    best = ''
    for n in TRACKED:
        if p.startswith(n) and len(n) > len(best):
            best = n
    return best or None


class Init(Monitor):
    """commands of one connect(): (accepted, rejected, last rejected, self flags written)"""
    name = 'init'
    init = (frozenset(), frozenset(), None, ())

    def __init__(self, rep, used):
        self.rep, self.used = rep, used
        self.seen = set()

    def on(self, ev, st):
        ok, bad, last, flags = self.get(st)
        if ev.kind == 'cmd' and ev.data is not None:
            p = prefix(ev.data)
            self.seen.add(p)
            if p.startswith('ATZ') and any(k == 'set' or k.startswith(SETTINGS) for k in ok | bad):
                self.rep.bad('M04', 'reset after settings', ev.where, 'the modem is reset although settings have been sent before; they are lost')
        elif ev.kind == 'cmdok':
            k = key_of(ev.data)
            if k in KEEP or k and k.startswith(SETTINGS) and not (ok | bad) & {'set'}:
                k = k if k in KEEP else 'set'
                return self.put(st, (ok | {k}, bad - {k}, last, flags))
        elif ev.kind == 'cmdfail' and ev.why == 'error':
            k = key_of(ev.data) or prefix(ev.data) or '?'
            if k in KEEP:
                return self.put(st, (ok - {k}, bad | {k}, k, flags))
            return self.put(st, (ok, bad, k, flags))
        elif ev.kind == 'setattr' and is_self(ev.obj) and ev.attr in self.used and ev.value.op == 'const' and isinstance(cval(ev.value), bool):
            d = dict(flags)
            d[ev.attr] = cval(ev.value)
            return self.put(st, (ok, bad, last, tuple(sorted(d.items()))))
        return st


def initial_flags(w):
    f = w.p.method('GsmModem', '__init__')
    out = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out[t.attr] = n.value.value
    return out


def connect_run(rep, w, mons, **kw):
    c = w.util(w.modem_cfg(**kw))
    c.loop_unroll = 1
    f = w.p.method('GsmModem', 'connect')
    mc = Machine(w.p, mons, c)
    outs = entry_run(mc, w, f, {'pin': PIN}, 'GsmModem')
    rep.ran(mc, outs)
    return f, mc, outs


def check_M04(rep, root, tier):
    w = World(root)
    used = set()
    for coll in (w.modem.methods, w.modem.getters, w.modem.setters):
        for g in coll.values():
            if g.name not in ('connect', '__init__'):
                used |= {n.attr for n in own_nodes(g.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    mon = Init(rep, used)
    f, mc, outs = connect_run(rep, w, [mon], serial_faults=False, timeouts=False)
    init = initial_flags(w)
    rets = []
    for k, v, s in outs:
        ok, bad, last, flags = mon.get(s)
        if k == 'raise':
            cls = v.cls
            rep.ob('M04', 'failure at %s' % last)
            if last and last.startswith(OPTIONAL) and not isinstance(cls, str) and mc.exc_sub(cls, w.p.cls('CommandError')) and v.name != 'PinRequiredError':
                rep.bad('M04', 'optional command %s is required' % last, f.loc, 'connect() fails on modems that reject the optional command %s' % last)
            continue
        rets.append((ok, bad, dict(init, **dict(flags))))
        for r in REQUIRED:
            rep.ob('M04', 'sent before success: ' + r)
            if not any(x.startswith(r) for x in ok | bad):
                rep.bad('M04', 'command %s skipped' % r, f.loc, 'connect() can succeed without having sent %s' % r)
            if r in ('ATZ', 'ATE0', 'AT+CMGF=') and any(x.startswith(r) for x in bad):
                rep.bad('M04', 'rejected %s ignored' % r, f.loc, 'connect() succeeds although the modem rejected %s' % r)
    rep.check(bool(rets), 'M04', 'connect never succeeds', f.loc, 'connect() cannot succeed')
    if any(x.startswith('AT+CNMI') for x in mon.seen):
        rep.ob('M04', 'message notifications requested')
        if not any(x.startswith('AT+CNMI=') and not x.startswith('AT+CNMI=0') for x in mon.seen):
            rep.bad('M04', 'message notifications not requested', f.loc, 'connect() does not ask for new message notifications')
    else:
        rep.bad('M04', 'message notifications not requested', f.loc, 'connect() does not ask for new message notifications')
    for cmdn, what in (('AT+CLIP', 'caller identification'), ('AT+CRC', 'extended ring indication')):
        rep.ob('M04', 'ability flag: ' + what)
        names = set().union(*[set(fl) for _, _, fl in rets]) & used if rets else set()
        good = []
        for a in names:
            if all((fl.get(a) is True) == any(x.startswith(cmdn) for x in ok) for ok, bad, fl in rets):
                good.append(a)
        if rets and not good and names:
            rep.bad('M04', 'flag for %s disagrees' % what, f.loc, 'what connect() records about %s does not agree with the answer to %s' % (what, cmdn))


# ------------------------------------------------------------------ SIM unlock
READY = Const(['+CPIN: READY'])
SIM = ('AT+CMGF', 'AT+CSCA', 'AT+CPMS', 'AT+CNMI', 'AT+CSMP', 'AT+CLIP', 'AT+COPS')


class Sim(Monitor):
    """(query outstanding/answered, conditions on the answer, PIN sent count, PIN accepted, PIN rejected, pin given?)"""
    name = 'sim'
    init = (0, (), 0, False, False, None)

    def __init__(self, rep, root):
        self.rep, self.root = rep, root

    def answer(self, conds):
        for t, _ in conds:
            for x in t.subs:
                if x.op == 'sym' and 'lineStartingWith' in str(x.args[0]):
                    return x
        return None

    def maybe_ready(self, conds):
        """a word showing that the conditions admit the answer READY; None: excluded; True: not decided"""
        x = self.answer(conds)
        if x is None:
            return True
        if any(t.op == 'isnone' and t.args[0] is x and v for t, v in conds):
            return None
        ls, full = lines.lang(conds, x)
        if not full:
            return True
        return lines.meets(ls, READY)

    def maybe_locked(self, conds):
        """the conditions on the answer admit one that asks for a PIN or PUK"""
        x = self.answer(conds)
        if x is None:
            return False
        if any(t.op == 'isnone' and t.args[0] is x and v for t, v in conds):
            return False
        ls, full = lines.lang(conds, x)
        return bool(full and lines.meets(ls, Const(['+CPIN: SIM PIN', '+CPIN: SIM PUK'])) is not None)

    def on(self, ev, st):
        asked, conds, sent, ok, bad, given = self.get(st)
        k = ev.kind
        if k == 'cmd' and ev.data is not None:
            if is_cmd(ev.data, 'AT+CPIN?'):
                return self.put(st, (1, (), sent, ok, bad, given))
            if PIN in ev.data.leaves:
                self.rep.ob('M05', 'PIN sent in ' + ev.func)
                want = [const('AT+CPIN="'), PIN, const('"')]
                if parts(ev.data) != want and ev.data.op == 'str':
                    self.rep.bad('M05', 'PIN altered', ev.where, 'what is sent to unlock the SIM is not AT+CPIN="<the given PIN>" (%s)' % show(ev.data)[:60])
                if not asked:
                    self.rep.bad('M05', 'PIN sent unasked', ev.where, 'the PIN is sent without having asked whether one is needed; every wrong attempt counts against the SIM')
                elif self.maybe_ready(conds) is not None and self.maybe_ready(conds) is not True:
                    self.rep.bad('M05', 'PIN sent although ready', ev.where, 'the PIN is sent although the SIM card may be ready already')
                if sent:
                    self.rep.bad('M05', 'PIN sent twice', ev.where, 'the PIN is sent more than once during one connect(), which can block the SIM card')
                return self.put(st, (asked, conds, 1, ok, bad, given))
            if is_cmd(ev.data, *SIM):
                self.rep.ob('M05', 'SIM needed: ' + prefix(ev.data)[:12])
                if not asked:
                    self.rep.bad('M05', '%s before the SIM check' % prefix(ev.data)[:9], ev.where, 'a command that needs the SIM card is sent before the SIM card was checked')
                elif (self.maybe_ready(conds) is None or self.maybe_locked(conds)) and not ok:
                    self.rep.bad('M05', '%s while locked' % prefix(ev.data)[:9], ev.where, 'initialisation continues although the SIM card is locked')
        elif k == 'cmdok' and PIN in (ev.data.leaves if ev.data is not None else ()):
            return self.put(st, (asked, conds, sent, getattr(ev, 'parsed', True) is not False, bad, given))
        elif k == 'cmdfail' and PIN in (ev.data.leaves if ev.data is not None else ()):
            return self.put(st, (asked, conds, sent, False, True, given))
        elif k == 'branch' and ev.term.op != 'const':
            t = ev.term
            if t is T('isnone', (PIN,)) or t.op == 'truthy' and t.args[0] is PIN:
                given = ev.taken if t.op == 'truthy' else not ev.taken
                return self.put(st, (asked, conds, sent, ok, bad, given))
            if asked and any(x.op == 'sym' and 'lineStartingWith' in str(x.args[0]) for x in t.subs):
                c = (t, ev.taken)
                a = self.answer(conds)
                if c not in conds and (a is None or a in t.subs):
                    return self.put(st, (asked, (conds + (c,))[:6], sent, ok, bad, given))
        elif k == 'raise' and getattr(ev, 'exc', None) is not None and ev.exc.name == 'PinRequiredError':
            self.rep.ob('M05', 'PIN required raised in ' + ev.func)
            if given:
                self.rep.bad('M05', 'PIN required although given', ev.where, 'PinRequiredError is raised although a PIN was given')
            if asked and self.maybe_ready(conds) not in (None, True):
                self.rep.bad('M05', 'PIN required although ready', ev.where, 'PinRequiredError is raised although the SIM card may be ready')
        return st


def check_M05(rep, root, tier):
    w = World(root)
    mon = Sim(rep, root)
    f, mc, outs = connect_run(rep, w, [mon], serial_faults=False)
    needed = False
    for k, v, s in outs:
        asked, conds, sent, ok, bad, given = mon.get(s)
        if k == 'return':
            rep.ob('M05', 'success: asked=%d sent=%d ok=%s' % (asked, sent, ok))
            if not asked:
                rep.bad('M05', 'SIM never checked', f.loc, 'connect() succeeds without having checked the SIM card')
            if bad:
                rep.bad('M05', 'rejected PIN ignored', f.loc, 'connect() succeeds although the PIN was rejected')
            if (mon.maybe_ready(conds) is None or mon.maybe_locked(conds)) and not ok:
                rep.bad('M05', 'locked SIM accepted', f.loc, 'connect() succeeds although the SIM card is locked')
        if k == 'raise' and v.name == 'PinRequiredError':
            needed = True
    rep.check(needed, 'M05', 'no PinRequiredError', f.loc, 'a locked SIM card without a PIN does not lead to PinRequiredError')


# ------------------------------------------------------------- cached settings
def getter_field(w, name):
    f = w.p.lookup_property(w.modem, name)[0] if hasattr(w.p, 'lookup_property') else w.modem.getters.get(name)
    if f is None:
        raise Anchor('GsmModem.%s' % name)
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and n.value.value.id == f.params[0]:
            out.add(n.value.attr)
    return f, (out.pop() if len(out) == 1 else None)


NEW = sym('newvalue', None)


class Setter(Monitor):
    """setter of a cached setting: (sent: None/'ok'/'fail', data, written value or None, conditions)"""
    name = 'setter'
    init = (None, None, None, (), False)

    def __init__(self, field):
        self.field = field

    def on(self, ev, st):
        sent, data, val, conds, early = self.get(st)
        k = ev.kind
        if k == 'cmd' and ev.data is not None:
            return self.put(st, ('sent', ev.data, val, conds, val is not None))
        if k == 'cmdok':
            return self.put(st, ('ok' if getattr(ev, 'parsed', True) is not False else 'fail', data, val, conds, early))
        if k == 'cmdfail':
            return self.put(st, ('fail', data, val, conds, early))
        if k == 'setattr' and is_self(ev.obj) and ev.attr == self.field:
            return self.put(st, (sent, data, ev.value, conds, early))
        if k == 'branch' and ev.term.op != 'const':
            c = (ev.term, ev.taken)
            if c not in conds:
                return self.put(st, (sent, data, val, conds + (c,), early))
        return st


def same_as_cached(conds, field):
    for t, v in conds:
        t, v = unnot(t, v)
        if t.op in ('eq', 'same') and v and NEW in t.args and any(isf(x, field) for x in t.args):
            return True
    return False


def closed(conds):
    """the path runs only while the connection is not open"""
    for t, v in conds:
        t, v = unnot(t, v)
        for x in t.subs:
            if isf(x, 'alive'):
                return not v
    return False


def check_M06(rep, root, tier):
    w = World(root)
    for name, cmd in (('smsTextMode', 'AT+CMGF='), ('smsc', 'AT+CSCA="')):
        g, field = getter_field(w, name)
        f = w.modem.setters.get(name)
        if f is None:
            raise Anchor('setter of GsmModem.%s' % name)
        if field is None:
            rep.note('%s: the property does not return one field' % name)
            continue
        mon = Setter(field)
        c = w.util(w.modem_cfg())
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, f, {f.params[1]: NEW}, 'GsmModem')
        rep.ran(mc, outs)
        sends = set()
        for k, v, s in outs:
            sent, data, val, conds, early = mon.get(s)
            rep.ob('M06', '%s set: %s, command %s, remembered %s' % (name, k, sent, val is not None))
            if data is not None:
                p = prefix(data)
                if not p.startswith(cmd):
                    rep.bad('M06', '%s: other command' % name, f.loc, 'setting %s sends %r' % (name, p))
                if name == 'smsc' and data.op == 'str' and parts(data) != [const('AT+CSCA="'), NEW, const('"')]:
                    rep.bad('M06', 'smsc: other value sent', f.loc, 'setting the SMSC does not send the given number')
                if name == 'smsTextMode':
                    tr = [v2 if t.op == 'truthy' else None for t, v2 in conds if t.op == 'truthy' and t.args[0] is NEW]
                    want = {True: 'AT+CMGF=1', False: 'AT+CMGF=0'}
                    if tr and data.op == 'const' and cval(data) != want[tr[-1]]:
                        rep.bad('M06', 'smsTextMode: other value sent', f.loc, 'smsTextMode = %s sends %s' % (tr[-1], cval(data)))
                    sends.add(cval(data) if data.op == 'const' else None)
            if k == 'raise':
                if sent in ('fail', 'sent') and val is not None:
                    rep.bad('M06', '%s: remembered although rejected' % name, f.loc, '%s reports the new value although the modem rejected it' % name)
                continue
            if sent == 'fail':
                if val is not None:
                    rep.bad('M06', '%s: rejected and remembered' % name, f.loc, '%s reports the new value although the modem rejected it' % name)
                else:
                    rep.bad('M06', '%s: rejection hidden' % name, f.loc, 'the modem\'s rejection of a new %s is not reported' % name)
                continue
            if same_as_cached(conds, field):
                continue
            if val is None:
                rep.bad('M06', '%s: not remembered' % name, f.loc, 'a new value of %s is not remembered on some path' % name)
            elif val is not NEW and val.op == 'const' and name != 'smsTextMode':
                rep.bad('M06', '%s: other value remembered' % name, f.loc, 'another value than the new %s is remembered' % name)
            if sent is None and not closed(conds):
                rep.bad('M06', '%s: not sent' % name, f.loc, 'a new value of %s is not sent to the connected modem' % name)
    # what the getter of smsc remembers comes from the modem's answer
    g, field = getter_field(w, 'smsc')
    if field:
        mon = Setter(field)
        mc = Machine(w.p, [mon], w.util(w.modem_cfg()))
        outs = entry_run(mc, w, g, {}, 'GsmModem')
        rep.ran(mc, outs)
        for k, v, s in outs:
            sent, data, val, conds, early = mon.get(s)
            rep.ob('M06', 'smsc read: %s, command %s' % (k, sent))
            if val is not None and val is not NONE and sent != 'ok' and not s.degraded:
                rep.bad('M06', 'smsc read: remembered without an answer', g.loc, 'an SMSC number is remembered although the modem did not report one')
            if sent is not None:
                if not any(unnot(t, v2) == (T('isnone', (x,)), True) or (unnot(t, v2)[0].op == 'truthy' and not unnot(t, v2)[1]) for t, v2 in conds for x in t.subs if isf(x, field)):
                    rep.bad('M06', 'smsc read: cache ignored', g.loc, 'the modem is asked although the number is known')
    from .calls import service_centre
    service_centre(rep, 'M06', w)
    # after connect(): the cached number is what the modem has
    class After(Monitor):
        name = 'after'
        init = (False, None)
        def on(self, ev, st):
            cl, dirty = self.get(st)
            if ev.kind == 'setattr' and is_self(ev.obj) and ev.attr == field:
                return self.put(st, (is_k(ev.value, None), None))
            if ev.kind == 'cmd' and is_cmd(ev.data, 'AT+CSMP'):
                return self.put(st, (cl, 'stale' if not cl else None))
            return st
    if field:
        mon = After()
        f, mc, outs = connect_run(rep, w, [mon], serial_faults=False, timeouts=False)
        for k, v, s in outs:
            if k == 'return':
                rep.ob('M06', 'connect: %s' % (mon.get(s),))


# ------------------------------------------------------------------- SMS mode
class Mode(Monitor):
    """SMS commands are in the syntax of the mode in effect, decided and used under one lock hold"""
    name = 'mode'
    init = (None, False, None, False)      # (mode tested under the current lock hold, lock held, mode command pending, field read under the current lock hold)

    def __init__(self, rep, field, eng, entry):
        self.rep, self.field, self.eng, self.entry = rep, field, eng, entry
        self.kinds = set()
        self.held = []

    def on(self, ev, st):
        mode, held, pend, rd = self.get(st)
        k = ev.kind
        if k == 'lock':
            return self.put(st, (mode, True, pend, rd))
        if k == 'unlock' and not st.locks:
            if pend is not None:
                self.rep.bad('M07', 'mode switch not atomic in ' + ev.func, ev.where, 'after the SMS mode was switched other threads can send SMS commands before the new mode is taken note of')
            return self.put(st, (None, False, None, False))
        if k == 'getattr' and ev.attr == self.field:
            return self.put(st, (mode, held, pend, bool(st.locks)))
        if k == 'branch':
            t, v = unnot(ev.term, ev.taken)
            if t.op == 'truthy':
                x = t.args[0]
                if isf(x, self.field):
                    return self.put(st, ((v, rd), held, pend, rd))
            if t.op == 'eq' and any(isf(x, self.field) for x in t.args) and any(is_k(x, True) or is_k(x, False) for x in t.args):
                c = [x for x in t.args if x.op == 'const'][0]
                return self.put(st, ((v == cval(c), rd), held, pend, rd))
        if k == 'setattr' and is_self(ev.obj) and ev.attr == self.field:
            return self.put(st, (None, held, None, held))
        if k == 'cmdok' and is_cmd(ev.data, 'AT+CMGF=') and self.entry != 'connect':
            self.rep.ob('M07', 'mode switch in ' + ev.func)
            if not held:
                self.rep.bad('M07', 'mode switch not atomic in ' + ev.func, ev.where, 'after the SMS mode was switched other threads can send SMS commands before the new mode is taken note of')
            self.held.append((ev.where, frozenset(lock_name(x) for x in st.locks)))
            return self.put(st, (mode, held, 'CMGF', rd))
        if k == 'cmd' and ev.data is not None:
            d = ev.data
            p = prefix(d)
            if p.startswith('AT+CMGF='):
                if self.entry != 'connect':
                    return st
                if d.op == 'const' and mode is not None and cval(d)[8:] != ('1' if mode[0] else '0'):
                    self.rep.bad('M07', 'connect selects the other mode', ev.where, 'connect() selects SMS mode %s although smsTextMode is %s' % (cval(d)[8:], mode[0]))
                self.rep.ob('M07', 'mode selection in ' + ev.func)
                return st
            for c in ('AT+CMGS=', 'AT+CMGL=', 'AT+CMGW='):
                if p.startswith(c):
                    text = p[len(c):].startswith('"') if len(p) > len(c) else (False if d.op == 'str' else None)
                    if text is None:
                        break
                    self.kinds.add((c, text))
                    self.held.append((ev.where, frozenset(lock_name(x) for x in st.locks)))
                    self.rep.ob('M07', '%s (%s syntax) in %s' % (c[3:-1], 'text' if text else 'PDU', ev.func))
                    if mode is None:
                        if self.known(ev, st) is None:
                            self.rep.bad('M07', '%s without looking at the mode in %s' % (c[3:-1], ev.func), ev.where, 'a %s mode command is sent whatever the SMS mode is' % ('text' if text else 'PDU'))
                    elif mode[0] != text:
                        self.rep.bad('M07', '%s in the other syntax in %s' % (c[3:-1], ev.func), ev.where, 'a %s mode command is sent in %s mode' % (('text', 'PDU') if text else ('PDU', 'text')))
                    elif not mode[1] or not held:
                        self.rep.bad('M07', '%s: mode may have changed in %s' % (c[3:-1], ev.func), ev.where, 'another thread can switch the SMS mode between the decision for a mode and the command')
        return st

    def known(self, ev, st):
        return None


def lock_name(l):
    return str(is_field(l) or l)


def check_M07(rep, root, tier):
    w = World(root)
    g, field = getter_field(w, 'smsTextMode')
    if field is None:
        rep.note('smsTextMode does not return a field')
        return
    kinds = set()
    held = []
    for name in ('sendSms', 'listStoredSms', 'readStoredSms', 'connect', 'smsTextMode'):
        f = w.modem.setters.get(name) if name == 'smsTextMode' else w.p.method('GsmModem', name)
        c = w.pdu(w.util(w.modem_cfg(serial_faults=False, timeouts=False)))
        c.loop_unroll = 1
        for h in ('deleteStoredSms', 'deleteMultipleStoredSms'):
            c.opaque[w.p.method('GsmModem', h).qual] = model_none
        mon = Mode(rep, field, None, name)
        mc = Machine(w.p, [mon], c)
        outs = entry_run(mc, w, f, default_env(f, {'pin': PIN} if name == 'connect' else {}), 'GsmModem')
        rep.ran(mc, outs)
        kinds |= mon.kinds
        held += [h for h in mon.held if h[1]]
    if held:
        common = frozenset.intersection(*[h[1] for h in held])
        rep.check(bool(common), 'M07', 'different locks', held[0][0], 'switching the SMS mode and the SMS commands are not protected by the same lock')
    for c in ('AT+CMGS=', 'AT+CMGL='):
        for text in (True, False):
            rep.check((c, text) in kinds, 'M07', 'no %s command in %s mode' % (c[3:-1], 'text' if text else 'PDU'), w.modem.mod.relpath, 'there is no %s command for %s mode' % (c[3:-1], 'text' if text else 'PDU'))


# ------------------------------------------------------- incomplete responses
RESPONSE = ('lineStartingWith', 'lineMatching', 'resp@', 'tdata', 'resp:')


def from_modem(v):
    if v.op == 'const':
        return True
    for x in v.subs:
        if x.op == 'sym' and any(k in str(x.args[0]) for k in ('lineStartingWith', 'lineMatching', 'tdata', 'lines', 'notificationLine')):
            return True
        if x.op == 'm' and x.args[0] in ('match', 'search', 'fullmatch'):
            return True
        if x.op == 'sym' and 'resp' in str(x.args[0]):
            return True
    return False


class Missing(Monitor):
    """use of something that an incomplete or unexpected response does not contain"""
    name = 'missing'
    init = ()

    def __init__(self, rep, rule, entry):
        self.rep, self.rule, self.entry = rep, rule, entry

    def on(self, ev, st):
        if ev.kind == 'deref':
            if from_modem(ev.value):
                self.rep.bad(self.rule, 'missing part used in %s (%s)' % (ev.func, ev.what), ev.where,
                             'what the modem sent may lack the expected part (%s); it is used here without a check (%s)' % (show(ev.value)[:60], ev.what))
                return None
        elif ev.kind == 'cmd':
            self.rep.ob(self.rule, '%s: response to %s' % (self.entry, prefix(ev.data)[:20] or show(ev.data)[:20]))
        elif ev.kind == 'call' and ev.target is None and getattr(ev, 'ext', None) == 'builtins.int' and ev.args and from_modem(ev.args[0]) and ev.args[0].op in ('m', 'sym', 'const'):
            a = ev.args[0]
            ty = self.eng.typ(a, st)
            if ty is not None and ty.endswith('?') and self.eng.decide(T('isnone', (a,)), st) is not False or is_k(a, None):
                self.rep.bad(self.rule, 'missing number used in ' + ev.func, ev.where, 'the number read here may be missing in what the modem sent')
                return None
        return st


def found(typ, argpos):
    def model(eng, func, env, st, node):
        ls = env.get(func.params[argpos])
        if isinstance(ls, T):
            st = eng.deref(ls, st, node, 'iteration')
            if st is None:
                return []
        v, st = eng.fresh(st, eng.site(st, node, func.name), typ + '?')
        return [(v, st)]
    return model


M08_ENTRIES = ('connect', 'sendSms', 'sendUssd', 'readStoredSms', 'listStoredSms', 'waitForNetworkCoverage', 'dial', 'deleteStoredSms')


def null_cfg(w, name, notes):
    c = w.pdu(w.modem_cfg(serial_faults=False, timeouts=True))
    for n, t in (('lineStartingWith', 'str'), ('lineMatching', 'Match')):
        c.opaque[w.p.func('gsmmodem.util', n).qual] = recalled(found(t, 1))
    c.opaque[w.p.func('gsmmodem.util', 'parseTextModeTimeStr').qual] = model_fresh('datetime')
    c.loop_unroll = 1
    for h in ('readStoredSms', 'deleteStoredSms', 'deleteMultipleStoredSms', 'listStoredSms'):
        if h != name:
            c.opaque[w.p.method('GsmModem', h).qual] = model_fresh(None) if h in ('readStoredSms', 'listStoredSms') else model_none
    return c


def check_M08(rep, root, tier):
    w = World(root)
    jobs = [(w.p.method('GsmModem', n), n) for n in M08_ENTRIES]
    jobs += [(g, n) for n, g in sorted(w.modem.getters.items())]
    jobs += [(g, g.name) for g in notification_roots(w)] + [(g, g.name) for q, g in sorted(table_handlers(w).items()) if g not in notification_roots(w)]
    seen = set()
    for f, n in jobs:
        if f.qual in seen:
            continue
        seen.add(f.qual)
        c = null_cfg(w, n, rep)
        mon = Missing(rep, 'M08', n)
        mc = Machine(w.p, [mon], c)
        mon.eng = mc
        extra = {'pin': PIN}
        env = default_env(f)
        for p in f.params[1:]:
            if p == 'lines':
                env[p] = sym('lines', 'list:str')
            if p == 'pin':
                env[p] = PIN
            if p == 'regexMatch':
                env[p] = sym('regexMatch', 'Match?')
        outs = entry_run(mc, w, f, env, 'GsmModem')
        rep.ran(mc, outs)
        rep.ob('M08', 'entry ' + n)


RULES = {
    'M08': (check_M08, 'other', TECH + ': nullness of everything taken from a response'),
    'M04': (check_M04, 'other', TECH),
    'M05': (check_M05, 'other', TECH + '; conditions on the SIM status compared as regular languages'),
    'M06': (check_M06, 'other', TECH),
    'M07': (check_M07, 'other', TECH + ' with lock tracking'),
}


# ------------------------------------------------------------- coverage wait
def holds(t, x, value):
    """truth of the condition t when the integer term x has the given value (None: not decided)"""
    if t.op == 'const':
        return bool(cval(t))
    if t.op == 'not':
        r = holds(t.args[0], x, value)
        return None if r is None else not r
    if t.op in ('or', 'and'):
        rs = [holds(a, x, value) for a in t.args]
        if t.op == 'or':
            return True if True in rs else None if None in rs else False
        return False if False in rs else None if None in rs else True
    if t.op in ('eq', 'lt', 'same') and len(t.args) == 2:
        v = [value if a is x else cval(a) if a.op == 'const' else None for a in t.args]
        if None in v:
            return None
        try:
            return v[0] < v[1] if t.op == 'lt' else v[0] == v[1]
        except TypeError:
            return None
    if t.op == 'in' and t.args[0] is x:
        c = lines.consts(t.args[1])
        return None if c is None else value in c
    if t.op == 'truthy' and t.args[0] is x:
        return bool(value)
    if t.op == 'isnone' and t.args[0] is x:
        return value is None
    return None


def admits(conds, x, value):
    """can the integer term x be value under the conditions? (conditions not understood: yes)"""
    for t, v in conds:
        r = holds(t, x, value)
        if r is not None and r != v:
            return False
    return True


class Cover(Monitor):
    """(conditions on the last registration status, status term, timer state)"""
    name = 'cover'
    init = ((), None, '')

    def __init__(self, rep):
        self.rep = rep

    def status(self, t):
        for x in t.subs:
            if x.op == 'call' and x.args[0] == 'int' and ('CREG' in str(x) or 'lineMatching' in str(x)):
                return x
        return None

    def on(self, ev, st):
        conds, x, timer = self.get(st)
        k = ev.kind
        if k == 'branch':
            y = self.status(ev.term)
            if y is not None:
                c = (ev.term, ev.taken)
                if c not in conds:
                    return self.put(st, (conds + (c,), y, timer))
            elif ev.term.op == 'isnone' and 'lineMatching' in str(ev.term):
                return self.put(st, (conds + ((ev.term, ev.taken),), x, timer))
        elif k == 'cmd' and ev.data is not None:
            if is_cmd(ev.data, 'AT+CREG'):
                self.refused(conds, x, ev)
                if x is not None and timer != 'strength asked' and not st.degraded:
                    for s in (1, 5):
                        if admits(conds, x, s):
                            self.rep.bad('G03', 'registered (%d) not noticed' % s, ev.where, 'the registration is asked for again although the modem reported status %d (%s), without looking at the signal strength' % (s, 'home' if s == 1 else 'roaming'))
                return self.put(st, ((), None, ''))
            if is_cmd(ev.data, 'AT+CSQ'):
                self.refused(conds, x, ev)
                self.rep.ob('G03', 'signal strength query')
                if x is not None:
                    for s in (2, 4):
                        if admits(conds, x, s):
                            self.rep.bad('G03', 'signal checked while not registered', ev.where, 'registration status %d (not registered) is taken as registered' % s)
                return self.put(st, (conds, x, 'strength asked'))
        elif k == 'call' and ev.target is None:
            if ev.ext == 'time.sleep':
                self.refused(conds, x, ev)
                return st
            nm = getattr(ev, 'name', None)
        elif k == 'raise' and ev.exc.name == 'InvalidStateException':
            self.rep.ob('G03', 'no coverage to be expected')
            if x is not None:
                for s in (1, 2, 4, 5):
                    if admits(conds, x, s):
                        self.rep.bad('G03', 'gives up with status %d' % s, ev.where, 'waiting is given up although the registration status may be %d' % s)
        return st

    def refused(self, conds, x, ev):
        if x is not None:
            for s in (0, 3):
                if admits(conds, x, s):
                    self.rep.bad('G03', 'keeps waiting with status %d' % s, ev.where, 'waiting goes on although the modem reports registration status %d (%s)' % (s, 'denied' if s == 3 else 'not searching'))


class TimerUse(Monitor):
    """timers created: started and cancelled (tuples of references)"""
    name = 'timer'
    init = ((), ())

    def __init__(self, rep):
        self.rep = rep

    def on(self, ev, st):
        a, b = self.get(st)
        if ev.kind == 'spawn' and ev.tkind == 'Timer':
            return self.put(st, (a + (ev.thread,), b)) if ev.thread not in a else st
        if ev.kind == 'cancel':
            return self.put(st, (a, b + (ev.thread,))) if ev.thread not in b else st
        return st


def check_G03(rep, root, tier):
    w = World(root)
    signal_strength(rep, w)
    f = w.p.method('GsmModem', 'waitForNetworkCoverage')
    for case, tmo in (('without', True), ('with', True), ('without', False), ('with', False)):
        mon, tm = Cover(rep), TimerUse(rep)
        c = w.util(w.modem_cfg(serial_faults=False, timeouts=tmo))
        c.timer_fires = True
        c.loop_unroll = 1
        c.opaque[w.p.func('gsmmodem.util', 'lineMatching').qual] = nullable('Match')
        mc = Machine(w.p, [mon, tm], c)
        outs = entry_run(mc, w, f, {f.params[1]: NONE if case == 'without' else sym('timeout', 'int')}, 'GsmModem')
        rep.ran(mc, outs)
        for k, v, s in outs:
            started, cancelled = tm.get(s)
            rep.ob('G03', '%s a timeout: %s' % (case, 'return' if k == 'return' else v.name))
            if k == 'return':
                if mc.decide(T('lt', (const(0), v)), s) is not True and not s.degraded:
                    rep.bad('G03', 'returns without coverage', f.loc, 'the wait ends although the signal strength (%s) may not be greater than 0' % show(v)[:60])
            left = [x for x in started if x not in cancelled]
            if left:
                rep.bad('G03', 'timer left running (%s)' % ('return' if k == 'return' else v.name), f.loc, 'the timeout timer is still running when the wait has ended (%s)' % ('return' if k == 'return' else v.name))
        if not tmo:
            ends = any(k == 'raise' and v.name == 'TimeoutException' for k, v, s in outs)
            rep.check(ends == (case == 'with'), 'G03', 'timeout %s being asked for' % case, f.loc, 'the wait %s' % ('never times out although a timeout is given' if not ends else 'times out although no timeout is given'))


def signal_strength(rep, w):
    """the number reported by the modem, negative if that is 99 (unknown)"""
    c = w.p.cls('GsmModem')
    f, _ = w.p.lookup(c, 'signalStrength', 'getters')
    if f is None:
        rep.bad('G03', 'no signalStrength', w.p.method('GsmModem', 'waitForNetworkCoverage').loc, 'GsmModem has no property signalStrength')
        return
    mon = Conditions()
    mc = Machine(w.p, [mon], w.modem_cfg(serial_faults=False, timeouts=False))
    outs = entry_run(mc, w, f, default_env(f), 'GsmModem')
    rep.ran(mc, outs)
    for k, v, s in outs:
        if k != 'return' or s.degraded:
            continue
        conds = mon.get(s)
        xs = {y for t in [v] + [t for t, _ in conds] if isinstance(t, T) for y in t.subs if y.op == 'call' and y.args[0] == 'int'}
        rep.ob('G03', 'signal strength %s' % show(v)[:60])
        if len(xs) != 1:
            continue
        x = xs.pop()
        for n in list(range(0, 32)) + [99]:
            if admits(conds, x, n):
                r = n if v is x else cval(v) if v.op == 'const' else None
                if r is None and v.op in ('const',):
                    rep.bad('G03', 'no strength', f.loc, 'signalStrength gives nothing although the modem reported %d' % n)
                elif r is not None and not isinstance(r, int):
                    continue
                elif r is not None and (r > 0 if n == 99 else r != n):
                    rep.bad('G03', 'strength', f.loc, 'signalStrength gives %d although the modem reported %d%s' % (r, n, ' (unknown)' if n == 99 else ''))


class Conditions(Monitor):
    """tests decided on the path"""
    name = 'conditions'
    init = ()

    def on(self, ev, st):
        if ev.kind == 'branch':
            c = self.get(st)
            if (ev.term, ev.taken) not in c:
                return self.put(st, c + ((ev.term, ev.taken),))
        return st


RULES['G03'] = (check_G03, 'other', TECH)
