"""Commands: errors, retries, initialisation, cached settings."""

import ast

from ..common import *
from ..common import World
from ..engine import Monitor, Config, State, Exc
from ..project import own_nodes, dotted
from ..regexlang import Lang, Const, Comb
from .. import lines, regexlang
from .serial import is_self, self_fields, entry_run, default_env, modem_entries, unnot

D, WT, TM, EXP = sym('data', 'str'), sym('writeTerm', 'str'), sym('timeout', 'int'), sym('expect', 'str?')
PIECES = {
    'OK': Const(['OK']),
    'ERROR': Const(['ERROR']),
    'COMMAND NOT SUPPORT': Const(['COMMAND NOT SUPPORT']),
    '+CME ERROR: <n>': Comb('and', Lang(r'^\+CME ERROR: [0-9]+$'), Comb('not', Lang(r'^\+CME ERROR: 0*(515|14)$'))),
    '+CMS ERROR: <n>': Comb('and', Lang(r'^\+CMS ERROR: [0-9]+$'), Comb('not', Lang(r'^\+CMS ERROR: 0*(515|14)$'))),
    'busy': Lang(r'^\+CME ERROR: 0*(515|14)$'),
    'busy (message service)': Lang(r'^\+CMS ERROR: 0*(515|14)$'),
}


class Cmd(Monitor):
    """one GsmModem.write(): state (conditions on the last line, number of exchanges, retried, slept since the response, pacing field writes)"""
    name = 'cmd1'
    init = ((), 0, None, None, ())

    def __init__(self):
        self.sends = []

    def on(self, ev, st):
        conds, n, retry, slept, pace = self.get(st)
        k = ev.kind
        if k == 'branch' and ev.term.op != 'const':
            if n and retry is None and any(x.op == 'item' or x.op == 'sym' for x in ev.term.subs):
                c = (ev.term, ev.taken)
                if c not in conds:
                    return self.put(st, (conds + (c,), n, retry, slept, pace))
        elif k == 'serialwrite':
            self.sends.append((ev, n))
            if n:
                return self.put(st, (conds, 2, ('again', froz(ev.env), slept), slept, pace))
            return self.put(st, (conds, n + 1, retry, None, pace))
        elif k == 'retry':
            return self.put(st, (conds, n, ('again', froz(ev.env), slept), slept, pace))
        elif k == 'call' and ev.target is None and ev.ext == 'time.sleep' and ev.args:
            return self.put(st, (conds, n, retry, ev.args[0], pace))
        elif k == 'setattr' and is_self(ev.obj):
            return self.put(st, (conds, n, retry, slept, (pace + ((ev.attr, ev.value, retry is not None),))[-6:]))
        return st


def froz(env):
    return tuple(sorted(((k, v) for k, v in env.items() if isinstance(v, T)), key=lambda kv: kv[0]))


def run_cmd(rep, w, wait=True, parse=True, faults=True):
    f = w.p.method('GsmModem', 'write')
    g = w.p.method('SerialComms', 'write')
    c = Config()
    resp = {}

    def sw(eng, func, env, st, node):
        st = eng.emit(st, 'serialwrite', node, env=env)
        if st is None:
            return []
        wt = env.get('waitForResponse', TRUE)
        if is_k(wt, False):
            return [(NONE, st)]
        if mon.get(st)[2] is not None:          # answer to the retry
            eng.throw(new_exc(eng, 'TimeoutException', ()), st, node)
            r, s2 = eng.alloc(st, node, Obj('list', None, {}, (const('OK'),)), 'ok')
            return [(r, s2)]
        r, s2 = eng.fresh(st, 'resp', 'list:str')
        s2 = s2.with_fact(T('lt', (T('len', (r,)), const(1))), False)
        return [(r, s2)]

    def again(eng, func, env, st, node):
        st = eng.emit(st, 'retry', node, env=env)
        if st is None:
            return []
        eng.throw(new_exc(eng, 'CommandError', (D,), False), st, node)
        eng.throw(new_exc(eng, 'TimeoutException', ()), st, node)
        r, s2 = eng.fresh(st, 'retried', 'list:str')
        return [(r, s2)]
    c.opaque[g.qual] = sw
    c.opaque[f.qual] = again
    c.loop_unroll = 3
    mon = Cmd()
    mc = Machine(w.p, [mon], c)
    st = State()
    me, st = mc.new_instance(st, w.modem, 'self')
    env = {f.params[0]: me, 'data': D, 'waitForResponse': const(wait), 'timeout': TM, 'parseError': const(parse), 'writeTerm': WT, 'expectedResponseTermSeq': EXP}
    env = {k: v for k, v in env.items() if k in f.params}
    outs = mc.run(f, env, st)
    rep.ran(mc, outs)
    return mon, mc, f, outs


def last_line(conds):
    """the term of the last response line in the path conditions"""
    for t, _ in conds:
        for x in t.subs:
            if x.op == 'item' and x.args[0].op == 'sym' and x.args[0].args[0].startswith('resp'):
                return x
    return None


def kind_of(k, v, mc, w):
    if k == 'return':
        return 'return'
    p = w.p
    for n in ('CmeError', 'CmsError', 'CommandError', 'TimeoutException'):
        if not isinstance(v.cls, str) and mc.exc_sub(v.cls, p.cls(n)):
            return n
    return v.name


ALLOWED = {'OK': ('return',), 'ERROR': ('CommandError',), 'COMMAND NOT SUPPORT': ('CommandError',), '+CME ERROR: <n>': ('CmeError',), '+CMS ERROR: <n>': ('CmsError',)}


def check_M01(rep, root, tier):
    w = World(root)
    for wait, parse in ((True, True), (True, False), (False, True)):
        mon, mc, f, outs = run_cmd(rep, w, wait, parse)
        rep.check(bool(mon.sends), 'M01', 'write: nothing sent', f.loc, 'the command is never sent')
        for ev, n in mon.sends:
            env = ev.env
            sent = env.get('data')
            want = mc.mkstr([D, WT])
            rep.ob('M01', 'sent data (wait=%s parse=%s)' % (wait, parse))
            if isinstance(sent, T) and sent is not want and sent.op in ('str', 'sym', 'const', 'm', 'slice', 'strcat'):
                rep.bad('M01', 'write: other data sent', ev.where, 'what is sent is not the command followed by its terminator (%s)' % show(sent)[:80])
            wt = env.get('waitForResponse', TRUE)
            if wt.op == 'const' and bool(cval(wt)) != wait:
                rep.bad('M01', 'write: wait flag changed', ev.where, 'the caller\'s choice whether to wait for a response is not honoured')
            for nm, s in (('timeout', TM), ('expectedResponseTermSeq', EXP)):
                x = env.get(nm)
                if wait and isinstance(x, T) and s not in x.leaves:
                    d = mc.decide(T('isnone', (s,)), State())
                    if nm == 'expectedResponseTermSeq' and x.op == 'const':
                        rep.bad('M01', 'write: terminator not passed on', ev.where, 'the expected terminator is not passed on')
                    elif nm == 'timeout' and x.op == 'const':
                        rep.bad('M01', 'write: timeout not passed on', ev.where, 'the timeout is not passed on')
        for k, v, s in outs:
            conds, n, retry, slept, pace = mon.get(s)
            kd = kind_of(k, v, mc, w)
            if retry is not None:
                continue
            nm = 'wait=%s parse=%s: %s' % (wait, parse, kd)
            rep.ob('M01', nm)
            if k == 'raise' and kd in ('IndexError', 'ValueError', 'TypeError', 'AttributeError'):
                continue
            if not wait:
                if k == 'raise':
                    rep.bad('M01', 'write: error without waiting (%s)' % kd, f.loc, 'an error is raised although no response was awaited')
                elif not is_k(v, None):
                    rep.bad('M01', 'write: response without waiting', f.loc, 'something is returned although no response was awaited')
                continue
            if not parse:
                if k == 'raise' and kd in ('CmeError', 'CmsError', 'CommandError'):
                    rep.bad('M01', 'write: error raised although not requested', f.loc, '%s is raised although the caller asked for the plain response' % kd)
                if k == 'return' and is_k(v, None):
                    rep.bad('M01', 'write: response lost', f.loc, 'the response is not returned to the caller')
                continue
            if k == 'return' and (is_k(v, None) or v.op in ('item', 'slice')):
                rep.bad('M01', 'write: response lost', f.loc, 'the response is not returned (in full) to the caller')
            line = last_line(conds)
            if line is not None and not is_k(line.args[1], -1):
                rep.bad('M01', 'write: status taken from another line', f.loc, 'the status of the command is not taken from the last line of its response')
                continue
            ls, full = lines.lang(conds, line) if line is not None else ([], True)
            if not full:
                rep.note('a condition on the status line was not understood: %s' % nm)
            for pn, piece in PIECES.items():
                if pn not in ALLOWED or kd in ALLOWED[pn]:
                    continue
                if not full:
                    continue
                word = lines.meets(ls, piece)
                if word is not None:
                    rep.bad('M01', 'write: %s leads to %s' % (pn, kd), f.loc, 'the final line %r makes the command end with %s instead of %s' % (word, kd, ALLOWED[pn][0]))
            if k == 'raise' and kd in ('CmeError', 'CmsError', 'CommandError'):
                a = [x for x in v.args if isinstance(x, T)]
                if a and D not in a[0].leaves and a[0].op != 'sym':
                    rep.bad('M01', 'write: %s without the command' % kd, f.loc, 'the error does not name the command that failed')
                if kd in ('CmeError', 'CmsError') and len(a) > 1:
                    g = lines.group_of(a[1])
                    if g is not None and line is not None:
                        if not digits_only(g):
                            rep.bad('M01', 'write: %s with a wrong code' % kd, f.loc, 'the error code is not the number in the error line')
                    if a[1].op == 'const' and line is not None and full:
                        c = cval(a[1])
                        word = lines.meets(ls + [Comb('not', Lang(r'^\+CM[ES] ERROR: 0*%s$' % c))], Lang(r'^\+CM[ES] ERROR: [0-9]+$'))
                        if word is not None:
                            rep.bad('M01', 'write: %s with a wrong code' % kd, f.loc, 'the line %r is reported as error %s' % (word, c))


def digits_only(g):
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    pat = lines.match_of(g[0])[1]

    def find(items):
        for op, av in items:
            o = str(op)
            if o == 'SUBPATTERN':
                if av[0] == g[1]:
                    return av[3]
                r = find(av[3])
                if r is not None:
                    return r
            elif 'REPEAT' in o:
                r = find(av[2])
                if r is not None:
                    return r
            elif o == 'BRANCH':
                for alt in av[1]:
                    r = find(alt)
                    if r is not None:
                        return r
        return None
    sub = find(sp.parse(pat))
    if sub is None:
        return True
    s = str(sub)
    if 'LITERAL' in s:
        return False
    reps = [av for op, av in sub if 'REPEAT' in str(op)]
    return bool(reps) and str(reps[0][1]) == 'MAXREPEAT'


def check_M02(rep, root, tier):
    w = World(root)
    mon, mc, f, outs = run_cmd(rep, w)
    seen = 0
    for k, v, s in outs:
        conds, n, retry, slept, pace = mon.get(s)
        line = last_line(conds)
        ls, full = lines.lang(conds, line) if line is not None else ([], True)
        kd = kind_of(k, v, mc, w)
        if retry is None:
            if k == 'raise' and kd in ('IndexError', 'ValueError'):
                continue
            rep.ob('M02', 'not retried: %s' % kd)
            if full:
                word = lines.meets(ls, PIECES['busy'])
                if word is not None:
                    rep.bad('M02', 'write: busy not retried (%s)' % kd, f.loc, 'after %r (busy) the command is not retried but ends with %s' % (word, kd))
            continue
        seen += 1
        rep.ob('M02', 'retried: %s' % kd)
        if full:
            for pn, piece in PIECES.items():
                if pn.startswith('busy'):
                    continue
                word = lines.meets(ls, piece)
                if word is not None:
                    rep.bad('M02', 'write: retried after ' + pn, f.loc, 'the command is sent again after %r, which is not a busy answer' % word)
        _, env, slp = retry
        env = dict(env)
        want = {'data': D, 'waitForResponse': TRUE, 'timeout': TM, 'parseError': TRUE, 'writeTerm': WT, 'expectedResponseTermSeq': EXP}
        for p, x in want.items():
            y = env.get(p)
            if p in f.params and isinstance(y, T) and y is not x and not (p == 'data' and y is mc.mkstr([D, WT])):
                if y.op == 'const' or y.op == 'str' or y in want.values():
                    rep.bad('M02', 'write: retry with another ' + p, f.loc, 'the busy command is retried with a different %s (%s)' % (p, show(y)[:60]))
        if slp is None or (slp.op == 'const' and not cval(slp) > 0):
            rep.bad('M02', 'write: retry without waiting', f.loc, 'the busy command is retried at once, without waiting')
        if k == 'return' and v.op == 'sym' and v.args[0].startswith('resp') and n < 2:
            rep.bad('M02', 'write: busy answer returned', f.loc, 'the busy answer is returned instead of the result of the retry')
        if k == 'return' and is_k(v, None):
            rep.bad('M02', 'write: result of the retry lost', f.loc, 'the result of the retried command is not returned')
        if k == 'raise' and kd not in ('CommandError', 'TimeoutException', 'CmeError', 'CmsError', 'serial.SerialException', 'SerialException'):
            continue
        # pacing: what the command sleeps on grows while busy and is reset afterwards
        fields = {a for a, x, after in pace}
        for a in fields:
            vals = [(x, after) for b, x, after in pace if b == a]
            grown = [x for x, after in vals if not after]
            if grown and not [x for x, after in vals if after]:
                rep.bad('M02', 'write: slowdown kept (%s)' % (k if k == 'return' else 'error'), f.loc, 'the pause after every command, raised while the modem was busy, stays in effect after the retry ended (%s)' % kd)
            if grown and grown[-1].op == 'const' and not cval(grown[-1]):
                pass
            rs = [x for x, after in vals if after]
            if rs and rs[-1].op == 'const' and isinstance(cval(rs[-1]), (int, float)) and cval(rs[-1]) > 1:
                rep.bad('M02', 'write: slowdown too long', f.loc, 'after a busy answer every command is slowed down by %s s' % cval(rs[-1]))
            if rs and rs[-1].op == 'const' and isinstance(cval(rs[-1]), (int, float)) and cval(rs[-1]) < 0:
                rep.bad('M02', 'write: negative pause', f.loc, 'a negative pause is set, which cannot be slept')
    rep.check(seen > 0, 'M02', 'write: busy never retried', f.loc, 'no path retries a command after a busy answer')


SPECIAL = {('CmeError', 11): 'PinRequiredError', ('CmeError', 16): 'IncorrectPinError', ('CmeError', 12): 'PukRequiredError', ('CmsError', 330): 'SmscNumberUnknownError'}
PARENTS = [('TimeoutException', 'GsmModemException'), ('InvalidStateException', 'GsmModemException'), ('InterruptedException', 'InvalidStateException'),
           ('CommandError', 'GsmModemException'), ('CmeError', 'CommandError'), ('CmsError', 'CommandError'), ('SecurityException', 'CmeError'),
           ('PinRequiredError', 'SecurityException'), ('IncorrectPinError', 'SecurityException'), ('PukRequiredError', 'SecurityException'),
           ('SmscNumberUnknownError', 'CmsError'), ('EncodingError', 'GsmModemException'), ('GsmModemException', 'Exception')]
APART = [('TimeoutException', 'CommandError'), ('CmeError', 'CmsError'), ('CmsError', 'CmeError'), ('EncodingError', 'CommandError'), ('CommandError', 'InvalidStateException'),
         ('PinRequiredError', 'IncorrectPinError'), ('IncorrectPinError', 'PinRequiredError'), ('PukRequiredError', 'PinRequiredError')]


def check_M03(rep, root, tier):
    w = World(root)
    mc = Machine(w.p, [], Config())
    for a, b in PARENTS:
        ca = w.p.cls(a)
        rep.ob('M03', '%s is a %s' % (a, b))
        if not mc.exc_sub(ca, w.p.cls(b) if b != 'Exception' else 'Exception'):
            rep.bad('M03', '%s is not a %s' % (a, b), ca.mod.relpath, '%s is no longer caught by handlers of %s' % (a, b))
    for a, b in APART:
        rep.ob('M03', '%s is not a %s' % (a, b))
        if mc.exc_sub(w.p.cls(a), w.p.cls(b)):
            rep.bad('M03', '%s is a %s' % (a, b), w.p.cls(a).mod.relpath, '%s is caught by handlers of %s' % (a, b))
    # construction with a code
    for base in ('CmeError', 'CmsError'):
        cls = w.p.cls(base)
        code = sym('code', 'int')
        new = w.p.lookup(cls, '__new__')[0]
        mon = Made()
        m = Machine(w.p, [mon], Config())
        if new is None:
            for (b, n), special in SPECIAL.items():
                if b == base:
                    rep.bad('M03', '%s(%d) is not a %s' % (base, n, special), cls.mod.relpath, 'error code %d does not become a %s' % (n, special))
            continue
        outs = build_exc(m, w, cls, code)
        rep.ran(m, outs)
        for v, conds in outs:
            cl, args = v
            for n, special in [(n, sp) for (b, n), sp in SPECIAL.items() if b == base]:
                poss = possible(conds, code, n)
                rep.ob('M03', '%s with code %d' % (base, n))
                if poss is True and cl != special:
                    rep.bad('M03', '%s(%d) is not a %s' % (base, n, special), new.loc, 'error code %d becomes a %s instead of a %s' % (n, cl, special))
            if cl in SPECIAL.values():
                own = [n for (b, n), sp in SPECIAL.items() if sp == cl][0]
                only = only_value(conds, code)
                if only is not None and only != own:
                    rep.bad('M03', '%s for code %s' % (cl, only), new.loc, 'error code %s becomes a %s' % (only, cl))
                if only is None:
                    # reached for codes other than its own
                    rep.bad('M03', '%s for any code' % cl, new.loc, 'error codes other than %d become a %s' % (own, cl))
    # attributes
    for cn, typ, dflt in (('CmeError', 'CME', None), ('CmsError', 'CMS', None), ('PinRequiredError', 'CME', 11), ('IncorrectPinError', 'CME', 16), ('PukRequiredError', 'CME', 12), ('SmscNumberUnknownError', 'CMS', 330)):
        cls = w.p.cls(cn)
        init = w.p.lookup(cls, '__init__')[0]
        if init is None:
            continue
        m = Machine(w.p, [], Config())
        st = State()
        me, st = m.new_instance(st, cls, 'self')
        cmd, code = sym('command', 'str'), sym('code', 'int')
        env, problem = m.bind_args(init, [me, cmd] + ([code] if dflt is None else []), {}, st, init.node)
        if problem:
            rep.bad('M03', '%s cannot be constructed' % cn, init.loc, '%s cannot be constructed from a command%s' % (cn, ' and a code' if dflt is None else ''))
            continue
        outs = m.run(init, env, st)
        rep.ran(m, outs)
        for k, v, s in outs:
            if k != 'return':
                continue
            o = s.heap[me.args].attrs
            want = {'command': cmd, 'type': const(typ), 'code': code if dflt is None else const(dflt)}
            for a, x in want.items():
                rep.ob('M03', '%s.%s' % (cn, a))
                y = o.get(a)
                if y is None:
                    rep.bad('M03', '%s.%s not set' % (cn, a), init.loc, '%s does not carry its %s' % (cn, a))
                elif y is not x and (y.op == 'const' or y in want.values()):
                    rep.bad('M03', '%s.%s is %s' % (cn, a, show(y)), init.loc, '%s carries a wrong %s: %s instead of %s' % (cn, a, show(y), show(x)))
    t = w.p.cls('TimeoutException')
    init = w.p.lookup(t, '__init__')[0]
    if init is not None:
        m = Machine(w.p, [], Config())
        st = State()
        me, st = m.new_instance(st, t, 'self')
        d = sym('data', 'list?:str')
        env, problem = m.bind_args(init, [me, d], {}, st, init.node)
        for k, v, s in (m.run(init, env, st) if not problem else []):
            if k == 'return':
                rep.ob('M03', 'TimeoutException.data')
                y = s.heap[me.args].attrs.get('data')
                if y is None or (y is not d and y.op == 'const'):
                    rep.bad('M03', 'TimeoutException.data', init.loc, 'the partial response is not available from the TimeoutException')
    else:
        rep.bad('M03', 'TimeoutException.data', t.mod.relpath, 'the partial response is not available from the TimeoutException')


class Made(Monitor):
    name = 'made'
    init = ()

    def on(self, ev, st):
        if ev.kind == 'branch' and ev.term.op != 'const':
            return self.put(st, self.get(st) + ((ev.term, ev.taken),))
        return st


def build_exc(m, w, cls, code):
    """construct cls(command, code): [((class name, args), conditions)]"""
    st = State()
    fn = w.p.lookup(cls, '__new__')[0]
    cmd = sym('command', 'str')
    env, problem = m.bind_args(fn, [T('cls', (cls.qual,)), cmd, code], {}, st, fn.node)
    out = []
    for k, v, s in m.run(fn, env, st):
        if k == 'return' and v.op == 'exc':
            out.append(((v.args[0].split('.')[-1], v.args[2]), m.monitors[0].get(s)))
    return out


def possible(conds, code, n):
    """is code == n compatible with the conditions: True, False or None (not understood)"""
    for t, taken in conds:
        if t.op == 'or' and not taken:
            r = possible(tuple((x, False) for x in t.args), code, n)
            if r is not True:
                return r
            continue
        if t.op == 'or' and taken:
            rs = [possible(((x, True),), code, n) for x in t.args]
            if True in rs:
                continue
            return None if None in rs else False
        while t.op == 'not':
            t, taken = t.args[0], not taken
        if code not in t.leaves:
            continue
        if t.op == 'eq' and code in t.args:
            o = [x for x in t.args if x is not code]
            if len(o) == 1 and o[0].op == 'const':
                if (cval(o[0]) == n) != taken:
                    return False
                continue
        if t.op == 'in' and t.args[0] is code:
            c = lines.consts(t.args[1])
            if c is not None:
                if (n in c) != taken:
                    return False
                continue
        return None
    return True


def only_value(conds, code):
    for t, taken in conds:
        while t.op == 'not':
            t, taken = t.args[0], not taken
        if taken and t.op == 'eq' and code in t.args:
            o = [x for x in t.args if x is not code]
            if len(o) == 1 and o[0].op == 'const':
                return cval(o[0])
        if code in t.leaves and t.op not in ('eq',):
            return 'unknown' if False else -1 if False else None
    return None


TECH = 'path-sensitive dataflow over the syntax tree'
RULES = {
    'M01': (check_M01, 'other', TECH + '; the path conditions on the final line are compared with the specified result codes as regular languages'),
    'M02': (check_M02, 'other', TECH + '; the path conditions on the final line are compared with the specified result codes as regular languages'),
    'M03': (check_M03, 'other', 'class hierarchy and constructor dataflow analysis'),
}
