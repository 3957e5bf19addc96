"""Shared models and helpers for the rules: public API anchors, command model, entry points."""

from .terms import (T, const, NONE, TRUE, FALSE, is_const, cval, is_k, tup, sym, walk, show)
from .project import Project, Anchor, Class
from .engine import Config, State, Monitor, Exc, Obj
from .machine import Machine


def first(args, env, *names):
    for n in names:
        if n in env and isinstance(env[n], T):
            return env[n]
    return None


def write_params(env):
    return {'data': env.get('data'), 'wait': env.get('waitForResponse', TRUE), 'timeout': env.get('timeout', const(5)),
            'parse': env.get('parseError', TRUE), 'term': env.get('writeTerm', const('\r')), 'expect': env.get('expectedResponseTermSeq', NONE)}


def model_write(resp_len=1, serial_faults=True, timeouts=True, tag='resp'):
    """GsmModem.write(): one complete command/response exchange"""
    def model(eng, func, env, st, node):
        w = write_params(env)
        recv = env.get(func.params[0])
        out = []
        for wv, s0 in eng.branch(eng.truth(w['wait'], st), st):
            s0 = eng.emit(s0, 'cmd', node, recv=recv, wait_now=wv, **w)
            if s0 is None:
                continue
            if serial_faults:
                s1 = eng.emit(s0, 'cmdfail', node, recv=recv, why='serial', **w)
                eng.throw(Exc('serial.SerialException', False, (), None), s1, node)
            if not wv:
                s1 = eng.emit(s0, 'cmdok', node, recv=recv, resp=NONE, **w)
                if s1 is not None:
                    out.append((NONE, s1))
                continue
            if timeouts:
                s1 = eng.emit(s0, 'cmdfail', node, recv=recv, why='timeout', **w)
                if s1 is not None:
                    d, s1 = eng.fresh(s1, eng.site(s1, node, 'tdata'), 'list?:str')
                    s1 = s1.with_fact(T('partial', (d,)), True)
                    eng.throw(new_exc(eng, 'TimeoutException', (d,)), s1, node)
            for pv, s1 in eng.branch(eng.truth(w['parse'], s0), s0):
                if pv:
                    s2 = eng.emit(s1, 'cmdfail', node, recv=recv, why='error', **w)
                    eng.throw(new_exc(eng, 'CommandError', (w['data'],), False), s2, node)
                r, s2 = eng.fresh(s1, eng.site(s1, node, tag), 'list:str')
                s2 = s2.with_fact(T('lt', (T('len', (r,)), const(resp_len))), False)
                s2 = s2.with_fact(T('resp', (r, w['data'] or NONE)), True)
                s2 = eng.emit(s2, 'cmdok', node, recv=recv, resp=r, parsed=pv, **w)
                if s2 is not None:
                    out.append((r, s2))
        return out
    return model


def new_exc(eng, name, args=(), exact=True):
    c = eng.p.cls(name)
    return Exc(c, exact, tuple(args), None)


def model_fresh(typ=None, tag=None):
    def model(eng, func, env, st, node):
        v, st = eng.fresh(st, eng.site(st, node, tag or func.name), typ)
        return [(v, st)]
    return model


def model_none(eng, func, env, st, node):
    return [(NONE, st)]


def recalled(model):
    """the model of a pure function: called again with what it was called with last, it gives the same"""
    def again(eng, func, env, st, node):
        key = tuple(env.get(p) for p in func.params)
        if not all(isinstance(k, T) for k in key):
            return model(eng, func, env, st, node)
        key = T('tuple', key + tuple(content(k, st) for k in key))
        o = st.heap.get(('recall', 0))
        if o is not None and o.items and len(o.items) == 2 and o.items[0] is key:
            return [(o.items[1], st)]
        return [(v, s.with_heap(('recall', 0), Obj('list', None, {'$pin': TRUE}, (key, v)))) for v, s in model(eng, func, env, st, node)]
    return again


def content(t, st):
    o = st.heap.get(t.args) if t.op == 'ref' else None
    if o is None:
        return NONE
    flat = [x for k, v in sorted(o.attrs.items()) if isinstance(v, T) for x in (const(k), v)]
    return T('tuple', tuple(flat) + tuple(x for x in o.items or () if isinstance(x, T)))


def nullable(typ, tag=None):
    def model(eng, func, env, st, node):
        v, s = eng.fresh(st, eng.site(st, node, tag or func.name), typ)
        return [(v, s), (NONE, st)]
    return model


class World(object):
    """one project, cached anchors"""
    def __init__(self, root):
        self.p = Project(root)

    @property
    def modem(self):
        return self.p.cls('GsmModem')

    @property
    def serial(self):
        return self.p.cls('SerialComms')

    def modem_cfg(self, **kw):
        c = Config()
        c.opaque[self.p.method('GsmModem', 'write').qual] = model_write(**kw)
        for n in ('connect', 'close'):
            f = self.p.lookup(self.serial, n)[0]
            if f:
                c.opaque[f.qual] = model_none
        return c

    def pdu(self, c):
        """PDU codec entry points (analysed separately)"""
        def enc(eng, func, env, st, node):
            v, st = eng.fresh(st, eng.site(st, node, 'pdus'), 'list:obj:gsmmodem.pdu.Pdu')
            st = st.with_fact(T('lt', (T('len', (v,)), const(1))), False)
            st = eng.emit(st, 'encoded', node, value=v, env=env)
            return [(v, st)] if st is not None else []

        def dec(eng, func, env, st, node):
            eng.throw(new_exc(eng, 'EncodingError', ()), st, node)
            v, st = eng.fresh(st, eng.site(st, node, 'smsdict'), 'dict')
            st = st.with_fact(T('decoded', (v, first((), env, *func.params))), True)
            return [(v, st)]
        c.opaque[self.p.func('gsmmodem.pdu', 'encodeSmsSubmitPdu').qual] = enc
        c.opaque[self.p.func('gsmmodem.pdu', 'decodeSmsPdu').qual] = dec
        s = self.p.method('Pdu', '__str__')
        c.opaque[s.qual] = model_fresh('str', 'pdutext')
        return c

    def util(self, c):
        """text-matching helpers of the library: nullable results"""
        for n, t in (('lineStartingWith', 'str'), ('lineMatching', 'Match')):
            c.opaque[self.p.func('gsmmodem.util', n).qual] = recalled(nullable(t))
        c.opaque[self.p.func('gsmmodem.util', 'parseTextModeTimeStr').qual] = model_fresh('datetime')
        return c
