"""The PDU codec: where every bit of an encoded message and every character of a decoded one comes from."""

import ast
import itertools
import multiprocessing
import os
import sys
import time

from .common import *
from .codec import Codec, codec_config, char, value, truthval, domain, symbols, cclass, num, Unknown, BASIC, EXTENSION, FINITE, RANGE
from .engine import State, Obj, Config
from .machine import Machine
PDU = 'gsmmodem.pdu'
COPYC = 137


# ------------------------------------------------------------------- expectations
FUN = {'id': lambda v: num(v), 'gsm': lambda v: BASIC.index(v), 'ext': lambda v: EXTENSION[v], 'dig': lambda v: int(v, 16), 'ord': ord,
       'hi': lambda v: 0xD800 + ((ord(v) - 0x10000) >> 10), 'lo': lambda v: 0xDC00 + ((ord(v) - 0x10000) & 0x3FF),
       'char': lambda v: v, 'basic': lambda v: BASIC[v], 'extchar': lambda v: XCHAR[v], 'chr': chr, 'digit': lambda v: v}
XCHAR = {v: k for k, v in EXTENSION.items()}


def E(x, f):
    """the value f(x) of a symbol (or a constant)"""
    return ('E', x, f)


def ev(e, env):
    return FUN[e[2]](env[e[1]]) if isinstance(e, tuple) and e and e[0] == 'E' else e


def ebits(e, n):
    """the n lowest bits of an expected value"""
    if isinstance(e, int):
        return [(e >> i) & 1 for i in range(n)]
    return [(e, i) for i in range(n)]


def cbits(v, n):
    return [(v >> i) & 1 for i in range(n)]


# ------------------------------------------------------------------------ outcomes
class Out(object):
    def __init__(self, kind, val, st, doms, sure):
        self.kind, self.val, self.st, self.doms, self.sure = kind, val, st, doms, sure

    @property
    def raised(self):
        return self.val.name if self.kind == 'raise' else None


_dom = {}


def dom_of(x):
    k = x.args[1]
    if k not in _dom:
        _dom[k] = list(domain(x))
    return _dom[k]


def outcomes(outs, syms):
    """the feasible exits of an analysis, with the values the symbols can have there"""
    res = []
    for k, v, s in outs:
        sure = not s.degraded
        doms = {x: dom_of(x) for x in syms}
        for f, val in s.facts.items():
            if f.op == 'maybe':
                sure = False
                continue
            if f.op in ('partial', 'resp', 'decoded'):
                continue
            fs = symbols(f)
            if not fs:
                continue
            if len(fs) == 1 and fs[0] in doms and not any(x.op == 'ref' for x in f.leaves):
                try:
                    x = fs[0]
                    d = [a for a in doms[x] if truthval(f, {x: a}) == val]
                    if len(d) != len(doms[x]):
                        doms[x] = d
                except Unknown:
                    sure = False
            elif all(x in doms for x in fs):
                if not joint(f, val, fs, doms):
                    doms[fs[0]] = []
                sure = False
            elif any(x in doms for x in fs) or f.op in ('eq', 'lt', 'in'):
                sure = False
        if all(doms[x] for x in doms):
            res.append(Out(k, v, s, doms, sure))
    return res


def joint(f, val, fs, doms):
    """can a test on several values have this result"""
    n = 1
    for x in fs:
        n *= len(doms[x])
    if n > 20000 or n == 0:
        return n > 0
    try:
        return any(truthval(f, dict(zip(fs, c))) == val for c in itertools.product(*[doms[x] for x in fs]))
    except Unknown:
        return True


class Sheet(object):
    """comparison of actual terms with expected values on one exit"""
    def __init__(self, eng, out):
        self.eng, self.out = eng, out
        self.cols = {}

    def column(self, t, x):
        key = (t, x)
        if key not in self.cols:
            try:
                self.cols[key] = [num(value(t, {x: v})) for v in self.out.doms[x]]
            except (Unknown, ValueError, TypeError):
                self.cols[key] = None
        return self.cols[key]

    def ecolumn(self, e):
        key = e
        if key not in self.cols:
            f = FUN[e[2]]
            self.cols[key] = [f(v) for v in self.out.doms[e[1]]]
        return self.cols[key]

    def bits(self, t):
        if isinstance(t, int):
            return cbits(t, 8)
        if t.op == 'const':
            v = cval(t)
            if isinstance(v, bool) or not isinstance(v, int) or v < 0:
                return None
            return cbits(v, max(8, v.bit_length()))
        return self.eng.tobits(t, self.out.st)

    def bit(self, a, e):
        """same bit? None: same; False: undecidable; text: difference"""
        if a in (0, 1) and e in (0, 1):
            return None if a == e else 'is %d instead of %d' % (a, e)
        if isinstance(a, T) and not isinstance(e, int) and a.args[0] is e[0][1] and e[0][2] == 'id' and a.args[1] == e[1]:
            return None
        if isinstance(a, T):
            fs = symbols(a)
            if any(x not in self.out.doms for x in fs) or any(x.op == 'ref' for x in a.leaves):
                return False
            if len(fs) > 1:
                return False
            if not fs:
                return False
            ax = fs[0]
            col = self.column(a.args[0], ax)
            if col is None:
                return False
            av = [(v >> a.args[1]) & 1 for v in col]
        else:
            ax, av = None, [a]
        if isinstance(e, int):
            ex, evs = None, [e]
        else:
            ex, evs = e[0][1], [(v >> e[1]) & 1 for v in self.ecolumn(e[0])]
        if ax is not None and ax is ex:
            for v, p, q in zip(self.out.doms[ax], av, evs):
                if p != q:
                    return 'is %d instead of %d for %s' % (p, q, word(v))
            return None
        if set(av) == set(evs) and len(set(av)) == 1:
            return None
        if ax is not None and ex is not None:
            return 'comes from another part of the input'
        return 'is %s instead of %s' % ('fixed' if ax is None else 'variable', 'fixed' if ex is None else 'variable')

    def octet(self, a, exp):
        """exp: eight expected bits"""
        bs = self.bits(a)
        if bs is None:
            return self.by_value(a, exp)
        unk = False
        for i in range(max(8, len(bs), len(exp))):
            r = self.bit(bs[i] if i < len(bs) else 0, exp[i] if i < len(exp) else 0)
            if r is False:
                unk = True
            elif r is not None:
                return 'bit %d %s' % (i, r)
        return False if unk else None

    def by_value(self, a, exp):
        if not isinstance(a, T) or any(x.op == 'ref' for x in a.leaves):
            return False
        fs = set(symbols(a)) | {e[0][1] for e in exp if not isinstance(e, int)}
        if any(x not in self.out.doms for x in fs):
            return False
        fs = sorted(fs, key=repr)
        n = 1
        for x in fs:
            n *= len(self.out.doms[x])
        if n > 70000:
            return False
        try:
            for c in itertools.product(*[self.out.doms[x] for x in fs]):
                env = dict(zip(fs, c))
                v = num(value(a, env))
                for i in range(max(8, v.bit_length())):
                    e = exp[i] if i < len(exp) else 0
                    if not isinstance(e, int):
                        e = (ev(e[0], env) >> e[1]) & 1
                    if (v >> i) & 1 != e:
                        return 'is %d for %s' % (v, ', '.join(word(q) for q in c))
        except (Unknown, TypeError):
            return False
        return None

    def val(self, a, e):
        """one value (number or character) against the expected one"""
        if not isinstance(a, T):
            return False
        fs = set(symbols(a))
        if any(x.op == 'ref' for x in a.leaves) or any(x not in self.out.doms for x in fs):
            return False
        ex = e[1] if isinstance(e, tuple) and e[0] == 'E' else None
        if not fs:
            try:
                v = value(a, {})
            except Unknown:
                return False
            if ex is None:
                return None if v == e and type(v) == type(e) else 'is %s instead of %s' % (word(v), word(e))
            if all(q == v for q in self.ecolumn(e)):
                return None
            return 'is always %s' % word(v)
        if len(fs) == 1 and (ex is None or ex in fs):
            x = fs.pop()
            try:
                for v in self.out.doms[x]:
                    env = {x: v}
                    p, q = value(a, env), ev(e, env)
                    if p != q:
                        return 'is %s instead of %s' % (word(p), word(q))
            except Unknown:
                return False
            return None
        fs = sorted(fs | ({ex} if ex is not None else set()), key=repr)
        n = 1
        for x in fs:
            n *= len(self.out.doms[x])
        if n > 70000:
            # two octets: the values at the ends and between
            doms = [pick(self.out.doms[x]) for x in fs]
        else:
            doms = [self.out.doms[x] for x in fs]
        try:
            for c in itertools.product(*doms):
                env = dict(zip(fs, c))
                p, q = value(a, env), ev(e, env)
                if p != q:
                    return 'is %s instead of %s' % (word(p), word(q))
        except Unknown:
            return False
        return None

    def text(self, t, exp):
        """a decoded text against the list of expected characters"""
        xs = self.characters(t)
        if xs is None:
            return False
        if len(xs) != len(exp):
            return 'has %d characters instead of %d' % (len(xs), len(exp))
        unk = False
        for i, (a, e) in enumerate(zip(xs, exp)):
            r = self.val(a, e)
            if r is False:
                unk = True
            elif r is not None:
                return 'character %d %s' % (i, r)
        return False if unk else None

    def characters(self, t):
        if t.op == 'recode':
            xs = self.eng.chars(t.args[0])
            if xs is None:
                return None
            out = []
            run = []
            for x in xs + [None]:
                if x is not None and x.op == 'const' and '\ud800' <= cval(x) <= '\udfff':
                    run.append(x)
                    continue
                if run:
                    try:
                        s = value(T('recode', (const(''.join(cval(c) for c in run)),) + t.args[1:]), {})
                    except Unknown:
                        return None
                    out += [const(c) for c in s]
                    run = []
                if x is not None:
                    out.append(T('recode', (x,) + t.args[1:]))
            return out
        return self.eng.chars(t)


def pick(d):
    d = list(d)
    if len(d) <= 40:
        return d
    return sorted(set([d[0], d[1], d[-1], d[-2]] + d[::max(1, len(d) // 24)]))


def word(v):
    if isinstance(v, str):
        return ascii(v)
    return '0x%02X' % v if isinstance(v, int) and not isinstance(v, bool) else str(v)


# --------------------------------------------------------------------- one analysis
class Lab(object):
    """runs the functions of the codec on templates"""
    def __init__(self, rep, w):
        self.rep, self.w = rep, w
        self.eng = Codec(w.p, [], codec_config())
        self.eng.max_steps = 250000
        self.n = 0
        self.unknown = 0

    def func(self, name):
        return self.w.p.func(PDU, name)

    def call(self, name, syms, st=None, fn=None, args=None, **kw):
        kw = dict(kw, **(args or {}))
        f = fn or self.func(name)
        env = {}
        st = st if st is not None else State()
        a = f.node.args
        ps = [x.arg for x in a.args]
        dflt = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                env[p] = kw.pop(p)
            elif p in dflt:
                r = self.eng.fold(dflt[p], f.mod) if hasattr(self.eng, 'fold') else None
                env[p] = r if isinstance(r, T) else const(dflt[p].value) if isinstance(dflt[p], ast.Constant) else sym('arg:' + p, None)
            else:
                env[p] = sym('arg:' + p, None)
        self.eng.steps = 0
        outs = self.eng.run(f, env, st)
        self.n += 1
        self.rep.ran(self.eng, outs)
        return outcomes(outs, syms)

    def positional(self, name, args, syms, st=None, **kw):
        """call with positional arguments (parameter names of the callee do not matter)"""
        f = self.func(name)
        ps = [x.arg for x in f.node.args.args]
        return self.call(name, syms, st, **dict(dict(zip(ps, args)), **kw))

    def octets(self, xs, st, kind='bytearray', name='input'):
        return T('ref', (name, 0)), st.with_heap((name, 0), Obj(kind, None, {}, tuple(const(x) if isinstance(x, int) else x for x in xs)))

    def undecided(self, what):
        self.unknown += 1
        self.rep.note('undecided: ' + what)


# ------------------------------------------------------------------- SUBMIT: layout
def septets_of(chars):
    """expected septets of a text: lists of 7 bits, and the positions where a character begins"""
    out, starts = [], set()
    for c in chars:
        starts.add(len(out))
        if isinstance(c, T):
            k = cclass(c)
            if k == 'e':
                out += [cbits(0x1B, 7), ebits(E(c, 'ext'), 7)]
            else:
                out.append(ebits(E(c, 'gsm'), 7))
        elif c in EXTENSION:
            out += [cbits(0x1B, 7), cbits(EXTENSION[c], 7)]
        else:
            out.append(cbits(BASIC.index(c), 7))
    return out, starts


def ucs2_of(chars):
    """expected octets (8 bits each) of a text in UCS2, and the positions where a character begins"""
    out, starts = [], set()
    for c in chars:
        starts.add(len(out))
        if isinstance(c, T):
            fs = ('hi', 'lo') if cclass(c) == 's' else ('ord',)
            for f in fs:
                b = ebits(E(c, f), 16)
                out += [b[8:], b[:8]]
        else:
            out += [cbits(x, 8) for x in c.encode('utf-16-be', 'surrogatepass')]
    return out, starts


def in_gsm(c):
    if isinstance(c, T):
        return cclass(c) in ('b', 'e', 'f', 'd', 'l')
    return c in EXTENSION or c in BASIC and c != '\x1b'


def pack(septets, fill=0):
    """expected octets of packed septets"""
    bits = [0] * fill + [b for s in septets for b in s]
    bits += [None] * (-len(bits) % 8)
    return [bits[i:i + 8] for i in range(0, len(bits), 8)]


def semi(digits):
    """expected octets of swapped digits"""
    ns = [ebits(E(d, 'dig'), 4) if isinstance(d, T) else cbits(int(d, 16), 4) for d in digits]
    if len(ns) % 2:
        ns.append(cbits(15, 4))
    return [ns[i] + ns[i + 1] for i in range(0, len(ns), 2)]


class Number(object):
    """a telephone number or name: kind 'intl', 'local' or 'name'"""
    def __init__(self, kind, chars):
        self.kind, self.chars = kind, list(chars)

    def term(self, eng):
        xs = ([const('+')] if self.kind == 'intl' else []) + [x if isinstance(x, T) else const(x) for x in self.chars]
        return eng.mkstr(xs) if xs else const('')

    def syms(self):
        return [x for x in self.chars if isinstance(x, T)]

    def field(self, smsc=False):
        """expected address field: list of octets"""
        if self.kind == 'name':
            ss = septets_of(self.chars)[0]
            val = pack(ss)
            n = (len(ss) * 7 + 3) // 4
            toa = cbits(0xD0, 8)
        else:
            val = semi(self.chars)
            n = len(val) + 1 if smsc else len(self.chars)
            toa = cbits(0x91, 8) if self.kind == 'intl' else [1, 0, 0, 0, None, None, None, 1]
        return [cbits(n, 8), toa] + val

    def __str__(self):
        return {'intl': 'international number of %d digits', 'local': 'local number of %d digits', 'name': 'name of %d characters'}[self.kind] % len(self.chars)


def digits(name, n):
    return [char('%s%d' % (name, i), 'd') for i in range(n)]


class Problem(object):
    def __init__(self, aspect, what, msg):
        self.aspect, self.what, self.msg = aspect, what, msg


def pdu_items(lab, out):
    """[(octets, tpdu length)] of a list of PDUs, or None"""
    o = out.st.heap.get(out.val.args) if isinstance(out.val, T) and out.val.op == 'ref' else None
    if o is None or o.items is None or any(x.op != 'ref' for x in o.items):
        return None
    res = []
    for p in o.items:
        po = out.st.heap.get(p.args)
        if po is None:
            return None
        d = po.attrs.get('data')
        do = out.st.heap.get(d.args) if d is not None and d.op == 'ref' else None
        if do is None or do.items is None or any(x.op == '*' for x in do.items):
            return None
        res.append((list(do.items), po.attrs.get('tpduLength')))
    return res


def submit(lab, number, text, opts=None, ref=0, validity=None, vp=(), smsc=None, st=None, flags=(True, False, False)):
    """analyse the encoding of one message template -> (problems, undecided)"""
    eng = lab.eng
    report, reject, flash = flags
    syms = number.syms() + [c for c in text if isinstance(c, T)] + (smsc.syms() if smsc else []) + ([ref] if isinstance(ref, T) else []) + [x for x in (opts or ())]
    t = eng.mkstr([c if isinstance(c, T) else const(c) for c in text]) if text else const('')
    st = st or State()
    if validity is not None and validity.op == 'absdt':
        ds = validity.args[1:]
        syms = syms + [x for x in ds if isinstance(x, T)]
        ns = [eng.two(ds[i], ds[i + 1], st) for i in range(0, 12, 2)]
        ns[0] = eng.binop('+', ns[0], const(2000), st)
        validity = T('dt', (T('td', (validity.args[0],)),) + tuple(ns))
    outs = lab.call('encodeSmsSubmitPdu', syms, st, number=number.term(eng), text=t, reference=ref if isinstance(ref, T) else const(ref), validity=validity if validity is not None else NONE,
                    smsc=smsc.term(eng) if smsc else NONE, requestStatusReport=TRUE if report else FALSE, rejectDuplicates=TRUE if reject else FALSE, sendFlash=TRUE if flash else FALSE)
    probs, unk = [], []
    for out in outs:
        ps, us = submit_exit(lab, out, number, text, ref, vp, smsc, flags)
        if out.sure:
            probs += ps
            unk += us
        else:
            unk.append('uncertain path')
    if not outs:
        unk.append('no exit found')
    return probs, unk


def submit_exit(lab, out, number, text, ref, vp, smsc, flags):
    report, reject, flash = flags
    if out.kind == 'raise':
        return [Problem('raise', 'exception %s' % out.raised, 'encoding raises %s' % out.raised)], []
    pdus = pdu_items(lab, out)
    if pdus is None:
        return [], ['result of unknown shape']
    sh = Sheet(lab.eng, out)
    probs, unk = [], []

    def same(a, e, aspect, what):
        e2 = [x for x in e]
        if None in e2:
            bs = sh.bits(a)
            if bs is None:
                unk.append(what)
                return
            bs = list(bs) + [0] * 8
            e2 = [bs[i] if x is None else x for i, x in enumerate(e2)]
            for i, x in enumerate(e):
                if x is not None:
                    r = sh.bit(bs[i], x)
                    if r is False:
                        unk.append(what)
                    elif r is not None:
                        probs.append(Problem(aspect, what, '%s: bit %d %s' % (what, i, r)))
                        return
            return
        r = sh.octet(a, e2)
        if r is False:
            unk.append(what)
        elif r is not None:
            probs.append(Problem(aspect, what, '%s: %s' % (what, r)))

    gsm = all(in_gsm(c) for c in text)
    units, starts = septets_of(text) if gsm else ucs2_of(text)
    limit = 160 if gsm else 140
    parts = len(pdus)
    one = len(units) <= limit
    if one and parts != 1:
        return [Problem('concat', 'split of a short message', 'a message that fits into one PDU becomes %d' % parts)], []
    if not one and parts < 2:
        return [Problem('concat', 'long message in one PDU', 'a message of %d %s becomes one PDU' % (len(units), 'septets' if gsm else 'octets'))], []
    got = []
    cuts = []
    refs = []
    for n, (octs, tlen) in enumerate(pdus):
        k = 0

        def take():
            nonlocal k
            k += 1
            return octs[k - 1] if k <= len(octs) else None
        head = []
        if smsc:
            head += [('smsc', 'SMSC field', x) for x in smsc.field(True)]
        else:
            head += [('smsc', 'SMSC field', cbits(0, 8))]
        slen = len(head)
        fo = 0x01 | (0x20 if report else 0) | (0x04 if reject else 0) | (0 if not vp else 0x10 if len(vp) == 1 else 0x18) | (0 if one else 0x40)
        head.append(('flags', 'first octet', cbits(fo, 8)))
        head.append(('reference', 'message reference', ebits(E(ref, 'id') if isinstance(ref, T) else ref, 8)))
        head += [('address', 'destination address', x) for x in number.field()]
        head.append(('layout', 'protocol identifier', cbits(0, 8)))
        head.append(('dcs', 'data coding scheme', cbits((0x00 if gsm else 0x08) | (0x10 if flash else 0), 8)))
        head += [('validity', 'validity period', x) for x in vp]
        for aspect, what, e in head:
            a = take()
            if a is None:
                probs.append(Problem('layout', 'length', 'the PDU ends before its ' + what))
                return probs, unk
            before = len(probs)
            same(a, e, aspect, what)
            if len(probs) > before and what in ('SMSC field', 'destination address', 'data coding scheme'):
                return probs, unk       # (the rest is out of step)
        lt = len(octs) - slen
        if tlen is None or tlen.op != 'const':
            unk.append('TPDU length')
        elif cval(tlen) != lt:
            probs.append(Problem('length', 'TPDU length', 'the TPDU length is %s instead of %d' % (cval(tlen), lt)))
        udl = take()
        if udl is None or udl.op != 'const':
            unk.append('user data length')
            return probs, unk
        udl = cval(udl)
        ud = octs[k:]
        if len(ud) > 140:
            probs.append(Problem('concat' if parts > 1 else 'layout', 'too much user data', 'a PDU carries %d octets of user data' % len(ud)))
        if len(ud) != ((udl * 7 + 7) // 8 if gsm else udl):
            probs.append(Problem('concat' if parts > 1 else 'layout', 'user data length', 'the user data length %d does not fit %d octets of user data' % (udl, len(ud))))
            return probs, unk
        skip = 0
        if not one:
            if not ud or ud[0].op != 'const':
                unk.append('header length')
                return probs, unk
            hl = cval(ud[0])
            hdr = ud[1:1 + hl]
            ies = {}
            j = 0
            while j + 1 < len(hdr) and hdr[j].op == 'const' and hdr[j + 1].op == 'const':
                ies[cval(hdr[j])] = hdr[j + 2:j + 2 + cval(hdr[j + 1])]
                j += 2 + cval(hdr[j + 1])
            if j != len(hdr):
                probs.append(Problem('concat', 'header length', 'the user data header does not end with an information element'))
                return probs, unk
            ie = ies.get(0)
            if ie is not None and len(ie) == 3:
                refs.append(ie[0])
                if isinstance(ref, T) or ref < 256:
                    same(ie[0], ebits(E(ref, 'id') if isinstance(ref, T) else ref, 8), 'concat', 'concatenation reference')
                cnt = ie[1:]
            elif ies.get(8) is not None and len(ies[8]) == 4:
                same(ies[8][1], ebits(E(ref, 'id') if isinstance(ref, T) else ref & 255, 8), 'concat', 'concatenation reference')
                cnt = ies[8][2:]
            else:
                probs.append(Problem('concat', 'concatenation header', 'a part carries no concatenation information element'))
                return probs, unk
            same(cnt[0], cbits(parts, 8), 'concat', 'number of parts')
            same(cnt[1], cbits(n + 1, 8), 'concat', 'number of the part')
            skip = (hl + 1) * 8
        if gsm:
            hs = (skip + 6) // 7
            ns = udl - hs
            bits = []
            for a in ud:
                b = sh.bits(a)
                if b is None or len([x for x in b[8:] if x != 0]):
                    unk.append('user data')
                    return probs, unk
                bits += (list(b) + [0] * 8)[:8]
            mine = [bits[hs * 7 + 7 * i:hs * 7 + 7 * i + 7] for i in range(ns)]
        else:
            mine = ud[(skip + 7) // 8:]
        cuts.append(len(got))
        got += mine
        if not mine and not one:
            probs.append(Problem('concat', 'empty part', 'part %d of %d is empty' % (n + 1, parts)))
    aspect = 'text' if one else 'concat'
    if len(got) != len(units):
        probs.append(Problem(aspect, 'length of the text', 'the PDU%s carr%s %d %s instead of %d' % ('' if one else 's', 'ies' if one else 'y', len(got), 'septets' if gsm else 'octets', len(units))))
        return probs, unk
    for c in cuts:
        if c not in starts and c != len(units):
            probs.append(Problem('concat', 'character split', 'a character is split between two parts'))
    for i, (a, e) in enumerate(zip(got, units)):
        if gsm:
            rs = [sh.bit(x, y) for x, y in zip(a, e)]
            r = next((x for x in rs if x), False if False in rs else None)
        else:
            r = sh.octet(a, e)
        if r is False:
            unk.append('text')
        elif r is not None:
            probs.append(Problem(aspect, 'text', '%s %d of the text: %s' % ('septet' if gsm else 'octet', i, r)))
            break
    return probs, unk


LIMIT = float(os.environ.get('GSA_LIMIT', '240'))      # seconds for one family of cases; what is not reached is noted


def spread(rep, w, cases, one):
    """one(report, lab, case) for every case, on all processors"""
    n = max(1, min(os.cpu_count() or 1, 8, len(cases) // 6))

    def work(part):
        r = rep.part()
        t0 = time.time()
        lab = Lab(r, w)
        for c in part:
            if time.time() - t0 > LIMIT:
                r.note('%s: not reached within the time limit' % c[0])
                continue
            t1 = time.time()
            try:
                one(r, lab, c)
                if os.environ.get('GSA_STEPS') and time.time() - t1 > 2:
                    print('%.1f %s' % (time.time() - t1, c[0]), file=sys.stderr)
            except Anchor:
                raise
            except Exception as e:
                if os.environ.get('GSA_DEBUG'):
                    raise
                r.note('%s: analysis stopped early (%s: %s)' % (c[0], type(e).__name__, e))
        return r
    if n == 1:
        rep.absorb(work(cases))
        return
    ctx = multiprocessing.get_context('fork')
    jobs = []
    for i in range(n):
        a, b = ctx.Pipe(False)

        def run(i=i, b=b):
            try:
                b.send(work(cases[i::n]))
            except BaseException as e:
                b.send(e)
            b.close()
        p = ctx.Process(target=run)
        p.start()
        b.close()
        jobs.append((p, a))
    err = None
    for p, a in jobs:
        try:
            r = a.recv()
        except EOFError:
            r = RuntimeError('a worker of the analysis ended')
        p.join()
        if isinstance(r, BaseException):
            err = r
        else:
            rep.absorb(r)
    if err is not None:
        raise err


def family(rep, w, rule, aspects, cases):
    """analyse the encoding of a family of templates; report the given aspects"""
    f = Lab(rep, w).func('encodeSmsSubmitPdu')

    def one(rep, lab, case):
        name, kw = case
        probs, unk = submit(lab, **kw)
        rep.ob(rule, name)
        for p in probs:
            if p.aspect in aspects:
                rep.bad(rule, '%s (%s)' % (p.what, name), f.loc, '%s: %s' % (name, p.msg))
        if unk:
            rep.note('%s: undecided (%s)' % (name, ', '.join(sorted(set(unk))[:3])))
    spread(rep, w, cases, one)


def text_of(spec):
    """'b3e1u2' -> symbols of these classes; other characters after a backquote stay"""
    out = []
    i = 0
    k = 0
    while i < len(spec):
        c = spec[i]
        j = i + 1
        while j < len(spec) and spec[j].isdigit():
            j += 1
        n = int(spec[i + 1:j] or 1)
        for _ in range(n):
            out.append(char('%s_%d' % (c, k), c))
            k += 1
        i = j
    return out


INTL = Number('intl', digits('n', 11))


def hexat(x, sh):
    key = 'hex%d' % sh
    FUN.setdefault(key, lambda v: '0123456789ABCDEF'[(v >> sh) & 15])
    return ('E', x, key)


def absolute(quarter=8):
    """an absolute validity period and its seven octets"""
    ds = digits('t', 12)
    eng_dt = T('absdt', (const(quarter * 900),) + tuple(ds))
    q = abs(quarter)
    tz = cbits(q // 10 + (8 if quarter < 0 else 0), 4) + cbits(q % 10, 4)
    return eng_dt, semi(ds) + [tz]



# -------------------------------------------------------------------------- decoding
def inoct(bits):
    """input octet (or number) from expected bits"""
    if all(b in (0, 1) for b in bits):
        return const(sum(b << i for i, b in enumerate(bits)))
    return ('bits', bits)


def interm(eng, x):
    if isinstance(x, int):
        return const(x)
    if isinstance(x, tuple) and x[0] == 'bits':
        return eng.mkbits([b if b in (0, 1) else T('bit', (b[0][1], b[1])) for b in x[1]])
    return x


def infield(number, smsc=False, toa=None):
    f = number.field(smsc)
    f[1] = cbits(toa, 8) if toa is not None else [b if b is not None else 0 for b in f[1]]
    return [inoct(b) for b in f]


class Codes(object):
    """a name or text given by its septets: 'g' any basic code, 'x' an escape sequence"""
    def __init__(self, name, spec):
        self.items = []
        for k, c in enumerate(text_kinds(spec)):
            self.items.append((c, sym('%s%d' % (name, k), {'g': 'gcode', 'x': 'xcode'}[c])))

    def septets(self):
        out = []
        for c, x in self.items:
            if c == 'x':
                out.append(cbits(27, 7))
            out.append(ebits(E(x, 'id'), 7))
        return out

    def packed(self, fill=0, pad=0):
        bits = [0] * fill + [b for s in self.septets() for b in s]
        n = -len(bits) % 8
        bits += (cbits(pad, 7) + [0])[:n]
        return [inoct(bits[i:i + 8]) for i in range(0, len(bits), 8)]

    def chars(self):
        return [E(x, 'basic' if c == 'g' else 'extchar') for c, x in self.items]

    def syms(self):
        return [x for c, x in self.items]


def text_kinds(spec):
    out = []
    i = 0
    while i < len(spec):
        j = i + 1
        while j < len(spec) and spec[j].isdigit():
            j += 1
        out += [spec[i]] * int(spec[i + 1:j] or 1)
        i = j
    return out


def stamp(name, tz=0x80):
    """a timestamp: its seven octets, its digits"""
    ds = digits(name, 12)
    return [inoct(b) for b in semi(ds)] + [const(tz)], ds


class Want(object):
    """expected value of one entry of a decoded message"""
    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


def phone(number, plus):
    return Want('text', (['+'] if plus else []) + [E(d, 'digit') if isinstance(d, T) else d for d in number.chars])


def decode(lab, octs, syms, want, st=None, arg=None):
    """analyse the decoding of one template -> (problems, undecided)"""
    eng = lab.eng
    st = st or State()
    ts = [interm(eng, x) for x in octs]
    if arg is None:
        ref, st = lab.octets(ts, st)
    else:
        ref = arg(ts)
    syms = list(dict.fromkeys(syms))
    outs = lab.positional('decodeSmsPdu', [ref], syms, st)
    probs, unk = [], []
    if not outs:
        unk.append('no exit found')
    for out in outs:
        if not out.sure:
            continue
        if out.kind == 'raise':
            probs.append(Problem('raise', out.raised, 'a well-formed PDU is rejected (%s)' % out.raised))
            continue
        o = out.st.heap.get(out.val.args) if isinstance(out.val, T) and out.val.op == 'ref' else None
        its = dict((cval(k), v) for k, v in o.items if k.op == 'const') if o is not None and o.items is not None and o.kind == 'dict' and all(isinstance(x, tuple) and isinstance(x[0], T) for x in o.items) else None
        if its is None:
            unk.append('result of unknown shape')
            continue
        sh = Sheet(eng, out)
        for key, wv in want.items():
            if key not in its:
                probs.append(Problem(key, 'missing', '%r is missing' % key))
                continue
            r = compare(lab, sh, out, its[key], wv)
            if r is False:
                unk.append(key)
            elif r is not None:
                probs.append(Problem(key, 'wrong', '%r %s' % (key, r)))
    if outs and not any(o.sure for o in outs):
        unk.append('uncertain path')
    return probs, unk


def compare(lab, sh, out, t, wv):
    eng = lab.eng
    if not isinstance(wv, Want):
        return sh.val(t, wv)
    k, a = wv.kind, wv.args
    if k == 'text':
        if t is NONE:
            return 'is None'
        return sh.text(t, list(a[0]))
    if k == 'time':
        return same_time(lab, sh, out, t, a[0], a[1])
    if k == 'period':
        if t.op != 'td':
            return False
        return sh.val(t.args[0], a[0])
    if k == 'ies':
        o = out.st.heap.get(t.args) if t.op == 'ref' else None
        if o is None or o.items is None or any(x.op != 'ref' for x in o.items):
            return False
        if len(o.items) != len(a[0]):
            return 'has %d information elements instead of %d' % (len(o.items), len(a[0]))
        unk = False
        for i, (x, spec) in enumerate(zip(o.items, a[0])):
            r = same_ie(lab, sh, out, x, spec)
            if r is False:
                unk = True
            elif r is not None:
                return 'element %d: %s' % (i, r)
        return False if unk else None
    return False


def same_ie(lab, sh, out, x, spec):
    o = out.st.heap.get(x.args)
    if o is None or o.cls is None:
        return False
    unk = False
    cname, attrs = spec
    if cname is not None and getattr(o.cls, 'name', None) != cname:
        return 'is of class %s instead of %s' % (getattr(o.cls, 'name', o.cls), cname)
    for n, e in attrs.items():
        v = o.attrs.get(n)
        if v is None:
            return 'has no attribute %s' % n
        if n == 'data':
            if v.op == 'ref':
                vo = out.st.heap.get(v.args)
                its = vo.items if vo is not None else None
            else:
                its = v.args if v.op in ('tuple', 'clist') else None
            if its is None or any(y.op == '*' for y in its):
                unk = True
                continue
            if len(its) != len(e):
                return '%s has %d octets instead of %d' % (n, len(its), len(e))
            rs = [sh.octet(y, z) for y, z in zip(its, e)]
        else:
            rs = [bits_diff(sh, v, e)]
        for r in rs:
            if r is False:
                unk = True
            elif r is not None:
                return '%s: %s' % (n, r)
    return False if unk else None


def bits_diff(sh, v, e):
    """a number of any width against its expected bits"""
    bs = sh.bits(v)
    if bs is None:
        return sh.by_value(v, e)
    unk = False
    for i in range(max(len(bs), len(e))):
        r = sh.bit(bs[i] if i < len(bs) else 0, e[i] if i < len(e) else 0)
        if r is False:
            unk = True
        elif r is not None:
            return 'bit %d %s' % (i, r)
    return False if unk else None


def same_time(lab, sh, out, t, ds, offset):
    if t is NONE:
        return 'is None'
    if t.op != 'dt':
        return False
    unk = False
    for i, name in enumerate(('year', 'month', 'day', 'hour', 'minute', 'second')):
        x = t.args[1 + i]
        a, b = ds[2 * i], ds[2 * i + 1]
        if x is lab.eng.two(a, b, out.st) or i == 0 and x is lab.eng.binop('+', lab.eng.two(a, b, out.st), const(2000), out.st):
            continue
        fs = symbols(x)
        if any(y not in out.doms for y in fs) or any(y.op == 'ref' for y in x.leaves) or len(fs) > 2:
            unk = True
            continue
        vs = sorted(set(fs) | {a, b}, key=repr)
        try:
            for c in itertools.product(*[out.doms[y] for y in vs]):
                env = dict(zip(vs, c))
                want = 10 * int(env[a]) + int(env[b])
                got = value(x, env)
                if (got % 100 if i == 0 else got) != want:
                    return '%s is %s instead of %02d' % (name, got, want)
        except (Unknown, TypeError):
            unk = True
    if offset is not None:
        r = zone(lab, out, t.args[0], offset)
        if r is False:
            unk = True
        elif r is not None:
            return r
    return False if unk else None


def zone(lab, out, z, offset, sh=None):
    """offset of a time zone in seconds, by its own utcoffset()"""
    if z is NONE:
        return 'has no time zone'
    secs = []
    if z.op == 'td':
        secs = [(out, z.args[0])]
    elif z.op == 'ref':
        o = out.st.heap.get(z.args)
        f = lab.w.p.lookup(o.cls, 'utcoffset')[0] if o is not None and hasattr(o.cls, 'methods') else None
        if f is None:
            return False
        sy = list(out.doms)
        for q in lab.call('utcoffset', sy, out.st, fn=f, args={f.params[0]: z, f.params[1]: sym('when', 'datetime')} if len(f.params) > 1 else {f.params[0]: z}):
            if not q.sure:
                return False
            if q.kind == 'raise':
                return 'time zone raises %s' % q.raised
            if q.val is NONE:
                return 'time zone has no offset'
            if q.val.op != 'td':
                return False
            secs.append((q, q.val.args[0]))
    else:
        return False
    if not secs:
        return False
    for q, t in secs:
        if is_const(t) and isinstance(cval(t), float) and cval(t) == int(cval(t)):
            t = const(int(cval(t)))
        r = Sheet(lab.eng, q).val(t, offset)
        if r is False:
            return False
        if r is not None:
            return 'time zone offset in seconds %s' % r
    return None


def deliver(smsc=None, number=None, toa=None, dcs=0, first=0, pid=None, tz=0x80, offset=7200, body=(), udl=0, text=(), udh=None, first_bits=None):
    """an SMS-DELIVER PDU -> (octets, symbols, expected entries)"""
    number = number or Number('intl', digits('n', 11))
    pid = pid or sym('pid', 'octet')
    ts, ds = stamp('t', tz)
    octs = infield(smsc, True) if smsc else [0]
    ns = len(octs)
    syms = (smsc.syms() if smsc else []) + number.syms() + [pid] + ds
    fo = sym('first', 'octet')
    bits = [0, 0] + [T('bit', (fo, i)) for i in range(2, 6)] + [1 if udh is not None else 0, T('bit', (fo, 7))]
    syms.append(fo)
    octs.append(('bits', [b if b in (0, 1) else (E(fo, 'id'), i) for i, b in enumerate(bits)]))
    octs += infield(number, toa=toa) + [pid, dcs] + ts + [udl] + list(body)
    want = {'type': 'SMS-DELIVER', 'smsc': phone(smsc, smsc.kind == 'intl') if smsc else None, 'tpdu_length': len(octs) - ns, 'number': phone(number, (toa or (0x91 if number.kind == 'intl' else 0)) & 0x70 == 0x10),
            'protocol_id': E(pid, 'id'), 'time': Want('time', ds, offset), 'text': Want('text', text)}
    if udh is not None:
        want['udh'] = Want('ies', udh)
    return octs, syms, want


def gsm_body(spec, pad=0):
    c = Codes('c', spec)
    return dict(body=c.packed(0, pad), udl=len(c.septets()), text=c.chars()), c.syms()


def ucs2_body(n):
    his = [sym('h%d' % i, 'uhigh') for i in range(n)]
    los = [sym('l%d' % i, 'octet') for i in range(n)]
    body, text = [], []
    for i in range(n):
        if i % 2:
            body += [0x4E, los[i]]
            FUN['u4e'] = lambda v: chr(0x4E00 + v)
            text.append(E(los[i], 'u4e'))
        else:
            body += [his[i], 0x31]
            FUN['uh31'] = lambda v: chr(v * 256 + 0x31)
            text.append(E(his[i], 'uh31'))
    return dict(body=body, udl=2 * n, text=text), his + los


def header_body(ies, spec=None, n=None, kind='g', dcs=0):
    """user data with a header of the given elements: [(id, [octet terms])]"""
    hdr = []
    for i, d in ies:
        hdr += [i, len(d)] + list(d)
    ud = [len(hdr)] + hdr
    syms = [x for i, d in ies for x in d if isinstance(x, T)]
    if kind == 'g':
        c = Codes('c', spec)
        fill = -(len(ud) * 8) % 7
        return dict(body=ud + c.packed(fill), udl=(len(ud) * 8 + fill) // 7 + len(c.septets()), text=c.chars()), c.syms() + syms
    if kind == 'u':
        b, ss = ucs2_body(n)
        return dict(body=ud + b['body'], udl=len(ud) + len(b['body']), text=b['text'], dcs=8), ss + syms
    os_ = [sym('b%d' % i, 'octet') for i in range(n)]
    return dict(body=ud + os_, udl=len(ud) + n, text=[E(x, 'chr') for x in os_], dcs=4), os_ + syms


def decoding(rep, w, rule, cases, keys=None, raised=True):
    f = Lab(rep, w).func('decodeSmsPdu')

    def one(rep, lab, case):
        name, (octs, syms, want), extra = case
        probs, unk = decode(lab, octs, list(syms) + list(extra), want)
        rep.ob(rule, name)
        for p in probs:
            if p.aspect == 'raise' and raised or p.aspect != 'raise' and (keys is None or p.aspect in keys):
                rep.bad(rule, '%s %s (%s)' % (p.aspect, p.what, name), f.loc, '%s: %s' % (name, p.msg))
        if unk:
            rep.note('%s: undecided (%s)' % (name, ', '.join(sorted(set(unk))[:3])))
    spread(rep, w, cases, one)


def dcase(name, b=None, **kw):
    b, extra = b if b is not None else gsm_body('g3')
    return (name, deliver(**dict(b, **kw)), extra)


REF8 = [sym('r', 'octet'), sym('m', 'octet'), sym('k', 'octet')]


def ie_spec(cls, iei, data, **attrs):
    d = {'id': cbits(iei, 8), 'dataLength': cbits(len(data), 8), 'data': [ebits(E(x, 'id'), 8) if isinstance(x, T) else cbits(x, 8) for x in data]}
    d.update({k: v for k, v in attrs.items()})
    return (cls, d)


def wide(hi, lo):
    return ebits(E(lo, 'id'), 8) + ebits(E(hi, 'id'), 8)


def concat_ie():
    a, b, c = REF8
    return (0, REF8), ie_spec('Concatenation', 0, REF8, reference=ebits(E(a, 'id'), 8), parts=ebits(E(b, 'id'), 8), number=ebits(E(c, 'id'), 8))


# ------------------------------------------------------------- single functions
def octets_of(out, t):
    """the octets of a returned bytearray (or bytes), or None"""
    if not isinstance(t, T):
        return None
    if t.op == 'ref':
        o = out.st.heap.get(t.args)
        xs = o.items if o is not None and o.kind in ('bytearray', 'list', 'tuple') else None
    elif t.op in ('tuple', 'clist'):
        xs = t.args
    elif t.op == 'const' and isinstance(cval(t), bytes):
        xs = tuple(const(b) for b in cval(t))
    else:
        return None
    return list(xs) if xs is not None and not any(isinstance(x, tuple) or x.op == '*' for x in xs) else None


def same_octets(sh, out, t, want, spare=()):
    """want: one list of expected bits per octet"""
    xs = octets_of(out, t)
    if xs is None:
        return False
    if len(xs) != len(want):
        return 'has %d octets instead of %d' % (len(xs), len(want))
    unk = False
    for i, (a, e) in enumerate(zip(xs, want)):
        if None in e:
            bs = sh.bits(a)
            if bs is None:
                unk = True
                continue
            bs = list(bs) + [0] * 8
            e = [bs[k] if x is None else x for k, x in enumerate(e)]
            rs = [sh.bit(bs[k], x) for k, x in enumerate(e) if not isinstance(x, T)]
            r = next((x for x in rs if x), False if False in rs else None)
        else:
            r = sh.octet(a, e)
        if r is False:
            unk = True
        elif r is not None:
            return 'octet %d: %s' % (i, r)
    return False if unk else None


def fcases(rep, w, rule, fname, cases):
    """cases: (name, args(lab, st) -> (list of terms, st), symbols, expectation)
    expectation: ('octets', [...]), ('text', [...]), ('value', x), ('raise', name) or a function(sheet, out) -> None/False/text"""
    f = Lab(rep, w).func(fname)

    def one(rep, lab, case):
        name, args, syms, want = case
        ts, st = args(lab, State()) if callable(args) else (list(args), State())
        rep.ob(rule, '%s: %s' % (fname, name))
        outs = lab.positional(fname, ts, list(dict.fromkeys(syms)), st)
        judge(rep, rule, f, '%s: %s' % (fname, name), lab, outs, want)
    spread(rep, w, cases, one)


def judge(rep, rule, f, name, lab, outs, want):
    unk = not outs
    for out in outs:
        if not out.sure:
            unk = True
            continue
        if callable(want):
            r = want(Sheet(lab.eng, out), out)
        elif want[0] == 'raise':
            r = None if out.kind == 'raise' and out.raised == want[1] else 'raises %s instead of %s' % (out.raised, want[1]) if out.kind == 'raise' else 'does not raise %s' % want[1]
        elif out.kind == 'raise':
            r = 'raises %s' % out.raised
        else:
            sh = Sheet(lab.eng, out)
            r = same_octets(sh, out, out.val, want[1]) if want[0] == 'octets' else sh.text(out.val, want[1]) if want[0] == 'text' else bits_diff(sh, out.val, want[1]) if want[0] == 'bits' else sh.val(out.val, want[1])
        if r is False:
            unk = True
        elif r is not None:
            rep.bad(rule, name, f.loc, '%s: %s' % (name, r))
            return
    if unk:
        rep.note('%s: undecided' % name)


def buf(xs):
    """argument: a bytearray of these octets"""
    def args(lab, st):
        r, st = lab.octets([interm(lab.eng, x) for x in xs], st)
        return [r], st
    return args


def stream(xs, *more):
    """argument: an iterator over these octets (and more arguments)"""
    def args(lab, st):
        r, st = lab.octets([interm(lab.eng, x) for x in xs], st)
        k = ('stream', 0)
        st = st.with_heap(k, Obj('iter', None, {'src': r, 'pos': const(0)}, None))
        return [T('ref', k)] + list(more), st
    return args


def string(lab, xs):
    return lab.eng.mkstr([x if isinstance(x, T) else const(x) for x in xs]) if xs else const('')
