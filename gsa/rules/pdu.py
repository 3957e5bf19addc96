"""The PDU codec: where every bit of an encoded message and every character of a decoded one comes from."""

import re

from ..pdulab import *
from ..pdulab import cbits, ebits, num
from ..codec import relative

TECH = 'bit-level data-flow analysis by abstract interpretation over symbolic characters and octets'


def check_P03(rep, w):
    """SMS-SUBMIT layout"""
    ref = sym('ref', 'octet')
    cases = []
    for spec in ('b3', 'u2'):
        for fl in itertools.product((True, False), repeat=3):
            for sname, smsc in (('', None), (', SMSC', Number('intl', digits('c', 11))), (', local SMSC', Number('local', digits('c', 10)))):
                for vname, v, vp in (('', None, ()), (', relative validity', T('td', (const(3 * 86400),)), [cbits(169, 8)]), (', absolute validity',) + absolute()):
                    cases.append(('%s%s%s%s%s%s' % ('GSM-7' if spec == 'b3' else 'UCS2', ', report' if fl[0] else '', ', reject duplicates' if fl[1] else '', ', flash' if fl[2] else '', sname, vname),
                                  dict(number=INTL, text=text_of(spec), ref=ref, validity=v, vp=vp, smsc=smsc, flags=fl)))
    for n in (0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 63, 152, 153, 154, 159, 160):
        cases.append(('%d basic characters' % n, dict(number=INTL, text=text_of('b%d' % n) if n else [], ref=ref)))
    for s in ('e1', 'b1e1', 'e1b1', 'b6e1', 'b7e1b1', 'e4', 'e8', 'e80', 'b158e1', 'b79e1b79'):
        cases.append(('text %s' % s, dict(number=INTL, text=text_of(s), ref=ref)))
    for s in ('u1', 'b1u1', 'u1b1', 'o1', 's1', 'u1s1u1', 'u69', 'u70', 'b69u1', 's35', 'u68s1', 'x1', 'e1u1', 's1o1b1'):
        cases.append(('text %s' % s, dict(number=INTL, text=text_of(s), ref=ref)))
    family(rep, w, 'P03', ('flags', 'reference', 'layout', 'length', 'smsc', 'text', 'raise', 'address', 'dcs', 'validity'), cases)
    rep.ob('P03', 'hexadecimal form')
    lab = Lab(rep, w)
    xs = [sym('o%d' % i, 'octet') for i in range(4)] + [const(0x0A), const(0xFE), const(0)]
    r, st = lab.octets(xs, State())
    c = w.p.cls('Pdu')
    st = st.with_heap(('pdu', 0), Obj('instance', c, {'data': r, 'tpduLength': const(6)}))
    g = w.p.method('Pdu', '__str__')
    outs = lab.call('__str__', xs[:4], st, fn=g, args={g.params[0]: T('ref', ('pdu', 0))})
    want = [e for x in xs for e in ((hexat(x, 4), hexat(x, 0)) if x.op == 'sym' else tuple('%02X' % cval(x)))]
    for out in outs:
        if not out.sure or out.kind != 'return':
            if out.sure:
                rep.bad('P03', 'text form raises', g.loc, 'the hexadecimal form of a PDU raises ' + out.raised)
            continue
        r = Sheet(lab.eng, out).text(out.val, want)
        if r:
            rep.bad('P03', 'text form', g.loc, 'the hexadecimal form of a PDU: ' + r)
        elif r is False:
            rep.note('hexadecimal form undecided')


def check_P04(rep, w):
    """decoding of SMS-DELIVER, SMS-SUBMIT, SMS-STATUS-REPORT"""
    cases = []
    for n in list(range(0, 18)) + [63, 159, 160]:
        cases.append(dcase('DELIVER, %d basic characters' % n, gsm_body('g%d' % n) if n else (dict(body=[], udl=0, text=[]), [])))
    for sp in ('x1', 'g1x1', 'x1g1', 'g5x1g1', 'g6x1', 'g7x1', 'g14x1g1'):
        cases.append(dcase('DELIVER, text %s' % sp, gsm_body(sp)))
    cases.append(dcase('DELIVER, padded text', gsm_body('g7', pad=13)))
    cases.append(dcase('DELIVER, padded text', gsm_body('g15', pad=13)))
    for n in (1, 2, 3, 69, 70):
        cases.append(dcase('DELIVER, %d UCS2 characters' % n, ucs2_body(n), dcs=8))
    cases.append(dcase('DELIVER, surrogate pair', (dict(body=[0xD8, 0x3D, 0xDE, 0x00, 0x00, 0x41], udl=6, text=['\U0001f600', 'A']), []), dcs=8))
    os_ = [sym('b%d' % i, 'octet') for i in range(5)]
    cases.append(dcase('DELIVER, 8-bit data', (dict(body=os_, udl=5, text=[E(x, 'chr') for x in os_]), os_), dcs=4))
    for sname, sm in (('SMSC', Number('intl', digits('c', 11))), ('SMSC of even length', Number('intl', digits('c', 10))), ('local SMSC', Number('local', digits('c', 9)))):
        cases.append(dcase('DELIVER, ' + sname, smsc=sm))
    ci, cs = concat_ie()
    for n in (1, 2, 6, 7, 8, 152, 153):
        cases.append(dcase('DELIVER, concatenated, %d characters' % n, header_body([ci], 'g%d' % n), udh=[cs]))
    for k in range(1, 9):       # headers of all lengths modulo seven
        xs = [sym('d%d' % i, 'octet') for i in range(k)]
        for n in (1, 7, 8):
            cases.append(dcase('DELIVER, header element of %d octets, %d characters' % (k, n), header_body([(0x24, xs)], 'g%d' % n), udh=[ie_spec(None, 0x24, xs)]))
    cases.append(dcase('DELIVER, concatenated, escape', header_body([ci], 'g1x1g1'), udh=[cs]))
    cases.append(dcase('DELIVER, concatenated, UCS2', header_body([ci], n=3, kind='u'), udh=[cs]))
    cases.append(dcase('DELIVER, concatenated, 8-bit', header_body([ci], n=3, kind='o'), udh=[cs]))
    decoding(rep, w, 'P04', cases)
    decoding(rep, w, 'P04', submits() + reports())
    # hexadecimal input
    lab = Lab(rep, w)
    f = lab.func('decodeSmsPdu')
    name, (octs, syms, want), extra = dcase('DELIVER as hexadecimal text')
    for up in (True, False):
        def arg(ts):
            xs = []
            for t in ts:
                xs.append(lab.eng.hexstr(t, up, 2, State()))
            return lab.eng.mkstr(xs)
        probs, unk = decode(lab, octs, syms + extra, want, arg=arg)
        rep.ob('P04', '%s (%s)' % (name, 'upper case' if up else 'lower case'))
        for p in probs:
            rep.bad('P04', '%s %s (%s)' % (p.aspect, p.what, name), f.loc, '%s: %s' % (name, p.msg))
        if unk:
            rep.note('%s: undecided (%s)' % (name, ', '.join(sorted(set(unk))[:3])))


def submits():
    ref, pid, vp = sym('ref', 'octet'), sym('pid', 'octet'), sym('vp', 'octet')
    n = Number('intl', digits('n', 11))
    b, bs = gsm_body('g3')
    ts, ds = stamp('v')
    es = [sym('v%d' % i, 'octet') for i in range(7)]
    out = []
    fo = sym('first', 'octet')
    for name, vpf, octs, want in (('no validity', 0, [], {}), ('relative validity', 2, [const(169)], {'validity': Want('period', 3 * 86400)}), ('absolute validity', 3, ts, {'validity': Want('time', ds, 7200)}),
                                  ('enhanced validity', 1, es, {})):
        first = ('bits', [1, 0, (E(fo, 'id'), 2)] + cbits(vpf, 2) + [(E(fo, 'id'), 5), 0, (E(fo, 'id'), 7)])
        o = [0, first, ref] + infield(n) + [pid, 0] + octs + [b['udl']] + b['body']
        wv = {'type': 'SMS-SUBMIT', 'smsc': None, 'tpdu_length': len(o) - 1, 'reference': E(ref, 'id'), 'number': phone(n, True), 'protocol_id': E(pid, 'id'), 'text': Want('text', b['text'])}
        wv.update(want)
        out.append(('SUBMIT, ' + name, (o, [ref, pid, fo] + n.syms() + bs + (ds if vpf == 3 else es if vpf == 1 else []), wv), []))
    return out


def reports():
    out = []
    for sname, sm in (('no SMSC', None), ('SMSC', Number('intl', digits('c', 11)))):
        for nn in (10, 11):
            n = Number('intl', digits('n', nn))
            ref, stt, fo = sym('ref', 'octet'), sym('status', 'octet'), sym('first', 'octet')
            t1, d1 = stamp('t')
            t2, d2 = stamp('w', 0x48)       # -01:00
            head = infield(sm, True) if sm else [0]
            o = head + [('bits', [0, 1] + [(E(fo, 'id'), i) for i in range(2, 6)] + [0, (E(fo, 'id'), 7)]), ref] + infield(n) + t1 + t2 + [stt]
            wv = {'type': 'SMS-STATUS-REPORT', 'smsc': phone(sm, True) if sm else None, 'tpdu_length': len(o) - len(head), 'reference': E(ref, 'id'), 'number': phone(n, True), 'time': Want('time', d1, 7200),
                  'discharge': Want('time', d2, -3600), 'status': E(stt, 'id')}
            out.append(('STATUS-REPORT, %s, %d digits' % (sname, nn), (o, [ref, stt, fo] + n.syms() + d1 + d2 + (sm.syms() if sm else []), wv), []))
    return out


# ------------------------------------------------------------------------ alphabets
def check_P02(rep, w):
    """GSM 03.38 tables, both directions"""
    FUN['esc'] = lambda v: XCHAR.get(v, BASIC[v])
    cases = []

    def text(xs, more=()):
        return lambda lab, st: ([string(lab, xs)] + list(more), st)

    def eight(chars):
        return [b + [0] for b in septets_of(chars)[0]]
    for spec in ('', 'b1', 'e1', 'd1', 'l1', 'b2', 'b1e1b1', 'e2', 'e1b1', 'b7', 'b1e1b1e1b1'):
        xs = text_of(spec)
        cases.append(('text %s' % (spec or 'empty'), text(xs), xs, ('octets', eight(xs))))
        cases.append(('text %s, discarding' % (spec or 'empty'), text(xs, [TRUE]), xs, ('octets', eight(xs))))
    for spec in ('o1', 'u1', 's1', 'x1', 'b1o1', 'u1b1', 'e1o1b1', 'b3u1b3'):
        xs = text_of(spec)
        cases.append(('text %s' % spec, text(xs), xs, ('raise', 'ValueError')))
        keep = [x for x in xs if cclass(x) in 'be']
        cases.append(('text %s, discarding' % spec, text(xs, [TRUE]), xs, ('octets', eight(keep))))
    fcases(rep, w, 'P02', 'encodeGsm7', cases)
    fcases(rep, w, 'P02', 'encodeGsm7', [('character %s' % ascii(c), text([c]), [], ('octets', eight([c]))) for c in BASIC + ''.join(EXTENSION) if c != '\x1b'])
    fcases(rep, w, 'P02', 'encodeGsm7', [('escape code', text(['\x1b']), [], ('raise', 'ValueError')), ('escape code, discarding', text(['b', '\x1b'], [TRUE]), [], ('octets', eight(['b'])))])
    g = [sym('g%d' % i, 'gcode') for i in range(4)]
    x = [sym('x%d' % i, 'xcode') for i in range(2)]
    dec = [('nothing', [], []), ('basic codes', g, [E(c, 'basic') for c in g]), ('escape sequence', [27, x[0]], [E(x[0], 'extchar')]),
           ('escape sequences among basic codes', [g[0], 27, x[0], g[1], 27, x[1]], [E(g[0], 'basic'), E(x[0], 'extchar'), E(g[1], 'basic'), E(x[1], 'extchar')]),
           ('any escape sequence', [27, g[0], g[1]], [E(g[0], 'esc'), E(g[1], 'basic')]), ('incomplete escape sequence', [g[0], 27], [E(g[0], 'basic')]), ('only an escape code', [27], [])]
    cases = []
    for name, os_, want in dec:
        ss = [o for o in os_ if isinstance(o, T)]
        cases.append((name, buf(os_), ss, ('text', want)))
    fcases(rep, w, 'P02', 'decodeGsm7', cases)


# ------------------------------------------------------------------------- bit packing
def check_P11(rep, w):
    """septets packed into octets and back"""
    cases = []
    top = 18
    for n in range(top):
        ss = [sym('s%d' % i, 'septet') for i in range(n)]
        want = pack([ebits(E(x, 'id'), 7) for x in ss])
        cases.append(('%d septets' % n, buf(ss), ss, ('octets', [[0 if b is None else b for b in o] for o in want])))
    fcases(rep, w, 'P11', 'packSeptets', cases)
    cases = []
    for n in range(1, top):
        ss = [sym('s%d' % i, 'septet') for i in range(n)]
        exp = [ebits(E(x, 'id'), 7) + [0] for x in ss]
        os_ = [inoct([0 if b is None else b for b in o]) for o in pack([ebits(E(x, 'id'), 7) for x in ss])]

        def whole(sh, out, n=n, ss=ss, exp=exp, limit=None):
            if out.kind == 'raise':
                return 'raises ' + out.raised
            xs = octets_of(out, out.val)
            if xs is None:
                return False
            if len(xs) == n - 1 and n % 8 == 0 and limit is None:
                if list(out.doms[ss[-1]]) == [0]:
                    exp = exp[:-1]
                elif 0 not in out.doms[ss[-1]] or all(not isinstance(b, T) for b in ()):
                    return 'loses the last of %d septets' % n
                else:
                    return False
            if limit is not None and len(xs) > n:
                xs = xs[:n]     # (the spare bits after the last septet)
            if len(xs) != len(exp):
                return 'has %d septets instead of %d' % (len(xs), n)
            rs = [sh.octet(a, e) for a, e in zip(xs, exp)]
            for i, r in enumerate(rs):
                if r:
                    return 'septet %d: %s' % (i, r)
            return False if False in rs else None
        cases.append(('%d septets' % n, buf(os_), ss, whole))

        def limited(lab, st, os_=os_, n=n):
            ts, st = buf(os_)(lab, st)
            return ts + [const(n)], st
        cases.append(('%d septets, known number' % n, limited, ss, lambda sh, out, f=whole: f(sh, out, limit=True)))
        cases.append(('%d septets from a stream' % n, stream(os_, const(n)), ss, lambda sh, out, f=whole: f(sh, out, limit=True)))
    fcases(rep, w, 'P11', 'unpackSeptets', cases)


# -------------------------------------------------------------------------- addresses
def name_chars(spec):
    return text_of(spec)


def check_P12(rep, w):
    """address fields"""
    cases = []
    for n in range(1, 21):
        ds = digits('n', n)
        for kind in ('intl', 'local'):
            cases.append(('destination: %s number of %d digits' % ('international' if kind == 'intl' else 'local', n), dict(number=Number(kind, ds), text=text_of('b3'))))
    for n in range(1, 21):
        for kind in ('intl', 'local'):
            cases.append(('SMSC: %s number of %d digits' % ('international' if kind == 'intl' else 'local', n), dict(number=INTL, text=text_of('b3'), smsc=Number(kind, digits('c', n)))))
    for n in range(1, 12):
        cases.append(('destination: name of %d letters' % n, dict(number=Number('name', text_of('l%d' % n)), text=text_of('b3'))))
    for s in ('l1d1', 'l1d6', 'l2b3', 'l1e1', 'l3e1b2', 'l1b6', 'l1d9b1'):
        cases.append(('destination: name %s' % s, dict(number=Number('name', text_of(s)), text=text_of('b3'))))
    family(rep, w, 'P12', ('address', 'smsc', 'layout', 'length', 'raise'), cases)
    cases = []
    for n in range(1, 21):
        for toa in (0x91, 0x81, 0xA1, 0xC1, 0xB1):
            if toa in (0xC1, 0xB1) and n > 4:
                continue
            num_ = Number('intl' if toa == 0x91 else 'local', digits('n', n))
            cases.append(dcase('sender: %d digits, type of address %02X' % (n, toa), number=num_, toa=toa))
    for n in range(1, 21):
        for kind in ('intl', 'local'):
            cases.append(dcase('SMSC: %s number of %d digits' % (kind, n), smsc=Number(kind, digits('c', n))))
    cases.append(dcase('no SMSC'))
    for sp in ['g%d' % n for n in range(1, 12)] + ['x1', 'g1x1', 'x1g1', 'g3x1g2', 'g6x1', 'x2', 'g5x1']:
        c = Codes('a', sp)
        k = len(c.septets())
        for half in {(k * 7 + 3) // 4, 2 * ((k * 7 + 7) // 8)}:
            if half * 4 // 7 != k:
                continue        # (an even number of semi-octets also fits one more septet: ambiguous)
            cases.append(named('sender: name %s (%d semi-octets)' % (sp, half), c, half))
    cases.append(empty_sender())
    decoding(rep, w, 'P12', cases, keys=('number', 'smsc', 'tpdu_length', 'protocol_id', 'time', 'text'))
    enc, dec, lim = [], [], []
    for n in range(1, 13):
        ds = digits('n', n)
        enc.append(('%d digits' % n, lambda lab, st, ds=ds: ([string(lab, ds)], st), ds, ('octets', semi(ds))))
        os_ = [inoct(b) for b in semi(ds)]
        dec.append(('%d digits' % n, buf(os_), ds, ('text', [E(d, 'digit') for d in ds])))
        more = [sym('q%d' % i, 'octet') for i in range(2)]
        lim.append(('%d digits at the start of a stream' % n, stream(os_ + more, const(len(os_))), ds + more, ('text', [E(d, 'digit') for d in ds])))
    more = [sym('q%d' % i, 'octet') for i in range(2)]
    lim.append(('no octets of a stream', stream(more, const(0)), more, ('text', [])))
    fcases(rep, w, 'P12', 'encodeSemiOctets', enc)
    fcases(rep, w, 'P12', 'decodeSemiOctets', dec + lim)


def named(title, codes, half):
    b, extra = gsm_body('g3')
    octs, syms, want = deliver(**b)
    pid = next(x for x in syms if x.args[0] == 'pid')
    # replace the address: [len, toa, 6 octets of 11 digits] after SMSC and first octet
    octs = octs[:2] + [half, 0xD0] + codes.packed() + octs[2 + 2 + 6:]
    want['number'] = Want('text', codes.chars())
    want['tpdu_length'] = len(octs) - 1
    return (title, (octs, syms + codes.syms(), want), extra)


def empty_sender():
    b, extra = gsm_body('g3')
    octs, syms, want = deliver(**b)
    octs = octs[:2] + [0, 0x81] + octs[2 + 2 + 6:]
    del want['number']
    want['tpdu_length'] = len(octs) - 1
    return ('sender: empty number', (octs, syms, want), extra)


# ------------------------------------------------------------------------ validity, time
def check_P07(rep, w):
    """relative validity periods"""
    lab = Lab(rep, w)
    f = lab.func('encodeSmsSubmitPdu')
    d = sym('period', 'period')
    FUN['cell'] = lambda v: max([k for k in range(256) if relative(k) <= v] or [0])
    txt = text_of('b1')
    for name, kw in (('a relative validity period', dict(validity=T('td', (d,)), vp=[ebits(E(d, 'cell'), 8)])),):
        n = INTL
        outs = lab.call('encodeSmsSubmitPdu', [d] + n.syms() + txt, number=n.term(lab.eng), text=lab.eng.mkstr(txt), reference=const(0), validity=T('td', (d,)), smsc=NONE,
                        requestStatusReport=TRUE, rejectDuplicates=FALSE, sendFlash=FALSE)
        seen = set()
        for out in outs:
            if not out.sure:
                rep.note('%s: uncertain path' % name)
                continue
            rep.ob('P07', 'encoding: %s .. %s seconds' % (min(out.doms[d]), max(out.doms[d])))
            seen.update(out.doms[d])
            ps, us = submit_exit(lab, out, n, txt, 0, [ebits(E(d, 'cell'), 8)], None, (True, False, False))
            for p in ps:
                if p.aspect in ('validity', 'raise', 'flags'):
                    rep.bad('P07', 'encoding: %s' % p.what, f.loc, 'encoding %s of %d to %d seconds: %s' % (name, min(out.doms[d]), max(out.doms[d]), p.msg))
            if us:
                rep.note('encoding a relative validity: undecided (%s)' % ', '.join(sorted(set(us))[:3]))
    # periods that no octet stands for
    for v in (relative(255) + 86400, relative(255) + 604800, 3 * 365 * 86400):
        rep.ob('P07', 'encoding of %d days' % (v // 86400))
        n = INTL
        outs = lab.call('encodeSmsSubmitPdu', n.syms() + txt, number=n.term(lab.eng), text=lab.eng.mkstr(txt), reference=const(0), validity=T('td', (const(v),)), smsc=NONE,
                        requestStatusReport=TRUE, rejectDuplicates=FALSE, sendFlash=FALSE)
        for out in outs:
            if out.sure and (out.kind != 'raise' or out.raised != 'ValueError'):
                rep.bad('P07', 'too long a period', f.loc, 'a validity period of %d days %s' % (v // 86400, 'is accepted' if out.kind != 'raise' else 'raises ' + out.raised))
    # decoding: every value of the octet
    FUN['seconds'] = relative
    b, bs = gsm_body('g1')
    n = Number('intl', digits('n', 11))
    vp = sym('vp', 'octet')
    o = [0, 0x11, 0] + infield(n) + [0, 0, vp, b['udl']] + b['body']
    case = ('decoding a relative validity period', (o, [vp] + n.syms() + bs, {'validity': Want('period', E(vp, 'seconds'))}), [])
    decoding(rep, w, 'P07', [case], keys=('validity',))


def check_P08(rep, w):
    """time stamps"""
    cases = []
    for q in range(-48, 57):
        v, vp = absolute(q)
        cases.append(('absolute validity, time zone of %+d quarter hours' % q, dict(number=INTL, text=text_of('b1'), validity=v, vp=vp)))
    family(rep, w, 'P08', ('validity', 'raise', 'flags'), cases)
    lab = Lab(rep, w)
    f = lab.func('encodeSmsSubmitPdu')
    txt = text_of('b1')
    naive = T('dt', (NONE,) + tuple(const(x) for x in (2014, 5, 6, 7, 8, 9)))
    for name, v, exc in (('absolute validity without time zone', naive, 'ValueError'), ('validity that is a number', const(5), 'TypeError'), ('validity that is a text', const('3d'), 'TypeError')):
        outs = lab.call('encodeSmsSubmitPdu', INTL.syms() + txt, number=INTL.term(lab.eng), text=lab.eng.mkstr(txt), reference=const(0), validity=v, smsc=NONE,
                        requestStatusReport=TRUE, rejectDuplicates=FALSE, sendFlash=FALSE)
        rep.ob('P08', name)
        judge(rep, 'P08', f, name, lab, outs, ('raise', exc))
    cases = []
    for q in range(-48, 57):
        a = abs(q)
        tz = (a % 10) << 4 | a // 10 | (8 if q < 0 else 0)
        cases.append(dcase('time stamp, time zone of %+d quarter hours' % q, tz=tz, offset=900 * q))
    decoding(rep, w, 'P08', cases, keys=('time',))


# ------------------------------------------------------------------- data coding scheme
def check_P09(rep, w):
    """alphabet of a message"""
    cases = []
    for fl in (False, True):
        for s in ('b3', 'e1', 'b1e1b1', 'u1', 'b2u1', 's1', 'o1', 'x1', 'e1u1', 'b160', 'b161', 'u70', 'u71', 'b100u1', 'e80', 'e81'):
            cases.append(('text %s%s' % (s, ', flash' if fl else ''), dict(number=INTL, text=text_of(s), flags=(True, False, fl))))
    family(rep, w, 'P09', ('dcs', 'raise', 'flags'), cases)
    FUN.setdefault('chr', chr)
    cls = sym('cls', 'octet')
    cases = []
    for alpha, body in ((0, gsm_body('g5')), (0, gsm_body('x1g2')), (4, None), (8, ucs2_body(2)), (8, ucs2_body(1))):
        if body is None:
            os_ = [sym('b%d' % i, 'octet') for i in range(4)]
            body = (dict(body=os_, udl=4, text=[E(x, 'chr') for x in os_]), os_)
        b, extra = body
        dcs = ('bits', [(E(cls, 'id'), 0), (E(cls, 'id'), 1)] + cbits(alpha >> 2, 2) + [(E(cls, 'id'), 4), 0, 0, 0])
        octs, syms, want = deliver(**dict(b, dcs=dcs))
        cases.append(('%s, any message class, %d octets' % ({0: 'GSM-7', 4: '8-bit data', 8: 'UCS2'}[alpha], len(b['body'])), (octs, syms + [cls], want), extra))
    n = Number('intl', digits('n', 11))
    for alpha, body in ((0, gsm_body('g5')), (8, ucs2_body(2))):
        b, extra = body
        dcs = ('bits', [(E(cls, 'id'), 0), (E(cls, 'id'), 1)] + cbits(alpha >> 2, 2) + [(E(cls, 'id'), 4), 0, 0, 0])
        o = [0, 0x01, 0] + infield(n) + [0, dcs, b['udl']] + b['body']
        cases.append(('SUBMIT %s' % {0: 'GSM-7', 8: 'UCS2'}[alpha], (o, [cls] + n.syms(), {'type': 'SMS-SUBMIT', 'text': Want('text', b['text'])}), extra))
    decoding(rep, w, 'P09', cases, keys=('text', 'type'))


def check_P10(rep, w):
    """every text is encoded, and as itself"""
    cases = []
    for s in ('b1', 'e1', 'o1', 'u1', 's1', 'x1', 'd3l2b2', 'b1o1', 'o1b1', 'b5u1b5', 's1b1s1', 'e1o1', 'x1b1x1', 'u3s2b2e1o1', 'b2x1', 's2', 'x2',
              'b160', 'b161', 'e80', 'e81', 'o70', 'o71', 'u70', 'u71', 's35', 's36', 'b69u1', 'b70u1', 'b66s1', 'b100s1', 'b30e30u5s5', 'b306', 'b307', 'u134', 'u135', 'b150e30'):
        cases.append(('text %s' % s, dict(number=INTL, text=text_of(s))))
    cases.append(('the escape code', dict(number=INTL, text=['\x1b'])))
    cases.append(('an escape code in a text', dict(number=INTL, text=text_of('b2') + ['\x1b'] + text_of('b3'))))
    cases.append(('an escape code in a long text', dict(number=INTL, text=text_of('b80') + ['\x1b'] + text_of('b3'))))
    cases.append(('the empty text', dict(number=INTL, text=[])))
    cases.append(('a NUL character', dict(number=INTL, text=['\x00'])))
    cases.append(('a backquote', dict(number=INTL, text=['`'])))
    cases.append(('line ends', dict(number=INTL, text=['\r', '\n'])))
    family(rep, w, 'P10', ('text', 'raise', 'concat', 'dcs', 'layout'), cases)


# ----------------------------------------------------------------------- concatenation
def check_P05(rep, w):
    """long messages"""
    cases = []
    ref = sym('ref', 'octet')
    for s in ('b159', 'b160', 'b161', 'b162', 'b305', 'b306', 'b307', 'b459', 'b460', 'e79', 'e80', 'e81', 'b159e1', 'b158e1', 'b160e1', 'b152e1b10', 'b151e1b10', 'b153e1b10', 'b152e5', 'e76b1e10', 'e77b20',
              'b152e1b151e1b5', 'e153', 'b1e159', 'u70', 'u71', 'u67', 'u134', 'u135', 'u201', 'u202', 's35', 's36', 's34u1', 's34u2', 's34u3', 'u66s1u10', 'u67s1u10', 'u65s1u10', 'u66s1u66s1u3', 's68', 'b69s1', 'b66s3', 'b70u1',
              'b140u1', 'b71o1', 'x71', 'u66x2u10'):
        cases.append(('text %s' % s, dict(number=INTL, text=text_of(s), ref=ref)))
    for s in ('b161', 'u71'):
        for vname, v, vp in ((', relative validity', T('td', (const(3 * 86400),)), [cbits(169, 8)]), (', absolute validity',) + absolute()):
            for fl in itertools.product((True, False), repeat=3):
                cases.append(('text %s%s %s' % (s, vname, fl), dict(number=Number('local', digits('n', 10)), text=text_of(s), ref=ref, validity=v, vp=vp, smsc=Number('intl', digits('c', 11)), flags=fl)))
    family(rep, w, 'P05', ('concat', 'raise', 'flags', 'reference', 'layout', 'length'), cases)


# ---------------------------------------------------------------------- user data header
def check_P06(rep, w):
    """information elements"""
    cases = []
    ds = [sym('d%d' % i, 'octet') for i in range(9)]
    a, b, c, d = ds[:4]

    def el(x):
        return ebits(E(x, 'id'), 8)
    c8 = ((0, [a, b, c]), ie_spec('Concatenation', 0, [a, b, c], reference=el(a), parts=el(b), number=el(c)))
    c16 = ((8, [a, b, c, d]), ie_spec('Concatenation', 8, [a, b, c, d], reference=wide(a, b), parts=el(c), number=el(d)))
    p8 = ((4, [ds[4], ds[5]]), ie_spec('PortAddress', 4, [ds[4], ds[5]], destination=el(ds[4]), source=el(ds[5])))
    p16 = ((5, ds[4:8]), ie_spec('PortAddress', 5, ds[4:8], destination=wide(ds[4], ds[5]), source=wide(ds[6], ds[7])))
    odd = ((0x25, [ds[8]]), ie_spec(None, 0x25, [ds[8]]))
    for k in (0, 1, 2, 7):
        cases_ = ((0x70, ds[:k]), ie_spec(None, 0x70, ds[:k]))
        cases.append(('unknown element of %d octets' % k, [cases_]))
    for name, es in (('8-bit concatenation', [c8]), ('16-bit concatenation', [c16]), ('8-bit ports', [p8]), ('16-bit ports', [p16]), ('ports and concatenation', [p16, c8]), ('concatenation and ports', [c8, p16]),
                     ('16-bit concatenation and ports', [c16, p8]), ('unknown element and concatenation', [odd, c8]), ('concatenation and unknown element', [c16, odd]), ('three elements', [odd, p8, c8])):
        cases.append((name, es))
    out = []
    for name, es in cases:
        for kind, kw in (('GSM-7', dict(spec='g4', kind='g')), ('UCS2', dict(n=2, kind='u')), ('8-bit', dict(n=3, kind='o'))):
            out.append(dcase('header: %s, %s' % (name, kind), header_body([e[0] for e in es], **kw), udh=[e[1] for e in es]))
    decoding(rep, w, 'P06', out, keys=('udh', 'text'))
    # encoding
    lab = Lab(rep, w)
    hi, lo, h2, l2 = [sym(x, 'octet') for x in ('hi', 'lo', 'h2', 'l2')]

    def number(h, l):
        return lab.eng.mkbits([T('bit', (l, i)) for i in range(8)] + (cbits(h, 8) if isinstance(h, int) else [T('bit', (h, i)) for i in range(8)]))
    encs = []
    for k in (0, 8):        # (the form does not depend on the identifier the element had)
        encs.append(('Concatenation', '8-bit reference (element %d)' % k, dict(id=const(k), reference=lo, parts=a, number=b), [cbits(0, 8), cbits(3, 8), el(lo), el(a), el(b)]))
        for h in (1, 2, 0x80, 0xFF):
            encs.append(('Concatenation', '16-bit reference %02Xxx (element %d)' % (h, k), dict(id=const(k), reference=number(h, lo), parts=a, number=b), [cbits(8, 8), cbits(4, 8), cbits(h, 8), el(lo), el(a), el(b)]))
    for k in (4, 5):
        encs.append(('PortAddress', '8-bit ports (element %d)' % k, dict(id=const(k), destination=lo, source=l2), [cbits(4, 8), cbits(2, 8), el(lo), el(l2)]))
        for h, g in ((1, 0), (0, 1), (1, 1), (0xFF, 0xFF), (0x0B, 0x84)):
            encs.append(('PortAddress', 'ports %02Xxx, %02Xxx (element %d)' % (h, g, k), dict(id=const(k), destination=number(h, lo), source=number(g, l2)), [cbits(5, 8), cbits(4, 8), cbits(h, 8), el(lo), cbits(g, 8), el(l2)]))
    for n in (0, 1, 2, 5):
        encs.append(('InformationElement', 'unknown element of %d octets' % n, dict(id=const(0x70), dataLength=const(n), data=ds[:n]), [cbits(0x70, 8), cbits(n, 8)] + [el(x) for x in ds[:n]]))
    for cname, name, attrs, want in encs:
        c_ = w.p.cls(cname)
        m = w.p.lookup(c_, 'encode')[0]
        st = State()
        at = dict({'data': [], 'dataLength': const(0)}, **attrs)
        for kk, v in list(at.items()):
            if isinstance(v, list):
                r = T('ref', ('iedata', 0))
                st = st.with_heap(r.args, Obj('list', None, {}, tuple(v)))
                at[kk] = r
        st = st.with_heap(('ie', 0), Obj('instance', c_, at))
        outs = lab.call('encode', [hi, lo, h2, l2] + ds, st, fn=m, args={m.params[0]: T('ref', ('ie', 0))})
        rep.ob('P06', 'encoding: %s, %s' % (cname, name))
        judge(rep, 'P06', m, 'encoding: %s, %s' % (cname, name), lab, outs, ('octets', want))


# --------------------------------------------------------------------- malformed input
def check_P01(rep, w):
    """whatever is decoded, the only exception is EncodingError"""
    f = Lab(rep, w).func('decodeSmsPdu')
    cases = []

    def add(name, octs, syms=(), times=()):
        cases.append((name, octs, list(syms), None, set(times)))

    ds = [sym('d%d' % i, 'octet') for i in range(8)]
    bases = []
    for name, (octs, syms, want), extra in (dcase('DELIVER', smsc=Number('intl', digits('c', 11))), dcase('DELIVER in UCS2', ucs2_body(2), dcs=8), dcase('DELIVER with header', header_body([(0, ds[:3])], 'g4'), udh=[]),
                                            dcase('DELIVER with header in UCS2', header_body([(8, ds[:4])], n=2, kind='u'), udh=[]),
                                            dcase('8-bit DELIVER with ports', header_body([(5, ds[:4])], n=2, kind='o'), udh=[]),
                                            named('DELIVER from a name', Codes('a', 'g5'), 9)) + tuple(submits()) + tuple(reports()[:2]):
        bases.append((name, octs, list(syms) + list(extra)))
    for name, octs, syms in bases:
        for k in range(len(octs) + 1):
            add('%s cut after %d octets' % (name, k), octs[:k], syms)
    # headers that do not fit
    for hl in (1, 2, 3, 4, 5, 6, 9, 0x7F, 0xFF):
        for iei in (0, 8, 4, 5, 0x24):
            for il in (0, 1, 2, 3, 4, 5, 0xFF):
                b = dict(body=[hl, iei, il] + ds[:6], udl=9, text=[])
                octs, syms, want = deliver(udh=[], **b)
                add('header of length %d, element %02X of length %d' % (hl, iei, il), octs, syms + ds)
    for dcs in (0, 4, 8):
        for udl in (0, 1, 2, 3, 5, 8, 0x80, 0xFF):
            for udh in (None, []):
                b = dict(body=[5, 0, 3] + ds[:5], udl=udl, text=[])
                octs, syms, want = deliver(udh=udh, dcs=dcs, **b)
                add('user data length %d, coding %02X%s' % (udl, dcs, ', header' if udh == [] else ''), octs, syms + ds)
    for sur in ([0xD8, 0x3D], [0xDC, 0x00], [0xD8, 0x3D, 0x00, 0x41], [0xD8], [0x00]):
        octs, syms, want = deliver(dcs=8, body=sur, udl=len(sur), text=[])
        add('UCS2 text %s' % ' '.join('%02X' % x for x in sur), octs, syms)
    # time stamps that name no point in time
    good = [0x41, 0x50, 0x60, 0x70, 0x80, 0x90, 0x80]
    for i, v in ((1, 0x00), (1, 0x31), (2, 0x00), (2, 0x23), (3, 0x42), (4, 0x06), (5, 0x16), (0, 0xFA), (6, 0xFF), (6, 0xAF), (6, 0xF0), (6, 0x99), (6, 0x9F), (3, 0xFF)):
        t = list(good)
        t[i] = v
        octs, syms, want = deliver(**gsm_body('g3')[0])
        k = len(octs) - 3 - 1 - 7
        add('time stamp octet %d = %02X' % (i, v), octs[:k] + t + octs[k + 7:], syms + gsm_body('g3')[1])
    for k in range(7):
        octs, syms, want = deliver(**gsm_body('g3')[0])
        j = len(octs) - 3 - 1 - 7
        x = sym('any', 'octet')
        add('any time stamp octet %d' % k, octs[:j] + [x if i == k else v for i, v in enumerate(good)] + octs[j + 7:], syms + gsm_body('g3')[1] + [x], ('ValueError',))
    for k in (0, 2, 3):
        octs, syms, want = deliver(**gsm_body('g3')[0])
        add('message type %d' % k, octs[:1] + [k] + octs[2:], syms + gsm_body('g3')[1])
    for k in range(1, 2):
        add('%d arbitrary octets' % k, ds[:k], ds)

    def one(rep, lab, case):
        name, octs, syms, arg, may = case
        st = State()
        lab.eng.follow = True
        if arg is None:
            ref, st = lab.octets([interm(lab.eng, x) for x in octs], st)
        else:
            ref = arg(lab, octs)
        outs = lab.positional('decodeSmsPdu', [ref], list(dict.fromkeys(syms)), st)
        rep.ob('P01', name)
        if not outs:
            rep.note('%s: no exit found' % name)
        for out in outs:
            if out.kind != 'raise' or out.raised is None or lab.eng.p.cls('EncodingError') is None:
                continue
            if out.raised == 'EncodingError' or is_encoding_error(w, out.raised):
                continue
            marks = {x.args[0] for x in out.st.facts if x.op == 'maybe'}
            if out.sure or may and out.raised in may and marks <= may and not out.st.degraded:
                rep.bad('P01', '%s escapes (%s)' % (out.raised, kind_of(name)), f.loc, 'decoding raises %s: %s' % (out.raised, name))
                return
    # hexadecimal text
    h = list('0791361907001003')
    texts = [('odd number of digits', h[:7]), ('no digits', []), ('blanks', [' ', '\n'])]
    for c in 'ous':
        texts.append(('a character that is no digit (%s)' % c, h[:4] + [char('bad', c)] + h[4:7]))
        texts.append(('an odd number of digits and a character that is no digit (%s)' % c, h[:4] + [char('bad', c)] + h[4:6]))
    for c in 'g GZ\x00\r':
        texts.append(('a character that is no digit (%s)' % ascii(c), h[:4] + [c] + h[4:7]))
    texts.append(('a status line', '+CMGL: 1,1,,24'))
    for n in (1, 2, 3, 4, 8, 11, 16):
        texts.append(('%d digits' % n, h[:n]))
    for name, xs in texts:
        cases.append(('text: ' + name, list(xs), [x for x in xs if isinstance(x, T)], lambda lab, xs: string(lab, xs), set()))
    spread(rep, w, cases, one)


def kind_of(name):
    return re.sub(r'\d+ (arbitrary )?(octet|digit)s?|= ?[0-9A-F]{2}|\d+', '#', name)


def is_encoding_error(w, name):
    try:
        c = w.p.cls(name)
    except Exception:
        return False
    return any(getattr(k, 'name', None) == 'EncodingError' for k in w.p.mro(c))


def on(fn):
    def check(rep, repo, tier='quick'):
        return fn(rep, World(repo) if isinstance(repo, str) else repo)
    return check


RULES = {k[6:]: (on(v), 'other', TECH) for k, v in sorted(globals().items()) if k.startswith('check_P')}
