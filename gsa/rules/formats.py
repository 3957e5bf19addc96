"""Lines of the modem: the patterns of the library accept every well-formed line and their groups span
whole fields (R01).  Decided on the constant patterns in the source: language inclusion, and the groups
of the pattern on wordings of the format."""

import ast
import re
try:
    import re._parser as sp
except ImportError:
    import sre_parse as sp

from ..common import World
from ..regexlang import Lang, Unsupported, included

TECH = 'language inclusion of line formats in the constant patterns of the source, and spans of their groups'

MEM, NUM, STAMP = '"[A-Z][A-Z]"', r'"\+?[0-9]{3,15}"', '"[0-9][0-9]/[0-9][0-9]/[0-9][0-9],[0-9][0-9]:[0-9][0-9]:[0-9][0-9][+-][0-9][0-9]"'
S1, S2 = '15/06/21,14:53:08+08', '16/07/22,17:54:09-36'
# (format, tag at its beginning, well-formed lines, [(line, fields)])
FORMATS = [
    ('signal strength', '+CSQ', r'\+CSQ: ?[0-9]{1,2},[0-9]{1,2}',
     [('+CSQ: 18,99', ('18', '99')), ('+CSQ: 7,0', ('7', '0'))]),
    ('caller identification', '+CLIP', r'\+CLIP: ?%s,[0-9]{1,3}(,[^"]{0,12})?' % NUM,
     [('+CLIP: "+27821234567",145,,,,0', ('+27821234567', '145')), ('+CLIP: "0821234567",129', ('0821234567', '129'))]),
    ('new message', '+CMTI', r'\+CMTI: ?%s,[0-9]{1,3}' % MEM,
     [('+CMTI: "SM",5', ('SM', '5')), ('+CMTI: "ME",127', ('ME', '127'))]),
    ('new status report', '+CDSI', r'\+CDSI: ?%s,[0-9]{1,3}' % MEM,
     [('+CDSI: "SM",5', ('SM', '5')), ('+CDSI: "SR",127', ('SR', '127'))]),
    ('USSD answer', '+CUSD', r'\+CUSD: ?[0-2],"[^"]*",[0-9]{1,3}',
     [('+CUSD: 0,"Balance: R 12.50, ok",15', ('0', 'Balance: R 12.50, ok', '15')), ('+CUSD: 1,"1 = Yes; 2 = No",72', ('1', '1 = Yes; 2 = No', '72')),
      ('+CUSD: 2,"",68', ('2', '', '68'))]),
    ('stored message (PDU mode)', '+CMGR', r'\+CMGR: [0-4],("[^",]*")?,[0-9]{1,3}',
     [('+CMGR: 1,,26', ('1', '', '26')), ('+CMGR: 0,"Bob Ray",135', ('0', 'Bob Ray', '135'))]),
    ('stored message (text mode)', '+CMGR', r'\+CMGR: "[A-Z]{3,5} [A-Z]{4,6}",%s,("[^",]*")?,%s' % (NUM, STAMP),
     [('+CMGR: "REC UNREAD","+27821234567",,"%s"' % S1, ('REC UNREAD', '+27821234567', '', S1)),
      ('+CMGR: "REC READ","0821234567","Bob Ray","%s"' % S2, ('REC READ', '0821234567', 'Bob Ray', S2))]),
    ('stored status report (text mode)', '+CMGR', r'\+CMGR: ("[A-Z]{3,5} [A-Z]{4,6}"|[0-9]),[0-9]{1,3},[0-9]{1,3},(%s)?,[0-9]*,%s,%s,[0-9]{1,3}' % (NUM, STAMP, STAMP),
     [('+CMGR: "REC READ",6,135,"0870000000",129,"%s","%s",70' % (S1, S2), ('REC READ', '6', '135', '0870000000', '129', S1, S2, '70')),
      ('+CMGR: 2,6,135,,,"%s","%s",0' % (S1, S2), ('2', '6', '135', '', S1, S2, '0'))]),
    ('list of messages (PDU mode)', '+CMGL', r'\+CMGL: [0-9]{1,3},[0-4],("[^",]*")?,[0-9]{1,3}',
     [('+CMGL: 5,1,,26', ('5', '1', '', '26')), ('+CMGL: 34,0,"Bob",135', ('34', '0', 'Bob', '135'))]),
    ('list of messages (text mode)', '+CMGL', r'\+CMGL: [0-9]{1,3},"[A-Z]{3,5} [A-Z]{4,6}",%s,("[^",]*")?,%s' % (NUM, STAMP),
     [('+CMGL: 5,"REC UNREAD","+27821234567",,"%s"' % S1, ('5', 'REC UNREAD', '+27821234567', '', S1)),
      ('+CMGL: 134,"REC READ","0821234567","Bob Ray","%s"' % S2, ('134', 'REC READ', '0821234567', 'Bob Ray', S2))]),
    ('list of calls', '+CLCC', r'\+CLCC: [0-9]{1,3},[01],[0-5],[0-9],[01],"(\+?[0-9]{3,15})?",[0-9]{1,3}',
     [('+CLCC: 1,0,2,0,0,"+27821234567",145', ('1', '0', '2', '0', '0', '+27821234567', '145')), ('+CLCC: 12,1,4,0,1,"",129', ('12', '1', '4', '0', '1', '', '129'))]),
    ('name of the network', '+COPS', r'\+COPS: [0-4],[0-2],"[A-Za-z][A-Za-z0-9 .&-]{0,15}"(,[0-9])?',
     [('+COPS: 0,0,"MTN"', ('0', '0', 'MTN')), ('+COPS: 1,2,"T-Mobile A & B",7', ('1', '2', 'T-Mobile A & B', '7'))]),
    ('registration', '+CREG', r'\+CREG: ?[0-2],[0-5]', [('+CREG: 0,1', ('0', '1')), ('+CREG: 2,5', ('2', '5'))]),
    ('service centre', '+CSCA', r'\+CSCA: ?%s,[0-9]{1,3}' % NUM,
     [('+CSCA: "+27831000015",145', ('+27831000015', '145')), ('+CSCA: "0831000015",129', ('0831000015', '129'))]),
    ('call begins (Huawei)', '^ORIG', r'\^ORIG:[0-9],[0-9]', [('^ORIG:1,0', ('1', '0'))]),
    ('call answered (Huawei)', '^CONN', r'\^CONN:[0-9],[0-9]', [('^CONN:1,0', ('1', '0'))]),
    ('call ended (Huawei)', '^CEND', r'\^CEND:[0-9],[0-9]{1,3},[0-9]{1,3},[0-9]{1,3}', [('^CEND:1,267,29,16', ('1', '267', '29', '16')), ('^CEND:2,0,3,104', ('2', '0', '3', '104'))]),
    ('call begins (Wavecom)', '+WIND: 5', r'\+WIND: 5,[0-9]', [('+WIND: 5,1', ('5', '1'))]),
    ('call ended (Wavecom)', '+WIND: 6', r'\+WIND: 6,[0-9]', [('+WIND: 6,1', ('6', '1'))]),
    ('call ended (ZTE)', 'HANGUP', r'HANGUP: ?[0-9]{1,3}', [('HANGUP: 7', ('7',)), ('HANGUP: 129', ('129',))]),
]


def tag(tree):
    out = ''
    for op, av in tree:
        o = str(op)
        if o == 'AT':
            continue
        if o != 'LITERAL':
            break
        out += chr(av)
    return out


def patterns(w):
    """constant patterns of the modem's lines that have groups: (pattern, function or module, node)"""
    out = []
    for name, m in sorted(w.p.modules.items()):
        if not name.startswith('gsmmodem'):
            continue
        docs = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Expr):
                docs.add(id(n.value))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and '(' in n.value:
                try:
                    t = sp.parse(n.value)
                except Exception:
                    continue
                if t.state.groups > 1:
                    out.append((n.value, tag(t), t, '%s:%d' % (m.path if hasattr(m, 'path') else name, n.lineno)))
    return out


def check_R01(rep, root, tier):
    """formats of lines"""
    w = World(root)
    pats = patterns(w)
    for p, t, tree, where in pats:
        rep.ob('R01 patterns', p)
    for name, tg, spec, words in FORMATS:
        mine = [x for x in pats if x[1].startswith(tg) or (tg.startswith(x[1]) and len(x[1]) >= 5)]
        if not mine:
            rep.note('R01: no constant pattern for "%s"' % name)
            continue
        lang = Lang(spec, 0, 'fullmatch')
        good, missed, unsure = [], [], False
        for p, t, tree, where in mine:
            try:
                got = Lang(p, 0, 'match')
                word = included(lang, got)
            except Unsupported:
                unsure = True
                continue
            if word is None:
                good.append((p, tree, where))
            else:
                missed.append((word, p, where))
        rep.ob('R01 formats', name)
        if not good:
            # a pattern made for another format with the same tag says nothing about this one
            other = [v for n, g, sp_, ws in FORMATS if g == tg and n != name for v, fs in ws]
            near = [x for x in missed if any(re.match(x[1], s) for s, fs in words)] or \
                   [x for x in missed if not any(re.match(x[1], s) for s, fs in other)]
            if max(len(fs) for v, fs in words) > 1:
                near = [x for x in near if re.compile(x[1]).groups > 1]
            if near and not unsure:
                rep.bad('R01', 'not accepted: ' + name, near[0][2], 'the pattern %r does not accept the line %r' % (near[0][1][:60], near[0][0][:80]))
            else:
                rep.note('R01: pattern for "%s" not identified' % name)
            continue
        for p, tree, where in good:
            for s, fs in words:
                m = re.match(p, s)
                spans = [m.span(i) for i in range(1, 1 + len(m.groups())) if m.group(i)]
                at = len(tg)
                for f in fs:
                    if not f:
                        continue
                    rep.ob('R01 fields', (name, p, s, f))
                    i = s.find(f, at) if not tg.endswith(f) else len(tg) - len(f)
                    if i < 0:
                        continue
                    at = i + len(f)
                    inside = [k for k in range(i, at) if any(a <= k < b for a, b in spans)]
                    rest = [s[k] for k in range(i, at) if k not in inside]
                    if inside and any(c.isalnum() or c == '+' and f[1:].isdigit() for c in rest):
                        rep.bad('R01', 'cut field: ' + name, where, 'in the line %r the groups of %r cover only %r of the field %r' % (s, p[:60], ''.join(s[k] for k in inside), f))


RULES = {'R01': (check_R01, 'other', TECH)}
