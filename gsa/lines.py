"""Languages of response lines from path conditions."""

import re

from .terms import T, cval, is_k
from . import regexlang
from .regexlang import Lang, Const, Comb


def flagbits(fl):
    if isinstance(fl, int):
        return fl
    b = 0
    for n in re.findall(r'[A-Z]+', str(fl)):
        b |= int(getattr(re, n, 0) or 0)
    return b


def match_of(t):
    """t is a regex match object term: (how, pattern, flags, subject)"""
    if t.op == 'm' and t.args[0] in ('match', 'search', 'fullmatch') and t.args[1].op == 'regex' and len(t.args) >= 3:
        rx = t.args[1]
        return t.args[0], rx.args[0], flagbits(rx.args[1] if len(rx.args) > 1 else ''), t.args[2]
    return None


def group_of(t):
    """t is a group of a match: (match term, number, converted to int)"""
    conv = False
    while t.op == 'call' and t.args[0] == 'int' and len(t.args) == 2:
        conv, t = True, t.args[1]
    if t.op == 'm' and t.args[0] == 'group' and len(t.args) == 3 and t.args[2].op == 'const' and match_of(t.args[1]):
        return t.args[1], cval(t.args[2]), conv
    if t.op == 'item' and len(t.args) == 2 and t.args[1].op == 'const' and t.args[0].op == 'm' and t.args[0].args[0] == 'groups' and match_of(t.args[0].args[1]) and isinstance(cval(t.args[1]), int):
        return t.args[0].args[1], cval(t.args[1]) + 1, conv
    if t.op == 'item' and len(t.args) == 2 and t.args[1].op == 'const' and match_of(t.args[0]) and isinstance(cval(t.args[1]), int):
        return t.args[0], cval(t.args[1]), conv
    return None


def consts(t):
    if t.op == 'const' and not isinstance(cval(t), (list, dict)):
        v = cval(t)
        if isinstance(v, (tuple, frozenset, set)):
            return list(v)
        return [v]
    if t.op in ('tuple', 'clist', 'cset', 'set') and all(isinstance(x, T) and x.op == 'const' for x in t.args):
        return [cval(x) for x in t.args]
    return None


def atom(t, line):
    """language of the lines for which the condition t holds; None: says nothing about the line; False: not understood"""
    if line not in t.subs:
        return None
    if t.op in ('or', 'and'):
        subs = [atom(x, line) for x in t.args]
        if any(x is False or x is None for x in subs):
            return False
        return Comb(t.op, *subs)
    if t.op == 'not':
        x = atom(t.args[0], line)
        return Comb('not', x) if x else x
    if t.op == 'const':
        return None
    if t.op == 'isnone':
        m = match_of(t.args[0])
        if m and m[3] is line:
            return Comb('not', Lang(m[1], m[2], m[0]))
        if t.args[0] is line:
            return Const([])
        return False
    if t.op == 'truthy':
        x = t.args[0]
        m = match_of(x)
        if m and m[3] is line:
            return Lang(m[1], m[2], m[0])
        if x.op == 'm' and x.args[0] in ('startswith', 'endswith') and x.args[1] is line and len(x.args) == 3:
            c = consts(x.args[2])
            if c and all(isinstance(v, str) for v in c):
                if x.args[0] == 'startswith':
                    return Const(c, True)
                return Lang('(' + '|'.join(re.escape(v) for v in c) + ')$', 0, 'search')
        return False
    if t.op == 'eq':
        for a, b in (t.args, t.args[::-1]):
            if b.op != 'const':
                continue
            c = cval(b)
            if a is line and isinstance(c, str):
                return Const([c])
            if a.op == 'slice' and a.args[0] is line and is_k(a.args[3] if len(a.args) > 3 else b, None) and isinstance(c, str):
                lo, hi = a.args[1], a.args[2]
                if is_k(lo, None) and hi.op == 'const' and isinstance(cval(hi), int) and cval(hi) == len(c):
                    return Const([c], True)
                return False
            g = group_of(a)
            if g and match_of(g[0])[3] is line:
                return group_lang(g, [c])
        return False
    if t.op == 'in':
        a, b = t.args
        if b is line and a.op == 'const' and isinstance(cval(a), str):
            return Lang(re.escape(cval(a)), 0, 'search')
        c = consts(b)
        if c is not None:
            if a is line:
                return Const([v for v in c if isinstance(v, str)])
            g = group_of(a)
            if g and match_of(g[0])[3] is line:
                return group_lang(g, c)
        return False
    return False


def group_lang(g, values):
    how, pat, fl, _ = match_of(g[0])
    alts = []
    for c in values:
        if isinstance(c, bool) or c is None:
            return False
        if isinstance(c, int) and g[2]:
            alts.append('0*%d' % c)
        elif isinstance(c, str) and not g[2]:
            alts.append(re.escape(c))
        else:
            continue
    if not alts:
        return Const([])
    l = Lang(pat, fl, how, {g[1]: '|'.join('(?:%s)' % a for a in alts)})
    return Comb('and', l, Lang(pat, fl, how))


def lang(conds, line):
    """language of the lines compatible with all conditions [(term, taken)]; second result: False if some condition was not understood"""
    out, full = [], True
    for t, taken in conds:
        while t.op == 'not':
            t, taken = t.args[0], not taken
        try:
            l = atom(t, line)
        except (regexlang.Unsupported, re.error):
            l = False
        if l is None:
            continue
        if l is False:
            full = False
            continue
        out.append(l if taken else Comb('not', l))
    return out, full


def meets(ls, piece):
    """a line of the piece compatible with the languages, or None"""
    d = regexlang.differ(Comb('and', piece, *ls), Const([]))
    return d[0] if d else None
