#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [--thorough]   (or: run.py all)"""

import os
import sys
import time
import json
import importlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
REPO = os.environ.get('GSA_REPO', '/repo')

from gsa.report import Report, write_evidence          # noqa: E402
from gsa.project import Anchor                          # noqa: E402

MODULES = ('serial', 'modem', 'setup', 'sms', 'waits', 'calls', 'state', 'pdu', 'tools', 'names', 'formats')


def load_known():
    """known findings: lines 'finding: property=<id> key=<rule|construct> :: text' and 'fixed: ...' (informative)"""
    out = {}
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding: property='):
                head, _, text = line[len('finding: property='):].partition(' :: ')
                pid, _, key = head.partition(' key=')
                out.setdefault(pid.strip(), {})[key.strip()] = text.strip()
    return out


def rules():
    r = {}
    for m in MODULES:
        try:
            mod = importlib.import_module('gsa.rules.' + m)
        except ModuleNotFoundError as e:
            if e.name != 'gsa.rules.' + m:
                raise
            continue
        r.update(mod.RULES)
    return r


def run(pid, tier, seed):
    known = load_known().get(pid, {})
    fn, level, technique = rules()[pid]
    rep = Report(pid)
    try:
        fn(rep, REPO, tier)
    except Anchor as e:
        rep.bad('anchor', str(e), REPO, 'a public entry point the property is anchored to is gone: %s' % e)
    except Exception as e:      # the analysis could not digest the code: nothing decided beyond what was reported so far
        if os.environ.get('GSA_DEBUG'):
            raise
        rep.note('analysis stopped early: %s' % ''.join(traceback.format_exception_only(type(e), e)).strip())
        sys.stderr.write('NOTE property=%s analysis stopped early: %r\n' % (pid, e))
    evdir = os.environ.get('GSA_EV') or os.path.join(HERE, 'evidence')
    ev = os.path.join(evdir, pid + '.json')
    write_evidence(rep, level, technique, tier, seed, ev, known)
    bad = [f for f in rep.findings if f[0] not in known]
    for key, where, msg in rep.findings:
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key] or msg))
    for key, where, msg in bad:
        print('%s: %s [%s]' % (where, msg, key))
    if bad:
        rp = os.path.join(evdir, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump([{'rule': k, 'where': w, 'message': m} for k, w, m in bad], f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d exits=%d wall=%.1fs%s' % (pid, rep.nobs(), len(rep.functions), rep.paths, time.time() - rep.t0,
                                                                              ' notes=%d' % len(rep.notes) if rep.notes else ''))
    return 0


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if args and args[0] == 'all':
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        ids = sorted(rules()) if len(args) == 1 else args[1:]

        def one(i):
            t = time.time()
            p = subprocess.run([sys.executable, os.path.abspath(__file__), i] + (['--thorough'] if tier == 'thorough' else []), capture_output=True, text=True)
            return i, p.returncode, p.stdout, p.stderr, time.time() - t
        rc = 0
        with ThreadPoolExecutor(8) as ex:
            for i, c, o, e, t in ex.map(one, ids):
                if c or '-v' in sys.argv or e:
                    sys.stdout.write(o)
                    sys.stdout.write(e[-1500:])
                else:
                    sys.stdout.write(o.splitlines()[-1] + '\n' if o else '%s: no output\n' % i)
                    for l in o.splitlines():
                        if l.startswith('KNOWN-FINDING'):
                            print('   ' + l)
                rc = rc or c
        return rc
    return run(args[0], tier, seed)


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':     # deterministic iteration order of sets
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    sys.exit(main())
