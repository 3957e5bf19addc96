"""What a check found and covered."""

import json
import os
import time


class Report(object):
    def __init__(self, pid):
        self.pid = pid
        self.findings = []      # (key, where, message)
        self.obligations = {}   # rule -> set of instances
        self.broken = set()
        self.functions = set()
        self.paths = 0
        self.states = 0
        self.steps = 0
        self.notes = []
        self.samples = []
        self.t0 = time.time()

    def ob(self, rule, inst):
        self.obligations.setdefault(rule, set()).add(str(inst))

    def bad(self, rule, construct, where, msg):
        """a violation of rule at construct; keyed without line numbers"""
        key = '%s|%s' % (rule, construct)
        if key in self.broken:
            return
        self.broken.add(key)
        self.ob(rule, construct)
        self.findings.append((key, where, msg))

    def check(self, ok, rule, construct, where, msg):
        self.ob(rule, construct)
        if not ok:
            self.bad(rule, construct, where, msg)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def ran(self, m, outs=()):
        self.functions |= m.stats['functions']
        self.paths += len(outs)
        self.states += m.stats['states']
        m.stats['states'] = 0
        self.steps += m.steps

    def part(self):
        """an empty report for a part of the work"""
        return Report(self.pid)

    def absorb(self, r):
        """add the results of a part"""
        for k, v in r.obligations.items():
            self.obligations.setdefault(k, set()).update(v)
        for f in r.findings:
            if f[0] not in self.broken:
                self.broken.add(f[0])
                self.findings.append(f)
        for n in r.notes:
            self.note(n)
        self.functions |= r.functions
        self.paths += r.paths
        self.states += r.states
        self.steps += r.steps

    def nobs(self):
        return sum(len(v) for v in self.obligations.values())


def write_evidence(rep, level, technique, tier, seed, path, known):
    nviol = len([f for f in rep.findings if f[0] not in known])
    ob = {r: sorted(v)[:40] for r, v in sorted(rep.obligations.items())}
    cov = {
        'obligations': rep.nobs(),
        'discharged': rep.nobs() - len(rep.findings),
        'explanation': 'Static analysis (%s). %d rule obligations decided over %d analysed functions, %d abstract exits and %d abstract states; '
                       'the source is parsed and interpreted abstractly, never executed.' % (technique, rep.nobs(), len(rep.functions), rep.paths, rep.states),
        'functions_analysed': sorted(rep.functions),
        'abstract_exits': rep.paths,
        'abstract_states': rep.states,
        'abstract_steps': rep.steps,
        'rules': ob,
        'samples': [s for s in rep.samples[:8]] or [i for v in ob.values() for i in v][:8],
        'notes': rep.notes,
        'known_findings': [k for k in known],
    }
    ev = {'property': rep.pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - rep.t0, 3),
          'violations': nviol,
          'assumptions': ['CPython 3 semantics of the constructs used', 'no dynamic code generation or monkey patching of the analysed classes',
                          'external libraries behave as their models state (pyserial, threading, re, datetime)']}
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
