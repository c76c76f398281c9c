"""verdicts, evidence, known findings, exit codes"""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = VERIF + '/evidence'


class OutOfTime(BaseException):
    pass


class Broken(Exception):
    """the check cannot be applied (an anchor is gone): neither pass nor violation"""


class Report:
    def __init__(self, prop, tier='quick', seed=1):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obligations = 0
        self.proved = 0
        self.viol = []          # (key, where, text, witness)
        self.undecided = []
        self.counts = {}
        self.functions = set()
        self.rules = []
        self.samples = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def ok(self, n=1):
        self.obligations += n
        self.proved += n

    def undec(self, what):
        self.obligations += 1
        self.undecided.append(str(what)[:300])

    def violate(self, key, where, text, witness=None):
        self.obligations += 1
        if any(v[0] == key for v in self.viol):
            return
        self.viol.append((key, where, text, witness))

    def used(self, I):
        self.functions |= I.seen
        self.count('call_sites_interpreted', I.callsites)

    def part(self, fn, P, keys=''):
        """obligations of another property this one rests on; violations whose key matches are reported as this property's"""
        import re
        sub = Report(self.prop, self.tier, self.seed)
        try:
            fn(P, sub)
        except Broken as e:
            sub.undec(str(e))
        self.obligations += sub.obligations - len(sub.viol)
        self.proved += sub.proved
        self.undecided += sub.undecided
        self.functions |= sub.functions
        self.rules += [r for r in sub.rules if r not in self.rules]
        for k, n in sub.counts.items():
            self.count(k, n)
        for k, w, t, x in sub.viol:
            if re.search(keys, k):
                self.violate(self.prop + k[k.index(':'):] if ':' in k else k, w, t, x)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(str(s)[:600])

    def finish(self):
        known = {}
        p = VERIF + '/known_findings.json'
        if os.path.exists(p):
            for k in json.load(open(p)).get('findings', []):
                if k['property'] == self.prop and k.get('status') == 'known':
                    known[k['key']] = k
        fresh = []
        for v in self.viol:
            if v[0] in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[v[0]]['what']))
            else:
                fresh.append(v)
        if self.obligations == 0:
            raise Broken('no obligation was generated')
        os.makedirs(EVID, exist_ok=True)
        replay = None
        if fresh:
            os.makedirs(VERIF + '/build/replay', exist_ok=True)
            replay = VERIF + '/build/replay/%s.json' % self.prop
            json.dump([{'key': k, 'where': w, 'what': t, 'witness': x} for k, w, t, x in fresh], open(replay, 'w'), indent=1, default=str)
        cov = {
            'explanation': 'Static analysis of the type-checked program (no execution): ' + ' '.join(self.rules),
            'obligations': self.obligations,
            'discharged': self.proved,
            'undecided': len(self.undecided),
            'undecided_list': self.undecided[:20],
            'functions_analysed': len(self.functions),
            'functions': sorted(self.functions)[:400],
            'known_findings': len(self.viol) - len(fresh),
            'samples': self.samples,
        }
        cov.update(self.counts)
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
                   'wall_s': round(time.time() - self.t0, 2),
                   'violations': [{'key': k, 'where': w, 'what': t} for k, w, t, x in fresh]},
                  open(EVID + '/%s.json' % self.prop, 'w'), indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d undecided, %d functions, %.1f s' % (self.prop, self.obligations, self.proved, len(self.undecided), len(self.functions), time.time() - self.t0))
        for u in self.undecided[:5]:
            print('  undecided: ' + u)
        for k, w, t, x in fresh:
            print('  %s at %s: %s' % (k, w, t))
            if x:
                print('      e.g. %s' % (str(x)[:400],))
        if fresh:
            print('VIOLATION property=%s replay=%s' % (self.prop, replay))
            return 1
        return 0
