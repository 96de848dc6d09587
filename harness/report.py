"""Evidence, violations and known findings."""
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# How many times the basic number of cases a check takes: quick ones (a minute or
# less each), and thorough ones.
TIMES = {'C01': 12, 'C02': 12, 'C03': 10, 'C04': 12, 'C05': 6, 'C06': 20, 'C07': 12, 'C08': 12, 'C09': 6,
         'C10': 12, 'C11': 10, 'C12': 10, 'C13': 3, 'C14': 2, 'C15': 1, 'C16': 2.5, 'C17': 5, 'C18': 1,
         'C19': 1.5, 'C20': 30, 'C21': 2.5, 'C22': 15, 'C23': 1.5}
MORE = {'C01': 6, 'C02': 6, 'C03': 5, 'C04': 6, 'C05': 3, 'C06': 8, 'C07': 5, 'C08': 4, 'C10': 4, 'C11': 4,
        'C12': 3, 'C20': 10, 'C22': 8}


class Check:
    def __init__(self, prop, argv):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if '--thorough' in argv:
            self.tier = 'thorough'
        if '--quick' in argv:
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.dropped = 0
        self.samples = []
        self.parts = {}
        self.violations = []
        self.known = []
        self.exhaustive = {}
        self.findings = load_findings(prop)

    def n(self, quick, thorough):
        """A bound, or a number of cases (which quick checks multiply)."""
        if quick < 80 or thorough is None:
            return thorough if self.thorough else quick
        times = MORE if self.thorough else TIMES
        times = float(os.environ.get('PARAGAMI_TIMES') or times.get(self.prop, 1))
        return int((thorough if self.thorough else quick) * times)

    def add_tlc(self, stats, part):
        self.states += stats['states']
        self.transitions += stats['transitions']
        self.dropped += stats.get('dropped', 0)
        d = self.parts.setdefault(part, {})
        for k in ('states', 'transitions', 'dropped'):
            d[k] = d.get(k, 0) + stats.get(k, 0)

    def validated(self, part, n=1):
        self.traces += n
        d = self.parts.setdefault(part, {})
        d['traces'] = d.get('traces', 0) + n

    def count(self, part, key, n=1):
        d = self.parts.setdefault(part, {})
        d[key] = d.get(key, 0) + n

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, text, case, signature=None):
        """A case on which the real code breaks the property."""
        sig = signature or ''
        for f in self.findings:
            if f['signature'] == sig and sig:
                self.known.append(f)
                return
        self.violations.append({'what': text, 'signature': sig, 'case': case})

    def finish(self, assumptions=()):
        evid = os.environ.get('PARAGAMI_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or ['none'],
               'dropped_for_32_bit_overflow': self.dropped,
               'parts': self.parts}
        if self.exhaustive:
            cov['exhaustive_parts'] = self.exhaustive
        doc = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
               'level': 'model_checking', 'coverage': cov,
               'assumptions': list(assumptions),
               'wall_s': round(time.time() - self.t0, 2),
               'violations': len(self.violations)}
        with open(os.path.join(evid, self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        for f in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        if not self.violations:
            print('%s held: %d states, %d transitions, %d traces, %.1f s' % (
                self.prop, self.states, self.transitions, self.traces, time.time() - self.t0))
            return 0
        path = os.path.join(evid if 'PARAGAMI_EVIDENCE' in os.environ else 'evidence',
                            'replay', self.prop + '.json')
        with open(os.path.join(VERIF, path), 'w') as f:
            json.dump({'property': self.prop, 'seed': self.seed,
                       'violations': self.violations[:20]}, f, indent=1, default=str)
        for v in self.violations[:5]:
            print('  ' + v['what'][:600].replace('\n', ' '))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def load_findings(prop):
    """Lines 'finding: property=ID signature=SIG what'; 'fixed:' lines suppress nothing."""
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) signature=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append({'signature': m.group(2), 'what': m.group(3)})
    return out
