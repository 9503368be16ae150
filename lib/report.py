"""Findings, known findings, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.findings = {}      # key -> detail
        self.counts = {}
        self.samples = []
        self.rules = []
        self.explain = ''
        self.assumptions = []
        self.level = 'other'
        self.extra = {}

    def violation(self, key, detail=''):
        """key: stable identity (construct and rule, no line numbers)."""
        self.findings.setdefault(key, detail)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, least):
        """Fail closed when the analysis has lost sight of its subject."""
        if self.counts.get(what, 0) < least:
            self.violation('coverage/%s' % what, 'only %d %s analysed, expected at least %d: the analysis no longer sees its subject'
                           % (self.counts.get(what, 0), what, least))

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def finish(self):
        known, fixed = load_known()
        new = {}
        for k, d in self.findings.items():
            if (self.prop, k) in known:
                print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, k, known[(self.prop, k)]))
            else:
                new[k] = d
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        cov = dict(self.counts)
        cov['rule'] = ' | '.join(self.rules)
        cov['samples'] = self.samples
        cov['explanation'] = self.explain or cov['rule']
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open('%s/evidence/%s.json' % (VERIF, self.prop), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        path = '%s/evidence/%s.violations.txt' % (VERIF, self.prop)
        if os.path.exists(path):
            os.unlink(path)
        if new:
            with open(path, 'w') as f:
                for k, d in new.items():
                    f.write('== %s\n%s\n\n' % (k, d))
            for k, d in list(new.items())[:12]:
                print('%s: %s\n    %s' % (self.prop, k, str(d)[:1200].replace('\n', '\n    ')))
            if len(new) > 12:
                print('... and %d more in %s' % (len(new) - 12, path))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            sys.stdout.flush()
            return 1
        print('%s: held; %s; %.1fs' % (self.prop, ', '.join('%s=%s' % x for x in self.counts.items()), time.time() - self.t0))
        return 0


def load_known():
    known, fixed = {}, []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                # known: property=<id> key=<key> :: description
                head, desc = l[6:].split('::', 1)
                a = head.strip().split(' ', 1)
                known[(a[0].split('=', 1)[1], a[1].split('=', 1)[1].strip())] = desc.strip()
            elif l.startswith('fixed:'):
                fixed.append(l)
    return known, fixed
