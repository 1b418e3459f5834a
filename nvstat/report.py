"""Collecting obligations, violations and evidence of one check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding(object):
    def __init__(self, rule, loc, construct, why):
        self.rule, self.loc, self.construct, self.why = rule, loc, construct, why

    def where(self):
        if not self.loc:
            return '?'
        f, ln, fn = self.loc
        i = f.find('/src/')
        return '%s:%s in %s' % (f[i + 1:] if i >= 0 else f, ln, fn)

    def key(self):
        return '%s|%s|%s' % (self.rule, self.loc[2] if self.loc else '?', self.construct)

    def text(self):
        w = str(self.why)
        return '%s: [%s] %s -- %s' % (self.where(), self.rule, self.construct, w if len(w) < 400 else w[:400] + '..')


class Report(object):
    """what one check analysed and what it found"""

    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.counts = {}        # rule -> [obligations, discharged]
        self.violations = []
        self.undecided = []
        self.notes = []
        self.samples = {}
        self.analysed = {'functions': set(), 'cases': set(), 'layouts': 0}
        self._seen = set()
        self.rules = {}

    def rule(self, rid, text):
        """what the rule says (goes to the evidence)"""
        self.rules[rid] = text

    def ob(self, rule, ok, loc=None, construct='', why='', n=1):
        """one obligation; a failed one is a violation at a construct of the source"""
        c = self.counts.setdefault(rule, [0, 0])
        c[0] += n
        if ok:
            c[1] += n
            if construct and len(self.samples.setdefault(rule, [])) < 4:
                self.samples[rule].append(construct)
            return True
        self.violation(rule, loc, construct, why)
        return False

    def violation(self, rule, loc, construct, why):
        f = Finding(rule, loc, construct, why)
        k = (rule, loc, why)
        if k in self._seen:
            return
        self._seen.add(k)
        self.violations.append(f)
        # the verdict of the run is settled; further proofs get a small budget
        from . import poly
        poly.TOTAL[1] = min(poly.TOTAL[1], poly.TOTAL[0] + 3000000)

    def undecide(self, rule, loc, construct, why):
        f = Finding(rule, loc, construct, why)
        k = ('u', rule, loc, why)
        if k in self._seen:
            return
        self._seen.add(k)
        self.undecided.append(f)

    def saw(self, result):
        self.analysed['cases'].add(result.case.name)
        self.analysed['layouts'] += 1


def known_findings():
    """entries 'finding: property=<id> key=<rule|function|construct>' of the committed file"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property='):
                head, _, key = line[len('finding: property='):].partition(' key=')
                out.setdefault(head.strip(), set()).add(key.strip())
    return out


def finish(rep, level='other', explanation='', assumptions=(), functions=()):
    known = known_findings().get(rep.pid, set())
    new, old = [], []
    for f in rep.violations:
        (old if f.key() in known else new).append(f)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (rep.pid, f.text()))
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    tot = sum(c[0] for c in rep.counts.values())
    done = sum(c[1] for c in rep.counts.values())
    cov = {
        'explanation': explanation,
        'obligations': tot,
        'discharged': done,
        'undecided': len(rep.undecided),
        'rules': {r: {'applied': rep.rules.get(r, ''), 'obligations': c[0], 'discharged': c[1],
                      'examples': rep.samples.get(r, [])} for r, c in sorted(rep.counts.items())},
        'entry_points': len(rep.analysed['cases']),
        'input_layouts_analysed': rep.analysed['layouts'],
        'source_functions_analysed': len(functions),
        'samples': sorted(functions)[:200],
        'undecided_constructs': [f.text() for f in rep.undecided][:50],
        'notes': rep.notes[:50],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join('evidence', '%s.json' % rep.pid)
    doc = {'property': rep.pid, 'tier': rep.tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': list(assumptions), 'wall_s': round(time.time() - rep.t0, 3),
           'violations': [f.text() for f in new]}
    with open(os.path.join(VERIF, path), 'w') as fh:
        json.dump(doc, fh, indent=1, default=str)
        fh.write('\n')
    print('%s: %d obligations, %d discharged, %d undecided; %d entry points in %d input layouts; %d source functions' % (
        rep.pid, tot, done, len(rep.undecided), len(rep.analysed['cases']), rep.analysed['layouts'], len(functions)))
    for f in rep.undecided[:20]:
        print('UNDECIDED %s' % f.text())
    if new:
        rp = os.path.join('evidence', '%s.violations.txt' % rep.pid)
        with open(os.path.join(VERIF, rp), 'w') as fh:
            for f in new:
                fh.write(f.text() + '\n')
        for f in new[:40]:
            print('  ' + f.text())
        print('VIOLATION property=%s replay=%s' % (rep.pid, rp))
        return 1
    if tot == 0:
        print('ERROR: no obligation was generated for %s' % rep.pid)
        return 2
    return 0
