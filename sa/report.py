"""Findings, coverage and the command-line contract of a check."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    path = None         # (function, conditions met with their outcomes), for a disagreement with a reference definition

    def __init__(self, rule, construct, where, msg, trace=()):
        self.rule, self.construct, self.where, self.msg, self.trace = rule, construct, where, msg, list(trace)

    @property
    def key(self):
        return '%s:%s' % (self.rule, self.construct)


class Report:
    """what one analysis did for one property"""
    def __init__(self, rule):
        self.rule = rule
        self.findings = []
        self.counts = {}
        self.samples = []
        self.undecided = []
        self.form = []              # disagreements with a reference definition that are differences of form only
        self.functions = set()
        self.missing = []
        self.cov = set()            # conditions of the source with the outcomes met in decided cases
        self.instances = 0          # rule instances decided
        self.floor = 1              # fewer decided instances than this: analysis broken

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def begin(self, it):
        """a case starts: what was met since the last decided case belongs to it"""
        if not it.pending:
            self.cov |= it.cov
        it.cov = set()
        it.pending = True

    def took(self, it):
        """the case is decided"""
        self.instances += 1
        self.cov |= it.cov
        it.cov = set()
        it.pending = False

    def merge(self, r):
        """add what another worker of the same analysis did"""
        self.findings += [f for f in r.findings if sum(g.construct == f.construct for g in self.findings) < 3]
        for k, n in r.counts.items():
            self.count(k, n)
        self.samples = (self.samples + r.samples)[:8]
        self.undecided = sorted(set(self.undecided + r.undecided))
        self.functions |= r.functions
        self.missing = sorted(set(self.missing + r.missing))
        self.instances += r.instances
        self.cov |= r.cov

    def find(self, construct, where, msg, trace=()):
        self.findings.append(Finding(self.rule, construct, where, msg, trace))


def known_findings():
    """-> {(property, key): text}; 'fixed:' lines suppress nothing"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if line.startswith('known: '):
            f = line[7:].split(None, 2)
            prop = f[0].split('=', 1)[1]
            key = f[1].split('=', 1)[1]
            out[(prop, key)] = f[2] if len(f) > 2 else ''
    return out


def finish(prop, tier, seed, reports, t0, level_text):
    known = known_findings()
    viol, kn = [], []
    for r in reports:
        for f in r.findings:
            if (prop, f.key) in known:
                kn.append(f)
            else:
                viol.append(f)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    broken = []
    short = sum(r.instances for r in reports) < 0.5 * sum(r.floor for r in reports)
    for r in reports:
        if short and r.instances < r.floor and not r.findings:
            broken.append('%s: decided %d rule instances, at least %d expected; missing anchors: %s; undecided: %s'
                          % (r.rule, r.instances, r.floor, r.missing[:8], r.undecided[:8]))
    cov = {'explanation': level_text,
           'analyses': [{'rule': r.rule, 'instances_decided': r.instances, 'counts': r.counts,
                         'functions': sorted(r.functions), 'differences_of_form': r.form[:20], 'undecided': r.undecided[:40], 'missing_anchors': r.missing,
                         'samples': r.samples[:6]} for r in reports],
           'functions_analysed': len(set().union(*[r.functions for r in reports])) if reports else 0,
           'instances_decided': sum(r.instances for r in reports)}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol),
          'assumptions': ASSUMPTIONS}
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for f in kn:
        print('KNOWN-FINDING: property=%s %s %s' % (prop, f.key, f.msg))
    if viol:
        rp = os.path.join(VERIF, 'evidence', 'replay', prop + '.txt')
        with open(rp, 'w') as fh:
            for f in viol:
                fh.write('rule: %s\nconstruct: %s\nat: %s\n%s\n' % (f.rule, f.construct, f.where, f.msg))
                for t in f.trace:
                    fh.write('    %s\n' % t)
                fh.write('\n')
        for f in viol[:20]:
            print('%s: [%s] %s: %s' % (f.where, f.rule, f.construct, f.msg))
            for t in f.trace[:6]:
                print('      ' + t)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if broken:
        for b in broken:
            print('ANALYSIS-BROKEN ' + b)
        return 2
    print('property=%s held: %d rule instances decided in %d functions, %d undecided, %.1fs' % (
        prop, cov['instances_decided'], cov['functions_analysed'], sum(len(r.undecided) for r in reports), time.time() - t0))
    return 0


ASSUMPTIONS = [
    'Python evaluates the analysed subset of the language as the abstract interpreter models it; the modelled library functions (sympy, numpy, scipy, builtins) mean what their documentation says.',
    'A failing `assert` states a precondition: behaviour of inputs that fail an assertion is not constrained unless the property is about rejection.',
    'Constructs outside the modelled subset leave the path undecided (listed under "undecided"), never alarmed on.',
]
