"""Obligations, verdicts, known findings and evidence of one check."""
import json
import re
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Obligation:
    def __init__(self, rule, key, where, status, detail):
        self.rule, self.key, self.where, self.status, self.detail = rule, key, where, status, detail


class Report:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.rules = {}
        self.counts = {}
        self.scope = []
        self.t0 = time.time()
        self.functions = set()
        self.files = set()
        self.seen = []

    def rule(self, name, text):
        self.rules[name] = text

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, rule, key, status, where='', detail=''):
        """one proof obligation: status True (holds), False (violated), None (not decided)"""
        self.obs.append(Obligation(rule, key, where, status, detail))
        return status

    def saw(self, I):
        if not any(I is x for x in self.seen):
            self.seen.append(I)
        for q in getattr(I, 'functions_seen', {}):
            self.functions.add(str(q))

    def guard(self, rule, key, f, where=''):
        """run f; an internal limitation of the analyser leaves the obligation undecided"""
        from .loader import AnchorMissing
        try:
            return f()
        except AnchorMissing:
            raise
        except RecursionError:
            self.ob(rule, key, None, where, 'analysis gave up: term too deep')
        except Exception as e:
            if os.environ.get('NMP_DEBUG'):
                traceback.print_exc()
            self.ob(rule, key, None, where, 'analysis gave up: %s: %s' % (type(e).__name__, e))
        return None

    # ------------------------------------------------------------

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                line = line.rstrip('\n')
                m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', line)
                if m and m.group(1) == self.pid:
                    out[m.group(2)] = m.group(3)
        return out

    def finish(self):
        known = self.known()
        bad = [o for o in self.obs if o.status is False]
        und = [o for o in self.obs if o.status is None]
        good = [o for o in self.obs if o.status is True]
        listed, fresh = [], []
        for o in bad:
            (listed if o.rule + ':' + o.key in known else fresh).append(o)
        for k in sorted({o.rule + ':' + o.key for o in listed}):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        for o in und:
            print('UNDECIDED property=%s rule=%s %s %s: %s' % (self.pid, o.rule, o.key, o.where, o.detail[:400]))
        edir = os.environ.get('NMP_EVDIR') or os.path.join(VERIF, 'evidence')
        os.makedirs(edir, exist_ok=True)
        replay = os.path.join(edir, self.pid + '.violations.txt')
        if fresh:
            with open(replay, 'w') as f:
                for o in fresh:
                    f.write('property %s violated\n  rule: %s: %s\n  construct: %s\n  at: %s\n  why: %s\n\n' % (
                        self.pid, o.rule, self.rules.get(o.rule, ''), o.key, o.where, o.detail))
        elif os.path.exists(replay):
            os.remove(replay)
        for o in fresh:
            print('  %s: %s [%s] %s' % (o.where or '?', self.rules.get(o.rule, o.rule), o.key, o.detail[:500]))
        coverage = {
            'explanation': 'Static analysis of the current source: each rule yields proof obligations about constructs of the '
                           'source; an obligation is discharged, refuted (violation) or left undecided.',
            'obligations': len(self.obs),
            'discharged': len(good),
            'refuted': len(bad),
            'undecided': len(und),
            'rules': self.rules,
            'constructs': sorted({'%s %s' % (o.key, o.where) for o in self.obs})[:200],
            'undecided_list': ['%s %s: %s' % (o.rule, o.key, o.detail[:200]) for o in und][:50],
            'functions_interpreted': len(self.functions),
            'functions': sorted(self.functions)[:300],
            'samples': [dict(rule=o.rule, construct=o.key, at=o.where, holds=o.status, why=o.detail[:300]) for o in self.obs[:12]],
        }
        coverage.update(self.counts)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
              'coverage': coverage, 'wall_s': round(time.time() - self.t0, 3),
              'violations': [dict(rule=o.rule, construct=o.key, at=o.where, why=o.detail[:500]) for o in fresh]}
        with open(os.path.join(edir, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d refuted (%d listed), %d undecided, %.1fs' % (
            self.pid, len(self.obs), len(good), len(bad), len(listed), len(und), time.time() - self.t0))
        if fresh:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        return 0
