"""Collecting findings, measuring coverage, writing evidence."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier='quick', seed=0):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rules = {}         # rule -> description
        self.instances = {}     # rule -> {instance: times examined}
        self.floors = {}        # rule -> minimal number of instances
        self.found = []
        self.keys = set()
        self.assumptions = []
        self.counters = {}
        self.functions = set()
        self.files = set()
        self.notes = []

    def rule(self, name, text, floor=1):
        self.rules[name] = text
        self.floors[name] = floor
        self.instances.setdefault(name, {})

    def seen(self, rule, instance):
        d = self.instances[rule]
        d[instance] = d.get(instance, 0) + 1

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def use(self, eng):
        """Record what an engine analysed."""
        for fi in eng.functions_seen:
            self.functions.add('%s:%s' % (fi.file, fi.qual))
            self.files.add(fi.file)

    def violation(self, rule, construct, loc, msg, path=None):
        """construct identifies the finding independently of line numbers."""
        key = (rule, construct)
        if key in self.keys:
            return
        self.keys.add(key)
        self.found.append(dict(
            rule=rule, construct=construct,
            at='%s:%s %s' % tuple(loc) if loc else '', message=msg,
            path=path or []))

    def finish(self, level, known):
        broken = []
        for r, n in self.floors.items():
            if len(self.instances[r]) < n:
                broken.append('rule %s examined %d instances, at least %d '
                              'expected' % (r, len(self.instances[r]), n))
        fresh, old = [], []
        for f in self.found:
            for k in known:
                if k['rule'] == f['rule'] and k['construct'] == \
                        f['construct']:
                    old.append((k, f))
                    break
            else:
                fresh.append(f)
        cov = dict(
            explanation='Static analysis of the source in /repo: every rule '
            'below was applied to the listed number of instances '
            '(constructs of the source under one combination of options); '
            'nothing was executed.',
            rules={r: dict(rule=self.rules[r],
                           instances=len(self.instances[r]),
                           examined=sum(self.instances[r].values()),
                           samples=sorted(map(str, self.instances[r]))[:8])
                   for r in self.rules},
            functions_analysed=len(self.functions),
            files_analysed=sorted(self.files))
        cov.update(self.counters)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3),
                  assumptions=self.assumptions, violations=len(fresh),
                  findings=fresh[:50],
                  known=[f for _, f in old])
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, sort_keys=True)
            fp.write('\n')
        for k, f in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['text']))
        if fresh:
            rp = os.path.join(d, self.pid + '.violation.json')
            with open(rp, 'w') as fp:
                json.dump(dict(property=self.pid,
                               reproduce='cd /verif && python3 check.py %s '
                               '--tier %s' % (self.pid, self.tier),
                               findings=fresh), fp, indent=1)
                fp.write('\n')
            for f in fresh[:20]:
                print('%s [%s] %s: %s' % (f['at'], f['rule'],
                                          f['construct'], f['message']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if broken:
            for b in broken:
                print('ANALYSIS-BROKEN property=%s %s' % (self.pid, b))
            return 2
        print('OK property=%s rules=%d instances=%d wall=%.1fs' % (
            self.pid, len(self.rules),
            sum(len(x) for x in self.instances.values()),
            time.time() - self.t0))
        return 0


def load_known(pid):
    """Entries of known_findings.txt that are not repaired:
    known: property=<id> rule=<rule> construct=<construct> | <what fails>"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    with open(p) as fp:
        for line in fp:
            line = line.strip()
            if not line.startswith('known: property=%s ' % pid):
                continue
            head, _, text = line.partition(' | ')
            rule = head.split(' rule=', 1)[1].split(' construct=', 1)[0]
            construct = head.split(' construct=', 1)[1]
            out.append(dict(rule=rule.strip(), construct=construct.strip(),
                            text=text.strip()))
    return out
