"""Collects obligations and findings of one check run and writes the evidence."""
import os, json, time
from .build import VERIF, AnalysisBroken


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.rules = {}          # rule -> [obligations, discharged]
        self.findings = {}       # key -> dict
        self.samples = {}
        self.notes = []
        self.assumptions = []
        self.stats = {}

    def ob(self, rule, ok, key, where, msg, trace=None):
        """one obligation of `rule`; key identifies it without line numbers"""
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            r[1] += 1
            s = self.samples.setdefault(rule, [])
            if len(s) < 3:
                s.append('%s %s' % (where, key))
        else:
            self.bad(rule, key, where, msg, trace)

    def count(self, rule, n=1):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n

    def bad(self, rule, key, where, msg, trace=None):
        k = '%s:%s' % (rule, key)
        if k not in self.findings:
            self.findings[k] = dict(key=k, rule=rule, where=where, msg=msg, trace=trace or [])

    def floor(self, what, n, least):
        """fails the check (not the property) when fewer instances than confirmed by hand are seen"""
        self.stats[what] = n
        if n < least:
            raise AnalysisBroken('%s: only %d instances seen, at least %d expected' % (what, n, least))


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    r[(d['property'], d['key'])] = d
    return r


def unlisted(rep):
    known = load_known()
    return [k for k in rep.findings if (rep.prop, k) not in known]


def finish(rep, explanation, wall=None):
    known = load_known()
    viol = []
    for k in sorted(rep.findings):
        f = rep.findings[k]
        d = known.get((rep.prop, k))
        if d is not None:
            print('KNOWN-FINDING: property=%s %s [%s] %s' % (rep.prop, k, f['where'], d['what']))
        else:
            viol.append(f)
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evd, 'replay'), exist_ok=True)
    cov = dict(explanation=explanation,
               rules={r: dict(obligations=a, discharged=b) for r, (a, b) in sorted(rep.rules.items())},
               obligations=sum(a for a, b in rep.rules.values()), discharged=sum(b for a, b in rep.rules.values()),
               analysed=rep.stats, samples=[dict(rule=r, instances=s) for r, s in sorted(rep.samples.items())],
               known_findings=sorted(k for k in rep.findings if (rep.prop, k) in known), notes=rep.notes)
    ev = dict(property=rep.prop, tier=rep.tier, seed=rep.seed, level='other', coverage=cov,
              assumptions=rep.assumptions, wall_s=round(time.time() - rep.t0, 2), violations=len(viol))
    with open(os.path.join(evd, rep.prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for n, f in enumerate(viol):
        rp = os.path.join(evd, 'replay', '%s-%d.json' % (rep.prop, n))
        with open(rp, 'w') as fh:
            json.dump(f, fh, indent=1)
        print('%s: [%s] %s' % (f['where'], f['key'], f['msg']))
        for t in f['trace']:
            print('      %s' % t)
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
    if not viol:
        print('%s: held on everything analysed (%d obligations, %d known findings)' %
              (rep.prop, cov['obligations'], len(rep.findings)))
    return 1 if viol else 0
