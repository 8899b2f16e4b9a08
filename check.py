#!/usr/bin/env python3
"""usage: check.py PROPERTY   -- decides one property on /repo's current tree by static analysis"""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE + '/engine', HERE + '/rules']
sys.setrecursionlimit(20000)
import driver


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []     # (key, message, witness)
        self.undecided = []
        self.counts = {}
        self.items = []
        self.samples = []
        self.rule = ''
        self.assumptions = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, item):
        """one discharged obligation"""
        self.count('obligations')
        self.count('discharged')
        if len(self.items) < 400:
            self.items.append(item)

    def bad(self, key, msg, witness=()):
        """one violated obligation; key identifies the construct independently of line numbers"""
        self.count('obligations')
        if any(v[0] == key for v in self.violations):
            return
        self.violations.append((key, msg, list(witness)))

    def unknown(self, item):
        """an obligation the rule could not decide: recorded, never an alarm"""
        self.count('obligations')
        self.count('undecided')
        self.undecided.append(item)

    def need(self, cond, what):
        """an anchor the rule depends on must exist; otherwise the check gives no verdict"""
        if not cond:
            raise driver.CheckError('anchor missing: ' + what)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    R = Report(pid)
    err = None
    try:
        mod = __import__(pid.lower())
        P = driver.load()
        R.count('translation_units', P.info['units'])
    except driver.CheckError as e:
        print('ERROR property=%s: %s' % (pid, e))
        return 2
    for part in getattr(mod, 'PARTS', [mod.check] if hasattr(mod, 'check') else []):
        try:
            part(P, R)
        except driver.CheckError as e:
            # an anchor this part of the rule needs is gone: the part gives no verdict and says so
            err = str(e)
            R.unknown('%s: %s' % (part.__name__, err))
            print('UNDECIDED property=%s part=%s: %s' % (pid, part.__name__, err))
        except Exception as e:
            err = traceback.format_exc()
            R.unknown('%s: %s' % (part.__name__, repr(e)[:200]))
            print(err)
            print('UNDECIDED property=%s part=%s: %s' % (pid, part.__name__, repr(e)[:200]))
    known = []
    kf = HERE + '/known/findings.txt'
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == pid:
                    known.append(d)
    new, hit = [], []
    for v in R.violations:
        k = next((d for d in known if d['key'] == v[0]), None)
        (hit.append((v, k)) if k else new.append(v))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL,
              coverage=dict(explanation=mod.EXPLAIN, rule=mod.RULE, tree=P.info['tree'],
                            repository_functions=len(P.fns), **R.counts),
              assumptions=getattr(mod, 'ASSUME', []) + R.assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(new))
    ev['coverage']['decided_items'] = R.items
    ev['coverage']['undecided_items'] = R.undecided[:100]
    ev['coverage']['known_findings'] = [h[0][0] for h in hit]
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, pid), 'w') as f:
        json.dump(ev, f, indent=1)
    for v, k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if new:
        path = '%s/evidence/%s.violation.txt' % (HERE, pid)
        with open(path, 'w') as f:
            for key, msg, w in new:
                f.write('%s\n  %s\n' % (key, msg))
                for x in w:
                    f.write('    ' + x + '\n')
        for key, msg, w in new[:20]:
            print('%s: %s' % (key, msg))
            for x in w[:16]:
                print('    ' + x)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not R.counts.get('discharged'):
        print('ERROR property=%s: nothing was decided' % pid)
        return 2
    print('OK property=%s %s' % (pid, json.dumps(R.counts)))
    # a part without a verdict is listed above and in the evidence; what was explored held
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
