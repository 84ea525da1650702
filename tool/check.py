#!/usr/bin/env python3
"""check.py ID: decide one property on the current /repo tree (exit 0 held, 1 violation, 2 analysis broken)."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from mmgsa.build import Build, Broken
from mmgsa import ir

class Ctx:
    def __init__(self, pid):
        self.pid = pid; self.viol = []; self.counts = {}; self.samples = {}; self.rules = []; self.assume = []; self.tier = os.environ.get('VERIF_TIER', 'quick')
        self._p = {}; self.build = Build(); self.floors = []; self.oblig = 0; self.obset = set()
    def prog(self, variant='dbg', cpp=False):
        if (variant, cpp) not in self._p: self._p[(variant, cpp)] = ir.Program(variant, cpp, self.build)
        return self._p[(variant, cpp)]
    def violation(self, key, loc, msg):
        """key: stable identity of the construct (no line numbers)"""
        if any(v[0] == key and v[1] == loc for v in self.viol): return
        self.viol.append((key, loc, msg))
    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n
    def ob(self, name, sample=None):
        """one obligation decided"""
        self.count(name); self.oblig += 1
        if sample is not None and len(self.samples.setdefault(name, [])) < 5: self.samples[name].append(sample)
    def floor(self, name, n):
        self.floors.append((name, n))
    def rule(self, s): self.rules.append(s)

def known():
    out = {}
    f = os.path.join(V, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding:'):
                a, _, d = l[8:].partition('|')
                kv = dict(x.split('=', 1) for x in a.split(None, 1)[0:1])
                key = a.split('key=', 1)[1].strip()
                out[(kv['property'], key)] = d.strip()
    return out

def main():
    pid = sys.argv[1]; t0 = time.time()
    ev = os.path.join(V, 'evidence'); os.makedirs(ev, exist_ok=True)
    c = Ctx(pid)
    try:
        m = importlib.import_module('mmgsa.checks.' + pid.lower())
        m.run(c)
        # a rule instance count below what was confirmed by hand: nothing can be concluded, unless a violation is shown anyway
        low = ['%s: %d instances, at least %d expected' % (n, c.counts.get(n, 0), k) for n, k in c.floors if c.counts.get(n, 0) < k]
        kn = known()
        new = [v for v in c.viol if (pid, v[0]) not in kn]
        old = [v for v in c.viol if (pid, v[0]) in kn]
        if low and not new: raise Broken('; '.join(low))
        rep = os.path.join(ev, pid + '.violations.txt')
        json.dump(dict(property=pid, tier=c.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
                       coverage=dict(explanation=(m.__doc__ or '').strip(), rules=c.rules, obligations=c.oblig, counts=c.counts, samples=[{k: v} for k, v in c.samples.items()],
                                     units=len(c.prog().raw), functions=len(c.prog().fns), known_findings=[v[0] for v in old]),
                       assumptions=c.assume, wall_s=round(time.time() - t0, 2), violations=len(new)), open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
        for k, v in sorted(c.counts.items()): print('%-50s %d' % (k, v))
        seen = set()
        for v in old:
            if v[0] not in seen: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, kn[(pid, v[0])], v[1]))
            seen.add(v[0])
        with open(rep, 'w') as f:
            for k, l, msg in new:
                s = '%s: [%s] %s' % (l, k, msg)
                f.write(s + '\n'); print(s)
        if new:
            print('VIOLATION property=%s replay=%s' % (pid, rep)); sys.exit(1)
        sys.exit(0)
    except SystemExit: raise
    except BaseException as e:
        print('ANALYSIS BROKEN:', e); traceback.print_exc(); sys.exit(2)
if __name__ == "__main__": main()
