#!/usr/bin/env python3
"""./check <property> [--thorough] | ./check --setup

Exit 0: no construct of /repo breaks the property; 1: one does (a VIOLATION line each); 3: the check could not give an answer
(source does not compile, an anchor has vanished, fewer places analysed than the floor)."""
import hashlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
VERIF = ir.VERIF
class Report:
    def __init__(self):
        self.bad = []         # (where, function, message, detail)
        self.undecided = []   # (where, function, message)
        self.obligations = 0; self.discharged = 0
        self.units = {}       # kind of analysed thing -> count
        self.samples = []
        self.floors = []      # (what, seen, least)
        self.rule = ''; self.assumptions = []; self.extra = {}
    def count(self, k, n=1): self.units[k] = self.units.get(k, 0) + n
    def good(self, n=1): self.obligations += n; self.discharged += n
    def fail(self, where, fn, msg, detail=''):
        self.obligations += 1
        if (where, fn, msg) not in [b[:3] for b in self.bad]: self.bad.append((where, fn, msg, str(detail)))
    def unk(self, where, fn, msg):
        self.obligations += 1
        if (where, fn, msg) not in self.undecided: self.undecided.append((where, fn, msg))
    def floor(self, what, seen, least): self.floors.append((what, seen, least))

def known():
    """[(property, key)] of the recorded findings that are not repaired: key = file and message, without line numbers"""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            # known: property=<id> | <function> | <message>
            if l.startswith('known:'):
                a = [x.strip() for x in l[6:].split('|')]
                out.append((a[0].split('=')[1], a[1], a[2]))
    return out

def engines():
    import checks_img
    E = dict(checks_img.CHECKS)
    for name in ('checks_tables', 'checks_thread', 'checks_mem', 'checks_file', 'checks_cl', 'checks_misc'):
        if os.path.exists(os.path.join(VERIF, 'tools', name + '.py')): E.update(__import__(name).CHECKS)
    return E

def main():
    a = sys.argv[1:]
    if a == ['--setup']:
        ir.dumper()
        import imgcheck
        for cfg in (imgcheck.SCALAR, imgcheck.SIMD): imgcheck.load(cfg)
        return 0
    pid = a[0]; tier = 'thorough' if '--thorough' in a else 'quick'
    t0 = time.time()
    E = engines()
    if pid not in E: print('unknown property', pid); return 2
    level, fn = E[pid]
    rep = Report()
    try: fn(rep, tier)
    except ir.AnalysisError as e:
        print('NO ANSWER: %s' % e); return 3
    kn = [k for k in known() if k[0] == pid]
    viol = []; found = []
    for b in rep.bad:
        k = [x for x in kn if x[1] == b[1] and x[2] == b[2]]
        (found if k else viol).append(b)
    for u in rep.undecided: print('UNDECIDED %s %s: %s' % (u[0], u[1], u[2]))
    for b in found: print('KNOWN-FINDING: property=%s %s: %s: %s' % (pid, b[0], b[1], b[2]))
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, wall_s=round(time.time() - t0, 2),
              violations=len(viol), assumptions=rep.assumptions,
              coverage=dict(explanation=rep.rule, analysed=rep.units, obligations=rep.obligations, discharged=rep.discharged,
                            undecided=['%s %s: %s' % u for u in rep.undecided][:200], samples=rep.samples[:12],
                            known_findings=['%s %s: %s' % b[:3] for b in found],
                            violations=['%s %s: %s' % b[:3] for b in viol], **rep.extra))
    evd = os.environ.get('PV_EV') or os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + '.json'), 'w'), indent=1)
    if viol:
        rp = os.path.join(ir.CACHE, 'replay-%s.txt' % pid)
        os.makedirs(ir.CACHE, exist_ok=True)
        with open(rp, 'w') as f:
            for b in viol: f.write('property %s\nplace    %s\nfunction %s\nwhat     %s\ndetail   %s\nagain    ./check %s\n\n' % ((pid,) + b + (pid,)))
        for b in viol: print('%s: %s: %s  %s' % (b[0], b[1], b[2], b[3][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    low = [f for f in rep.floors if f[1] < f[2]]
    if low:
        for f in low: print('NO ANSWER: %s: only %d, at least %d expected' % f)
        return 3
    print('OK %s: %s, %d of %d obligations discharged, %.0f s' % (pid, ', '.join('%d %s' % (v, k) for k, v in rep.units.items()), rep.discharged, rep.obligations, time.time() - t0))
    return 0
if __name__ == '__main__':
    try: rc = main()
    except Exception: traceback.print_exc(); rc = 4
    sys.stdout.flush(); sys.exit(rc)
