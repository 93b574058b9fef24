#!/usr/bin/env python3
"""mut.py SPEC.py [ids]: applies each mutation of MUT = [(id, file, old, new[, nth])] to a scratch copy of the sources and prints what the given check reports"""
import sys, os, subprocess, shutil, tempfile, importlib.util
from concurrent.futures import ThreadPoolExecutor
sp = importlib.util.spec_from_file_location('spec', sys.argv[1]); S = importlib.util.module_from_spec(sp); sp.loader.exec_module(S)
only = sys.argv[2:]
def one(m):
    mid, checks, f, old, new = m[:5]; nth = m[5] if len(m) > 5 else 0
    w = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
    try:
        subprocess.check_call(('cp -a %s/src %s/' % (os.environ['MUTSRC'], w)) if 'MUTSRC' in os.environ else 'git -C /repo archive HEAD | tar x -C %s' % w, shell=True)
        p = w + '/' + f; s = open(p).read()
        eds = [(old, new)] if isinstance(old, str) else list(zip(old, new))
        for a, b in eds:
            if a not in s: return '%s: text not found: %s' % (mid, a[:60])
            i = -1
            for _ in range(nth + 1): i = s.index(a, i + 1)
            s = s[:i] + b + s[i + len(a):]
        open(p, 'w').write(s)
        out = []
        for c in checks.split(','):
            r = subprocess.run(['python3-vt', '/verif/tools/driver.py', c], env=dict(os.environ, PV_REPO=w, PV_EV=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = r.stdout.decode().splitlines()
            t = [x for x in t if not x.startswith('UNDEC')]
            out.append('  %s rc %d %s' % (c, r.returncode, (t[0] if t else '')[:230]))
        return mid + '\n' + '\n'.join(out)
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(int(os.environ.get('MUTJ', '6'))) as ex:
    for r in ex.map(one, [m for m in S.MUT if not only or m[0] in only]): print(r, flush=True)
