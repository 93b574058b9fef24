#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes /verif/seeded/<id>/ from a spec file with BUGS = [dict(id, property, file, old, new, demo, needs, breaks[, nth, srcs, flags])]"""
import json, os, subprocess, sys, importlib.util
sp = importlib.util.spec_from_file_location('spec', sys.argv[1]); S = importlib.util.module_from_spec(sp); sp.loader.exec_module(S)
only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero when the planted change is present
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 9; trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 %s -I src -I "$d" "$d/demo.cpp" %s -o "$t/demo" -lpthread || exit 8
cd "$t" && timeout 120 ./demo
'''
IMG = 'src/image_function.cpp src/image_function_helper.cpp src/image_function_simd.cpp'
for b in S.BUGS:
    if only and b['id'] not in only: continue
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    for f, old, new in edits:
        p = '/repo/' + f; s = open(p).read(); n = s.count(old)
        nth = b.get('nth', 0)
        if n == 0 or (n > 1 and 'nth' not in b): print(b['id'], 'old text found', n, 'times'); break
        i = -1
        for _ in range(nth + 1): i = s.index(old, i + 1)
        open(p, 'w').write(s[:i] + new + s[i + len(old):])
    else:
        d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout)
        open(d + '/demo.sh', 'w').write(b['demosh'] if 'demosh' in b else DEMO % (b.get("flags", "-march=native"), b.get("srcs", IMG)))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in b: open(d + '/demo.cpp', 'w').write(b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        print(b['id'], 'written')
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
