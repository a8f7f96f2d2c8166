#!/usr/bin/env python3
"""mkseed.py SPEC.py: creates seeded/<id>/ from a spec defining id, property, needs, breaks, edits=[(file, old, new)], demo, flags=''"""
import sys, os, subprocess, json
ns = {}; exec(open(sys.argv[1]).read(), ns)
R = '/repo'; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
assert not subprocess.run(['git', '-C', R, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
d = os.path.join(V, 'seeded', ns['id']); os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns['edits']:
        p = os.path.join(R, 'include/noarr/structures', f); s = open(p).read()
        n = ns.get('nth', {}).get(f, 0)
        cnt = s.count(old)
        assert cnt >= 1, (f, 'not found', old)
        if 'nth' not in ns and cnt != 1: sys.exit(f'{f}: {cnt} occurrences')
        i = -1
        for _ in range(n + 1): i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]; open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
finally: subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
open(os.path.join(d, 'patch.diff'), 'w').write(diff)
open(os.path.join(d, 'demo.cpp'), 'w').write(ns['demo'])
open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 iff the property holds on the demonstrated input
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 %s -Iinclude -Itests "$d/demo.cpp" -o "$t/demo" || exit 2
timeout 60 "$t/demo"
''' % ns.get('flags', ''))
json.dump(dict(property=ns['property'], needs=ns['needs'], what_it_breaks=ns['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
print(diff)
