#!/usr/bin/env python3
"""development: runs each planted bug's check on a patched clone and records in tools/design/seeds.json what reports it (arguments: seeds to redo)"""
import json, os, sys, subprocess, tempfile, shutil, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); F = V + '/tools/design/seeds.json'
S = json.load(open(F)) if os.path.exists(F) else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    n = os.path.basename(d)
    if (sys.argv[1:] and n not in sys.argv[1:]) or (not sys.argv[1:] and n in S): continue
    p = json.load(open(d + '/meta.json'))['property']; t = tempfile.mkdtemp()
    subprocess.run(f'git clone -q /repo {t}/r && git -C {t}/r apply {d}/patch.diff', shell=True, check=True)
    r = subprocess.run(['./check', p, '-j', '4'], cwd=V, env=dict(os.environ, VP_REPO=t + '/r', VP_OUT=t + '/o', VP_FAILFAST='1'), capture_output=True, text=True)
    shutil.rmtree(t)
    hs = re.findall(r'^  (\w+): ([\w-]+): (.*?)(?: \[.*)?$', r.stdout, re.M)
    hs.sort(key=lambda h: h[1] == 'does-not-compile')
    S[n] = f'{p}: ' + (f'`{hs[0][0]}` ({hs[0][2][:80] if hs[0][1] == "check" else hs[0][1]})' if r.returncode == 1 and hs else 'NOT CAUGHT')
    print(n, S[n], flush=True)
    json.dump(S, open(F, 'w'), indent=1, sort_keys=True)
for n in list(S):
    if not os.path.isdir(f'{V}/seeded/{n}'): del S[n]
json.dump(S, open(F, 'w'), indent=1, sort_keys=True)
