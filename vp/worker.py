"""Compiles harness TUs to IR and runs single entries symbolically (both run in worker processes)."""
import os, re, subprocess, time, json, traceback
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++' if os.path.exists(LLVM + 'clang++') else 'clang++'
OPT = LLVM + 'opt' if os.path.exists(LLVM + 'opt') else 'opt'
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HDIR = os.path.join(VERIF, 'harness')
PASSES = 'internalize,globaldce,cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg,adce),globaldce'

def base_flags(tu):
    return ['-std=c++20', '-Wno-everything', f'-DVP_TIER={tu["tier"]}', f'-I{HDIR}'] + [f'-I{os.path.join(HDIR, d)}' for d in tu.get('stubs', [])] + \
           [f'-I{REPO}/include', f'-I{REPO}/tests'] + tu.get('flags', [])

def sh(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, 'timeout: ' + ' '.join(cmd)

def compile_tu(tu):
    t0 = time.time()
    src, ll, ol = tu['src'], tu['base'] + '.ll', tu['base'] + '.opt.ll'
    rc, out = sh([CXX] + base_flags(tu) + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-fno-strict-aliasing',
                  '-fno-threadsafe-statics', '-fsanitize=shift,signed-integer-overflow', '-fsanitize-trap=all', '-S', '-emit-llvm', src, '-o', ll])
    if rc: return dict(ok=False, stage='frontend', rc=rc, out=out[:8000], wall=time.time() - t0)
    text = open(ll).read()
    entries = re.findall(r'^define [^@]*@(h_\w+)\(', text, re.M)
    rc, out = sh([OPT, '-S', '-passes=' + PASSES, '-internalize-public-api-list=' + ','.join(entries), '-inline-threshold=1000000', ll, '-o', ol])
    if rc: return dict(ok=False, stage='opt', rc=rc, out=out[:8000], wall=time.time() - t0)
    return dict(ok=True, entries=entries, funcs=functions_encoded(text, entries), wall=time.time() - t0)

def functions_encoded(text, entries):
    """names of library functions reachable from each entry in the frontend's IR (before inlining)"""
    defs = {}; cur = None
    for l in text.split('\n'):
        if l.startswith('define'):
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)\(', l); cur = m.group(1).strip('"'); defs[cur] = set()
        elif l == '}': cur = None
        elif cur and '@' in l:
            for m in re.finditer(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+)', l): defs[cur].add(m.group(1).strip('"'))
    res = {}
    for e in entries:
        seen = set(); todo = [e]
        while todo:
            f = todo.pop()
            if f in seen or f not in defs: continue
            seen.add(f); todo.extend(defs[f])
        res[e] = sorted(f for f in seen if 'noarr' in f)
    return res

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        return p.stdout.split('\n')[:len(names)]
    except Exception: return names

def short(n):
    """noarr::x<...>::y<...>(...) -> noarr::x::y"""
    out = ''; d = 0
    n = n.replace('operator<', 'operator_lt').replace('operator>', 'operator_gt').replace('->', '')
    for c in n:
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out += c
    m = re.search(r'noarr::[\w:~$^|+\-=!&\[\] ]*', out)
    return m.group(0).strip() if m else out[:60]

def run_entry(args):
    tu, entry, opts = args
    from .ir import Module
    from . import sym
    import z3
    t0 = time.time()
    r = dict(entry=entry, tu=tu['name'], status='?')
    ex = None
    try:
        mod = Module(open(tu['base'] + '.opt.ll').read())
        ex = sym.Exec(mod, '@' + entry, max_steps=opts.get('max_steps', 400000), max_paths=opts.get('max_paths', 50000),
                      qtimeout=opts.get('qtimeout', 20.0), deadline=min(time.time() + opts['budget'], opts.get('until', 1e18)))
        ex.run()
        r['status'] = 'violation' if ex.violation else 'ok'
        r['violation'] = ex.violation
        if not ex.violation:
            want = set(labels_in(mod, '@' + entry, ex))
            missing = sorted(l for l in want if l not in ex.labels and not l.startswith('?'))
            if missing or not ex.labels: r['status'] = 'vacuous'; r['msg'] = 'unreached checks: ' + ', '.join(missing)
    except sym.BoundExceeded as e:
        r['status'] = 'bound'; r['msg'] = str(e)
        if e.state is not None:
            try: r['violation'] = dict(kind='non-termination', label=str(e), values=ex.values(e.state, ex.feasible_model(e.state)))
            except Exception: pass
    except sym.Undecided as e: r['status'] = 'undecided'; r['msg'] = str(e)
    except sym.Unsupported as e: r['status'] = 'unsupported'; r['msg'] = str(e)
    except Exception as e: r['status'] = 'error'; r['msg'] = traceback.format_exc()[-3000:]
    if ex:
        r['stats'] = ex.stats; r['labels'] = ex.labels; r['degraded'] = ex.degraded; r['samples'] = ex.samples
    r['wall'] = time.time() - t0
    return r

def labels_in(mod, entry, ex):
    out = set(); seen = set(); todo = [entry]
    st = None
    from .sym import State
    st = State()
    while todo:
        f = todo.pop()
        if f in seen or f not in mod.funcs: continue
        seen.add(f)
        for b in mod.funcs[f].blocks.values():
            for i in b:
                if i.op != 'call': continue
                c = i.a[0]
                if c[0] == 'glob':
                    if c[1] == '@vp_check':
                        v = i.a[1][1][1]
                        if v[0] == 'glob': out.add(ex.cstr(st, ex.glob(st, v[1])))
                    else: todo.append(c[1])
                for t, a in i.a[1]:
                    if a[0] == 'glob' and a[1] in mod.funcs: todo.append(a[1])
    return out

def build_native(tu, entry, exe, cxx=None, from_ll=False, asan=True):
    """native build of one entry, for replay"""
    if from_ll:
        o = tu['base'] + '.o'
        if not os.path.exists(o):
            rc, out = sh([CXX, '-O0', '-w', '-c', '-x', 'ir', tu['base'] + '.ll', '-o', o])
            if rc: return rc, out
        cmd = [CXX, '-O0', '-w', f'-DVP_ENTRY={entry}', os.path.join(HDIR, 'replay.cpp'), o, '-o', exe] + tu.get('link', [])
    else:
        cmd = [cxx or CXX] + base_flags(tu) + ['-O1', '-fno-strict-aliasing'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr'] if asan else []) + \
              [f'-DVP_ENTRY={entry}', tu['src'], os.path.join(HDIR, 'replay.cpp'), '-o', exe] + tu.get('link', [])
        cmd = [c for c in cmd if c != '-Wno-everything' or 'clang' in (cxx or CXX)] + ['-w']
    return sh(cmd)
