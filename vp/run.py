"""check runner: python -m vp.run <PROPERTY> [--tier quick|thorough] [--only SUBSTR]"""
import os, sys, json, time, shutil, argparse, random, concurrent.futures as cf, multiprocessing as mp
from . import worker
VERIF = worker.VERIF
FAILFAST = bool(os.environ.get('VP_FAILFAST'))
OUT = os.environ.get('VP_OUT', os.path.join(VERIF, 'out'))

def known_findings():
    try: return json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    except FileNotFoundError: return []

def same_finding(k, r):
    # 'named_': the same harness with dimensions named by noarr::dim (gen.named_tus)
    return k.get('entry') == r['entry'].replace('h_named_', 'h_', 1) and k.get('label') == r['violation']['label']

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('--list', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import props, meta
    pid = a.prop
    d = os.path.join(OUT, pid + ('' if a.tier == 'quick' else '-' + a.tier))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    thorough = a.tier == 'thorough'
    spec = meta.merge(pid, props.get(pid, thorough, seed))      # dict(tus=[...], bounds=[...], assumptions=[...], opts)
    tus = []
    for tu in spec['tus']:
        name = tu['name']
        if a.only and a.only not in name: continue
        src = os.path.join(d, name + '.cpp')
        with open(src, 'w') as f: f.write(tu['text'])
        tus.append(dict(tu, src=src, base=os.path.join(d, name), tier=int(thorough)))
        tus[-1].pop('text')
    opts = dict(budget=(spec.get('budget_thorough', 2400) if thorough else spec.get('budget_quick', 420)), qtimeout=60.0 if thorough else 20.0)
    opts['until'] = t0 + float(os.environ.get('VP_DEADLINE', 14400 if thorough else 760))       # the whole check answers within its time limit
    opts.update(spec.get('opts', {}))
    results = []; compiles = []; errors = []; violations = []
    ctx = mp.get_context('fork')
    with cf.ProcessPoolExecutor(a.j, mp_context=ctx) as pool:
        futs = {pool.submit(worker.compile_tu, tu): ('c', tu) for tu in tus}
        stop = False
        while futs:
            if stop:        # development only (VP_FAILFAST): one counterexample is enough
                for f in futs: f.cancel()
                futs = {f: k for f, k in futs.items() if not f.cancelled()}
                if not futs: break
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                kind, x = futs.pop(f)
                try: r = f.result()
                except Exception as e: errors.append(f'worker died: {e}'); continue
                if kind == 'c':
                    compiles.append((x, r))
                    if not r['ok']:
                        if FAILFAST: stop = True
                        continue
                    if stop: continue
                    for e in r['entries']:
                        o = dict(opts); o.update(x.get('opts', {}))
                        futs[pool.submit(worker.run_entry, (x, e, o))] = ('r', x)
                else:
                    results.append((x, r))
                    if FAILFAST and r.get('violation') and not any(same_finding(k, r) for k in known_findings()): stop = True
                    if a.v: print(f"  {r['tu']}:{r['entry']} {r['status']} {r.get('wall', 0):.1f}s {r.get('msg', '')} {json.dumps({k: v for k, v in r.get('stats', {}).items() if k in ('paths', 'checks', 'check_queries', 'solver_s')})} {r.get('violation') or ''} {r.get('degraded') or ''}", flush=True)
    # ---- harness that no longer compiles: is it the API/behaviour that changed, or the environment?
    for tu, r in compiles:
        if r['ok']: continue
        if r['stage'] != 'frontend' or r['rc'] == 124: errors.append(f"{tu['name']}: {r['stage']} failed: {r['out'][-800:]}"); continue
        if baseline_ok(d, tu):
            log = os.path.join(d, tu['name'] + '.compile.log')
            with open(log, 'w') as f: f.write('The public-API harness below does not compile against the current tree although the headers alone do.\n' + tu['src'] + '\n\n' + r['out'])
            violations.append((tu, None, dict(kind='does-not-compile', label=first_error(r['out'])), log))
        else: errors.append(f"{tu['name']}: headers do not compile: {r['out'][-800:]}")
    # ---- replay counterexamples against the real code
    kf = [k for k in known_findings() if k.get('property') == pid and k.get('status') == 'known']
    known_hit = []
    cand = [(tu, r) for tu, r in results if r['status'] in ('violation', 'bound') and r.get('violation')]
    is_known = lambda r: any(same_finding(k, r) for k in kf)
    cand.sort(key=lambda x: not is_known(x[1]))
    chosen = cand[:40]       # further counterexamples are reported only if these do not settle the verdict
    with cf.ThreadPoolExecutor(a.j) as tp: reps = list(tp.map(lambda x: replay(d, x[0], x[1]['entry'], x[1]['violation']), chosen))
    reps = {id(x[1]): y for x, y in zip(chosen, reps)}
    for tu, r in results:
        if r['status'] in ('violation', 'bound') and r.get('violation'):
            v = r['violation']
            if id(r) not in reps: continue
            ok, path, out = reps[id(r)]
            if ok:
                k = [k for k in kf if same_finding(k, r)]
                if k: known_hit.append((k[0], path)) if k[0] not in [h[0] for h in known_hit] else None
                else: violations.append((tu, r['entry'], v, path))
            elif r['status'] == 'bound': errors.append(f"{r['entry']}: {r.get('msg')}")
            else: errors.append(f"{r['entry']}: counterexample does not reproduce natively ({v['kind']} {v['label']}): {out[-400:]}")
        elif r['status'] != 'ok': errors.append(f"{r['tu']}:{r['entry']}: {r['status']}: {r.get('msg', '')}")
    # ---- validate the encoding: push solved path witnesses through the native build of the same IR
    traces, tr_err = (0, []) if violations or FAILFAST else validate(d, compiles, results, 400 if thorough else 60, a.j)
    errors += tr_err
    ev = evidence(pid, a.tier, seed, spec, compiles, results, violations, traces, time.time() - t0, errors, known_hit)
    if not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    c = ev['coverage']
    print(f"{pid} [{a.tier}]: {c['harnesses']} harnesses, {c['states']} paths, {c['checks_evaluated']} checks ({c['queries_check']} solver queries, {c['queries_feasibility']} feasibility, {c['queries_bounds']} bounds), {c['solver_s']:.1f}s solver, {traces} traces replayed, {time.time()-t0:.1f}s wall")
    for k, p in known_hit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e in errors: print('ERROR:', e)
    if violations:
        for tu, entry, v, path in violations:
            print(f"  {entry or tu['name']}: {v['kind']}: {v['label']} {v.get('values', '')}")
        print(f"VIOLATION property={pid} replay={violations[0][3]}")
        return 1
    return 2 if errors else 0

def first_error(out):
    for l in out.split('\n'):
        if 'error:' in l: return l[-300:]
    return out[:200]

def baseline_ok(d, tu):
    src = os.path.join(d, 'baseline.cpp')
    text = open(tu['src']).read()
    inc = '\n'.join(l for l in text.split('\n') if l.strip().startswith('#include') or l.strip().startswith('#define'))
    with open(src, 'w') as f: f.write(inc + '\nint main() {}\n')
    rc, out = worker.sh([worker.CXX] + worker.base_flags(tu) + ['-fsyntax-only', src])
    return rc == 0

def replay(d, tu, entry, v):
    rd = os.path.join(d, 'replay_' + entry); os.makedirs(rd, exist_ok=True)
    vals = os.path.join(rd, 'values.txt')
    with open(vals, 'w') as f:
        for i, b, x in v['values']: f.write(f'{i} {x}\n')
    log = os.path.join(rd, 'replay.txt'); text = f"{entry}: {v['kind']}: {v['label']}\nharness: {tu['src']}\nvalues (id value): {vals}\n"
    ok = False; out = ''
    for cxx in (worker.CXX, 'g++'):
        exe = os.path.join(rd, 'exe_' + os.path.basename(cxx))
        flags = [] if cxx == 'g++' else None
        rc, out = worker.build_native(tu, entry, exe, cxx)
        if rc: text += f'\n[{cxx}] build failed\n{out[-1500:]}\n'; continue
        rc, out = worker.sh([exe, vals], timeout=20)
        text += f'\n[{cxx}] exit {rc}\n{out[-3000:]}\n'
        if rc not in (0, 77, 78) and (rc != 124 or v['kind'] == 'non-termination'): ok = True; break
    with open(log, 'w') as f: f.write(text)
    return ok, log, out

def validate_tu(job):
    tu, ents, d = job
    n = 0; errs = []
    for e, samples in ents:
        exe = os.path.join(d, f"val_{e}")
        rc, out = worker.build_native(tu, e, exe, from_ll=True)
        if rc: errs.append(f'{e}: native build of the IR failed: {out[-300:]}'); continue
        for i, s in enumerate(samples):
            vf = exe + f'.{i}.txt'
            with open(vf, 'w') as f:
                for ident, x in s: f.write(f'{ident} {x}\n')
            rc, out = worker.sh([exe, vf], timeout=60)
            if rc != 0: errs.append(f'{e}: path witness {s} does not pass natively (rc {rc}): {out[-300:]}')
            else: n += 1
            os.remove(vf)
        os.remove(exe)
    return n, errs

def validate(d, compiles, results, limit, jobs):
    by = {}
    for tu, r in results:
        if r['status'] == 'ok' and r.get('samples') and not tu.get('noreplay'): by.setdefault(tu['base'], (tu, []))[1].append((r['entry'], r['samples']))
    jl = []; n = 0
    for tu, ents in by.values():
        take = ents[:2] if limit < 100 else ents[:12]
        jl.append((tu, take, d)); n += sum(len(s) for _, s in take)
        if n > limit: break
    tot = 0; errs = []
    with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context('fork')) as pool:
        for n, e in pool.map(validate_tu, jl): tot += n; errs += e
    return tot, errs

def evidence(pid, tier, seed, spec, compiles, results, violations, traces, wall, errors, known):
    S = {}
    for tu, r in results:
        for k, v in r.get('stats', {}).items(): S[k] = max(S.get(k, 0), v) if k.startswith('max_') else S.get(k, 0) + v
    fn = set()
    for tu, r in compiles:
        if r['ok']:
            for e, l in r['funcs'].items(): fn.update(l)
    names = sorted({worker.short(x) for x in worker.demangle(sorted(fn))})
    deg = {}
    for tu, r in results:
        for lab, k in r.get('degraded', []): deg.setdefault(f"{r['entry']}:{lab}", k)
    samples = []
    for tu, r in results:
        for s in r.get('samples', [])[:1]: samples.append({'harness': r['entry'], 'path_witness_inputs': s, 'labels': sorted(r.get('labels', {}))[:6]})
    cov = dict(states=S.get('paths', 0), transitions=S.get('insts', 0), traces_validated_against_impl=traces, samples=samples[:8],
               harnesses=len(results), translation_units=len(compiles), checks_evaluated=S.get('checks', 0), checks_discharged_by_simplification=S.get('checks_trivial', 0),
               queries_check=S.get('check_queries', 0), queries_feasibility=S.get('feas_queries', 0), queries_bounds=S.get('mem_queries', 0),
               queries_unsat=S.get('unsat', 0), solver_s=round(S.get('solver_s', 0), 2), slowest_query_s=round(S.get('max_query_s', 0), 2), value_splits=S.get('splits', 0),
               functions_encoded=names[:200], functions_encoded_count=len(names), function_instantiations=len(fn),
               bounds=spec.get('bounds', []), outside_bounds=spec.get('outside', []), reduced_bounds=deg,
               solver='z3 ' + z3v(), method=spec['method'], oracle=spec['oracle'], explanation='bounded symbolic execution of the LLVM IR of the real headers; every check is an SMT query over all inputs within the bounds',
               per_harness=[dict(harness=r['entry'], status=r['status'], paths=r.get('stats', {}).get('paths'), checks=r.get('stats', {}).get('checks'), wall_s=round(r.get('wall', 0), 2)) for tu, r in results][:300])
    return dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov, assumptions=spec.get('assumptions', []), wall_s=round(wall, 2),
                violations=len(violations), errors=errors, known_findings=[k['what'] for k, p in known])
def z3v():
    import z3
    return z3.get_version_string()

if __name__ == '__main__': sys.exit(main())
