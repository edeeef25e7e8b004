#!/usr/bin/env python3-vt
"""check.py <property> [--thorough] : decides one property against the current tree of /repo."""
import sys, os, time, json, itertools, multiprocessing as mp, subprocess, shutil, random, re, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine')); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
import build
from props import PROPS

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    verbose = '-v' in sys.argv
    base = os.environ.get('VP_WORK') or '/var/tmp/vpwork'
    work = os.path.join(base, pid); os.makedirs(work, exist_ok=True)
    build.WORK = base
    total = (P.get('budget_thorough', 840) if tier == 'thorough' else P.get('budget', 600))
    tend = t0 + total
    nproc = min(8, os.cpu_count() or 4)
    alarms = []; undecided = []; log = []
    # ---------------------------------------------------------------- build
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(4)
    symf = {h: ex.submit(build.sym, h, P.get('src', []), os.path.join(work, 'sym_' + h)) for h in P.get('sym', [])}
    natf = {h: ex.submit(build.native, [h], P.get('nsrc_of', {}).get(h, P.get('nsrc', P.get('src', []))), os.path.join(work, 'nat_' + h), P.get('nflags', build.NAT)) for h in P.get('native', P.get('sym', []))}
    jsons = {}; runners = {}
    builderr = []
    for h, f in symf.items():
        try: jsons[h] = f.result()
        except build.BuildError as x: builderr.append('sym %s: %s' % (h, str(x)[-1500:]))
    for h, f in natf.items():
        try: runners[h] = f.result()
        except build.BuildError as x: builderr.append('native %s: %s' % (h, str(x)[-1500:]))
    hn = {}
    for h in set(list(jsons) + list(runners)):
        src = open(os.path.join(VERIF, 'contracts', h + '.cpp')).read()
        hn[h] = re.findall(r'^VC_HARNESS\((\w+)\)', src, re.M)
    runner_of = {}
    for h, exe in runners.items():
        for n in subprocess.check_output([exe, 'list'], text=True).split(): runner_of[n] = exe
    hopts = P.get('opts', {})
    tbuild = time.time() - t0
    # ---------------------------------------------------------------- deductive part
    results = []; skipped_cases = {}
    pend = []      # (js, harness, cases, opts)
    for h in P.get('sym', []):
        if h not in jsons: continue
        for n in hn[h]:
            if only and n not in only: continue
            o = dict(P.get('defaults', {})); o.update(hopts.get(n, {}))
            if o.get('native_only'): continue
            if o.get('thorough_only') and tier != 'thorough': skipped_cases[n] = 'all'; continue
            if tier == 'thorough': o['timeout'] = o.get('timeout', 20) * 3; o['budget'] = o.get('budget', 240) * 2
            else: o.setdefault('budget', 240)
            pend.append((jsons[h], n, {}, o, True))
    running = []
    import worker
    def launch(t):
        a, b = mp.Pipe(False)
        p = mp.Process(target=worker.work, args=(t[0], t[1], t[2], t[3], b)); p.start(); b.close()
        running.append([p, a, t, time.time()])
    def reap():
        for r in list(running):
            p, a, t, ts = r; res = None
            if a.poll(0):
                try: res = a.recv()
                except EOFError: res = {'harness': t[1], 'cases': t[2], 'obls': [], 'tool': 'worker died', 'funcs': {}, 'assume': [], 'covers': {}, 'casedom': {}, 'solver': 0, 'queries': 0, 'instr': 0, 'time': 0}
                p.join()
            elif not p.is_alive():
                res = {'harness': t[1], 'cases': t[2], 'obls': [], 'tool': 'worker died', 'funcs': {}, 'assume': [], 'covers': {}, 'casedom': {}, 'solver': 0, 'queries': 0, 'instr': 0, 'time': 0}
            elif time.time() > tend - 60:
                p.kill(); p.join()
                res = {'harness': t[1], 'cases': t[2], 'obls': [], 'tool': 'time budget of the check', 'funcs': {}, 'assume': [], 'covers': {}, 'casedom': {}, 'solver': 0, 'queries': 0, 'instr': 0, 'time': time.time() - ts}
            if res is not None:
                running.remove(r); results.append(res)
                if t[4] and res['casedom']:
                    dom = {k: v for k, v in res['casedom'].items()}
                    cap = t[3].get('casemax' if tier == 'quick' else 'casemax_thorough')
                    ks = sorted(dom); allc = list(itertools.product(*[range(int(dom[k][0]), int(dom[k][1]) + 1) for k in ks]))
                    for c in allc:
                        cc = dict(zip(ks, c))
                        qc = t[3].get('quickcases') if tier == 'quick' else None
                        if qc and any(cc.get(k) not in vs for k, vs in qc.items() if k in cc): skipped_cases[t[1]] = 'the quick tier proves only %s; the thorough tier all of %s' % (qc, dom); continue
                        if all(res['cases'].get(k, dom[k][0]) == cc[k] for k in ks): continue
                        pend.append((t[0], t[1], cc, t[3], False))
    # native search runs alongside on one core
    native_plan = []
    for n, exe in runner_of.items():
        if only and n not in only: continue
        native_plan.append(n)
    secs = P.get('native_secs', 6) * (6 if tier == 'thorough' else 1)
    nat_running = []; nat_pend = list(native_plan); nat_res = {}
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:detect_container_overflow=0', UBSAN_OPTIONS='print_stacktrace=0')
    def nat_launch(n):
        s2 = hopts.get(n, {}).get('native_secs', None)
        s2 = secs if s2 is None else s2 * (6 if tier == 'thorough' else 1)
        pf = os.path.join(work, 'prog_' + n); out = open(os.path.join(work, 'nat_%s.log' % n), 'w')
        sc = os.path.join(work, 'scratch_' + n); shutil.rmtree(sc, ignore_errors=True); os.makedirs(sc)
        if os.path.exists(pf): os.unlink(pf)
        mx = hopts.get(n, {}).get('native_max', 100000000)
        p = subprocess.Popen([runner_of[n], 'random', n, str(seed), str(s2), str(mx), pf], stdout=out, stderr=subprocess.STDOUT, env=env, cwd=sc)
        nat_running.append([p, n, time.time(), s2, pf])
    def nat_reap():
        for r in list(nat_running):
            p, n, ts, s2, pf = r
            rc = p.poll()
            if rc is None:
                if time.time() > ts + s2 + hopts.get(n, {}).get('hang', 90): p.kill(); p.wait(); rc = 'timeout'
                else: continue
            nat_running.remove(r)
            txt = open(os.path.join(work, 'nat_%s.log' % n), errors='replace').read()
            it = None
            if os.path.exists(pf) and os.path.getsize(pf) >= 8: it = int.from_bytes(open(pf, 'rb').read(8), 'little')
            nat_res[n] = (rc, txt, it)
    while pend or running or nat_pend or nat_running:
        while nat_pend and len(nat_running) < (3 if (pend or running) else nproc): nat_launch(nat_pend.pop(0))
        while pend and len(running) + len(nat_running) < nproc:
            t = pend.pop(0)
            if time.time() > tend - 70:
                results.append({'harness': t[1], 'cases': t[2], 'obls': [], 'tool': 'time budget of the check', 'funcs': {}, 'assume': [], 'covers': {}, 'casedom': {}, 'solver': 0, 'queries': 0, 'instr': 0, 'time': 0}); continue
            launch(t)
        reap(); nat_reap(); time.sleep(0.02)
    # ---------------------------------------------------------------- verdicts
    known = []
    kf = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) harness=(\S+) match=/(.*?)/ (.*)', l)
            if m: known.append(m.groups())
    def is_known(harness, label):
        for p, h, rx, d in known:
            if p == pid and h == harness and re.search(rx, label): return d
        return None
    repdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(repdir, exist_ok=True)
    found_known = set()
    def save(name, obj):
        path = os.path.join(repdir, '%s_%s.json' % (pid, name)); json.dump(obj, open(path, 'w'), indent=1); return path
    def failure_line(txt):
        m = re.search(r'FAILED (.*)', txt)
        if m: return m.group(1)
        m = re.search(r'(ERROR: AddressSanitizer: \S+.*|runtime error: .*|Assertion .*failed.*|terminate called.*)', txt)
        return m.group(1)[:200] if m else 'crash'
    def run_native(exe, args, to=60):
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=work, timeout=to)
            return p.returncode, p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired: return 'timeout', ''
    # native results
    runs = 0; distinct = 0; nat_asserts = 0; samples = []
    nat_fail = {}
    for n, (rc, txt, it) in sorted(nat_res.items()):
        m = re.search(r'DONE runs=(\d+) skipped=(\d+) asserts=(\d+) distinct=(\d+)', txt)
        if rc == 0 and m:
            runs += int(m.group(1)); distinct += int(m.group(4)); nat_asserts += int(m.group(3))
            sm = re.search(r'SAMPLE (.*)', txt)
            if sm and len(samples) < 6: samples.append(n + ': ' + sm.group(1)[:240])
            if int(m.group(1)) == 0: undecided.append('%s: bounded search ran no input' % n)
            continue
        if rc == 'timeout' and not hopts.get(n, {}).get('hang_is_failure'):
            undecided.append('%s: bounded search stopped without an answer' % n); continue
        what = failure_line(txt) if rc != 'timeout' else 'does not terminate'
        rc2, txt2 = run_native(runner_of[n], ['iter', n, str(seed), str(it)], 120)
        if rc2 == 0 and 'HELD' in txt2:
            undecided.append('%s: a failure of the bounded search did not reproduce: %s' % (n, what)); continue
        if rc2 != 'timeout': what = failure_line(txt2)
        kd = is_known(n, what)
        if kd: found_known.add(kd); continue
        nat_fail[n] = what
        rp = save(n, {'property': pid, 'harness': n, 'failed': what, 'how': 'bounded search over the executable contract', 'seed': seed, 'iteration': it,
                      'replay': '%s iter %s %d %s' % (os.path.basename(runner_of[n]), n, seed, it), 'output': (txt2 or txt)[-5000:]})
        alarms.append((n, what, rp, True))
    # proof results
    nob = npr = 0; backends = {}; funcs = {}; assume = set(); solver = 0.0; queries = 0; byh = {}
    for r in results:
        h = r['harness']; b = byh.setdefault(h, {'cases': 0, 'obligations': 0, 'discharged': 0, 'undecided': [], 'time': 0}); b['cases'] += 1; b['time'] = round(b['time'] + r['time'], 1)
        funcs.update(r['funcs']); assume |= set(r['assume']); solver += r['solver']; queries += r['queries']
        if r['tool']:
            undecided.append('%s %s: %s' % (h, r['cases'] or '', r['tool'])); b['undecided'].append(r['tool'][:300])
        nass = 0
        for lab, kind, loc, st, be, tm, rep in r['obls']:
            if kind == 'assert': nass += 1
            nob += 1; b['obligations'] += 1; solver += tm
            if st == 'proved':
                npr += 1; b['discharged'] += 1; backends[be] = backends.get(be, 0) + 1; continue
            where = '%s:%s' % (os.path.basename(str(loc[0])) if loc else '?', loc[1] if loc else '?')
            name = '%s [%s] %s' % (lab, where, r['cases'] or '')
            if st == 'unknown': undecided.append('%s: obligation not decided: %s (%s)' % (h, name, be)); b['undecided'].append(name[:200]); continue
            kd = is_known(h, lab + ' ' + where)
            if kd: found_known.add(kd); continue
            if any(a[0] == h for a in alarms): continue
            # replay the counterexample on the real code
            rp = None; concrete = False; what = name; out = ''
            if rep and h in runner_of:
                mf = os.path.join(repdir, '%s_%s.model' % (pid, h)); open(mf, 'w').write('\n'.join(rep['lines']) + '\n')
                if rep['small'] or h in P.get('replay_any', ()):
                    rc, out = run_native(runner_of[h], ['replay', h, mf])
                    if rc not in (0, 'timeout'):
                        w2 = failure_line(out)
                        if is_known(h, w2): found_known.add(is_known(h, w2)); continue
                        concrete = True; what += ' | native: ' + w2
            if not concrete and h in runner_of:
                # directed longer search
                pf = os.path.join(work, 'prog2'); 
                if os.path.exists(pf): os.unlink(pf)
                lim = min(25, max(5, tend - time.time() - 20))
                rc, out2 = run_native(runner_of[h], ['random', h, str(seed + 77), str(lim), '1000000000', pf], lim + 60)
                if rc not in (0, 'timeout') and not is_known(h, failure_line(out2)):
                    concrete = True; out = out2; what += ' | native: ' + failure_line(out2)
                    rep = dict(rep or {}, native_seed=seed + 77, iteration=int.from_bytes(open(pf, 'rb').read(8), 'little'))
            rp = save(h, {'property': pid, 'harness': h, 'failed_obligation': name, 'kind': kind, 'backend': be, 'model': rep, 'native_output': out[-4000:], 'reproduced': concrete})
            alarms.append((h, what, rp, concrete))
        for c, ok in r['covers'].items():
            if not ok and not r['tool']: undecided.append('%s %s: contract point "%s" is unreachable (vacuous)' % (h, r['cases'] or '', c)); b['undecided'].append('vacuous ' + c)
        if not r['tool'] and nass == 0 and not P.get('noassert', False): undecided.append('%s %s: no property obligation was generated' % (h, r['cases'] or ''))
    for x in builderr: undecided.append('build: ' + x)
    # ---------------------------------------------------------------- report
    level = P['level']
    trusted = ['engine/irdump.cpp and the VC generator engine/*.py', 'clang 18 front end (-O1, LLVM passes disabled, then mem2reg/simplifycfg/early-cse)', 'z3 5.x, cvc5 1.1.2',
               'the contract files contracts/%s.cpp' % '.cpp, '.join(P.get('sym', []) or P.get('native', [])), 'floating point treated as real arithmetic in proofs'] + P.get('trusted', [])
    repofuncs = sorted({v[0] for v in funcs.values() if v[1] and (v[1].startswith(build.REPO) or 'export/' in v[1] or 'src/' in v[1])})
    cov = {'obligations': nob, 'discharged': npr, 'checker_cmd': 'cd /verif && python3-vt check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''), 'trusted_base': trusted,
           'backends': backends, 'solver_time_s': round(solver, 1), 'solver_queries': queries, 'functions_under_contract': repofuncs[:400], 'n_functions_under_contract': len(repofuncs),
           'per_contract': byh, 'cases_left_to_thorough': skipped_cases, 'undecided': undecided[:60],
           'evaluations': runs, 'distinct_nontrivial': distinct, 'rule': 'bounded stand-in (never counted as proved): the same contracts compiled natively with ASan/UBSan and run on seeded pseudo-random inputs; an input is non-trivial if it passes the preconditions, distinct if its drawn values differ',
           'samples': samples or ['none'], 'bounded_assertions_evaluated': nat_asserts,
           'explanation': P.get('explain', '')}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': sorted(assume) + P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(alarms)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for u in undecided[:40]: print('UNDECIDED', u.replace('\n', ' ')[:600])
    for d in sorted(found_known): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    print('%s: %d obligations, %d discharged, %d functions, bounded runs %d, build %.0fs, total %.0fs' % (pid, nob, npr, len(repofuncs), runs, tbuild, time.time() - t0))
    if verbose:
        for h, b in byh.items(): print('  ', h, b)
    for h, what, rp, concrete in alarms:
        print('  failed %s: %s' % (h, what[:500]))
    if alarms:
        alarms.sort(key=lambda a: not a[3])
        h, what, rp, concrete = alarms[0]
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if concrete else ' no-failing-input-found'))
        return 1
    return 0
if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException as x:
        import traceback; traceback.print_exc(); print('UNDECIDED internal error of the check'); rc = 0
    sys.stdout.flush(); os._exit(rc)
