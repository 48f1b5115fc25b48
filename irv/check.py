"""check.py PROPERTY: decide one property of /repo's working tree with the contracts of /verif/contracts."""
import sys, os, json, time, subprocess, tempfile, shutil, re, threading, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, 'contracts'))
from build import build_ir, includes, COMMON, BuildError, Missing, REPO
from concurrent.futures import ThreadPoolExecutor
import registry

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
PY = sys.executable
NATIVE = ['-O1', '-g', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize=vptr,alignment,null,pointer-overflow,function,object-size,nonnull-attribute,returns-nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS=0', '-DIRV_NATIVE']

def native_build(unit, out):
    fl = unit.get('flags', [])
    cmd = ['clang++-18', *COMMON, *includes(unit.get('native_models', ())), *fl, *unit.get('native_flags', []), *NATIVE, os.path.join(VERIF, 'contracts', unit['src']), os.path.join(HERE, 'native.cpp'), '-o', out] + unit.get('libs', [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    return None if r.returncode == 0 else r.stderr[-3000:]

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_container_overflow=0:symbolize=1', UBSAN_OPTIONS='print_stacktrace=1', ASAN_SYMBOLIZER_PATH='/usr/bin/llvm-symbolizer-18')
def classify(text, rc):
    m = re.search(r'IRV-FAIL (.*)', text)
    if m: return m.group(1)
    m = re.search(r'runtime error: (.*)', text)
    if m: return 'undefined behaviour: ' + m.group(1)
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', text)
    if m: return 'memory error: ' + m.group(1)
    m = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
    if m: return 'uncaught exception ' + m.group(1)
    m = re.search(r'libFuzzer: (timeout|out-of-memory|deadly signal)', text)
    if m: return m.group(1)
    m = re.search(r'Assertion `([^\']*)\'', text)
    if m: return 'assertion ' + m.group(1)
    return None
def replay(exe, contract, path, timeout=60, verbose=False):
    """(what failed or None, output)"""
    env = dict(ENV, IRV_CONTRACT=contract)
    if verbose: env['IRV_VERBOSE'] = '1'
    try: r = subprocess.run([exe, '-timeout=40', '-rss_limit_mb=6000', path], capture_output=True, text=True, errors='replace', timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return 'no answer within %d s' % timeout, ''
    if r.returncode == 0: return None, r.stderr
    return classify(r.stderr, r.returncode) or 'exit code %d' % r.returncode, r.stderr
def search(exe, contract, seeds, secs, work, tag, maxlen=600):
    """libFuzzer search for a failing input: (what, file, executions)"""
    d = os.path.join(work, 'corpus_%s_%s' % (contract, tag)); os.makedirs(d, exist_ok=True); art = os.path.join(work, 'art_%s_%s_' % (contract, tag))
    for i, s in enumerate(seeds): open(os.path.join(d, 'seed%d' % i), 'wb').write(s)
    n = 0
    cmd = [exe, '-seed=%d' % (SEED * 1000 + hash(tag) % 7 + 1 if not str(tag).isdigit() else SEED * 1000 + int(tag) + 1), '-max_total_time=%d' % secs, '-max_len=%d' % maxlen, '-len_control=20', '-timeout=20', '-rss_limit_mb=4000', '-artifact_prefix=' + art, '-print_final_stats=1', d]
    try: r = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=secs + 60, env=dict(ENV, IRV_CONTRACT=contract))
    except subprocess.TimeoutExpired: return None, None, 0, 'search did not stop'
    m = re.search(r'IRV-EVALS (\d+) (\d+)', r.stderr); ev = int(m.group(1)) if m else 0
    m = re.search(r'stat::number_of_executed_units:\s*(\d+)', r.stderr)
    if m: ev = max(ev, int(m.group(1)))
    if r.returncode == 0: return None, None, ev, ''
    arts = [os.path.join(work, f) for f in os.listdir(work) if os.path.join(work, f).startswith(art)]
    what = classify(r.stderr, r.returncode)
    if not arts: return None, None, ev, r.stderr[-800:]
    return what or 'exit code %d' % r.returncode, arts[0], ev, ''

def main():
    pid = sys.argv[1]
    P = registry.PROPS[pid]; t0 = time.time()
    limit = 420 if TIER == 'quick' else 3000
    limit = P.get('limit', limit) if TIER == 'quick' else limit
    searchtime = 75 if TIER == 'quick' else 300
    work = tempfile.mkdtemp(prefix='irv_%s_' % pid)
    code = 2
    try: code = decide(pid, P, t0, limit, searchtime, work)
    except Exception: import traceback; traceback.print_exc(); code = 2
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

def decide(pid, P, t0, limit, searchtime, work):
    units = P['units']
    jobs = []; builderr = None
    def build(k):
        u = units[k]; od = os.path.join(work, 'u%d' % k); os.makedirs(od, exist_ok=True)
        try: ll = build_ir(os.path.join(VERIF, 'contracts', u['src']), od, models=u.get('models', ()), flags=u.get('flags', []), exceptions=u.get('exceptions', False), noinline=u.get('noinline', ()), keep=u.get('keep', ()), replace=u.get('replace'), std=u.get('std'))
        except Missing as x:
            # a function that a contract stands for is not called any more: only the bounded check is left
            text = subprocess.run(['clang++-18', *COMMON, *includes(u.get('models', ()), od), *u.get('flags', []), '-E', os.path.join(VERIF, 'contracts', u['src'])], capture_output=True, text=True).stdout
            return 'missing: ' + str(x), sorted(set(re.findall(r'\bcontract_(%s_\w+)\(\)' % pid, text)))
        names = sorted(set(re.findall(r'^define [^\n]*@contract_(%s_\w+)\(' % pid, open(ll).read(), re.M)))
        return ll, names
    with ThreadPoolExecutor(8) as ex:
        try: built = list(ex.map(build, range(len(units))))
        except BuildError as x:
            # the first obligation of every contract: it type-checks against the code it is about
            if shutil.which('clang++-18') is None or not os.path.isdir(os.path.join(REPO, 'include', 'nbdl')): print('check: no compiler or no tree', file=sys.stderr); return 2
            rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True); path = os.path.join(rdir, '%s_interface.txt' % pid)
            open(path, 'w').write('property %s: the obligation "the contracts type-check against the interface of this tree" fails\n\n%s\n' % (pid, str(x)[-8000:]))
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            json.dump(dict(property=pid, tier=TIER, seed=SEED, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 1), coverage=dict(obligations=1, discharged=0, checker_cmd='irv/check.py %s' % pid, trusted_base=registry.TRUSTED, functions_under_contract=[], notes=['the contracts do not compile against this tree'])), open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
            print('the contracts do not compile against this tree:\n' + str(x)[-1500:], file=sys.stderr)
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path)); return 1
    for k, (ll, names) in enumerate(built):
        skip = units[k].get('bounded', {})
        if not names: print('check: no contract of %s in %s' % (pid, units[k]['src']), file=sys.stderr); return 2
        for n in names:
            if n not in skip: jobs.append((k, ll, n, units[k]))
    deadline = t0 + limit
    stop = []; known = registry.known(pid)
    grace = 40 if TIER == 'quick' else 600     # once a contract is refuted the others have this long
    def work1(j):
        k, ll, n, u = j
        if ll.startswith('missing: '): return dict(contract=n, status='unsupported', why=ll[9:], failures=[])
        left = deadline - time.time()
        if stop and time.time() > stop[0]: return dict(contract=n, status='skipped', why='another contract is violated', failures=[])
        if left < 5: return dict(contract=n, status='unsupported', why='time limit', failures=[])
        opts = dict(u.get('opts', {}))
        if any(x['contract'] == n for x in registry.known(pid)): opts['after_refuted'] = 1e9
        opts.update(u.get('contract_opts', {}).get(n, {})); opts['timeout'] = min(opts.get('timeout', limit), left)
        p = subprocess.Popen([PY, os.path.join(HERE, 'worker.py'), ll, n, json.dumps(opts)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        end = time.time() + left + 10; err = ''
        try:
            while True:
                try: o, err = p.communicate(timeout=1); break
                except subprocess.TimeoutExpired:
                    if time.time() > end: p.kill(); p.communicate(); return dict(contract=n, status='unsupported', why='time limit', failures=[])
                    if stop and time.time() > stop[0]: p.kill(); p.communicate(); return dict(contract=n, status='skipped', why='another contract is violated', failures=[])
            r = json.loads(o.strip().split('\n')[-1])
            if any(f['status'] == 'sat' and not any(x['contract'] == n for x in known) for f in r['failures']): stop.append(time.time() + grace)
            return r
        except Exception as x: return dict(contract=n, status='unsupported', why='the verifier process died: ' + str(x)[:200] + (err or '')[-300:], failures=[])
    order = P.get('first', [])
    jobs.sort(key=lambda j: (order.index(j[2]) if j[2] in order else 99))
    with ThreadPoolExecutor(8) as ex: results = list(ex.map(work1, jobs))
    byname = {r['contract']: r for r in results}
    unit_of = {j[2]: j[0] for j in jobs}
    # ---- outcomes
    bad = [r for r in results if r['status'] != 'skipped' and (r['failures'] or r['status'] != 'ok' or r.get('missing_covers'))]
    skipped = [r for r in results if r['status'] == 'skipped']
    always = []
    for k, u in enumerate(units):
        for n in u.get('bounded', {}): always.append((k, n))
    violations = []; bounded = []; natives = {}; evals = 0; notes = []
    def get_native(k):
        if k not in natives:
            exe = os.path.join(work, 'native%d' % k); err = native_build(units[k], exe)
            natives[k] = (exe, err)
        return natives[k]
    todo = [(unit_of[r['contract']], r['contract'], r) for r in bad] + [(k, n, None) for k, n in always]
    if TIER == 'thorough': todo += [(unit_of[r['contract']], r['contract'], r) for r in results if r not in bad and r not in skipped and not units[unit_of[r['contract']]].get('no_native')]
    ks = sorted({k for k, _, _ in todo if not units[k].get('no_native')})
    with ThreadPoolExecutor(4) as ex: list(ex.map(get_native, ks))
    confirmed = {}      # contract -> (what, bytes, source)
    def confirm(t):
        k, n, r = t
        if units[k].get('no_native'): return None
        exe, err = get_native(k)
        if err: notes.append('native build failed: ' + err[-600:]); return None
        seeds = []
        if r is not None:
            for f in r['failures']:
                if f.get('input'):
                    data = bytes.fromhex(f['input']['hex']); seeds.append(data)
            for i, s in enumerate(seeds[:12]):
                p = os.path.join(work, 'model_%s_%d' % (n, i)); open(p, 'wb').write(s)
                w, out = replay(exe, n, p)
                if w: return (n, w, s, 'counterexample of the verifier', 0)
        w = None; ev = 0
        npar = max(1, min(4, 8 // max(1, len(todo))))
        secs = units[k].get('search', searchtime)
        if r is not None and r in results and r not in bad: secs = min(secs, 60)
        with ThreadPoolExecutor(npar) as ex:
            rs = list(ex.map(lambda i: search(exe, n, seeds if i % 2 == 0 else [], secs, work, str(i), units[k].get('maxlen', 600) if i < 2 else 120), range(npar)))
        for what, art, e, note in rs:
            ev += e
            if note: notes.append(note)
        for what, art, e, note in rs:
            if what:
                ww, out = replay(exe, n, art)
                if ww: return (n, ww, open(art, 'rb').read(), 'search on the real code', ev)
        return (n, None, None, None, ev)
    if todo:
        par = max(1, min(8, len(todo)))
        with ThreadPoolExecutor(par) as ex: cs = list(ex.map(confirm, todo))
    else: cs = []
    rdir = os.path.join(VERIF, 'build', 'replay'); os.makedirs(rdir, exist_ok=True)
    known_hit = []
    for t, c in zip(todo, cs):
        k, n, r = t
        fails = r['failures'] if r is not None else []
        if c is not None: evals += c[4]
        if c is not None and c[1]:
            what = c[1]
            kf = next((x for x in known if x['contract'] == n and x['what'] in what), None)
            if kf: known_hit.append(kf); continue
            path = os.path.join(rdir, '%s_%s.txt' % (pid, n)); binp = os.path.join(rdir, '%s_%s.bin' % (pid, n)); open(binp, 'wb').write(c[2])
            exe = natives[k][0]; w, out = replay(exe, n, binp, verbose=True)
            with open(path, 'w') as f:
                f.write('property %s, contract %s (%s)\nviolated on the real code: %s\nfound by: %s\ninput bytes (%s): %s\n' % (pid, n, units[k]['src'], what, c[3], binp, c[2].hex()))
                f.write('failed obligations of the verifier:\n' + ''.join('  %s [%s] at %s\n' % (x['name'], x['status'], x['loc']) for x in fails))
                f.write('\noutput of the replay (irv/check.py --replay %s %s):\n%s\n' % (pid, binp, '\n'.join(l for l in out.split('\n') if not l.startswith('INFO'))[:6000]))
            violations.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('%s: %s (%s)' % (n, what, c[3]), file=sys.stderr)
        elif r is not None and r in bad:
            refuted = [f for f in fails if f['status'] == 'sat']
            kf = [x for x in known if x['contract'] == n and all(x['what'] in f['name'] for f in refuted)] if refuted else []
            if kf: known_hit.append(kf[0]); continue
            miss = r.get('missing_covers') if r['status'] == 'ok' and not fails else None
            if refuted or miss:
                path = os.path.join(rdir, '%s_%s.txt' % (pid, n))
                with open(path, 'w') as f:
                    f.write('property %s, contract %s (%s)\nobligations that the verifier refutes on this tree; no failing input was found\n' % (pid, n, units[k]['src']))
                    for x in refuted: f.write('  %s at %s\n    condition: %s\n    model: %s\n' % (x['name'], x['loc'], x.get('cond', ''), (x.get('input') or {}).get('desc')))
                    for x in miss or []: f.write('  no execution reaches "%s" any more\n' % x)
                violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
                for x in refuted[:5]: print('%s: refuted: %s at %s' % (n, x['name'], x['loc']), file=sys.stderr)
                for x in miss or []: print('%s: unreachable: %s' % (n, x), file=sys.stderr)
            else:
                why = r.get('why') or ('undecided: ' + '; '.join(sorted({f['name'] for f in fails}))[:300])
                bounded.append(dict(contract=n, why=why, executions=c[4] if c else 0))
                if c is None: notes.append('no bounded check for ' + n)
        elif r is None:
            bounded.append(dict(contract=n, why=units[k]['bounded'][n], executions=c[4] if c else 0))
    undecided = [b for b in bounded if b['executions'] == 0 and byname.get(b['contract'])]
    total = sum(r.get('obligations', 0) for r in results); done = sum(r.get('discharged', 0) for r in results)
    be = {}
    for r in results:
        for k, v in r.get('backends', {}).items(): be[k] = be.get(k, 0) + v
    allproved = not skipped and not bounded and not violations and not known_hit
    cov = dict(obligations=total, discharged=done, checker_cmd='irv/check.py %s (clang 18 -> LLVM IR of %s -> irv verifier -> z3 %s, cvc5)' % (pid, REPO, __import__('z3').get_version_string()),
        trusted_base=sorted(set(registry.TRUSTED + P.get('assumptions', []) + [a for r in results for a in r.get('assumed', [])])),
        functions_under_contract=sorted({f for r in results for f in r.get('functions', [])}),
        named_obligations={k: v for r in results for k, v in r.get('named', {}).items()},
        safety_obligations=sum(r.get('safety', 0) for r in results), backends=be,
        solver_seconds=round(sum(r.get('stats', {}).get('z3_time', 0) + r.get('stats', {}).get('cvc5_time', 0) + r.get('stats', {}).get('feas_time', 0) for r in results), 1),
        paths=sum(r.get('paths', 0) for r in results), loops_cut_by_invariant=sorted({l for r in results for l in r.get('loops', [])}),
        contracts=[dict(name=r['contract'], status=r['status'], why=r.get('why'), obligations=r.get('obligations'), discharged=r.get('discharged'), seconds=r.get('time'), covers=r.get('covers'), missing_covers=r.get('missing_covers'),
                        failed=sorted({f['name'] + ' [' + f['status'] + ']' for f in r['failures']})) for r in results],
        bounded_stand_ins=bounded, native_executions=evals, notes=notes[:10])
    ev = dict(property=pid, tier=TIER, seed=SEED, level=P.get('level', 'proof'), coverage=cov, wall_s=round(time.time() - t0, 1))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in {x['id']: x for x in known_hit}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    print('%s: %d contracts, %d obligations, %d discharged, %d bounded, %.0f s' % (pid, len(results), total, done, len(bounded), time.time() - t0))
    for b in bounded: print('  bounded only: %s (%s; %d executions)' % (b['contract'], b['why'][:200], b['executions']))
    for v in sorted(set(violations)): print(v)
    if violations: return 1
    if skipped: print('check: contracts were skipped and nothing is violated', file=sys.stderr); return 2
    if total == 0: print('check: no obligations', file=sys.stderr); return 2
    if undecided:
        print('check: undecided: ' + ', '.join(b['contract'] for b in undecided), file=sys.stderr)
        for n in notes[:3]: print(n, file=sys.stderr)
        return 2
    return 0

def do_replay():
    pid, contract, path = sys.argv[2:5]
    for k, u in enumerate(registry.PROPS[pid]['units']):
        if 'CONTRACT(%s)' % contract in open(os.path.join(VERIF, 'contracts', u['src'])).read():
            exe = os.path.join(tempfile.mkdtemp(prefix='irv_replay_'), 'native'); err = native_build(u, exe)
            if err: print(err); sys.exit(2)
            w, out = replay(exe, contract, path, verbose=True); print(out); print('failed:', w); sys.exit(1 if w else 0)
if __name__ == '__main__':
    if sys.argv[1] == '--replay': do_replay()
    else: main()
