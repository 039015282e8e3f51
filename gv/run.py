"""Check one property: prove every obligation of its contracts on /repo's current source, cross-check
the contracts against the running code, write evidence, print the verdict."""
import sys, os, json, time, importlib, subprocess, tempfile, shutil, multiprocessing, traceback, re, glob
from . import build
from .build import REPO, VERIF, LLVM

def work(proof, mod, qout, budget, scale=1):
    """runs in a child process"""
    from . import engine, logic, stdlib
    import z3
    logic.SCALE = scale; logic.SEED = scale - 1
    t0 = time.time()
    res = {'proof': proof.name, 'root': proof.root, 'obls': [], 'error': None, 'outcomes': 0}
    E = None
    try:
        E = engine.Engine(mod, list(proof.kw.get('contracts', ())) + stdlib.CONTRACTS, timeout=proof.kw.get('timeout', 20))
        from . import toint
        toint.W = proof.kw.get('W', 16); toint.NL = proof.kw.get('NL', False); logic.IVAL = proof.kw.get('ival', False)
        E.dem = mod.dem; E.root = proof.name; E.deadline = t0 + budget
        E.trace = int(os.environ.get('GV_VERBOSE', '0'))
        E.templates = list(proof.kw.get('templates', ()))
        E.fpexact = proof.kw.get('fpexact', False)
        E.split = proof.kw.get('split', False)
        E.closed = proof.kw.get('closed', False)
        E.named = proof.kw.get('named', False)
        E.light = proof.kw.get('light', False)
        E.generic = proof.kw.get('generic', True)
        st = engine.State()
        args, ctx = proof.setup(E, st)
        s = z3.Solver(); s.set('timeout', 5000)
        for f in st.facts:
            if not logic.has_q(f): s.add(f)
        if s.check() == z3.unsat: raise Exception('precondition is contradictory')
        live = 0; nret = 0
        if proof.root is None:
            proof.post(E, st, None, ctx); live = 1; res['outcomes'] = 1
        else:
            for o in E.call_function(st, proof.root, args):
                res['outcomes'] += 1
                if o[0] == 'ret':
                    nret += 1
                    proof.post(E, o[1], o[2], ctx)
                elif o[0] == 'unwind':
                    h = proof.kw.get('on_throw')
                    if h is None: E.oblige(o[1], False, 'no-throw', 'exception %s escapes' % o[2])
                    else: h(E, o[1], o[2], ctx)
                else:
                    h = proof.kw.get('on_stop')
                    if h is None: E.oblige(o[1], False, 'no-abort', str(o[2]))
                    else: h(E, o[1], o[2], ctx)
                if not live and logic.prove(o[1].facts, z3.BoolVal(False), timeout=5, levels=logic.LEVELS[:2])[0] != 'proved':
                    live = 1
        if not live: res['error'] = 'vacuous: no outcome is reachable'
        elif not E.obls: res['error'] = 'vacuous: no obligation generated'
        want = proof.kw.get('min_outcomes', 1)
        if res['outcomes'] < want: res['error'] = 'vacuous: %d outcomes, expected at least %d' % (res['outcomes'], want)
    except engine.Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Exception as e:
        res['error'] = 'error: ' + traceback.format_exc()[-1500:]
        if os.environ.get('GV_VERBOSE'): traceback.print_exc()
    if E is not None:
        for o in E.obls:
            info = None
            if o.status != 'proved':
                info = {'goal': str(o.goal)[:2000], 'model': modelstr(o.info)}
            res['obls'].append({'kind': o.kind, 'where': o.where, 'status': o.status, 'time': round(o.time, 3), 'info': info})
        res['contracts'] = sorted(E.used_contracts)
        res['loops'] = E.loopsinfo
    res['queries'] = logic.STATS['queries']; res['solver_s'] = round(logic.STATS['time'], 2)
    res['wall'] = round(time.time() - t0, 2)
    with open(qout, 'w') as f: json.dump(res, f)

def modelstr(m):
    try:
        out = []
        for d in m.decls():
            if d.arity() == 0 and '~' not in d.name():
                v = str(m[d]).replace('\n', ' ')
                if len(v) < 200: out.append('%s = %s' % (d.name(), v))
        return sorted(out)[:60]
    except Exception:
        return str(m)[:500]

def run_proofs(proofs, mods, tmp, budget, ncpu=8, scale=1, end=None):
    pend = sorted(enumerate(proofs), key=lambda x: -x[1].kw.get('slow', 1)); running = {}; results = {}
    ctx = multiprocessing.get_context('fork')
    while pend or running:
        if end and time.time() > end:
            for i, p in pend: results[i] = {'proof': p.name, 'root': p.root, 'obls': [], 'error': 'time budget exhausted before this proof was tried', 'outcomes': 0}
            pend = []
        while pend and len(running) < ncpu:
            i, p = pend.pop(0)
            if isinstance(mods[p.mkey()], Exception):
                results[i] = {'proof': p.name, 'root': p.root, 'obls': [], 'error': 'harness does not build: %s' % str(mods[p.mkey()])[-1500:], 'outcomes': 0}
                continue
            q = os.path.join(tmp, 'r%d.json' % i)
            pr = ctx.Process(target=work, args=(p, mods[p.mkey()], q, budget * (p.kw.get('slow', 1) if scale == 1 else 1), scale))
            pr.start(); running[i] = (pr, q, time.time(), p)
        time.sleep(0.02)
        for i in list(running):
            pr, q, t0, p = running[i]
            lim = budget * (p.kw.get('slow', 1) if scale == 1 else 1) + 60
            if not pr.is_alive() or time.time() - t0 > lim or (end and time.time() > end + 5):
                if pr.is_alive(): pr.kill()
                pr.join()
                try: results[i] = json.load(open(q))
                except Exception: results[i] = {'proof': p.name, 'root': p.root, 'obls': [], 'error': 'verifier process ended without a result (timeout or crash)', 'outcomes': 0}
                del running[i]
    return [results[i] for i in range(len(proofs))]

# ---------------------------------------------------------------- native cross-check / search
def build_native(prop, tmp):
    src = os.path.join(VERIF, 'native', prop + '.cc')
    exe = os.path.join(tmp, prop + '_native')
    text = open(src).read()
    m = re.search(r'//\s*LINK:(.*)', text)
    srcs = [os.path.join(REPO, 'src', s) for s in (m.group(1).split() if m else [])]
    cmd = [LLVM + 'clang++', '-std=c++14', '-O1', '-g1', '-w', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=undefined',
           '-fno-omit-frame-pointer', '-I' + REPO + '/include', '-I' + os.path.join(VERIF, 'native'), src] + srcs + ['-o', exe, '-pthread']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if p.returncode: raise build.BuildError(p.stdout.decode(errors='replace')[-3000:])
    return exe

ENVN = {'ASAN_OPTIONS': 'allocator_may_return_null=1:detect_leaks=1:abort_on_error=0:handle_abort=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}

def dictionary(mods, tmp):
    """constants occurring in the harness IR, as a libFuzzer dictionary"""
    vals = set(); strs = set()
    for m in mods.values():
        if isinstance(m, Exception): continue
        for x in re.findall(r'icmp \w+ i\d+ [^,\n]+, (-?\d+)', m.text): vals.add(int(x))
        for x in re.findall(r'\bi(?:8|16|32|64) (-?\d+)', m.text): vals.add(int(x))
    path = os.path.join(tmp, 'dict')
    with open(os.path.join(tmp, 'consts'), 'w') as f:
        for v in sorted(vals):
            if -(1 << 63) <= v < (1 << 63): f.write('%d\n' % v)
    with open(path, 'w') as f:
        f.write('"\\x00"\n')
        for v in list(vals)[:400]:
            for n in (1, 2, 4, 8):
                if -(1 << (8 * n - 1)) <= v < (1 << (8 * n)):
                    b = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'big')
                    f.write('"%s"\n' % ''.join('\\x%02x' % c for c in b))
                    break
    return path

def search(exe, tmp, seed, secs, enum_secs, jobs, dct):
    """bounded exhaustive enumeration, then coverage-guided search; returns (failure text or None, stats)"""
    env = dict(os.environ); env.update(ENVN)
    out = os.path.join(tmp, 'fail.txt')
    if os.path.exists(out): os.unlink(out)
    env['GV_OUT'] = out
    stats = {'enum_cases': 0, 'enum_complete': False, 'fuzz_runs': 0}
    procs = []
    e2 = dict(env); e2['GV_ENUM'] = str(enum_secs)
    log = open(os.path.join(tmp, 'enum.log'), 'wb')
    procs.append(('enum', subprocess.Popen([exe], env=e2, stdout=log, stderr=log, cwd=tmp), os.path.join(tmp, 'enum.log')))
    env['GV_CONSTS'] = os.path.join(tmp, 'consts')
    for j in range((jobs + 1) // 3):
        e3 = dict(env); e3['GV_RAND'] = str(secs); e3['GV_SEED'] = str(seed * 1000 + j)
        lp = os.path.join(tmp, 'rand%d.log' % j); log = open(lp, 'wb')
        procs.append(('rand', subprocess.Popen([exe], env=e3, stdout=log, stderr=log, cwd=tmp), lp))
    for j in range(jobs - (jobs + 1) // 3):
        lp = os.path.join(tmp, 'fuzz%d.log' % j)
        log = open(lp, 'wb')
        cmd = [exe, '-seed=%d' % (seed + j + 1), '-max_len=%d' % (96 if j % 2 == 0 else 400), '-max_total_time=%d' % max(1, int(secs)), '-use_value_profile=%d' % (j % 2 == 0),
               '-artifact_prefix=%s/art%d-' % (tmp, j), '-print_final_stats=1', '-timeout=25', '-rss_limit_mb=3000', '-dict=' + dct, '-len_control=20']
        procs.append(('fuzz', subprocess.Popen(cmd, env=env, stdout=log, stderr=log, cwd=tmp), lp))
    fail = None
    t0 = time.time()
    lim = max(secs, enum_secs) + 60
    while True:
        alive = [p for p in procs if p[1].poll() is None]
        bad = [p for p in procs if p[1].poll() not in (None, 0)]
        if bad or not alive or time.time() - t0 > lim: break
        time.sleep(0.05)
    for p in procs:
        if p[1].poll() is None: p[1].kill()
        p[1].wait()
    txt = open(out, errors='replace').read() if os.path.exists(out) else ''
    for k, p, lp in bad:
        tail = open(lp, errors='replace').read()
        real = 'FAIL ' in tail or 'HANG' in tail or 'ERROR: AddressSanitizer' in tail or 'ERROR: LeakSanitizer' in tail or 'runtime error' in tail or 'deadly signal' in tail or 'ERROR: libFuzzer: timeout' in tail
        if not real and not txt: continue         # the search itself failed (memory, files): not evidence about the code
        tail = '\n'.join(l for l in tail.split('\n') if not l.startswith(('#', 'INFO')))
        fail = (txt + '\n' + tail)[:6000]; break
    for k, p, lp in procs:
        t = open(lp, errors='replace').read()
        m = re.search(r'ENUM cases=(\d+) complete=(\d)', t)
        if m: stats['enum_cases'] = int(m.group(1)); stats['enum_complete'] = m.group(2) == '1'
        m = re.search(r'RAND cases=(\d+)', t)
        if m: stats['random_cases'] = stats.get('random_cases', 0) + int(m.group(1))
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', t)
        if m: stats['fuzz_runs'] += int(m.group(1))
    return fail, stats

def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def functions_of(mods):
    """gul14 functions whose bodies were executed symbolically (from the pre-inlining IR)"""
    out = set()
    for m in mods.values():
        if isinstance(m, Exception): continue
        for d in m.rawdefs:
            if 'gul14::' in d: out.add(re.sub(r'\s+', ' ', d)[:160])
    return sorted(out)

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = os.environ.get('GV_ONLY')
    t0 = time.time()
    sp = importlib.import_module('gv.specs.' + prop)
    proofs = sp.PROOFS
    if only: proofs = [p for p in proofs if re.search(only, p.name)]
    tmp = tempfile.mkdtemp(prefix='gv-%s-' % prop)
    try:
        rc = check(prop, tier, seed, sp, proofs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def verdict(prop, results):
    obl = sum(len(r['obls']) for r in results)
    good = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    failed = []
    for r in results:
        for o in r['obls']:
            if o['status'] != 'proved': failed.append((r['proof'], o['kind'], o['where'], o['status'], o['info']))
        if r['error']: failed.append((r['proof'], 'undecided', r['error'], 'undecided', None))
    known = known_findings(prop)
    kf = []
    rest = []
    for f in failed:
        key = '%s/%s' % (f[0], f[1])
        hit = [k for k in known if k[0] == key]
        if hit: kf.append(hit[0])
        else: rest.append(f)
    failed = rest
    return obl, good, failed, kf

def check(prop, tier, seed, sp, proofs, tmp, t0):
    import concurrent.futures as cf
    keys = {}
    for p in proofs: keys.setdefault(p.mkey(), p)
    mods = {}
    nat = None; natexc = None
    has_native = os.path.exists(os.path.join(VERIF, 'native', prop + '.cc')) and not os.environ.get('GV_NONATIVE')
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {k: ex.submit(build.module, p.src, keep=p.kw.get('keep', ()), defs=p.kw.get('defs', ())) for k, p in keys.items()}
        fn = ex.submit(build_native, prop, tmp) if has_native else None
        for k, f in futs.items():
            try: mods[k] = f.result()
            except Exception as e: mods[k] = e
        results = None
        if fn:
            try: nat = fn.result()
            except Exception as e: natexc = e
    budget = {'quick': 150, 'thorough': 900}[tier]
    results = run_proofs(proofs, mods, tmp, budget, end=t0 + (400 if tier == 'quick' else 7200))
    obl, good, failed, kf = verdict(prop, results)
    nfail = None; stats = {}
    if nat:
        quick = not failed
        secs = (4 if tier == 'quick' else 60) if quick else (75 if tier == 'quick' else 300)
        nfail, stats = search(nat, tmp, seed, secs, secs, 3 if quick else 6, dictionary(mods, tmp))
    elif natexc is not None and not failed:
        failed.append(('native', 'undecided', 'cross-check driver does not build: %s' % str(natexc)[-1500:], 'undecided', None))
    if failed and not nfail and not os.environ.get('GV_NORETRY'):
        # no failing input: give the solver more time (and another seed) before calling the obligations undischarged
        end = t0 + (700 if tier == 'quick' else 10800); left = end - time.time()
        redo = [i for i, r in enumerate(results) if (r['error'] or any(o['status'] != 'proved' for o in r['obls'])) and not isinstance(mods[proofs[i].mkey()], Exception)]
        if left > 60 and redo:
            again = run_proofs([proofs[i] for i in redo], mods, tmp, min(240, left), ncpu=6, scale=4, end=end)
            for i, r in zip(redo, again): results[i] = r
            nat_undecided = [f for f in failed if f[0] == 'native']
            obl, good, failed, kf = verdict(prop, results)
            failed += nat_undecided
    viol = 1 if (failed or nfail) else 0
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(sp, 'LEVEL', 'proof'),
        'coverage': {
            'obligations': obl, 'discharged': good,
            'checker_cmd': 'python3-vt -m gv.run %s %s' % (prop, tier),
            'trusted_base': ['gv verification-condition generator (/verif/gv)', 'z3 4.x/5.x (LIA+arrays+UF after integer translation; BV otherwise)', 'clang 18 front end at -O0 and opt passes always-inline, sroa, early-cse, instcombine, simplifycfg'] + getattr(sp, 'TRUST', []),
            'functions_under_contract': [r['proof'] for r in results],
            'gul14_functions_executed_symbolically': functions_of(mods),
            'assumed_external_contracts': sorted({c for r in results for c in r.get('contracts', ())})[:80],
            'backend': 'z3 (python z3-solver) %s' % __import__('z3').get_version_string(),
            'solver_queries': sum(r.get('queries', 0) for r in results),
            'solver_s': round(sum(r.get('solver_s', 0) for r in results), 1),
            'by_kind': bykind(results),
            'slowest_s': dict(sorted(((r['proof'], r.get('wall', 0)) for r in results), key=lambda x: -x[1])[:6]),
            'loops_cut': sum(len(r.get('loops', ())) for r in results),
            'cross_check': dict(stats, note='bounded; validates contracts against the running code and searches failing inputs; not counted as proof') if stats else 'none',
            'bounded_parts': getattr(sp, 'BOUNDED', []),
        },
        'assumptions': getattr(sp, 'ASSUME', []) + [
            'objects are at most PTRDIFF_MAX bytes; distinct objects have distinct addresses; no loop runs 2^64 iterations',
            'standard-library calls listed under assumed_external_contracts behave as the C++ standard says'],
        'wall_s': round(time.time() - t0, 1), 'violations': viol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    print('%s: %d/%d obligations discharged over %d functions, %d undecided/failed; cross-check %s; %.1fs' % (
        prop, good, obl, len(results), len(failed), stats or '-', time.time() - t0))
    if not viol: return 0
    rp = os.path.join(VERIF, 'evidence', 'replay-%s.txt' % prop)
    with open(rp, 'w') as f:
        f.write('property %s\n' % prop)
        if nfail:
            f.write('\n== failing input on the real code (driver native/%s.cc built from %s) ==\n%s\n' % (prop, REPO, nfail))
        f.write('\n== obligations not discharged ==\n')
        for x in failed:
            f.write('%s: %s at %s: %s\n' % x[:4])
            if x[4]:
                f.write('   goal: %s\n   model: %s\n' % (x[4]['goal'], x[4]['model']))
    for x in failed[:10]: print('  not discharged: %s: %s at %s: %s' % tuple(str(y)[:300] for y in x[:4]))
    if nfail: print('  ' + nfail.strip().split('\n')[0][:500])
    print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if nfail else ' no-failing-input-found'))
    return 1

def bykind(results):
    d = {}
    for r in results:
        for o in r['obls']: d[o['kind']] = d.get(o['kind'], 0) + 1
    return d

if __name__ == '__main__':
    main()
