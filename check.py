#!/usr/bin/env python3
"""Runs the solver-based check of one property: compiles the harness and the
/repo sources it needs to LLVM IR, executes every entry symbolically, replays
any counterexample natively, writes evidence/<id>.json."""
import resource, sys, os, re, json, subprocess, tempfile, shutil, time, fcntl, signal
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
SHIM = os.path.join(V, 'shim')
TIER = os.environ.get('VERIF_TIER', 'quick')
BASE = ['-std=c++20', '-I', SHIM, '-I', REPO, '-fno-exceptions', '-fno-strict-aliasing', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_ASSERTIONS',
        '-Wno-everything', '-fno-threadsafe-statics', '-fno-math-errno', '-ftemplate-depth=2000']
IR = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-builtin-strlen', '-gline-tables-only', '-fno-pic', '-fno-pie', '-emit-llvm', '-c',
      '-mllvm', '-two-entry-phi-node-folding-threshold=12', '-mllvm', '-phi-node-folding-threshold=6']
UBSAN = '-fsanitize=signed-integer-overflow,float-cast-overflow,shift,integer-divide-by-zero'

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def engine():
    b = os.environ.get('VP_ENGINE')
    if b: return b
    d = os.path.join(V, 'engine', 'build')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-j8', '-C', os.path.join(V, 'engine')])
        if r.returncode != 0:
            print(r.stdout); print('engine build failed'); sys.exit(3)
    return os.path.join(d, 'inksym')

def directives(path):
    d = {'src': [], 'flags': [], 'opts': {}}
    seen = set()
    def scan(p):
        if p in seen: return
        seen.add(p)
        for l in open(p):
            m = re.match(r'//\s*SRC:\s*(.*)', l)
            if m: d['src'] += [x for x in m.group(1).split() if x not in d['src']]
            m = re.match(r'//\s*FLAGS:\s*(.*)', l)
            if m: d['flags'] += m.group(1).split()
            m = re.match(r'//\s*OPT:\s*(\w+)=(.*)', l)
            if m: d['opts'][m.group(1)] = m.group(2).strip()
            m = re.match(r'//\s*BOUND:\s*(.*)', l)
            if m: d['opts'].setdefault('bounds', []).append(m.group(1).strip())
            m = re.match(r'//\s*ASSUME:\s*(.*)', l)
            if m: d['opts'].setdefault('assumes', []).append(m.group(1).strip())
            m = re.match(r'#include "(harness/[^"]+)"', l)
            if m: scan(os.path.join(V, m.group(1)))
    scan(path)
    return d

def entries(path):
    t = open(path).read()
    q = re.findall(r'^VP_ENTRY\((\w+)\)', t, re.M)
    th = re.findall(r'^VP_ENTRY_T\((\w+)\)', t, re.M)
    return q, th

def compile_ir(tmp, harness, d, ubsan=True):
    srcs = [harness, os.path.join(V, 'rt/rt.cc')] + [s if s.startswith('/') else (os.path.join(V, s[4:]) if s.startswith('@vp/') else os.path.join(REPO, s)) for s in d['src']]
    jobs = []
    for i, s in enumerate(srcs):
        o = os.path.join(tmp, 'm%d.bc' % i)
        f = BASE + IR + d['flags'] + ['-I', V]
        if d['opts'].get('ubsan', 'yes') != 'no': f = f + [UBSAN, '-fsanitize-trap=all']
        if s.endswith('rt/rt.cc'): f = [x for x in f if x not in ('-O2',)] + ['-O1', '-fno-builtin']
        jobs.append((['clang++'] + f + [s, '-o', o], o, s))
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: sh(j[0]), jobs))
    for r, j in zip(rs, jobs):
        if r.returncode != 0:
            print('compile failed:', j[2]); print(r.stdout[:6000]); return None
    out = os.path.join(tmp, 'all.bc')
    r = sh(['llvm-link-18', '--suppress-warnings'] + [j[1] for j in jobs] + ['-o', out])
    if r.returncode != 0:
        r = sh(['/usr/lib/llvm-18/bin/llvm-link', '--suppress-warnings'] + [j[1] for j in jobs] + ['-o', out])
    if r.returncode != 0:
        print('link failed', r.stdout[:3000]); return None
    if d['opts'].get('lto'):
        o2 = os.path.join(tmp, 'lto.bc')
        r = sh(['/usr/lib/llvm-18/bin/opt', '-passes=internalize,globaldce,cgscc(inline),function(sroa,instcombine,simplifycfg)', out, '-o', o2])
    return out

_native = {}
def build_native(tmp, harness, d, asan=True):
    key = asan
    if key in _native: return _native[key]
    out = os.path.join(tmp, 'native' + ('_asan' if asan else ''))
    srcs = [harness, os.path.join(V, 'rt/native.cc')] + [s if s.startswith('/') else (os.path.join(V, s[4:]) if s.startswith('@vp/') else os.path.join(REPO, s)) for s in d['src']]
    f = BASE + ['-O1', '-g1', '-ffunction-sections', '-fdata-sections', '-I', V] + d['flags']
    if d['opts'].get('ubsan', 'yes') != 'no': f += [UBSAN, '-fsanitize-trap=' + UBSAN.split('=')[1]]
    if asan: f += ['-fsanitize=address']
    objs = []
    def one(i_s):
        i, s = i_s
        o = os.path.join(tmp, 'n%d%s.o' % (i, 'a' if asan else ''))
        return sh(['clang++'] + f + ['-c', s, '-o', o]), o
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, enumerate(srcs)))
    for r, o in rs:
        if r.returncode: print('native compile failed', r.stdout[:3000]); _native[key] = None; return None
    r = sh(['clang++'] + (['-fsanitize=address'] if asan else []) + ['-Wl,--gc-sections', '-Wl,--export-dynamic-symbol=' + os.path.basename(harness)[:-3].lower() + '_*'] + [o for _, o in rs] + ['-o', out, '-l:libabsl_throw_delegate.a', '-l:libabsl_raw_logging_internal.a', '-l:libabsl_log_severity.a', '-ldl', '-lm'])
    if r.returncode: print('native link failed', r.stdout[:3000]); out = None
    _native[key] = out
    return out

def replay(binp, entry, inp, asan, timeout=20):
    try:
        p = subprocess.run([binp, entry, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))) if not asan else None,
                           env=dict(os.environ, ASAN_OPTIONS='hard_rss_limit_mb=6000:exitcode=79:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=4096'))
    except subprocess.TimeoutExpired:
        return True, 'does not terminate within %ds' % timeout
    o = p.stdout.decode(errors='replace')
    if p.returncode == 0 or p.returncode == 78 or p.returncode == 3: return False, o[-400:]
    return True, ('exit %d: ' % p.returncode) + o[-600:]

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else TIER
    only = sys.argv[3].split(',') if len(sys.argv) > 3 else None
    verbose = os.environ.get('VP_VERBOSE')
    t0 = time.time()
    harness = os.path.join(V, 'harness', pid + '.cc')
    eng = engine()
    d = directives(harness)
    q, th = entries(harness)
    ents = q + (th if tier == 'thorough' else [])
    if only: ents = [e for e in q + th if e in only]
    budget = float(d['opts'].get('budget_thorough' if tier == 'thorough' else 'budget', 600 if tier == 'thorough' else 75))
    perjob = float(d['opts'].get('perjob', 200 if tier == 'thorough' else 40))
    tmp = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    known = []
    kf = os.path.join(V, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) entry=(\S+) match=(.*?) :: (.*)', l)
            if m and m.group(1) == pid: known.append((m.group(2), m.group(3), m.group(4)))
    rc = 0
    try:
        bc = compile_ir(tmp, harness, d)
        if bc is None:
            print('HARNESS-BUILD-FAILED property=%s: the code under test no longer compiles with the harness' % pid)
            sys.exit(2)
        tc = time.time() - t0
        par = min(8, len(ents)); j = max(1, 8 // max(1, len(ents)))
        if d['opts'].get('jobs'): j = int(d['opts']['jobs'])
        slots = -(-len(ents) // par)
        total = float(d['opts'].get('total', 780 if tier == 'thorough' else 300)) - tc
        per = max(10, min(budget, total / slots))
        fast = bool(os.environ.get('VP_FAILFAST')); procs = []; stop = []
        def run(e):
            if stop: return e, None, 'skipped'
            o = os.path.join(tmp, e + '.json')
            cmd = [eng, bc, '-e', e, '-o', o, '-t', str(per), '-j', str(j), '-p', str(perjob), '--tmp', tmp, '--tools', os.path.join(V, 'engine'), '-q', d['opts'].get('quickms', '1500')]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True); procs.append(p)
            try: log = p.communicate(timeout=per + 60)[0]
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); log = 'engine timeout'
            r = None
            if os.path.exists(o):
                try: r = json.load(open(o))
                except Exception as ex: log += str(ex)
            if fast and r and r['violations'] and not stop:
                stop.append(e)
                for q in procs:
                    if q.poll() is None: q.kill()
            return e, r, log
        with ThreadPoolExecutor(par) as ex:
            res = list(ex.map(run, ents))
        viol, unconf, notes, kn = [], [], [], []
        todo = [(e, i, v) for e, r, log in res if r for i, v in enumerate(r['violations'])]
        for e, r, log in res:
            if r is None:
                notes.append('%s: engine gave no result: %s' % (e, log[-300:])); continue
            if verbose and log: print(log[-3000:])
        for e, i, v in todo:
            inp = os.path.join(tmp, '%s_%d.in' % (e, i))
            with open(inp, 'w') as f:
                for n, x in v['inputs']: f.write('%s %s\n' % (n.replace(' ', '_'), x))
            ok, o = False, ''
            for asan in ((False, True) if not re.search('read|write|free|null|object', v['msg']) else (True, False)):
                b = build_native(tmp, harness, d, asan)
                if not b: continue
                ok, o = replay(b, e, inp, asan)
                if ok: break
            rec = {'entry': e, 'msg': v['msg'], 'site': v['site'], 'inputs': v['inputs'], 'replay': o.strip()[-300:]}
            if not ok: unconf.append(rec); continue
            k = next((k for k in known if k[0] == e and re.search(k[1], v['msg'] + ' @ ' + v['site'])), None)
            if k: kn.append(k); continue
            if len(viol) < 5:
                rd = os.path.join(V, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
                rp = os.path.join(rd, '%s_%s_%d.json' % (pid, e, i))
                json.dump(rec, open(rp, 'w'), indent=1)
                rec['path'] = rp
            viol.append(rec)
        tot = lambda k: sum(r.get(k, 0) for _, r, _ in res if r)
        per_entry, funcs, undec, vac = {}, set(), [], []
        for e, r, log in res:
            if not r: per_entry[e] = {'status': 'engine gave no result'}; undec.append(e + ': engine gave no result'); continue
            funcs |= set(r['functions'])
            miss = [l for l in r['labels'] if l not in r['reached']]
            if miss and not r['violations']: vac.append('%s: unreached %s' % (e, ','.join(miss)))
            st = 'decided'
            if r['incomplete'] or r['undecided'] or r['unsupported'] or r['dropped_states']: st = 'partial'
            undec += ['%s: %s' % (e, x) for x in r['undecided'] + r['incomplete'] + ['unsupported ' + u for u in r['unsupported']]]
            per_entry[e] = {'status': st, 'paths': r['paths'], 'forks': r['forks'], 'merges': r['merges'], 'assertions': r['asserts'], 'assertions_folded_by_simplifier': r['asserts_folded'],
                            'obligations': r['obligations'], 'queries': r['queries'], 'unsat': r['unsat'], 'sat': r['sat'], 'unknown': r['unknown'], 'deferred': r['deferred'], 'deferred_unsat': r['deferred_unsat'], 'decided_by': r['decided_by'],
                            'solver_s': round(r['solver_s'], 2), 'wall_s': round(r['wall_s'], 2), 'reached': r['reached'], 'unreached': miss, 'undecided': r['undecided'], 'incomplete': r['incomplete'], 'unsupported': r['unsupported'], 'dropped_states': r['dropped_states']}
        ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
              'coverage': {
                'explanation': 'Bounded symbolic execution of LLVM IR compiled from the current /repo sources; every branch condition and assertion over symbolic inputs is decided by SMT/SAT solvers (z3, cvc5, kissat). "decided" entries were explored completely within the stated bounds with every obligation unsat; "partial" entries list what stayed undecided, which is not claimed.',
                'entries': per_entry, 'functions_encoded': sorted(funcs), 'functions_encoded_count': len(funcs),
                'bounds': d['opts'].get('bounds', []), 'queries_discharged': tot('queries'), 'queries_unsat': tot('unsat'), 'queries_sat': tot('sat'), 'queries_unknown': tot('unknown'),
                'paths': tot('paths'), 'instructions': tot('instructions'), 'solver_s': round(tot('solver_s'), 2), 'undecided': undec, 'unreached': vac,
                'counterexamples_not_reproduced': [{k: u[k] for k in ('entry', 'msg', 'site', 'replay')} for u in unconf][:10]},
              'assumptions': d['opts'].get('assumes', []) + ['single-threaded execution; allocation never fails; string formatting replaced by empty strings', 'libm functions obey the contract axioms in engine/expr.cc (counterexamples are re-evaluated with the real libm and replayed natively)'],
              'wall_s': round(time.time() - t0, 2)}
        if viol: ev['violations'] = [{k: x[k] for k in ('entry', 'msg', 'site', 'path') if k in x} for x in viol]
        if not only:
            json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
        nd = sum(1 for x in per_entry.values() if x['status'] == 'decided')
        print('%s %s: %d/%d entries decided, %d queries (%d unsat, %d sat, %d unknown), %d functions, %.1fs' % (pid, tier, nd, len(ents), tot('queries'), tot('unsat'), tot('sat'), tot('unknown'), len(funcs), time.time() - t0))
        for e, x in per_entry.items():
            if verbose or x['status'] != 'decided': print('  ', e, json.dumps(x)[:900])
        for n in notes + vac: print('NOTE:', n)
        for u in unconf: print('NOTE: counterexample not reproduced natively:', u['entry'], u['msg'], u['site'], u['replay'][-200:], u['inputs'] if verbose else '')
        for k in sorted(set(kn)): print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
        for x in viol:
            print('VIOLATION property=%s replay=%s' % (pid, x.get('path', x['entry'])))
            print('   ', x['entry'], x['msg'], '@', x['site'], x['replay'][-160:].replace('\n', ' '))
            print('   ', x['inputs'][:40])
            rc = 1
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(tmp, ignore_errors=True)
        else: print('kept', tmp)
    sys.exit(rc)
if __name__ == "__main__": main()
