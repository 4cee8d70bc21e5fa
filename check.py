#!/usr/bin/env python3
"""Driver: compiles /repo's current sources to LLVM IR, runs the symbolic executor over the harnesses of one
property, replays every counterexample natively (ASan build of the same sources) and writes the evidence file."""
import sys, os, re, json, glob, subprocess, shutil, tempfile, time, threading, hashlib
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
import props
CLANG = 'clang'; CLANGXX = 'clang++'; LINK = '/usr/lib/llvm-18/bin/llvm-link'
COMMON = ['-fwrapv', '-fno-strict-aliasing', '-ftrivial-auto-var-init=pattern', '-D_FILE_OFFSET_BITS=64', '-DFFDB_VERIFY_HASHSIZE=8', '-w', '-I' + V + '/rt', '-I' + V + '/harness']
IRF = ['-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-emit-llvm', '-c']
NATF = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']
REDEF = ('open close read write pread pwrite lseek ftruncate truncate fstat stat lstat access unlink fcntl fsync fdatasync sync umask exit abort __assert_fail '
  'time gettimeofday pthread_create pthread_join pthread_self pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock '
  'pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast getpagesize chmod isatty getpid rename clock_gettime creat openat remove fchmod posix_fadvise flock readv writev posix_fallocate pthread_once pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock opendir readdir closedir').split()
J = int(os.environ.get('VERIF_JOBS', '8'))

def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def lib_sources():
    """the library's own source lists, from its Makefile.am (continuation lines joined); fall back on the naming convention"""
    def am(d, var, ext, fb):
        out = []
        try:
            t = open(d + '/Makefile.am').read().replace('\\\n', ' ')
            m = re.search(r'^' + var + r'\s*=\s*(.*)$', t, re.M)
            out = [d + '/' + x for x in m.group(1).split() if x.endswith(ext)] if m else []
        except OSError: pass
        out = [x for x in out if os.path.exists(x)]
        return out or fb
    c = am(REPO + '/filehash', 'libfilehash_a_SOURCES', '.c', sorted(glob.glob(REPO + '/filehash/ffdb_*.c')))
    cpp = am(REPO + '/src', 'libfiledb_a_SOURCES', '.cpp', [x for x in sorted(glob.glob(REPO + '/src/*.cpp')) if 'Test' not in x])
    return c, cpp

CXXINC = None
def cxx_flags(w):
    d = w + '/inc'; os.makedirs(d, exist_ok=True)
    f = d + '/filedb_config_internal.h'
    if not os.path.exists(f):
        open(f, 'w').write('#define PACKAGE "filedb"\n#define PACKAGE_NAME "filedb"\n#define PACKAGE_STRING "filedb 1.0"\n#define PACKAGE_TARNAME "filedb"\n#define PACKAGE_VERSION "1.0"\n#define PACKAGE_BUGREPORT ""\n#define VERSION "1.0"\n')
    return ['-std=gnu++17', '-D_FILEDB_LITTLE_ENDIAN', '-D_FILEDB_COMPILE_TEST', '-DHAVE_CONFIG_H', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-D_GLIBCXX_USE_CXX11_ABI=1', '-I' + d, '-I' + REPO + '/src', '-I' + REPO + '/filehash']

class Build:
    """compile steps, each source once per mode; thread-safe memo"""
    def __init__(self, w): self.w = w; self.memo = {}; self.lock = threading.Lock()
    def obj(self, src, mode, extra=()):
        key = (src, mode, tuple(extra))
        with self.lock:
            e = self.memo.get(key)
            if e is None: e = self.memo[key] = dict(ev=threading.Event(), out=None, err=None); mine = True
            else: mine = False
        if not mine: e['ev'].wait(); 
        else:
            try:
                h = hashlib.md5(repr(key).encode()).hexdigest()[:10]; out = '%s/%s.%s.%s' % (self.w, os.path.basename(src), h, 'bc' if mode == 'ir' else 'o')
                cpp = src.endswith('.cpp')
                cmd = [CLANGXX if cpp else CLANG] + (IRF if mode == 'ir' else NATF) + COMMON
                if cpp: cmd += (['-I' + V + '/rt/cxx'] if mode == 'ir' else []) + cxx_flags(self.w)
                else: cmd += ['-I' + REPO + '/filehash']
                if mode == 'ir' and src.startswith(V + '/rt/'): cmd += ['-fno-builtin']
                r = run(cmd + list(extra) + [src, '-o', out])
                if r.returncode: e['err'] = 'compile of %s failed:\n%s' % (src, r.stdout[-3000:])
                elif mode == 'nat' and not src.startswith(V + '/rt/'):
                    a = []; b = []
                    for s in REDEF: a += ['--redefine-sym', '%s=vfs_%s' % (s, s)]; b += ['--redefine-sym', '%s64=vfs_%s' % (s, s)]
                    for x in (a, b):
                        r = run(['objcopy'] + x + [out])
                        if r.returncode: e['err'] = 'objcopy failed: ' + r.stdout
                e['out'] = out
            except Exception as ex: e['err'] = repr(ex)
            e['ev'].set()
        if e['err']: raise RuntimeError(e['err'])
        return e['out']
    def program(self, harness, mode):
        h = V + '/harness/' + harness; cpp = h.endswith('.cpp')
        c, cx = lib_sources()
        srcs = c + (cx if cpp else []) + [h, V + '/rt/vfs.c'] + ([V + '/rt/libc.c'] if mode == 'ir' else [V + '/rt/native_rt.c'])
        if cpp and mode == 'ir': srcs.append(V + '/rt/cxxrt.cpp')
        outs = [None] * len(srcs); errs = []
        def one(i):
            try: outs[i] = self.obj(srcs[i], mode)
            except Exception as ex: errs.append(str(ex))
        ts = [threading.Thread(target=one, args=(i,)) for i in range(len(srcs))]
        [t.start() for t in ts]; [t.join() for t in ts]
        if errs: raise RuntimeError('\n'.join(errs))
        out = '%s/%s.%s' % (self.w, harness, 'all.bc' if mode == 'ir' else 'nat')
        with self.lock:
            if os.path.exists(out): return out
            if mode == 'ir': r = run([LINK] + outs + ['-o', out])
            else: r = run([CLANGXX, '-fsanitize=address'] + outs + ['-o', out, '-lpthread'])
            if r.returncode: raise RuntimeError('link failed: ' + r.stdout[-2000:])
        return out

def native(nat, inp, obs, params, preempt, timeout=60):
    """(verdict, text): 'viol' | 'ok' | 'assume' | 'mismatch' | 'timeout'"""
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=170:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1')
    try: r = run([nat, inp, obs] + ['%s=%s' % kv for kv in params.items()] + ['@preempt=%d' % preempt], env=env, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired: return 'timeout', 'native run did not finish in %d s' % timeout
    t = r.stdout
    if r.returncode == 77: m = re.search(r'VF-VIOLATION (.*)', t); return 'viol', m.group(1) if m else 'violation'
    if r.returncode == 0: return 'ok', ''
    if r.returncode == 71: return 'assume', ''
    if r.returncode == 70: return 'mismatch', t[-300:]
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', t)
    if m:
        fr = re.findall(r'#\d+ 0x\w+ in (\S+) (/repo/\S+|%s/\S+)' % re.escape(REPO), t)
        return 'viol', 'AddressSanitizer: %s in %s' % (m.group(1), fr[0][0] + ' ' + fr[0][1] if fr else '?')
    if r.returncode < 0: return 'viol', 'killed by signal %d' % -r.returncode
    return 'viol', 'native run exit %d: %s' % (r.returncode, t[-200:])

class Case:
    def __init__(self, d, i):
        self.h = d['h']; self.name = d.get('name', self.h); self.p = dict(d.get('p', {})); self.j = d.get('j', 2); self.t = d.get('t', 60); self.opts = list(d.get('opts', []))
        self.reach = d.get('reach', ['end']); self.preempt = d.get('preempt', 0); self.i = i; self.mayhang = d.get('mayhang', False); self.maxsteps = d.get('maxsteps', 30000000); self.w = d.get('w', 0)
        self.res = None; self.viol = []; self.unconf = []; self.validated = 0; self.mism = []; self.err = None

def run_case(c, b, w, deadline):
    od = '%s/case%d' % (w, c.i); os.makedirs(od, exist_ok=True)
    try: bc = b.program(c.h, 'ir')
    except RuntimeError as e: c.err = str(e); return
    t = max(5, min(c.t, deadline - time.time()))
    cmd = [V + '/build/symx', bc, '-o', od, '-j', str(c.j), '-t', '%.0f' % t, '--preempt', str(c.preempt), '--max-steps', str(c.maxsteps), '--max-viol', '6', '--samples', '2', '--qtimeout', '8000'] + c.opts
    for k, v in c.p.items(): cmd += ['-p', '%s=%s' % (k, v)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try: out = p.communicate(timeout=t + 45)[0]
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); out = p.communicate()[0]; c.err = 'symx killed after its time limit'
    res = dict(paths=0, ok=0, exit=0, assume=0, errors=0, instrs=0, forks=0, asserts=0, asserts_solver=0, abandoned=0, violations=0, queries=0, cached=0, sat=0, unsat=0, unknown=0, solver_s=0.0, max_query_s=0.0)
    reach = {}; em = {}; ex = {}; fns = set()
    for f in glob.glob(od + '/stat.*.json'):
        try: d = json.load(open(f))
        except ValueError: continue
        for k in res: res[k] = max(res[k], d[k]) if k == 'max_query_s' else res[k] + d[k]
        for k, v in d['reach'].items(): reach[k] = reach.get(k, 0) + v
        for k, v in d['err_msgs'].items(): em[k] = em.get(k, 0) + v
        for k, v in d['exits'].items(): ex[k] = ex.get(k, 0) + v
        fns |= set(d['functions'])
    res['reach'] = reach; res['engine_errors'] = em; res['exits'] = ex; res['functions'] = sorted(fns)
    try: rj = json.load(open(od + '/run.json'))
    except (OSError, ValueError): rj = {}; c.err = (c.err or '') + ' symx did not finish: ' + out[-500:]
    res['wall_s'] = rj.get('wall_s', t); res['dead_workers'] = rj.get('dead_workers', 0); res['complete'] = bool(rj) and not res['abandoned'] and not res['errors'] and not res['dead_workers'] and not res['unknown'] and not rj.get('stopped')
    c.res = res
    vi = sorted(glob.glob(od + '/viol.*.json')); sa = sorted(glob.glob(od + '/sample.*.in'))
    if not vi and not sa: return
    try: nat = b.program(c.h, 'nat')
    except RuntimeError as e: c.err = str(e); return
    for f in vi:
        try: d = json.load(open(f))
        except ValueError: continue
        inp = f[:-5] + '.in'; kind = d.get('kind', ''); msg = d.get('msg', '')
        v, txt = native(nat, inp, '-', c.p, c.preempt, 40)
        d['native'] = v + ': ' + txt; d['inp'] = inp; d['text'] = txt or msg
        if v == 'viol' or (v == 'timeout' and kind == 'hang'): c.viol.append(d)
        else: c.unconf.append(d)
        if len(c.viol) >= 2: break
    step = max(1, len(sa) // 3)
    for f in sa[::step][:4]:
        v, txt = native(nat, f, f + '.nat', c.p, c.preempt, 60)
        try: a = open(f[:-3] + '.obs').read(); bb = open(f + '.nat').read()
        except OSError: a, bb = 'missing', ''
        if v == 'ok' and a == bb: c.validated += 1
        else: c.mism.append('%s: native %s %s; observations %s' % (os.path.basename(f), v, txt, 'equal' if a == bb else 'differ'))

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[pid]; t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 420 if tier == 'quick' else 3600))
    r = run(['bash', V + '/engine/build.sh'])
    if r.returncode: print('engine build failed:\n' + r.stdout); return 2
    w = tempfile.mkdtemp(prefix='vf_%s_' % pid); ev = V + '/evidence'; os.makedirs(ev, exist_ok=True)
    try: return work(pid, tier, seed, P, t0, budget, w, ev)
    finally:
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(w, ignore_errors=True)
        else: print('kept', w)

def work(pid, tier, seed, P, t0, budget, w, ev):
    only = os.environ.get('VERIF_CASE')
    cs = [Case(d, i) for i, d in enumerate([d for d in P['cases'] if (tier == 'thorough' or d.get('tier', 'quick') == 'quick') and (not only or only in d.get('name', d['h']))])]
    if tier == 'thorough':
        for c in cs: c.t *= 6
    b = Build(w); deadline = t0 + budget; lock = threading.Condition(); free = [J]; order = sorted(cs, key=lambda c: -c.t)
    def go(c):
        n = min(c.j, J)
        with lock:
            while free[0] < n: lock.wait()
            free[0] -= n
        try:
            if any(x.viol for x in cs) and time.time() - t0 > 60: c.res = None; c.err = 'skipped: a violation was already confirmed'
            elif time.time() > deadline - 5: c.err = 'skipped: time budget used up'
            else: run_case(c, b, w, deadline)
        except Exception as e: c.err = repr(e)
        with lock: free[0] += n; lock.notify_all()
    ts = [threading.Thread(target=go, args=(c,)) for c in order]
    for t in ts: t.start(); time.sleep(0.02)
    for t in ts: t.join()
    # ---- verdict
    known = []
    try:
        for l in open(V + '/known_findings.txt'):
            m = re.match(r'KNOWN-FINDING: property=(\S+) case=(\S+) match="(.*?)" (.*)', l)
            if m and m.group(1) == pid: known.append(m.groups()[1:])
    except OSError: pass
    vio = []; knownhit = set()
    for c in cs:
        for d in c.viol:
            k = next((k for k in known if k[0] == c.name and re.search(k[1], d['text'])), None)
            if k: knownhit.add(k)
            else: vio.append((c, d))
    lines = []; rc = 0
    for k in sorted(knownhit): lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    for n, (c, d) in enumerate(vio[:3]):
        rp = '%s/%s.replay%d' % (ev, pid, n); shutil.copy(d['inp'], rp + '.in')
        json.dump(dict(property=pid, harness=c.h, case=c.name, params=c.p, preempt=c.preempt, message=d.get('msg'), kind=d.get('kind'), where=d.get('where', d.get('stack')), native=d['native'], inputs=os.path.basename(rp) + '.in', rerun='python3 %s/replay.py %s.json' % (V, rp)), open(rp + '.json', 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s.json' % (pid, rp)); lines.append('  case %s: %s | native: %s' % (c.name, d.get('msg'), d['native'])); rc = 1
    tot = lambda k: sum(c.res[k] for c in cs if c.res)
    missing = [(c.name, l) for c in cs if c.res for l in c.reach if not c.res['reach'].get(l)] + [(c.name, 'not run') for c in cs if not c.res]
    unconf = [dict(case=c.name, kind=d.get('kind'), msg=d.get('msg'), native=d['native'], stack=d.get('stack', d.get('where'))) for c in cs for d in c.unconf]
    fns = sorted(set(f for c in cs if c.res for f in c.res['functions']))
    repo_fns = repo_functions(b, fns)
    evd = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(vio),
      coverage=dict(states=tot('paths'), transitions=tot('instrs'), traces_validated_against_impl=sum(c.validated for c in cs),
        exhaustive=all(c.res and c.res['complete'] for c in cs),
        rule='states = symbolic execution paths explored to their end (each stands for all inputs satisfying its path condition); transitions = IR instructions executed symbolically; traces validated = passing paths whose solver-chosen inputs were replayed on the native build with equal observations',
        functions_encoded=repo_fns, queries_discharged=tot('queries'), queries_sat=tot('sat'), queries_unsat=tot('unsat'), queries_unknown=tot('unknown'), queries_answered_from_cache=tot('cached'), solver_s=round(tot('solver_s'), 2),
        assertions_evaluated=tot('asserts'), assertions_needing_solver=tot('asserts_solver'), case_splits=tot('forks'), paths_abandoned=tot('abandoned'), engine_errors={k: v for c in cs if c.res for k, v in c.res['engine_errors'].items()},
        unconfirmed_counterexamples=unconf, trace_mismatches=[m for c in cs for m in c.mism], vacuity_missing=['%s: %s' % m for m in missing], known_findings_seen=[k[2] for k in sorted(knownhit)],
        bounds=P['bounds'], cases=[dict(name=c.name, harness=c.h, bounds=c.p, preemption_bound=c.preempt if c.preempt else None, error=c.err, **({k: c.res[k] for k in ('paths', 'ok', 'exit', 'assume', 'errors', 'instrs', 'forks', 'asserts', 'queries', 'solver_s', 'max_query_s', 'wall_s', 'abandoned', 'complete', 'reach')} if c.res else {})) for c in cs],
        samples=samples(w, cs)),
      assumptions=props.ASSUMPTIONS + P.get('assumptions', []))
    json.dump(evd, open('%s/%s.json' % (ev, pid), 'w'), indent=1)
    for l in lines: print(l)
    done = sum(1 for c in cs if c.res and c.res['complete'])
    print('%s %s: %d cases (%d explored completely), %d paths, %d instructions, %d queries, %.1f s solver, %d traces validated, %.1f s' % (pid, tier, len(cs), done, tot('paths'), tot('instrs'), tot('queries'), tot('solver_s'), evd['coverage']['traces_validated_against_impl'], time.time() - t0))
    for c in cs:
        if os.environ.get('VERIF_V') and c.res: print('  %-34s paths %-7d ok %-6d exit %-5d assume %-5d err %-3d aband %-4d q %-6d solver %.1f wall %.1f %s' % (c.name, c.res['paths'], c.res['ok'], c.res['exit'], c.res['assume'], c.res['errors'], c.res['abandoned'], c.res['queries'], c.res['solver_s'], c.res['wall_s'], '' if c.res['complete'] else 'INCOMPLETE'), c.res['reach'] if os.environ.get('VERIF_V') == '2' else '')
        if c.err: print('  case %s: %s' % (c.name, c.err[:1500]))
        if c.res and c.res['engine_errors']: print('  case %s: engine gave up on paths: %s' % (c.name, str(c.res['engine_errors'])[:600]))
        if c.mism: print('  case %s: trace mismatch: %s' % (c.name, c.mism[0]))
    for u in unconf[:4]: print('  unconfirmed: %s' % str(u)[:500])
    if rc == 0 and missing:
        print('  vacuity: not reached: %s' % missing[:6])
        fatal = [m for m in missing if m[1] != 'not run' or not any(c.res for c in cs)]
        if fatal: return 2
    if rc == 0 and all(c.err and not c.res for c in cs): return 2
    return rc

def repo_functions(b, fns):
    try:
        c, cx = lib_sources(); names = set()
        for s in c + cx:
            for (src, mode, ex), e in b.memo.items():
                if src == s and mode == 'ir' and e['out']:
                    r = run(['/usr/lib/llvm-18/bin/llvm-nm', '--defined-only', '--format=just-symbols', e['out']]); names |= set(r.stdout.split())
        return [f for f in fns if f in names]
    except Exception: return fns

def samples(w, cs):
    out = []
    for c in cs:
        for f in sorted(glob.glob('%s/case%d/sample.*.in' % (w, c.i)))[:1]:
            out.append(dict(case=c.name, inputs=open(f).read().split('\n')[:12]))
    return out[:6] or ['no completed path']

if __name__ == '__main__': sys.exit(main())
