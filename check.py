#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only entry] [-v]
Regenerates the encoding from /repo's working tree, runs the symbolic executor on every harness of the property,
replays every counterexample against a native (ASan) build of the real code, writes evidence/<PROPERTY>.json."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, glob, hashlib, resource
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
sys.path.insert(0, HERE)
import jobs as J

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def sources():
    s = open(REPO + '/src/mjs_sources.mk').read().replace('\\\n', ' ')
    out = []
    for n in ('COMMON_SOURCES', 'MJS_SOURCES'):
        m = re.search(r'^%s\s*[:+]?=(.*)$' % n, s, re.M)
        if m: out += m.group(1).split()
    return out

CORES = os.cpu_count() or 4
INC = ['-I' + REPO + '/src', '-I' + REPO, '-I' + REPO + '/src/frozen', '-I' + HERE + '/lib', '-I' + HERE + '/harness']
DEFS = ['-D__NO_CTYPE', '-DMJS_EXPOSE_PRIVATE', '-DCS_ENABLE_STDIO', '-DMJS_VERIF=1']

NCC = ['clang-18', '-std=gnu99', '-O1', '-g', '-w', '-fsanitize=address', '-fno-omit-frame-pointer', '-ffp-contract=off', '-DVS_NATIVE=1']
SCC = ['clang-18', '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-ffp-contract=off']

class Ctx:
    def __init__(self, tmp): self.tmp = tmp; self.lock = threading.Lock(); self.bc = {}; self.nat = {}
    def compile(self, f, defs, native):
        key = (f, tuple(defs)); tab = self.nat if native else self.bc
        with self.lock:
            ev = tab.get(key)
            if ev is None: ev = tab[key] = {'lock': threading.Lock(), 'path': None, 'err': None, 'done': False}
        with ev['lock']:
            if not ev['done']:
                h = hashlib.md5(repr((key, native)).encode()).hexdigest()[:10]
                out = os.path.join(self.tmp, h + ('.exe' if native else '.bc'))
                src = os.path.join(HERE, 'harness', f)
                if f == 'all.c':
                    src = os.path.join(self.tmp, f); pre = ['-include', HERE + '/lib/jsc_pre.h'] if '-DMJS_VS_JSC' in defs else ['-include', HERE + '/lib/out_pre.h'] if '-DMJS_VS_OUT' in defs else []
                    if native: cmd = NCC + DEFS + list(defs) + ['-include', HERE + '/lib/repo_pre.h'] + pre + ['-I' + self.tmp] + INC + ['-c', src, '-o', out]
                    else: cmd = SCC + DEFS + list(defs) + pre + ['-I' + self.tmp] + INC + ['-emit-llvm', '-c', src, '-o', out]
                elif native:
                    base = self.compile('all.c', [d for d in defs if d.startswith('-DMJS_')], True)
                    if base['err']: ev['done'] = True; ev['err'] = base['err']; return ev
                    cmd = NCC + ['-rdynamic'] + DEFS + list(defs) + ['-I' + self.tmp] + INC + [src, '-Xlinker', base['path'], HERE + '/lib/native.c', HERE + '/lib/native_rt.c', '-o', out, '-lm', '-ldl']
                else:
                    cmd = SCC + DEFS + list(defs) + ['-I' + self.tmp] + INC + ['-emit-llvm', '-c', src, '-o', out]
                r = sh(cmd)
                ev['done'] = True
                if r.returncode: ev['err'] = r.stdout[-3000:]
                else: ev['path'] = out
        return ev

def gen(tmp):
    """files regenerated from the repository's working tree: the list of sources and the text of the script library"""
    open(tmp + '/all.c', 'w').write(''.join('#include "%s"\n' % f for f in sources()))
    with open(tmp + '/gen_lib.h', 'w') as f:
        for n in sorted(glob.glob(REPO + '/lib/*.js')): f.write('static const char LIB_%s[] = {%s};\n' % (re.sub(r'\W', '_', os.path.basename(n)), ','.join(str(b if b < 128 else b - 256) for b in open(n, 'rb').read() + b'\0')))

def setup():
    r = sh(['make', '-C', HERE + '/vsym', 'B=' + BUILD, '-j2'])
    if r.returncode: print(r.stdout); sys.exit(3)

def replay(exe, entry, case, casev, timeout=20):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=205:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:quarantine_size_mb=64', LC_ALL='C')
    def lim(): resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.RLIM_INFINITY)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe, entry, case, str(casev)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, preexec_fn=lim, errors='replace', text=True, cwd=os.path.dirname(exe))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 'timeout', ''

def classify(rc, out):
    """-> (violated?, label)"""
    if rc == 0: return False, 'ok'
    if rc == 77:
        m = re.search(r'VS-CHECK-FAILED: (.*)', out); return True, 'check: ' + (m.group(1) if m else '?')
    if rc in (90, 91, 92, 2): return False, 'diverged(%s)' % rc
    if rc == 'timeout': return True, 'hang: no answer within 20 s'
    if rc == 66:
        m = re.search(r'AddressSanitizer: ([\w-]+)', out); k = m.group(1) if m else 'asan'
        fr = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', out) if not x.startswith('__') and x not in ('memcpy', 'memmove', 'strlen', 'memcmp')]
        return True, 'memory: %s in %s' % (k, fr[0] if fr else '?')
    if isinstance(rc, int) and rc < 0:
        m = re.search(r"Assertion `(.*)' failed", out)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+)', out)
        return True, 'crash: signal %d%s' % (-rc, ' assertion ' + m.group(1) if m else '')
    return False, 'rc=%s' % rc

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in sys.argv
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--only' in sys.argv: only = sys.argv[sys.argv.index('--only') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); setup()
    spec = J.PROPS[pid]; tmp = tempfile.mkdtemp(prefix='vsym_%s_' % pid)
    code = 0
    try: code = run(pid, tier, only, verbose, seed, t0, spec, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def known(pid):
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) entry=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), re.compile(m.group(3)), m.group(4), l.strip()))
    return out

def run(pid, tier, only, verbose, seed, t0, spec, tmp):
    gen(tmp)
    cx = Ctx(tmp); jobs = [j for j in spec['jobs'] if (tier == 'thorough' or j.get('tier', 'quick') == 'quick') and (not only or j['entry'] == only)]
    jobs = [dict(j, **j.get('thorough', {})) if tier == 'thorough' else j for j in jobs]
    # does the tree itself compile?
    r = sh(['clang-18', '-std=gnu99', '-fsyntax-only', '-w'] + DEFS + ['-I' + tmp] + INC + [tmp + '/all.c'])
    if r.returncode: print('check: /repo does not compile\n' + r.stdout[-2000:]); return 3
    rt = tmp + '/rt.bc'
    r = sh(['clang-18', '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-g', '-w', '-I' + HERE + '/lib', '-emit-llvm', '-c', HERE + '/lib/rt.c', '-o', rt])
    if r.returncode: print(r.stdout); return 3
    results = []; found = []; free = [CORES]; cv = threading.Condition()
    hard = t0 + (700 if tier == 'quick' else 36000)
    def work(j):
        want = min(CORES, j.get('cores', 1))
        with cv:
            while free[0] < want: cv.wait()
            free[0] -= want
        try:
            ts = time.time(); res = {'job': j, 'cases': [], 'samples': [], 'summary': None, 'note': None}
            results.append(res)
            ev = cx.compile(j['file'], j.get('defs', []), False)
            if ev['err']: res['note'] = 'harness does not compile against this tree: ' + ev['err'][-600:]; return
            base = cx.compile('all.c', [d for d in j.get('defs', []) if d.startswith('-DMJS_')], False)
            if base['err']: res['note'] = 'sources do not compile: ' + base['err'][-600:]; return
            out = os.path.join(tmp, 'o_' + j['entry'] + '_' + hashlib.md5(repr(j).encode()).hexdigest()[:6]); os.mkdir(out)
            bud = min(j.get('budget', 120), max(5, hard - time.time()))
            if found and tier == 'quick': bud = min(bud, 15)
            cmd = 'ulimit -s unlimited; ulimit -v 12000000; exec %s/vsym --entry %s --out %s --jobs %d --budget %d --max-steps %d --case %d %s %s %s' % (BUILD, j['entry'], out, want, bud, j.get('steps', 30000000), j.get('case', 0), ' '.join(j.get('opts', [])), ev['path'], base['path'] + ' ' + rt)
            p = subprocess.Popen(['bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors='replace')
            try: so, _ = p.communicate(timeout=bud + 90)
            except subprocess.TimeoutExpired:
                so = 'killed'; res['note'] = 'executor did not stop in time'
            try: os.killpg(p.pid, 9)
            except Exception: pass
            if os.path.exists(out + '/summary.json'): res['summary'] = json.load(open(out + '/summary.json'))
            else: res['note'] = (res['note'] or '') + ' no summary: ' + (so or '')[-400:]
            res['stats'] = [l.rstrip('\n').split('\t') for l in open(out + '/stats.txt')] if os.path.exists(out + '/stats.txt') else []
            res['cases'] = sorted(glob.glob(out + '/case_*.txt')); res['samples'] = sorted(glob.glob(out + '/sample_*.txt'))
            if so and verbose: print(so[-1500:])
            # native validation / confirmation
            ncase = res['cases']; nsam = res['samples'][:12]
            res['confirmed'] = []; res['unconfirmed'] = []; res['validated'] = 0
            if ncase or (nsam and j.get('validate', True)):
                nv = cx.compile(j['file'], j.get('defs', []), True)
                if nv['err']: res['note'] = 'native build failed: ' + nv['err'][-600:]; return
                tr = time.time(); hangs = 0
                for c in ncase[:60]:
                    if hangs >= 2 or (time.time() - tr > 60 and res['confirmed']) or time.time() > hard + 40: break
                    rc, o = replay(nv['path'], j['entry'], c, j.get('case', 0)); bad, lab = classify(rc, o)
                    (res['confirmed'] if bad else res['unconfirmed']).append((c, lab, o)); hangs += rc == 'timeout'
                    if bad: found.append(j['entry'])
                if j.get('validate', True):
                    for c in nsam:
                        if hangs >= 2 or time.time() > hard + 40: break
                        rc, o = replay(nv['path'], j['entry'], c, j.get('case', 0)); bad, lab = classify(rc, o)
                        if bad: res['confirmed'].append((c, lab, o)); hangs += rc == 'timeout'; found.append(j['entry'])
                        elif rc == 0: res['validated'] += 1
                        else: res['unconfirmed'].append((c, lab, o))
            res['wall'] = time.time() - ts
            if verbose: print('%-28s %6.1fs %s' % (j['entry'], res['wall'], json.dumps(res['summary'])))
        finally:
            with cv: free[0] += want; cv.notify_all()
    ths = [threading.Thread(target=work, args=(j,)) for j in sorted(jobs, key=lambda j: -j.get('cores', 1))]
    for t in ths: t.start(); time.sleep(0.01)
    for t in ths: t.join()
    # ---- verdict
    kn = known(pid); viol = []; seenk = set(); unconf = []
    for r in results:
        for c, lab, o in r.get('confirmed', []):
            hit = None
            for e, rx, txt, line in kn:
                if (e == '*' or e == r['job']['entry']) and rx.search(lab): hit = line
            if hit: seenk.add(hit)
            else: viol.append((r['job'], c, lab, o))
        for c, lab, o in r.get('unconfirmed', []): unconf.append({'entry': r['job']['entry'], 'case': open(c).read()[:400], 'native': lab})
    for l in sorted(seenk): print(l)
    os.makedirs(HERE + '/evidence/replay', exist_ok=True)
    for f in glob.glob(HERE + '/evidence/replay/%s_*' % pid): os.unlink(f)
    seen = set(); nv = 0
    for j, c, lab, o in viol:
        k = (j['entry'], lab)
        if k in seen: continue
        seen.add(k); rp = '%s/evidence/replay/%s_%d.txt' % (HERE, pid, nv); nv += 1
        open(rp, 'w').write('property %s\nharness %s entry %s defs %s case %s\nnative verdict: %s\n%s\n---- native output\n%s\n' % (pid, j['file'], j['entry'], ' '.join(j.get('defs', [])), j.get('case', 0), lab, open(c).read(), o[:4000]))
        if nv <= 8: print('VIOLATION property=%s replay=%s' % (pid, rp)); print('  %s: %s' % (j['entry'], lab))
    # ---- evidence
    tot = lambda k: sum((r['summary'] or {}).get(k, 0) for r in results)
    reach = {}; fns = {}; cuts = {}; vac = []; inc = []
    for r in results:
        rr = {}
        for s in r.get('stats', []):
            if s[0] == 'reach': rr[s[1]] = rr.get(s[1], 0) + int(s[2])
            elif s[0] == 'cut': cuts[s[1]] = cuts.get(s[1], 0) + int(s[2])
            elif s[0] == 'fn': a = fns.setdefault(s[1], [0, 0, 0]); a[0] += int(s[2]); a[1] = max(a[1], int(s[3])); a[2] = int(s[4])
        reach[r['job']['entry'] + ''.join(r['job'].get('defs', []))] = rr
        missing = [w for w in r['job'].get('reach', []) if not rr.get(w)]
        if not any(k.startswith('check:') for k in rr) and not r['job'].get('safety_only'): missing.append('(any check)')
        if missing: vac.append({'entry': r['job']['entry'], 'never_reached': missing})
        s = r['summary'] or {}
        if r['note'] or not s or s.get('cut') or s.get('timed_out') or s.get('crashed'): inc.append({'entry': r['job']['entry'], 'note': r['note'], 'cut': s.get('cut'), 'timed_out': s.get('timed_out')})
    rtfns = set(re.findall(r'^\w[\w \*]*?\b(\w+)\(', open(HERE + '/lib/rt.c').read(), re.M))
    repo_fns = {k: v for k, v in fns.items() if k not in rtfns and not k.startswith('H_') and not k.startswith('h_')}
    samples = []
    for r in results:
        for c in r['samples'][-1:]: samples.append({'entry': r['job']['entry'], 'inputs': open(c).read().split('\n')[1:8]})
    evd = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': tot('paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': sum(r.get('validated', 0) for r in results), 'samples': samples[:12],
        'meaning': 'states = symbolic path classes explored to their end (each stands for every input satisfying its path condition); transitions = LLVM instructions executed symbolically',
        'queries_discharged': tot('queries'), 'queries_sat': tot('sat'), 'queries_unsat': tot('unsat'), 'queries_unknown': tot('unknown'), 'query_cache_hits': tot('cache_hits'), 'solver_s': round(tot('solver_s'), 3), 'solver': 'z3 4.8.12 (BV, FP)',
        'functions_encoded': sorted(repo_fns), 'functions_encoded_count': len(repo_fns), 'instruction_coverage_of_encoded': round(sum(v[1] for v in repo_fns.values()) / max(1, sum(v[2] for v in repo_fns.values())), 3),
        'bounds': [{'entry': r['job']['entry'], 'defs': r['job'].get('defs', []), 'bound': r['job'].get('bound', ''), 'paths': (r['summary'] or {}).get('paths'), 'wall_s': round(r.get('wall', 0), 1)} for r in results],
        'reach': reach, 'vacuity_failures': vac, 'outside_the_claim': cuts, 'incomplete_harnesses': inc, 'exhaustive': not inc and not cuts, 'unconfirmed_counterexamples': unconf[:20], 'known_findings_seen': sorted(seenk)},
        'assumptions': spec.get('assumptions', []) + J.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': nv}
    json.dump(evd, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s %s: %d harness runs, %d paths, %d queries (%.1fs solver), %d validated natively, %d violations, %d incomplete, vacuity %s, %.1fs' % (pid, tier, len(results), tot('paths'), tot('queries'), tot('solver_s'), evd['coverage']['traces_validated_against_impl'], nv, len(inc), vac or 'ok', time.time() - t0))
    if verbose or os.environ.get('VS_DEBUG'):
        for r in results:
            if r['note']: print('NOTE', r['job']['entry'], r['note'])
        for u in unconf[:5]: print('UNCONFIRMED', u)
        print('cuts', cuts); print('reach', json.dumps(reach))
    return 1 if nv else 0
if __name__ == '__main__': main()
