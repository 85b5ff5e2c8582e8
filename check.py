#!/usr/bin/env python3
"""Decides one property: compiles /repo's current sources and the property's harnesses to LLVM IR,
runs the symbolic executor on every harness, cross-validates sampled paths against a native build,
replays counterexamples natively, and writes evidence/<id>.json."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
sys.path.insert(0, V)
from specs import SPECS

CORE = ['detail/exception', 'detail/util', 'channel', 'error', 'this_thread']
SETS = {'none': [], 'core': CORE,
        'ops': CORE + ['io/read', 'io/write'],
        'endpoint': ['io/endpoint', 'error', 'detail/exception', 'detail/util', 'this_thread'],
        'io': CORE + ['io/' + x for x in ('read write endpoint file pipe socket stream_socket datagram_socket seq_packet_socket '
                     'random_access_file stream_file serial_port sleep steady_timer system_timer signal_set resolver').split()]}
DEFS = ['-DBOOST_ASIO_NO_DEPRECATED', '-DBOOST_COBALT_NO_LIB=1', '-DBOOST_COBALT_SOURCE=1', '-DBOOST_COBALT_IO_SOURCE=1']
IRFLAGS = ['-w', '-std=c++20', '-O1', '-g0', '-Xclang', '-disable-llvm-passes', '-fsized-deallocation', '-fno-vectorize', '-fno-slp-vectorize',
           '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-emit-llvm', '-c', '-DSYM_IR=1']
NFLAGS = ['-w', '-std=c++20', '-g1', '-O0', '-fsanitize=address,undefined', '-fno-omit-frame-pointer', '-c']
CLANGXX, GXX = '/usr/bin/clang++', '/usr/bin/g++'
ENV = dict(os.environ, PATH='/usr/local/bin:/usr/bin:/bin')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, errors='replace', **kw)

class Err(Exception):
    pass

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, 'rb').read()); continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()[:24]

def ensure_engine():
    eng = os.path.join(V, 'engine')
    key = tree_hash([os.path.join(eng, f) for f in ('symex.cpp', 'solver.cpp', 'cvc.cpp', 'expr.h', 'build.sh')])
    out = os.path.join(B, 'engine-' + key)
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, 'engine.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'symex')):
            tmp = out + '.tmp'
            shutil.rmtree(tmp, ignore_errors=True)
            r = sh(['bash', os.path.join(eng, 'build.sh'), tmp])
            if r.returncode: raise Err('engine build failed:\n' + r.stdout[-3000:])
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
    return os.path.join(out, 'symex')

def compile_one(kind, src, defs, key):
    comp, flags, ext = (CLANGXX, IRFLAGS, 'bc') if kind == 'ir' else (GXX, NFLAGS, 'o')
    if src.endswith('rt.cpp'): flags = flags + ['-fno-builtin']
    cmd = [comp] + flags + DEFS + defs + ['-I' + REPO + '/include', '-I' + V + '/rt', '-I' + V + '/harness', src]
    h = hashlib.sha256((key + ' '.join(cmd)).encode()).hexdigest()[:24]
    out = os.path.join(B, 'cache', h + ('.' if not src.endswith('rt.cpp') else '.rt.') + ext)
    if os.path.exists(out): return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh(cmd + ['-o', tmp])
    if r.returncode: raise Err('compilation of %s (%s) failed:\n%s' % (src, kind, r.stdout[-4000:]))
    os.rename(tmp, out)
    return out

def prune_cache(limit=6 << 30):
    d = os.path.join(B, 'cache')
    fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f)), f) for f in os.listdir(d))
    tot = sum(f[1] for f in fs)
    for m, s, f in fs:
        if tot < limit: break
        try: os.unlink(os.path.join(d, f))
        except OSError: pass
        tot -= s

def merge(rs):
    out = {}
    for r in rs:
        for k, v in r.items():
            if isinstance(v, list): out.setdefault(k, []).extend(v)
            elif isinstance(v, dict):
                d = out.setdefault(k, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
            elif k.startswith('max_'): out[k] = max(out.get(k, 0), v)
            else: out[k] = out.get(k, 0) + v
    out['functions'] = sorted(set(out.get('functions', [])))
    out['incomplete'] = sorted(set(out.get('incomplete', [])))
    return out

def native_run(exe, entry, inputs, path, timeout=60):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        for n, v in inputs: f.write('%s %s\n' % (n, v))
    env = dict(ENV, SYM_REPLAY=path, SYM_ENTRY=entry, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1',
               UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=67')
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''

def bad_exit(rc):
    return rc == 'timeout' or rc not in (0, 90, 91, 92, 93)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--only': only = args.pop(0)
        elif a == '--replay': return replay(pid, args.pop(0))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = SPECS[pid]
    known = [k for k in json.load(open(os.path.join(V, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') != 'fixed']
    os.makedirs(os.path.join(B, 'cache'), exist_ok=True)
    symex = ensure_engine()
    units, tool_s = build(spec, tier)
    # ---- symbolic execution
    budget = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    rundir = os.path.join(B, 'run', pid + '-' + tier)
    shutil.rmtree(rundir, ignore_errors=True); os.makedirs(rundir)
    jobs = []
    for u in units:
        for e in u['entries']:
            if only and e['name'] != only: continue
            if e.get('tier', tier) != tier: continue
            jobs.append((u, e))
    par = min(4, max(1, len(jobs)))
    nproc = os.cpu_count() or 4
    def one(job):
        u, e = job
        out = os.path.join(rundir, e['name'])
        cmd = [symex] + u['ir'] + ['-o', out, '--entry', e['name'], '-j', str(max(1, nproc // par)), '-t', str(budget), '--seed', str(seed)]
        if 'max_instr' in e: cmd += ['--max-instr', str(e['max_instr'])]
        r = sh(cmd)
        if not os.path.exists(out + '.main.json'): raise Err('symex failed on %s:\n%s' % (e['name'], r.stdout[-3000:]))
        m = json.load(open(out + '.main.json'))
        parts = []
        for i in range(m['processes']):
            p = '%s.%d.json' % (out, i)
            if not os.path.exists(p): parts.append({'incomplete': ['a worker process died']}); continue
            parts.append(json.load(open(p)))
        res = merge(parts); res['wall_s'] = m['wall_s']; res['processes'] = m['processes']
        return u, e, res
    with cf.ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, jobs))
    # ---- judge
    violations, findings, errors, validated, vtotal, ev_h = [], [], [], 0, 0, []
    funcs = set(); tot = {}
    samples_out = []
    rp = os.path.join(B, 'replay', pid + '-' + tier)
    shutil.rmtree(rp, ignore_errors=True)
    for u, e, r in results:
        name = e['name']
        nval = 0
        sm = r.get('samples', [])
        for i, s in enumerate(sm[:e.get('validate', 24)]):
            vtotal += 1
            rc, so, se = native_run(u['exe'], name, s['in'], '%s/%s-s%d.replay' % (rp, name, i))
            want = ['OBS %s %s' % (t, v) for t, v in s['obs']]
            got = [l for l in so.splitlines() if l.startswith('OBS ')]
            if rc == 0 and want == got: nval += 1
            elif bad_exit(rc):
                violations.append((u, e, dict(kind='native-run', msg='a passing symbolic path fails natively: ' + (se.strip().splitlines() or [''])[0][:200], where='', stack=[], **{'in': s['in']}), True))
            else: errors.append('%s: sample %d differs from the native run (rc %s)\n want %s\n got  %s\n%s' % (name, i, rc, want[:12], got[:12], se[-300:]))
        validated += nval
        viols = r.get('violations', [])
        for i, v in enumerate(viols[:8]):
            path = '%s/%s-%d.replay' % (rp, name, i)
            rc, so, se = native_run(u['exe'], name, v['in'], path)
            ok = bad_exit(rc)
            v['native'] = 'rc=%s %s' % (rc, ' | '.join(x for x in se.splitlines() if re.search('ERROR|ASSERTION|Assertion|runtime error|terminate|what', x))[:300])
            v['path'] = path
            kf = None
            for k in known:
                m = k['match']
                if all(re.search(x, v.get(f, '')) for f, x in m.items() if f in ('kind', 'msg', 'where')) and m.get('harness', name) == name and all(dict(v['in']).get(a) in b for a, b in m.get('inputs', {}).items()): kf = k
            if kf: findings.append(kf); continue
            violations.append((u, e, v, ok))
        if not viols:
            for w in r.get('incomplete', []): errors.append('%s: incomplete: %s' % (name, w))
            for lab in e.get('reach', []):
                if lab not in r.get('reach', {}): errors.append('%s: vacuous: never reached "%s"' % (name, lab))
            if not r.get('paths'): errors.append('%s: vacuous: no complete path' % name)
        funcs.update(r['functions'])
        for k in ('paths', 'dropped', 'forks', 'instr', 'asserts', 'sym_asserts', 'queries', 'cache_hits', 'sat', 'unsat', 'unknown', 'solver_s'): tot[k] = tot.get(k, 0) + r.get(k, 0)
        ev_h.append(dict(harness=name, claim=e.get('claim', ''), bound=e.get('bound', {}).get(tier, '') if isinstance(e.get('bound'), dict) else e.get('bound', ''), paths=r.get('paths', 0), pruned_by_assumptions=r.get('dropped', 0), forks=r.get('forks', 0), instructions=r.get('instr', 0), asserts_checked=r.get('asserts', 0), asserts_decided_by_solver=r.get('sym_asserts', 0),
                         solver_queries=r.get('queries', 0), query_cache_hits=r.get('cache_hits', 0), sat=r.get('sat', 0), unsat=r.get('unsat', 0), unknown=r.get('unknown', 0), solver_s=round(r.get('solver_s', 0), 2), wall_s=round(r['wall_s'], 2), witnesses=r.get('reach', {}), validated_natively=nval, incomplete=r.get('incomplete', [])))
        for s in sm[:2]: samples_out.append(dict(harness=name, inputs=dict_list(s['in']), observed=[list(x) for x in s['obs']][:20]))
    cob = demangle(sorted(funcs))
    cobf = sorted(set(f for f in cob if 'boost::cobalt' in f))
    confirmed = [v for v in violations if v[3]]
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(confirmed),
              assumptions=spec.get('assumptions', []) + COMMON_ASSUMPTIONS,
              coverage=dict(states=tot.get('paths', 0) + tot.get('forks', 0), transitions=tot.get('instr', 0), traces_validated_against_impl=validated, samples=samples_out[:12],
                            exhaustive=not errors and not violations, symbolic_paths=tot.get('paths', 0), paths_outside_assumptions=tot.get('dropped', 0), solver_queries=tot.get('queries', 0), solver_sat=tot.get('sat', 0), solver_unsat=tot.get('unsat', 0), solver_unknown=tot.get('unknown', 0), solver_s=round(tot.get('solver_s', 0), 2), query_cache_hits=tot.get('cache_hits', 0),
                            assertions_checked=tot.get('asserts', 0), assertions_decided_by_solver=tot.get('sym_asserts', 0), functions_encoded=len(funcs), cobalt_functions_encoded=len(cobf), cobalt_functions=[f[:160] for f in cobf][:150], harnesses=ev_h, build_s=round(tool_s, 2),
                            known_findings=[k['id'] for k in findings], problems=errors[:20],
                            states_means='completed symbolic paths plus solver-decided forks', transitions_means='IR instructions executed symbolically'))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    prune_cache()
    for k in {k['id']: k for k in findings}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    print('%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d asserts (%d symbolic), %d/%d samples validated, %.0fs' % (pid, tier, len(results), tot.get('paths', 0), tot.get('queries', 0), tot.get('solver_s', 0), tot.get('asserts', 0), tot.get('sym_asserts', 0), validated, vtotal, time.time() - t0))
    for u, e, v, ok in violations[:4]:
        print('%s %s in %s: %s\n   at %s\n   inputs %s\n   native: %s' % ('counterexample' if ok else 'UNCONFIRMED', v['kind'], e['name'], v['msg'], v['where'], ' '.join('%s=%s' % tuple(x) for x in v['in'])[:600], v.get('native', '')))
    if confirmed:
        v = confirmed[0]
        path = v[2].get('path')
        if not path:
            path = os.path.join(rp, v[1]['name'] + '-native.replay')
            open(path, 'w').write(''.join('%s %s\n' % tuple(x) for x in v[2]['in']))
        print('replay with: python3 %s/check.py %s --replay %s' % (V, pid, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    for x in errors: print('PROBLEM ' + x)
    if violations or errors: return 2
    return 0

COMMON_ASSUMPTIONS = ['one thread; heap allocation succeeds; freshly allocated memory holds an arbitrary fixed pattern',
                      'clang 18 front end and the LLVM coroutine-splitting and -O1 passes preserve the semantics of the C++ sources; libstdc++ out-of-line functions follow rt/rt.cpp',
                      'bounds as listed per harness; nothing is claimed beyond them']

def dict_list(x): return [list(i) for i in x]

def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines()

def build(spec, tier):
    t = time.time()
    key = tree_hash([REPO + '/include', REPO + '/src', V + '/rt', V + '/harness'])
    tasks = {}
    units = []
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for u in spec['units']:
            src = os.path.join(V, 'harness', u['file'])
            defs = ['-DTIER=%d' % (tier == 'thorough')] + u.get('defs', [])
            lib = [os.path.join(REPO, 'src', x + '.cpp') for x in SETS[u.get('sources', 'core')]]
            f = lambda kind, s, d: tasks.setdefault((kind, s, tuple(d)), ex.submit(compile_one, kind, s, d, key))
            hn, hi = f('n', src, defs), f('ir', src, defs)
            ni = [f('ir', s, []) for s in lib] + [f('ir', V + '/rt/rt.cpp', [])]
            nn = [f('n', s, []) for s in lib] + [f('n', V + '/rt/sym_native.cpp', [])]
            units.append((u, hi, ni, hn, nn))
        out = []
        for u, hi, ni, hn, nn in units:
            ir = [hi.result()] + [x.result() for x in ni]
            objs = [hn.result()] + [x.result() for x in nn]
            h = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
            exe = os.path.join(B, 'cache', h + '.exe')
            if not os.path.exists(exe):
                tmp = exe + '.%d.tmp' % os.getpid()
                r = sh([GXX, '-fsanitize=address,undefined', '-rdynamic'] + objs + ['-o', tmp, '-ldl', '-lpthread'] + u.get('libs', []))
                if r.returncode: raise Err('link failed:\n' + r.stdout[-3000:])
                os.rename(tmp, exe)
            out.append(dict(ir=ir, exe=exe, entries=u['entries']))
    return out, time.time() - t

def replay(pid, path):
    os.makedirs(os.path.join(B, 'cache'), exist_ok=True)
    entry = re.sub(r'-(s?\d+|native)\.replay$', '', os.path.basename(path))
    for tier in ('quick', 'thorough'):
        if os.path.basename(os.path.dirname(path)) != pid + '-' + tier: continue
        units, _ = build(SPECS[pid], tier)
        for u in units:
            if any(e['name'] == entry for e in u['entries']):
                ins = [l.split() for l in open(path)]
                rc, so, se = native_run(u['exe'], entry, ins, path + '.tmp')
                print(so + se + '\nexit: %s' % rc)
                return 1 if bad_exit(rc) else 0
    return 2

if __name__ == '__main__':
    try: rc = main()
    except Err as e: print('ERROR ' + str(e)); rc = 2
    sys.stdout.flush()
    sys.exit(rc)
