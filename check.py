#!/usr/bin/env python3
"""check.py <property> | --setup | --replay FILE
Builds the simulator and the library variants from /repo's current tree, searches schedules and faults by seed,
confirms, minimises and records any violation, and writes evidence/<property>.json."""
import sys, os, subprocess, hashlib, json, glob, time, shutil, array, re, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.path.join(HERE, 'build'); OBJ = os.path.join(BUILD, 'obj'); LIBS = os.path.join(BUILD, 'lib')
REPL = os.path.join(HERE, 'replays')
SIMCXX = 'clang++' if shutil.which('clang++') else 'g++'      # the simulator itself; its reference model is twice as fast with clang
NCPU = min(8, os.cpu_count() or 1)
from props import PROPS, VARIANTS

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths): h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]
class BuildError(Exception): pass
def once(out, cmd, cwd=None):
    if os.path.exists(out): return out
    tmp = out + '.%d.tmp' % os.getpid()
    r = sh([tmp if c == '@OUT' else c for c in cmd], cwd=cwd)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout[-3000:])
    os.replace(tmp, out); return out

def sim_jobs(files):
    hdrs = glob.glob(HERE + '/sim/*.h') + glob.glob(HERE + '/sim/*.hpp')
    jobs = []
    for f in files:
        src = HERE + '/sim/' + f + '.cpp'
        out = OBJ + '/' + f + '-' + digest(hdrs + [src], SIMCXX) + '.o'
        jobs.append((out, [SIMCXX, '-std=c++20', '-O2', '-g1', '-w', '-c', src, '-o', '@OUT']))
    return jobs
def lib_jobs(variant):
    v = VARIANTS[variant]
    srcs = sorted(glob.glob(REPO + '/src/*.cpp')); asm = sorted(glob.glob(REPO + '/src/*.s') + glob.glob(REPO + '/src/*.S')) if v['asm'] else []
    hdrs = glob.glob(REPO + '/src/*.h*') + glob.glob(REPO + '/include/**/*.h*', recursive=True) + [HERE + '/sim/api.h', HERE + '/sim/port.h']
    flags = [v['cxx'], '-std=c++20', '-fPIC', '-fvisibility=hidden', '-w', '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + HERE + '/sim'] + [x.replace('@SIM', HERE + '/sim') for x in v['flags']]
    jobs = []
    for s in srcs + asm + [HERE + '/sim/shim.cpp']:
        fl = list(flags)
        if s.endswith('shim.cpp') and 'shimflags' in v: fl = [x for x in fl if not x.startswith('-fsanitize')] 
        out = OBJ + '/' + variant + '-' + os.path.basename(s) + '-' + digest(hdrs + [s], ' '.join(fl)) + '.o'
        jobs.append((out, fl + ['-c', s, '-o', '@OUT']))
    return jobs
def build(files, variants, pool, sites=()):
    os.makedirs(OBJ, exist_ok=True); os.makedirs(LIBS, exist_ok=True)
    plan = [('sim', sim_jobs(files))] + [(v, lib_jobs(v)) for v in variants]
    futs = [(n, [pool.submit(once, *j) for j in js]) for n, js in plan]
    libs, missing = {}, {}
    sim = None
    for n, fs in futs:
        try:
            objs = [f.result() for f in fs]
            if n != 'sim' and VARIANTS[n].get('rev'): objs.reverse()
            if n == 'sim':
                sim = once(BUILD + '/sim-' + digest(objs), ['g++', '-rdynamic', '-g1'] + objs + ['-o', '@OUT', '-ldl', '-lpthread'])
            else:
                v = VARIANTS[n]
                libs[n] = once(LIBS + '/' + n + '-' + digest(objs) + '.so', [v['cxx'], '-shared'] + objs + ['-o', '@OUT', '-Wl,-Bsymbolic', '-Wl,-z,now', '-Wl,--allow-shlib-undefined'] + v.get('link', []))
                if n in sites: write_sites(libs[n])
        except BuildError as e:
            if n == 'sim' or n in ('asm',): raise
            missing[n] = str(e)
    return sim, libs, missing

SSE = dict(sse3='addsubpd addsubps haddpd haddps hsubpd hsubps movddup movshdup movsldup lddqu', ssse3='pshufb palignr phaddw phaddd phaddsw phsubw phsubd phsubsw pabsb pabsw pabsd psignb psignw psignd pmulhrsw pmaddubsw',
  sse41='pmulld pmuldq pblendw pblendvb blendps blendpd blendvps blendvpd pinsrb pinsrd pinsrq pextrb pextrd pextrq ptest roundps roundpd roundss roundsd pcmpeqq packusdw insertps extractps dpps dppd mpsadbw movntdqa phminposuw pminsb pminsd pminuw pminud pmaxsb pmaxsd pmaxuw pmaxud pmovsxbw pmovsxbd pmovsxbq pmovsxwd pmovsxwq pmovsxdq pmovzxbw pmovzxbd pmovzxbq pmovzxwd pmovzxwq pmovzxdq',
  sse42='pcmpgtq pcmpestri pcmpestrm pcmpistri pcmpistrm crc32 crc32b crc32w crc32l crc32q', bmi2='mulx rorx sarx shlx shrx pdep pext bzhi', bmi1='andn bextr blsi blsmsk blsr', bmi1tz='tzcnt', lzcnt='lzcnt', adx='adcx adox', popcnt='popcnt', pclmul='pclmulqdq', movbe='movbe',
  aes='aesenc aesenclast aesdec aesdeclast aesimc aeskeygenassist', sha='sha1msg1 sha1msg2 sha1nexte sha1rnds4 sha256msg1 sha256msg2 sha256rnds2', rdrand='rdrand', rdseed='rdseed')
FEAT = {m: f for f, ms in SSE.items() for m in ms.split()}
def write_sites(lib):
    """file offset, length, processor feature and place of every instruction that not every x86-64 processor has"""
    out = lib + '.sites'
    if os.path.exists(out): return
    seg = [(int(p[2], 16), int(p[1], 16), int(p[4], 16)) for p in (l.split() for l in sh(['readelf', '-lW', lib]).stdout.splitlines()) if p and p[0] == 'LOAD']
    rows, sym = [], '?'
    for l in sh(['objdump', '-d', '--no-show-raw-insn', '-w', lib]).stdout.splitlines():
        m = re.match(r'^[0-9a-f]+ <(.*)>:$', l)
        if m: sym = m.group(1)[:60].replace(' ', '_'); continue
        m = re.match(r'^\s+([0-9a-f]+):\s+(.*)$', l)
        if not m: continue
        va = int(m.group(1), 16); words = m.group(2).split(); rows.append((va, words, sym))
    res = []
    for i, (va, w, s) in enumerate(rows):
        mn = next((x for x in w if x not in ('rep', 'repz', 'repnz', 'lock', 'data16', 'cs', 'ds', 'notrack', 'bnd', '{vex}', '{evex}')), '')
        f = FEAT.get(mn) or FEAT.get(mn.rstrip('lqw'))
        if not f and mn.startswith('v') and mn not in ('verr', 'verw'):
            t = ' '.join(w); f = 'avx512' if ('%zmm' in t or '{%k' in t or re.search(r'[xy]mm(1[6-9]|2\d|3[01])', t)) else 'fma' if mn.startswith(('vfm', 'vfn')) else 'avx2' if ('%ymm' in t and mn.startswith(('vp', 'vbroadcasti', 'vinserti', 'vextracti'))) else 'avx'
        if not f: continue
        ln = rows[i + 1][0] - va if i + 1 < len(rows) else 4
        for v, o, n in seg:
            if v <= va < v + n: res.append('%x %d %s %s' % (va - v + o, ln, f, s)); break
    t = out + '.%d.tmp' % os.getpid(); open(t, 'w').write('\n'.join(res) + '\n'); os.replace(t, out)
def hosts_env(pr, libs):
    hs = []
    for h in pr['hosts']:
        base, *opt = h.split(':'); name = base if not opt else base + 'nx'
        if base not in libs: continue
        p = libs[base]
        if opt:
            p2 = p[:-3] + '.nx.so'
            if not os.path.exists(p2):
                t = p2 + '.%d.tmp' % os.getpid(); shutil.copy(p, t); os.replace(t, p2)
            hs.append('%s=%s:noext' % (name, p2))
        else: hs.append('%s=%s' % (name, p))
    return ','.join(hs)

def env_for(pr, libs, tier):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('BLS_', 'SIM_'))}
    e['SIM_HOSTS'] = hosts_env(pr, libs); e['XLS_DISABLE_BMI2'] = '1'; e['VERIF_TIER'] = tier
    for n, p in libs.items(): e['SIM_LIB_' + n] = p
    if os.environ.get('SIM_DEBUG'): e['SIM_DEBUG'] = '1'
    return e

class Server:
    """sim execstdin: runs plan files, one at a time, each in its own forked process"""
    def __init__(s, sim, pid, env):
        s.p = subprocess.Popen([sim, 'execstdin', pid], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        s.f = tempfile.NamedTemporaryFile('w', suffix='.plan', delete=False); s.f.close()
    def run(s, lines):
        with open(s.f.name, 'w') as f: f.write('\n'.join(lines) + '\n')
        s.p.stdin.write(s.f.name + '\n'); s.p.stdin.flush()
        return json.loads(s.p.stdout.readline())
    def close(s):
        try: s.p.stdin.close(); s.p.wait(10)
        except Exception: s.p.kill()
        os.unlink(s.f.name)

def minimise(srv, lines, kind, limit):
    t0 = time.time(); runs = 0
    fixed = [l for l in lines if l.startswith('!')]; var = [l for l in lines if not l.startswith('!')]
    def bad(v):
        nonlocal runs; runs += 1
        return srv.run(fixed + v)['violation'] == kind
    n = 2
    while len(var) >= 1 and time.time() - t0 < limit:
        size = max(1, len(var) // n); shrunk = False; i = 0
        while i < len(var) and time.time() - t0 < limit:
            cand = var[:i] + var[i + size:]
            if bad(cand): var = cand; n = max(n - 1, 2); shrunk = True
            else: i += size
        if not shrunk:
            if size == 1: break
            n = min(n * 2, len(var))
    return fixed + var, runs

def known_findings():
    out = []
    p = HERE + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) kind=(\S+) match="([^"]*)"\s*(.*)', l)
            if m: out.append(m.groups())
    return out

def exec_fresh(sim, pid, env, path):
    r = subprocess.run([sim, 'exec', pid, path], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return json.loads(r.stdout.strip().splitlines()[-1])

def main():
    if sys.argv[1] == '--setup':
        with ThreadPoolExecutor(NCPU) as pool:
            vs = sorted({h.split(':')[0] for p in PROPS.values() for h in p['hosts'] + p.get('libs', [])})
            for k, p in sorted(PROPS.items()):      # the libraries of all with the first; then one simulator per check
                sim, libs, missing = build(p['files'], vs, pool); vs = []
                if libs: print('libraries', sorted(libs), 'missing', sorted(missing))
                print(k, sim)
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    if sys.argv[1] == '--replay':
        replay = sys.argv[2]; pid = re.search(r'^# property: (\S+)', open(replay).read(), re.M).group(1)
    else: pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'): tier = sys.argv[2]
    pr = PROPS[pid]; t_start = time.time()
    with ThreadPoolExecutor(NCPU) as pool:
        sim, libs, missing = build(pr['files'], sorted({h.split(':')[0] for h in pr['hosts'] + pr.get('libs', [])}), pool, pr.get('sites', ()))
    env = env_for(pr, libs, tier)
    t_built = time.time()
    if replay:
        r = exec_fresh(sim, pid, env, replay); print(json.dumps(r))
        if r['violation']: print('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(replay))); return 1
        return 0
    os.makedirs(HERE + '/evidence', exist_ok=True); os.makedirs(REPL, exist_ok=True)
    q = pr['quick'] if tier == 'quick' else pr['thorough']
    tl, hard, minruns = q['secs'], q['hard'], max(1, q['min'] // NCPU)
    scale = float(os.environ.get('SIM_TIME', '1')); tl *= scale
    tmp = tempfile.mkdtemp(prefix='sim-'); procs = []
    for w in range(NCPU):
        procs.append(subprocess.Popen([sim, 'worker', pid, str(seed), str(w), str(NCPU), str(minruns), str(tl), str(hard), '%s/st%d' % (tmp, w)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace'))
    outs = [p.communicate() for p in procs]
    viol, samples, cnt, runs, again, died = [], [], {}, 0, 0, []
    wall = 0.0
    for w, ((o, e), p) in enumerate(zip(outs, procs)):
        done = False
        for l in o.splitlines():
            if l.startswith('VIOL '): viol.append(json.loads(l[5:]))
            elif l.startswith('SAMPLE '): samples.append(json.loads(l[7:]))
            elif l.startswith('DONE '):
                d = json.loads(l[5:]); done = True; runs += d['runs']; again += d['replayed']; wall = max(wall, d['wall'])
                for k, v in d['counters'].items(): cnt[k] = max(cnt.get(k, 0), v) if k.startswith('max_') else cnt.get(k, 0) + v
        if not done: died.append((p.returncode, e[-500:]))
    st, hs = set(), set()
    for w in range(NCPU):
        for suf, s in (('', st), ('.h', hs)):
            try:
                a = array.array('Q'); b = open('%s/st%d%s' % (tmp, w, suf), 'rb').read(); a.frombytes(b); s.update(a)
            except OSError: pass
    shutil.rmtree(tmp, ignore_errors=True)
    confirmed, unconfirmed, known = None, [], []
    viol.sort(key=lambda v: v['seed'])
    seen_kinds = set(); t_gate = time.time()
    for v in viol:
        if confirmed or time.time() - t_gate > 200: break
        if len(seen_kinds) and v['kind'] in seen_kinds and unconfirmed and len(unconfirmed) > 6: continue
        seen_kinds.add(v['kind'])
        plan = sh([sim, 'gen', pid, str(v['seed'])], env=env).stdout.splitlines()
        path = '%s/%s-%d.%d.plan' % (REPL, pid, v['seed'], os.getpid()); open(path, 'w').write('\n'.join(plan) + '\n')
        r1 = exec_fresh(sim, pid, env, path); r2 = exec_fresh(sim, pid, env, path)
        hit = lambda r: r['violation'] and (r['violation'] == v['kind'] or v['kind'] == 'nondeterministic-outcome')
        if v['kind'] == 'nondeterministic-outcome' and not r1['violation'] and not r2['violation'] and r1['hash'] != r2['hash']:
            r1['violation'] = r2['violation'] = v['kind']
        if not (hit(r1) and hit(r2) and r1['violation'] == r2['violation']): unconfirmed.append((v, r1, r2)); os.unlink(path); continue
        kf = next((k for k in known_findings() if k[0] == pid and k[1] == r1['violation'] and k[2] in r1['detail']), None)
        if kf: known.append(kf); os.unlink(path); continue
        kind = r1['violation']; lines = plan; mruns = 0
        if kind not in ('nondeterministic-outcome',):
            srv = Server(sim, pid, env)
            try: lines, mruns = minimise(srv, plan, kind, 30 if kind == 'hang' else 60)
            finally: srv.close()
        path2 = '%s/%s-%d.replay' % (REPL, pid, v['seed'])
        def write(ls, r):
            open(path2, 'w').write('\n'.join(['# property: ' + pid, '# seed: %d (VERIF_SEED=%d, tier %s)' % (v['seed'], seed, tier), '# violation: ' + kind, '# detail: ' + r['detail'].replace('\n', ' '),
                '# observed hash: ' + r['hash'], '# minimised from %d to %d lines in %d runs' % (len(plan), len(ls), mruns), '# replay: python3 check.py --replay ' + os.path.relpath(path2, HERE)] + ls) + '\n')
        write(lines, r1); r3 = exec_fresh(sim, pid, env, path2)
        if r3['violation'] != kind: lines = plan; r3 = r1
        write(lines, r3); os.unlink(path); confirmed = (path2, kind, r3['detail'], v['seed'], len(plan), len(lines))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': pr['level'], 'wall_s': round(time.time() - t_start, 1), 'violations': 1 if confirmed else 0,
      'coverage': {'evaluations': runs, 'distinct_nontrivial': len(hs), 'rule': pr['rule'], 'samples': samples[:6] or [{'note': 'no clean run'}],
        'runs_per_hour': int((runs + again) / max(wall, 1e-3) * 3600), 'seeds_per_hour': int(runs / max(wall, 1e-3) * 3600), 'search_wall_s': round(wall, 1), 'build_wall_s': round(t_built - t_start, 1), 'workers': NCPU,
        'executions_repeated_for_determinism': again, 'simulated_time_s': round(cnt.get('sim_ms', 0) / 1e3, 3), 'faults_injected': {k[6:]: v for k, v in sorted(cnt.items()) if k.startswith('fault_')},
        'counters': {k: v for k, v in sorted(cnt.items()) if not k.startswith('fault_') and k != 'sim_ms'}, 'distinct_states': len(st), 'state_measure': pr['measure'],
        'components': {'real': pr['real'], 'stub': pr['stub'], 'library_variants': {n: VARIANTS[n]['what'] for n in libs}, 'variants_not_built': {k: v[-300:] for k, v in missing.items()}}},
      'assumptions': pr['assume']}
    if confirmed: ev['coverage']['violation'] = {'kind': confirmed[1], 'detail': confirmed[2], 'seed': confirmed[3], 'plan_lines': confirmed[4], 'minimised_lines': confirmed[5]}
    json.dump(ev, open(HERE + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %d runs (%d repeated), %d distinct histories, %d states, %.1f s search, faults %s' % (pid, runs, again, len(hs), len(st), wall, json.dumps(ev['coverage']['faults_injected'])))
    for k in known: print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    if confirmed:
        print('%s: %s' % (confirmed[1], confirmed[2])); print('VIOLATION property=%s replay=%s' % (pid, confirmed[0])); return 1
    if unconfirmed:
        print('unconfirmed: ' + json.dumps(unconfirmed[0])[:1500]); return 2
    if died or runs == 0: print('worker failed: %s' % died); return 2
    return 0
if __name__ == '__main__':
    try: sys.exit(main())
    except BuildError as e: print('build failed: ' + str(e)); sys.exit(2)
    except Exception:
        import traceback; traceback.print_exc(); sys.exit(2)
