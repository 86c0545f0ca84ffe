#!/opt/veriftools/pyvenv/bin/python3
"""Driver: decides one property by discharging the obligations generated from /repo's current sources.

  check.py PID [--tier quick|thorough] [--keep]
"""
import sys, os, json, time, subprocess, tempfile, shutil, threading, queue, multiprocessing as mp, hashlib, re, traceback, resource
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VP_REPO', '/repo')
from plan import PLAN, CONFIGS, TRUSTED, TITLE, BOUNDED

EVID = os.environ.get('VP_EVIDENCE') or os.path.join(VERIF, 'evidence')
NPROC = int(os.environ.get('VP_JOBS', '0')) or min(8, os.cpu_count() or 1)

COMMON = ['-fno-access-control', '-fno-threadsafe-statics', '-fno-math-errno', '-w', '-fbracket-depth=4096', '-ftemplate-depth=8192',
          '-I' + REPO + '/include', '-I' + VERIF + '/contracts']
IRFLAGS = ['-S', '-emit-llvm', '-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only']

def sh(cmd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace') + '\n[timeout]'

TIER = []   # -DVP_QUICK in the quick tier
# python.cpp and pymodule.cpp are verified over contracts of pybind11
def tu_flags(tu): return ['-I' + VERIF + '/contracts/pystub', '-I' + REPO + '/py/unpadded'] if tu in ('python.cpp', 'pymodule.cpp') else []
def cxx(tu, cfg, out, extra, exc):
    c = CONFIGS[cfg]
    cmd = ['clang++-18', '-std=' + c['std']] + IRFLAGS + tu_flags(tu) + COMMON + TIER + c['flags'] + extra
    if not exc: cmd += ['-fno-exceptions', '-fno-rtti']
    return cmd + [os.path.join(VERIF, 'contracts', tu), '-o', out]

def compile_tu(job):
    """Extract the IR of one contract file under one configuration from the current sources.
    Returns dict(ll, internal, exc, log)."""
    tu, cfg, d, noexc = job
    out = os.path.join(d, '%s.%s.ll' % (tu.replace('/', '_'), cfg))
    log = ''
    for exc in ([False, True] if not noexc else [True]):
        for extra in ([], ['-DVP_NO_INTERNAL']):
            rc, o = sh(cxx(tu, cfg, out, extra, exc))
            if rc == 0: return dict(tu=tu, cfg=cfg, ll=out, internal=not extra, exc=exc, log=log[:4000])
            log += o[:3000] + '\n'
    return dict(tu=tu, cfg=cfg, ll=None, internal=False, exc=False, log=log[:8000])

# ------------------------------------------------------------------ workers
_mods = {}
def load(ll):
    import ir
    m = _mods.get(ll)
    if m is None:
        if len(_mods) > 6: _mods.clear()
        m = _mods[ll] = ir.Module(open(ll).read())
    return m

def cstring(m, v):
    g = m.globals[v[1]]
    if g[1][0] == 'zero': return ''
    return bytes(g[1][1]).rstrip(b'\0').decode()

def units_of(ll):
    m = load(ll)
    t = m.globals['@vp_table'][1]
    out = []
    for k, (ty, v) in enumerate(t[2]):
        props, name, kind, fn = [x for _, x in v[2]]
        out.append((k, cstring(m, props).split(','), cstring(m, name), kind[2], fn[1]))
    return out

def run_unit(task):
    import symex
    ll, fn, modular, limit, dump, pid, mem = task
    t0 = time.time()
    r = dict(fails=[], undecided=[], unsupported=None, ends=0, covers={}, stats={}, kinds={}, contracts={}, funcs=[], dumped=[])
    try:
        m = load(ll)
        e = symex.Engine(m, modular=modular, time_limit=limit, dump=dump)
        e.enough = lambda fs: sum(1 for f in fs if relevant(dict(kind=f.kind, label=f.label), pid, mem)) >= 4
    except Exception as x:
        r['unsupported'] = 'parse: %s' % x; r['wall'] = time.time() - t0
        return r
    try:
        r['ends'] = e.run(fn)
    except symex.Enough: pass
    except symex.Unsupported as x: r['unsupported'] = 'construct: %s' % x
    except symex.Budget as x: r['unsupported'] = 'budget: %s' % x
    except RecursionError as x: r['unsupported'] = 'recursion'
    except MemoryError as x: r['unsupported'] = 'memory'
    except Exception as x: r['unsupported'] = 'internal: %r %s' % (x, traceback.format_exc()[-600:])
    r['fails'] = [dict(kind=f.kind, label=f.label, loc=m.loc(f.loc) if f.loc else None, tape=f.tape) for f in e.failures]
    r['undecided'] = [(k, l, m.loc(c) if c else None) for k, l, c in e.undecided]
    r['covers'] = e.covers; r['stats'] = e.stats; r['kinds'] = e.kinds; r['contracts'] = e.contract_names
    r['funcs'] = sorted(x for x in e.funcs_seen if '3upd' in x)
    r['dumped'] = e.dumped
    r['wall'] = time.time() - t0
    return r

def worker(inq, outq):
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
    threading.stack_size(512 * 1024 * 1024)
    def loop():
        while True:
            t = inq.get()
            if t is None: return
            i, f, a = t
            try: r = globals()[f](a)
            except BaseException as x: r = dict(error='%r %s' % (x, traceback.format_exc()[-800:]))
            outq.put((i, r))
    th = threading.Thread(target=loop); th.start(); th.join()

class Pool:
    """Worker processes. A map ends at its deadline, or as soon as stop() says so: unanswered tasks give None."""
    def __init__(self, n):
        self.n = n; self.start()
    def start(self):
        ctx = mp.get_context('fork')
        self.i, self.o = ctx.Queue(), ctx.Queue()
        self.ps = [ctx.Process(target=worker, args=(self.i, self.o), daemon=True) for _ in range(self.n)]
        for p in self.ps: p.start()
    def restart(self):
        for p in self.ps: p.kill()
        self.start()
    def map(self, f, tasks, deadline=None, on_result=None, stop=lambda: False):
        for k, t in enumerate(tasks): self.i.put((k, f, t))
        res = [None] * len(tasks); n = 0; last = time.time()
        while n < len(tasks):
            if stop() or (deadline and time.time() > deadline): self.restart(); break
            try: k, r = self.o.get(timeout=2)
            except Exception:
                if not any(p.is_alive() for p in self.ps): self.restart(); break
                dead = [p for p in self.ps if not p.is_alive()]
                # a worker was ended (memory): its task is lost
                if dead and self.i.empty() and time.time() - last > 120: self.restart(); break
                continue
            last = time.time()
            res[k] = r; n += 1
            if on_result: on_result(k, r)
        return res
    def close(self):
        for p in self.ps: p.kill()

# ------------------------------------------------------------------ native
def native_build(tu, cfg, d, internal, san='address,undefined'):
    c = CONFIGS[cfg]
    if not c['native']: return None, 'no native execution for this target'
    tag = san.replace(',', '_')
    out = os.path.join(d, '%s.%s.%s.bin' % (tu.replace('/', '_'), cfg, tag))
    if os.path.exists(out): return out, ''
    cmd = ['clang++-18', '-std=' + ('c++14' if c['std'] == 'c++11' and False else c['std'])] + tu_flags(tu) + COMMON + TIER + c['flags'] + \
        ['-O1', '-g', '-fsanitize=' + san, '-fno-sanitize-recover=all', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
    if not internal: cmd.append('-DVP_NO_INTERNAL')
    if 'memory' in san: cmd = [x for x in cmd if 'trivial-auto' not in x]
    rc, o = sh(cmd + [os.path.join(VERIF, 'contracts', tu), os.path.join(HERE, 'native.cpp'), '-o', out])
    if rc != 0: return None, o
    return out, ''

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1',
           UBSAN_OPTIONS='print_stacktrace=1')

def native_replay(binary, unit, tape, d, pid):
    f = os.path.join(d, 'tape.%s.txt' % hashlib.sha1(repr((unit, tape, binary)).encode()).hexdigest()[:12])
    with open(f, 'w') as h:
        for n, x in tape: h.write('%s %s\n' % (n.replace(' ', '_') or '_', x or '-'))
    rc, o = sh([binary, 'replay', str(unit), f], timeout=60, env=dict(ENV, VP_PROP=pid))
    bad = rc not in (0, 77, 78, 2)
    return bad, rc, o, f

def native_search(binary, unit, seed, secs, d, pid, iters=10**9):
    st = os.path.join(d, 'state.%d.%d.%s' % (unit, seed, hashlib.sha1(binary.encode()).hexdigest()[:8]))
    rc, o = sh([binary, 'search', str(unit), str(seed), str(iters), str(secs), st], timeout=secs + 60, env=dict(ENV, VP_PROP=pid))
    n = 0
    m = re.search(r'VP-OK (\d+)', o)
    if m: n = int(m.group(1))
    if rc in (0, 2): return False, n, o, None
    if rc == 124: return True, n, 'does not terminate\n' + o, None
    try: cur = int.from_bytes(open(st, 'rb').read(8), 'little')
    except OSError: cur = seed
    return True, n, o, cur

def bounded_build(tu, bcfg, d):
    """A contract file compiled by another compiler, only executed."""
    c = BOUNDED[bcfg]
    out = os.path.join(d, '%s.%s.bin' % (os.path.basename(tu), bcfg))
    if os.path.exists(out): return out, ''
    def sub(l):
        r = []
        for x in l:
            if x.startswith('$'): r += subprocess.run(x[1:].split(), capture_output=True, text=True).stdout.split()
            else: r.append(x.replace('{REPO}', REPO))
        return r
    try: cmd = [c['cc']] + sub(c['flags']) + COMMON[3:4] + [x for x in COMMON if x.startswith('-I') or x == '-fno-access-control' or x.startswith('-ftemplate')] + TIER
    except OSError as x: return None, str(x)
    rc, o = sh(cmd + [os.path.join(VERIF, 'contracts', tu), os.path.join(HERE, 'native.cpp'), '-o', out] + sub(c.get('ld', [])))
    return (out, '') if rc == 0 else (None, o)

def probe_ok(bcfg, d):
    f = os.path.join(d, 'probe_%s.cpp' % bcfg)
    open(f, 'w').write(BOUNDED[bcfg].get('probe', '#include <array>\n') + 'static void f() {}\n#include "vp.hpp"\nVP_TABLE({"P00", "probe", 2, &f})\n')
    return bounded_build(f, bcfg, d)[0] is not None

def bounded_job(a):
    tu, bcfg, d = a
    b, log = bounded_build(tu, bcfg, d)
    if b is None: return None, log, []
    us = native_list(b)
    for k, props, name, kind in us:
        if name == 'available':
            rc, o = sh([b, 'search', str(k), '1', '1', '5', os.path.join(d, 'st.' + bcfg)], timeout=60, env=ENV)
            if rc != 0: return None, 'not available here: ' + o[-500:], []
    return b, '', us

def search_job(a):
    b, u, seed, secs, d, pid = a
    return native_search(b, u, seed, secs, d, pid)

# ------------------------------------------------------------------ main
TAG = re.compile(r'^P\d\d(,P\d\d)*\b')
def relevant(f, pid, memonly=False):
    """A label that names properties concerns these only."""
    if memonly and f['kind'] in ('contract', 'frame'): return False
    m = TAG.match(f['label'])
    if f['kind'] in ('contract', 'frame') and m: return pid in m.group(0).split(',')
    return True

def replay(path):
    """Exit 1 when the recorded input still fails against the current sources."""
    o = json.load(open(path)); r = o.get('reproduced')
    if not r:
        print('no failing input was found; failed obligations:'); print(json.dumps(o.get('failed'), indent=1)[:4000]); return 2
    d = tempfile.mkdtemp(prefix='vp_replay_')
    if r.get('tier') == 'quick': TIER.append('-DVP_QUICK')
    try:
        if r.get('bounded'): b, log = bounded_build(r['tu'], r['cfg'], d)
        else: b, log = native_build(r['tu'], r['cfg'], d, r['internal'], r.get('san', 'address,undefined'))
        if b is None: print(log[:3000]); return 2
        if 'tape' in r:
            bad, rc, out, _ = native_replay(b, r['uidx'], [tuple(t) for t in r['tape']], d, o['property'])
        else:
            bad, n, out, _ = native_search(b, r['uidx'], r['seed'], 20, d, o['property'], iters=1)
        print(out[-4000:]); return 1 if bad else 0
    finally: shutil.rmtree(d, ignore_errors=True)

def main():
    if sys.argv[1] == '--replay': os._exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier == 'quick': TIER.append('-DVP_QUICK')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try: rc = go(pid, tier, seed, t0, d)
    finally:
        if '--keep' not in sys.argv: shutil.rmtree(d, ignore_errors=True)
        else: print('kept', d)
    sys.stdout.flush()
    os._exit(rc)

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(n.lstrip('@') for n in names), capture_output=True, text=True)
    return r.stdout.rstrip('\n').split('\n')

def go(pid, tier, seed, t0, d):
    plan = PLAN[pid]
    BUDGET = 800 if tier == 'quick' else 6 * 3600
    jobs = [(tu, cfg, d, plan.get('exceptions', False)) for tu, cfgs in plan[tier if tier in plan else 'quick'] for cfg in cfgs]
    # files all of whose units count, for their memory-safety obligations only
    memory = [(tu, cfg) for tu, cfgs in plan.get('memory', {}).get(tier, []) for cfg in cfgs]
    jobs += [(tu, cfg, d, plan.get('exceptions', False)) for tu, cfg in memory if (tu, cfg) not in [j[:2] for j in jobs]]
    pool = Pool(NPROC)
    comp = pool.map('compile_tu', jobs)
    violations = []; notes = []
    replaydir = os.path.join(EVID, 'replay'); os.makedirs(replaydir, exist_ok=True)
    work = []
    listing = pool.map('units_of', [c['ll'] for c in comp if c and c.get('ll')])
    li = iter(listing)
    for c in comp:
        if not c or c.get('error') or c.get('ll') is None:
            if plan.get('soft'):
                # the contracts of the dependencies do not cover what the source uses: not a violation, executions stand in
                notes.append('%s/%s: not provable, the contracts of the dependencies do not cover the source: %s' % ((c or {}).get('tu'), (c or {}).get('cfg'), (c or {}).get('log', '')[:400]))
                continue
            # the contracts no longer compile against the public interface
            violations.append(dict(unit='compile', kind='compile', label='contracts do not compile against the public interface',
                                   info=(c or {}).get('log', '') or (c or {}).get('error', ''), tu=(c or {}).get('tu'), cfg=(c or {}).get('cfg'), replay=None))
            continue
        us = next(li)
        if isinstance(us, dict) or us is None:
            notes.append('unit table of %s unreadable: %s' % (c['tu'], us)); us = native_units(c, d)
        if not c['internal']: notes.append('%s/%s: class-internal contracts do not apply to this source; public histories used instead (bounded)' % (c['tu'], c['cfg']))
        for k, props, name, kind, fn in us:
            if kind == 2: continue
            mem = (c['tu'], c['cfg']) in memory and pid not in props
            if mem and tier == 'quick' and name.startswith(plan.get('memory_skip', '-')): continue
            if plan.get('all_units') or pid in props or mem:
                if plan.get('filter') and not plan['filter'](c['tu'], c['cfg'], name): continue
                work.append((dict(c, mem=mem), k, name, kind, fn))
    limit = 200 if tier == 'quick' else 1800
    dump = 0 if tier == 'quick' else 3
    bins = {}
    binlock = threading.Lock()
    def binary(c, san='address,undefined'):
        key = (c['tu'], c['cfg'], san)
        with binlock:
            if key not in bins: bins[key] = native_build(c['tu'], c['cfg'], d, c['internal'], san)
        return bins[key][0]
    # counterexamples are executed on the real code as they come; once one is confirmed the rest need not be proved
    confirmed = []
    replays = queue.Queue()
    def replayer():
        tried = set()
        while True:
            t = replays.get()
            if t is None: return
            c, k, name, f = t
            if confirmed or len(tried) > 80 or repr((c['ll'], k, f['tape'])) in tried: continue
            tried.add(repr((c['ll'], k, f['tape'])))
            for san in ('address,undefined', 'memory'):
                b = binary(c, san)
                if b is None: continue
                hit, rc, o, tf = native_replay(b, k, f['tape'], d, pid)
                if hit:
                    confirmed.append(dict(how='replay of the prover counterexample (%s)' % san, unit=name, tu=c['tu'], cfg=c['cfg'], uidx=k, tape=f['tape'],
                                          san=san, output=o[-4000:], label=f['label'], kind=f['kind'], loc=f['loc'], internal=c['internal'], tier=tier)); break
    rt = threading.Thread(target=replayer, daemon=True); rt.start()
    def on_result(w):
        def g(i, r):
            c, k, name, kind, fn = w[i]
            if not r or r.get('error') or kind == 1 or not CONFIGS[c['cfg']]['native']: return
            for f in [f for f in r['fails'] if relevant(f, pid, c['mem'])][:3]: replays.put((c, k, name, f))
        return g
    stop = lambda: bool(confirmed)
    PASS1, PASS2 = (t0 + BUDGET * .55, t0 + BUDGET * .75) if tier == 'quick' else (t0 + BUDGET, t0 + BUDGET)
    res = pool.map('run_unit', [(c['ll'], fn, True, limit, dump, pid, c['mem']) for c, k, name, kind, fn in work], PASS1, on_result(work), stop)
    # second chance without callee contracts
    redo = [i for i, r in enumerate(res) if r and not r.get('error') and (r.get('unsupported') or r.get('undecided') or any(relevant(f, pid, work[i][0]['mem']) for f in r.get('fails', []))) and r.get('contracts')]
    res2 = []
    if not confirmed:
        rw = [work[i] for i in redo]
        res2 = pool.map('run_unit', [(w[0]['ll'], w[4], False, limit, 0, pid, w[0]['mem']) for w in rw], PASS2, on_result(rw), stop)
    replays.put(None); rt.join(None if confirmed else 240)
    inlined = set()
    for i, r in zip(redo, res2):
        if r and not r.get('error') and not r['unsupported'] and not r['undecided'] and not any(relevant(f, pid, work[i][0]['mem']) for f in r['fails']):
            res[i] = r; inlined.add(i); notes.append('%s proved with callee bodies instead of their contracts' % work[i][2])
        elif r and not r.get('error') and any(relevant(f, pid, work[i][0]['mem']) for f in r['fails']) and work[i][3] == 0:
            res[i] = r                      # failing on the real bodies: more meaningful counterexample
    tot = dict(obligations=0, discharged=0, trivial=0, solver=0, queries=0, qtime=0.0, contracts=0, steps=0)
    kinds = {}; units_proved = 0; undec = []; failing = []; funcs = set(); contr = {}; dumped = []
    for i, (w, r) in enumerate(zip(work, res)):
        c, k, name, kind, fn = w
        if r is None or r.get('error'):
            undec.append((i, 'worker: %s' % (r or {}).get('error', 'no answer'))); continue
        s = r['stats']
        bad = [f for f in r['fails'] if relevant(f, pid, c['mem'])]
        tot['obligations'] += s['obligations']; tot['trivial'] += s['trivial']; tot['solver'] += s['solver']
        tot['queries'] += s['queries']; tot['qtime'] += s['qtime']; tot['contracts'] += s['contracts']; tot['steps'] += s['steps']
        for a, b in r['kinds'].items(): kinds[a] = kinds.get(a, 0) + b
        for a, b in r['contracts'].items(): contr[a] = contr.get(a, 0) + b
        funcs.update(r['funcs']); dumped += r['dumped']
        if bad: failing.append((i, bad))
        elif r['unsupported']: undec.append((i, r['unsupported']))
        elif r['undecided']: undec.append((i, 'solver: %s' % (r['undecided'][:3],)))
        elif r['ends'] == 0 or s['obligations'] == 0 or not all(r['covers'].values()):
            # vacuous proof: nothing established
            undec.append((i, 'vacuous: %d ends, covers %s' % (r['ends'], r['covers'])))
        else: units_proved += 1
    tot['discharged'] = tot['trivial'] + tot['solver']
    # ------------------------------------------------------------ violations
    searched = {}
    def do_search(cs, secs):
        """Native search for a failing input of this property over all units of the files concerned."""
        if 'hit' in searched: return searched['hit']
        todo = []
        if len(cs) > 1:                       # build them side by side
            ts = [threading.Thread(target=lambda c=c: bins.setdefault((c['tu'], c['cfg'], 'address,undefined'), native_build(c['tu'], c['cfg'], d, c['internal']))) for c in cs if (c['tu'], c['cfg'], 'address,undefined') not in bins]
            for t in ts: t.start()
            for t in ts: t.join()
        for c in cs:
            b = binary(c)
            if b is None: continue
            for k, props, name, kind in native_list(b):
                if kind != 1 and (pid in props or plan.get('all_units')): todo.append((b, k, name, c, kind))
        # search-only units first
        todo.sort(key=lambda t: (t[4] != 2))
        hit = None; ran = 0
        per = max(2.0, min(20.0, secs * NPROC / max(1, len(todo))))
        for a in range(0, len(todo), 400):
            batch = todo[a:a + 400]
            got = []
            def on(i, r):
                if isinstance(r, tuple) and r[0]: got.append((batch[i], r))
            end = time.time() + secs * 6
            if tier == 'quick': end = min(end, t0 + BUDGET)
            rs = pool.map('search_job', [(b, k, seed * 1000003, per * (4 if kind == 2 else 1) if kind == 2 else per, d, pid) for b, k, name, c, kind in batch], end, on, lambda: bool(got))
            ran += sum(r[1] for r in rs if isinstance(r, tuple))
            if got: hit = got[0]
            if hit: break
        searched['ran'] = ran
        searched['hit'] = hit
        return hit
    reproduced = confirmed[0] if confirmed else None
    if reproduced: undec = [u for u in undec if not u[1].startswith('worker: no answer')]
    if failing and not reproduced:
        cs = []
        for i, _ in failing:
            c = work[i][0]
            if CONFIGS[c['cfg']]['native'] and c not in cs: cs.append(c)
        hit = do_search(cs[:3], 45 if tier == 'quick' else 300)
        if hit:
            (b, k, name, c, kind), (_, n, o, cur) = hit
            i, bad = failing[0]
            reproduced = dict(how='native search for the failed obligation', unit=name, tu=c['tu'], cfg=c['cfg'], uidx=k, seed=cur, san='address,undefined',
                              output=o[-4000:], label=bad[0]['label'], kind=bad[0]['kind'], loc=bad[0]['loc'], internal=c['internal'], tier=tier)
    # the constructors establish something else: the members have another meaning in this source, so that the class invariant says nothing about it;
    # the histories through the public interface decide, from the constructors on
    if failing and not reproduced and all(work[i][3] == 1 for i, _ in failing) and any('the constructors establish the invariant' in f['label'] for _, b in failing for f in b):
        notes.append('the class invariant does not describe the members of this source: %d units about it set aside, the public histories decide (bounded)' % len(failing))
        undec += [(i, 'the class invariant is about members with another meaning') for i, _ in failing]
        failing = []
    # units the prover could not decide: native search stands in (bounded)
    bounded = []
    if undec:
        cs = []
        for i, why in undec:
            c = work[i][0]
            if CONFIGS[c['cfg']]['native'] and c not in cs: cs.append(c)
        if not reproduced:
            hit = do_search(cs[:4], 45 if tier == 'quick' else 300)
            if hit:
                (b, k, name, c, kind), (_, n, o, cur) = hit
                reproduced = dict(how='native search (obligations undecided: %s)' % undec[0][1][:200], unit=name, tu=c['tu'], cfg=c['cfg'], uidx=k, seed=cur,
                                  san='address,undefined', output=o[-4000:], label='see output', kind='native', loc=None, internal=c['internal'], tier=tier)
        for i, why in undec: bounded.append('%s/%s: %s (%s)' % (work[i][0]['tu'], work[i][0]['cfg'], work[i][2], why[:300]))
    # contract files that clang does not compile, or over real dependencies: executed on random inputs (bounded, never counted as proved)
    ran = []
    if plan.get('bounded') and not reproduced:
        bl = plan['bounded']
        for (tu, bcfg), r in zip(bl, pool.map('bounded_job', [(tu, bcfg, d) for tu, bcfg in bl])):
            b, log, us = r if isinstance(r, tuple) else (None, str(r), [])
            if b is None:
                ran.append('%s/%s: not executed: %s' % (tu, bcfg, log[:300]))
                # these files only use the public interface: the compiler and the dependencies being there, they have to compile
                if not log.startswith('not available') and probe_ok(bcfg, d):
                    violations.append(dict(unit='compile', kind='compile', label='contracts do not compile against the public interface', info=log, tu=tu, cfg=bcfg, replay=None))
                continue
            us = [u for u in us if pid in u[1]]
            secs = 6 if tier == 'quick' else 120
            for u, x in zip(us, pool.map('search_job', [(b, u[0], seed * 1000003, secs, d, pid) for u in us])):
                if not isinstance(x, tuple): ran.append('%s/%s %s: not executed' % (tu, bcfg, u[2])); continue
                ran.append('%s/%s %s: %d executions' % (tu, bcfg, u[2], x[1]))
                if x[0] and not reproduced:
                    reproduced = dict(how='execution on random inputs (bounded)', unit=u[2], tu=tu, cfg=bcfg, uidx=u[0], seed=x[3], bounded=True,
                                      output=x[2][-4000:], label='see output', kind='native', loc=None, internal=True, tier=tier)
    pool.close()
    if '--slow' in sys.argv:
        for w, r in sorted(zip(work, res), key=lambda x: -(x[1] or {}).get('wall', 0))[:25]: print('  %.1fs %s %s' % ((r or {}).get('wall', 0), w[0]['cfg'], w[2][:110]))
    lines = []
    nviol = 0
    def write_replay(n, obj):
        p = os.path.join(replaydir, '%s-%d.json' % (pid, n))
        json.dump(obj, open(p, 'w'), indent=1)
        return p
    failed_list = [dict(unit=work[i][2], file=work[i][0]['tu'], config=work[i][0]['cfg'], obligations=[dict(kind=f['kind'], label=f['label'], at=f['loc'], counterexample=f['tape']) for f in bad[:6]]) for i, bad in failing]
    if reproduced:
        nviol = max(1, len(failing))
        p = write_replay(0, dict(property=pid, reproduced=reproduced, failed=failed_list[:40], replay_cmd='%s/engine/replay.sh <this file>' % VERIF))
        lines.append('VIOLATION property=%s replay=%s' % (pid, p))
    elif failing or violations:
        nviol = len(failing) + len(violations)
        p = write_replay(0, dict(property=pid, failed=failed_list[:40], compile=[dict(tu=v['tu'], cfg=v['cfg'], log=v['info']) for v in violations],
                                 verifier='z3 via engine/symex.py', native_executions=searched.get('ran', 0)))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    # ------------------------------------------------------------ second solver (thorough)
    cvc = None
    if dumped: cvc = cvc5_recheck(dumped, d)
    level = 'proof'
    cov = dict(obligations=tot['obligations'], discharged=tot['discharged'], checker_cmd='python3-vt engine/check.py %s --tier %s' % (pid, tier),
               trusted_base=TRUSTED, discharged_by_simplification=tot['trivial'], discharged_by_z3=tot['solver'], solver_queries=tot['queries'],
               solver_seconds=round(tot['qtime'], 2), obligation_kinds=kinds, proof_units=len(work), proof_units_proved=units_proved,
               instructions_executed_symbolically=tot['steps'],
               functions_verified=len(funcs), functions_sample=demangle(sorted(funcs)[:12]),
               callee_contracts_applied=tot['contracts'], callee_contracts=demangle(sorted(contr))[:40],
               configurations=sorted({(j[0] + '/' + j[1]) for j in jobs}), bounded_units=bounded[:50], notes=sorted(set(notes))[:30],
               failed=[dict(unit=x['unit'], config=x['config'], obligations=[(o['kind'], o['label'], o['at']) for o in x['obligations']]) for x in failed_list[:30]])
    if cvc: cov['cvc5_recheck'] = cvc
    if ran: cov['bounded_executions'] = ran
    if searched: cov['native_search_executions'] = searched.get('ran', 0)
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=plan.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print('%s [%s] %s: %d units (%d proved, %d failing, %d undecided), %d obligations, %d discharged (%d by z3), %.1fs' % (
        pid, tier, TITLE[pid], len(work), units_proved, len(failing), len(undec), tot['obligations'], tot['discharged'], tot['solver'], time.time() - t0))
    for x in failed_list[:8]:
        for o in x['obligations'][:3]: print('  failed: %s [%s] %s: %s at %s' % (x['unit'], x['config'], o['kind'], o['label'], o['at']))
    for v in violations[:3]: print('  compile: %s [%s]\n%s' % (v['tu'], v['cfg'], '\n'.join(l[:300] for l in v['info'].split('\n')[:12])))
    for b in bounded[:6]: print('  undecided: ' + b[:400])
    if cvc: print('  cvc5:', cvc)
    for b in ran: print('  bounded: ' + b[:200])
    if not work and not violations and not ran:
        print('no proof unit selected'); return 2
    for l in lines: print(l)
    return 1 if lines else 0

def native_list(b):
    rc, o = sh([b, 'list'], env=ENV)
    out = []
    for l in o.split('\n'):
        f = l.split(' ', 3)
        if len(f) == 4 and f[0].isdigit(): out.append((int(f[0]), f[1].split(','), f[3], int(f[2])))
    return out

def native_units(c, d):
    b, _ = native_build(c['tu'], c['cfg'], d, c['internal'])
    return [(k, p, n, kind, None) for k, p, n, kind in native_list(b)] if b else []

def cvc5_recheck(dumped, d):
    n = ok = bad = unk = 0; t = time.time()
    for kind, label, smt in dumped[:400]:
        if time.time() - t > 900: break
        f = os.path.join(d, 'q.smt2'); open(f, 'w').write('(set-logic QF_BV)\n' + smt if 'set-logic' not in smt else smt)
        rc, o = sh(['cvc5', '--tlimit=60000', f], timeout=90)
        n += 1
        if 'unsat' in o: ok += 1
        elif o.strip().startswith('sat'): bad += 1
        else: unk += 1
    return dict(rechecked=n, agree=ok, disagree=bad, unknown=unk, seconds=round(time.time() - t, 1))

if __name__ == '__main__': main()
