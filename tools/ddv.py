"""Machinery shared by all checks: build the harness, model-check the specifications, record traces from
the real code, validate them against the specifications with TLC, and report."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
OUT = os.path.join(ROOT, 'out')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 4

class ToolError(Exception): pass

class Violation(Exception):
    def __init__(self, what, replay): super().__init__(what); self.what = what; self.replay = replay

def log(*a): print(*a, flush=True)

def env():
    e = dict(os.environ)
    e['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin:' + e.get('PATH', '')
    e.update(CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): e.pop(k, None)
    e['CARGO_TARGET_DIR'] = os.path.join(HARNESS, 'target')
    return e

# Which binary of the harness records which families.
FLOW = 'interp big algo prog iter reduce deep join total upsert dyn col dogs quiet'.split()
STORE = 'trace batcher merge cursor spine'.split()
LAWS = 'lattice diff'.split()
IO = ['capture', 'session']
LIVE = ['server', 'explain']
BIN_OF = dict([(f, 'flow') for f in FLOW] + [(f, 'store') for f in STORE] + [(f, 'laws') for f in LAWS] + [(f, 'io') for f in IO] + [(f, 'live') for f in LIVE])

def build(families=None):
    t = time.time()
    bins = ['--bins'] if families is None else [x for b in sorted({BIN_OF[f] for f in families}) for x in ('--bin', b)]
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'] + bins, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if p.returncode != 0:
        log(p.stdout[-6000:]); raise ToolError('harness does not build')
    return time.time() - t

def binary(family): return os.path.join(HARNESS, 'target', 'debug', BIN_OF[family])

# ------------------------------------------------------------------ TLC

def tlc(module, cfg, tag, traces=None, extra=None, timeout=600, workers=None, heap='4g', simulate=None, envx=None):
    """Runs TLC; returns (status, stats, output). status: ok | violation | error."""
    meta = os.path.join(OUT, 'meta', tag)
    shutil.rmtree(meta, ignore_errors=True); os.makedirs(meta)
    e = env()
    if traces: e['TRACES'] = traces
    if envx: e.update(envx)
    cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers or CORES),
           '-metadir', meta, '-config', cfg] + (extra or []) + [module + '.tla']
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout.decode() if isinstance(x.stdout, bytes) else x.stdout) or ''
        return 'timeout', dict(wall=time.time() - t), out
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    st = dict(wall=time.time() - t, states=0, transitions=0)
    for m in re.finditer(r'([\d,]+) states generated(?:[^,]*?), ([\d,]+) distinct states found', out):
        st['transitions'] = int(m.group(1).replace(',', '')); st['states'] = int(m.group(2).replace(',', ''))
    if 'Model checking completed. No error has been found.' in out and rc == 0: return 'ok', st, out
    if re.search(r'Deadlock reached|is violated|properties were violated|The behavior up to this point is|following error is occurred', out): return 'violation', st, out
    return 'error', st, out

def final_state(out):
    """tid and i of the last state TLC printed."""
    tid = re.findall(r'^(?:/\\ )?tid = (\d+)', out, re.M); i = re.findall(r'^(?:/\\ )?i = (\d+)', out, re.M)
    return (int(tid[-1]) if tid else None, int(i[-1]) if i else None)

def model(module, cfg, timeout=600):
    """Exhaustively checks a model of the specification; a failure here is an error of the specification."""
    st, stats, out = tlc(module, cfg, 'model_%s_%s_%d' % (module, cfg, os.getpid()), timeout=timeout)
    if st != 'ok':
        log(out[-4000:]); raise ToolError('model %s/%s: %s' % (module, cfg, st))
    log('  model %-28s %8d states %9d transitions %5.1fs' % (cfg, stats['states'], stats['transitions'], stats['wall']))
    return dict(module=module, cfg=cfg, states=stats['states'], transitions=stats['transitions'])

def schedules(prop, family, module, cfg, num, seed):
    """Has TLC simulate a specification; returns the file of the schedules it generated."""
    d = os.path.join(OUT, prop); os.makedirs(d, exist_ok=True)
    st, stats, out = tlc(module, cfg, 'sched_%s_%s_%d' % (prop, family, os.getpid()), extra=['-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(seed)], timeout=300, workers=1)
    scheds = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"SCHED (.*)"$', out, re.M)]
    if not scheds or 'Error' in out: log(out[-3000:]); raise ToolError('no schedules from %s/%s' % (module, cfg))
    # TLC also prints the siblings of where each simulation ended: one of each is enough.
    uniq = {}
    for x in scheds: uniq.setdefault(json.dumps(x[:-1]), x)
    uniq = [uniq[k] for k in sorted(uniq)]
    f = os.path.join(d, '%s.sched.json' % family)
    with open(f, 'w') as h: json.dump(uniq, h)
    return f, len(uniq)

# ------------------------------------------------------------------ recording

def record(prop, family, seed, n, extra=None, timeout=400, procs=None):
    """Runs the real code on n cases of a family; returns the list of recorded traces."""
    d = os.path.join(OUT, prop); os.makedirs(d, exist_ok=True)
    procs = max(1, min(procs or CORES, n))
    step = (n + procs - 1) // procs
    jobs = []
    for k in range(0, n, step):
        o = os.path.join(d, '%s.%d.ndjson' % (family, k))
        for f in (o, o + '.cur'):
            if os.path.exists(f): os.remove(f)
        cmd = [binary(family), family, '--seed', str(seed), '--from', str(k), '--n', str(min(step, n - k)), '--out', o] + (extra or [])
        # Into a file: a pipe that nobody reads yet would fill, and stop the process.
        with open(o + '.err', 'wb') as e: jobs.append((o, cmd, subprocess.Popen(cmd, env=env(), stdout=subprocess.DEVNULL, stderr=e, cwd=d)))
    traces, bad = [], None
    deadline = time.time() + timeout
    for o, cmd, p in jobs:
        try: p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); p.returncode = 'timeout'
        with open(o + '.err', 'rb') as e: e.seek(max(0, os.path.getsize(o + '.err') - 4000)); err = e.read().decode(errors='replace')
        os.remove(o + '.err')
        if os.path.exists(o):
            with open(o) as f:
                for l in f:
                    try: traces.append(json.loads(l))
                    except ValueError: pass
        if p.returncode != 0 and bad is None: bad = (o, cmd, p.returncode, err)
    if bad:
        o, cmd, rc, err = bad
        cur = o + '.cur'
        if rc == 2 or not os.path.exists(cur):
            log(err[-3000:]); raise ToolError('harness failed: %s rc=%s' % (' '.join(cmd), rc))
        # The real code crashed or hung in the middle of a case: that is behaviour no specification allows.
        replay = os.path.join(d, '%s-crash.json' % family)
        with open(replay, 'w') as f: json.dump(dict(family=family, command=cmd, exit=str(rc), case=open(cur).read(), stderr=err[-2000:]), f)
        raise Violation('the code under test crashed or did not terminate (%s, %s)' % (family, rc), replay)
    return traces

def validate(prop, family, spec, traces, chunk=800, timeout=600, cfg=None, corrupt=None):
    """Checks recorded traces against a trace specification. Raises Violation on the first one rejected."""
    d = os.path.join(OUT, prop); os.makedirs(d, exist_ok=True)
    tot = dict(states=0, transitions=0)
    for k in range(0, len(traces), chunk):
        part = traces[k:k + chunk]
        f = os.path.join(d, '%s.%d.traces.json' % (family, k))
        with open(f, 'w') as h: json.dump(part, h)
        st, stats, out = tlc(spec, (cfg or spec) + '.cfg', '%s_%s_%d_%d' % (prop, family, k, os.getpid()), traces=f, timeout=timeout)
        if st == 'violation':
            tid, i = final_state(out)
            replay = os.path.join(d, '%s-rejected.json' % family)
            t = part[tid - 1] if tid else None
            with open(replay, 'w') as h: json.dump(dict(family=family, spec=spec, event=i, trace=t), h)
            with open(replay + '.tlc', 'w') as h: h.write(out)
            ev = t['ev'][i - 1] if t and i and i <= len(t['ev']) else None
            why = re.findall(r'Error: (.*)', out)
            raise Violation('%s rejects trace %s/%s at event %s: %s (%s)' % (spec, family, (t or {}).get('id', k + (tid or 0)), i, json.dumps(ev)[:300], '; '.join(why)[:200]), replay)
        if st != 'ok':
            log(out[-4000:]); raise ToolError('TLC on %s/%s: %s' % (spec, family, st))
        os.remove(f)
        tot['states'] += stats['states']; tot['transitions'] += stats['transitions']
    return tot

def canary(prop, family, spec, traces, corrupt, seed, cfg=None):
    """Shows the specification binds: a corrupted copy of a recorded trace must be rejected."""
    import random
    rng = random.Random(seed)
    for t in rng.sample(traces, min(len(traces), 60)):
        c = corrupt(json.loads(json.dumps(t)), rng)
        if c is None: continue
        f = os.path.join(OUT, prop, '%s.canary.json' % family)
        with open(f, 'w') as h: json.dump([c], h)
        st, _, out = tlc(spec, (cfg or spec) + '.cfg', '%s_%s_canary_%d' % (prop, family, os.getpid()), traces=f, timeout=120, workers=1)
        if st == 'ok': raise ToolError('a corrupted %s trace was accepted by %s: the specification does not bind' % (family, spec))
        if st != 'violation': log(out[-3000:]); raise ToolError('canary: TLC %s' % st)
        return True
    return False

# ------------------------------------------------------------------ top level

def sample(t, n=1500):
    s = json.dumps(t)
    return s if len(s) <= n else s[:n] + '...'

def run_check(prop, conf, tier, seed):
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    shutil.rmtree(os.path.join(OUT, prop), ignore_errors=True); os.makedirs(os.path.join(OUT, prop))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, trace_states=0, samples=[], models=[], families=[], canaries_rejected=0)
    viol = None
    try:
        b = build([f['name'] for f in conf['families']]); log('%s: built in %.1fs' % (prop, b))
        for fam in conf['families']:
            n = fam['n'][0] if tier == 'quick' else fam['n'][1]
            ts = time.time()
            extra = fam.get('extra', [])
            if fam.get('sched'):
                f, n = schedules(prop, fam['name'], fam['sched'][0], fam['sched'][1], n, seed)
                extra = extra + ['--scripts', f]
            traces = record(prop, fam['name'], seed, n, extra, timeout=400 if tier == 'quick' else 3000, procs=fam.get('procs'))
            tr = time.time()
            tot = validate(prop, fam['name'], fam['spec'], traces, chunk=fam.get('chunk', 800), timeout=500 if tier == 'quick' else 3000, cfg=fam.get('cfg'))
            cov['traces_validated_against_impl'] += len(traces)
            cov['events_validated'] += sum(len(t['ev']) for t in traces)
            cov['trace_states'] += tot['states']
            cov['families'].append(dict(family=fam['name'], schedules=(fam['sched'][1] if fam.get('sched') else 'generated by the harness'), spec=fam['spec'], traces=len(traces), record_s=round(tr - ts, 1), validate_s=round(time.time() - tr, 1)))
            cov['samples'].append(sample(traces[len(traces) // 2]))
            if fam.get('corrupt'):
                if canary(prop, fam['name'], fam['spec'], traces, fam['corrupt'], seed, cfg=fam.get('cfg')): cov['canaries_rejected'] += 1
            log('  family %-20s %6d traces against %-18s record %5.1fs check %5.1fs' % (fam['name'] + ('/sched' if fam.get('sched') else ''), len(traces), fam['spec'], tr - ts, time.time() - tr))
        for m in conf.get('models', []) + (conf.get('models_thorough', []) if tier == 'thorough' else []):
            r = model(m[0], m[1], timeout=500 if tier == 'quick' else 3000)
            cov['models'].append(r); cov['states'] += r['states']; cov['transitions'] += r['transitions']
    except Violation as v:
        viol = v
    write_evidence(prop, conf, tier, seed, cov, time.time() - t0, viol)
    if viol:
        log('  ' + viol.what)
        log('VIOLATION property=%s replay=%s' % (prop, viol.replay))
        return 1
    log('%s: ok (%.1fs, %d traces, %d model states)' % (prop, time.time() - t0, cov['traces_validated_against_impl'], cov['states']))
    return 0

def write_evidence(prop, conf, tier, seed, cov, wall, viol):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=conf.get('assumptions', []),
                       wall_s=round(wall, 1), violations=1 if viol else 0), f, indent=1)
