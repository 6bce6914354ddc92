"""Plumbing shared by all checks: building, running the harness, running TLC, reporting."""
from decimal import Decimal
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OUT = os.path.join(VERIF, 'out')
BUILD = os.path.join(OUT, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


def fmt(x):
    """Text of a double exactly as Rust's {:?} writes it."""
    x = float(x)
    if x != x: return 'NaN'
    if x == float('inf'): return 'inf'
    if x == float('-inf'): return '-inf'
    r = repr(x)
    d = r.split('e')[0].lstrip('-').replace('.', '').strip('0')
    if len(d) >= 15 and d[-1] in '02468':      # halfway between two shortest texts Rust takes the larger, Python the even one
        t = Decimal(x).as_tuple()
        ds = ''.join(map(str, t.digits)).rstrip('0')
        if len(ds) == len(d) + 1 and ds[-1] == '5' and ds[:-1] == d:
            k = r.rfind(d[-1], 0, len(r.split('e')[0]))
            u = r[:k] + str(int(d[-1]) + 1) + r[k + 1:]
            if float(u) == x: r = u
    if 'e' in r:
        m, e = r.split('e')
        if m.endswith('.0'): m = m[:-2]
        r = m + 'e' + str(int(e))
    return r


def fv(v): return [fmt(x) for x in v]
def fm(m): return [fv(v) for v in m]


def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.pop('RUSTFLAGS', None)
    e.pop('JAVA_TOOL_OPTIONS', None)
    return e


def tree_hash(roots, exts):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'out', 'data-files'))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()


def HARNESS():
    t = os.path.join(BUILD, 'tgt')
    return [os.path.join(t + '-checked', 'release', 'vh'), os.path.join(t + '-plain', 'plain', 'vh')]


def build(main=False):
    """Build the Java overrides and the harness (and the bundled program) from the current trees."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cls = os.path.join(BUILD, 'cls')
        jh = tree_hash([os.path.join(VERIF, 'java')], ('.java',))
        stamp = os.path.join(cls, 'stamp')
        if not os.path.exists(stamp) or open(stamp).read() != jh:
            shutil.rmtree(cls, ignore_errors=True); os.makedirs(cls)
            src = [os.path.join(VERIF, 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java'))) if f.endswith('.java')]
            r = subprocess.run(['javac', '-nowarn', '-cp', JARS, '-d', cls] + src, capture_output=True, text=True, env=env())
            if r.returncode: raise ToolError('javac failed\n' + r.stderr)
            open(stamp, 'w').write(jh)
        tgt = os.path.join(BUILD, 'tgt')
        rh = tree_hash([REPO, os.path.join(VERIF, 'harness')], ('.rs', '.toml', '.lock'))
        rstamp = os.path.join(BUILD, 'rstamp')
        fresh = os.path.exists(rstamp) and open(rstamp).read() == rh
        h = os.path.join(VERIF, 'harness')
        if not fresh:
            if os.path.exists(rstamp): os.remove(rstamp)
            def one(x):     # the same sources with and without run-time checks of the language: users run both
                t, prof = tgt + '-' + x, ['--release'] if x == 'checked' else ['--profile', x]
                if os.path.isdir(t):   # never trust time stamps of a tree that may have been copied or patched
                    subprocess.run(['cargo', 'clean', '--offline'] + prof + ['--target-dir', t, '-p', 'vh', '-p', 'common',
                                    '-p', 'multi-target-decision-tree', '-p', 'multi-target-grad-boost'], cwd=h, capture_output=True, env=env())
                r = subprocess.run(['cargo', 'build', '--offline', '--locked'] + prof + ['--target-dir', t], cwd=h, capture_output=True, text=True, env=env())
                if r.returncode: raise ToolError('harness build failed\n' + r.stderr[-6000:])
            with cf.ThreadPoolExecutor(2) as ex: list(ex.map(one, ('checked', 'plain')))
            open(rstamp, 'w').write(rh)
        exe = HARNESS()
        if not main: return exe, None
        tm = os.path.join(BUILD, 'tgt-main')
        mstamp = os.path.join(BUILD, 'mstamp')
        if not (os.path.exists(mstamp) and open(mstamp).read() == rh):
            shutil.rmtree(tm, ignore_errors=True)
            if os.path.exists(mstamp): os.remove(mstamp)
            r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', tm, '--bins'], cwd=REPO, capture_output=True, text=True, env=env())
            if r.returncode: raise ToolError('building the program failed\n' + r.stderr[-6000:])
            open(mstamp, 'w').write(rh)
        bins = [os.path.join(tm, 'release', f) for f in os.listdir(os.path.join(tm, 'release'))]
        bins = [b for b in bins if os.path.isfile(b) and os.access(b, os.X_OK) and not b.endswith(('.d', '.so', '.rlib'))]
        if len(bins) != 1: raise ToolError('expected one program, found %s' % bins)
        return exe, bins[0]


# ------------------------------------------------------------------ harness
def _run_shard(exe, cases, wd, k, limit, stall):
    ci, co = os.path.join(wd, 'c%d.nd' % k), os.path.join(wd, 'o%d.nd' % k)
    with open(ci, 'w') as f:
        for c in cases: f.write(json.dumps(c) + '\n')
    if os.path.exists(co): os.remove(co)
    open(co, 'w').close()
    res, t0, deaths = [], time.time(), 0
    while len(res) < len(cases):
        if deaths >= 4:       # enough: the rest of this shard is not run
            return res + [{'id': c['id'], 'outcome': 'skipped'} for c in cases[len(res):]]
        left = limit - (time.time() - t0)
        if left <= 0: raise ToolError('harness time limit')
        p = subprocess.Popen([exe, ci, co, str(len(res))], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env())
        size, last, hang = -1, time.time(), False
        while p.poll() is None:
            time.sleep(0.02)
            s = os.path.getsize(co)
            if s != size: size, last = s, time.time()
            if time.time() - last > stall:
                hang = True; p.kill(); p.wait(); break
            if time.time() - t0 > limit:
                p.kill(); p.wait(); raise ToolError('harness time limit')
        lines = [x for x in open(co).read().split('\n') if x]
        good = []
        for x in lines:
            try: good.append(json.loads(x))
            except ValueError: pass
        if p.returncode == 2: raise ToolError('harness error')
        if len(good) < len(cases):
            if p.returncode == 0 and not hang: raise ToolError('harness stopped early')
            good.append({'id': cases[len(good)]['id'], 'outcome': 'hang' if hang else 'crash', 'message': 'exit %s' % p.returncode})
            deaths += 4 if hang else 1
        with open(co, 'w') as f:
            for g in good: f.write(json.dumps(g) + '\n')
        res = good
    return res


def run_harness(exe, cases, wd, shards=CPUS, limit=600, stall=90):
    os.makedirs(wd, exist_ok=True)
    for i, c in enumerate(cases):
        c['id'] = i + 1
        c.setdefault('_x', i % 2)
    sh = [[] for _ in range(max(1, min(shards, len(cases))))]
    load = [0] * len(sh)
    for c in sorted(cases, key=lambda c: -weight(c)):
        j = load.index(min(load)); sh[j].append(c); load[j] += weight(c) + 200
    parts = [(exe[x], [c for c in s if c['_x'] == x]) for s in sh for x in (0, 1)]
    parts = [p for p in parts if p[1]]
    with cf.ThreadPoolExecutor(max(1, len(sh))) as ex:
        fs = [ex.submit(_run_shard, e, s, wd, k, limit, stall) for k, (e, s) in enumerate(parts)]
        out = {}
        for f in fs:
            for r in f.result(): out[r['id']] = r
    return [out[c['id']] for c in cases]


def weight(c):
    w = c.get('_w')
    if w is None:
        w = len(json.dumps(c)) * max(1, c.get('rounds', 1) or 1) if 'op' in c else len(json.dumps(c))
        c['_w'] = w
    return w


# ------------------------------------------------------------------ TLC
def tlc(mod, cfg, wd, extra=(), envx=None, timeout=800, heap='2g', props=(), stop=None):
    os.makedirs(wd, exist_ok=True)
    cfgp = os.path.join(wd, mod + '.cfg')
    open(cfgp, 'w').write(cfg)
    md = os.path.join(wd, 'md')
    shutil.rmtree(md, ignore_errors=True); os.makedirs(md)
    cmd = ['java', '-XX:+UseSerialGC', '-Xss256m', '-Xmx' + heap, '-Djava.io.tmpdir=' + md,
           '-Dtlc2.overrides.TLCOverrides=RatOverrides:VarSplitOverrides:tlc2.overrides.TLCOverrides', *props,
           '-cp', os.path.join(BUILD, 'cls') + ':' + JARS, 'tlc2.TLC', '-metadir', md, '-noGenerateSpecTE', '-config', cfgp, *extra,
           os.path.join(VERIF, 'spec', mod + '.tla')]
    e = env()
    e.update(envx or {})
    log, end = os.path.join(wd, 'tlc.log'), time.time() + timeout
    with open(log, 'w') as lf: p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=os.path.join(VERIF, 'spec'))
    rc = None
    while rc is None:
        try: rc = p.wait(timeout=0.05 if time.time() < end - timeout + 5 else 0.5)
        except subprocess.TimeoutExpired:
            if time.time() > end or (stop and stop()): p.kill(); p.wait(); rc = -9
    out = open(log, errors='replace').read()
    shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m: m = re.findall(r'([\d,]+) states generated \([^)]*\), ([\d,]+) distinct', out)
    gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    if not m:
        m2 = re.findall(r'Progress: ([\d,]+) states checked', out)   # simulation
        if m2: gen = dist = int(m2[-1].replace(',', ''))
    return {'rc': rc, 'out': out, 'generated': gen, 'distinct': dist}


def read_cfg(name): return open(os.path.join(VERIF, 'spec', name + '.cfg')).read()


def run_model(mod, cfg, wd, expect='ok', extra=('-workers', '2'), timeout=800, heap='4g'):
    r = tlc(mod, cfg, wd, extra, timeout=timeout, heap=heap)
    if expect == 'ok' and r['rc'] != 0:
        raise ToolError('model %s: TLC exit %s\n%s' % (mod, r['rc'], r['out'][-3000:]))
    if expect == 'violation' and r['rc'] not in (12, 13):
        raise ToolError('model %s: the defective variant was not refuted (exit %s)\n%s' % (mod, r['rc'], r['out'][-2000:]))
    return r


def run_trace_shard(mod, cases, wd, props, deadline, seen=None):
    """Returns (failures [(case index, event, clause)], generated, distinct)."""
    cfg = read_cfg(mod) + '\nCONSTANT Props = {%s}\n' % ', '.join('"%s"' % p for p in sorted(props))
    fails, gen, dist = [], 0, 0
    live = list(range(len(cases)))
    # once another shard has found violations, a shard that takes much longer is given up: the verdict is known
    late = lambda: seen and time.time() > seen[0] + 90
    for attempt in range(12):
        if not live: break
        os.makedirs(wd, exist_ok=True)
        tf = os.path.join(wd, 'trace.nd')
        with open(tf, 'w') as f:
            for i in live: f.write(cases[i]['_line'] + '\n')
        left = deadline - time.time()
        if left < 5: raise ToolError('trace validation ran out of time')
        r = tlc(mod, cfg, wd, ('-workers', '1'), {'TRACE': tf}, timeout=left, heap='3g',
                props=('-Dtlc2.tool.queue.IStateQueue=StateDeque',), stop=late)
        gen += r['generated']; dist += r['distinct']
        clause = {}
        for m in re.finditer(r'@@FAIL (\d+) (\d+) ([^"\n]*)', r['out']): clause.setdefault((int(m[1]), int(m[2])), m[3])
        if r['rc'] == 0 and '@@CASES %d' % len(live) in r['out']:
            for m in re.finditer(r'@@STUCK (\d+) (\d+)', r['out']):
                i, ev = int(m[1]), int(m[2])
                fails.append((live[i - 1], ev, clause.get((i, ev), 'no action of the specification explains this event')))
                if seen is not None: seen.append(time.time())
            return fails, gen, dist
        if r['rc'] == -9 and late(): return fails, gen, dist
        # an event the specification cannot even evaluate: attribute it to its case and go on with the others
        if 'is either undefined or not an operator' in r['out'] or 'OutOfMemory' in r['out'] or 'StackOverflow' in r['out'] or r['rc'] == -9:
            raise ToolError('TLC failed on %s (exit %s)\n%s' % (mod, r['rc'], r['out'][-1500:]))
        m = re.findall(r'/\\ l = (\d+)', r['out'])
        ms = re.findall(r'/\\ e = (\d+)', r['out'])
        if not m or 'Parsing or semantic analysis failed' in r['out']:
            raise ToolError('TLC failed on %s (exit %s)\n%s' % (mod, r['rc'], r['out'][-3000:]))
        bad = int(m[-1])
        fails.append((live[bad - 1], int(ms[-1]) if ms else 0, 'the recorded values cannot be evaluated'))
        if seen is not None: seen.append(time.time())
        del live[bad - 1]
    return fails, gen, dist


def validate(mod, tcases, wd, props, deadline, shards=CPUS):
    for c in tcases:
        c['_line'] = json.dumps({k: v for k, v in c.items() if not k.startswith('_')})
    n = max(1, min(shards, len(tcases)))
    sh, load = [[] for _ in range(n)], [0] * n
    for i in sorted(range(len(tcases)), key=lambda i: -tcases[i].get('_cost', len(tcases[i]['_line']))):
        j = load.index(min(load)); sh[j].append(i); load[j] += tcases[i].get('_cost', len(tcases[i]['_line'])) + 300
    fails, gen, dist, seen = [], 0, 0, []
    with cf.ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(run_trace_shard, mod, [tcases[i] for i in s], os.path.join(wd, '%s-%d' % (mod, k)), props, deadline, seen) for k, s in enumerate(sh)]
        err = None
        for k, f in enumerate(fs):
            try: fl, g, d = f.result()
            except ToolError as x: err = x; continue
            gen += g; dist += d
            fails += [(sh[k][i], ev, cl) for i, ev, cl in fl]
    if err and not fails: raise err
    return sorted(fails), gen, dist
