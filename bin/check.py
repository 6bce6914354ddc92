#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide one property on the current /repo tree
   check.py --replay <file>                run one recorded case again
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import json, os, random, shutil, sys, time, traceback
import concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import cases as C


def run_streams(exe, prog, streams, wd, props, deadline):
    """run the real code, convert to traces, validate; returns (trace cases, failures, generated, distinct)"""
    limit = max(20, deadline - time.time() - 10)
    plain = [(s, c) for s in streams if not s.runner for c in s.cases]
    res = run_harness(exe, [c for _, c in plain], os.path.join(wd, 'h'), limit=limit, stall=75) if plain else []
    done = [(s, h, r) for (s, h), r in zip(plain, res)]
    for s in streams:
        if s.runner: done += [(s, h, r) for h, r in zip(s.cases, s.runner(prog, s.cases, os.path.join(wd, 'h-' + s.name)))]
    tc = []
    for s, h, r in done:
        for t in s.convert(h, r):
            t['_h'], t['_s'] = h, s
            tc.append(t)
    fails, gen, dist = [], 0, 0
    for mod in sorted({s.mod for s in streams}):
        ix = [i for i, t in enumerate(tc) if t['_s'].mod == mod]
        if not ix: continue
        f, g, d = validate(mod, [tc[i] for i in ix], os.path.join(wd, 't'), props, deadline)
        fails += [(ix[i], ev, cl) for i, ev, cl in f]; gen += g; dist += d
    return tc, sorted(fails), gen, dist


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    deadline = t0 + (840 if tier == 'quick' else 6 * 3600)
    wd = os.path.join(OUT, 'work', '%s-%s-%d' % (pid, tier, os.getpid()))
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    rng = random.Random('%d-%s-%s' % (seed, pid, tier))
    plan = C.PLANS[pid]
    exe, prog = build(main=plan.get('main', False))
    tb = time.time()
    models, gens = [], {}
    def model(m):
        r = run_model(m['mod'], m.get('cfg') or read_cfg(m['mod']), os.path.join(wd, 'm-%d' % m['n']), m.get('expect', 'ok'),
                      m.get('extra', ('-workers', '2')), timeout=max(30, deadline - time.time()))
        return m, r
    ml = plan['models'](tier, seed) if 'models' in plan else []
    for n, m in enumerate(ml): m['n'] = n
    with cf.ThreadPoolExecutor(4) as ex:
        for m, r in ex.map(model, ml):
            models.append({'model': m['mod'], 'what': m.get('what', ''), 'expect': m.get('expect', 'ok'),
                           'states': r['distinct'], 'transitions': r['generated']})
            if m.get('emit'):
                gens.setdefault(m['emit'], []).extend(parse_gen(r['out']))
    tm = time.time()
    streams = plan['streams'](tier, rng, gens)
    states = sum(m['states'] for m in models); trans = sum(m['transitions'] for m in models)
    ntr, nev, samples, bad, info = 0, 0, [], [], []
    tc, fails, gen, dist = run_streams(exe, prog, streams, wd, {pid}, deadline)
    states += dist; trans += gen
    ntr = len(tc) - len({f[0] for f in fails})
    for s in streams:
        ts = [t for t in tc if t['_s'] is s]
        if not ts: continue
        kinds = {}
        for t in ts:
            for e in t['events']: kinds[e['ev']] = kinds.get(e['ev'], 0) + 1
        info.append({'stream': s.name, 'spec': s.mod, 'traces': len(ts), 'events': kinds,
                     'rejected': len({f[0] for f in fails if tc[f[0]]['_s'] is s})})
        nev += sum(kinds.values())
        samples.append({'stream': s.name, 'case': rng.choice(ts)['_line'][:1200]})
    for i, ev, cl in fails: bad.append((tc[i]['_s'], tc[i], ev, cl))
    for i, (s, t, ev, cl) in enumerate(bad[:20]):
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        rp = os.path.join(OUT, 'replay', '%s-%s-%d.json' % (pid, s.name, i))
        json.dump({'property': pid, 'stream': s.name, 'spec': s.mod, 'failed_at_event': ev, 'clause': cl,
                   'case': {k: v for k, v in t['_h'].items() if k != '_w'},
                   'event': t['events'][ev - 1] if 0 < ev <= len(t['events']) else None,
                   'trace': json.loads(t['_line'])}, open(rp, 'w'))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        e = json.dumps(t['events'][ev - 1])[:300] if 0 < ev <= len(t['events']) else ''
        print('  stream %s, event %d: %s  %s' % (s.name, ev, cl, e))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': trans, 'traces_validated_against_impl': ntr,
                       'events_validated': nev, 'samples': samples, 'models': models, 'streams': info},
          'assumptions': plan.get('assumptions', C.ASSUME),
          'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d model states, %d traces (%d events) validated, %d rejected; build %.0fs models %.0fs total %.0fs' %
          (pid, tier, states, ntr, nev, len(bad), tb - t0, tm - tb, time.time() - t0))
    for x in info: print('   ', x)
    if os.environ.get('VKEEP') is None: shutil.rmtree(wd, ignore_errors=True)
    return 1 if bad else 0


def replay(path):
    d = json.load(open(path))
    pid = d['property']
    exe, prog = build(main=C.PLANS[pid].get('main', False))
    s = C.find_stream(pid, d['stream'])
    s.cases = [d['case']]
    wd = os.path.join(OUT, 'work', 'replay-%d' % os.getpid())
    tc, fails, _, _ = run_streams(exe, prog, [s], wd, {pid}, time.time() + 800)
    for i, ev, cl in fails:
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  event %d: %s' % (ev, cl), json.dumps(tc[i]['events'][ev - 1])[:2000] if ev else '')
    shutil.rmtree(wd, ignore_errors=True)
    return 1 if fails else 0


def parse_gen(out):
    r = []
    for line in out.split('\n'):
        k = line.find('@@GEN ')
        if k >= 0:
            t = line[k + 6:].rstrip()
            if t.endswith('"'): t = t[:-1]
            r.append(json.loads(t.replace('\\"', '"')))
    seen, o = set(), []
    for x in r:
        k = json.dumps(x, sort_keys=True)
        if k not in seen: seen.add(k); o.append((k, x))
    return [x for _, x in sorted(o)]


if __name__ == '__main__':
    try:
        if sys.argv[1] == '--replay': sys.exit(replay(sys.argv[2]))
        if sys.argv[2:] not in ([], ['quick'], ['thorough']): sys.exit(__doc__)
        sys.exit(run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')))
    except ToolError as x:
        print('CHECK-ERROR', x); sys.exit(2)
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
