#!/usr/bin/env python3
"""selftest.py [property...]   how much of a recorded behaviour does its trace specification pin down?
Recorded traces of the real code are accepted; then one value of one event of each is changed and the
specification has to reject it. Prints, per kind of event and field, how many changes were rejected.
(Not a check of /repo: it measures the checks.)"""
import copy, json, os, random, re, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import cases as C

NUM = re.compile(r'^-?\d+(\.\d+)?(e-?\d+)?$')


def places(x, path):
    """paths of everything that can be changed"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k != 'ev': yield from places(v, path + [k])
    elif isinstance(x, list):
        if x: yield path + ['drop']
        if len(x) > 1 and x[0] != x[-1]: yield path + ['swap']
        for i, v in enumerate(x[:40]): yield from places(v, path + [i])
    else: yield path


def corrupt(rng, e):
    e = copy.deepcopy(e)
    ps = list(places(e, []))
    if not ps: return None, None
    kinds = {}
    for p in ps: kinds.setdefault('.'.join(str(s) for s in p if not isinstance(s, int)), []).append(p)
    k = rng.choice(sorted(kinds)); p = rng.choice(kinds[k])
    x = e
    for s in p[:-1]: x = x[s]
    if p[-1] in ('drop', 'swap') and isinstance(x, list):
        if p[-1] == 'drop': x.pop(rng.randrange(len(x)))
        else: x[0], x[-1] = x[-1], x[0]
        return e, k
    v = x[p[-1]]
    if isinstance(v, bool): x[p[-1]] = not v
    elif isinstance(v, int): x[p[-1]] = v + rng.choice([1, -1]) if v > 0 else v + 1
    elif isinstance(v, str) and NUM.match(v):
        f = float(v); x[p[-1]] = fmt(rng.choice([f + 1, f * 1.001 + 1e-3, -f - 0.5, f * 2 + 1]))
    elif isinstance(v, str): x[p[-1]] = v + 'x'
    else: return None, None
    return e, k


def main(pids, per=400):
    rng = random.Random(7)
    for pid in pids:
        plan = C.PLANS[pid]
        exe, prog = build(main=plan.get('main', False))
        wd = os.path.join(OUT, 'work', 'selftest-' + pid)
        shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
        streams = plan['streams']('quick', rng, C.selftest_gens(pid) if hasattr(C, 'selftest_gens') else {})
        seen = {}
        for s in streams:
            s.cases = sorted(rng.sample(s.cases, min(len(s.cases), 150)), key=weight)[:100]
            if not s.cases: continue
            res = s.runner(prog, s.cases, os.path.join(wd, 'h')) if s.runner else run_harness(exe, s.cases, os.path.join(wd, 'h'))
            good = [t for h, r in zip(s.cases, res) for t in s.convert(h, r)]
            good = [t for t in good if len(json.dumps(t)) < 60000]
            bad = []
            if not good: continue
            for n in range(per):
                t = copy.deepcopy(rng.choice(good)); i = rng.randrange(len(t['events']))
                e, k = corrupt(rng, t['events'][i])
                if e is None: continue
                t['events'][i] = e; t['_k'] = t['events'][i]['ev'] + ':' + k
                bad.append(t)
            fails, _, _ = validate(s.mod, bad, os.path.join(wd, 't'), {pid}, time.time() + 800)
            f = {x[0] for x in fails}
            for i, t in enumerate(bad):
                a = seen.setdefault((s.mod, t['_k']), [0, 0]); a[1] += 1; a[0] += i in f
        tot = [sum(a[0] for a in seen.values()), sum(a[1] for a in seen.values())]
        print('%s: %d of %d changed traces rejected' % (pid, tot[0], tot[1]))
        for (m, k), (a, b) in sorted(seen.items()):
            if a < b: print('    %-12s %-40s %d/%d' % (m, k, a, b), flush=True)
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == '__main__': main(sys.argv[1:] or sorted(C.PLANS))
