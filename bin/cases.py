"""What every property's check runs: models, generated cases, and how recorded results become traces."""
import json, math, os, random, shutil, subprocess
import concurrent.futures as cf
from vlib import *
import gen as G

ASSUME = ['TLC and the exact-arithmetic module overrides (checked against the pair definitions by RatLaws)',
          'the harness reports inputs and results of the public API faithfully']


class Stream:
    def __init__(self, name, mod, cases, conv, runner=None, stall=90):
        self.name, self.mod, self.cases, self.conv, self.runner, self.stall = name, mod, cases, conv, runner, stall

    def convert(self, h, r):
        if r['outcome'] == 'skipped': return []
        if r['outcome'] != 'ok' and not getattr(self.conv, 'wants_failures', False):
            t = base(h)
            t['events'] = [{'ev': r['outcome'], 'message': r.get('message', '')}]
            return [t]
        x = self.conv(h, r)
        return x if isinstance(x, list) else [x]


def base(h):
    """inputs every trace case carries"""
    return {'rows': h.get('rows', []), 'labels': h.get('labels', []), 'k': h.get('k', len(h['labels'][0]) if h.get('labels') else 0),
            'kind': h.get('kind', ''), 'max': h.get('max', 0)}


def failures_too(f):
    f.wants_failures = True
    return f


def mono(rng, m):
    """a strictly increasing map of 0..m-1 to doubles"""
    st = rng.choice(['int', 'real', 'adj', 'wide'])
    if st == 'int': b = rng.randint(-3, 3); return [float(b + i) for i in range(m)]
    if st == 'real': return sorted(rng.uniform(-5, 5) + 11 * i for i in range(m))
    if st == 'adj': b = rng.choice([1.0, 0.1, -2.5, 1e9]); return [G.nxt(b, i) for i in range(m)]
    return [-1e300, -1.0, 0.0, 5e-324, 3.5, 1e300][:m] if m <= 6 else [float(i) for i in range(m)]


def from_model(rng, prob):
    """a problem of Sweep / MCTree (ranks, small integer labels) as a concrete data set"""
    rk, y = prob['rk'], prob['y']
    cols = []
    for c in rk:
        m = mono(rng, max(c) + 1); cols.append([m[v] for v in c])
    sc = rng.choice([1.0, 1.0, 0.5, 0.1, -1.0])
    n = len(y)
    return fm([[cols[j][i] for j in range(len(cols))] for i in range(n)]), fm([[v * sc for v in row] for row in y])


def pick(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def load_csv(path, header=True):
    import csv as _csv
    p = os.path.join(REPO, 'common/data-files', path)
    with open(p) as f:
        r = list(_csv.reader(f))
    r = [x for x in (r[1:] if header else r) if x]
    return [[float(v) for v in x] for x in r]


def repo_classes(name, limit, rng):
    """(rows, one-hot labels, K) of a bundled single-file data set"""
    try: d = load_csv(name)
    except OSError: return None
    K = {'iris.csv': 3, 'digits_train.csv': 10, 'wine_train.csv': 4}.get(name, 3)
    rng.shuffle(d); d = d[:limit]
    return [x[:-1] for x in d], [G.onehot(K, int(x[-1])) for x in d], K


# ------------------------------------------------------------------ C01, C02: the split search
def conv_split(h, r):
    t = base(h)
    t['events'] = [{'ev': 'split', 'gain': r['gain'], 'col': r['col'], 'thr': r['thr']}]
    return t


def split_case(rows, L, threads=4): return {'op': 'split', 'rows': fm(rows), 'labels': fm(L), 'k': len(L[0]), 'threads': threads}


def split_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('sweep', []), 1500 if q else 20000):
        rows, L = from_model(rng, p)
        a.append({'op': 'split', 'rows': rows, 'labels': L, 'k': len(L[0]), 'threads': rng.choice([1, 4])})
    b = []
    sizes = [1, 2, 3, 4, 5, 6, 8, 12, 17, 25, 40, 64]
    for i in range(1600 if q else 20000):
        n, Cn, K = G.dims(rng, [rng.choice(sizes), rng.choice([1, 1, 2, 3, 5, 9]), rng.choice([1, 1, 2, 3, 4, 7])])
        rows, L = G.data(rng, n, Cn, K) if i % 5 or n < 4 else G.near_tie(rng, n, Cn, K) if i % 10 else G.balanced(rng, n, Cn, K)
        b.append(split_case(rows, L, rng.choice([1, 2, 4, 8])))
    c = []
    for (n, Cn, K) in ([(60, 60, 12), (400, 4, 3), (1000, 3, 2), (30, 10, 40), (4100, 1, 1), (8, 3, 500)] if q else
                       [(60, 60, 12), (400, 40, 3), (3000, 5, 2), (5000, 3, 1), (30, 10, 100), (200, 257, 5), (70000, 2, 1), (66000, 1, 2), (20, 2, 5000)] * 3):
        rows, L = G.data(rng, n, Cn, K, feats=['smallint', 'ties', 'real', 'const', 'copy', 'binary'], lab=rng.choice(['real', 'smallint', 'step']), dup=False)
        c.append(split_case(rows, L))
    for (n, Cn, K) in [(3, 300, 1), (4, 257, 2), (5, 1030, 1), (3, 70000, 1)] * (1 if q else 3):      # one informative column among constant ones
        for at in (Cn - 1, 0 if Cn < 1000 else rng.randrange(256, Cn)):
            L = G.labels(rng, n, K, 'real', [[0.0]] * n)
            rows = [[1.5] * Cn for _ in range(n)]
            for i in range(n): rows[i][at] = float(rng.choice([i, -i, i * i]) if Cn < 2000 else i)
            c.append(split_case(rows, L))
    for i in range(1 if q else 4):       # more rows than a 16-bit counter holds
        n, m = 67000 + rng.randrange(4000), rng.choice([30, 60, 200])
        rows = [[float(rng.randrange(m))] for _ in range(n)]; cut = rng.choice([0.3, 0.7, 0.97, 0.985]) * m
        c.append(split_case(rows, [[float((r[0] >= cut) * 3 + rng.randint(0, 1))] for r in rows]))
    for i in range(12 if q else 150):      # noisy columns and one that decides everything, anywhere
        n, Cn, K = rng.choice([4, 6, 9, 20]), G.edge(rng, 8, 300), rng.choice([1, 2, 3])
        rows, _ = G.data(rng, n, Cn, 1, feats=[rng.choice(['smallint', 'binary', 'real', 'ties'])], lab='same', dup=False)
        cls = [rng.randint(0, 1) for _ in range(n)]; at = rng.choice([Cn - 1, rng.randrange(Cn)])
        for i_ in range(n): rows[i_][at] = float(cls[i_]) if rng.random() < 0.9 else rng.choice([0.0, 1.0])
        c.append(split_case(rows, [[float(x)] * K if K != 2 else G.onehot(2, x) for x in cls]))
    for i in range(2 if q else 20): c.append(split_case(*G.data(rng, G.edge(rng, 500, 20000), rng.choice([1, 2]), rng.choice([1, 2]), feats=G.PLAIN, dup=False)))
    for name, lim in (('iris.csv', 150), ('wine_train.csv', 150), ('digits_train.csv', 60 if q else 400)):
        d = repo_classes(name, lim, rng)
        if d: c.append(split_case(d[0], d[1]))
    # the search on pre-sorted columns is reached through the trees grown with it
    e = []
    for p in pick(rng, gens.get('sweep', []), 250 if q else 5000):
        rows, L = from_model(rng, p)
        e.append(tree_case(rng, unfm(rows), unfm(L), 'sorted', rng.choice([1, 1, 2, 9]), nq=0))
    for i in range(500 if q else 8000):
        n, Cn, K = G.dims(rng, [rng.choice([2, 3, 4, 6, 9, 14, 20, 30]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=2000)
        rows, L = G.data(rng, n, Cn, K) if i % 5 or n < 4 else G.near_tie(rng, n, Cn, K) if i % 10 else G.balanced(rng, n, Cn, K)
        e.append(tree_case(rng, rows, L, 'sorted', rng.choice([1, 1, 2, 3, n]), nq=0))
    for (n, Cn, K) in [(400, 4, 3), (1000, 3, 2), (8, 300, 2), (3000, 1, 1)] * (1 if q else 6):
        rows, L = G.data(rng, n, Cn, K, feats=['smallint', 'ties', 'real', 'const', 'copy', 'binary'], lab=rng.choice(['real', 'smallint', 'step']), dup=False)
        e.append(tree_case(rng, rows, L, 'sorted', 1, nq=0))
    return [Stream('model-problems', 'SplitTrace', a, conv_split), Stream('random', 'SplitTrace', b, conv_split), Stream('large', 'SplitTrace', c, conv_split),
            Stream('pre-sorted', 'TreeTrace', e, conv_tree)]


def sweep_models(tier, seed):
    emit = 'CONSTANTS NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} TrackPrevious = %s\nSPECIFICATION Spec\nINVARIANTS ColumnExact Optimal Honest RightSide%s\n%sCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='Sweep', cfg=emit % (3, 2, 1, '0, 1', '0, 1, 3', 'TRUE', ' EmitCase', 'PROPERTY Terminates\n'), emit='sweep', what='3 rows, 2 columns, values 0..1, labels {0,1,3}'),
         dict(mod='Sweep', cfg=emit % (4, 1, 1, '0, 1, 2', '0, 1, 3', 'TRUE', ' EmitCase', ''), emit='sweep', what='4 rows, 1 column with ties, labels {0,1,3}'),
         dict(mod='Sweep', cfg=emit % (3, 1, 2, '0, 1', '0, 1, 2', 'TRUE', ' EmitCase', ''), emit='sweep', what='3 rows, 1 column, 2 targets'),
         dict(mod='Sweep', cfg=emit % (4, 1, 1, '0, 1', '0, 1', 'FALSE', '', ''), expect='violation', what='defect variant: previous value never advances'),
         dict(mod='RatLaws', what='exact-arithmetic overrides against their definitions')]
    if tier != 'quick':
        m.append(dict(mod='Sweep', cfg=emit % (4, 2, 1, '0, 1, 2', '0, 1', 'TRUE', ' EmitCase', ''), emit='sweep', what='4 rows, 2 columns, values 0..2, labels 0..1', extra=('-workers', '8')))
        m.append(dict(mod='Sweep', cfg=emit % (5, 1, 1, '0, 1, 2', '0, 1, 3', 'TRUE', ' EmitCase', ''), emit='sweep', what='5 rows, 1 column', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C05, C06: trees
def conv_tree(h, r):
    t = base(h)
    ev = [dict(n, ev='node') for n in r['nodes']]
    for i, (q, a, b) in enumerate(zip(h['queries'], r['look'], r['look2'])):
        ev.append({'ev': 'look', 'q': q, 'row': h['_rowof'][i], 'id': a, 'id2': b})
    ev.append({'ev': 'end'})
    t['events'] = ev
    return t


KINDS = ['row', 'sorted', 'gb', 'amg']


def depth_limit(rng, n=0):
    if n > 150: return rng.choice([1, 2, 3, 5])
    return rng.choice([0, 1, 1, 2, 3, 4, 6, 12, 40]) if rng.random() < 0.9 else rng.choice([64, 100, 128, 255, 256, 257, 1000, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1])


def chain(n, K=2):
    """data whose tree is as deep as there are rows"""
    return [[float(i)] for i in range(n)], [[3.0 ** i] + [1.0] * (K - 1) for i in range(n)]


def tree_case(rng, rows, L, kind, maxl, nq=8, mt=None, threads=None):
    """rows, L: Python floats"""
    n = len(rows)
    idx = list(range(n)) if n <= 12 else rng.sample(range(n), 12)
    qs = [rows[i] for i in idx]; ro = [i + 1 for i in idx]
    thrs = [(j, rows[i][j]) for i in rng.sample(range(n), min(n, 6)) for j in range(min(len(rows[0]), 6))]
    extra = G.queries(rng, rows, thrs, nq, extreme=True, nan=True)
    qs = qs + extra; ro = ro + [0] * len(extra)
    lof = 'reg'
    if kind == 'amg' or (kind == 'gb' and rng.random() < 0.4): lof = 'mc'
    return {'op': 'tree', 'kind': kind, 'rows': fm(rows), 'labels': fm(L), 'k': len(L[0]), 'max': maxl, 'queries': fm(qs), '_rowof': ro,
            'mt': rng.random() < 0.4 if mt is None else mt, 'threads': threads or rng.choice([1, 2, 4, 8]), 'lof': lof}


def unfm(m): return [[float(x) for x in r] for r in m]


def tree_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('tree', []), 300 if q else 4000):
        rows, L = from_model(rng, p)
        kind = rng.choice(KINDS); 
        if kind == 'amg' and len(L[0]) < 2: kind = 'gb'
        a.append(tree_case(rng, unfm(rows), unfm(L), kind, p.get('max', rng.choice([1, 2, 9])), nq=3))
    b = []
    for i in range(900 if q else 12000):
        n, Cn, K = G.dims(rng, [rng.choice([1, 2, 3, 4, 6, 9, 14, 20, 30]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=3000)
        kind = KINDS[i % 4]
        if kind == 'amg': K = max(2, K)
        rows, L = G.data(rng, n, Cn, K) if rng.random() < 0.9 or n < 4 else G.balanced(rng, n, Cn, K)
        b.append(tree_case(rng, rows, L, kind, depth_limit(rng, n)))
    for i in range(360 if q else 4000):
        rows, L = G.mirror(rng, rng.choice([4, 6, 8, 10, 16, 24]), rng.choice([1, 1, 2]), rng.choice([1, 2, 3]))
        b.append(tree_case(rng, rows, L, KINDS[i % 4] if len(L[0]) > 1 else rng.choice(['row', 'sorted', 'gb']), rng.choice([1, 1, 1, 2])))
    c = []
    for (n, Cn, K, mx, ft, lb) in ([(40, 1, 1, 60, 'perm', 'alt'), (150, 3, 2, 12, None, None), (60, 1, 2, 200, 'sorted', 'real'), (300, 4, 3, 8, None, 'real'), (4, 300, 1, 3, 'binary', 'real')]
                                   * (1 if q else 12)):
        for kind in KINDS:
            rows, L = G.data(rng, n, Cn, max(K, 2), feats=[ft] if ft else G.PLAIN, lab=lb)
            c.append(tree_case(rng, rows, L, kind, mx, nq=12))
    for kind in KINDS:
        for n, Cn, mx in [(G.edge(rng, 1000, 5000), 2, rng.choice([1, 2])), (3, G.edge(rng, 1000, 5000), 2)] * (1 if q else 6):
            rows, L = G.data(rng, n, Cn, 2, feats=G.PLAIN)
            c.append(tree_case(rng, rows, L, kind, mx, nq=12))
    for kind in KINDS:          # more rows than a 16-bit counter holds
        for mx in (1,) if q else (1, 2):
            m = rng.choice([30, 60]); rows = [[float(rng.randrange(m))] for _ in range(67000 + rng.randrange(3000))]; cut = rng.choice([0.4, 0.98]) * m
            L = [[float(r[0] >= cut) + rng.randint(0, 1), 0.5] for r in rows]
            c.append(tree_case(rng, rows, L, kind, mx, nq=3))
    for kind in KINDS:          # many rows, both sides equally large
        rows, L = G.halves(rng, G.edge(rng, 200, 1100), 2)
        c.append(tree_case(rng, rows, L, kind, rng.choice([1, 2]), nq=6, mt=True))
    # a chain: the tree is as deep as there are rows
    for kind in KINDS:
        for n in (34, 135) if q else (90, 135, 280):
            rows, L = chain(n)
            c.append(tree_case(rng, rows, L, kind, rng.choice([n - 3, n + 5, n // 2, 100000]) if n < 100 else rng.choice([n + 5, 100000])))
    for name, lim in (('iris.csv', 150), ('wine_train.csv', 120 if q else 1000), ('digits_train.csv', 80 if q else 400)):
        d = repo_classes(name, lim, rng)
        if d:
            for kind in KINDS: c.append(tree_case(rng, d[0], d[1], kind, rng.choice([3, 12])))
    return [Stream('model-problems', 'TreeTrace', a, conv_tree), Stream('random', 'TreeTrace', b, conv_tree), Stream('large', 'TreeTrace', c, conv_tree)]


TREECFG = 'CONSTANTS NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} MaxLv = {%s} NT = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS NothingLostOrMixed NoEmptyNode DepthBounded LookupAgrees Confluent Complete%s\n%sCHECK_DEADLOCK FALSE\n'


def tree_models(tier, seed):
    m = [dict(mod='MCTree', cfg=TREECFG % (3, 1, 1, '0, 1, 2', '0, 1', '0, 1, 3', 2, 'none', ' EmitCase', 'PROPERTY GrowthEnds\n'), emit='tree', what='3 rows, 1 column, limits 0,1,3, 2 workers'),
         dict(mod='MCTree', cfg=TREECFG % (3, 2, 1, '0, 1', '0, 1', '1, 2', 2, 'none', ' EmitCase', ''), emit='tree', what='3 rows, 2 columns, 2 workers')]
    m += [dict(mod='MCTree', cfg=TREECFG % (3, 1, 1, '0, 1, 2', '0, 1, 3', '1, 3', 2, v, '', ''), expect='violation', what='defect variant: ' + v) for v in ('swap', 'strict', 'level', 'forget')]      # 'share' needs 4 rows: MCSched refutes it
    if tier != 'quick':
        m.append(dict(mod='MCTree', cfg=TREECFG % (4, 1, 1, '0, 1, 2, 3', '0, 1', '1, 2, 4', 3, 'none', ' EmitCase', ''), emit='tree', what='4 rows, 1 column, 3 workers', extra=('-workers', '8')))
        m.append(dict(mod='MCTree', cfg=TREECFG % (4, 2, 1, '0, 1', '0, 1', '3', 2, 'none', ' EmitCase', ''), emit='tree', what='4 rows, 2 columns', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C03, C04: dividing data
def conv_divide(h, r):
    t = base(h); t['nc'] = len(h['rows'][0])
    t['events'] = [dict(x, ev='divide', col=s['col'], thr=s['thr'], side=s['side']) for s, x in zip(h['steps'], r['res'])]
    return t


def conv_chain(h, r):
    t = base(h); t['nc'] = len(h['rows'][0])
    t['events'] = [dict(r['start'], ev='start')] + [dict(x, ev='sdivide', col=s['col'], thr=s['thr'], side=s['side']) for s, x in zip(h['steps'], r['res'])]
    return t


def conv_sorter(h, r):
    return {'rows': [[v] for v in h['col']], 'labels': [], 'nc': 1, 'events': [dict(ev='sorter', vals=r['vals'], idx=r['idx'])]}


def div_steps(rng, rows, count):
    """rows: floats. Thresholds at / next to observed values of the current group, outside them, infinite."""
    g = list(range(len(rows))); out = []
    for _ in range(count):
        c = rng.randrange(len(rows[0]))
        vs = sorted(set(rows[i][c] for i in g)) or [0.0]
        av = sorted(set(r[c] for r in rows))
        u = rng.random()
        if u < 0.45: t = rng.choice(vs)
        elif u < 0.6: v = rng.choice(vs); t = G.nxt(v, rng.choice([-1, 1])) if abs(v) < 1e308 else v
        elif u < 0.7: t = rng.choice(av)
        elif u < 0.78: t = vs[-1] + 1 if abs(vs[-1]) < 1e300 else 1.7e308
        elif u < 0.86: t = vs[0] - 1 if abs(vs[0]) < 1e300 else -1.7e308
        else: t = rng.choice([G.INF, -G.INF, 0.0, -0.0, 1e-308])
        hi = [i for i in g if rows[i][c] >= t]; lo = [i for i in g if not rows[i][c] >= t]
        side = rng.choice('TF')
        if rng.random() < 0.6: side = 'T' if len(hi) >= len(lo) else 'F'
        g = hi if side == 'T' else lo
        out.append({'col': c + 1, 'thr': fmt(t), 'side': side})
    return out


def part_cases(tier, rng, gens, op):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('part', []), 1800 if q else 20000):
        rk = p['rk']; n = len(rk[0])
        maps = [mono(rng, 4) for _ in rk]
        rows = [[maps[j][rk[j][i]] for j in range(len(rk))] for i in range(n)]
        L = [[float(i + 1), 0.5] for i in range(n)]
        a.append({'op': op, 'rows': fm(rows), 'labels': fm(L), 'steps': [{'col': s['c'], 'thr': fmt(maps[s['c'] - 1][s['t']]), 'side': s['side']} for s in p['steps']],
                  'threads': rng.choice([1, 4])})
    b = []
    for i in range(1500 if q else 16000):
        n, Cn, K = G.dims(rng, [rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 16, 25, 40] + ([120] if i % 10 == 0 else [])), rng.choice([1, 2, 3, 4, 6]), rng.choice([1, 2, 3])], budget=3000)
        rows, L = G.data(rng, n, Cn, K)
        if rng.random() < 0.7: L = [[float(i_)] + [rng.uniform(0, 1) for _ in range(K - 1)] for i_ in range(n)]      # distinguishable rows
        if rng.random() < 0.1:
            for r_ in rows: r_[rng.randrange(Cn)] = rng.choice([G.INF, -G.INF, 0.0])
        if op == 'partition' and rng.random() < 0.15:      # no number is >= NaN: such rows belong to the false side
            for r_ in rows:
                if rng.random() < 0.3: r_[rng.randrange(Cn)] = float('nan')
        b.append({'op': op, 'rows': fm(rows), 'labels': fm(L), 'steps': div_steps(rng, rows, rng.choice([1, 2, 3, 5, 8])), 'threads': rng.choice([1, 2, 4, 8])})
    c = []
    for n, Cn in ([(1500, 3), (3, 400), (2, 3000), (600, 20), (G.edge(rng, 2000, 10000), 2), (2, G.edge(rng, 4096, 10000))] * (2 if q else 8)) + [(66000 + rng.randrange(5000), 1)] + ([] if q else [(70000, 2), (66000, 1), (3, 70000)]):
        rows, L = G.data(rng, n, Cn, 2, feats=['smallint', 'ties', 'real', 'const', 'rev', 'perm'])
        c.append({'op': op, 'rows': fm(rows), 'labels': fm(L), 'steps': div_steps(rng, rows, 3), 'threads': rng.choice([1, 4, 8])})
    return a, b, c


def part_streams(tier, rng, gens):
    a, b, c = part_cases(tier, rng, gens, 'partition')
    return [Stream('model-behaviours', 'PartTrace', a, conv_divide), Stream('random', 'PartTrace', b, conv_divide), Stream('large', 'PartTrace', c, conv_divide)]


def chain_streams(tier, rng, gens):
    a, b, c = part_cases(tier, rng, gens, 'chain')
    d = []
    for i in range(150 if tier == 'quick' else 2000):
        n = rng.choice([1, 2, 3, 5, 9, 30, 200]) if i % 15 else G.edge(rng, 300, 10000)
        d.append({'op': 'sorter', 'col': fv(G.column(rng, n, rng.choice(G.FEATS), []))})
    return [Stream('model-behaviours', 'PartTrace', a, conv_chain), Stream('random', 'PartTrace', b, conv_chain), Stream('large', 'PartTrace', c, conv_chain),
            Stream('sorter', 'PartTrace', d, conv_sorter)]


def part_models(tier, seed):
    cf = 'CONSTANTS NR = %d NC = %d Vals = {%s} Thrs = {%s} MaxSteps = %d WhenNoneReaches = "%s"\n%s\nINVARIANT SameGroups%s\nCHECK_DEADLOCK FALSE\n'
    mc = 'INIT MCInit\nNEXT MCNext'
    m = [dict(mod='MCPart', cfg=cf % (3, 1, '0, 1, 2', '0, 1, 2, 3', 2, 'end', mc, ' EmitCase'), emit='part', what='3 rows, 1 column, all pairs of divisions'),
         dict(mod='IndexPartition', cfg=cf % (3, 2, '0, 1, 2', '0, 1, 2, 3', 3, 'end', 'SPECIFICATION Spec', ''), what='3 rows, 2 columns, 3 divisions'),
         dict(mod='IndexPartition', cfg=cf % (3, 1, '0, 1', '0, 1, 2', 2, 'start', 'SPECIFICATION Spec', ''), expect='violation', what='defect variant: no value reaches the threshold')]
    if tier != 'quick':
        m.append(dict(mod='MCPart', cfg=cf % (2, 2, '0, 1', '0, 1, 2', 3, 'end', mc, ' EmitCase'), emit='part', what='2 rows, 2 columns, 3 divisions', extra=('-workers', '8')))
        m.append(dict(mod='IndexPartition', cfg=cf % (4, 2, '0, 1, 2', '0, 1, 2, 3', 3, 'end', 'SPECIFICATION Spec', ''), what='4 rows, 2 columns, 3 divisions', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C09, C10: answers and scores of trees
def conv_score(h, r):
    t = base(h); t['qrows'], t['qlabels'] = h['qrows'], h['qlabels']
    ev = [dict(n, ev='node') for n in r['nodes']] + [dict(n, ev='snode') for n in r['snodes']]
    if h['_cls']:
        ev += [{'ev': 'class', 'q': q, 'label': lb, 'pred': p} for q, lb, p in zip(h['qrows'], h['qlabels'], r['pred'])]
        ev.append({'ev': 'acc', 'v': r['acc']})
    ev += [{'ev': 'mse', 'v': r['mse']}, {'ev': 'smse', 'v': r['smse']}]
    if r['depths']: ev += [{'ev': 'depths', 'v': r['depths']}, {'ev': 'depths', 'v': r['sdepths']}]
    t['events'] = ev
    for k in ('rows',): t[k] = []
    return t


def score_case(rng, rows, L, maxl, Q, QL, cls, levels=(), threads=4):
    return {'op': 'score', 'rows': fm(rows), 'labels': fm(L), 'k': len(L[0]), 'max': maxl, 'qrows': fm(Q), 'qlabels': fm(QL), '_cls': cls,
            'levels': list(levels), 'mt': rng.random() < 0.3, 'threads': threads}


def score_streams(tier, rng, gens, cls):
    q = tier == 'quick'
    a = []
    for lf, ts in pick(rng, gens.get('vote', []), 500 if q else 4000):
        lf = [int(x) for x in lf.strip('<>').split(',')]; ts = [int(x) for x in ts.strip('<>').split(',')]
        rows = [[rng.choice([0.0, 1.0])] for _ in lf]
        a.append(score_case(rng, rows, [G.onehot(3, x - 1) for x in lf], 0, [[0.5]] * len(ts), [G.onehot(3, x - 1) for x in ts], True))
    b = []
    for i in range(1200 if q else 14000):
        n, Cn, K, m = G.dims(rng, [rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 15, 24, 40]), rng.choice([1, 2, 3]), rng.choice([2, 2, 3, 4, 6]) if cls else rng.choice([1, 1, 2, 3, 5]),
                                   rng.choice([1, 2, 3, 5, 7, 10])], p=0.2, budget=12000)
        if cls:
            if rng.random() < 0.1: K = rng.choice([12, 20, 40])
            rows, L = G.classes(rng, n, Cn, K)
        else:
            rows, L = G.data(rng, n, Cn, K)
        Q = G.queries(rng, rows, [(j, rng.choice(rows)[j]) for j in range(Cn)], m, extreme=True, nan=True)
        if rng.random() < 0.3: Q, QL = rows, L
        elif cls: QL = [odd_label(rng, G.onehot(K, rng.randrange(K)) if rng.random() < 0.5 else list(rng.choice(L)), 0.1) for _ in Q]
        else: QL = G.labels(rng, m, K, rng.choice(['real', 'smallint', 'tiny', 'offset']), Q)
        lv = sorted(rng.sample(range(0, 9), 3)) if not cls else []
        b.append(score_case(rng, rows, L, rng.choice([0, 0, 1, 1, 2, 3, 8]) if n <= 150 else rng.choice([0, 1, 2]), Q, QL, cls, lv if n <= 300 else lv[:1], rng.choice([1, 4])))
    c = []
    # large leaves: the answer hangs on counts that no small counter can hold
    for n in ([260, 511, 700, 1400, 66000] if q else [300, 520, 700, 1500, 5000, 66000, 70000]):
        K = rng.choice([2, 3, 5]); u, v = rng.sample(range(K), 2)
        cut = rng.choice([n // 2 + 1, n - n // 3, n - 10, n - 40])
        if n > 65536: cut = 65536 + rng.randrange(1, 90)
        cs = [u] * cut + [v] * (n - cut)
        rng.shuffle(cs)
        rows = [[float(rng.randint(0, 1)), rng.uniform(0, 1)] for _ in cs]
        L = [G.onehot(K, x) for x in cs] if cls else [[float(x), rng.random()] for x in cs]
        Q = [[0.0, 0.5], [1.0, 0.1]]
        c.append(score_case(rng, rows, L, rng.choice([0, 1]) if n < 2000 else 0, Q, [L[0], L[-1]], cls, [], 4))
    for m in ([G.edge(rng, 1000, 3000), 70000] if q else [G.edge(rng, 1000, 5000), G.edge(rng, 5000, 50000), 70000] * 4):      # large test sets
        n, K = rng.choice([5, 20]), rng.choice([2, 3])
        rows, L = G.classes(rng, n, 1, K) if cls else G.data(rng, n, 1, K, feats=G.PLAIN)
        Q = [list(rng.choice(rows)) for _ in range(m)]
        c.append(score_case(rng, rows, L, 2, Q, [list(rng.choice(L)) for _ in Q], cls, []))
    for n, Cn, K, mx in ([(400, 3, 5, 3), (300, 2, 12, 4), (800, 2, 2, 2)] * (1 if q else 8)):
        if cls: rows, L = G.classes(rng, n, Cn, K)
        else: rows, L = G.data(rng, n, Cn, K, feats=G.PLAIN)
        Q = G.queries(rng, rows, [], 40)
        QL = [list(rng.choice(L)) for _ in Q]
        c.append(score_case(rng, rows, L, mx, Q, QL, cls, [0, 1, 2, 3, 5]))
    for name, lim in (('iris.csv', 150), ('wine_train.csv', 120), ('digits_train.csv', 150 if q else 1000)):
        d = repo_classes(name, lim, rng)
        if d:
            h = len(d[0]) * 2 // 3
            c.append(score_case(rng, d[0][:h], d[1][:h], rng.choice([2, 3, 12]), d[0][h:], d[1][h:], cls, [0, 2, 4]))
    return [Stream('model-votes', 'ScoreTrace', a, conv_score), Stream('random', 'ScoreTrace', b, conv_score), Stream('large', 'ScoreTrace', c, conv_score)]


def score_models(tier, seed):
    cf = 'CONSTANTS K = %d NL = %d NQ = %d Vote = "%s"\nSPECIFICATION Spec\nINVARIANTS VoteIsMajority HitsBounded SplitNeverHurts%s\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
    return [dict(mod='Scorer', cfg=cf % ((3, 4, 1, 'none', ' EmitCase') if tier == 'quick' else (3, 6, 2, 'none', ' EmitCase')), emit='vote', what='all leaves and test sets over 3 classes', extra=('-workers', '4'))] \
         + [dict(mod='Scorer', cfg=cf % (3, 4, 1, v, ''), expect='violation', what='defect variant: ' + v) for v in ('late', 'first', 'pairs')]


# ------------------------------------------------------------------ C11-C16, C20: boosting
def conv_boost(h, r):
    t = base(h)
    for k in ('lr', 'rounds', 'qrows', 'qlabels', 'light', 'ontrain', 'sep'): t[k] = h[k]
    ev = [{'ev': 'init', 'init': r['init'], 'mlr': r['mlr']}]
    if not h['light']:
        for tr in r['trees']:
            ev.append({'ev': 'round'}); ev += [dict(n, ev='node') for n in tr]; ev.append({'ev': 'roundend'})
        ev.append({'ev': 'trained'})
    else:
        ev.append({'ev': 'fin', 'bad': r['badleaves'], 'ntrees': r['ntrees']})
    if not h['light']:
        ev += [{'ev': 'pred', 'q': q, 'v': v} for q, v in zip(h['qrows'], r['pred'])]
        ev += [{'ev': 'batch', 'v': v} for v in r['batch']] + [{'ev': 'score', 'v': r['score']}]
        ev += [dict(x, ev='probe') for x in r.get('probe', [])]
    for x in sorted(r.get('prefix', []), key=lambda x: x['t']): ev.append(dict(x, ev='prefix'))
    ev.append({'ev': 'end'})
    t['events'] = ev
    t['_cost'] = sum(len(json.dumps(e)) for e in ev) + len(r.get('trees', [])) * len(h['rows']) * t['k'] * 60
    return t


def boost_case(rng, kind, rows, L, maxl, rounds, lr, ontrain=False, Q=None, QL=None, prefixes=(), probes=0, light=False, sep=False):
    n, K = len(rows), len(L[0])
    if ontrain: Q, QL = rows, L
    c = {'op': 'boost', 'kind': kind, 'rows': fm(rows), 'labels': fm(L), 'k': K, 'max': maxl, 'rounds': rounds, 'lr': fmt(lr), 'qrows': fm(Q), 'qlabels': fm(QL),
         'prefixes': sorted(set(prefixes)), 'light': light, 'ontrain': ontrain, 'sep': sep, 'mt': rng.random() < 0.4, 'threads': rng.choice([1, 2, 4, 8])}
    if probes and kind != 'reg': c['probes'] = rng.sample(range(1, len(Q) + 1), min(probes, len(Q)))
    return c


RATES = [0.1, 0.1, 0.3, 0.5, 1.0, 1.0, 0.25, 0.05, 0.01, 0.1, 0.5, 1.0, 1 / 3, 0.999, 7e-4, 1e-4, 2e-7]


def boost_data(rng, kind, n, Cn, K):
    if kind == 'reg': return G.data(rng, n, Cn, K, lab=rng.choice([x for x in G.LABS if x != 'same'] if rng.random() < 0.95 else ['same']))
    return G.classes(rng, n, Cn, max(2, K))


def separable(rng, n, K):
    """every class one interval of the first column"""
    v = sorted(rng.sample([float(i) for i in range(3 * n)], n))
    cuts = sorted(rng.sample(range(1, n), K - 1)) if n > K - 1 else []
    cls = [sum(1 for c in cuts if c <= i) for i in range(n)]
    perm = list(range(K)); rng.shuffle(perm)
    ix = list(range(n)); rng.shuffle(ix)
    return [[v[i], rng.choice([0.0, 1.0])] for i in ix], [G.onehot(K, perm[cls[i]]) for i in ix]


def odd_label(rng, l, p=0.15):
    """the label of a test row; sometimes one that no prediction can equal"""
    if rng.random() > p: return list(l)
    k = rng.randrange(4)
    if k == 0: return [x * 0.6 + 0.4 / len(l) for x in l]           # the class is still the largest entry
    if k == 1: return [1.0 for _ in l]
    if k == 2: return [0.0 for _ in l]
    return [x * (1 + 2.0 ** -52) for x in l]


def boost_streams(tier, rng, gens, kinds, ontrain=None, probes=0, prefix=0.5, light=False, lrs=None, counts=(250, 1000)):
    q = tier == 'quick'
    a = []
    for p in pick(rng, [x for x in gens.get('boost', []) if x['kind'] in kinds], counts[0] if q else counts[0] * 15):
        rows, _ = from_model(rng, dict(rk=p['rk'], y=p['y']))
        L = [[float(x) for x in r] for r in p['y']]
        tr = unfm(rows); T = rng.choice([1, 2, 3, 5])
        a.append(boost_case(rng, p['kind'], tr, L, p['max'], T, p['lr'] if isinstance(p['lr'], (int, float)) else float(p['lr']), ontrain=True, prefixes=range(T), probes=min(probes, 2)))
    b = []
    for i in range(counts[1] if q else counts[1] * 15):
        kind = kinds[i % len(kinds)]
        n, Cn, K, T, m = G.dims(rng, [rng.choice([1, 2, 3, 4, 6, 8, 10, 14, 20, 30]), rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4]) if kind == 'reg' else rng.choice([2, 2, 3, 3, 4, 6]),
                                      rng.choice([0, 1, 1, 2, 3, 4, 6, 10, 15]) or 1, rng.choice([1, 2, 4, 8])], p=0.2, budget=4000 if q else 12000, caps={0: 600, 2: 60, 3: 150, 4: 300})
        if rng.random() < 0.08: T = 0
        rows, L = boost_data(rng, kind, n, Cn, K)
        K = len(L[0])
        lr = rng.choice(lrs or (RATES + [0.0, 1.5, 0.7, -0.5, 3.0]))
        ot = rng.random() < 0.5 if ontrain is None else ontrain
        Q = G.queries(rng, rows, [(j, rng.choice(rows)[j]) for j in range(Cn)], m, extreme=True, nan=True)
        QL = [list(rng.choice(L)) if kind == 'reg' else odd_label(rng, rng.choice(L)) for _ in Q]
        pf = range(T + 1) if ot and rng.random() < prefix else ([rng.randrange(T + 1)] if T else [])
        if len(pf) * n > 1500: pf = sorted(rng.sample(range(T + 1), min(T + 1, max(2, 1500 // n))))
        b.append(boost_case(rng, kind, rows, L, rng.choice([0, 1, 1, 2, 2, 3, 5, 10]) if n * T < 1000 else rng.choice([1, 2]), T, lr, ot, Q, QL, pf, probes))
    c = []
    for i, (n, Cn, K, T, mx) in enumerate([(80, 3, 3, 12, 3), (40, 2, 2, 40, 4), (150, 4, 3, 4, 3), (700, 2, 2, 2, 2), (6, 1, 2, 270, 2), (30, 2, 11, 3, 4), (45, 2, 21, 2, 6), (G.edge(rng, 250, 1100), G.edge(rng, 3, 8), 2, 2, 1), (G.edge(rng, 1001, 1100), 1, 2, 2, 1), (3, G.edge(rng, 256, 1030), 2, 2, 2)] * (1 if q else 6) + ([] if q else [(2500, 3, 3, 3, 3), (5, 1, 2, 1100, 2)])):
        for kind in kinds:
            rows, L = boost_data(rng, kind, n, Cn, K)
            Q = G.queries(rng, rows, [], 10); QL = [list(rng.choice(L)) for _ in Q]
            lr = rng.choice(lrs or RATES)
            c.append(boost_case(rng, kind, rows, L, mx, T, lr, bool(ontrain), Q, QL, [0, T // 2, T], probes))
    for kind in kinds:      # both sides of the first question equally large
        rows, L = G.halves(rng, G.edge(rng, 200, 520), 2)
        c.append(boost_case(rng, kind, rows, L, 1, 2, rng.choice(lrs or RATES), bool(ontrain), rows[:4], L[:4], [0, 2], probes)); c[-1]['mt'] = True
        for i in range(6 if kind != 'reg' and q else 0 if kind == 'reg' else 60):       # some dozens of classes, scores that stay negative
            K = rng.choice([17, 18, 20, 33, 34, 40, 65, 70]); n = rng.choice([3, 6, 10]); top = rng.randrange(K)
            rows = [[float(rng.randrange(4)), rng.choice([0.5, 1.5])] for _ in range(n)]; L = [G.onehot(K, rng.choice([top, top, rng.randrange(K)])) for _ in range(n)]
            Q = rows + [[9.0, 1.0]]
            c.append(boost_case(rng, kind, rows, L, rng.choice([0, 1, 2]), 2, rng.choice([7e-4, 0.01, 0.1, rng.choice(lrs or RATES)]), bool(ontrain), Q, [list(rng.choice(L)) for _ in Q], [0, 1, 2], probes))
    for kind in kinds:      # many classes, few rows: the first round already moves scores as far as there are classes
        if kind == 'reg': continue
        for i in range(2 if q else 8):
            K = G.edge(rng, 100, 1030) if i else rng.choice([800, 900, 1001, 1025]); n = rng.choice([2, 3, 4])
            rows = [[float(j)] for j in range(n)]; L = [G.onehot(K, rng.choice([rng.randrange(K), K - 1 - j])) for j in range(n)]
            c.append(boost_case(rng, kind, rows, L, rng.choice([1, 2, 5]), 2, rng.choice([1.0, 1.0, 1.0, rng.choice(lrs or RATES)]), True, rows[:1], L[:1], [0, 1, 2], probes))
    if not ontrain:
        for m in ([G.edge(rng, 1025, 3000)] if q else [G.edge(rng, 1000, 5000), G.edge(rng, 5000, 20000)]):      # large batches
            for kind in kinds:
                rows, L = boost_data(rng, kind, rng.choice([4, 12]), rng.choice([1, 2]), 2)
                if kind != 'reg': L = [G.onehot(2, i % 2) for i in range(len(rows))]; rows = [[float(i // 2 if i % 3 else i)] + r[1:] for i, r in enumerate(rows)]
                Q = [list(rng.choice(rows)) for _ in range(m)]
                c.append(boost_case(rng, kind, rows, L, 2, 2, 0.5, False, Q, [list(rng.choice(L)) for _ in Q], [], probes))
    if set(kinds) & {'mc', 'amg'}:
        for name, lim in (('iris.csv', 60 if q else 150), ('wine_train.csv', 50 if q else 120)):
            d = repo_classes(name, lim, rng)
            if d:
                h = len(d[0]) * 2 // 3
                for kind in kinds:
                    if kind != 'reg': c.append(boost_case(rng, kind, d[0][:h], d[1][:h], 3, 5, rng.choice([0.1, 0.5]), bool(ontrain), d[0][h:], d[1][h:], [], probes))
    d = []
    for i in range(0 if set(kinds) == {'reg'} else 150 if q else 2000):      # contested rows: asked rows mix the sides of the training rows, so that scores may fall for every class
        kind = rng.choice([x for x in kinds if x != 'reg'])
        K, n, Cn, T = rng.choice([3, 4, 5, 8, 20]), rng.choice([5, 6, 8, 12, 20]), rng.choice([2, 3, 4]), rng.choice([15, 25, 40] if q else [20, 40, 80])
        vals = [float(x) for x in range(rng.choice([2, 3, 9]))]
        rows = [[rng.choice(vals) for _ in range(Cn)] for _ in range(n)]; L = [G.onehot(K, rng.randrange(K)) for _ in range(n)]
        Q = [[rng.choice(vals) for _ in range(Cn)] for _ in range(8)]
        ot = rng.random() < 0.2 if ontrain is None else ontrain
        d.append(boost_case(rng, kind, rows, L, rng.choice([1, 2, 3]), T, rng.choice(lrs or [0.3, 1.0, 1.5, 3.0, 3.0]), ot, Q, [odd_label(rng, rng.choice(L)) for _ in Q], [T] if ot else [], probes))
    out = [Stream('model-problems', 'BoostTrace', a, conv_boost), Stream('random', 'BoostTrace', b, conv_boost), Stream('large', 'BoostTrace', c, conv_boost)]
    if d: out.append(Stream('contested', 'BoostTrace', d, conv_boost))
    if light:
        d = []
        for i in range(60 if q else 800):
            kind = kinds[i % len(kinds)]
            sp = kind != 'reg' and rng.random() < 0.7
            n = rng.choice([2, 3, 4, 6, 8, 12, 20]); K = rng.choice([2, 2, 3, 4, 5])
            if sp: n = max(n, K); rows, L = separable(rng, n, K)
            else: rows, L = boost_data(rng, kind, n, rng.choice([1, 2, 3]), K)
            T = rng.choice([60, 150, 400, 800, 1500])
            lr = rng.choice([0.1, 0.3, 0.5, 1.0, 1.0])
            d.append(boost_case(rng, kind, rows, L, n + 2 if sp else rng.choice([0, 1, 2, 3, 6]), T, lr, True, prefixes=[0, 1, 2, 5, 10, 20, 40, T // 2, T - 1, T], light=True, sep=sp))
        for kind in kinds:    # sharply separated, every step at full rate
            for K in (2, 3, 7) + (() if kind == 'reg' else (rng.choice([17, 18, 20, 24]),)):
                rows = [[float(i)] for i in range(2 * K)]; L = [G.onehot(K, i // 2) for i in range(2 * K)]
                T = 2000 if K < 9 or not q else 900
                d.append(boost_case(rng, kind, rows, L, 12 if K < 9 else 2 * K, T, 1.0, True, prefixes=[0, 5, 20, 30, 50, 100, 300, 500, 800, 1000, T - 1, T], light=True, sep=kind != 'reg'))
        out.append(Stream('long', 'BoostTrace', d, conv_boost))
    return out


def boost_models(kinds):
    cf = 'CONSTANTS Kinds = {%s} NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} Rates = {%s} MaxLv = {%s} Rounds = %d LeafRule = "%s"\nSPECIFICATION Spec\nINVARIANTS TrainedIsAsked ErrorShrinks ErrorsShrink FitsExactly SoftResiduals CurvPositive AmgZeroSum EmitCase\nPROPERTIES KeepsFit OnlyAppends%s\nCHECK_DEADLOCK FALSE\n'
    def f(tier, seed):
        m = []
        ks = ', '.join('"%s"' % k for k in kinds if k != 'reg')
        if 'reg' in kinds:
            m.append(dict(mod='MCBoost', cfg=cf % ('"reg"', 3, 1, 1, '0, 1, 2', '0, 1, 3', '1, 2', '0, 1, 3', 2, 'spec', ' Ends'), emit='boost', what='regression, 3 rows, 2 rounds'))
            m.append(dict(mod='MCBoost', cfg=(cf % ('"reg"', 5, 1, 1, '0, 1', '0, 1', '2', '1', 1, 'sum', '')).replace(' EmitCase', ''), expect='violation', what='defect variant: leaves output sums instead of means'))
            if tier != 'quick':
                m.append(dict(mod='MCBoost', cfg=cf % ('"reg"', 3, 1, 2, '0, 1, 2', '0, 1', '1, 2', '1, 3', 3, 'spec', ''), emit='boost', what='regression, 2 targets, 3 rounds', extra=('-workers', '8')))
                m.append(dict(mod='MCBoost', cfg=cf % ('"reg"', 4, 1, 1, '0, 1, 2', '0, 1', '1, 2', '1, 2, 4', 3, 'spec', ''), emit='boost', what='regression, 4 rows, 3 rounds', extra=('-workers', '8')))
        if ks:
            m.append(dict(mod='MCBoost', cfg=cf % (ks, 3, 1, 2, '0, 1, 2', '0', '1, 2', '0, 1, 3', 2, 'spec', ' Ends'), emit='boost', what='classifiers, 3 rows, 2 classes, 2 rounds', extra=('-workers', '4')))
            if tier != 'quick':
                m.append(dict(mod='MCBoost', cfg=cf % (ks, 3, 1, 3, '0, 1, 2', '0', '1, 2', '1, 3', 3, 'spec', ''), emit='boost', what='classifiers, 3 classes, 3 rounds', extra=('-workers', '8')))
                m.append(dict(mod='MCBoost', cfg=cf % (ks, 4, 1, 2, '0, 1', '0', '1, 2', '1, 2', 4, 'spec', ''), emit='boost', what='classifiers, 4 rows, 4 rounds', extra=('-workers', '8')))
        return m
    return f


# ------------------------------------------------------------------ C24: scoring test sets
def batch_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('batch', []), 300 if q else 3000):
        tr = [[float(i)] for i in (1, 2, 3)]; L = [[float(i * i + 1)] for i in (1, 2, 3)]
        a.append(boost_case(rng, 'reg', tr, L, rng.choice([0, 1, 5]), rng.choice([0, 1, 1, 3]), rng.choice([1.0, 0.5, 0.1]), False, [[float(x)] for x in p['test']], [[float(x)] for x in p['label']], []))
    b = []
    for i in range(500 if q else 8000):
        n, Cn, K, T, m = G.dims(rng, [rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([1, 2, 3]), rng.choice([1, 1, 2, 3, 4]), rng.choice([0, 1, 1, 2, 3, 6]), rng.choice([1, 2, 3, 5, 8, 16, 40, 70, 130])], p=0.25, budget=3000, caps={0: 40, 2: 260, 3: 20, 4: 700})
        rows, L = boost_data(rng, 'reg', n, Cn, K); K = len(L[0])
        Q = G.queries(rng, rows, [(j, rng.choice(rows)[j]) for j in range(Cn)], m, extreme=True)
        lab = rng.choice(['train', 'train', 'runs', 'one', 'wild', 'near', 'zero'])
        if lab == 'wild': QL = [[rng.uniform(-1, 1) * 10.0 ** rng.choice([-8, -2, 0, 3, 6]) for _ in range(K)] for _ in Q]
        elif lab == 'zero': QL = [[0.0] * K for _ in Q]
        else: QL = [list(rng.choice(L)) for _ in Q]
        if lab == 'runs':      # runs of the same row or label
            for j in range(1, len(Q)):
                if rng.random() < 0.7: QL[j] = list(QL[j - 1])
                if rng.random() < 0.4: Q[j] = list(Q[j - 1])
        if lab == 'one': QL = [list(QL[0]) for _ in Q]
        if lab == 'near':
            for r in QL: r[rng.randrange(K)] += rng.choice([1e-9, 1e-3, 1.0, 1e3])
        if rng.random() < 0.3 and len(Q) > 1:      # one row far from everything
            QL[rng.choice([0, -1, rng.randrange(len(Q))])] = [rng.choice([-1, 1]) * 10.0 ** rng.choice([2, 5, 7]) for _ in range(K)]
        b.append(boost_case(rng, 'reg', rows, L, rng.choice([0, 1, 2, 3, 8]), T, rng.choice(RATES + [0.0, 1.5, -0.5]), False, Q, QL, [rng.randrange(T + 1)] if T and rng.random() < 0.3 and m < 50 else []))
    c = []
    for m, K in [(G.edge(rng, 250, 520), 2), (G.edge(rng, 1001, 1300), 1), (rng.randrange(2049, 3000), 1), (rng.choice([4097, 4100, 5001]), 1), (rng.choice([5, 40]), G.edge(rng, 20, 140)), (3, G.edge(rng, 500, 1100))] * (1 if q else 5) + ([] if q else [(10000, 2)]):
        rows, L = boost_data(rng, 'reg', rng.choice([4, 12, 30]), rng.choice([1, 2]), K)
        Q = [list(rng.choice(rows)) for _ in range(m)]; QL = [list(rng.choice(L)) for _ in Q]
        for j in range(1, m):
            if rng.random() < 0.3: QL[j] = list(QL[j - 1])
        c.append(boost_case(rng, 'reg', rows, L, 3, rng.choice([2, 12]) if m * K < 3000 else 2, 0.5, False, Q, QL, []))
    return [Stream('model-batches', 'BoostTrace', a, conv_boost), Stream('random', 'BoostTrace', b, conv_boost), Stream('large', 'BoostTrace', c, conv_boost)]


def batch_models(tier, seed):
    cf = 'CONSTANTS Rows = {%s} MaxQ = %d Lbls = {%s} Workers = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS InOrder Right ZeroIffExact%s\n%sCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCBatch', cfg=cf % ('1, 2', 4, '0, 2, 5', 2, 'none', ' EmitCase', 'PROPERTY Reports\n'), emit='batch', what='test sets of up to 4 rows, 2 workers')]
    m += [dict(mod='MCBatch', cfg=cf % ('1, 2', 3, '0, 2', 2, v, '', ''), expect='violation', what='defect variant: ' + v) for v in ('arrival', 'halves', 'skip')]
    if tier != 'quick':
        m.append(dict(mod='MCBatch', cfg=cf % ('1, 2, 3', 4, '0, 2, 5', 3, 'none', ' EmitCase', ''), emit='batch', what='3 different rows, 3 workers', extra=('-workers', '8')))
        m.append(dict(mod='MCBatch', cfg=cf % ('1, 2', 6, '2, 5', 3, 'none', '', 'PROPERTY Reports\n'), what='6 rows, 3 workers', extra=('-workers', '8')))
    return m


def BS(*a, **k): return lambda t, r, g: boost_streams(t, r, g, *a, **k)


# ------------------------------------------------------------------ C07: schedules
def conv_mt(h, r):
    t = base(h); t['base'] = r['base']; t['bdigest'] = r['bdigest']
    if not h['full']: t['rows'], t['labels'] = [[]], []
    ev = []
    for run in r['runs']:
        ok = h['full'] and run['events'] and all(x['p'] != '?' for x in run['events'])
        ev.append({'ev': 'run', 'threads': run['threads'], 'mt': run['mt']})
        if ok: ev += [dict({k: v for k, v in x.items() if k != 'e'}, ev=x['e']) for x in run['events']]
        ev.append({'ev': 'result', 'digest': run['digest'], 'logged': bool(ok)})
    t['events'] = ev
    return t


TKINDS = ['row', 'gb', 'amg', 'sorted']
BKINDS = ['boost-reg', 'boost-mc', 'boost-amg']


def mt_case(rng, kind, rows, L, maxl, runs, rounds=0, lr=0.5, full=None):
    lof = 'mc' if kind == 'amg' or (kind == 'gb' and rng.random() < 0.4) else 'reg'
    return {'op': 'mt', 'kind': kind, 'rows': fm(rows), 'labels': fm(L), 'k': len(L[0]), 'max': maxl, 'rounds': rounds, 'lr': fmt(lr), 'lof': lof,
            'full': full if full is not None else not kind.startswith('boost'), 'runs': runs, 'base_threads': rng.choice([1, 1, 3])}


def mt_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    by = {}
    for x in gens.get('sched', []): by.setdefault(json.dumps([x['rk'], x['y'], x['max']]), []).append(x)
    for k in pick(rng, sorted(by), 120 if q else 3000):
        xs = by[k]; x = xs[0]
        rows, L = from_model(rng, x)
        kind = rng.choice(['row', 'row', 'gb'])
        runs = [{'mt': True, 'threads': rng.choice([2, 3, 4, 8]), 'wrap': True, 'order': y['sched'], 'patience': 15} for y in pick(rng, xs, 8 if q else 40)]
        a.append(mt_case(rng, kind, unfm(rows), unfm(L), x['max'], runs))
    b = []
    for i in range(160 if q else 2500):
        kind = TKINDS[i % 3] if i % 8 else 'sorted'
        n = G.ext(rng, rng.choice([3, 6, 10, 16, 25, 40]), 0.1, 400); K = G.ext(rng, rng.choice([1, 2, 3]) if kind != 'amg' else rng.choice([2, 3]), 0.1, 40)
        # ties between columns and between questions are where schedules could show
        rows, L = G.data(rng, n, rng.choice([1, 2, 4, 8]), K, feats=['smallint', 'ties', 'copy', 'copy', 'binary', 'perm', 'sorted', 'rev', 'const', 'real'], lab=rng.choice(['smallint', 'binary', 'real', 'onehot', 'alt', 'step']))
        runs = [{'mt': True, 'threads': rng.choice([1, 2, 3, 4, 7, 8, 16]), 'wrap': True, 'shuffle': rng.randrange(1, 1 << 30), 'patience': 10} for _ in range(4)]
        runs += [{'mt': True, 'threads': t, 'wrap': rng.random() < 0.5, 'jitter': rng.randrange(1, 1 << 30)} for t in rng.sample([1, 2, 3, 4, 8, 16], 3)]
        runs += [{'mt': False, 'threads': rng.choice([1, 2, 8]), 'wrap': False}] * 2
        b.append(mt_case(rng, kind, rows, L, rng.choice([1, 2, 3, 5, 20]), runs))
    c = []
    for i in range(45 if q else 900):
        kind = BKINDS[i % 3]
        n = G.ext(rng, rng.choice([4, 9, 20, 40]), 0.15, 600); K = G.ext(rng, rng.choice([2, 3, 4]), 0.15, 64)
        rows, L = boost_data(rng, kind[6:], n, G.ext(rng, rng.choice([1, 2, 4, 7]), 0.15, 100), K)
        runs = [{'mt': m, 'threads': t} for m in (True, False) for t in rng.sample([1, 2, 3, 4, 8, 16], 2)] + [{'mt': True, 'threads': 8}] * 2
        c.append(mt_case(rng, kind, rows, L, rng.choice([1, 2, 3, 6]), runs, rng.choice([1, 2, 5, 12]), rng.choice(RATES)))
    d = []
    for kind in TKINDS + BKINDS:
        for n, Cn in ((1200, 6), (300, 40)) if q else ((1200, 6), (300, 40), (5000, 8), (100, 600)):
            rows, L = boost_data(rng, kind[6:] if kind in BKINDS else 'reg', n, Cn, 3)
            runs = [{'mt': True, 'threads': t, 'wrap': False} for t in (2, 8, 8, 16)] + [{'mt': False, 'threads': 8}]
            d.append(mt_case(rng, kind, rows, L, 6 if q else 12, runs, 3, 0.5, full=False))
        rows, L = G.halves(rng, G.edge(rng, 200, 1100), 2)
        d.append(mt_case(rng, kind, rows, L, 2, [{'mt': True, 'threads': 8, 'wrap': False}, {'mt': False, 'threads': 8}], 2, 0.5, full=False))
    return [Stream('model-schedules', 'MtTrace', a, conv_mt), Stream('schedules', 'MtTrace', b, conv_mt), Stream('ensembles', 'MtTrace', c, conv_mt), Stream('large', 'MtTrace', d, conv_mt)]


def mt_models(tier, seed):
    cf = 'CONSTANTS NR = %d NC = 1 NK = 1 Vals = {%s} Lbls = {%s} MaxLv = {%s} NT = %d Variant = "%s"\nSPECIFICATION SpecS\nINVARIANTS AnyScheduleSameTree NothingLostOrMixed%s\nCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCSched', cfg=cf % (4, '0, 1, 2, 3', '0, 1, 3', '2, 9', 4, 'none', ' EmitSched'), emit='sched', what='4 rows: every schedule of 4 workers', extra=('-workers', '4'))]
    m.append(tree_models('quick', seed)[0])
    m.append(dict(mod='MCSched', cfg=cf % (4, '0, 1, 2, 3', '0, 1, 3', '2, 9', 2, 'share', ''), expect='violation', what='defect variant: a busy neighbour changes the choice'))
    if tier != 'quick':
        m += [x for x in tree_models(tier, seed)[1:]]
        m.append(dict(mod='MCSched', cfg=cf % (5, '0, 1, 2, 3, 4', '0, 1', '2, 9', 3, 'none', ' EmitSched'), emit='sched', what='5 rows: every schedule of 3 workers', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C08, C22: two trees side by side
def conv_twin(h, r):
    t = base(h); a, b = h['a'], h['b']
    t['rows'], t['labels'], t['rows2'], t['map'], t['colmap'] = a['rows'], a['labels'], b['rows'], h['map'], h['colmap']
    t['labels2'] = b['labels']
    t['law'] = h.get('law') or {'src': list(range(1, h['k'] + 1)), 'a': '1.0', 's': ['0.0'] * h['k']}
    t['cut'], t['full'], t['sel'], t['via'] = h.get('cut', -1), [], [], []
    if 'sub' in h:
        t['full'], t['sel'], t['via'] = a['rows'], r['sel'], r['via']
        t['rows'] = t['rows2'] = [a['rows'][i - 1] for i in r['sel']]
        t['labels'] = t['labels2'] = [a['labels'][i - 1] for i in r['sel']]
        t['map'] = list(range(1, len(r['sel']) + 1))
    t['kind'] = 'row-sorted' if (a['kind'], b['kind']) == ('row', 'sorted') else a['kind'] if a['kind'] == b['kind'] and h['leafcmp'] else 'none'
    t['k'] = h['k']
    def node(n): return {'leaf': not (n['tb'] or n['fb']), 'col': n['col'], 'thr': n['thr'], 'data': n['leaf']}
    A, B = {n['p']: node(n) for n in r['a']}, {n['p']: node(n) for n in r['b']}
    none = {'leaf': True, 'col': 0, 'thr': '0.0', 'data': []}
    ev = [{'ev': 'pair', 'p': x, 'ina': x in A, 'inb': x in B, 'a': A.get(x, none), 'b': B.get(x, none)} for x in sorted(set(A) | set(B), key=lambda x: (len(x), x))]
    for i, (x, y) in enumerate(zip(r['ea'], r['eb'])): ev.append({'ev': 'err', 'a': x, 'b': y, 'onrows': i == 0})
    ev += [{'ev': 'forecast', 'a': x, 'b': y} for x, y in zip(r['fa'], r['fb'])]
    ev.append({'ev': 'end'})
    t['events'] = ev
    return t


def twin_case(rng, rows, L, maxl, ka, kb, mp=None, cm=None, rows2=None, tests=None, lof='reg', leafcmp=True):
    """rows2 row i stands for rows[mp[i]-1]; column c of rows2 for column cm[c] of rows"""
    n = len(rows)
    mp = mp or list(range(1, n + 1)); cm = cm or list(range(1, len(rows[0]) + 1)); rows2 = rows2 if rows2 is not None else rows
    L2 = [L[i - 1] for i in mp]
    ta = [{'rows': fm(rows), 'labels': fm(L)}]; tb = [{'rows': fm(rows2), 'labels': fm(L2)}]
    for t in (tests or []): ta.append(t); tb.append(t)
    side = lambda r, l, k, t: {'kind': k, 'rows': fm(r), 'labels': fm(l), 'tests': t if k in ('row', 'sorted') else [], 'mt': rng.random() < 0.3, 'threads': rng.choice([1, 2, 4, 8])}
    return {'op': 'twin', 'a': side(rows, L, ka, ta), 'b': side(rows2, L2, kb, tb), 'map': mp, 'colmap': cm, 'k': len(L[0]), 'max': maxl, 'lof': lof, 'leafcmp': leafcmp and lof == 'reg' and ka != 'amg'}


def twin_tests(rng, rows, L):
    Q = G.queries(rng, rows, [(j, rng.choice(rows)[j]) for j in range(len(rows[0]))], rng.choice([1, 3, 6]), extreme=True)
    return [{'rows': fm(Q), 'labels': fm([list(rng.choice(L)) for _ in Q])}]


def twin08_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('tree', []), 500 if q else 6000):
        rows, L = from_model(rng, p)
        rows, L = unfm(rows), unfm(L)
        a.append(twin_case(rng, rows, L, p.get('max', 9), 'row', 'sorted', tests=twin_tests(rng, rows, L)))
    b = []
    for i in range(1500 if q else 16000):
        n, Cn, K = G.dims(rng, [rng.choice([1, 2, 3, 4, 6, 9, 14, 20, 30, 45]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=4000)
        rows, L = G.data(rng, n, Cn, K)
        b.append(twin_case(rng, rows, L, depth_limit(rng, n), 'row', 'sorted', tests=twin_tests(rng, rows, L)))
    c = []
    for (n, Cn, K, mx, ft, lb) in ([(60, 1, 1, 80, 'perm', 'alt'), (200, 4, 2, 12, None, None), (100, 2, 2, 300, 'ties', 'real'), (400, 4, 3, 8, None, 'real'), (4, 400, 1, 3, 'binary', 'real'), (300, 3, 2, 30, 'smallint', 'smallint')]
                                   * (1 if q else 12)):
        rows, L = G.data(rng, n, Cn, K, feats=[ft] if ft else G.PLAIN, lab=lb)
        c.append(twin_case(rng, rows, L, mx, 'row', 'sorted', tests=twin_tests(rng, rows, L)))
    for n in (40, 140) if q else (100, 280):
        rows, L = chain(n)
        c.append(twin_case(rng, rows, L, rng.choice([n - 2, n + 3, 100000]), 'row', 'sorted', tests=twin_tests(rng, rows, L)))
    for name, lim in (('iris.csv', 150), ('wine_train.csv', 150 if q else 1000), ('digits_train.csv', 100 if q else 500)):
        d = repo_classes(name, lim, rng)
        if d: c.append(twin_case(rng, d[0], d[1], 12, 'row', 'sorted', tests=twin_tests(rng, d[0], d[1])))
    return [Stream('model-problems', 'TwinTrace', a, conv_twin), Stream('random', 'TwinTrace', b, conv_twin), Stream('large', 'TwinTrace', c, conv_twin)]


def remap_columns(rng, rows):
    """a strictly increasing function of every column"""
    out = [list(r) for r in rows]
    for j in range(len(rows[0])):
        vs = sorted(set(r[j] for r in rows)); vs = [v for i, v in enumerate(vs) if i == 0 or v != vs[i - 1]]
        st = rng.choice(['rank', 'grid', 'adj', 'exp', 'keep', 'neg'])
        if st == 'keep': continue
        if st == 'rank': m = [float(i) for i in range(len(vs))]
        elif st == 'grid': b = rng.uniform(-100, 100); m = [b + i * rng.choice([0.5]) for i in range(len(vs))]
        elif st == 'adj': b = rng.choice([1.0, 1e8, -0.1]); m = [b]; [m.append(G.nxt(m[-1])) for _ in vs[1:]]
        elif st == 'exp': m = [2.0 ** (i - len(vs) / 2) if len(vs) < 1500 else float(i) for i in range(len(vs))]
        else: m = [-1000.0 + i for i in range(len(vs))]
        for i, r in enumerate(rows): out[i][j] = m[next(k for k, v in enumerate(vs) if v == r[j])] if len(vs) < 60 else m[__import__('bisect').bisect_left(vs, r[j])]
    return out


def transform(rng, how, rows, L, f=None):
    """(map, colmap, rows2)"""
    n, Cn = len(rows), len(rows[0])
    ident, cols = list(range(1, n + 1)), list(range(1, Cn + 1))
    if how == 'perm':
        mp = list(f) if f else rng.sample(ident, n)
        if not f and n > 3 and rng.random() < 0.3:          # only a few rows change their places
            mp = list(ident)
            for _ in range(rng.choice([1, 1, 3])):
                i, j = rng.sample(range(n), 2); mp[i], mp[j] = mp[j], mp[i]
        return mp, cols, [list(rows[i - 1]) for i in mp]
    if how == 'dup':
        r = rng.choice([2, 2, 3])
        mp = ident * r
        if rng.random() < 0.7: rng.shuffle(mp)
        return mp, cols, [list(rows[i - 1]) for i in mp]
    if how == 'mono': return ident, cols, remap_columns(rng, rows)
    if how in ('copy', 'const'):
        at = 0 if f else rng.randrange(Cn + 1)
        src = 0 if how == 'const' else (f[0] if f else rng.randrange(1, Cn + 1))
        v = rng.choice([0.0, -7.5, 1e9])
        rows2 = [r[:at] + [v if src == 0 else r[src - 1]] + r[at:] for r in [list(x) for x in rows]]
        return ident, cols[:at] + [src] + cols[at:], rows2
    if how == 'cols':          # the columns in another order
        o = rng.sample(cols, Cn)
        return ident, o, [[r[c - 1] for c in o] for r in rows]
    if how == 'all':
        mp, cm, r2 = transform(rng, 'perm', rows, L)
        _, cm2, r3 = transform(rng, rng.choice(['copy', 'const']), r2, L)
        return mp, cm2, remap_columns(rng, r3)
    raise ValueError(how)


HOWS = ['perm', 'perm', 'dup', 'mono', 'mono', 'copy', 'const', 'cols', 'all']


def twin22_streams(tier, rng, gens):
    q = tier == 'quick'
    def kindof(K): 
        k = rng.choice(KINDS)
        return 'gb' if k == 'amg' and K < 2 else k
    a = []
    for p in pick(rng, gens.get('twin', []), 500 if q else 6000):
        rows, L = from_model(rng, p)
        rows, L = unfm(rows), unfm(L)
        mp, cm, r2 = transform(rng, p['kind'], rows, L, p['f'])
        k = kindof(len(L[0]))
        a.append(twin_case(rng, rows, L, p['max'], k, k, mp, cm, r2))
    b = []
    for i in range(1500 if q else 16000):
        n, Cn, K = G.dims(rng, [rng.choice([1, 2, 3, 4, 6, 9, 14, 20, 30, 45]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=2500)
        rows, L = G.data(rng, n, Cn, K)
        mp, cm, r2 = transform(rng, rng.choice(HOWS), rows, L)
        k = kindof(K)
        b.append(twin_case(rng, rows, L, depth_limit(rng, n), k, k, mp, cm, r2, lof='mc' if k == 'amg' else 'reg'))
    c = []
    for (n, Cn, K, mx) in ([(200, 3, 2, 10), (400, 4, 3, 6), (4, 300, 1, 3), (100, 1, 1, 150)] * (1 if q else 12)):
        for how in ['perm', 'dup', 'mono', 'all']:
            rows, L = G.data(rng, n, Cn, max(2, K), feats=G.PLAIN)
            mp, cm, r2 = transform(rng, how, rows, L); k = kindof(2)
            c.append(twin_case(rng, rows, L, mx, k, k, mp, cm, r2, lof='mc' if k == 'amg' else 'reg'))
    return [Stream('model-problems', 'TwinTrace', a, conv_twin), Stream('random', 'TwinTrace', b, conv_twin), Stream('large', 'TwinTrace', c, conv_twin)]


# ------------------------------------------------------------------ C25: units and order of the targets
LAWS = ['pow2', 'pow2', 'mult', 'shift', 'shift', 'order', 'repeat', 'const', 'mix']


def law_of(rng, how, L):
    """(src, a, s): target j of the second data set is a * target src[j] + s[j]"""
    K = len(L[0]); src, a, s = list(range(1, K + 1)), 1.0, [0.0] * K
    if how == 'pow2': a = rng.choice([1, 1, -1]) * 2.0 ** rng.choice([-40, -20, -12, -7, -3, -1, 1, 2, 5, 8, 12, 20, 40])
    if how in ('mult', 'mix'): a = rng.choice([3.0, -5.0, 7.0, 0.5, -1.0, 100.0, 1000.0, -3.0 * 4096])
    if how in ('shift', 'mix'): s = [rng.choice([0.0, 1.0, -1.0, 5.0, -17.0, 100.0, 0.5, 4096.0, -65536.0]) for _ in range(K)]
    if how in ('order', 'mix'):
        o = rng.sample(range(K), K); src, s = [src[i] for i in o], [s[i] for i in o]
    if how == 'repeat' or how == 'mix' and rng.random() < 0.3:
        r = rng.choice([2, 2, 3, 5]); src, s = src * r, s * r
        if rng.random() < 0.5:
            o = rng.sample(range(len(src)), len(src)); src, s = [src[i] for i in o], [s[i] for i in o]
    if how == 'const' or how == 'mix' and rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 3])):
            at = rng.randrange(len(src) + 1); src.insert(at, 0); s.insert(at, rng.choice([0.0, 1.0, -4.0, 0.1]))
    return src, a, s


def follow(law, v):
    src, a, s = law
    return [s[j] if c == 0 else a * v[c - 1] + s[j] for j, c in enumerate(src)]


def exact_law(law, L):
    """does floating point follow the law exactly, far from overflow and underflow?"""
    from fractions import Fraction as F
    src, a, s = law
    for v in L:
        for x, j in zip(follow(law, v), range(len(src))):
            if x != x or abs(x) > 1e70: return False
            if src[j] and (v[src[j] - 1] != 0 and abs(v[src[j] - 1]) < 1e-70 or x != 0 and abs(x) < 1e-70): return False
            if src[j] and F(x) != F(a) * F(v[src[j] - 1]) + F(s[j]): return False
    return True


def unit_case(rng, rows, L, maxl, kind, how, lof=None):
    for _ in range(6):
        law = law_of(rng, how, L)
        if exact_law(law, L): break
    else: return None
    src, a, s = law
    lof = lof or ('mc' if kind == 'amg' else 'reg')
    c = twin_case(rng, rows, L, maxl, kind, kind, lof=lof)
    L2 = [follow(law, v) for v in L]
    b = c['b']; b['labels'], b['k'] = fm(L2), len(src)
    c['law'] = {'src': src, 'a': fmt(a), 's': [fmt(x) for x in s]}
    if kind in ('row', 'sorted'):
        T = [(rows, L)]
        TL = [list(rng.choice(L)) for _ in range(rng.choice([1, 3, 6]))]
        T.append((G.queries(rng, rows, [(j, rng.choice(rows)[j]) for j in range(len(rows[0]))], len(TL), extreme=True), TL))
        c['a']['tests'] = [{'rows': fm(r), 'labels': fm(l)} for r, l in T]
        b['tests'] = [{'rows': fm(r), 'labels': fm([follow(law, v) for v in l])} for r, l in T]
    elif kind == 'gb' and lof == 'reg' and how == 'pow2' and len(rows) * len(L[0]) < 300:
        c['ask'] = fm(G.queries(rng, rows, [], 5) + [list(x) for x in rows[:5]])
        c['rounds'] = rng.choice([0, 1, 2, 4, 7]); c['lr'] = fmt(rng.choice(RATES))
    if lof == 'mc': c['leafcmp'] = False
    return c


def unit_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('twin', []), 500 if q else 6000):
        if p['kind'] != 'units': continue
        rows, L = from_model(rng, p); rows, L = unfm(rows), unfm(L)
        c = unit_case(rng, rows, L, p['max'], rng.choice(['row', 'sorted', 'gb', 'gb']), rng.choice(LAWS))
        if c: a.append(c)
    b = []
    for i in range(1500 if q else 16000):
        n, Cn, K = G.dims(rng, [rng.choice([1, 2, 3, 4, 6, 9, 14, 20, 30, 45]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=2500)
        k = rng.choice(['row', 'sorted', 'gb', 'gb', 'amg'])
        how = rng.choice(LAWS)
        if k == 'amg': K = max(2, K)
        lab = None if how in ('pow2', 'order', 'repeat', 'const') else rng.choice(['smallint', 'binary', 'onehot', 'alt', 'step', 'sparse'])
        rows, L = G.data(rng, n, Cn, K, lab=lab)
        if how not in ('pow2',) and n > 3 and rng.random() < 0.12:      # whole numbers whose best gain is a small part of the spread
            rows, L = G.balanced(rng, n, Cn, K); m = float(rng.choice([10, 50, 200, 1000]))
            L = [[m * (1 if x > 0 else -1) + (float(rng.randrange(3)) if j == 0 else 0.0) for j, x in enumerate(v)] for v in L]
        c = unit_case(rng, rows, L, depth_limit(rng, n), k, how)
        if c: b.append(c)
    c = []
    for (n, Cn, K, mx) in ([(200, 3, 2, 10), (400, 4, 3, 6), (4, 300, 1, 3), (100, 1, 1, 150), (20, 2, 120, 6)] * (1 if q else 12)):
        for how in ['pow2', 'mult', 'shift', 'repeat']:
            rows, L = G.data(rng, n, Cn, K, feats=G.PLAIN, lab='real' if how == 'pow2' else 'smallint')
            x = unit_case(rng, rows, L, mx, rng.choice(['row', 'sorted', 'gb']), how)
            if x: c.append(x)
    return [Stream('model-problems', 'TwinTrace', a, conv_twin), Stream('random', 'TwinTrace', b, conv_twin), Stream('large', 'TwinTrace', c, conv_twin)]


# ------------------------------------------------------------------ C26: growing is local
def local_case(rng, rows, L, maxl, kind):
    lof = 'mc' if kind == 'amg' or (kind == 'gb' and rng.random() < 0.3) else 'reg'
    if rng.random() < 0.35 and len(rows[0]) < 30:      # columns that order the rows alike
        for _ in range(rng.choice([1, 1, 2, 3])):
            j, at, f = rng.randrange(len(rows[0])), rng.randrange(len(rows[0]) + 1), rng.choice([1.0, 1.0, 2.0, 0.25])
            rows = [r[:at] + [r[j] * f] + r[at:] for r in rows] if all(abs(r[j]) < 1e300 and (r[j] == 0 or abs(r[j]) > 1e-300) for r in rows) else rows
    c = twin_case(rng, rows, L, maxl, kind, kind, lof=lof)
    c['a']['tests'] = c['b']['tests'] = []
    if rng.random() < 0.5:
        c['a']['max'] = maxl; c['b']['max'] = maxl + rng.choice([1, 1, 2, 5, 1000]); c['cut'] = maxl
    else: c['sub'] = rng.choice([rng.randrange(1, 4), rng.randrange(1000), rng.randrange(1000)])
    return c


def local_streams(tier, rng, gens):
    q = tier == 'quick'
    kinds = ['row', 'sorted', 'gb', 'amg']
    a = []
    for p in pick(rng, gens.get('local', []), 500 if q else 6000):
        rows, L = from_model(rng, p); rows, L = unfm(rows), unfm(L)
        a.append(local_case(rng, rows, L, p['max'], rng.choice(kinds if len(L[0]) > 1 else kinds[:3])))
    b = []
    for i in range(1500 if q else 16000):
        n, Cn, K = G.dims(rng, [rng.choice([2, 3, 4, 6, 9, 14, 20, 30, 45]), rng.choice([1, 1, 2, 3, 5]), rng.choice([1, 2, 3, 4])], budget=2500)
        k = rng.choice(kinds)
        rows, L = G.data(rng, n, Cn, max(2, K) if k == 'amg' else K)
        b.append(local_case(rng, rows, L, rng.choice([0, 1, 1, 2, 2, 3, 4, 6, 10]), k))
    c = []
    for (n, Cn, K, mx) in ([(200, 3, 2, 5), (400, 4, 3, 4), (4, 300, 2, 2), (120, 1, 2, 40), (1100, 1, 2, 2)] * (1 if q else 12)):
        for k in kinds:
            rows, L = G.data(rng, n, Cn, max(2, K), feats=G.PLAIN, lab=rng.choice(['real', 'smallint', 'alt', 'onehot']))
            c.append(local_case(rng, rows, L, mx, k))
    for n in (40, 140) if q else (100, 280):
        rows, L = chain(n)
        for lim in (10, n // 2, n - 3): c.append(local_case(rng, rows, L, lim, rng.choice(kinds[:3])))
    return [Stream('model-problems', 'TwinTrace', a, conv_twin), Stream('random', 'TwinTrace', b, conv_twin), Stream('large', 'TwinTrace', c, conv_twin)]


def local_models(tier, seed):
    cf = 'CONSTANTS NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} MaxLv = {%s} Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS DeeperOnlyExtends SubtreeIsTree%s\nCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCLocal', cfg=cf % (4, 1, 1, '0, 1, 2, 3', '0, 1, 3', '0, 1, 2, 3', 'none', ' EmitCase'), emit='local', what='4 rows, every limit and every subtree', extra=('-workers', '4'))]
    m += [dict(mod='MCLocal', cfg=cf % (4, 1, 1, '0, 1, 2, 3', '0, 1', '1, 2', v, ''), expect='violation', what='defect variant: ' + v) for v in ('stump', 'memory')]
    if tier != 'quick':
        m.append(dict(mod='MCLocal', cfg=cf % (3, 2, 2, '0, 1, 2', '0, 1', '1, 2, 3', 'none', ' EmitCase'), emit='local', what='3 rows, 2 columns, 2 targets', extra=('-workers', '8')))
        m.append(dict(mod='MCLocal', cfg=cf % (5, 1, 1, '0, 1, 2, 3', '0, 1', '1, 2, 3', 'none', ''), what='5 rows', extra=('-workers', '8')))
    return m


def unit_models(tier, seed):
    cf = 'CONSTANTS NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} MaxLv = {%s} Kinds = {"units"} Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS Correspond NeverLoose%s\nCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCTwin', cfg=cf % (3, 1, 2, '0, 1, 2', '0, 1', '1, 3', 'none', ' EmitCase'), emit='twin', what='3 rows, 2 targets, every law of the label units', extra=('-workers', '4')),
         dict(mod='MCTwin', cfg=cf % (3, 1, 2, '0, 1, 2', '0, 1', '1, 3', 'cap', ''), expect='violation', what='defect variant: large labels are cut')]
    if tier != 'quick':
        m.append(dict(mod='MCTwin', cfg=cf % (3, 2, 2, '0, 1, 2', '0, 1', '3', 'none', ' EmitCase'), emit='twin', what='3 rows, 2 columns, 2 targets', extra=('-workers', '8')))
        m.append(dict(mod='MCTwin', cfg=cf % (4, 1, 1, '0, 1, 2, 3', '0, 1, 3', '3', 'none', ' EmitCase'), emit='twin', what='4 rows', extra=('-workers', '8')))
    return m


def twin_models(tier, seed):
    cf = 'CONSTANTS NR = %d NC = %d NK = %d Vals = {%s} Lbls = {%s} MaxLv = {%s} Kinds = {%s} Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS Correspond NeverLoose%s\nCHECK_DEADLOCK FALSE\n'
    ks = '"perm", "dup", "copy", "const"'
    m = [dict(mod='MCTwin', cfg=cf % (3, 1, 1, '0, 1, 2', '0, 1, 3', '1, 3', ks, 'none', ' EmitCase'), emit='twin', what='3 rows, all row orders, duplicates, copied and constant columns', extra=('-workers', '4'))]
    m += [dict(mod='MCTwin', cfg=cf % (3, nc, 1, '0, 1, 2', '0, 1, 3', '3', k, v, ''), expect='violation', what='defect variant: ' + v, extra=('-workers', '4')) for v, nc, k in (('first', 1, '"perm"'), ('last', 2, '"copy"'))]
    if tier != 'quick':
        m.append(dict(mod='MCTwin', cfg=cf % (3, 2, 1, '0, 1, 2', '0, 1, 3', '3', ks, 'none', ' EmitCase'), emit='twin', what='3 rows, 2 columns', extra=('-workers', '8')))
        m.append(dict(mod='MCTwin', cfg=cf % (4, 1, 2, '0, 1, 2, 3', '0, 1', '3', '"dup", "copy", "const"', 'none', ' EmitCase'), emit='twin', what='4 rows, 2 targets', extra=('-workers', '8')))
    return m


def part_and_tree_models(tier, seed): return part_models(tier, seed)[1:2] + tree_models(tier, seed)


# ------------------------------------------------------------------ C17: histories of calls
def conv_history(h, r):
    t = {'rows': [], 'labels': []}
    ev = []
    for c, x in zip(h['calls'] * 2, r['results']):
        m = c['m']
        if c['call'] == 'train': ev.append({'ev': 'train', 'm': m, 'kind': '%s/%d' % (c['kind'], c['cfg']), 'rounds': c['rounds'], 'trees': x['trees'], 'init': x['init'], 'mlr': x['mlr']})
        elif c['call'] == 'show': ev.append({'ev': 'show', 'm': m, 'trees': x['trees'], 'init': x['init'], 'mlr': x['mlr']})
        elif c['call'] == 'predict': ev.append({'ev': 'predict', 'm': m, 'q': 'q%d' % c['q'], 'a': x['pred']})
        elif c['call'] == 'batch': ev.append({'ev': 'batch', 'm': m, 'qs': ['q%d' % q for q in c['qs']], 'as': x['preds']})
        else: ev.append({'ev': 'score', 'm': m, 'key': 's' + str(c['qs']), 'a': [[x['score']]]})
    for x in ev:      # answers of all kinds have one shape: a sequence of texts
        if x['ev'] == 'score': x['a'] = x['a'][0]
    ev.append({'ev': 'end'})
    t['events'] = ev
    return t


def twice(prog, cases, wd):
    """the same calls in two separate processes: the second must repeat the first"""
    a = run_harness(HARNESS(), cases, wd + "a"); b = run_harness(HARNESS(), cases, wd + "b", shards=max(1, CPUS - 1))
    out = []
    for x, y in zip(a, b):
        if x['outcome'] != 'ok' or y['outcome'] != 'ok': out.append(x if x['outcome'] not in ('ok', 'skipped') else y if y['outcome'] != 'ok' else x)
        else: out.append(dict(x, results=x['results'] + y['results']))
    return out


def history_case(rng, calls, kinds, rounds_scale=1, ncfg=1):
    """several training configurations: the same or almost the same data, another depth, rate or label"""
    K = G.ext(rng, rng.choice([2, 3]), 0.1, 20); n = G.ext(rng, rng.choice([3, 5, 8, 12, 20]), 0.1, 300); Cn = rng.choice([1, 2, 3])
    rows, L = G.classes(rng, n, Cn, K) if kinds != ['reg'] else G.data(rng, n, Cn, K, feats=G.PLAIN)
    nq = max([6] + [max([c.get('q', 0)] + c.get('qs', [])) for c in calls])
    Q = G.queries(rng, rows, [], nq)
    for i in range(1, nq):      # questions that are easily taken for one another
        if rng.random() < 0.3: Q[i] = list(Q[i - 1]); j = rng.randrange(Cn); Q[i][j] = rng.choice(rows)[j]
    QL = [list(rng.choice(L)) for _ in Q]
    cfgs = [{'rows': fm(rows), 'labels': fm(L), 'max': rng.choice([0, 1, 2, 3, 6]), 'lr': fmt(rng.choice(RATES + [0.0]))}]
    while len(cfgs) < ncfg:
        g = dict(cfgs[0]); u = rng.random()
        if u < 0.35: g['max'] = (g['max'] + rng.choice([1, 2])) % 5
        elif u < 0.6: g['lr'] = fmt(rng.choice([0.2, 0.4, 0.9]))
        elif u < 0.8: M = [list(x) for x in L]; i = rng.randrange(n); M[i] = list(rng.choice(L)) if kinds != ['reg'] else [v + 1 for v in M[i]]; g['labels'] = fm(M)
        elif u < 0.9: M = [list(x) for x in rows]; i, j = rng.randrange(n), rng.randrange(n); M[i], M[j] = M[j], M[i]; g['rows'] = fm(M)
        else: M = [list(x) for x in L]; i, j = rng.randrange(n), rng.randrange(n); M[i], M[j] = M[j], M[i]; g['labels'] = fm(M)
        cfgs.append(g)
    out = []
    kd = rng.choice(kinds)
    for c in calls:
        c = dict(c)
        if c['call'] == 'train':
            c['rounds'] *= rounds_scale
            c.setdefault('kind', kd); c.setdefault('cfg', rng.randrange(ncfg)); c['mt'] = rng.random() < 0.5; c['threads'] = rng.choice([1, 2, 4, 8])
        out.append(c)
    tr = {'k': K, 'rounds': 1, 'mt': False, 'threads': 2}
    return {'op': 'history', 'train': tr, 'cfgs': cfgs, 'calls': out, 'qrows': fm(Q), 'qlabels': fm(QL)}


def interleaved_calls(rng, kind, T, ncfg):
    """models of different configurations asked the same things in turn"""
    ms = ['a', 'b', 'c'][:ncfg]
    out = [{'call': 'train', 'm': m, 'rounds': T, 'kind': kind, 'cfg': i} for i, m in enumerate(ms)]
    for _ in range(rng.choice([4, 8, 12])):
        u = rng.random(); q = rng.randint(1, 6); qs = [rng.randint(1, 6) for _ in range(rng.randint(1, 4))]
        call = {'call': 'predict', 'q': q} if u < 0.5 else {'call': 'batch', 'qs': qs} if u < 0.75 else {'call': 'score', 'qs': sorted(set(qs))}
        for m in rng.sample(ms, len(ms)): out.append(dict(call, m=m))
        if rng.random() < 0.2: out.append({'call': 'show', 'm': rng.choice(ms)})
    return out


def random_calls(rng, n, kinds):
    names, live, out = ['a', 'b', 'c'], [], []
    for i in range(n):
        u = rng.random()
        if not live or u < 0.25:
            m = rng.choice(names); out.append({'call': 'train', 'm': m, 'rounds': rng.choice([0, 1, 2, 3, 5, 8, 13, 20]), 'kind': rng.choice(kinds)})
            if m not in live: live.append(m)
            continue
        m = rng.choice(live)
        if u < 0.5: out.append({'call': 'predict', 'm': m, 'q': rng.randint(1, 6)})
        elif u < 0.7: out.append({'call': 'batch', 'm': m, 'qs': [rng.randint(1, 6) for _ in range(rng.randint(1, 6))]})
        elif u < 0.85: out.append({'call': 'score', 'm': m, 'qs': sorted(rng.sample(range(1, 7), rng.randint(1, 6)))})
        else: out.append({'call': 'show', 'm': m})
    return out


def history_streams(tier, rng, gens):
    q = tier == 'quick'
    ks = ['reg', 'mc', 'amg']
    a = [history_case(rng, x['hist'], [ks[i % 3]], rng.choice([1, 2, 3])) for i, x in enumerate(pick(rng, gens.get('hist', []), 700 if q else 12000))]
    def some(i): return ks if rng.random() < 0.5 else [ks[i % 3]]
    b = []
    for i in range(300 if q else 5000):
        k = some(i); b.append(history_case(rng, random_calls(rng, rng.choice([8, 15, 25, 40]), k), k, ncfg=rng.choice([1, 1, 2, 3])))
    # the same training with more and more rounds, and back
    c = []
    for i in range(60 if q else 900):
        ts = [rng.choice([1, 2, 3, 4, 7, 10, 11, 16, 25, 33, 65, 101]) for _ in range(4)]
        calls = [dict({'call': 'train', 'm': 'a', 'rounds': t, 'kind': ks[i % 3]}) for t in ts + [max(ts) + 1, max(ts) - 1]]
        c.append(history_case(rng, calls, [ks[i % 3]]))
    d = []
    for i in range(250 if q else 4000):
        nc = rng.choice([2, 2, 3]); d.append(history_case(rng, interleaved_calls(rng, ks[i % 3], rng.choice([1, 1, 2, 3, 6]), nc), [ks[i % 3]], ncfg=nc))
    # large batches
    for i in range(30 if q else 300):
        m = G.ext(rng, 8, 1.0, 520); qs = list(range(1, m + 1)); k = ks[i % 3]
        calls = [{'call': 'train', 'm': 'a', 'rounds': 2, 'kind': k}, {'call': 'batch', 'm': 'a', 'qs': qs}] + [{'call': 'predict', 'm': 'a', 'q': x} for x in rng.sample(qs, min(20, m)) + [m]]
        calls += [{'call': 'batch', 'm': 'a', 'qs': rng.sample(qs, len(qs))}, {'call': 'score', 'm': 'a', 'qs': qs}, {'call': 'batch', 'm': 'a', 'qs': qs[:-1]}, {'call': 'score', 'm': 'a', 'qs': qs}]
        d.append(history_case(rng, calls, [k]))
    return [Stream('model-histories', 'HistoryTrace', a, conv_history, runner=twice), Stream('random', 'HistoryTrace', b, conv_history, runner=twice),
            Stream('longer-and-longer', 'HistoryTrace', c, conv_history, runner=twice), Stream('interleaved', 'HistoryTrace', d, conv_history, runner=twice)]


def history_models(tier, seed):
    cf = 'CONSTANTS Names = {"a", "b"} MaxRounds = %d Rows = {1, 2} MaxCalls = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS AllPrefixes%s\nPROPERTIES KnownOnlyGrows MemoOnlyGrows\nCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCHistory', cfg=cf % (2, 4, 'none', ' EmitHist'), emit='hist', what='every history of 4 calls on 2 models', extra=('-workers', '4'))]
    m += [dict(mod='MCHistory', cfg=cf % (2, 4, v, ''), expect='violation', what='defect variant: ' + v) for v in ('warm', 'drift')]
    if tier != 'quick': m.append(dict(mod='MCHistory', cfg=cf % (1, 5, 'none', ' EmitHist'), emit='hist', what='every history of 5 calls on 2 models', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C18: reading files
GOODF = ['0', '1', '-1', '2.5', '-0.25', '1e5', '1E-3', '+3', '.5', '5.', '-0', '0.1', '123456789012345678901234567890', '0.1000000000000000055511151231257827',
         '4.9e-324', '1.7976931348623157e308', '2.2250738585072011e-308', '9007199254740993', '-7.0', '3.141592653589793', '1e22', '1e23', '-1.5e-7']
SPECIALF = ['inf', '-inf', 'NaN', 'Infinity', '-infinity', 'nan']
BADF = ['', 'x', '1,5', '1.2.3', '--1', '1e', '1 2', 'abc', '-', '1f', '0x1G', 'TRUE', '1;2', '$1', '1e5.5', '\u0661', 'e5', '.', '#3', '#', '# 1', '//1', '%2', '!', ';', "'3'", '0x10', '1_000', '1d5', '10%', '1e+', '++1', '1-', 'null', 'NA', 'None', '?', 'true', '1.0.', '1/2', '\ufeff1', '1.e', 'infin', '0b1', '1 000']


def csv_text(rng, header, recs, style):
    eol = style.get('eol', '\n')
    def cell(f, w):
        if style.get('quote') and rng.random() < 0.5 or any(c in f for c in ',"\r\n') or (f == '' and w == 1): return '"' + f.replace('"', '""') + '"'
        return f
    lines = [','.join(cell(f, len(r)) for f in r) for r in [header] + recs]
    if style.get('blank') and len(lines) > 1: lines.insert(rng.randrange(1, len(lines) + 1), '')
    return eol.join(lines) + ('' if style.get('noend') else eol)


def conv_reader(h, r):
    t = {'kind': h['kind'], 'k': h['k'], 'a': h['_a'], 'b': h['_b'], 'header': h['_header'], 'wb': h['_wb'], 'odd': h['_odd'], 'missing': h['_missing']}
    if r['outcome'] == 'panic': t['events'] = [{'ev': 'refused'}]
    elif r['outcome'] != 'ok': t['events'] = [{'ev': r['outcome']}]
    elif h['kind'] == 'names': t['events'] = [{'ev': 'names', 'names': r['names']}]
    else:
        y = [[x] for x in r['labels']] if h['kind'] == 'single' else r['labels']
        pairs = list(zip(r['rows'], y))
        if len(pairs) <= 1500: ev = [{'ev': 'row', 'x': a, 'y': b} for a, b in pairs]
        else: ev = [{'ev': 'rows', 'xs': [a for a, _ in pairs[i:i + 2000]], 'ys': [b for _, b in pairs[i:i + 2000]]} for i in range(0, len(pairs), 2000)]
        if len(r['rows']) != len(y): ev.append({'ev': 'unpaired'})
        if h['kind'] != 'single': ev.append({'ev': 'cols', 'cols': r['cols']})
        t['events'] = ev + [{'ev': 'done'}]
    return t


conv_reader.wants_failures = True


def reader_case(rng, kind, k, header, a, b=None, hb=None, style=None, odd=False, missing=None):
    st = style or {}
    c = {'op': 'csv', 'kind': kind, 'k': k, 'a': csv_text(rng, header, a, st)}
    if b is not None: c['b'] = csv_text(rng, hb, b, st)
    if missing: c[missing] = None
    strip = lambda rs: [[f.strip(' \t') for f in r] for r in rs]
    c.update(_a=strip(a), _b=strip(b or []), _header=header, _wb=len(hb or []), _odd=odd, _missing=bool(missing))
    return c


def names_of(rng, w):
    pool = ['a', 'petal length', 'x1', 'label', 'with, comma', 'quo"te', '3', 'é', '', 'sepal_width', '1.5', 'Y', ' lead', 'trail ', 'Petal Length (cm)', 'n' * rng.choice([33, 65, 129, 257, 1025]), '日本']
    return [rng.choice(pool) if rng.random() < 0.5 else 'f%d' % j for j in range(w)]


def hdr(rng, w, c='f'):
    u = rng.random()
    if u < 0.8: return ['%s%d' % (c, j) for j in range(w)]
    if u < 0.9: return [str(j + rng.randint(0, 9)) for j in range(w)]       # a header that looks like data
    return [rng.choice(['#id', '# x', 'x', 'class', '1.5', 'a b', '-', '%', '//', 'NaN', "it's", '"q"', 'a,b']) if rng.random() < 0.6 else '%s%d' % (c, j) for j in range(w)]


def reader_streams(tier, rng, gens):
    q = tier == 'quick'
    STY = [{}, {}, {'eol': '\r\n'}, {'noend': True}, {'quote': True}, {'blank': True}, {'eol': '\r\n', 'noend': True, 'quote': True}]
    a = []
    def plausible(p): return p['a'] and all(f not in ('x', '', '-1', '0.5') for r in p['a'] + p['b'] for f in r) and len({len(r) for r in p['a']}) == 1
    fs = gens.get('file', [])
    for p in pick(rng, [x for x in fs if plausible(x)], 1800 if q else 30000) + pick(rng, [x for x in fs if not plausible(x)], 1200 if q else 30000):
        h = ['h%d' % j for j in range(p['wa'])]; hb = ['g%d' % j for j in range(p['wb'])]
        if any(r == [''] for r in p['a'] + p['b']) and rng.random() < 0.5: pass
        a.append(reader_case(rng, p['kind'], p['k'], h, p['a'], p['b'] if p['kind'] == 'multi' else None, hb, rng.choice(STY[:5])))
    b = []
    def num(): 
        u = rng.random()
        if u < 0.5: return fmt(rng.choice([rng.uniform(-100, 100), rng.gauss(0, 1), float(rng.randint(-50, 50)), 10 ** rng.uniform(-20, 20)]))
        if u < 0.6: return repr(rng.uniform(-1, 1)) + str(rng.randrange(10 ** 6))
        if u < 0.63: return rng.choice(SPECIALF)
        return rng.choice(GOODF)
    for i in range(3500 if q else 40000):
        kind = rng.choice(['single', 'onehot', 'onehot', 'multi', 'multi', 'multi', 'names'])
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 30]); w = rng.choice([1, 2, 2, 3, 5, 9]); K = rng.choice([1, 2, 3, 5, 10]); wb = rng.choice([1, 1, 2, 4, 10])
        if kind == 'onehot': w = max(2, w)
        A = [[num() for _ in range(w)] for _ in range(n)]
        if kind == 'onehot':
            for r in A: r[-1] = rng.choice([str(rng.randrange(K)), str(rng.randrange(K)) + rng.choice(['', '.0', 'e0', '.'])])
        B = [[num() for _ in range(wb)] for _ in range(n)] if kind == 'multi' else None
        odd = False
        u = rng.random()
        T = [x for x in (A, B) if x]
        hw, hbw = w, wb
        if u < 0.45 and T:          # one thing wrong
            X = rng.choice(T); r = rng.randrange(len(X)); d = rng.choice(['bad', 'short', 'long', 'class', 'count', 'pad', 'hdr', 'swapbad'])
            if d == 'bad' or d == 'swapbad': X[r][rng.randrange(len(X[r]))] = rng.choice(BADF)
            elif d == 'short' and len(X[r]) > 1: X[r].pop(rng.randrange(len(X[r])))
            elif d == 'long': X[r].insert(rng.randrange(len(X[r]) + 1), num())
            elif d == 'class' and kind == 'onehot': A[r][-1] = rng.choice(['-1', str(K), str(K + 3), '0.5', '1.25', '-0.5', 'NaN', 'inf', '-inf', '1e30', '-1e-9', '0.9999999999999999', str(2 ** 32), str(2 ** 64), str(2 ** 64 + 1), str(256), str(256 + K - 1)]) if r < len(A) else '7'
            elif d == 'count' and kind == 'multi':
                Y = rng.choice([A, B])
                if rng.random() < 0.5 and len(Y) > 1: del Y[rng.randrange(len(Y)):]
                else: Y.append([num() for _ in Y[0]])
            elif d == 'pad': X[r][rng.randrange(len(X[r]))] = rng.choice([' 1', '2 ', ' 3.5 ', '\t4']); odd = True
            elif d == 'hdr': hw, hbw = (w + rng.choice([-1, 1]) or 2, wb) if X is A else (w, wb + rng.choice([-1, 1]) or 2)
        st = rng.choice(STY)
        if kind == 'single' and w == 1: odd = True
        h = names_of(rng, hw) if kind == 'names' else hdr(rng, hw)
        if kind == 'names':
            if h == ['']: h = ['z']
            odd = False
        b.append(reader_case(rng, kind, K, h, A, B, hdr(rng, hbw, 't'), st, odd, missing=rng.choice(['a', 'b'] if kind == 'multi' else ['a']) if rng.random() < 0.01 else None))
    c = []
    for (n, w, kind, K) in ([(3000, 6, 'multi', 1), (1200, 12, 'onehot', 70), (5, 400, 'multi', 1), (3, 2000, 'onehot', 70), (2000, 3, 'single', 1)]
                         + [(G.edge(rng, 2000, 6000 if q else 20000), 2, kd, 7) for kd in ('multi', 'onehot', 'single')] + [(40, 2, 'onehot', G.edge(rng, 256, 1100)), (G.edge(rng, 5000, 20000), 1, rng.choice(['single', 'onehot']), 7), (2, G.edge(rng, 4096, 8192), 'multi', 1), (66000 + rng.randrange(4000), 1, rng.choice(['single', 'onehot', 'multi']), 7)]) * (1 if q else 5) + ([] if q else [(70000, 1, 'multi', 1)]):
        A = [[fmt(rng.gauss(0, 10)) for _ in range(w)] for _ in range(n)]
        if n > 100 and rng.random() < 0.5:      # records that repeat
            for i in range(1, n):
                if rng.random() < 0.3: A[i] = list(A[i - 1])
        if kind == 'onehot':
            for r in A: r[-1] = str(rng.randrange(K))
            A[-1][-1] = str(K - 1)
        c.append(reader_case(rng, kind, K, ['f%d' % j for j in range(w)], A, [[fmt(float(i)), fmt(rng.random())] for i in range(n)] if kind == 'multi' else None, ['u', 'v'], rng.choice(STY)))
    for name, kind, k in (('iris.csv', 'onehot', 3), ('digits_test.csv', 'onehot', 10), ('wine_test.csv', 'onehot', 4), ('iris2.csv', 'single', 3), ('synthetic_1.csv', 'single', 2)):
        try: import csv as _csv; d = list(_csv.reader(open(os.path.join(REPO, 'common/data-files', name))))
        except OSError: continue
        d = [x for x in d if x]
        d = d[:1] + d[1:601 if q else 6000]
        c.append(reader_case(rng, kind, k, d[0], d[1:]))
        c.append(reader_case(rng, 'names', k, d[0], d[1:3]))
    return [Stream('model-files', 'ReaderTrace', a, conv_reader), Stream('random', 'ReaderTrace', b, conv_reader), Stream('large', 'ReaderTrace', c, conv_reader)]


def reader_models(tier, seed):
    cf = 'CONSTANTS Fields = {%s} Labels = {%s} MaxRecs = %d Wid = %d Kinds = {%s} KK = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS Faithful RefusedOnlyIfBad BadNeverDone%s\n%sCHECK_DEADLOCK FALSE\n'
    al = '"single", "onehot", "multi"'
    m = [dict(mod='MCReader', cfg=cf % ('"1", "2.5", "x", ""', '"0", "1", "2", "-1", "0.5", "1.0"', 2, 2, al, 2, 'none', ' EmitCase', 'PROPERTY Decided\n'), emit='file', what='every file of up to 2 records of 2 fields'),
         dict(mod='MCReader', cfg=cf % ('"1", "x"', '"0", "2"', 2, 3, al, 2, 'none', ' EmitCase', 'PROPERTY Decided\n'), emit='file', what='every file of up to 2 records of 2 or 3 fields'),
         dict(mod='MCReader', cfg=cf % ('"1", "3"', '"0", "1", "2"', 3, 2, al, 3, 'none', ' EmitCase', ''), emit='file', what='every file of up to 3 records, 3 classes')]
    for v in ('skip', 'zip', 'cast'):
        m.append(dict(mod='MCReader', cfg=cf % ('"1", "x"', '"0", "-1"', 2, 2, al, 2, v, '', ''), expect='violation', what='defect variant: ' + v))
    if tier != 'quick':
        m.append(dict(mod='MCReader', cfg=cf % ('"1", "2", "x"', '"0", "2", "0.5"', 3, 2, al, 2, 'none', ' EmitCase', ''), emit='file', what='every file of up to 3 records', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C19: printing trees
def rust_str(s):
    return s.replace('\\', '\\\\').replace('"', '\\"').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r')


def rust_mat(m): return '[' + ', '.join('[' + ', '.join(r) + ']' for r in m) + ']'


def conv_print(h, r):
    ns = []
    for n in r['nodes']:
        leaf = not (n['tb'] or n['fb'])
        nm = '' if leaf else h['names'][n['col'] - 1]
        x = {'p': list(n['p']), 'leaf': leaf, 'name': nm, 'esc': rust_str(nm), 'thr': n['thr']}
        x['texts'] = [rust_mat(n['leaf']['rows']), rust_mat(n['leaf']['labels'])] if leaf else []
        ns.append(x)
    return {'nodes': ns, 'spacing': h.get('spacing', ''), 'events': [{'ev': 'line', 's': x} for x in r['lines']] + [{'ev': 'end', 'nl': r['nl']}]}


def shape_of(rng, s, cols, thrs, datas):
    if s['leaf']:
        R, L = datas[s['data']]
        return {'leaf': True, 'rows': fm(R), 'labels': fm(L)}
    return {'leaf': False, 'col': cols[s['name']], 'thr': fmt(thrs[s['thr']]), 't': shape_of(rng, s['t'], cols, thrs, datas), 'f': shape_of(rng, s['f'], cols, thrs, datas)}


def flat(s):
    """a nested shape as its nodes in preorder"""
    out, st = [], [s]
    while st:
        x = st.pop(); out.append({k: v for k, v in x.items() if k not in ('t', 'f')})
        if not x['leaf']: st += [x['f'], x['t']]
    return out


def rand_shape(rng, d, w, thr, leaf):
    if d == 0 or rng.random() < 0.25: R, L = leaf(); return {'leaf': True, 'rows': fm(R), 'labels': fm(L)}
    return {'leaf': False, 'col': rng.randint(1, w), 'thr': fmt(thr()), 't': rand_shape(rng, d - 1, w, thr, leaf), 'f': rand_shape(rng, d - 1, w, thr, leaf)}


NAMEPOOL = ['f' * 40 + '1', 'f' * 40 + '2', 'g' * 300, ' lead', 'trail ', 'petal length (cm)', 'x', 'x1', 'x11', 'a >= b', 'quo"te', 'back\\slash', 'tab\there', 'é', '日本', '', 'Is x', 'True', '--> True: ', 'n a m e', '10', 'Predict:', '%s {} {:?}', "it's", 'new\nline']


def print_streams(tier, rng, gens):
    q = tier == 'quick'
    def thr():
        return rng.choice([0.0, -0.0, 1.0, 0.1, -2.5, 1 / 3, 1e-7, 123456.789, 1e16, 1e300, 5e-324, 0.30000000000000004, float(rng.randint(-99, 99)), rng.uniform(-1, 1), rng.gauss(0, 1) * 10 ** rng.randint(-12, 12), G.INF, -G.INF])
    def leaf():
        n, w, k = rng.choice([0, 1, 1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 2, 3])
        return [[thr() for _ in range(w)] for _ in range(n)], [[thr() for _ in range(k)] for _ in range(n)]
    SP = ['', '', '', ' ', '    ', '       ']
    a = []
    for p in pick(rng, gens.get('shape', []), 500 if q else 1298):
        names = rng.sample(NAMEPOOL, 2); t0 = thr(); t1 = rng.choice([G.nxt(t0) if abs(t0) < 1e300 else 0.5, thr()])
        a.append({'op': 'print', 'shape': flat(shape_of(rng, p, {1: 1, 2: 2}, {0: t0, 1: t1}, {1: leaf(), 2: leaf()})), 'names': names, 'spacing': rng.choice(SP)})
    b = []
    for i in range(1500 if q else 12000):
        w = rng.choice([1, 2, 3, 5, 12, 150, 300])
        names = [rng.choice(NAMEPOOL) if rng.random() < 0.4 else 'f%d' % j for j in range(w)]
        b.append({'op': 'print', 'shape': flat(rand_shape(rng, rng.choice([0, 1, 2, 3, 4, 5]), w, thr, leaf)), 'names': names, 'spacing': rng.choice(SP)})
    for d in (12, 30, 60, 128, 260) + (() if q else (1000,)):      # chains
        for side in 'tf':
            s = {'leaf': True, 'rows': fm([[1.0]]), 'labels': fm([[2.0]])}
            for i in range(d): s = {'leaf': False, 'col': 1 + i % 3, 'thr': fmt(thr()), side: s, ('f' if side == 't' else 't'): {'leaf': True, 'rows': fm([[float(i)]]), 'labels': fm([[0.5]])}}
            b.append({'op': 'print', 'shape': flat(s), 'names': ['a', 'b', 'c'], 'spacing': ''})
    c = []
    for i in range(200 if q else 3000):
        n, Cn, K = rng.choice([1, 2, 5, 9, 20, 40]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3])
        rows, L = G.data(rng, n, Cn, K); Cn = len(rows[0])
        c.append({'op': 'print', 'rows': fm(rows), 'labels': fm(L), 'k': K, 'max': rng.choice([0, 1, 2, 4, 9]), 'names': ['f%d' % j if rng.random() < 0.7 else rng.choice(NAMEPOOL) for j in range(Cn)], 'mt': rng.random() < 0.3, 'threads': 4, 'spacing': rng.choice(SP)})
    d = repo_classes('iris.csv', 150, rng)
    if d:
        for m in (0, 3, 12): c.append({'op': 'print', 'rows': fm(d[0]), 'labels': fm(d[1]), 'k': 3, 'max': m, 'names': ['sepal_length', 'sepal_width', 'petal_length', 'petal_width', 'species'], 'threads': 4})
    return [Stream('model-trees', 'PrintTrace', a, conv_print), Stream('random', 'PrintTrace', b, conv_print), Stream('grown', 'PrintTrace', c, conv_print)]


def print_models(tier, seed):
    cf = 'CONSTANTS Names = {1, 2} Thrs = {0, 1} Data = {%s} Depth = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS ReadsBack LineCount%s\n%sCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCPrint', cfg=cf % ('1, 2', 2, 'none', ' EmitCase', 'PROPERTY Ends\n'), emit='shape', what='every tree up to depth 2', extra=('-workers', '4'))]
    m += [dict(mod='MCPrint', cfg=cf % ('1, 2', 2, v, '', ''), expect='violation', what='defect variant: ' + v) for v in ('round', 'flat', 'marks')]
    if tier != 'quick': m.append(dict(mod='MCPrint', cfg=(cf % ('1', 3, 'none', '', '')).replace('Names = {1, 2} Thrs = {0, 1}', 'Names = {1} Thrs = {0, 1}'), what='every tree up to depth 3', extra=('-workers', '8')))
    return m


# ------------------------------------------------------------------ C21: vectors
def conv_vec(h, r):
    t = {'fn': h['fn'], 'a': h['a'], 'b': h['b'], 's': h['s'], 'm': h['m']}
    if r['outcome'] == 'panic': t['events'] = [{'ev': 'refused'}]
    elif r['outcome'] != 'ok': t['events'] = [{'ev': r['outcome']}]
    elif h['fn'] == 'msd': t['events'] = [{'ev': 'msd', 'v': r['r'][0]}]
    else: t['events'] = [{'ev': 'elem', 'v': x} for x in r['r']] + [{'ev': 'done'}]
    return t


conv_vec.wants_failures = True


def vec_streams(tier, rng, gens):
    q = tier == 'quick'
    def case(fn, a=(), b=(), s=0.0, m=()): return {'op': 'vec', 'fn': fn, 'a': fv(a), 'b': fv(b), 's': fmt(s), 'm': fm(m)}
    a = []
    for p in pick(rng, gens.get('vec', []), 1500 if q else 20000):
        w = rng.choice([lambda x: float(x), lambda x: x * 0.1, lambda x: x * 1e155, lambda x: x * 1e-160])
        a.append(case(p['fn'], map(w, p['a']), map(w, p['b']), w(p['s']), [list(map(w, v)) for v in p['m']]))
    b = []
    def num(st):
        if st == 'int': return float(rng.randint(-9, 9))
        if st == 'real': return rng.gauss(0, 1)
        if st == 'wide': return rng.choice([-1, 1]) * 10 ** rng.uniform(-300, 300)
        if st == 'special': return rng.choice([G.INF, -G.INF, float('nan'), 0.0, -0.0, 1.5, -2.0, 3e-300])
        if st == 'edge': return rng.choice([0.0, -0.0, 5e-324, -5e-324, 1.7976931348623157e308, 2.2e-308, 1.0, 1 / 3])
        return rng.uniform(-1, 1) * 10 ** rng.choice([0, 8, -8])
    for i in range(4000 if q else 40000):
        fn = rng.choice(['add', 'sub', 'mul', 'div', 'msd', 'scale', 'sum', 'avg']); st = rng.choice(['int', 'real', 'wide', 'edge', 'mix', 'special'])
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 33, 64, 65, 130]); V = lambda k: [num(st) for _ in range(k)]
        if fn in ('sum', 'avg'): b.append(case(fn, m=[V(n) for _ in range(rng.choice([1, 1, 2, 3, 5, 9, 30]))]))
        elif fn == 'scale': b.append(case(fn, V(n), s=num(st)))
        else:
            x = V(n); y = V(n)
            u = rng.random()
            if u < 0.15: y = list(x)
            elif u < 0.4: y = V(max(0, n + rng.choice([-1, 1, 1, -n, 5])))
            b.append(case(fn, x, y))
    c = []
    for fn in ['add', 'sub', 'mul', 'div', 'msd', 'scale', 'sum', 'avg'] * (1 if q else 6):
        n = G.edge(rng, 4096, 9000) if q else rng.choice([G.edge(rng, 1000, 20000), 70000]); V = lambda k: [rng.gauss(0, 1) for _ in range(k)]
        if fn in ('sum', 'avg'): c += [case(fn, m=[V(3) for _ in range(n)]), case(fn, m=[V(n) for _ in range(3)]), case(fn, m=[V(1) for _ in range(70000)])]
        else: c += [case(fn, V(n), V(n), 0.37), case(fn, V(n), V(n - 1), 2.0) if fn != 'scale' else case(fn, V(n), s=-3.0)]
    return [Stream('model-operations', 'VectorTrace', a, conv_vec), Stream('random', 'VectorTrace', b, conv_vec), Stream('large', 'VectorTrace', c, conv_vec)]


def vec_models(tier, seed):
    cf = 'CONSTANTS Vals = {0, 1, 3} MaxLen = %d MaxVecs = %d Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS Complete Laws%s\n%sCHECK_DEADLOCK FALSE\n'
    return [dict(mod='MCVector', cfg=cf % (2, 2, 'none', ' EmitCase', 'PROPERTY Ends\n'), emit='vec', what='all vectors of length 0..2 over {-1,0,2}'),
            dict(mod='MCVector', cfg=cf % (2, 1, 'zip', '', ''), expect='violation', what='defect variant: stops at the shorter operand'),
            dict(mod='RatLaws', what='exact-arithmetic overrides against their definitions')] + \
           ([] if tier == 'quick' else [dict(mod='MCVector', cfg=cf % (4, 3, 'none', ' EmitCase', ''), emit='vec', what='lengths 0..4', extra=('-workers', '8'))])


# ------------------------------------------------------------------ C23: the bundled program
def prog_run(prog, cases, wd):
    """the ensemble from the harness, and two runs of the program in a directory with the four files"""
    ens = run_harness(HARNESS(), cases, wd, stall=120)
    late = []      # once the program hangs, it is not started again
    def one(i):
        d = os.path.join(wd, 'p%d' % i); f = os.path.join(d, 'common', 'data-files', 'multi-target'); os.makedirs(f)
        for name, text in cases[i]['_files'].items(): open(os.path.join(f, name), 'w').write(text)
        out = []
        for _ in range(2):
            if late: break
            try: r = subprocess.run([prog], cwd=d, capture_output=True, text=True, timeout=150, env=dict(env(), RAYON_NUM_THREADS=str(cases[i]['_nt'])))
            except subprocess.TimeoutExpired: late.append(i); out.append({'status': -9, 'lines': []}); break
            out.append({'status': r.returncode, 'lines': r.stdout.split('\n')})
        shutil.rmtree(d, ignore_errors=True)
        return out
    with cf.ThreadPoolExecutor(4) as ex: runs = list(ex.map(one, range(len(cases))))
    return [dict(r, runs=x) if x else dict(r, outcome='skipped') for r, x in zip(ens, runs)]


def conv_prog(h, r):
    t = {k: h[k] for k in ('rows', 'labels', 'qrows', 'qlabels', 'k')}
    ev = [{'ev': 'init', 'init': r['init']}] + [{'ev': 'tree', 'nodes': tr} for tr in r['trees']] + [{'ev': 'trained'}]
    for x in r['runs']:
        ls = [y for y in x['lines'] if y][-4:]
        fig = []
        for y in ls:
            try: fig.append([fmt(float(z)) for z in y.strip().strip('[]').split(',')])
            except ValueError: break
        ev.append({'ev': 'run', 'status': x['status'], 'figures': len(fig)})
        ev += [{'ev': 'figure', 'v': v} for v in fig]
    t['events'] = ev + [{'ev': 'end'}]
    return t


def prog_case(rng, rows, L, Q, QL):
    K = len(L[0])
    # texts as a user may write them; the values are what counts
    def text(m, pre): return '\n'.join([','.join(pre + str(j) for j in range(len(m[0])))] + [','.join(str(int(v)) if v == int(v) and abs(v) < 1e9 and rng.random() < 0.5 and fmt(v) != '-0.0' else repr(v) for v in r) for r in m]) + '\n'
    c = {'op': 'boost', 'kind': 'reg', 'rows': fm(rows), 'labels': fm(L), 'k': K, 'max': 3, 'rounds': 300, 'lr': '0.1', 'qrows': fm(Q), 'qlabels': fm(QL), 'prefixes': [], 'mt': True, 'threads': 4}
    c['_files'] = {'features_train_mt.csv': text(rows, 'x'), 'labels_train_mt.csv': text(L, 'y'), 'features_test_mt.csv': text(Q, 'x'), 'labels_test_mt.csv': text(QL, 'y')}
    c['_nt'] = rng.choice([1, 2, 8])
    return c


def prog_streams(tier, rng, gens):
    q = tier == 'quick'
    a = []
    for p in pick(rng, gens.get('pair', []), 20 if q else 250):
        def rep(d): return [[float(r['x'])] for r in d], [[float(r['y'][0]) + j * 0.5 for j in range(10)] for r in d]
        a.append(prog_case(rng, *rep(p['train']), *rep(p['test'])))
    b = []
    for i in range(40 if q else 400):
        n = rng.choice([1, 2, 5, 10, 11, 12, 20, 30]); Cn = rng.choice([1, 2, 3, 5]); m = rng.choice([1, 2, 3, 6, 12])
        lab = rng.choice(['real', 'smallint', 'step', 'mixed', 'onehot', 'offset', 'sparse', 'alt'])
        rows, L = G.data(rng, n, Cn, 10, feats=G.PLAIN, lab=lab)
        if rng.random() < 0.6:
            Q = G.queries(rng, rows, [], m); QL = G.labels(rng, m, 10, lab, Q)
        else:
            Q, QL = [list(r) for r in rows[:m]], [list(r) for r in L[:m]]
        b.append(prog_case(rng, rows, L, Q, QL))
    for n, m in [(G.edge(rng, 500, 1100), 3), (5, G.edge(rng, 500, 1100))] * (1 if q else 6):
        rows, L = G.data(rng, n, 1, 10, feats=['perm'], lab='step')
        Q = G.queries(rng, rows, [], m); b.append(prog_case(rng, rows, L, Q, G.labels(rng, m, 10, 'real', Q)))
    if not q:
        try:
            F, Y = load_csv('multi-target/features_test_mt.csv'), load_csv('multi-target/labels_test_mt.csv')
            for n in (200, 600): b.append(prog_case(rng, F[:n], Y[:n], F[n:n + 60], Y[n:n + 60]))
        except OSError: pass
    return [Stream('model-files', 'ProgTrace', a, conv_prog, runner=prog_run), Stream('random', 'ProgTrace', b, conv_prog, runner=prog_run)]


def prog_models(tier, seed):
    cf = 'CONSTANTS Vals = {%s} MaxRows = 2 Variant = "%s"\nSPECIFICATION Spec\nINVARIANTS ReportRight Blind%s\n%sCHECK_DEADLOCK FALSE\n'
    m = [dict(mod='MCProgram', cfg=cf % ('0, 1, 3', 'none', ' EmitCase', 'PROPERTY Ends\n'), emit='pair', what='every pair of data sets of up to 2 rows', extra=('-workers', '4'))]
    return m + [dict(mod='MCProgram', cfg=cf % ('0, 1', v, '', ''), expect='violation', what='defect variant: ' + v) for v in ('peek', 'self', 'last')]


PLANS = {
    'C23': dict(models=prog_models, streams=prog_streams, main=True),
    'C21': dict(models=vec_models, streams=vec_streams),
    'C19': dict(models=print_models, streams=print_streams),
    'C18': dict(models=reader_models, streams=reader_streams),
    'C01': dict(models=sweep_models, streams=split_streams),
    'C02': dict(models=sweep_models, streams=split_streams),
    'C03': dict(models=part_models, streams=part_streams),
    'C04': dict(models=part_models, streams=chain_streams),
    'C07': dict(models=mt_models, streams=mt_streams),
    'C24': dict(models=batch_models, streams=batch_streams),
    'C25': dict(models=unit_models, streams=unit_streams),
    'C26': dict(models=local_models, streams=local_streams),
    'C08': dict(models=part_and_tree_models, streams=twin08_streams),
    'C22': dict(models=twin_models, streams=twin22_streams),
    'C17': dict(models=history_models, streams=history_streams),
    'C09': dict(models=score_models, streams=lambda t, r, g: score_streams(t, r, g, True)),
    'C10': dict(models=score_models, streams=lambda t, r, g: score_streams(t, r, g, False)),
    'C11': dict(models=boost_models(['reg', 'mc', 'amg']), streams=BS(['reg', 'mc', 'amg'], probes=3)),
    'C12': dict(models=boost_models(['reg']), streams=BS(['reg'], ontrain=True, prefix=0.1)),
    'C13': dict(models=boost_models(['reg']), streams=BS(['reg'], ontrain=True, prefix=1.0, lrs=RATES)),
    'C14': dict(models=boost_models(['mc']), streams=BS(['mc'], prefix=0.1)),
    'C15': dict(models=boost_models(['amg']), streams=BS(['amg'], prefix=0.1, probes=4)),
    'C16': dict(models=boost_models(['reg', 'mc', 'amg']), streams=BS(['reg', 'mc', 'amg'], ontrain=True, prefix=1.0, light=True, lrs=RATES)),
    'C20': dict(models=boost_models(['mc', 'amg']), streams=BS(['mc', 'amg'], probes=1)),
    'C05': dict(models=tree_models, streams=tree_streams),
    'C06': dict(models=tree_models, streams=tree_streams),
}


def find_stream(pid, name):
    for s in PLANS[pid]['streams']('quick', random.Random(0), {}):
        if s.name == name: return s
    raise ToolError('unknown stream ' + name)
