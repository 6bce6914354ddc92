"""Seeded generation of data sets. Everything is a plain list of Python floats."""
import math
INF = float('inf')


def nxt(x, k=1):
    for _ in range(abs(k)): x = math.nextafter(x, INF if k > 0 else -INF)
    return x


FEATS = ['smallint', 'ties', 'real', 'gauss', 'const', 'copy', 'shuf', 'sorted', 'rev', 'adj', 'huge', 'tiny', 'negzero', 'perm', 'binary', 'neg']


def column(rng, n, style, prev):
    if style == 'smallint': v = rng.choice([2, 3, 5, 9]); return [float(rng.randint(-1, v)) for _ in range(n)]
    if style == 'ties':
        pool = [rng.uniform(-5, 5) for _ in range(rng.randint(2, 5))]
        return [rng.choice(pool) for _ in range(n)]
    if style == 'real': return [rng.uniform(-10, 10) for _ in range(n)]
    if style == 'gauss': return [rng.gauss(0, 1) for _ in range(n)]
    if style == 'const': v = rng.choice([0.0, 1.5, -3.0]); return [v] * n
    if style == 'copy' and prev: return list(rng.choice(prev))
    if style == 'shuf' and prev:           # the values of another column, rearranged
        v = list(rng.choice(prev))
        if rng.random() < 0.5: rng.shuffle(v)
        else:
            for _ in range(rng.choice([1, 1, 2, 4])):
                i, j = rng.randrange(n), rng.randrange(n); v[i], v[j] = v[j], v[i]
        return v
    if style == 'sorted': return sorted(rng.choice([rng.uniform(0, 9), float(rng.randint(0, 9))]) for _ in range(n))
    if style == 'rev': return sorted((float(rng.randint(0, max(2, n // 2))) for _ in range(n)), reverse=True)
    if style == 'adj': b = rng.choice([1.0, 0.1, 1e10, 3.0]); return [nxt(b, rng.randint(0, 4)) for _ in range(n)]
    if style == 'huge': return [rng.choice([-1, 1]) * rng.choice([1e300, 1.7e308, 1e17, 1e16 + 2]) * rng.choice([1, 0.5]) for _ in range(n)]
    if style == 'tiny': return [rng.choice([-1, 1]) * rng.choice([5e-324, 1e-310, 1e-200, 3e-7]) for _ in range(n)]
    if style == 'negzero': return [rng.choice([-0.0, 0.0, 1.0, -1.0]) for _ in range(n)]
    if style == 'perm':
        v = [float(i) for i in range(n)]; rng.shuffle(v); return v
    if style == 'binary': return [float(rng.randint(0, 1)) for _ in range(n)]
    if style == 'neg': return [-abs(rng.gauss(3, 2)) for _ in range(n)]
    return [rng.uniform(0, 1) for _ in range(n)]


LABS = ['onehot', 'binary', 'smallint', 'real', 'tiny', 'large', 'step', 'same', 'alt', 'sparse', 'offset', 'mixed', 'onecol', 'close', 'decimal']


def labels(rng, n, K, style, rows):
    C = len(rows[0]) if rows else 0
    if style == 'onehot': return [[1.0 if j == c else 0.0 for j in range(K)] for c in (rng.randrange(K) for _ in range(n))]
    if style == 'binary': return [[float(rng.randint(0, 1)) for _ in range(K)] for _ in range(n)]
    if style == 'smallint': return [[float(rng.randint(-3, 4)) for _ in range(K)] for _ in range(n)]
    if style == 'real': return [[rng.uniform(-2, 2) for _ in range(K)] for _ in range(n)]
    if style == 'tiny': u = 10 ** -rng.uniform(5, 13); return [[rng.gauss(0, 1) * u for _ in range(K)] for _ in range(n)]
    if style == 'large': u = 10 ** rng.uniform(4, 12); return [[rng.gauss(0, 1) * u for _ in range(K)] for _ in range(n)]
    if style == 'step':
        c = rng.randrange(C) if C else 0
        vs = sorted(r[c] for r in rows); m = vs[len(vs) // 2] if vs else 0
        w = [rng.uniform(-3, 3) for _ in range(K)]
        return [[(w[j] if rows[i][c] >= m else -w[j]) + rng.gauss(0, 0.05) for j in range(K)] for i in range(n)]
    if style == 'same':
        v = [rng.choice([0.1, 1.0, 1 / 3, 7.7, 0.0]) for _ in range(K)]; return [list(v) for _ in range(n)]
    if style == 'alt':
        o = sorted(range(n), key=lambda i: rows[i][0]); L = [None] * n
        for k, i in enumerate(o): L[i] = [float((k + j) % 2) for j in range(K)]
        return L
    if style == 'sparse':
        return [[rng.choice([0.0] * 8 + [1.0, 5.0]) for _ in range(K)] for _ in range(n)]
    if style == 'offset': b = rng.choice([100.0, -50.0]); return [[b + rng.uniform(0, 1) for _ in range(K)] for _ in range(n)]
    if style == 'mixed': s = [10 ** rng.uniform(-4, 4) for _ in range(K)]; return [[rng.gauss(0, 1) * s[j] for j in range(K)] for _ in range(n)]
    if style == 'onecol': j0 = rng.randrange(K); return [[rng.gauss(0, 1) if j == j0 else 2.0 for j in range(K)] for _ in range(n)]
    if style == 'close': b, u = rng.choice([1.0, -3.0, 0.7]), 10 ** -rng.uniform(2, 7); return [[b + u * rng.gauss(0, 1) for _ in range(K)] for _ in range(n)]
    if style == 'decimal': pool = [rng.randint(-9, 20) / 10 for _ in range(rng.randint(2, 4))]; return [[rng.choice(pool) for _ in range(K)] for _ in range(n)]
    raise ValueError(style)


# sizes just below, at and above the places where an implementation might change its method or overflow a counter
EXT = [8, 9, 10, 11, 12, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513,
       600, 750, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049]


BIG = [1000, 1024, 2000, 2048, 3000, 4096, 5000, 8192, 10000, 16384, 20000, 32768, 50000, 65536]


def edge(rng, lo, hi):
    """a size at or just above a round number or a power of two between lo and hi"""
    return rng.choice([x for x in EXT + BIG if lo <= x <= hi]) + rng.choice([0, 1, 1, 2, 7])


def balanced(rng, n, C, K):
    """wide labels whose means hardly depend on the features: the best gain is a tiny fraction of the spread"""
    rows, _ = data(rng, n, C, K, PLAIN, 'same', False)
    eps = 10 ** -rng.uniform(2.5, 6)
    c = rng.randrange(C)
    o = sorted(range(n), key=lambda i: rows[i][c])
    L = [None] * n
    for k, i in enumerate(o): L[i] = [(1.0 if (k + (k // 2)) % 2 else -1.0) * 3 + (eps * rng.choice([0, 1, 2]) if j == 0 else 0.0) for j in range(K)]
    return rows, L


def halves(rng, m, K):
    """2m rows whose best question divides them into equal halves; labels are mostly the half, one-hot"""
    h = [0, 1] * m; rng.shuffle(h)
    rows = [[float(x), rng.choice([0.0, 1.0, 2.5])] for x in h]
    return rows, [onehot(K, x if rng.random() < 0.9 else 1 - x) for x in h]


def ext(rng, base, p, top):
    """`base`, or with probability p an unusual size up to `top` (all magnitudes alike)"""
    if rng.random() >= p: return base
    top = max(top, 8)
    m = math.exp(rng.uniform(math.log(8), math.log(top + 1)))
    return min([x for x in EXT if x <= top], key=lambda x: abs(math.log(x / m)))


def dims(rng, sizes, p=0.15, budget=6000, caps=None):
    """`sizes` with, sometimes, one of them made unusually large and the others reduced to fit the budget"""
    s = list(sizes)
    if rng.random() < p:
        i = rng.randrange(len(s))
        c = min(budget, (caps or {}).get(i, budget))
        s[i] = max(s[i], ext(rng, s[i], 1.0, c))
        while math.prod(s) > budget:
            j = max((j for j in range(len(s)) if j != i), key=lambda j: s[j])
            if s[j] <= 1: break
            s[j] = max(1, s[j] // 2)
    return s


def near_tie(rng, n, C, K):
    """columns whose best divisions are almost, but not exactly, equally good: column b is column a with two rows
    exchanged, and the labels of these two rows differ by a relative 1e-2 .. 1e-13"""
    if n >= 4 and rng.random() < 0.4: return palindrome(rng, n, C, K)
    base, _ = data(rng, n, 1, K, PLAIN, 'same', False)
    L = labels(rng, n, K, rng.choice(['smallint', 'real', 'step', 'binary', 'offset']), base)
    cols = [[r[0] for r in base]]
    if rng.random() < 0.6: rng.shuffle(cols[0])
    eps = 10 ** -rng.uniform(2, 13)
    while len(cols) < max(2, C):
        c = list(rng.choice(cols))
        i, j = rng.sample(range(n), 2)
        c[i], c[j] = c[j], c[i]
        L[j] = [v * (1 + rng.choice([-1, 1]) * eps) + (eps if rng.random() < 0.3 else 0.0) for v in L[i]]
        cols.append(c)
    rng.shuffle(cols)
    return [[c[i] for c in cols] for i in range(n)], L


def palindrome(rng, n, C, K):
    """one column along which the labels read almost the same from both ends: two of its thresholds are almost equally good"""
    h = rng.randrange(1, n // 2 + 1)
    base = rng.choice([0.0, 1.0, -2.5]); top = rng.choice([1.0, 3.0, 0.7])
    ys = [[base + top * rng.choice([1.0, 1.0, 0.9]) for _ in range(K)] for _ in range(h)]
    eps = 10 ** -rng.uniform(2, 12.5)
    seq = ys + [[base + rng.choice([0.0, 0.05]) * top for _ in range(K)] for _ in range(n - 2 * h)]
    back = [[v + (v - base) * eps * rng.choice([-1, 1, 1, 1]) for v in y] for y in reversed(ys)]
    seq = seq + back
    vals = sorted(rng.sample(range(-50, 50 + 10 * n), n))
    cols = [column(rng, n, rng.choice(['const', 'binary', 'const']), []) for _ in range(C)]
    cols[rng.randrange(C)] = [float(v) for v in vals]
    o = rng.sample(range(n), n)
    return [[c[i] for c in cols] for i in o], [seq[i] for i in o]


def mirror(rng, n, C, K):
    """two groups of rows with the same labels, told apart by one column: nothing is gained by dividing them, but rounding may suggest it"""
    m = n // 2
    pool = [[rng.randint(-9, 20) / 10 for _ in range(K)] for _ in range(rng.randint(2, 4))]
    a = [rng.choice(pool) for _ in range(m)]
    b, keep = list(a), rng.random() < 0.5
    if not keep: rng.shuffle(b)
    c = rng.randrange(C); lo, hi = sorted(rng.sample([-1.5, 0.0, 0.3, 2.0, 7.0], 2))
    noise = [rng.choice(['const', 'const', 'binary', 'smallint']) for _ in range(C)]
    cols = [column(rng, 2 * m, s, []) for s in noise]
    cols[c] = [lo] * m + [hi] * m
    rows = [[cols[j][i] for j in range(C)] for i in range(2 * m)]
    L = [list(v) for v in a + b]
    if K > 1 and rng.random() < 0.4:           # but one target tells them apart
        j = rng.randrange(K); u = rng.choice([1.0, 1e-3, 40.0])
        for i in range(2 * m): L[i][j] = u * (i < m) + rng.choice([0.0, 0.0, u / 4])
    o = list(range(2 * m)) if keep else rng.sample(range(2 * m), 2 * m)
    rows, L = [rows[i] for i in o], [L[i] for i in o]
    if n % 2: rows.append(list(rng.choice(rows))); L.append(list(rng.choice(L)))
    return rows, L


def data(rng, n, C, K, feats=None, lab=None, dup=None):
    if feats is None and lab is None and dup is None and 4 <= n <= 40 and rng.random() < 0.06: return mirror(rng, n, C, K)
    if feats is None and lab is None and dup is None and n >= 4 and rng.random() < 0.08: return near_tie(rng, n, C, K)
    cols = []
    for j in range(C):
        st = rng.choice(feats or FEATS)
        cols.append(column(rng, n, st, cols))
    rows = [[cols[j][i] for j in range(C)] for i in range(n)]
    if dup if dup is not None else rng.random() < 0.15:       # duplicate rows, with possibly conflicting labels
        for i in range(1, n):
            if rng.random() < 0.4: rows[i] = list(rows[rng.randrange(i)])
    elif dup is None: kin(rng, rows)
    L = labels(rng, n, K, lab or rng.choice(LABS), rows)
    return rows, L


def kin(rng, rows):
    """rows that differ from an earlier one (often the one before) in a single column"""
    if len(rows) < 2 or len(rows[0]) < 2 or rng.random() > 0.2: return
    C = len(rows[0]); last = rng.random() < 0.5
    for i in range(1, len(rows)):
        if rng.random() < 0.5:
            v = list(rows[i - 1] if rng.random() < 0.7 else rows[rng.randrange(i)])
            c = C - 1 if last else rng.randrange(C)
            v[c] = rows[rng.randrange(len(rows))][c]
            rows[i] = v


PLAIN = ['smallint', 'ties', 'real', 'gauss', 'const', 'copy', 'shuf', 'sorted', 'rev', 'perm', 'binary', 'neg']


def onehot(k, c): return [1.0 if j == c else 0.0 for j in range(k)]


def classes(rng, n, C, K, feats=None, style=None):
    """classification data; every class may or may not occur"""
    rows, _ = data(rng, n, C, 1, feats or PLAIN, 'same', None)
    style = style or rng.choice(['random', 'step', 'bands', 'conflict', 'rare'])
    if style == 'random': cs = [rng.randrange(K) for _ in range(n)]
    elif style == 'step':
        c = rng.randrange(C); vs = sorted(r[c] for r in rows); m = vs[n // 2]
        a, b = rng.randrange(K), rng.randrange(K)
        cs = [a if r[c] >= m else b for r in rows]
    elif style == 'bands':
        c = rng.randrange(C); vs = sorted(r[c] for r in rows)
        cs = [min(K - 1, sum(1 for v in vs if v < r[c]) * K // n) for r in rows]
    elif style == 'rare': a = rng.randrange(K); cs = [a if rng.random() < 0.9 else rng.randrange(K) for _ in range(n)]
    else:
        for i in range(1, n):
            if rng.random() < 0.5: rows[i] = list(rows[rng.randrange(i)])
        cs = [rng.randrange(K) for _ in range(n)]
    return rows, [onehot(K, c) for c in cs]


def queries(rng, rows, thrs, count, extreme=False, nan=False):
    """rows to ask for: training rows, rows at / next to thresholds, outside values"""
    out = []
    C = len(rows[0])
    vals = [sorted(set(r[j] for r in rows)) for j in range(C)]
    for _ in range(count):
        q = list(rng.choice(rows))
        for j in range(C):
            u = rng.random()
            if u < 0.35:
                v = rng.choice(vals[j])
                d = rng.choice([0, 0, 1, -1])
                q[j] = nxt(v, d) if d and abs(v) < 1e308 else v
            elif u < 0.45: q[j] = rng.choice([vals[j][0] - 1, vals[j][-1] + 1, 0.0, -0.0])
            elif u < 0.5 and extreme: q[j] = rng.choice([INF, -INF, 1e308, -1e308] + [float('nan')] * nan)
            elif u < 0.6 and len(vals[j]) > 1:
                i = rng.randrange(len(vals[j]) - 1)
                q[j] = vals[j][i] + (vals[j][i + 1] - vals[j][i]) / 2 if abs(vals[j][i]) < 1e300 and abs(vals[j][i + 1]) < 1e300 else 0.0
        if thrs and rng.random() < 0.7:
            c, t = rng.choice(thrs)
            q[c] = rng.choice([t, nxt(t), nxt(t, -1)]) if abs(t) < 1e308 else t
        out.append(q)
    return out
