"""C04: Poisson point sets."""
import itertools

import numpy as np

from lib import fx, fxs, ranks, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Ppp'
ASSUMPTIONS = ['order and region clauses are judged on ranks (exact); the law by frequencies at 6 standard deviations']


def models(tier):
    return [dict(spec='MC_Ppp', cfg='MC_Ppp' if tier == 'quick' else 'MC_Ppp_big', checks='Prefix InOrder ShortIsLast NotStuck Complete')]


def encode(points, bounds):
    """Coordinate-wise ranks of the points together with the edges of the region."""
    d = len(bounds)
    if len(points) == 0:
        return [], [1] * d, [2] * d
    cols, zero, edges = [], [], []
    for k in range(d):
        c, (z, e) = ranks(points[:, k], [0.0, bounds[k]])
        cols.append(c)
        zero.append(z)
        edges.append(e)
    return [list(t) for t in zip(*cols)], zero, edges


def sets(out, seed, count):
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c04', seed)
    for n in range(count):
        d = int(g.integers(1, 4)) if n % 2 else 2
        bounds = tuple(float(v) for v in np.exp(g.uniform(-2.5, 2.5, d)))
        mean = float(g.choice([.3, 2.0, 8.0, 30.0, 120.0]))
        inten = mean / np.prod(bounds)
        size = int(g.choice([1, 2, 3, 5, 10, 64]))
        out.append({'ev': 'Begin', 'id': 'set %d' % n})
        batches = list(mj.sample_batch_ppp(inten, bounds, size, g))
        pts = np.vstack(batches) if batches else np.zeros((0, d))
        enc, zero, edges = encode(pts, bounds)
        out.append({'ev': 'Open', 'size': size, 'zero': zero, 'edges': edges})
        at = 0
        for b in batches:
            out.append({'ev': 'Batch', 'pts': enc[at:at + len(b)]})
            at += len(b)
        pts = mj.sample_ppp(inten, bounds, g)
        enc, zero, edges = encode(pts, bounds)
        out.append({'ev': 'Open', 'size': 1000000, 'zero': zero, 'edges': edges})
        out.append({'ev': 'All', 'pts': enc})


def draw(size, inten, bounds, g):
    from ctbayes.mjplib import skeleton as mj
    if size == 0:
        return mj.sample_ppp(inten, bounds, g)
    b = list(mj.sample_batch_ppp(inten, bounds, size, g))
    return np.vstack(b) if b else np.zeros((0, len(bounds)))


def law(out, seed, size, mean, n, d=2):
    g = rng_for('c04l', seed, size, int(mean * 100), d)
    bounds = (1.5, .8, 2.0)[:d]
    inten = mean / np.prod(bounds)
    # disjoint parts: (first coordinate, second coordinate) boxes, with share of the whole volume
    boxes = [((0, .25), (0, 1)), ((.25, .7), (0, .5)), ((.7, 1), (.4, 1))]
    share = [.25, .45 * (.5 if d > 1 else 1), .3 * (.6 if d > 1 else 1)]
    mus = [mean * s for s in share]
    edges = [[max(0, int(m) - 1), int(m) + 1] if m > 1 else [0, 1] for m in mus]
    cells = [list(c) for c in itertools.product(range(3), repeat=3)]
    cnt = {tuple(c): 0 for c in cells}
    kth = max(1, int(mean / 2) + 1)
    us = [.2, .5, .9]
    kc = [0] * 3
    for _ in range(n):
        p = draw(size, inten, bounds, g) / np.array(bounds)
        key = []
        for (a, b), e in zip(boxes, edges):
            m = (p[:, 0] >= a[0]) & (p[:, 0] < a[1])
            if d > 1:
                m &= (p[:, 1] >= b[0]) & (p[:, 1] < b[1])
            c = int(np.sum(m))
            key.append(0 if c <= e[0] else 1 if c <= e[1] else 2)
        cnt[tuple(key)] += 1
        if len(p) >= kth:
            v = p[kth - 1, 0]
            kc = [k + int(v <= u) for k, u in zip(kc, us)]
    out.append({'ev': 'Begin', 'id': 'law %d %g' % (size, mean)})
    out.append({'ev': 'Cells', 'size': size, 'mu': fxs(mus), 'edges': edges, 'cell': cells, 'cnt': [cnt[tuple(c)] for c in cells], 'n': n})
    out.append({'ev': 'Kth', 'size': size, 'kth': kth, 'mu': fxs([mean * u for u in us]), 'cnt': kc, 'n': n})


def jobs(tier, seed, cases):
    n = 20000 if tier == 'quick' else 200000
    js = [('sets:%d' % i, sets, dict(seed=seed * 100 + i, count=40 if tier == 'quick' else 400), 300) for i in range(6 if tier == 'quick' else 24)]
    for size in (0, 1, 2, 3, 10):
        for mean in (1.5, 5.0, 9.0):
            js.append(('law', law, dict(seed=seed, size=size, mean=mean, n=n), 800))
    for size in (0, 2):
        js.append(('law3', law, dict(seed=seed, size=size, mean=4.0, n=n, d=3), 800))
        js.append(('law1', law, dict(seed=seed, size=size, mean=4.0, n=n, d=1), 800))
    return js
