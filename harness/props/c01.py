"""C01: cutting, pasting and evaluating regime paths."""
import itertools

import numpy as np

from lib import fx, fxs, ints, rng_for, ticks

LEVEL = 'model_checking'
TRACE = 'Trace_RegimePath'
ASSUMPTIONS = ['paths are replayed with times that are whole multiples of a unit; the units tried are in the events',
               'TLC and the JSON module are trusted']


def models(tier):
    return [dict(spec='MC_RegimePath', cfg='MC_RegimePath' if tier == 'quick' else 'MC_RegimePath_big',
                 checks='TypeOK RoundTrip HorizonKept Local')]


def path_rec(skel, unit):
    return {'t': ticks(skel.t, unit), 'x': ints(skel.xt), 'fin': ticks([skel.fin_t], unit)[0]}


def build(p, unit, f=float):
    from ctbayes.mjplib import skeleton as mj
    return mj.Skeleton(np.array([f(v * unit) for v in p['t']]), np.array(p['x']), f(p['fin'] * unit))


def same(a, b):
    return len(a.t) == len(b.t) and bool(np.all(a.t == b.t)) and bool(np.all(a.xt == b.xt)) and a.fin_t == b.fin_t


def cut(out, p, b, unit, recut=True, f=float):
    from ctbayes.mjplib import skeleton as mj
    skel, keep = build(p, unit, f), build(p, unit, f)
    brk = np.array([f(v * unit) for v in b])
    brk0 = brk.copy()
    parts = mj.partition_skeleton(skel, brk)
    pasted = mj.paste_partition(parts)
    rec = mj.repartition_skeleton(parts, brk) if recut else []
    out.append({'ev': 'Cut', 'p': p, 'b': list(b), 'unit': str(unit),
                'parts': [path_rec(s, unit) for s in parts], 'pasted': path_rec(pasted, unit),
                'recut': [path_rec(s, unit) for s in rec],
                'intact': same(skel, keep) and bool(np.all(brk == brk0))})


def evaluate(out, p, unit):
    from ctbayes.mjplib import skeleton as mj
    h = {'t': [2 * v for v in p['t']], 'x': p['x'], 'fin': 2 * p['fin']}
    skel = build(h, unit / 2)
    u = list(range(0, 2 * p['fin'] + 1))
    v = skel(np.array(u) * (unit / 2))
    refused = 0
    for far in (p['fin'] * unit + unit / 4, p['fin'] * unit * 2):
        for arg in (np.array([far]), np.array([0.0, far])):
            try:
                skel(arg)
            except ValueError:
                refused += 1
    out.append({'ev': 'Eval', 'p': h, 'u': u, 'v': ints(v), 'refused': refused == 4})
    # one time at a time, in a shuffled order
    one = [int(skel(np.array([w * unit / 2]))[0]) for w in u[::-1]]
    out.append({'ev': 'Eval', 'p': h, 'u': u[::-1], 'v': one, 'refused': True})
    states = list(range(max(p['x']) + 2))
    out.append({'ev': 'Occ', 'p': p, 'states': states, 'share': fxs(mj.est_stat(skel, np.array(states)))})


def small(out, cases, units):
    for n, c in enumerate(cases):
        p = c['p']
        out.append({'ev': 'Begin', 'id': 'small %d' % n})
        unit = units[n % len(units)]
        for r in range(p['fin']):
            for b in itertools.combinations(range(1, p['fin']), r):
                cut(out, p, b, unit)
        evaluate(out, p, unit)


def random_path(g, ns, fin, nj):
    nj = min(nj, fin - 1)
    t = [0] + sorted(g.choice(np.arange(1, fin), nj, replace=False).tolist())
    x = [int(g.integers(ns))]
    for _ in t[1:]:
        x.append(int((x[-1] + 1 + g.integers(ns - 1)) % ns))
    return {'t': [int(v) for v in t], 'x': x, 'fin': int(fin)}


def random_breaks(g, p, n, on_jumps):
    pool = list(range(1, p['fin']))
    b = set(int(v) for v in g.choice(pool, min(n, len(pool)), replace=False))
    if on_jumps:
        b |= set(v for v in p['t'][1:] if g.uniform() < .4)
    else:
        b -= set(p['t'])
    return sorted(b)


def large(out, seed, count):
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c01', seed)
    for n in range(count):
        out.append({'ev': 'Begin', 'id': 'large %d.%d' % (seed, n)})
        ns, fin = int(g.integers(2, 6)), int(g.integers(2, 60))
        p = random_path(g, ns, fin, int(g.integers(0, 40)))
        dy = [1, .25, 2.0 ** -10, 4096.0][n % 4]
        cut(out, p, random_breaks(g, p, int(g.integers(0, 20)), True), dy)
        cut(out, p, random_breaks(g, p, int(g.integers(0, 20)), False), [.1, 1 / 3, .0073, 12.7][n % 4], recut=False)
        cut(out, p, [], dy)
        # whole numbers stored as integers, as the simulators themselves do for the first jump time
        cut(out, p, random_breaks(g, p, 5, True), 1, f=int)
        evaluate(out, p, dy)
        # unrelated pieces, some of length zero, pasted together
        pieces = []
        for _ in range(int(g.integers(1, 7))):
            f = int(g.integers(0, 9))
            pieces.append(random_path(g, ns, f, int(g.integers(0, 6))) if f > 1 else
                          {'t': [0], 'x': [int(g.integers(ns))], 'fin': f})
        if any(q['fin'] for q in pieces):
            out.append({'ev': 'Paste', 'parts': pieces,
                        'pasted': path_rec(mj.paste_partition([build(q, dy) for q in pieces]), dy)})
        # equality
        others = [p, dict(p, fin=p['fin'] + 1), dict(p, x=[(v + 1) % ns for v in p['x']])]
        if len(p['t']) > 1:
            others.append({'t': p['t'][:-1], 'x': p['x'][:-1], 'fin': p['fin']})
            if p['t'][-1] + 1 < p['fin']:
                others.append(dict(p, t=p['t'][:-1] + [p['t'][-1] + 1]))
            others.append(dict(p, x=p['x'][:-1] + [p['x'][-1] + 1]))
        for q in others:
            out.append({'ev': 'Eq', 'p': p, 'q': q, 'res': bool(build(p, dy) == build(q, dy))})
        # random equidistant breaks
        inten = float(g.choice([.5, 3.0])) / (p['fin'] * dy)
        parts, brk = mj.sample_partition(build(p, dy), inten * 4, g)
        out.append({'ev': 'Even', 'p': p, 'brk': fxs(np.asarray(brk) / dy), 'lens': fxs([q.fin_t / dy for q in parts]),
                    'starts': [int(q.xt[0]) for q in parts], 'pasted': path_rec(mj.paste_partition(parts), dy)})


def nobreaks(out, seed, n):
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c01n', seed)
    out.append({'ev': 'Begin', 'id': 'breaks'})
    for fin, inten in ((2.0, .35), (.5, 2.0)):
        skel = mj.Skeleton(np.array([0.0]), np.array([1]), fin)
        k = sum(len(mj.sample_partition(skel, inten, g)[1]) == 0 for _ in range(n))
        out.append({'ev': 'NoBreaks', 'k': k, 'n': n, 'mean': fx(fin * inten)})


def jobs(tier, seed, cases):
    units = [1.0, .5, 2.0 ** -6, 128.0]
    c = cases['cuts']
    per = -(-len(c) // 8)
    js = [('small:%d' % i, small, dict(cases=c[i:i + per], units=units), 120) for i in range(0, len(c), per)]
    n, m = (8, 40) if tier == 'quick' else (32, 250)
    js += [('large:%d' % i, large, dict(seed=seed * 1000 + i, count=m), 240) for i in range(n)]
    js.append(('nobreaks', nobreaks, dict(seed=seed, n=4000), 120))
    return js
