"""C05: generator inference."""
import numpy as np

from lib import fx, fxm, rng_for
from props.c01 import random_breaks, random_path
from props.c02 import generator

LEVEL = 'model_checking'
TRACE = 'Trace_MjpInference'
ASSUMPTIONS = ['additivity is required for cuts that do not coincide with a jump (a jump at a cut belongs to no piece)',
               'likelihoods compared to 4e-4 absolute, statistics exactly (6 decimals)']


def models(tier):
    return [dict(spec='MC_MjpInference', cfg='MC_MjpInference' if tier == 'quick' else 'MC_MjpInference_big', checks='Statistics WholeTime Additive')]


def hyper(g, d):
    a, b = g.uniform(.5, 4, (d, d)).round(3), g.uniform(.2, 3, (d, d)).round(3)
    np.fill_diagonal(a, np.nan)
    np.fill_diagonal(b, np.nan)
    return a, b


def m(a):
    a = np.array(a, dtype=float)
    np.fill_diagonal(a, 0)
    return fxm(a)


def one(out, g, p, d, unit, cut=True):
    from ctbayes.mjplib import inference as inf, skeleton as mj
    skel = mj.Skeleton(np.array(p['t']) * unit, np.array(p['x']), p['fin'] * unit)
    alp, bet = hyper(g, d)
    a0, b0 = alp.copy(), bet.copy()
    a1, b1 = inf.update(skel, alp, bet)
    out.append({'ev': 'Update', 'p': p, 'unit': fx(unit), 'alp': m(a0), 'bet': m(b0), 'alp1': m(a1), 'bet1': m(b1),
                'intact': bool(np.array_equal(alp, a0, equal_nan=True) and np.array_equal(bet, b0, equal_nan=True))})
    q = np.round(generator(g, d, 'any'), 3) + .05
    np.fill_diagonal(q, 0)
    np.fill_diagonal(q, -q.sum(1))
    out.append({'ev': 'Lik', 'p': p, 'unit': fx(unit), 'gen': fxm(q), 'lik': fx(inf.eval_loglik(skel, q))})
    out.append({'ev': 'Prior', 'gen': fxm(q), 'alp': m(alp), 'bet': m(bet), 'val': fx(inf.eval_logprior(q, alp, bet))})
    out.append({'ev': 'Expected', 'gen': fxm(inf.get_ev(alp, bet)), 'alp': m(alp), 'bet': m(bet)})
    out.append({'ev': 'Mode', 'gen': fxm(inf.get_mode(a1 + 1, b1)), 'alp': m(a1 + 1), 'bet': m(b1)})
    out.append({'ev': 'Draw', 'gen': fxm(inf.sample_param(a1, b1, g))})
    if cut and p['fin'] > 1:
        brk = np.array(random_breaks(g, p, 6, False), dtype=float) * unit
        parts = mj.partition_skeleton(skel, brk)
        a, b, lik = alp, bet, 0.
        for s in parts:
            a, b = inf.update(s, a, b)
            lik += inf.eval_loglik(s, q)
        out.append({'ev': 'Pieces', 'p': p, 'unit': fx(unit), 'gen': fxm(q), 'alp': m(alp), 'bet': m(bet), 'alp1': m(a), 'bet1': m(b), 'lik': fx(lik)})


def replays(out, seed, cases):
    g = rng_for('c05r', seed)
    for n, p in enumerate(cases):
        out.append({'ev': 'Begin', 'id': 'replay %d' % n})
        one(out, g, p, 3 if n % 3 else 4, [.5, .125, 1.0][n % 3])


def large(out, seed, count):
    g = rng_for('c05', seed)
    for n in range(count):
        d = int(g.integers(2, 6))
        fin = int(g.integers(1, 60))
        out.append({'ev': 'Begin', 'id': 'large %d' % n})
        one(out, g, random_path(g, d, fin, int(g.integers(0, 30))), d, [.25, .03125, .5][n % 3])


def gamma(out, seed, n):
    from ctbayes.mjplib import inference as inf, skeleton as mj
    g = rng_for('c05g', seed)
    for p, d in (({'t': [0], 'x': [1], 'fin': 3}, 2), ({'t': [0, 1, 2, 5], 'x': [0, 1, 0, 1], 'fin': 6}, 2),
                 ({'t': [0, 2, 3, 7], 'x': [2, 0, 2, 1], 'fin': 8}, 3)):
        out.append({'ev': 'Begin', 'id': 'gamma'})
        skel = mj.Skeleton(np.array(p['t']) * .5, np.array(p['x']), p['fin'] * .5)
        alp, bet = hyper(g, d)
        alp = np.ceil(alp)
        a1, b1 = inf.update(skel, alp, bet)
        draws = np.array([inf.sample_param(a1, b1, g) for _ in range(n)])
        for i, j in [(i, j) for i in range(d) for j in range(d) if i != j]:
            k, l = (j, i) if d == 2 else ((i + 1) % d, i)
            x = [float((a1 / b1)[i, j]), float(.6 * (a1 / b1)[k, l])]
            h1, h2 = draws[:, i, j] <= x[0], draws[:, k, l] <= x[1]
            out.append({'ev': 'Gamma', 'p': p, 'unit': fx(.5), 'alp': m(alp), 'bet': m(bet), 'pair': [[i + 1, j + 1], [k + 1, l + 1]],
                        'x': [fx(v) for v in x], 'k': [int(h1.sum()), int(h2.sum())], 'both': int((h1 & h2).sum()), 'n': n})


def jobs(tier, seed, cases):
    c = cases['paths']
    per = -(-len(c) // 8)
    js = [('replay:%d' % i, replays, dict(seed=seed * 100 + i, cases=c[i:i + per]), 200) for i in range(0, len(c), per)]
    js += [('large:%d' % i, large, dict(seed=seed * 1000 + i, count=30 if tier == 'quick' else 300), 300) for i in range(8)]
    js.append(('gamma', gamma, dict(seed=seed, n=20000 if tier == 'quick' else 400000), 600))
    return js
