"""C02: conditioning of simulated regime paths (order relations, exact)."""
import numpy as np

from lib import fxm, ints, ranks, rng_for
from props.c01 import random_path

LEVEL = 'model_checking'
TRACE = 'Trace_MjpSim'
ASSUMPTIONS = ['order and equality of times are judged on ranks of the doubles, so exactly',
               'observation times are dyadic where a proposed path is compared with them (no rounding of differences)']


def models(tier):
    return [dict(spec='MC_MjpSim', cfg='MC_MjpSim' if tier == 'quick' else 'MC_MjpSim_big', checks='Conditioned CanStay')]


def generator(g, dim, kind):
    if kind == 'cyc':
        q = np.zeros((dim, dim))
        for i in range(dim):
            q[i, (i + 1) % dim] = g.lognormal()
        if dim > 2:
            q[1, 0] = g.lognormal()
    elif kind == 'unequal':
        q = np.exp(g.uniform(-6, 3.5, (dim, dim)))
    else:
        q = g.lognormal(size=(dim, dim))
    np.fill_diagonal(q, 0)
    np.fill_diagonal(q, -q.sum(1))
    return q


def pos_of(q):
    return [[bool(i != j and q[i, j] > 0) for j in range(len(q))] for i in range(len(q))]


def rk(skels, extra=()):
    """Rank-encode several paths over one common order of times."""
    arrs = [s.t for s in skels] + [[s.fin_t] for s in skels] + [list(extra)]
    r = ranks(*arrs)
    n = len(skels)
    return [{'t': r[i], 'x': ints(s.xt), 'fin': r[n + i][0]} for i, s in enumerate(skels)], r[2 * n]


def sims(out, seed, count):
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c02', seed)
    for n in range(count):
        kind = ['any', 'cyc', 'unequal'][n % 3]
        dim = int(g.integers(2, 6))
        q = generator(g, dim, kind)
        pos = pos_of(q)
        fin = float(g.choice([.01, .5, 1.0, 7.0, 20.0])) * (1.0 if n % 2 else float(g.uniform(.5, 1.5)))
        if kind == 'unequal':
            fin = min(fin, 3.0)
        out.append({'ev': 'Begin', 'id': '%s %d' % (kind, n)})
        for rep in range(6):
            init = None if rep % 2 else int(g.integers(dim))
            s = mj.sample_forwards(fin, init, q, g)
            (p,), (z, f) = rk([s], (0.0, fin))
            out.append({'ev': 'Sim', 'kind': 'forwards', 'p': p, 'zero': z, 'fin': f, 'pos': pos,
                        'init': -1 if init is None else init, 'last': -1})
            last = int(g.integers(dim))
            s = mj.sample_backwards(fin, last, q, g)
            (p,), (z, f) = rk([s], (0.0, fin))
            out.append({'ev': 'Sim', 'kind': 'backwards', 'p': p, 'zero': z, 'fin': f, 'pos': pos, 'init': -1, 'last': last})
            a, b = int(g.integers(dim)), int(g.integers(dim))
            s = mj.sample_bridge(fin, a, b, q, g)
            (p,), (z, f) = rk([s], (0.0, fin))
            out.append({'ev': 'Sim', 'kind': 'bridge', 'p': p, 'zero': z, 'fin': f, 'pos': pos, 'init': a, 'last': b})
        # cut a simulated path and regenerate it
        old = mj.sample_forwards(fin, None, q, g)
        cuts = np.sort(g.uniform(0, fin, int(g.integers(0, 8))))
        if len(old.t) > 1 and n % 2:
            cuts = np.unique(np.append(cuts, old.t[1:][g.uniform(size=len(old.t) - 1) < .3]))
        mutate(out, mj.partition_skeleton(old, cuts), q, pos, g)
        out.append({'ev': 'Gen', 'gen': fxm(mj.sample_trial_generator(dim, g) / 10)})


def mutate(out, parts, q, pos, g):
    from ctbayes.mjplib import skeleton as mj
    keep = [mj.Skeleton(s.t.copy(), s.xt.copy(), s.fin_t) for s in parts]
    new = mj.mutate_partition(parts, q, g)
    recs, (z,) = rk(list(keep) + list(new), (0.0,))
    intact = all(np.array_equal(a.t, b.t) and np.array_equal(a.xt, b.xt) and a.fin_t == b.fin_t for a, b in zip(parts, keep))
    out.append({'ev': 'Mutate', 'old': recs[:len(keep)], 'new': recs[len(keep):], 'zero': z, 'pos': pos, 'intact': intact})


def replays(out, seed, cases):
    """Every path and set of cuts of the model, regenerated by the implementation."""
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c02r', seed)
    q = np.array([[-.7, .7, 0], [.4, -1.3, .9], [1.1, 0, -1.1]])
    pos = pos_of(q)
    for n, c in enumerate(cases):
        if n % 50 == 0:
            out.append({'ev': 'Begin', 'id': 'replay %d' % n})
        p = c['p']
        skel = mj.Skeleton(np.array(p['t'], dtype=float), np.array(p['x']), float(p['fin']))
        mutate(out, mj.partition_skeleton(skel, np.array(c['b'], dtype=float)), q, pos, g)


def proposals(out, seed, count):
    from ctbayes.misc.adapt import MyopicMjpSampler
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c02p', seed)
    for n in range(count):
        dim = int(g.integers(2, 5))
        q = generator(g, dim, 'any')
        pos = pos_of(q)
        unit = [1.0, .25, 2.0 ** -7][n % 3]
        fin = int(g.integers(2, 40))
        p = random_path(g, dim, fin, int(g.integers(0, 12)))
        nobs = int(g.integers(0, min(fin, 12)))
        obs = np.hstack([0, np.sort(g.choice(np.arange(1, fin), nobs, replace=False)), fin]) * unit
        state = mj.Skeleton(np.array(p['t']) * unit, np.array(p['x']), fin * unit)
        smp = MyopicMjpSampler(state, .2)
        out.append({'ev': 'Begin', 'id': 'proposals %d' % n})
        for rep in range(8):
            old = smp.state
            prop, cond = smp.propose(q / (fin * unit) * 5, obs, g)
            recs, extra = rk([prop, old], np.hstack([0.0, obs, cond]))
            out.append({'ev': 'Propose', 'p': recs[0], 'old': recs[1], 'zero': extra[0], 'obs': extra[1:1 + len(obs)],
                        'cond': extra[1 + len(obs):], 'pos': pos})
            acc = bool(g.uniform() < .5)
            smp.adapt(prop if acc else old, float(acc))


def jobs(tier, seed, cases):
    c = cases['mutate']
    if tier == 'quick':
        g = rng_for('c02c', seed)
        c = [c[i] for i in sorted(g.choice(len(c), min(len(c), 1400), replace=False))]
    per = -(-len(c) // 8)
    js = [('replay:%d' % i, replays, dict(seed=seed * 100 + i, cases=c[i:i + per]), 200) for i in range(0, len(c), per)]
    n, m = (8, 30) if tier == 'quick' else (32, 150)
    js += [('sims:%d' % i, sims, dict(seed=seed * 1000 + i, count=m), 300) for i in range(n)]
    js += [('prop:%d' % i, proposals, dict(seed=seed * 1000 + i, count=m), 300) for i in range(n)]
    return js
