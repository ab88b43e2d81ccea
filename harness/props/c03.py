"""C03: law of the regime simulators."""
import itertools

import numpy as np

from lib import fx, fxm, fxs, rng_for
from props.c02 import generator

LEVEL = 'model_checking'
TRACE = 'Trace_MjpSim'
CHUNKS = 8
ASSUMPTIONS = ['frequencies at 6 standard deviations: laws closer than about 1-2% per event are not told apart',
               'transition matrices are recomputed in the specification with an error below 1e-4']


def models(tier):
    return [dict(spec='MC_MjpSim', cfg='MC_MjpSim', checks='Conditioned CanStay')]


GENS = {
    'two': np.array([[-.6, .6], [1.7, -1.7]]),
    'slow': np.array([[-.15, .15], [2.5, -2.5]]),
    'three': np.array([[-1.0, .7, .3], [.2, -.5, .3], [1.1, .9, -2.0]]),
    'cyc': np.array([[-.8, .8, 0], [0, -1.5, 1.5], [.5, 0, -.5]]),
    'four': np.array([[-1.2, .4, .4, .4], [.1, -.4, .2, .1], [.9, .3, -1.5, .3], [.2, .5, .3, -1.0]]),
}


def counts(hits, cells):
    c = {}
    for h in hits:
        c[h] = c.get(h, 0) + 1
    return [c.get(tuple(x), 0) for x in cells]


def law(out, seed, name, kind, fin, at, init=None, last=None, n=10000):
    from ctbayes.misc.adapt import MyopicMjpSampler
    from ctbayes.mjplib import skeleton as mj
    q = GENS[name]
    d = len(q)
    g = rng_for('c03', seed, name, kind, int(fin * 1000), init or 0, last or 0)
    out.append({'ev': 'Begin', 'id': '%s %s' % (name, kind)})
    cells = [list(c) for c in itertools.product(range(d), repeat=len(at))]
    hits, still = [], 0
    at_ = np.array(at)
    for _ in range(n):
        if kind == 'forwards':
            s = mj.sample_forwards(fin, init, q, g)
        elif kind == 'backwards':
            s = mj.sample_backwards(fin, last, q, g)
        elif kind == 'bridge':
            s = mj.sample_bridge(fin, init, last, q, g)
        elif kind == 'fresh':            # a path in one piece is regenerated from scratch
            s = mj.mutate_partition([mj.Skeleton(np.zeros(1), np.array([0]), fin)], q, g)[0]
        elif kind == 'mutated':          # regenerating a stationary path leaves its law unchanged
            s = mj.sample_forwards(fin, None, q, g)
            s = mj.paste_partition(mj.mutate_partition(mj.partition_skeleton(s, np.array([.3, .65]) * fin), q, g))
        elif kind == 'proposed':
            smp = MyopicMjpSampler(mj.sample_forwards(fin, None, q, g), .2)
            s = smp.propose(q, np.linspace(0, fin, 6), g)[0]
        hits.append(tuple(int(v) for v in s(at_)))
        still += len(s.t) == 1
    out.append({'ev': 'Law', 'kind': kind, 'gen': fxm(q), 'fin': fx(fin), 'init': -1 if init is None else init,
                'last': -1 if last is None else last, 'at': fxs(at), 'cell': cells, 'cnt': counts(hits, cells), 'n': n})
    if kind in ('forwards', 'bridge') and init is not None and (last is None or init == last):
        out.append({'ev': 'Still', 'gen': fxm(q), 'fin': fx(fin), 'init': init, 'last': -1 if last is None else last,
                    'k': still, 'n': n})


def mutlaw(out, seed, name, a, b, n):
    """Pieces of a cut path given the states on the two sides of the cut (a before, b after)."""
    from ctbayes.mjplib import skeleton as mj
    q = GENS[name]
    d = len(q)
    g = rng_for('c03m', seed, name, a, b)
    out.append({'ev': 'Begin', 'id': 'mutation %s %d %d' % (name, a, b)})
    cut, fin = 1.2, 2.0
    parts = [mj.Skeleton(np.zeros(1), np.array([a]), cut), mj.Skeleton(np.zeros(1), np.array([b]), fin - cut)]
    at = [.7, 1.6]
    hits = []
    for _ in range(n):
        new = mj.mutate_partition(parts, q, g)
        hits.append((int(new[0](np.array([at[0]]))[0]), int(new[1](np.array([at[1] - cut]))[0])))
    cells = [list(c) for c in itertools.product(range(d), repeat=2)]
    out.append({'ev': 'MutLaw', 'gen': fxm(q), 'fin': fx(fin), 'cut': fx(cut), 'a': a, 'b': b, 'at': fxs(at), 'cell': cells,
                'cnt': counts(hits, cells), 'n': n})


def matrices(out, seed, count):
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c03t', seed)
    out.append({'ev': 'Begin', 'id': 'matrices'})
    for n in range(count):
        q = list(GENS.values())[n] if n < len(GENS) else generator(g, int(g.integers(2, 5)), 'any')
        q = q / max(1.0, np.max(-np.diag(q)) / 2)
        for t in (.1, .9, 3.0):
            out.append({'ev': 'Trans', 'gen': fxm(q), 'fin': fx(t), 'trans': fxm(mj.get_trans(t, q))})
        if n < len(GENS) or np.min(-np.diag(q)) > .5:
            out.append({'ev': 'Stat', 'gen': fxm(q), 'stat': fxs(mj.get_stat(q))})


def keeping(out, seed, n):
    from ctbayes.misc.adapt import MyopicMjpSampler
    from ctbayes.mjplib import skeleton as mj
    g = rng_for('c03k', seed)
    out.append({'ev': 'Begin', 'id': 'conditioning times'})
    q = GENS['two']
    for accs in ([], [0.], [1., 1., 1.]):
        smp = MyopicMjpSampler(mj.Skeleton(np.zeros(1), np.array([0]), 4.0), .2)
        for a in accs:
            smp.adapt(smp.state, a)
        each, both = np.zeros(3, int), 0
        for _ in range(n):
            _, cond = smp.propose(q, np.arange(5.0), g)
            k = np.isin(np.arange(1.0, 4.0), cond)
            each += k
            both += bool(k[0] and k[1])
        out.append({'ev': 'Keep', 's': fx(smp.log_prop_scale[-1]), 'each': [int(v) for v in each], 'both': int(both), 'n': n})


def jobs(tier, seed, cases):
    n = 10000 if tier == 'quick' else 120000
    js = []
    for nm, fin, at in (('two', 1.5, [.5, 1.2]), ('three', 2.0, [.4, 2.0]), ('cyc', 2.5, [.8, 1.6])):
        js.append(('fw', law, dict(seed=seed, name=nm, kind='forwards', fin=fin, at=at, n=n), 800))
        js.append(('fw0', law, dict(seed=seed, name=nm, kind='forwards', fin=fin, at=at, init=1, n=n), 800))
        js.append(('br', law, dict(seed=seed, name=nm, kind='bridge', fin=fin, at=[.4, fin * .7], init=0, last=0, n=n), 800))
        js.append(('br2', law, dict(seed=seed, name=nm, kind='bridge', fin=fin, at=[.4, fin * .7], init=1, last=0, n=n), 800))
        js.append(('mut', law, dict(seed=seed, name=nm, kind='mutated', fin=fin, at=[.2, fin * .5], n=n), 800))
    for nm, fin in (('slow', .8), ('three', .6), ('cyc', 1.0), ('two', .5)):
        for last in range(len(GENS[nm])):
            js.append(('bw', law, dict(seed=seed, name=nm, kind='backwards', fin=fin, at=[0.0, .4], last=last, n=n), 800))
    js.append(('br4', law, dict(seed=seed, name='four', kind='bridge', fin=3.0, at=[.3, 2.6], init=2, last=1, n=n), 800))
    js.append(('fresh', law, dict(seed=seed, name='slow', kind='fresh', fin=1.0, at=[0.0, .9], n=n), 800))
    js.append(('prop', law, dict(seed=seed, name='two', kind='proposed', fin=2.0, at=[.1, 1.0], n=n), 800))
    js.append(('prop', law, dict(seed=seed, name='slow', kind='proposed', fin=2.0, at=[.1, 1.9], n=n), 800))
    for nm, a, b in (('two', 0, 0), ('slow', 0, 1), ('three', 2, 0), ('cyc', 0, 2)):
        js.append(('ml', mutlaw, dict(seed=seed, name=nm, a=a, b=b, n=n), 800))
    js.append(('mat', matrices, dict(seed=seed, count=40 if tier == 'quick' else 300), 300))
    js.append(('keep', keeping, dict(seed=seed, n=n // 2), 800))
    return js
