"""C18: a resumed switching sampler continues the same chain."""
import copy
import itertools

import numpy as np

import sw
from lib import rng_for
from props.c17 import left, poison, token

LEVEL = 'model_checking'
TRACE = 'Trace_Resume'
CHUNKS = 6
ASSUMPTIONS = ['the random generator is handed over as the living object (its pickled form forgets which streams were spawned)',
               'results are compared token by token (hash of all bits)',
               'the samplers a running chain exposes are found by type among the local variables of its generator']


def models(tier):
    return [dict(spec='MC_Resume', cfg='MC_Resume' if tier == 'quick' else 'MC_Resume_big', checks='Same AsFunction; necessity of every part')]


def exposed(it):
    """What a running sampler exposes: its latest state, proposals and generator."""
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    got = {}
    while it is not None and getattr(it, 'gi_frame', None) is not None:
        loc = it.gi_frame.f_locals
        for k, x in loc.items():
            if isinstance(x, MyopicMjpSampler):
                got['regime_sampler'] = x
            elif isinstance(x, list) and x and all(isinstance(q, MyopicMvRwSampler) for q in x):
                got['param_samplers'] = x
            elif isinstance(x, np.random.Generator):
                got['ome'] = x
            elif k in ('thi', 'lam', 'z', 'h'):
                got[k] = x
        it = it.gi_yieldfrom
    return got


def toks(r):
    thi, lam, z, h = r
    return dict(thi=token(thi), lam=token(lam), paths=token([tuple(q) for q in z]), hidden=token(tuple(h)))


def ends(ps, rs, lam, t, o):
    d = dict(stream=left(o), streams=str(o.bit_generator._seed_seq.spawn(1)[0].spawn_key))
    if ps is not None:
        d['params'] = token([p.propose(np.random.default_rng(3)) for p in ps])
    if rs is not None:
        y, c = rs.propose(lam, t, np.random.default_rng(4))
        d['regimes'] = token([tuple(y), c])
    return d


def chains(out, seed, mode, name, i, cases, cores):
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib.skeleton import sample_forwards
    from ctbayes.switching import mcmc
    g = rng_for(seed, 'c18', mode, name, i)
    m = sw.get(name)
    nr = int(g.choice([2, 3]))
    t, v = sw.data(name, g, int(g.choice([3, 5, 7])), str(g.choice(['regular', 'tight', 'irregular'])), 2.)
    a, b = float(g.choice([2., 3.])), float(g.choice([1., 2.]))
    kw = dict(precoin=bool(i % 2), pr_portkey=float(g.choice([.01, .2])), ea_batch_size=int(g.choice([1, 5])), opt_acc_prob=float(g.choice([.1, .4])))
    mod = sw.mcmc_model(m, t, v, nr, a, b)
    thi0 = np.stack([g.uniform(.6, 1.5, len(m.init_thi)) for _ in range(nr)])
    lam0 = g.uniform(.2, 1.2, (nr, nr))
    np.fill_diagonal(lam0, 0.)
    np.fill_diagonal(lam0, -lam0.sum(1))
    n = max(c['n'] for c in cases)

    def begin(o):
        """A new chain: iterator and, if they are ours, the proposals."""
        if mode == 'public':
            return m.sample_posterior(t, v, nr, a, b, ome=o, **kw), None, None
        y = sample_forwards(t[-1], 0, lam0, np.random.default_rng([seed, 3]))
        z, h = m.sample_aug(thi0, y, t, v, np.random.default_rng([seed, 4]))
        ps = [MyopicMvRwSampler(thi0[k], m.bounds_thi, kw['opt_acc_prob']) for k in range(nr)]
        rs = MyopicMjpSampler(y, kw['opt_acc_prob'])
        return mcmc.resume_sampling(thi0, lam0, z, h, mod, mcmc.Controls(**kw), ps, rs, o), ps, rs

    def proceed(r, ps, rs, o, how):
        if how % 2:
            r, ps, rs = copy.deepcopy((r, ps, rs))
        c = dict(kw, n_cores=cores[how % len(cores)])
        thi, lam, z, h = r
        if mode == 'public' and how % 3 < 2:
            it = m.sample_posterior(t, v, nr, a, b, state=dict(thi=thi, lam=lam, z=z, h=h, param_samplers=ps, regime_sampler=rs, ome=o),
                                    **(dict(c, ome=np.random.default_rng(99)) if how % 3 else c))
        else:
            it = mcmc.resume_sampling(thi, lam, z, h, mod, mcmc.Controls(**c), ps, rs, o)
        return it, ps, rs

    def sampler(it, ps, rs):
        if mode != 'public':
            return ps, rs
        x = exposed(it)
        return x.get('param_samplers', ps), x.get('regime_sampler', rs)

    out.append({'ev': 'Begin', 'id': 'stops %s %s %d' % (mode, name, i)})
    thetas = set()
    for j, c in enumerate([dict(n=n, stops=[])] + cases):
        o = np.random.default_rng([seed, i, 11])
        it, ps, rs = begin(o)
        out.append({'ev': 'Start'})
        for k in range(1, c['n'] + 1):
            r = next(it)
            tk = toks(r)
            if j == 0:
                thetas |= {tk['thi'], tk['lam']}
            out.append(dict(ev='Sweep', tok=tk))
            if k in c['stops']:
                x = exposed(it)
                ps, rs = sampler(it, ps, rs)
                same = all(q not in x for q in ('thi', 'lam', 'z', 'h')) or toks(tuple(x.get(q, p) for q, p in zip(('thi', 'lam', 'z', 'h'), r))) == tk
                if ps is None or rs is None:
                    continue                   # nothing exposed to resume from
                it.close()
                del it
                out.append(dict(ev='Stop', same=same))
                poison(100 * j + k)
                if (j + k) % 4 == 0:
                    list(itertools.islice(m.sample_posterior(t, v, nr, ome=np.random.default_rng(5)), 2))
                it, ps, rs = proceed(r, ps, rs, o, j + k)
                out.append({'ev': 'Resume'})
        ps, rs = sampler(it, ps, rs)
        out.append(dict(ev='End', tok=ends(ps, rs, r[1], t, o)))
        if len(cores) > 1:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)
    out.append(dict(ev='Moves', diff=len(thetas)))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    stops = cases['stops']
    todo = [('public', 'ou'), ('driver', 'ou'), ('public', 'ou2'), ('driver', 'ou3')]
    if not q:
        todo = [(a, b) for a in ('public', 'driver') for b in sw.NAMES] * 3
    for i, (mode, name) in enumerate(todo):
        for k in range(3):
            js.append(('stops:%s:%s:%d' % (mode, name, k), chains, dict(seed=seed, mode=mode, name=name, i=i, cases=stops[k::3], cores=[1]), 900))
    # a long chain with few stops, and a stop after every sweep
    g = rng_for(seed, 'c18long')
    n = 25 if q else 200
    long_ = [dict(n=n, stops=sorted(int(x) for x in g.choice(np.arange(1, n), 3, replace=False))), dict(n=n, stops=list(range(1, n)))]
    for i, (mode, name) in enumerate([('public', 'ou'), ('driver', 'ou2')]):
        js.append(('long:%s:%s' % (mode, name), chains, dict(seed=seed, mode=mode, name=name, i=20 + i, cases=long_, cores=[1]), 900))
    js.append(('workers', chains, dict(seed=seed, mode='driver', name='ou', i=30, cases=[dict(n=4, stops=[1, 2, 3]), dict(n=4, stops=[2])], cores=[1, 2]), 900))
    return js
