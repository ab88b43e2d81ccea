"""C13: the hidden state stays aligned with the data."""
import numpy as np

import sw
from lib import NAN, ints, ranks, rng_for, tranks

LEVEL = 'model_checking'
TRACE = 'Trace_Hidden'
CHUNKS = 6
ASSUMPTIONS = ['for models whose volatility transform is not exactly invertible in floating point, values within 1e-9 count as equal',
               'regime jumps do not fall on observation times (probability zero)']


def models(tier):
    return [dict(spec='MC_Hidden', cfg='MC_Hidden' if tier == 'quick' else 'MC_Hidden_big',
                 checks='AlignedInv PruneMin SplitPaste over all sweeps; PruneAug for all paths')]


def enc(name, t, v, h):
    rt = ranks(t, h.t)
    rv = (tranks(v, h.vt, tol=1e-9) if name == 'log' else ranks(v, h.vt))
    return dict(obs=dict(t=rt[0], v=rv[0]), h=dict(t=rt[1], y=ints(h.yt), v=rv[1]))


def state(out, name, t, v, z, h):
    out.append(dict(ev='State', nz=len(z), **enc(name, t, v, h)))


def parts(out, name, t, v, z, h, g, conds=None):
    """Split at observation times and paste again; prune."""
    from ctbayes.switching import mcmc, types
    inner = t[1:-1]
    if conds is None:
        conds = [inner[:0], inner, inner[g.uniform(size=len(inner)) < .5], inner[g.uniform(size=len(inner)) < .2]]
    for c in conds:
        zp, hp = mcmc.split_hidden(z, h, c)
        back_z, back_h = mcmc.paste_hidden(zp, hp)
        rt = ranks(h.t, c, back_h.t, *[x.t for x in hp])
        rv = ranks(h.vt, back_h.vt, *[x.vt for x in hp])

        def nm(zs):
            return [next((i + 1 for i, w in enumerate(z) if w is x), NAN) for x in zs]
        out.append(dict(ev='Split', h=dict(t=rt[0], y=ints(h.yt), v=rv[0], z=nm(z)), cond=rt[1],
                        parts=[dict(t=rt[3 + k], y=ints(x.yt), v=rv[2 + k], z=nm(zp[k])) for k, x in enumerate(hp)] if len(zp) == len(hp) else [],
                        back=dict(t=rt[2], y=ints(back_h.yt), v=rv[1], z=nm(back_z))))
    p = types.prune_anchorage(h)
    rt = ranks(h.t, p.t, [p.fin_t])
    out.append(dict(ev='Prune', h=dict(t=rt[0], y=ints(h.yt)), p=dict(t=rt[1], y=ints(p.xt), fin=rt[2][0])))


def chain_job(out, seed, name, i, n):
    g = rng_for(seed, 'c13chain', name, i)
    m = sw.get(name)
    nobs = int(g.choice([2, 3, 6, 12]))
    t, v = sw.data(name, g, nobs, str(g.choice(['regular', 'tight', 'irregular', 'ties'])), float(g.choice([1., 4., 8.])))
    t = t + float(g.choice([0., 0., 0.]))
    kw = dict(pr_portkey=float(g.choice([.01, .2])), precoin=bool(g.integers(2)), ea_batch_size=int(g.choice([1, 10])))
    out.append({'ev': 'Begin', 'id': 'chain %s %d' % (name, i)})
    k = 0
    for thi, lam, z, h in m.sample_posterior(t, v, int(g.choice([2, 3])), 2., float(g.choice([.5, 2., 6.])), ome=g, **kw):
        state(out, name, t, v, z, h)
        if k % 5 == 0:
            parts(out, name, t, v, z, h, g)
        k += 1
        if k == n:
            break


def resume_job(out, seed, name, i, n):
    """The same over chains that are picked up again and again."""
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib import skeleton as mjp
    from ctbayes.switching import mcmc, static
    g = rng_for(seed, 'c13resume', name, i)
    m = sw.get(name)
    t, v = sw.data(name, g, 8)
    lam0 = static.construct_gen_hyperprior(2, 3., 3.)
    lam = np.array([[-1., 1.], [1.5, -1.5]])
    y = mjp.sample_forwards(t[-1], None, lam, g)
    thi = np.repeat(m.init_thi[None], 2, 0)
    z, h = m.sample_aug(thi, y, t, v, g)
    out.append({'ev': 'Begin', 'id': 'resume %s %d' % (name, i)})
    state(out, name, t, v, z, h)
    ps = [MyopicMvRwSampler(m.init_thi, m.bounds_thi, .2) for _ in range(2)]
    rs = MyopicMjpSampler(y, .2)
    for _ in range(n):
        it = m.sample_posterior(t, v, 2, 3., 3., ome=np.random.default_rng(0),
                                state=dict(thi=thi, lam=lam, z=z, h=h, param_samplers=ps, regime_sampler=rs, ome=g))
        for _ in range(int(g.integers(1, 4))):
            thi, lam, z, h = next(it)
            state(out, name, t, v, z, h)
        it.close()


def em_job(out, seed, name, i, n):
    g = rng_for(seed, 'c13em', name, i)
    m = sw.get(name)
    t, v = sw.data(name, g, 8, span=8.)
    out.append({'ev': 'Begin', 'id': 'em %s %d' % (name, i)})
    k = 0
    for obj, thi, lam, zz, hh in m.maximize_posterior(t, v, 2, 2., 2., ome=g, ftol=1e-9, n_thin_mcmc=int(g.integers(1, 4))):
        for z, h in zip(zz, hh):
            state(out, name, t, v, z, h)
        parts(out, name, t, v, zz[-1], hh[-1], g)
        k += 1
        if k == n:
            break


def aug_job(out, seed, name, cases, i, n):
    """The hidden state made for given regime paths: enumerated ones and random ones."""
    from ctbayes.mjplib.skeleton import Skeleton, sample_forwards
    g = rng_for(seed, 'c13aug', name, i)
    m = sw.get(name)
    out.append({'ev': 'Begin', 'id': 'aug %s %d' % (name, i)})
    todo = []
    for c in cases:
        unit = float(g.choice([1., .1, .37]))
        t = np.array(c['obs']['t']) * unit
        v = np.array(c['obs']['v']) / 10. + (.5 if name == 'log' else 0.)
        p = c['p']
        y = Skeleton(np.array(p['t']) * unit, np.array(p['y']), t[-1])
        todo.append((t, v, y, [t[1:-1][np.array([bool(b >> k & 1) for k in range(len(t) - 2)])] for b in range(2 ** (len(t) - 2))]))
    for k in range(n):
        nr = int(g.choice([2, 3, 4]))
        lam = g.uniform(.1, float(g.choice([.5, 3., 12.])), (nr, nr))
        np.fill_diagonal(lam, 0.)
        np.fill_diagonal(lam, -lam.sum(1))
        t, v = sw.data(name, g, int(g.choice([2, 3, 5, 15])), str(g.choice(['tight', 'irregular', 'regular'])))
        todo.append((t, v, sample_forwards(t[-1], None, lam, g), None))
    for t, v, y, conds in todo:
        nr = int(max(y.xt)) + 1
        thi = g.uniform(.5, 2., (nr, 2))
        z, h = m.sample_aug(thi, y, t, v, g)
        e = enc(name, t, v, h)
        rt = tranks(t, h.t, y.t, [y.fin_t], tol=1e-12)      # jumps are cut at the observations and moved back
        e['obs']['t'], e['h']['t'] = rt[0], rt[1]
        out.append(dict(ev='Aug', nz=len(z), p=dict(t=rt[2], y=ints(y.xt), fin=rt[3][0]), **e))
        parts(out, name, t, v, z, h, g, conds)


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    paths = cases['path']
    for k, name in enumerate(sw.NAMES):
        for i in range(2 if q else 12):
            js.append(('chain:%s%d' % (name, i), chain_job, dict(seed=seed, name=name, i=i, n=20 if q else 60), 200 if q else 900))
        js.append(('resume:%s' % name, resume_job, dict(seed=seed, name=name, i=0, n=6 if q else 40), 200))
        for i in range(1 if q else 4):
            js.append(('em:%s%d' % (name, i), em_job, dict(seed=seed, name=name, i=i, n=3 if q else 6), 300))
        sub = paths[k::5] if q else paths
        js.append(('aug:%s' % name, aug_job, dict(seed=seed, name=name, cases=sub[:40 if q else 10 ** 6], i=0, n=30 if q else 300), 200))
    return js
