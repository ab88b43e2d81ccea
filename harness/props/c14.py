"""C14: parameter updates."""
import numpy as np

import sw
import toy
from lib import fx, fxs, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_ParamUpdate'
CHUNKS = 6
ASSUMPTIONS = ['acceptance laws are checked on models whose path weight is constant or linear in the path (known in closed form); '
               'real models are checked for locality, kept points and what the adaptation sees, their law in C24']


def models(tier):
    return [dict(spec='MC_ParamUpdate', cfg='MC_ParamUpdate' if tier == 'quick' else 'MC_ParamUpdate_big',
                 checks='KeepsPoints OneCoordinate ObsLocal ToldOnce NothingForgotten; Balanced and Inv2 in exact arithmetic')]


class Enc:
    """Names for vectors and points: equal bits, equal name."""

    def __init__(self):
        self.d = {}

    def __call__(self, x):
        return self.d.setdefault(np.asarray(x, float).tobytes(), len(self.d) + 1)

    def seeds(self, z):
        return [[[self(a), self(b)] for a, b in zip(q.s, q.z)] for q in z]

    def layers(self, z):
        return [[self(q.tight_z), self(q.loose_z)] for q in z]


def upd(out, nil, z, res, z2, ps, look):
    e = Enc()
    asked = [i for i, p in enumerate(ps) if p.asked]
    told = [[i + 1, e(v), fx(pr) if pr not in (0, 1) else int(pr)] for i, p in enumerate(ps) for v, pr in p.told]
    prop = ps[asked[0]].prop if asked else np.nan
    out.append(dict(ev='Upd', nil=[e(x) for x in nil], prop=e(prop), asked=[i + 1 for i in asked for _ in range(ps[i].asked)],
                    res=[e(x) for x in np.ravel(res)], told=told, old=e.seeds(z), new=e.seeds(z2), lay0=e.layers(z), lay1=e.layers(z2), **look))


def swupd(out, nil, z, res, z2, ps, look):
    e = Enc()
    told = [[i + 1, e(v), fx(pr) if pr not in (0, 1) else int(pr)] for i, p in enumerate(ps) for v, pr in p.told]
    out.append(dict(ev='SwUpd', nil=[e(x) for x in nil], prop=[e(p.prop) if p.asked else 0 for p in ps],
                    asked=[i + 1 for i, p in enumerate(ps) for _ in range(p.asked)],
                    res=[e(x) for x in res], told=told, old=e.seeds(z), new=e.seeds(z2), lay0=e.layers(z), lay1=e.layers(z2), **look))


def reset(ps):
    for p in ps:
        p.told, p.asked = [], 0


def ito_chain(out, seed, i, n):
    """The whole sampler's updates on the shipped model."""
    from ctbayes.ito import mcmc
    from ctbayes.ito.models import ou
    from ctbayes.misc.adapt import MyopicRwSampler
    from joblib import Parallel
    g = rng_for(seed, 'c14ito', i)
    t, v = sw.data('ou', g, int(g.choice([2, 4, 9])), str(g.choice(['regular', 'tight', 'irregular'])))
    mod = mcmc.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc,
                     ou.eval_bounds_disc, ou.eval_bounds_grad)
    ctrl = mcmc.Controls(pr_portkey=float(g.choice([0.01, .3])), precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    thi = g.uniform(.5, 2., 2)
    z = mod.sample_aug(thi, t, v, g)
    ps = [toy.Recorder(MyopicRwSampler(x, b, .2)) for x, b in zip(thi, np.array(ou.bounds_thi).T)]
    out.append({'ev': 'Begin', 'id': 'ito chain %d' % i})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            reset(ps)
            spied, spy = toy.Lookout.on(mod, False)
            res, z2 = mcmc.update_params(thi, z, spied, ctrl, ps, g)
            upd(out, thi, z, res, z2, ps, toy.looked(mod, spy, thi, z2))
            thi, z = res, z2
            if k % 4 == 3:
                z = mcmc.update_sde(thi, z, mod, ctrl, g, pool)


def sw_chain(out, seed, name, i, n):
    from ctbayes.misc.adapt import MyopicMvRwSampler
    from ctbayes.mjplib.skeleton import sample_forwards
    from ctbayes.switching import mcmc
    from joblib import Parallel
    g = rng_for(seed, 'c14sw', name, i)
    m = sw.get(name)
    nr = int(g.choice([2, 3]))
    t, v = sw.data(name, g, int(g.choice([2, 4, 8])), str(g.choice(['regular', 'tight', 'irregular'])))
    mod = sw.mcmc_model(m, t, v, nr)
    ctrl = mcmc.Controls(pr_portkey=float(g.choice([0.01, .3])), precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    thi = g.uniform(.6, 1.6, (nr, 2))
    lam = g.uniform(.3, 1.5, (nr, nr))
    np.fill_diagonal(lam, 0.)
    np.fill_diagonal(lam, -lam.sum(1))
    ps = [toy.Recorder(MyopicMvRwSampler(thi[k].copy(), m.bounds_thi, .2)) for k in range(nr)]
    out.append({'ev': 'Begin', 'id': 'sw chain %s %d' % (name, i)})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            if k % 8 == 0:
                z, h = m.sample_aug(thi, sample_forwards(t[-1], None, lam, g), t, v, g)
            reset(ps)
            spied, spy = toy.Lookout.on(mod, True)
            res, z2 = mcmc.update_params(thi, z, h, spied, ctrl, ps, g, pool)
            swupd(out, thi, z, res, z2, ps, toy.looked(mod, spy, thi, z2, h))
            thi, z = res, z2


def ito_law(out, seed, kind, i, n, ev=20):
    from ctbayes.ito import mcmc
    g = rng_for(seed, 'c14itolaw', kind, i)
    nobs = int(g.choice([2, 3, 5]))
    t = np.round(np.append(0, np.cumsum(g.uniform(.2, .9, nobs - 1))), 4)
    v = np.round(g.normal(scale=.8, size=nobs), 4)
    rate = np.round(g.uniform(0, 1, 2), 3)
    mod = toy.ito_model(kind, t, v, rate)
    nil = np.round(np.array([g.uniform(-1.5, 1.5), g.uniform(.6, 1.6)]), 4)
    pk = 0. if kind == 'lin' else float(g.choice([0., .05, .4]))
    ctrl = mcmc.Controls(pr_portkey=pk, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    f, b = np.round(g.normal(scale=.7, size=(2, 2)), 4)
    prop = np.round([nil[0] + g.choice([-1, 1]) * g.uniform(.3, 1.), nil[1] * g.choice([.75, 1.3])], 4)
    out.append({'ev': 'Begin', 'id': 'ito law %s %d' % (kind, i)})
    cnt, tot = np.zeros(2, int), np.zeros(2, int)
    for k in range(n):
        z = mod.sample_aug(nil, t, v, g)
        ps = [toy.FixedProposal(nil[j], prop[j], f[j], b[j]) for j in range(2)]
        spied, spy = toy.Lookout.on(mod, False) if k < ev else (mod, None)
        res, z2 = mcmc.update_params(nil, z, spied, ctrl, ps, g)
        j = 0 if ps[0].asked else 1
        tot[j] += 1
        cnt[j] += int(res[j] == prop[j])
        if k < ev:
            upd(out, nil, z, res, z2, ps, toy.looked(mod, spy, nil, z2))
    for j in range(2):
        pri = nil.copy()
        pri[j] = prop[j]
        out.append(dict(ev='Law', sp='ito', kind=kind, pre=ctrl.precoin, pk=fx(pk), nil=fxs(nil), pri=fxs(pri), rate=fxs(rate), f=fx(f[j]), b=fx(b[j]),
                        iv=[fxs(x) for x in zip(np.diff(t), v, v[1:])], cnt=int(cnt[j]), n=int(tot[j])))


def sw_law(out, seed, kind, i, n, ev=20):
    from ctbayes.mjplib.skeleton import Skeleton, partition_skeleton
    from ctbayes.switching import mcmc
    from joblib import Parallel
    g = rng_for(seed, 'c14swlaw', kind, i)
    nr = int(g.choice([2, 3]))
    nobs = int(g.choice([3, 4, 5]))
    t = np.round(np.append(0, np.cumsum(g.uniform(.3, .9, nobs - 1))), 4)
    v = np.round(g.normal(scale=.8, size=nobs), 4)
    rate = np.round(g.uniform(0, 1, 2), 3)
    mod = toy.sw_model(kind, t, v, rate, nr)
    nil = np.round(np.stack([g.uniform(-1.2, 1.2, nr), g.uniform(.6, 1.5, nr)], 1), 4)
    jt = np.sort(g.uniform(0, t[-1], int(g.integers(1, 4))))
    x = [int(g.integers(nr))]
    for _ in jt:
        x.append(int((x[-1] + g.integers(1, nr)) % nr))
    y = Skeleton(np.append(0, jt), np.array(x), t[-1])
    pk = 0. if kind == 'lin' else float(g.choice([0., .05, .4]))
    ctrl = mcmc.Controls(pr_portkey=pk, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    f, b = np.round(g.normal(scale=.7, size=(2, nr)), 4)
    prop = np.round(np.stack([nil[:, 0] + g.choice([-1, 1], nr) * g.uniform(.2, .7, nr), nil[:, 1] * g.choice([.85, 1., 1.2], nr)], 1), 4)
    z, h = mod.sample_aug(nil, y, t, v, g)
    h = h._replace(t=np.round(h.t, 6), vt=np.round(h.vt, 5))
    out.append({'ev': 'Begin', 'id': 'sw law %s %d' % (kind, i)})
    from ctbayes.ea3lib import seed as sde_seed
    cnt = np.zeros(nr, int)
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            z = [sde_seed.sample_raw_seed((-np.inf, np.inf), *o, g) for o in mod.gen_normops(nil, *h)]
            ps = [toy.FixedProposal(nil[j], prop[j], f[j], b[j]) for j in range(nr)]
            spied, spy = toy.Lookout.on(mod, True) if k < ev else (mod, None)
            res, z2 = mcmc.update_params(nil, z, h, spied, ctrl, ps, g, pool)
            cnt += (res == prop).all(1)
            if k < ev:
                swupd(out, nil, z, res, z2, ps, toy.looked(mod, spy, nil, z2, h))
    iv = list(zip(np.diff(h.t), h.vt, h.vt[1:]))
    for j in range(nr):
        out.append(dict(ev='Law', sp='sw', kind=kind, pre=ctrl.precoin, pk=fx(pk), nil=fxs(nil[j]), pri=fxs(prop[j]), rate=fxs(rate), f=fx(f[j]),
                        b=fx(b[j]), iv=[fxs(x) for x, y0 in zip(iv, h.yt) if y0 == j], cnt=int(cnt[j]), n=n))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    for kind in ('const', 'lin'):
        for i in range(6 if q else 24):
            js.append(('itolaw:%s%d' % (kind, i), ito_law, dict(seed=seed, kind=kind, i=i, n=3000 if q else 20000), 300 if q else 1500))
            js.append(('swlaw:%s%d' % (kind, i), sw_law, dict(seed=seed, kind=kind, i=i, n=1500 if q else 12000), 300 if q else 1500))
    for i in range(4 if q else 16):
        js.append(('ito:%d' % i, ito_chain, dict(seed=seed, i=i, n=100 if q else 600), 300))
    for name in sw.NAMES:
        for i in range(2 if q else 10):
            js.append(('sw:%s%d' % (name, i), sw_chain, dict(seed=seed, name=name, i=i, n=40 if q else 200), 300))
    return js
