"""C23: simulated diffusions and likelihood estimates against exact laws."""
import numpy as np

import sw
from lib import fx, fxs, fxm, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Diffusion'
CHUNKS = 8
SPECNAME = {'ou': 'sou', 'ou2': 'sou2', 'ou3': 'sou3', 'quad': 'quad', 'log': 'log'}
ASSUMPTIONS = ['half-space events of one draw and of two consecutive draws, at 6 standard errors; averages of estimates at 6 standard errors plus .0025',
               'mean-reverting Gaussian models only: the square-root diffusion on its bounded state space is recorded as a known finding',
               'parameters with mean reversion times horizon below about 3, so that proposals are accepted and averages have moderate variance']


def models(tier):
    return [dict(spec='MC_Diffusion', cfg='MC_Diffusion' if tier == 'quick' else 'MC_Diffusion_big', workers=8,
                 checks='Exact Composes PinnedIsConditioned PinnedMarkov OneRegime RateEnds BelowLog')]


def laws(out, g, th, T, v0, v1, t, V):
    """V: draws x times, values on the scale of the data"""
    n, k = V.shape
    sc = V.std(0).max() + 1e-9
    cs = [np.eye(k)[0][None], np.eye(k)[-1][None]]
    if k > 1:
        cs += [np.append(-1, np.ones(k - 1))[None], np.round(g.normal(size=k), 2)[None], (np.eye(k)[1] - np.eye(k)[0])[None]]
    cs += [np.round(g.normal(size=(2, k)), 2)]
    for c in cs:
        r = len(c)
        W = V[:n // r * r].reshape(n // r, r, k)
        y = np.einsum('nrk,rk->n', W, c)
        if y.std() < .05 * sc:
            continue
        m = np.round(np.quantile(y, [.1, .3, .5, .75, .9]), 4)
        out.append(dict(ev='Law', m='ou', th=fxs(th), T=fx(T), v0=fx(v0), v1=fx(v1 if v1 is not None else 0), free=v1 is None, t=fxs(t), cc=fxm(c), mm=fxs(m),
                        cnt=[int(np.sum(y <= q)) for q in m], n=len(y)))


SDE = [((1., 1.), 1., .5, None, (.5, 1.)), ((1.5, .6), 1., -.8, None, (.1, .4, 1.)), ((.6, 1.6), 2., 0., None, (.7, 1.9)), ((2., .5), .5, .9, None, (.25, .5)),
       ((1., 1.), 1., .5, -.5, (.3, .6)), ((1.4, .7), 1.5, 0., .8, (.2, .7, 1.3)), ((.7, 2.), .4, 1., 1.5, (.1, .3)), ((1.8, .8), 1., -.6, -.6, (.5, .9))]


def sde(out, seed, i, n):
    from ctbayes.ito.models import ou
    th, T, v0, v1, t = SDE[i]
    g = rng_for(seed, 'c23sde', i)
    th, t = np.array(th), np.array(t)
    out.append({'ev': 'Begin', 'id': 'diffusion %d' % i})
    ask = np.unique(np.concatenate([[0.], t, [T]]))
    it = ou.sample_sde(th, ask, T, v0, v1, ome=g)
    D = np.array([next(it) for _ in range(n)])
    out.append(dict(ev='Ends', shape=D.shape == (n, len(ask)),
                    ends=bool(np.allclose(D[:, 0], v0, atol=1e-9) and (v1 is None or np.allclose(D[:, -1], v1, atol=1e-9)))))
    laws(out, rng_for(seed, 'c23lin', i), th, T, v0, v1, t, D[:, np.searchsorted(ask, t)])


def bridge(out, seed, i, n):
    """Bridges in standard form, revealed in varying order afterwards."""
    from ctbayes.ea3lib import seed as S
    from ctbayes.ito.models import ou
    th, T, v0, v1, t = SDE[i]
    g = rng_for(seed, 'c23bridge', i)
    th, t = np.array(th), np.array(t)
    out.append({'ev': 'Begin', 'id': 'bridge %d' % i})
    vt = np.array([v0, v1])
    (normop, inv), = ou.gen_normops(th, np.array([0., T]), vt)
    it = S.sample_bridge(ou.bounds_x, normop, inv, ou.eval_disc(th), ou.eval_bounds_disc(th), g)
    V = np.empty((n, len(t)))
    ok = True
    for k in range(n):
        z = next(it)
        if k % 3 == 0:
            z, x = S.interpolate_seed(z, t, normop, inv, g)
        else:
            order = list(range(len(t)))[::-1 if k % 3 == 1 else 1]
            x = np.empty(len(t))
            for j in order:
                z, q = S.interpolate_seed(z, t[j:j + 1], normop, inv, g)
                x[j] = q[0]
        _, e = S.interpolate_seed(z, np.array([0., T]), normop, inv, g)
        ok &= bool(np.allclose(ou.dereduce(th, e), vt, atol=1e-9))
        V[k] = ou.dereduce(th, x)
    out.append(dict(ev='Ends', ends=ok, shape=True))
    laws(out, rng_for(seed, 'c23blin', i), th, T, v0, v1, t, V)


def summary(logs):
    logs = np.array(logs, float)
    top = logs.max()
    e = np.exp(logs - top)
    return dict(lmean=fx(top + np.log(e.mean())), rse=fx(e.std() / e.mean() / np.sqrt(len(e)) + 1e-9))


def mean_se(vals):
    v = np.array(vals, float)
    return dict(mean=fx(v.mean()), se=fx(v.std() / np.sqrt(len(v)) + 1e-9))


PLAIN = [((1., 1.), (1.,), (.5, -.3)), ((1.5, .6), (.4, 1.1), (.3, -.2, .5)), ((.5, 2.), (.7, .2, 1.5), (1., 0., 1.2, -.5)), ((2., .5), (.9,), (-.4, -.4))]


def plain(out, seed, i, n):
    from ctbayes.ito import mcem
    from ctbayes.ito.models import ou
    th, dt, v = map(np.array, PLAIN[i])
    g = rng_for(seed, 'c23plain', i)
    out.append({'ev': 'Begin', 'id': 'density %d' % i})
    t = np.append(0, np.cumsum(dt)) + (2. if i % 2 else 0.)
    mod = mcem.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik, ou.eval_disc, ou.eval_bounds_disc)
    first, again, logs = [], [], []
    ts = [np.sort(np.round(g.uniform(0, d, 3), 4)) for d in dt]
    for _ in range(n):
        z = ou.sample_aug(th, t, v, g)
        a, z = mcem.est_aug_lik(th, z, mod, g)
        b, z = mcem.est_aug_lik(th, z, mod, g)
        c, z = mcem.est_log_aug_lik(th, z, mod, ts, g)
        first.append(np.ravel(a)[0]), again.append(np.ravel(b)[0]), logs.append(np.ravel(c)[0])
    x = fxs(ou.reduce(th, v))
    for what in (first, again):
        out.append(dict(ev='Plain', m='ou', th=fxs(th), dt=fxs(np.diff(t)), x=x, **summary(what)))
    out.append(dict(ev='PlainLog', m='ou', th=fxs(th), dt=fxs(np.diff(t)), x=x, ts=[fxs(q) for q in ts], **mean_se(logs)))


# parameters by model (regimes x 2), moderate mean reversion on each
TH = {'ou': ((1., 2.), (.5, .6)), 'ou2': ((.9, 1.9), (1.3, .8)), 'ou3': ((.5, 1.7), (1.7, .6)), 'quad': ((1., 2.), (.5, .6)), 'log': ((1., 2.), (.5, .6))}
# regimes of the segments, their lengths, values at the ends (scale of the sampler), observed ends
HID = [((0, 1, 1, 0), (.5, .3, .6, .4), (.3, .5, -.2, .1, .6), (1, 3, 5)), ((1, 0), (.8, .7), (-.5, .2, .4), (1, 3)), ((0, 0, 1), (.6, .2, .9), (0., .4, .1, .1), (1, 2, 4))]


def hidden(out, seed, m, i, n):
    from ctbayes.switching import mcem
    from ctbayes.switching.types import Anchorage
    M = sw.get(m)
    g = rng_for(seed, 'c23hidden', m, i)
    out.append({'ev': 'Begin', 'id': 'hidden density %s %d' % (m, i)})
    y, dt, x, obs = HID[i]
    th = np.array(TH[m])
    t = np.append(0, np.cumsum(dt)) + (1.5 if i else 0.)
    v = np.asarray(M.dereduce(np.array(x)), float)
    h = Anchorage(t, np.array(y + (y[-1],)), v)
    k = [q - 1 for q in obs]
    mm = sw.mcmc_model(M, t[k], v[k], 2)
    mod = mcem.Model(*mm[:-1])
    bounds_x = M.bounds_x
    from ctbayes.ea3lib import seed as S
    ts = [np.sort(np.round(g.uniform(0, d, 2), 4)) for d in np.diff(t)]
    base = dict(m=SPECNAME[m], th=[fxs(q) for q in th], dt=fxs(np.diff(t)), y=[int(q) for q in y], x=fxs(x), obs=list(obs))
    for r in (None, 0, 1):
        est, logs = [], []
        for _ in range(n):
            z = [S.sample_raw_seed(bounds_x, *ops, g) for ops in M.gen_normops(th, *h)]
            a, z = mcem.est_aug_lik(th, z, h, mod, g, r)
            b, z = mcem.est_log_aug_lik(th, z, h, mod, ts, g, r)
            est.append(np.ravel(a)[0]), logs.append(np.ravel(b)[0])
        rr = -1 if r is None else r
        out.append(dict(ev='Hidden', restrict=rr, **base, **summary(est)))
        out.append(dict(ev='HiddenLog', restrict=rr, ts=[fxs(q) for q in ts], **base, **mean_se(logs)))


# observation times, values there (scale of the sampler), regime path
REG = [((0., .9, 2.), (.3, -.2, .5), (0., .5, 1.3), (0, 1, 0)), ((0., 1.2), (.4, .1), (0., .3, .8), (1, 0, 1)), ((0., .4, 1.5), (-.5, -.1, -.6), (0., 1.), (0, 1))]


def regime(out, seed, m, i, n):
    """Hidden values proposed by the sampler and averaged out."""
    from ctbayes.mjplib import skeleton as K
    from ctbayes.switching import mcem
    M = sw.get(m)
    g = rng_for(seed, 'c23regime', m, i)
    out.append({'ev': 'Begin', 'id': 'regime density %s %d' % (m, i)})
    t, x, yt, y = (np.array(q) for q in REG[i])
    th = np.array(TH[m])
    v = np.asarray(M.dereduce(x), float)
    mod = mcem.Model(*sw.mcmc_model(M, t, v, 2)[:-1])
    path = K.Skeleton(yt, y, t[-1])
    est = []
    for _ in range(n):
        z, h = M.sample_aug(th, path, t, v, g)
        a, z = mcem.est_aug_lik(th, z, h, mod, g)
        est.append(np.ravel(a)[0])
    cuts = sorted(set(t) | set(yt))
    dts, ys = [], []
    for a, b in zip(t, t[1:]):
        p = [c for c in cuts if a <= c <= b]
        dts.append(fxs(np.diff(p)))
        ys.append([int(y[np.searchsorted(yt, c, 'right') - 1]) for c in p[:-1]])
    out.append(dict(ev='Regime', m=SPECNAME[m], th=[fxs(q) for q in th], dt=dts, y=ys, x=fxs(x), **summary(est)))


def cir(out, seed):
    """The square-root diffusion on its bounded state space: recorded finding."""
    from ctbayes.ito.models import cir as C
    out.append({'ev': 'Begin', 'id': 'square-root diffusion'})
    for k in range(4):
        g = rng_for(seed, 'c23cir', k)
        try:
            it = C.sample_sde(np.array([1., 1., 1.]), np.array([.5, 1.]), 1., .2, None, g)
            for _ in range(100):
                next(it)
        except Exception as e:
            out.append(dict(ev='Exc', what=type(e).__name__, key='cir-sample-sde'))


def jobs(tier, seed, cases):
    s, q = (1, 1) if tier == 'quick' else (12, 8)
    js = [('sde:%d:%d' % (i, b), sde, dict(seed=seed + 1000 * b, i=i, n=3000 if q == 1 else 8000), 900) for i in range(len(SDE)) for b in range(q)]
    js += [('bridge:%d' % i, bridge, dict(seed=seed, i=i, n=2500 * s), 1800) for i in range(4, len(SDE))]
    js += [('plain:%d' % i, plain, dict(seed=seed, i=i, n=1500 * s), 1800) for i in range(len(PLAIN))]
    js += [('hidden:%s:%d' % (m, i), hidden, dict(seed=seed, m=m, i=i, n=500 * s), 1800) for m in sw.NAMES for i in range(len(HID)) if q > 1 or i != 1 or m == 'ou']
    js += [('regime:%s:%d' % (m, i), regime, dict(seed=seed, m=m, i=i, n=1500 * s), 1800) for m in sw.NAMES for i in range(len(REG)) if q > 1 or i < 2 or m == 'ou']
    js += [('cir:sde', cir, dict(seed=seed), 300)]
    return js
