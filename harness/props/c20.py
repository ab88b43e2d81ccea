"""C20: likelihoods of observed and hidden values."""
import importlib

import numpy as np

import sw
from lib import fx, fxs, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Lik'
CHUNKS = 8
SPECNAME = {'ou': 'sou', 'ou2': 'sou2', 'ou3': 'sou3', 'quad': 'quad', 'log': 'log'}
ASSUMPTIONS = ['six decimals; segments with variance below .04 and squared increments above 60 variances are left out',
               'observation times are those at which the regime does not change (jumps at observation times have probability zero)']


def models(tier):
    return [dict(spec='MC_Lik', cfg='MC_Lik' if tier == 'quick' else 'MC_Lik_big',
                 checks='BridgeEnergy BridgeVariance Convex Cut, exact over the rationals')]


def plain(out, seed, m, n):
    M = importlib.import_module('ctbayes.ito.models.' + m)
    g = rng_for(seed, 'c20plain', m)
    out.append({'ev': 'Begin', 'id': 'diffusion ' + m})
    while n > 0:
        k = int(g.integers(1, 7))
        dt = np.round(np.exp(g.uniform(np.log(.03), np.log(4.), k)), 3)
        if g.uniform() < .3:
            dt[:] = dt[0]
        t = np.append(0, np.cumsum(dt)) + float(g.choice([0, 0, 3.]))
        if m == 'cir':
            th = np.round([g.uniform(.3, 2.), g.uniform(.4, 2.), g.uniform(.5, 1.5)], 3)
            x = np.round(g.uniform(.4, 3., k + 1), 3)
        else:
            th = np.round(g.uniform(.2, 3., 2), 3)
            x = np.round(g.normal(scale=1.2, size=k + 1), 3)
        if g.uniform() < .2:
            x[1] = x[0]
        v = M.dereduce(th, x)
        if np.max(np.square(np.diff(x)) / dt) > 60:
            continue
        ll = M.eval_biased_log_lik(th, t, v)
        parts = [M.eval_biased_log_lik(th, t[i:i + 2], v[i:i + 2]) for i in range(k)]
        out.append(dict(ev='Plain', m=m, th=fxs(th), dt=fxs(dt), x=fxs(x), ll=fx(ll), parts=fxs(parts)))
        n -= 1


def history(m, g):
    """A hidden state: regimes over segments, values, positions (1-based) of observations."""
    R = int(g.choice([2, 2, 3]))
    nobs = int(g.integers(2, 6))
    y, obs, cur = [], [1], int(g.integers(R))
    for _ in range(nobs - 1):
        y.append(cur)
        for _ in range(int(g.choice([0, 0, 1, 1, 2, 4]))):
            cur = int(g.choice([r for r in range(R) if r != cur]))
            y.append(cur)
        obs.append(len(y) + 1)
    if g.uniform() < .2:
        y = [r % (R - 1) if R > 2 else 0 for r in y]        # the last regime is never visited (repeats: positions set below)
    dt = np.round(np.exp(g.uniform(np.log(.05), np.log(3.), len(y))), 3)
    x = np.round(g.normal(scale=.9, size=len(y) + 1), 3)
    if g.uniform() < .2:
        x = np.round(x)
    th = np.round(g.uniform(.25, 2.5, (R, 2)), 3)
    # observations are where the regime stays
    obs = [1] + [i + 1 for i in range(1, len(y)) if y[i] == y[i - 1]] + [len(y) + 1]
    return th, dt, y, x, obs


def var(M, th, dt, y):
    return dt * np.square(np.broadcast_to(M.eval_vol(th, np.array(y)), len(y)))


def hidden(out, seed, m, n):
    from ctbayes.switching import mcmc
    from ctbayes.switching.types import Anchorage
    M = sw.get(m)
    g = rng_for(seed, 'c20hidden', m)
    out.append({'ev': 'Begin', 'id': 'switching ' + m})
    while n > 0:
        th, dt, y, x, obs = history(m, g)
        R = len(th)
        s = var(M, th, dt, y)
        x2 = x.copy()
        hid = [i for i in range(len(x)) if i + 1 not in obs]
        for i in hid:
            if g.uniform() < .7:
                x2[i] = round(float(g.normal(scale=.9)), 3)
        if s.min() < .04 or max(np.max(np.square(np.diff(q)) / s) for q in (x, x2)) > 60:
            continue
        t = np.append(0, np.cumsum(dt)) + float(g.choice([0, 0, 2.]))
        yt = np.array(y + [y[-1]])
        v, v2 = (np.asarray(M.dereduce(q), float) for q in (x, x2))
        ll = M.eval_biased_log_lik
        full = ll(th, t, yt, v)
        restr = [ll(th, t, yt, v, r) for r in range(R)]
        inner = [t[i - 1] for i in obs[1:-1]]
        cut = np.array([q for q in inner if g.uniform() < .6])
        h = Anchorage(t, yt, v)
        z = list(range(len(y)))
        z_, h_ = mcmc.split_hidden(z, h, cut)
        if g.uniform() < .5:
            z_, h_ = list(zip(*[(a, b) for a, b in zip(z_, h_)]))
        sec = [ll(th, *q) for q in h_]
        _, back = mcmc.paste_hidden(list(z_), list(h_))
        full_b = ll(th, *back)
        out.append(dict(ev='Sw', m=SPECNAME[m], th=[fxs(q) for q in th], dt=fxs(dt), y=list(map(int, y)), x=fxs(x), obs=obs,
                        full=fxs(full), restr=[fxs(q) for q in restr], sec=[fxs(q) for q in sec], nsec=len(cut) + 1,
                        back=fxs(full_b), parts=[len(q) for q in z_]))
        r = int(g.integers(R))
        th2 = th.copy()
        th2[[q for q in range(R) if q != r]] *= 1.3
        own = bool(ll(th2, t, yt, v, r)[0] == restr[r][0])
        out.append(dict(ev='Move', m=SPECNAME[m], th=[fxs(q) for q in th], dt=fxs(dt), y=list(map(int, y)), x=fxs(x), x2=fxs(x2), obs=obs,
                        tot=fx(sum(full)), tot2=fx(sum(ll(th, t, yt, v2))), own=own))
        n -= 1


def augmented(out, seed, m, n):
    """Hidden states made by the samplers themselves, all observation times kept apart."""
    from ctbayes.mjplib import skeleton as S
    M = sw.get(m)
    g = rng_for(seed, 'c20aug', m)
    out.append({'ev': 'Begin', 'id': 'augmentation ' + m})
    while n > 0:
        k = int(g.integers(2, 5))
        t = np.append(0, np.cumsum(np.round(g.uniform(.2, 1.5, k - 1), 3)))
        x0 = np.round(g.normal(scale=.8, size=k), 3)
        v = np.asarray(M.dereduce(x0), float)
        R = int(g.choice([2, 3]))
        lam = g.uniform(.3, 1.5, (R, R))
        np.fill_diagonal(lam, 0)
        np.fill_diagonal(lam, -lam.sum(1))
        y = S.sample_forwards(t[-1], int(g.integers(R)), lam, g)
        th = np.round(g.uniform(.4, 2.2, (R, 2)), 3)
        _, h = M.sample_aug(th, y, t, v, g)
        x = np.asarray(M.reduce(h.vt), float)
        dt = np.diff(h.t)
        s = var(M, th, dt, h.yt[:-1])
        if len(dt) > 12 or s.min() < .04 or np.max(np.square(np.diff(x)) / s) > 60 or np.max(np.abs(x)) > 8:
            continue
        obs = [int(np.where(h.t == q)[0][0]) + 1 for q in t]
        full = M.eval_biased_log_lik(th, *h)
        restr = [M.eval_biased_log_lik(th, *h, r) for r in range(R)]
        out.append(dict(ev='Sw', m=SPECNAME[m], th=[fxs(q) for q in th], dt=fxs(dt), y=list(map(int, h.yt[:-1])), x=fxs(x), obs=obs,
                        full=fxs(full), restr=[fxs(q) for q in restr], sec=[fxs(full)], nsec=1, back=fxs(full), parts=[len(dt)]))
        n -= 1


# observation times, values there (scale of the sampler), regime path
ANCH = [((0., 1.2, 2.), (.4, -.3, .5), (0., .3, .8, 1.5), (1, 0, 1, 0)), ((0., 1.), (0., .6), (0., .25, .7), (0, 1, 0)),
        ((0., .5, 2.), (-.5, .1, .2), (0., .2, .7, 1.1, 1.6), (0, 1, 0, 2, 1))]
ATH = {'ou': ((1., 2.), (.5, .6), (.8, 1.)), 'ou2': ((.9, 1.9), (1.3, .8), (1., 1.)), 'ou3': ((.5, 1.7), (1.7, .6), (1., 1.)),
       'quad': ((1., 2.), (.5, .6), (.8, 1.)), 'log': ((1., 2.), (.5, .6), (.8, 1.))}


def anchors(out, seed, m, i, n):
    """The law of the hidden values proposed for a regime path."""
    from ctbayes.mjplib import skeleton as S
    M = sw.get(m)
    g = rng_for(seed, 'c20anch', m, i)
    t, x, jt, jy = (np.array(q) for q in ANCH[i])
    th = np.array(ATH[m])
    v = np.asarray(M.dereduce(x), float)
    path = S.Skeleton(jt, jy, t[-1])
    out.append({'ev': 'Begin', 'id': 'hidden values %s %d' % (m, i)})
    X, first = [], None
    ok = True
    for _ in range(n):
        _, h = M.sample_aug(th, path, t, v, g)
        first = h if first is None else first
        ok &= np.array_equal(h.t, first.t) and np.array_equal(h.yt, first.yt)
        X.append(np.asarray(M.reduce(h.vt), float))
    X = np.array(X)
    hid = [k for k in range(len(first.t)) if not np.any(np.abs(t - first.t[k]) < 1e-9)]
    obs = [k + 1 for k in range(len(first.t)) if k not in hid]
    gl = rng_for(seed, 'c20lin', m, i)
    cs = [np.eye(len(hid))[k] for k in range(len(hid))] + [np.round(gl.normal(size=len(hid)), 2), np.append(np.ones(len(hid) - 1), -1) if len(hid) > 1 else [2.]]
    for c in cs:
        full = np.zeros(len(first.t))
        full[hid] = c
        q = X @ full
        mm = np.round(np.quantile(q, [.1, .35, .6, .9]), 4)
        out.append(dict(ev='Anchors', m=SPECNAME[m], th=[fxs(w) for w in th], dt=fxs(np.diff(first.t)), y=[int(w) for w in first.yt[:-1]], x=fxs(X[0]), obs=obs,
                        c=fxs(full), mm=fxs(mm), cnt=[int(np.sum(q <= w)) for w in mm], n=n, same=bool(ok)))


def jobs(tier, seed, cases):
    k = 1 if tier == 'quick' else 20
    js = [('plain:' + m, plain, dict(seed=seed, m=m, n=80 * k), 600) for m in ('ou', 'cir')]
    for m in sw.NAMES:
        js += [('hidden:' + m, hidden, dict(seed=seed, m=m, n=60 * k), 600), ('augmented:' + m, augmented, dict(seed=seed, m=m, n=25 * k), 600)]
        js += [('anchors:%s%d' % (m, i), anchors, dict(seed=seed, m=m, i=i, n=2500 * min(k, 8)), 900) for i in range(len(ANCH))]
    return js
