"""C25: moments and reference simulators."""
import numpy as np

from lib import fx, fxs, fxm, rng_for, ticks

LEVEL = 'model_checking'
TRACE = 'Trace_Gauss'
CHUNKS = 8
ASSUMPTIONS = ['moments exact on integer grids, six decimals elsewhere; joint laws of Bessel paths by quadrature in three dimensions',
               'the number of steps of a discretised path may round down when the horizon is a multiple of the resolution only up to rounding']


def models(tier):
    return [dict(spec='MC_Gauss', cfg='MC_Gauss' if tier == 'quick' else 'MC_Gauss_big', checks='BridgeIsConditioned Nested Markov Reversed Positive, exact over the rationals')]


def grid(out, seed, cases):
    from ctbayes.sdelib import moments as mo
    g = rng_for(seed, 'c25grid')
    out.append({'ev': 'Begin', 'id': 'grid'})
    for c in cases:
        u, T = float(g.choice([1., .5, 4.])), c['T']         # time unit u, value unit: sqrt(u) for covariances, 1 for means
        t = np.array(c['t']) * u
        t0 = t.copy()
        x0, x1, mu = float(c['x0']), float(c['x1']), c['mu'] / u
        wm, wc = mo.moments_wiener(t, x0, mu)
        bm, bc = mo.moments_brownbr(t, T * u, x0, x1)
        um, uc = mo.moments_wiener(np.append(t, T * u), x0, mu)
        um0, uc0 = um.copy(), uc.copy()
        cm, cc = mo.moments_gaussian_bridge(x1, um, uc)
        e = dict(ev='Mom', **c, wm=ticks(wm, 1 / T), wc=[ticks(r, u / T) for r in wc], bm=ticks(bm, 1 / T), bc=[ticks(r, u / T) for r in bc],
                 cm=ticks(cm, 1 / T), cc=[ticks(r, u / T) for r in cc], intact=bool(np.array_equal(t, t0) and np.array_equal(um, um0) and np.array_equal(uc, uc0)))
        out.append(e)


def real(out, seed, n):
    from ctbayes.sdelib import moments as mo
    g = rng_for(seed, 'c25real')
    out.append({'ev': 'Begin', 'id': 'moments'})
    for _ in range(n):
        k = int(g.integers(1, 6))
        T = round(float(np.exp(g.uniform(-1.5, 2))), 3)
        t = np.round(T * g.uniform(.01, .99, k), 4)          # in any order, ties allowed
        if g.uniform() < .3 and k > 1:
            t[1] = t[0]
        x0, x1, mu = (round(float(q), 3) for q in g.normal(scale=2., size=3))
        wm, wc = mo.moments_wiener(t, x0, mu)
        bm, bc = mo.moments_brownbr(t, T, x0, x1)
        if g.uniform() < .2:
            x0 = mu = x1 = 0.
            wm, wc = mo.moments_wiener(t)
            bm, bc = mo.moments_brownbr(t, T)
        out.append(dict(ev='Real', t=fxs(t), T=fx(T), x0=fx(x0), x1=fx(x1), mu=fx(mu), wm=fxs(wm), wc=fxm(wc), bm=fxs(bm), bc=fxm(bc)))
        d = int(g.integers(2, 6))
        a = g.normal(size=(d, d))
        cov = np.round(a @ a.T + .3 * np.eye(d), 3)
        mean = np.round(g.normal(size=d), 3)
        x = round(float(g.normal(scale=2)), 3)
        cm, cc = mo.moments_gaussian_bridge(x, mean, cov)
        out.append(dict(ev='Cond', mean=fxs(mean), cov=fxm(cov), x=fx(x), cm=fxs(cm), cc=fxm(cc)))


def gauss_event(out, g, X, t, x0, mu, br, T, x1):
    """X: samples x times x axes"""
    n, k, d = X.shape
    for c in [np.eye(k)[0], np.eye(k)[-1], np.ones(k), np.round(g.normal(size=k), 2), np.append(-1, np.ones(k - 1))]:
        C = np.outer(np.round(g.normal(size=d), 2) if g.uniform() < .7 else np.eye(d)[int(g.integers(d))], c)       # axes x times
        C = np.round(C, 3)
        if np.abs(C).max() < .05:
            continue
        y = np.einsum('ntd,dt->n', X, C)
        q = np.quantile(y, [.1, .35, .6, .9])
        m = np.round(q, 4)
        out.append(dict(ev='Gauss', br=br, T=fx(T), x1=fx(x1), t=fxs(t), x0=fxs(x0), mu=fxs(mu), c=fxm(C), m=fxs(m), cnt=[int(np.sum(y <= v)) for v in m], n=n))


def wieners(out, seed, i, n):
    from ctbayes.sdelib import paths as pt
    g = rng_for(seed, 'c25w', i)
    out.append({'ev': 'Begin', 'id': 'Wiener %d' % i})
    t = [np.array([.3, .8, 2.]), np.array([.05, .06, 1.]), np.array([1.]), np.array([.5, 1., 1.5, 4.])][i % 4]
    x0 = np.round(g.normal(size=1 + i % 3), 2)
    mu = np.round(g.normal(size=len(x0)), 2)
    for m in (mu, None):
        if i % 2:       # one call with many axes
            X = pt.sample_wiener(t, np.tile(x0, n), None if m is None else np.tile(m, n), g).reshape(len(t), n, len(x0)).transpose(1, 0, 2)
        else:
            X = np.array([pt.sample_wiener(t, x0, m, g) for _ in range(n)])
        gauss_event(out, g, X, t, x0, mu if m is not None else 0 * mu, False, 9., 0.)
    T = float(np.round(t[-1] * 1.3, 3))
    x1 = round(float(g.normal()), 2)
    X = np.array([pt.sample_brownbr(t, T, x0[0], x1, g) for _ in range(n)])[:, :, None]
    gauss_event(out, g, X, t, x0[:1], mu[:1], True, T, x1)


def bessels(out, seed, i, n):
    from ctbayes.sdelib import paths as pt
    g = rng_for(seed, 'c25b', i)
    out.append({'ev': 'Begin', 'id': 'Bessel %d' % i})
    dim = 1 + i % 5
    T, x1 = [(1., .7), (.4, .3), (3., 2.), (1., 0.), (2., 1.5)][(i + 2) % 5]
    t = T * np.array([.3, .75])
    x0 = [0., .6, 1.2][i % 3]
    for br, mu in ((False, None), (False, .8), (True, None)):
        if br:
            X = np.array([pt.sample_besselbr(t, T, x1, dim, g) for _ in range(n)])
        else:
            X = np.array([pt.sample_bessel(t, x0, dim, mu, g) for _ in range(n)])
        for j in range(2):
            m = np.round(np.quantile(X[:, j], [.1, .4, .7, .93]), 4)
            out.append(dict(ev='Bes', br=br, d=dim, T=fx(T), t=fx(t[j]), x0=fx(x0), x1=fx(x1), mu=fx(mu or 0.), m=fxs(m),
                            cnt=[int(np.sum(X[:, j] <= v)) for v in m], n=n, pos=bool(X.min() >= 0)))
        if dim == 3 and mu is None and (br is False or x1 > 0):
            for a, b in ((.5, .5), (.25, .8), (.8, .25)):
                a, b = (round(float(np.quantile(X[:, k], q)), 4) for k, q in ((0, a), (1, b)))
                out.append(dict(ev='Joint', br=br, s=fx(t[0]), t=fx(t[1]), T=fx(T), x0=0 if br else fx(x0), x1=fx(x1), a=fx(a), b=fx(b),
                                cnt=int(np.sum((X[:, 0] <= a) & (X[:, 1] <= b))), n=n))


def euler(out, seed, n):
    from ctbayes.misc.testing import euler_simulate
    g = rng_for(seed, 'c25e')
    out.append({'ev': 'Begin', 'id': 'discretised paths'})
    for i in range(n):
        draws = int(g.integers(1, 4))
        dyadic = g.uniform() < .6
        res = float(g.choice([1., .5, .25, .125]) if dyadic else g.choice([.1, .01, .03, .7]))
        steps = int(g.integers(1, 9))
        fin = steps * res if g.uniform() < .6 else (steps + round(float(g.uniform(.1, .9)), 2)) * res
        q = fin / res
        f = q - np.floor(q + 1e-9)
        exact = bool(dyadic or 1e-6 < f < 1 - 1e-6)
        e = dict(ev='Euler', draws=draws, steps=int(np.floor(q + 1e-9)), exact=exact, p=0, q=0, U=1, x=[], w=[], z=[], res=fx(res), a=0, bb=0, v0=0, v1=0)
        init = int(g.integers(-3, 4))
        if i % 2:
            p, c = int(g.choice([-1, 0, 1, -2])), int(g.integers(-3, 4))
            t, x = euler_simulate(draws, fin, float(init), lambda v: (p * v + c) / res, lambda v: 0. * v, res, g)
            e.update(p=p, q=c, x=ticks(x[int(g.integers(draws))], 1.) if dyadic else [])
        else:
            key = int(g.integers(1 << 30))
            a, b, v0, v1 = (round(float(v), 3) for v in (g.normal() * .5, g.normal(), g.uniform(.3, 1.5), g.normal() * .2))
            t, x = euler_simulate(draws, fin, float(init), lambda v: a * v + b, lambda v: v0 + v1 * v, res, rng_for('c25k', key))
            tw, w = euler_simulate(draws, fin, 0., res=res, ome=rng_for('c25k', key))
            k = int(g.integers(draws))
            if np.abs(x).max() < 50:
                e.update(w=fxs(w[k]), z=fxs(x[k]), a=fx(a), bb=fx(b), v0=fx(v0), v1=fx(v1))
        e.update(t=ticks(t, res), rows=len(x), cols=x.shape[1], start=bool(np.all(x[:, 0] == init)))
        out.append(e)
    X = euler_simulate(4000, 2., .5, res=.25, ome=g)[1][:, [2, 4, 8]][:, :, None]
    gauss_event(out, g, X, np.array([.5, 1., 2.]), [.5], [0.], False, 9., 0.)
    X = euler_simulate(4000, ome=g)[1][:, [100, 700, 1000]][:, :, None]
    gauss_event(out, g, X, np.array([.1, .7, 1.]), [0.], [0.], False, 9., 0.)


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = [('grid', grid, dict(seed=seed, cases=cases['gauss']), 600), ('real', real, dict(seed=seed, n=150 if q else 3000), 600),
          ('euler', euler, dict(seed=seed, n=120 if q else 2000), 600)]
    for i in range(4 if q else 12):
        js.append(('wiener %d' % i, wieners, dict(seed=seed, i=i, n=4000 if q else 60000), 900))
    for i in range(5 if q else 15):
        js.append(('bessel %d' % i, bessels, dict(seed=seed, i=i, n=4000 if q else 60000), 900))
    return js
