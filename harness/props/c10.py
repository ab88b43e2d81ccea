"""C10: extremes, crossings and layers of the Brownian bridge."""
import numpy as np

from lib import fx, fxs, ranks, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Hitting'
CHUNKS = 8
ASSUMPTIONS = ['fixed-point formulas (images) accurate to about 1e-5 divided by the probability of the condition']


def models(tier):
    return [dict(spec='MC_Hitting', cfg='MC_Hitting' if tier == 'quick' else 'MC_Hitting_big',
                 checks='Sides LayersNest; counting formulas of minima, bands and the layer search')]


CASES = [(1., 0., 0.), (1., .3, -.2), (.25, -.5, -.1), (4., 1., 2.5), (2., -1., .5)]


def base(ev, T, x0, x1, **kw):
    r = {'ev': ev, 'T': fx(T), 'x0': fx(x0), 'x1': fx(x1)}
    r.update(kw)
    return r


def bounds(T, x0, x1):
    lo, s = min(x0, x1), np.sqrt(T)
    return [(None, None), (lo - s, None), (None, lo - .2 * s), (lo - .8 * s, lo - .3 * s), (lo - 1.4 * s, lo - .05 * s)]


def opt(v, name):
    return {'h' + name[0]: v is not None, name: fx(0. if v is None else v)}


def cdf_job(out, seed):
    from ctbayes.sdelib import hitting as h
    out.append({'ev': 'Begin', 'id': 'cdf'})
    g = rng_for(seed, 'c10cdf')
    cs = CASES + [(float(g.uniform(.1, 3)), float(g.normal()), float(g.normal())) for _ in range(6)]
    for T, x0, x1 in cs:
        for lb, ub in bounds(T, x0, x1):
            top = min(x0, x1) if ub is None else ub
            bot = top - 2.5 * np.sqrt(T) if lb is None else lb
            c = np.linspace(bot, top, 9)
            kw = dict(lb_min_x=lb, ub_min_x=ub)
            v = [h.cdf_brownbr_min(float(a), T, x0, x1, **kw) for a in c]
            out.append(base('Cdf', T, x0, x1, hl=lb is not None, lb=fx(lb or 0.), hu=ub is not None, ub=fx(ub or 0.), c=fxs(c), v=fxs(v)))
            p = [0., 1e-4, .01, .1, .25, .5, .75, .9, .99, 1.]
            with np.errstate(divide='ignore'):
                q = [h.ppf_brownbr_min(a, T, x0, x1, **kw) for a in p]
            w = [h.cdf_brownbr_min(a, T, x0, x1, **kw) for a in q]
            out.append(base('Ppf', T, x0, x1, hl=lb is not None, lb=fx(lb or 0.), hu=ub is not None, ub=fx(ub or 0.), p=fxs(p), v=fxs(q), w=fxs(w)))


def min_job(out, seed, i, n):
    from ctbayes.sdelib import hitting as h, transforms as tr
    out.append({'ev': 'Begin', 'id': 'min%d' % i})
    T, x0, x1 = CASES[i]
    g = rng_for(seed, 'c10min', i)
    for j, (lb, ub) in enumerate(bounds(T, x0, x1)):
        s = np.array([h.sample_brownbr_min(T, x0, x1, lb, ub, ome=g) for _ in range(n)])
        min_event(out, 'Min', s, T, x0, x1, lb, ub)
    s = []
    for _ in range(n):
        s.append(tr.gen_seeded_brownbr_min(g.uniform(size=3), g.chisquare(1), T, x0, x1))
    min_event(out, 'Min', np.array(s), T, x0, x1, None, None)
    if (x0, x1) == (0., 0.):
        s = [tr.gen_seeded_brownbr_min(g.uniform(size=3), g.chisquare(1)) for _ in range(n)]
        min_event(out, 'Min', np.array(s), 1., 0., 0., None, None)


def min_event(out, ev, s, T, x0, x1, lb, ub, **kw):
    top = min(x0, x1) if ub is None else ub
    bot = top - 1.2 * np.sqrt(T) if lb is None else lb
    c = bot + (top - bot) * np.array([.15, .35, .5, .65, .85])
    r = ranks([lb if lb is not None else -np.inf, s[:, 1].min(), s[:, 1].max(), top], [0., s[:, 0].min(), s[:, 0].max(), T])
    out.append(base(ev, T, x0, x1, hl=lb is not None, lb=fx(lb or 0.), **dict(
        dict(hu=ub is not None, ub=fx(ub or 0.)), c=fxs(c), cnt=[int((s[:, 1] <= a).sum()) for a in c], n=len(s), r=r[0], s=r[1], **kw)))


def arg_job(out, seed, i, n):
    from ctbayes.sdelib import hitting as h, transforms as tr
    out.append({'ev': 'Begin', 'id': 'arg%d' % i})
    T, x0, x1 = CASES[i]
    g = rng_for(seed, 'c10arg', i)
    for k, d in enumerate((.3, .6, 1.)):
        m = min(x0, x1) - d * np.sqrt(T)
        t1 = [h.sample_brownbr_min(T, x0, x1, m - 1e-7, m + 1e-7, ome=g)[0] for _ in range(n)]
        u0 = np.exp(-2 * (x0 - m) * (x1 - m) / T)
        t2 = [tr.gen_seeded_brownbr_min((u0, *g.uniform(size=2)), g.chisquare(1), T, x0, x1)[0] for _ in range(n)]
        for t in (np.array(t1), np.array(t2)):
            ks = [12, 30, 60, 90, 108]
            r = ranks([0., t.min(), t.max(), T])[0]
            out.append(base('Arg', T, x0, x1, m=fx(m), k=ks, cnt=[int((t <= T * q / 120).sum()) for q in ks], n=n, s=r))


def laymin_job(out, seed, i, n):
    out.append({'ev': 'Begin', 'id': 'laymin%d' % i})
    T, x0, x1 = CASES[i]
    g = rng_for(seed, 'c10lay', i)
    for f in (.5, 1.):
        ub = max(x0, x1) + f * np.sqrt(T)
        for lb, um in ((None, None), (min(x0, x1) - np.sqrt(T), None), (min(x0, x1) - .9 * np.sqrt(T), min(x0, x1) - .2 * np.sqrt(T))):
            laymin_event(out, g, T, x0, x1, ub, lb, um, n)


def layfar_job(out, seed, k, n):
    """Ends far apart and a bound close to the upper one, where each half decides on its own end."""
    out.append({'ev': 'Begin', 'id': 'layfar%d' % k})
    g = rng_for(seed, 'c10layfar', k)
    T = (1., .3, 1., .3)[k]
    s = np.sqrt(T)
    a, b = ((1.3 * s, 0.), (.9 * s, -.2 * s), (0., 1.3 * s), (-.2 * s, .9 * s))[k]
    for f in (.1, .3):
        laymin_event(out, g, T, a, b, max(a, b) + f * s, None, None, n)
        laymin_event(out, g, T, a, b, max(a, b) + f * s, min(a, b) - .7 * s, None, n)


def laymin_event(out, g, T, x0, x1, ub, lb, um, n):
    from ctbayes.sdelib import hitting as h
    s = np.array([h.sample_layerbr_min(T, x0, x1, ub, lb, um, ome=g) for _ in range(n)])
    top = min(x0, x1) if um is None else um
    bot = top - np.sqrt(T) if lb is None else lb
    c = bot + (top - bot) * np.array([.2, .5, .8])
    r = ranks([lb if lb is not None else -np.inf, s[:, 1].min(), s[:, 1].max(), top], [0., s[:, 0].min(), s[:, 0].max(), T])
    out.append(base('LayMin', T, x0, x1, hl=lb is not None, lb=fx(lb or 0.), hm=um is not None, um=fx(um or 0.), hu=True, ub=fx(ub),
                    c=fxs(c), cnt=[int((s[:, 1] <= a).sum()) for a in c], n=n, r=r[0], s=r[1]))


def esc_cases(seed):
    g = rng_for(seed, 'c10esc')
    res = []
    for T, x0, x1 in CASES + [(float(g.uniform(.1, 4)), float(g.normal()), float(g.normal())) for _ in range(8)]:
        top, s = max(abs(x0), abs(x1)), np.sqrt(T)
        for u in (.9 * top, top, top + .25 * s, top + .6 * s, top + 1.3 * s):
            if u > 0:
                res.append(('br', T, x0, x1, u, None))
                for v in (.8 * u, 1.15 * u, 2. * u):
                    if v > top:
                        res.append(('br', T, x0, x1, u, v))
        y0, y1 = abs(x0), abs(x1) + .1
        for z0 in (0., y0):
            top = max(z0, y1)
            for u in (.9 * top, top, top + .3 * s, top + .8 * s, top + 1.6 * s):
                res.append(('bes', T, z0, y1, u, None))
                for v in (.8 * u, 1.2 * u, 2. * u):
                    if v > top:
                        res.append(('bes', T, z0, y1, u, v))
    # end point exactly on the other edge, or far away in time
    res += [('br', 1., -.5, .5, .7, None), ('bes', 9., 0., .5, 1.2, None), ('bes', 9., 0., .5, 1.2, 2.), ('bes', 6., .4, .5, 1.3, None),
            ('br', 5., 0., 0., 1.2, None), ('br', 4., .1, -.2, 1.2, 1.4), ('bes', .997721, .206624, .683333, .870430, .906010), ('br', 2.796258, -.559593, .435807, .679216, .790007), ('bes', 3., .9, .8, 1.3, 1.6), ('br', 1., 0., 0., .6, .7), ('br', 5., .3, -.4, 1.4, 1.8)]
    return [c for c in res if c[5] is None or common(*c) > .004]


def band(T, x0, x1, a, b):
    k = np.arange(-60, 61)
    f = lambda d: np.exp(-(d ** 2 - (x1 - x0) ** 2) / (2 * T))
    return (f(x1 + 2 * k * (b - a) - x0) - f(2 * a - x1 + 2 * k * (b - a) - x0)).sum()


def common(f, T, x0, x1, u, v):
    """Rough probability of the condition, only used to leave out conditions that the specification cannot resolve."""
    return band(T, x0, x1, -v, v) if f == 'br' else band(T, max(x0, 1e-3), x1, 0, v)


def call_esc(h, f, T, x0, x1, u, v, **kw):
    fn = h.sample_brownbr_esc if f == 'br' else h.sample_bessel3br_esc
    return bool(fn(T, x0, x1, u, v, **kw))


def esc_job(out, seed, part, n):
    from ctbayes.sdelib import hitting as h
    out.append({'ev': 'Begin', 'id': 'esc%d' % part})
    g = rng_for(seed, 'c10escf', part)
    for k, (f, T, x0, x1, u, v) in enumerate(esc_cases(seed)):
        if k % 8 != part:
            continue
        T, x0, x1, u = [round(a, 6) for a in (T, x0, x1, u)]
        v = None if v is None else round(v, 6)
        w = np.round(np.concatenate([np.linspace(.03, .97, 12), [.001, .999, .5]]), 6)
        got = [call_esc(h, f, T, x0, x1, u, v, seed=float(a)) for a in w]
        kw = dict(f=f, u=fx(u), hv=v is not None, v=fx(v or 0.))
        out.append(base('Esc', T, x0, x1, w=fxs(w), got=got, **kw))
        cnt = sum(call_esc(h, f, T, x0, x1, u, v, ome=g) for _ in range(n))
        out.append(base('EscFreq', T, x0, x1, cnt=cnt, n=n, **kw))


def layer_job(out, seed, i, n):
    from ctbayes.sdelib import layers as ly
    out.append({'ev': 'Begin', 'id': 'layer%d' % i})
    T, x0, x1 = CASES[i]
    g = rng_for(seed, 'c10layer', i)
    s = np.sqrt(T)
    for lb, ub in ((-np.inf, np.inf), (min(x0, x1) - .9 * s, np.inf), (-np.inf, max(x0, x1) + 1.1 * s), (min(x0, x1) - .8 * s, max(x0, x1) + s)):
        hl, hu = bool(np.isfinite(lb)), bool(np.isfinite(ub))
        kw = dict(hl=hl, hu=hu)
        ix = list(range(8)) + [20, 100, 600]
        ed = np.array([ly.compute_edges(j, T, x0, x1, lb, ub) for j in ix])
        r = ranks(ed[:, 0], ed[:, 1], [lb], [ub], [min(x0, x1), max(x0, x1)])
        out.append(base('Edges', T, x0, x1, lo=r[0], hi=r[1], lb=r[2][0], ub=r[3][0], end=r[4], vlb=fx(lb) if hl else 0, vub=fx(ub) if hu else 0,
                        last=fxs(ed[-1]), **kw))
        L = np.array([ly.sample_layer(T, x0, x1, lb, ub, ome=g) for _ in range(n)])
        out.append(base('Layer', T, x0, x1, lo=fxs(ed[1:6, 0]), hi=fxs(ed[1:6, 1]), lb=fx(lb) if hl else 0, ub=fx(ub) if hu else 0,
                        cnt=[int((L <= j).sum()) for j in range(1, 6)], n=n, **kw))
    sec, lo = [], 0
    m = n // 4
    for _ in range(m):
        a, b, c = ly.sample_anchor(T, x0, x1, ome=g)
        lo += bool(a)
        if len(sec) < 60:
            r = ranks([*b, *c, min(x0, x1), max(x0, x1), -np.inf, np.inf])[0]
            sec.append(dict(zip(('l0', 'l1', 'u0', 'u1', 'lo', 'hi', 'lb', 'ub'), r)))
    out.append(base('Anchor', T, x0, x1, sec=sec, cnt=lo, n=m))


def edge_job(out, seed, i, n):
    from ctbayes.sdelib import layers as ly
    out.append({'ev': 'Begin', 'id': 'edge%d' % i})
    T, x0, x1 = CASES[i]
    g = rng_for(seed, 'c10edge', i)
    s = np.sqrt(T)
    lo, hi = min(x0, x1), max(x0, x1)
    for inner in (True, False):
        for a0, a1, b0, b1 in ((.7, .3, .3, .7), (1.1, .2, .4, .8)):
            bi, bs = ((lo - a0 * s, lo), (hi, hi + b1 * s)) if inner else ((lo - a0 * s, lo - a1 * s), (hi + b0 * s, hi + b1 * s))
            mm, hit, marks, ok = [], 0, 0, True
            for _ in range(n):
                t, m, c, d, h = ly.sample_edges(T, x0, x1, bi, bs, ome=g)
                mm.append(m)
                ok = ok and (c, d) == bs and 0 < t < T
                if h is not None:
                    marks += len(h) == 2
                    hit += any(h)
            mm = np.array(mm)
            c = bi[0] + (bi[1] - bi[0]) * np.array([.2, .5, .8])
            out.append(base('EdgeLaw', T, x0, x1, inner=inner, lo0=fx(bi[0]), lo1=fx(bi[1]), lbs=fx(bs[0]), ub=fx(bs[1]), c=fxs(c),
                            cnt=[int((mm <= a).sum()) for a in c], n=n, hit=hit, marks=marks, **{'pass': bool(ok)},
                            r=ranks([bi[0], mm.min(), mm.max(), bi[1]])[0]))


def near_job(out, seed, k, n):
    """Ends closer and closer to the lower bound (the lower bound is 0)."""
    from ctbayes.sdelib import hitting as h
    out.append({'ev': 'Begin', 'id': 'near edge %d' % k})
    g = rng_for(seed, 'c10near', k)
    eps = 10. ** -(k + 4)
    for T, far in ((1., .4), (.3, .8)):
        for first in (True, False):
            for ub in (None, 1.1):
                a, b = (eps, far) if first else (far, eps)
                s = np.array([h.sample_brownbr_min(T, a, b, 0., None, ome=g) if ub is None else h.sample_layerbr_min(T, a, b, ub, 0., None, ome=g)
                              for _ in range(n)])
                t, m = s.T
                near = t < T / 2 if first else t > T / 2
                c = [.2, .5, .8]
                out.append(dict(ev='NearEdge', n=n, near=int(near.sum()), c=fxs(c), cnt=[int((m <= q * eps).sum()) for q in c],
                                r=ranks([0., m.min(), m.max(), eps])[0], s=ranks([0., t.min(), t.max(), T])[0]))


def jobs(tier, seed, cases):
    big = tier != 'quick'
    f = 12 if big else 1
    J = [('cdf', cdf_job, dict(seed=seed), 100)]
    for i in range(len(CASES)):
        J.append(('min:%d' % i, min_job, dict(seed=seed, i=i, n=4000 * f), 100 * f))
        J.append(('arg:%d' % i, arg_job, dict(seed=seed, i=i, n=4000 * f), 100 * f))
        J.append(('laymin:%d' % i, laymin_job, dict(seed=seed, i=i, n=1500 * f), 100 * f))
        J.append(('layer:%d' % i, layer_job, dict(seed=seed, i=i, n=4000 * f), 100 * f))
        J.append(('edge:%d' % i, edge_job, dict(seed=seed, i=i, n=1500 * f), 100 * f))
    for k in range(4):
        J.append(('layfar:%d' % k, layfar_job, dict(seed=seed, k=k, n=5000 * f), 100 * f))
    for k in range(5):
        J.append(('near:%d' % k, near_job, dict(seed=seed, k=k, n=1000 * f), 100 * f))
    for p in range(8):
        J.append(('esc:%d' % p, esc_job, dict(seed=seed, part=p, n=400 * f), 100 * f))
    return J
