"""C12: adaptive proposals."""
import numpy as np

from lib import fx, fxm, fxs, ranks, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Adapt'
CHUNKS = 6
ASSUMPTIONS = ['the log scale of the scalar and vector proposals is read off two proposals drawn with the same random numbers',
               'a period may count the last outcome before it; the regime sampler may use the last outcome of a period instead of their mean']
I = np.inf
BOUNDS = [(-I, I), (0., I), (-I, 2.), (0., 1.), (-3., 5.), (2., I)]


def models(tier):
    return [dict(spec='MC_Adapt', cfg='MC_Adapt' if tier == 'quick' else 'MC_Adapt_big',
                 checks='Timing Bounded Diminishing Step Direction; running moments, log-derivative of the map')]


def b4(lb, ub):
    hl, hu = bool(np.isfinite(lb)), bool(np.isfinite(ub))
    return dict(hl=hl, hu=hu, a=fx(lb) if hl else 0, b=fx(ub) if hu else 0)


def start(lb, ub):
    return float(lb + .3 * (ub - lb)) if np.isfinite(ub - lb) else lb + .7 if np.isfinite(lb) else ub - .7 if np.isfinite(ub) else .4


def real(x, lb, ub):
    """Only used to measure displacements on the real line."""
    if np.isfinite(lb) and np.isfinite(ub):
        return np.log(x - lb) - np.log(ub - x)
    return np.log(x - lb) if np.isfinite(lb) else np.log(ub - x) if np.isfinite(ub) else x


def probs(g, style, i):
    if style == 'hi':
        return float(g.choice([.4, .5, .9, 1.]))
    if style == 'lo':
        return float(g.choice([0., .05, .1]))
    if style == 'flip':
        return float(i % 2)
    return round(float(g.uniform()), 3)


def map_job(out, seed):
    from ctbayes.misc import adapt
    g = rng_for(seed, 'c12map')
    out.append({'ev': 'Begin', 'id': 'map'})
    for lb, ub in BOUNDS:
        for _ in range(25):
            w = round(float(g.uniform(.02, 1)), 4)
            x = round(lb + w * (ub - lb) * .98, 6) if np.isfinite(ub - lb) else round(lb + 3 * w, 6) if np.isfinite(lb) else round(ub - 3 * w, 6) if np.isfinite(ub) else 4 * w - 2
            y, f = adapt.transform_to_reals(x, lb, ub)
            z, h = adapt.transform_to_const(y, lb, ub)
            out.append(dict(ev='Map', x=fx(x), y=fx(y), f=fx(f), back=fx(z), h=fx(h), **b4(lb, ub)))


def rw_job(out, seed, i, n, m):
    from ctbayes.misc import adapt
    g = rng_for(seed, 'c12rw', i)
    lb, ub = BOUNDS[i % len(BOUNDS)]
    for style in ('mix', 'hi', 'lo', 'flip'):
        opt, decay, air = [(.234, .66, 1), (.5, .8, 0), (.3, .51, 2)][int(g.integers(3))]
        kw = {} if (opt, decay, air) == (.234, .66, 1) else dict(opt_prob=opt, adapt_decay=decay, air=air)
        x0 = start(lb, ub)
        if (lb, ub) == (-I, I) and style == 'mix':
            s = adapt.MyopicRwSampler(x0, **kw)
        else:
            s = adapt.MyopicRwSampler(x0, (lb, ub), **kw)
        out.append({'ev': 'Begin', 'id': 'rw%d%s' % (i, style)})

        def disp():
            """Displacement on the real line with fixed random numbers, from the reference state."""
            keep, s.state = s.state, x0
            y = s.propose(np.random.default_rng(5))[0]
            s.state = keep
            return abs(real(y, lb, ub) - real(x0, lb, ub))
        d0 = disp()
        law(out, s, x0, lb, ub, np.exp(-1.), m, g)
        out.append(dict(ev='New', kind='rw', opt=fx(opt), decay=fx(decay), air=air, ls=0))
        for t in range(n):
            x = s.state
            y, f, b = s.propose(g)
            r = ranks([lb, y, ub])
            safe = abs(y) < 1500 and (not np.isfinite(lb) or min(x - lb, y - lb) > 2e-3) and (not np.isfinite(ub) or min(ub - x, ub - y) > 2e-3)
            out.append(dict(ev='Prop', x=[fx(x)], y=[fx(y)], f=fx(f), g=fx(b), r=r, terms=bool(safe), b=[b4(lb, ub)]))
            p = probs(g, style, t)
            s.adapt(y if g.uniform() < p and safe else x, p)
            ls = np.log(disp() / d0)
            if not np.isfinite(ls) or abs(ls) > 3.:
                break          # displacements saturate in floating point
            out.append(dict(ev='Adapt', p=fx(p), ls=fx(ls), tol=60))
        else:
            law(out, s, x0, lb, ub, np.exp(-1. + ls), m, g)


def law(out, s, x0, lb, ub, sd, m, g):
    keep, s.state = s.state, x0
    y = np.array([s.propose(g)[0] for _ in range(m)])
    s.state = keep
    c = np.unique(np.round(np.quantile(y, [.07, .3, .5, .8, .95]), 5))
    c = c[(c > lb + 1e-3) & (c < ub - 1e-3)]
    c = c + 5e-7
    out.append(dict(ev='Law', x=fx(x0), sd=fx(sd), c=fxs(c), cnt=[int((y <= v).sum()) for v in c], n=m, **b4(lb, ub)))


def extreme_job(out, seed, n):
    """Proposals stay strictly inside whatever the scale or the position of the state."""
    from ctbayes.misc import adapt
    g = rng_for(seed, 'c12extreme')
    out.append({'ev': 'Begin', 'id': 'extreme'})
    for lb, ub in BOUNDS:
        s = adapt.MyopicRwSampler(start(lb, ub), (lb, ub), air=0)
        q = adapt.MyopicMvRwSampler(np.array([start(lb, ub), .5]), (np.array([lb, 0.]), np.array([ub, 1.])), air=0)
        for t in range(n):
            y = s.propose(g)[0]
            z = q.propose(g)[0]
            ys = [y] if t % 3 else [y, s.propose(g)[0]]
            for v in ys:
                out.append(dict(ev='Prop', x=[0], y=[0], f=0, g=0, r=ranks([lb, v, ub]), terms=False, b=[]))
            out.append(dict(ev='Prop', x=[0], y=[0], f=0, g=0, r=ranks([lb, z[0], ub]) + ranks([0., z[1], 1.]), terms=False, b=[]))
            s.adapt(s.state if t % 20 else start(lb, ub), 1.)
            q.adapt(q.state, 1.)
        if np.isfinite(lb) or np.isfinite(ub):
            for e in (1e-12, 1e-15, 1e-300):
                for x in ([lb + e] if np.isfinite(lb) else []) + ([ub - e] if np.isfinite(ub) else []):
                    if not lb < x < ub:
                        continue
                    s = adapt.MyopicRwSampler(x, (lb, ub))
                    for _ in range(40):
                        out.append(dict(ev='Prop', x=[0], y=[0], f=0, g=0, r=ranks([lb, s.propose(g)[0], ub]), terms=False, b=[]))


def mv_job(out, seed, i, n, m):
    from ctbayes.misc import adapt
    g = rng_for(seed, 'c12mv', i)
    bs = [BOUNDS[j] for j in [(0, 0), (1, 3), (2, 4, 0), (3, 3), (1, 5, 2)][i]]
    d = len(bs)
    lb, ub = np.array([b[0] for b in bs]), np.array([b[1] for b in bs])
    x0 = np.array([start(*b) for b in bs])
    opt, decay, air = [(.234, .66, 1), (.5, .8, 0), (.3, .51, 2)][i % 3]
    kw = {} if i % 3 == 0 else dict(opt_prob=opt, adapt_decay=decay, air=air)
    s = adapt.MyopicMvRwSampler(x0.copy(), (lb, ub), **kw)
    out.append({'ev': 'Begin', 'id': 'mv%d' % i})
    has = all(hasattr(s, a) for a in ('adapt_mean', 'adapt_cov', 'prop_cov', 'log_prop_scale'))
    mvlaw(out, s, x0, bs, np.exp(-1.), np.identity(d), m, g)
    out.append(dict(ev='New', kind='mv', opt=fx(opt), decay=fx(decay), air=air, ls=fx(-1.)))
    k, left = 1, 1
    for t in range(n):
        x = s.state
        y, f, b = s.propose(g)
        safe = bool(np.all(np.abs(y) < 1500) and all((not np.isfinite(l) or min(p - l, q - l) > 2e-3) and (not np.isfinite(u) or min(u - p, u - q) > 2e-3)
                                                     for p, q, l, u in zip(x, y, lb, ub)))
        out.append(dict(ev='Prop', x=fxs(x), y=fxs(y), f=fx(f), g=fx(b), r=[ranks([l, v, u])[0] for l, v, u in zip(lb, y, ub)],
                        terms=safe, b=[b4(*q) for q in bs]))
        p = probs(g, 'mix' if i % 2 else 'hi', t)
        new = y if g.uniform() < p and safe else x
        if has:
            old = np.array(s.adapt_mean, float), np.array(s.adapt_cov), np.array(s.prop_cov)
        s.adapt(new, p)
        left -= 1
        end = left == 0
        if end:
            k += 1
            left = k ** air
        if has:
            r = np.array([real(v, *q) for v, q in zip(new, bs)])
            out.append(dict(ev='Mom', n=t + 2, x=fxs(r), m0=fxs(old[0]), m1=fxs(s.adapt_mean), c0=fxm(old[1]), c1=fxm(s.adapt_cov),
                            q0=fxm(old[2]), q1=fxm(s.prop_cov), end=end))
            out.append(dict(ev='Adapt', p=fx(p), ls=fx(s.log_prop_scale[-1]), tol=5))
    if has:
        mvlaw(out, s, x0, bs, np.exp(s.log_prop_scale[-1]), np.array(s.prop_cov), m, g)


def mvlaw(out, s, x0, bs, scale, cov, m, g):
    keep, s.state = s.state, x0
    y = np.array([s.propose(g)[0] for _ in range(m)])
    s.state = keep
    r = np.array([[real(v, *b) - real(q, *b) for v, q, b in zip(row, x0, bs)] for row in y])
    d = len(bs)
    for u in [np.eye(d)[j] for j in range(d)] + [np.round(g.normal(size=d), 3) for _ in range(2)]:
        z = r @ u
        mm = np.round(z.std() * np.array([-1.2, -.4, 0., .8, 1.7]), 4)
        mm = mm[np.abs(mm) < 1500]
        out.append(dict(ev='MvLaw', scale=fx(scale), u=fxs(u), cov=fxm(cov), m=fxs(mm), cnt=[int((z <= v).sum()) for v in mm], n=m))


def mjp_job(out, seed, i, n):
    from ctbayes.misc import adapt
    from ctbayes.mjplib import skeleton as sk
    g = rng_for(seed, 'c12mjp', i)
    opt, decay, air = [(.234, .66, 1), (.5, .8, 0), (.3, .51, 2)][i % 3]
    kw = {} if i % 3 == 0 else dict(opt_prob=opt, adapt_decay=decay, air=air)
    lam = np.array([[-1., 1.], [2., -2.]])
    path = sk.Skeleton(np.array([0., .4, .9]), np.array([0, 1, 0]), 2.)
    s = adapt.MyopicMjpSampler(path, **kw)
    out.append({'ev': 'Begin', 'id': 'mjp%d' % i})
    out.append(dict(ev='New', kind='mjp', opt=fx(opt), decay=fx(decay), air=air, ls=0))
    t = np.linspace(0, 2., 62)
    ls = 0.
    for j in range(n):
        if j in (0, 1, 5, 20, n - 1):
            c = 0
            for _ in range(20):
                prop, tc = s.propose(lam, t, g)
                c += len(tc)
            out.append(dict(ev='Cond', cnt=c, n=20 * 60, ls=fx(ls)))
        p = probs(g, ['mix', 'hi', 'flip', 'lo'][i % 4], j)
        prop, _ = s.propose(lam, np.array([0., .5, 1., 2.]), g)
        s.adapt(prop if g.uniform() < p else s.state, p)
        if hasattr(s, 'log_prop_scale'):
            ls = s.log_prop_scale[-1]
            out.append(dict(ev='Adapt', p=fx(p), ls=fx(ls), tol=5))


def batch_job(out, seed, k):
    from ctbayes.misc import adapt
    g = rng_for(seed, 'c12batch', k)
    out.append({'ev': 'Begin', 'id': 'batch%d' % k})
    for _ in range(6):
        d, n = int(g.integers(1, 4)), int(g.integers(3, 14))
        o = np.round(g.normal(g.normal(), 1.5, size=(n, d)), 3)
        k0 = int(g.integers(2, n))
        mean, cov = o[:k0].mean(0), np.atleast_2d(np.cov(o[:k0].T))
        for j in range(k0, n):
            mean, cov = adapt.seq_update_normal(o[j], j, mean, cov)
            out.append(dict(ev='Batch', o=fxm(o[:j + 1]), mean=fxs(mean), cov=fxm(np.atleast_2d(cov))))


def jobs(tier, seed, cases):
    big = tier != 'quick'
    n, m = (400, 40000) if big else (45, 3000)
    J = [('map', map_job, dict(seed=seed), 60), ('extreme', extreme_job, dict(seed=seed, n=150 if not big else 400), 200)]
    J += [('rw:%d' % i, rw_job, dict(seed=seed, i=i, n=n, m=m), 300) for i in range(24 if big else 6)]
    J += [('mv:%d' % i, mv_job, dict(seed=seed, i=i, n=n, m=m), 300) for i in range(5)]
    J += [('mjp:%d' % i, mjp_job, dict(seed=seed, i=i, n=n), 300) for i in range(12 if big else 6)]
    J += [('batch:%d' % k, batch_job, dict(seed=seed, k=k), 60) for k in range(10 if big else 3)]
    return J
