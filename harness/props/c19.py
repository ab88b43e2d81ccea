"""C19: ingredients of the models."""
import importlib

import numpy as np

import sw
from lib import fx, fxs, rng_for, ticks

LEVEL = 'model_checking'
TRACE = 'Trace_Models'
CHUNKS = 8
NAMES = {'ou': 'ctbayes.ito.models.ou', 'cir': 'ctbayes.ito.models.cir', 'sou': 'ctbayes.switching.models.ou',
         'sou2': 'ctbayes.switching.models.ou2', 'sou3': 'ctbayes.switching.models.ou3'}
ASSUMPTIONS = ['exact on grids of halves, elsewhere six decimals with a tolerance of 4e-4 absolute and 6e-5 relative',
               'rates up to 1500 and parameters between .15 and 3',
               'layers of the square root model keep away from zero']


def models(tier):
    return [dict(spec='MC_Models', cfg='MC_Models' if tier == 'quick' else 'MC_Models_big', checks='Encloses GlobalLow Dominates; derivative bounds not idle; '
                 'integer and fixed-point forms agree')]


def load(m):
    return importlib.import_module(NAMES[m])


def regime(m):
    return m[0] == 's'


def th_of(m, g, y=None, n=1):
    """Random parameters: a vector, or a matrix with one row per regime."""
    def one():
        th = np.round(np.exp(g.uniform(np.log(.15), np.log(3.), 3 if m == 'cir' else 2)), 3)
        if m == 'cir':
            th[2] = round(float(g.uniform(.5, 2.)), 3)
        return th
    return np.array([one() for _ in range(n)]) if regime(m) else one()


def on_grid(out, cases, seed):
    g = rng_for(seed, 'c19grid')
    out.append({'ev': 'Begin', 'id': 'grid'})
    for c in cases:
        m = c['m']
        M = load(m)
        row = np.array([c['t1'], c['t2']]) / 2
        if c['k'] == 'layer':
            if regime(m):
                y = int(g.integers(2))
                th = np.array([[9., 11.], [9., 11.]])
                th[y] = row
                disc, bd = M.eval_disc(th, y), M.eval_bounds_disc(th, y)
            else:
                disc, bd = M.eval_disc(row), M.eval_bounds_disc(row)
            lo = bd(c['le'] / 2, c['ue'] / 2)
            x = np.arange(c['le'], c['ue'] + 1) / 2
            out.append(dict(ev='Layer', m=m, t1=c['t1'], t2=c['t2'], le=c['le'], ue=c['ue'], phi=ticks(disc(x), 1 / 128),
                            inf=ticks([lo[0]], 1 / 128)[0], lo=ticks([lo[1]], 1 / 128)[0], up=ticks([lo[2]], 1 / 128)[0]))
        else:
            prop = np.array([c['p1'], c['p2']]) / 2
            phi = []
            for r in (row, prop):
                th = np.array([[9., 11.], r])
                v = np.full(2, c['v'] / 2)
                (_, inv), = M.gen_normops(th, np.array([0., 1.]), np.array([1, 1]), v)
                x = inv(np.array([.5]), np.array([c['w'] / 2]))[1]
                phi += ticks(M.eval_disc(th, 1)(x), 1 / 128)
            w = abs(c['w']) / 2
            lb, ub = [(-w, w), (-w, w / 2), (-w / 4, w), (w, -w)][int(g.integers(4))]
            b = M.eval_bounds_grad(row, prop, 1., c['v'] / 2, c['v'] / 2 * float(g.choice([1, 1, -1, .5])), lb, ub)
            out.append(dict(ev='Grad', **{k: c[k] for k in ('m', 't1', 't2', 'p1', 'p2', 'w', 'v')}, phi=phi, b=fxs(b, 64)))


def rand_x(m, g, n):
    return np.round(np.exp(g.uniform(np.log(.25), np.log(6.), n)) if m == 'cir' else g.normal(scale=1.5, size=n).clip(-4, 4), 3)


def tame(m, th, x):
    """Whether fixed-point numbers hold the intermediate results."""
    th = np.asarray(th, float)
    if m == 'cir':
        a = 2 * th[0] * th[1] / th[2] ** 2 - .5
        return np.all(np.abs(a / x) < 30) and abs(a) < 12 and np.all(np.abs(a / x / x) < 900)
    k = dict(ou=th[0], sou=th[0] * th[1], sou2=th[1], sou3=th[1])[m]
    return np.all(np.abs(k * x) < 30) and th[0] * th[1] < 12


def points(out, seed, m, n):
    M = load(m)
    g = rng_for(seed, 'c19points', m)
    out.append({'ev': 'Begin', 'id': 'points ' + m})
    while n > 0:
        x = rand_x(m, g, 4)
        if regime(m):
            th, y = th_of(m, g, n=int(g.choice([1, 2, 3]))), None
            y = g.integers(len(th), size=4)
            if not all(tame(m, r, x) for r in th):
                continue
            dr, pr, dx, vol = (np.broadcast_to(q, 4) for q in (M.eval_drift(th, y, x), M.sx_eval_drift(th, y, x), M.dx_eval_drift(th, y, x), M.eval_vol(th, y)))
            disc = np.array([np.asarray(M.eval_disc(th, int(k), np.array([q])), float).ravel()[0] for k, q in zip(y, x)])
            if g.uniform() < .5:
                disc = np.asarray(M.eval_disc(th)(y)(x), float)
            rows = th[y]
            y0 = int(g.integers(len(th)))
            d = float(np.diff(np.asarray(M.sx_eval_drift(th, np.array([y0, y0]), x[:2]), float))[0])
            row = th[y0]
        else:
            th = row = th_of(m, g)
            if not tame(m, th, x):
                continue
            dr, pr, dx, vol = M.eval_drift(th, x), M.sx_eval_drift(th, x), M.dx_eval_drift(th, x), np.ones(4)
            disc = M.eval_disc(th)(x) if g.uniform() < .5 else np.array([float(M.eval_disc(th, q)) for q in x])
            rows = [th] * 4
            d = float(M.sx_eval_drift(th, x[1]) - M.sx_eval_drift(th, x[0]))
        for k in range(4):
            out.append(dict(ev='Point', m=m, th=fxs(rows[k]), x=fx(x[k]), drift=fx(dr[k]), dx=fx(dx[k]), vol=fx(vol[k]), disc=fx(disc[k])))
        out.append(dict(ev='Prim', m=m, th=fxs(row), x0=fx(x[0]), x1=fx(x[1]), d=fx(d)))
        n -= 1


def bounds(out, seed, m, n):
    M = load(m)
    g = rng_for(seed, 'c19bounds', m)
    out.append({'ev': 'Begin', 'id': 'bounds ' + m})
    while n > 0:
        th = th_of(m, g, n=2)
        y = int(g.integers(2))
        row = th[y] if regime(m) else th
        le, ue = np.sort(rand_x(m, g, 2))
        style = int(g.integers(8))
        if m != 'cir':
            if style == 0:
                le = -ue if ue > 0 else le              # symmetric
            elif style == 1:
                le, ue = (0., abs(ue)) if g.uniform() < .5 else (-abs(le), 0.)
            elif style == 2:
                le = -np.inf
            elif style == 3:
                ue = np.inf
            elif style == 4:
                le, ue = -np.inf, np.inf
        elif style < 3:                                 # near the turning point
            a = 2 * row[0] * row[1] / row[2] ** 2 - .5
            t = (4 * max(a * a - a, 1e-3) / row[0] ** 2) ** .25
            le, ue = t * np.array([[.9, 1.2], [.5, .98], [1.02, 2.]][style]) if .3 < t < 4 else (le, ue)
            le, ue = round(float(le), 3), round(float(ue), 3)
        if not le < ue:
            continue
        fin = np.array([q for q in (le, ue) if np.isfinite(q)] + [0. if m != 'cir' else 1.])
        if not tame(m, row, fin):
            continue
        bd = M.eval_bounds_disc(th, y) if regime(m) else M.eval_bounds_disc(th)
        inf, lo, up = bd(le, ue)
        a, b = (le if np.isfinite(le) else min(-3., ue - 1.)), (ue if np.isfinite(ue) else max(3., le + 1.))
        xs = g.uniform(a, b, 5)
        if not tame(m, row, xs):
            continue
        out.append(dict(ev='Bnd', m=m, th=fxs(row), le=fx(le), ue=fx(ue), inf=fx(inf), lo=fx(lo), up=fx(up), xs=fxs(xs)))
        n -= 1


def grads(out, seed, m, n):
    M = load(m)
    g = rng_for(seed, 'c19grads', m)
    out.append({'ev': 'Begin', 'id': 'gradient bounds ' + m})
    while n > 0:
        t0 = th_of(m, g, n=1)
        t0 = t0[0] if regime(m) else t0
        t1 = t0.copy()
        for k in range(len(t0)):
            if g.uniform() < .7:
                t1[k] = round(float(t0[k] * np.exp(g.normal(scale=.5))), 3)
        if np.array_equal(t0, t1) or t1.min() < .12 or t1.max() > 4:
            continue
        dt = round(float(np.exp(g.uniform(np.log(.05), np.log(4.)))), 3)
        v0, v1 = np.round(g.choice([0., .4, 1.5]) * g.normal(size=2), 3)
        if m == 'cir':
            v0, v1 = round(abs(v0) + .3, 3), round(abs(v1) + .3, 3)
        zl, zu = np.round([-abs(g.normal()), abs(g.normal())], 3)
        if g.uniform() < .3:                            # points of the path on one side only
            zl, zu = np.sort(np.round(g.normal(size=2), 3))
        if m == 'cir':
            zl, zu = zl * .1, zu * .1
        pts = [(float(s), float(z)) for s, z in zip(np.append(np.round(g.uniform(size=3), 3), [0., 1., .5, .5]),
                                                    np.append(np.round(g.uniform(zl, zu, 3), 3), [zl, zu, zl, zu]))]

        def x_of(th):
            ops = M.gen_normops(np.array([th, th]), np.array([0, dt]), np.array([1, 1]), np.array([v0, v1]))[0] if regime(m) \
                else M.gen_normops(th, np.array([0, dt]), np.array([v0, v1]))[0]
            return np.array([ops[1](np.array([s]), np.array([z]))[1][0] for s, z in pts])
        if not all(tame(m, th, x_of(th)) for th in (t0, t1)):
            continue
        if m == 'cir' and min(x_of(t0).min(), x_of(t1).min()) < .2:
            continue
        lay = (zl, zu) if g.uniform() < .5 else (zu, zl)
        b = np.asarray(M.eval_bounds_grad(t0, t1, dt, v0, v1, *lay), float)
        if np.abs(b) @ np.abs(t0 - t1) > 1500 or np.abs(b).max() > 1900:
            continue
        e = dict(ev='PathGrad', m=m, th=fxs(t0), p=fxs(t1), dt=fx(dt), v0=fx(v0), v1=fx(v1), b=fxs(b), pts=[dict(s=fx(s), z=fx(z)) for s, z in pts])
        if m == 'cir' and not np.any(b):
            e['key'] = 'cir-bounds-grad-stub'
            n -= 9
        out.append(e)
        n -= 1


def transforms(out, seed, m, n):
    M = load(m) if m in NAMES else sw.custom(m)
    base = m if m in NAMES else 'sou'
    g = rng_for(seed, 'c19transforms', m)
    out.append({'ev': 'Begin', 'id': 'transforms ' + m})
    while n > 0:
        th = th_of(base, g, n=2)
        y = int(g.integers(2))
        row = th[y] if regime(base) else th
        k = int(g.integers(2, 5))
        v = np.round(np.abs(g.normal(size=k)) + .05 if m in ('cir', 'log') else g.normal(scale=1.5, size=k), 3)
        if m in ('ou', 'cir'):
            x, dv = M.reduce(th, v), M.dv_reduce(th, v)
            back = M.dereduce(th, x)
            for j in range(k):
                out.append(dict(ev='Red', m=m, th=fxs(row), v=fx(v[j]), x=fx(x[j]), back=fx(back[j]), dv=fx(dv[j])))
        elif m in NAMES:
            x, dv = M.reduce(v), M.dv_reduce(v)
            back = M.dereduce(x)
            for j in range(k):
                out.append(dict(ev='Red', m=m, th=fxs(row), v=fx(v[j]), x=fx(x[j]), back=fx(back[j]), dv=fx(dv[j])))
        else:
            x = M.reduce(v)
        t = np.append(0, np.round(np.cumsum(np.exp(g.uniform(np.log(.05), np.log(3.), k - 1))), 3))
        if regime(base):
            yt = g.integers(2, size=k)
            ops = M.gen_normops(th, t, yt, v)
            rows = th[yt[:-1]]
        else:
            ops = M.gen_normops(th, t, v)
            rows = [th] * (k - 1)
        for j, (op, inv) in enumerate(ops):
            dt = t[j + 1] - t[j]
            tt = np.array([0., round(float(g.uniform(0, dt)), 4), dt])
            xx = np.round(g.normal(scale=1.5, size=3), 3)
            s, z = op(tt, xx)
            t2, x2 = inv(s, z)
            s_only = op(tt, None)
            t_only = inv(s, None)
            only = s_only[1] is None and t_only[1] is None and np.allclose(s_only[0], s) and np.allclose(t_only[0], tt)
            _, ends = op(tt[[0, 2]], np.array([x[j], x[j + 1]]))
            if not np.all(np.abs(z) < 300):
                continue
            for q in range(3):
                out.append(dict(ev='Norm', m=base, th=fxs(rows[j]), dt=fx(dt), x0=fx(x[j]), x1=fx(x[j + 1]), t=fx(tt[q]), x=fx(xx[q]), s=fx(s[q]),
                                z=fx(z[q]), t2=fx(t2[q]), x2=fx(x2[q]), z0=fx(ends[0]), z1=fx(ends[1]), only=bool(only)))
        n -= 1


def priors(out, seed, m, n):
    M = load(m)
    g = rng_for(seed, 'c19priors', m)
    out.append({'ev': 'Begin', 'id': 'prior ' + m})
    for _ in range(n):
        th = th_of(m, g, n=int(g.choice([1, 2, 4])))
        if m == 'cir':
            th = th.clip(.1, 9.)
        rows = th if regime(m) else [th]
        bad = []
        for _ in range(3):
            q = th.copy()
            q[tuple(int(g.integers(k)) for k in q.shape)] *= -1
            bad.append(float(M.eval_log_prior(q)))
        out.append(dict(ev='Prior', m=m, all=fx(M.eval_log_prior(th)), parts=[fx(M.eval_log_prior(r[None] if regime(m) else r)) for r in rows], outside=fxs(bad)))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    lay, gr = cases['layer'], cases['grad']
    js.append(('grid:layers', on_grid, dict(cases=lay, seed=seed), 600))
    step = 1 if not q else max(1, len(gr) // 1200)
    js.append(('grid:grads', on_grid, dict(cases=gr[seed % step::step], seed=seed), 600))
    k = 1 if q else 30
    for m in NAMES:
        js += [('points:' + m, points, dict(seed=seed, m=m, n=40 * k), 600), ('bounds:' + m, bounds, dict(seed=seed, m=m, n=250 * k), 600),
               ('grads:' + m, grads, dict(seed=seed, m=m, n=150 * k), 600), ('transforms:' + m, transforms, dict(seed=seed, m=m, n=20 * k), 600),
               ('priors:' + m, priors, dict(seed=seed, m=m, n=20 * k), 600)]
    for m in ('quad', 'log'):
        js.append(('transforms:' + m, transforms, dict(seed=seed, m=m, n=20 * k), 600))
    return js
