"""C07: Poisson coins."""
import numpy as np

from lib import fx, fxs, rng_for, tranks
from props.c08 import affine, copy, equal, parts

LEVEL = 'model_checking'
TRACE = 'Trace_PoissonCoin'
CHUNKS = 8
ASSUMPTIONS = ['marks of the points are internal: the decision is read off rates that are at their lower or upper level everywhere',
               'laws of averages over paths use bounds on the rate that hold on the reported layer of each path']


def models(tier):
    return [dict(spec='MC_PoissonCoin', cfg='MC_PoissonCoin' if tier == 'quick' else 'MC_PoissonCoin_big', checks='Right Readable Terminates')]


def path(g, n, kind, vol=None):
    """A fresh path of either kind with the maps to and from its own scale."""
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    if kind == 'skel':
        fin = float([1.0, .5, 2.5][n % 3])
        x0, x1 = (float(v) for v in g.normal(size=2))
        return sk.sample_raw_skeleton(fin, x0, x1, (-np.inf, np.inf), g), None, fin, 1.0, x0, x1
    norm, denorm, fin, vol, x0, x1 = affine(g, n)
    k = sd.sample_raw_seed((-np.inf, np.inf), norm, denorm, g)
    return k, (norm, denorm), fin, vol, x0, x1


def values(k, how):
    """Times and values of a path in the scale of the process."""
    t, x, tight, loose, _, _ = parts(k)
    return (t, x) if how is None else how[1](t, x)


def reach(k, how):
    """Range of the path in the scale of the process as its layer promises."""
    t, x, tight, loose, _, _ = parts(k)
    lo, hi = min(tight, loose), max(tight, loose)
    if how is None:
        return lo, hi
    s = np.array([0., 1.])
    a, b = how[1](s, np.repeat(lo, 2))[1], how[1](s, np.repeat(hi, 2))[1]
    return float(min(a.min(), b.min())), float(max(a.max(), b.max()))


def flip(k, how, disc, bounds, g, size):
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    if how is None:
        ok, k = sk.flip_poisson_coin(k, disc, bounds, g, size)
        return bool(ok), None, k
    ok, lb, k = sd.flip_poisson_coin(k, how[0], how[1], disc, bounds, g, size)
    return bool(ok), lb, k


def flips(out, seed, count, kind):
    """Rates with two values; the decision must follow the points looked at."""
    g = rng_for('c07f', seed, kind)
    for n in range(count):
        if n % 10 == 0:
            out.append({'ev': 'Begin', 'id': 'flips %d' % n})
        k, how, fin, vol, x0, x1 = path(g, n, kind)
        le, step = float(g.choice([0., -.5, 1.25])), float(g.choice([.5, 1., 4., 8.])) / fin
        step = float(np.exp2(np.round(np.log2(step))))
        seen = []
        for r in range(3):
            xs = values(k, how)[1]
            thr = float([-np.inf, np.inf, np.median(xs), np.median(xs), (x0 + x1) / 2][(n + r) % 5])
            below = bool(g.uniform() < .5)
            size = int(g.choice([1, 2, 3, 10]))

            def high(x):
                return (x < thr) if below else (x >= thr)

            def disc(x):
                x = np.asarray(x, dtype=float)
                seen.extend(float(v) for v in x)
                return np.where(high(x), le + step, le)

            def bounds(a, b):
                assert a <= b
                return le, le, le + step
            keep = copy(k)
            del seen[:]
            ok, lb, new = flip(k, how, disc, bounds, g, size)
            record(out, keep, k, new, how, ok, seen, high, lb, -fin * le)
            k = new
        bad = flip(k, how, disc, lambda a, b: (le, le, np.inf), g, size) if how else None
        if bad:
            out.append({'ev': 'Unbounded', 'ok': bad[0], 'same': bool(equal(bad[2], k))})


def record(out, keep, k, new, how, ok, seen, high, lb=None, want=0.):
    (t0, v0), (t1, v1) = values(keep, how), values(new, how)
    tr, vr = tranks(t0, t1), tranks(v0, v1, seen)
    out.append({'ev': 'Flip', 'ok': ok, 't0': tr[0], 'x0': vr[0], 't1': tr[1], 'x1': vr[1], 'x': vr[2],
                'high': [bool(v) for v in high(np.array(seen, dtype=float))], 'intact': bool(equal(k, keep)),
                'lb': fx(lb) if lb is not None else 0, 'want': fx(want) if lb is not None else 0})


def duals(out, seed, count):
    """Dual coins with rates that differ by a constant on one side of a level, and by the opposite on the other."""
    from ctbayes.ea3lib import seed as sd
    g = rng_for('c07d', seed)
    for n in range(count):
        if n % 10 == 0:
            out.append({'ev': 'Begin', 'id': 'duals %d' % n})
        k, how, fin, vol, x0, x1 = path(g, n, 'seed')
        norm2, denorm2, _, vol2, _, _ = affine(g, n)
        step = float(np.exp2(int(g.integers(-1, 4))))
        for r in range(3):
            thr = float(np.median(values(k, how)[1]))
            mode = (n + r) % 3        # where the second rate is above the first
            up, size = bool(g.uniform() < .5), int(g.choice([1, 2, 3, 10]))
            seen = []

            def sign(x):
                return [np.where(x >= thr, 1., -1.), np.ones_like(x), -np.ones_like(x)][mode]
            # the rates are functions of their own value; the level is a level of the first one, so the sign is put there
            def nil(x):
                x = np.asarray(x, dtype=float)
                seen.extend(float(v) for v in x)
                return -step * sign(x)

            def prime(x):
                return np.zeros(len(x))
            keep = copy(k)
            res = sd.flip_dual_coin(k, step, how[0], how[1], nil, norm2, denorm2, prime, up, g, size)
            ok, new = bool(res[0]), res[-1]
            record(out, keep, k, new, how, ok, seen, lambda x: (sign(x) > 0) == up)
            k = new


def line(out, seed, n, cfg):
    """Paths that are straight lines up to 1e-7: the law of one coin."""
    from ctbayes.ea3lib import seed as sd
    x0, x1, fin, a, b, c, slack, size, est = cfg
    g = rng_for('c07l', seed, *[int(abs(v) * 1000) for v in cfg])
    vol = 1e-7

    def norm(t, x):
        s = t / fin
        return s, None if x is None else (x - x0 - s * (x1 - x0)) / (np.sqrt(fin) * vol)

    def denorm(s, z):
        return s * fin, None if z is None else z * np.sqrt(fin) * vol + x0 + s * (x1 - x0)

    def disc(x):
        return a + b * x + c * x ** 2
    grid = disc(np.linspace(min(x0, x1), max(x0, x1), 2001))
    le, ue = float(grid.min()) - slack - 1e-4, float(grid.max()) + 1e-4 + slack / 2

    def bounds(u, v):
        return le, le, ue
    hits = 0
    for i in range(n):
        if i % 50 == 0:
            z = sd.sample_raw_seed((-np.inf, np.inf), norm, denorm, g)
        if est:
            lw = sd.est_poisson_coin(z, norm, denorm, disc, bounds, g)[0]
            hits += int(np.log(g.uniform()) < lw)
        else:
            hits += int(sd.flip_poisson_coin(z, norm, denorm, disc, bounds, g, size)[0])
    out.append({'ev': 'Begin', 'id': 'line'})
    out.append({'ev': 'Line', 'x0': fx(x0), 'x1': fx(x1), 'T': fx(fin), 'a': fx(a), 'b': fx(b), 'c': fx(c), 'le': fx(le), 'cnt': hits, 'n': n})


def quad(c, lo, hi):
    """Bounds of c^2 x^2 / 2 on [lo, hi]."""
    m = 0. if lo < 0 < hi else min(abs(lo), abs(hi))
    return 0., c * c * m * m / 2, c * c * max(abs(lo), abs(hi)) ** 2 / 2


def cm(out, seed, n, kind, c, fin, vol, x0, x1, size, reps):
    """Averages over bridges, with several looks at the same path."""
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    g = rng_for('c07c', seed, kind, int(c * 100), int(fin * 100), int(abs(x0) * 100), int(abs(x1) * 100), size, reps)

    def norm(t, x):
        s = t / fin
        return s, None if x is None else (x - x0 - s * (x1 - x0)) / (np.sqrt(fin) * vol)

    def denorm(s, z):
        return s * fin, None if z is None else z * np.sqrt(fin) * vol + x0 + s * (x1 - x0)

    def disc(x):
        return c * c * np.square(x) / 2

    def bounds(lo, hi):
        return quad(c, lo, hi)
    skel = kind.startswith('skel')
    hits = 0
    for _ in range(n):
        k = sk.sample_raw_skeleton(fin, x0, x1, (-np.inf, np.inf), g) if skel else sd.sample_raw_seed((-np.inf, np.inf), norm, denorm, g)
        good = True
        for r in range(reps):
            if kind == 'skel':
                ok, k = sk.flip_poisson_coin(k, disc, bounds, g, size)
            elif kind == 'skel_est':
                lw, k = sk.est_poisson_coin(k, disc, bounds, g)
                ok = np.log(g.uniform()) < lw
            elif kind == 'seed':
                ok, lb, k = sd.flip_poisson_coin(k, norm, denorm, disc, bounds, g, size)
                ok = ok and np.log(g.uniform()) < lb
            elif kind == 'seed_est':
                lw, lb, k = sd.est_poisson_coin(k, norm, denorm, disc, bounds, g)
                ok = np.log(g.uniform()) < lw + lb
            else:                     # dual coins against a shifted rate, and against a path of other volatility
                up = kind.startswith('dual_up')
                lo, hi = reach(k, (norm, denorm))
                top = quad(c, lo, hi)[2]

                def one(x):
                    return .7 + 0. * x

                def two(x):
                    return .7 + disc(x)
                if kind.endswith('vol'):          # x0 = x1 = 0: the second path is a multiple of the first
                    f = 1.5

                    def norm2(t, x):
                        s = t / fin
                        return s, None if x is None else x / (np.sqrt(fin) * vol * f)

                    def denorm2(s, z):
                        return s * fin, None if z is None else z * np.sqrt(fin) * vol * f
                    d2 = lambda x: disc(x) / (f * f - 1)  # noqa: E731
                    args = (norm, denorm, d2, norm2, denorm2, d2) if up else (norm2, denorm2, d2, norm, denorm, d2)
                    ok, k = sd.flip_dual_coin(k, top * 1.01, *args, up, g, size)
                else:
                    rates = (one, two) if up else (two, one)
                    ok, k = sd.flip_dual_coin(k, top * 1.01, norm, denorm, rates[0], norm, denorm, rates[1], up, g, size)
                    # the part of the other sign is zero: that coin cannot fail
                    good = good and bool(sd.flip_dual_coin(k, top * 1.01, norm, denorm, rates[0], norm, denorm, rates[1], not up, g, size)[0])
            good = good and bool(ok)
            if not good:
                break
        hits += int(good)
    out.append({'ev': 'Begin', 'id': 'cm ' + kind})
    out.append({'ev': 'Cm', 'kind': kind, 'size': size, 'c': fx(c * np.sqrt(reps)), 'T': fx(fin), 'v': fx(1. if skel else vol),
                'x0': fx(x0), 'x1': fx(x1), 'cnt': hits, 'n': n})


def jobs(tier, seed, cases):
    m = 1 if tier == 'quick' else 6
    js = []
    for i in range(4 * m):
        for kind in ('skel', 'seed'):
            js.append(('flips', flips, dict(seed=seed * 1000 + i, count=60, kind=kind), 400))
        js.append(('duals', duals, dict(seed=seed * 1000 + i, count=60), 400))
    n = 8000 * m
    for cfg in ((0., 1., 1., .2, .5, 0., 0., 2, 0), (-1., 1.5, 2., .3, -.2, .4, .1, 1, 0), (1., -.5, .4, 0., 0., 1.5, .3, 3, 0),
                (.5, .5, 1., 1., 0., 0., .6, 10, 0), (-1., 1., 1., .1, .2, .5, .2, 2, 1), (0., 2., .5, .1, 1., .2, 0., 2, 1)):
        js.append(('line', line, dict(seed=seed, n=n, cfg=cfg), 800))
    n = 4000 * m
    for kind, c, fin, vol, x0, x1, size, reps in (
            ('skel', 1.0, 1.0, 1.0, .5, -.3, 2, 1), ('skel', 1.5, .6, 1.0, 0., .8, 1, 2), ('skel', .7, 2.0, 1.0, -.4, .6, 10, 3),
            ('skel_est', 1.2, 1.0, 1.0, .2, .4, 2, 1), ('skel_est', .6, 2.0, 1.0, -.5, .4, 2, 1),
            ('seed', 1.0, 1.0, .8, .5, -.3, 2, 1), ('seed', 1.2, 1.5, .7, 0., .6, 3, 2), ('seed', .8, .5, 1.6, -.6, .9, 10, 3),
            ('seed_est', 1.0, 1.0, .9, .3, .5, 2, 1), ('seed_est', 1.4, .5, 1.3, -.3, .2, 2, 1),
            ('dual_up', 1.2, 1.0, .9, .4, -.5, 2, 1), ('dual_down', 1.0, 1.5, .8, .2, .7, 3, 2), ('dual_up_vol', 1.1, 1.2, 1.0, 0., 0., 2, 1),
            ('dual_down_vol', 1.4, .7, 1.2, 0., 0., 10, 2)):
        js.append(('cm', cm, dict(seed=seed, n=n, kind=kind, c=c, fin=fin, vol=vol, x0=x0, x1=x1, size=size, reps=reps), 800))
    return js
