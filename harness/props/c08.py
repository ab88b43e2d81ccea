"""C08: interpolation of latent paths."""
import numpy as np

from lib import fx, fxs, rng_for, tranks

LEVEL = 'model_checking'
TRACE = 'Trace_Reveal'
CHUNKS = 8
ASSUMPTIONS = ['doubles closer than 1e-10 count as equal (a stored path is reversed and reflected on every request)',
               'requests are sorted and free of repetitions, as the callers make them']


def models(tier):
    return [dict(spec='MC_Reveal', cfg='MC_Reveal' if tier == 'quick' else 'MC_Reveal_big', checks='Consistent StillThere Good Below')]


def parts(k):
    """(times, values) of anything skeleton-like"""
    t = k.t if hasattr(k, 't') else k.s
    x = k.x if hasattr(k, 'x') else k.z
    tight, loose, hit = (k.tight_x, k.loose_x, k.hit_x) if hasattr(k, 'tight_x') else (k.tight_z, k.loose_z, k.hit_z)
    return np.array(t, dtype=float), np.array(x, dtype=float), tight, loose, hit, k.hit_i


def encode(skels, times=(), values=()):
    """Common ranks of several states of knowledge; returns records, time ranks, value ranks."""
    ps = [parts(k) for k in skels]
    tr = tranks(*[p[0] for p in ps], times)
    vr = tranks(*[p[1] for p in ps], *[[p[2], p[3], p[4]] for p in ps], values)
    n = len(ps)
    recs = []
    for i, p in enumerate(ps):
        f = vr[n + i]
        recs.append({'t': tr[i], 'x': vr[i], 'tight': f[0], 'loose': f[1], 'hit': f[2], 'has': p[5] is not None,
                     'marks': [bool(b) for b in p[5]] if p[5] is not None else []})
    return recs, tr[n], vr[2 * n]


def copy(k):
    return type(k)(*[v.copy() if isinstance(v, np.ndarray) else list(v) if isinstance(v, list) else v for v in k])


def equal(a, b):
    return all(np.array_equal(u, v) if isinstance(u, np.ndarray) else u == v for u, v in zip(a, b))


def opened(out, k, ends=None, att=True):
    recs, t, v = encode([k], ends[:2] if ends else (), ends[2:] if ends else ())
    out.append({'ev': 'Open', 's': recs[0], 'att': att, 'ends': t + v})


def ask(out, k, req, g, how=None):
    """One request to a path; how = None (skeleton) or (norm, denorm, fin, vol, x0, x1) for a seed."""
    from ctbayes.ea3lib import seed, skeleton as sk
    keep = copy(k)
    req = np.array(req, dtype=float)
    if how is None:
        n, res = sk.interpolate_skeleton(k, req, g)
        t, z = req, res
    else:
        norm, denorm, fin, vol, x0, x1 = how
        n, res = seed.interpolate_seed(k, req, norm, denorm, g)
        t = req / fin
        z = (res - x0 - t * (x1 - x0)) / (np.sqrt(fin) * vol)
        pos = {round(float(a), 9): float(b) for a, b in zip(n.s, n.z)}
        zz = [pos[round(float(a), 9)] for a in t]
        out.append({'ev': 'Seed', 'x': fxs(res), 'z': fxs(zz), 's': fxs(t), 'fin': fx(fin), 'vol': fx(vol), 'x0': fx(x0), 'x1': fx(x1)})
        z = [b if abs(a - b) < 1e-7 else a for a, b in zip(z, zz)]
    recs, tr, vr = encode([keep, n], t, z)
    out.append({'ev': 'Ask', 's': recs[0], 'n': recs[1], 'req': tr, 'res': vr, 'att': True, 'intact': equal(k, keep)})
    return n


def fresh(g, n):
    from ctbayes.ea3lib import skeleton as sk
    fin = float([1.0, .37, 4.0, 1.7][n % 4])
    x0 = float(g.normal(scale=2))
    x1 = x0 if n % 5 == 4 else float(x0 + g.normal(scale=np.sqrt(fin)) * (1 + 2 * (n % 3 == 0)))
    return sk.sample_raw_skeleton(fin, x0, x1, (-np.inf, np.inf), g), fin, x0, x1


def affine(g, n):
    fin, vol = float([1.0, .6, 3.0][n % 3]), float(np.exp(g.normal(scale=.4)))
    x0, x1 = (float(v) for v in g.normal(size=2))

    def norm(t, x):
        s = t / fin
        return s, None if x is None else (x - x0 - s * (x1 - x0)) / (np.sqrt(fin) * vol)

    def denorm(s, z):
        t = s * fin
        return t, None if z is None else z * np.sqrt(fin) * vol + x0 + s * (x1 - x0)
    return norm, denorm, fin, vol, x0, x1


def replays(out, seed, cases):
    g = rng_for('c08r', seed)
    for n, c in enumerate(cases):
        k, fin, x0, x1 = fresh(g, n)
        out.append({'ev': 'Begin', 'id': 'replay %d' % n})
        opened(out, k, (0.0, fin, x0, x1))
        # the four grid times of the model: ends, the time of the extreme, another one
        other = float(k.t[1] * g.uniform(.1, .9)) if n % 2 else float(k.t[1] + (fin - k.t[1]) * g.uniform(.1, .9))
        grid = sorted([0.0, float(k.t[1]), other, fin])
        for req in c:
            k = ask(out, k, [grid[i] for i in req], g)


def sessions(out, seed, count, long):
    from ctbayes.ea3lib import seed as sd
    g = rng_for('c08', seed)
    for n in range(count):
        out.append({'ev': 'Begin', 'id': 'session %d' % n})
        if n % 2:
            k, fin, x0, x1 = fresh(g, n)
            how = None
            opened(out, k, (0.0, fin, x0, x1))
        else:
            how = affine(g, n)
            fin = how[2]
            k = sd.sample_raw_seed((-np.inf, np.inf), how[0], how[1], g)
            opened(out, k, (0.0, 1.0, 0.0, 0.0))
        asked = []
        for _ in range(int(g.integers(2, 7))):
            req = list(g.uniform(0, fin, int(g.integers(0, 6 if not long else 30))))
            if asked and g.uniform() < .7:
                req += list(g.choice(asked, min(len(asked), 3), replace=False))
            if g.uniform() < .3:
                req += [0.0, fin][:int(g.integers(1, 3))]
            if g.uniform() < .2:
                req = list(asked[:4])
            req = np.unique(req)
            k = ask(out, k, req, g, how)
            asked += [float(v) for v in req]
        # flipping the path over and asking the mirror image
        if how is None:
            from ctbayes.ea3lib import skeleton as sk
            opened(out, sk.flip_skeleton(k))
        refused = 0
        for far in (fin * 1.01, fin + 3):
            try:
                k(np.array([far / 2, far]), how[0], how[1], g) if how else k(np.array([far / 2, far]), g)
            except (ValueError, AssertionError):
                refused += 1
        out.append({'ev': 'Refuse', 'refused': refused == 2})
        req = np.sort(g.uniform(0, fin, 3))
        v = k(req, how[0], how[1], g) if how else k(req, g)
        out.append({'ev': 'Refuse', 'refused': len(v) == 3})


def coins(out, seed, count):
    """What the Poisson coins reveal on the way obeys the same rules."""
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    g = rng_for('c08c', seed)
    for n in range(count):
        out.append({'ev': 'Begin', 'id': 'coin %d' % n})
        if n % 2:
            k, fin, x0, x1 = fresh(g, n)
            new = sk.flip_poisson_coin(k, lambda x: np.full(len(x), -.001), lambda a, b: (0., 0., 6.0 / fin), g, int(g.integers(1, 5)))[-1]
        else:
            norm, denorm, fin, vol, x0, x1 = affine(g, n)
            k = sd.sample_raw_seed((-np.inf, np.inf), norm, denorm, g)
            new = sd.flip_poisson_coin(k, norm, denorm, lambda x: np.full(len(x), -.001), lambda a, b: (0., 0., 6.0 / fin), g, int(g.integers(1, 5)))[-1]
        a, b = parts(k), parts(new)
        extra = [t for t in b[0] if np.min(np.abs(a[0] - t)) > 1e-10]
        recs, tr, vr = encode([k, new], extra, [b[1][np.argmin(np.abs(b[0] - t))] for t in extra])
        out.append({'ev': 'Ask', 's': recs[0], 'n': recs[1], 'req': tr, 'res': vr, 'att': True, 'intact': True})


def fills(out, seed, count):
    """The interpolators on their own, with and without upper bound and crossing level; minimum not attained."""
    from ctbayes.sdelib import interpolators as ip

    class K:
        pass
    g = rng_for('c08f', seed)
    for n in range(count):
        out.append({'ev': 'Begin', 'id': 'fill %d' % n})
        fin = float(g.uniform(.3, 3))
        x0, x1 = (float(v) for v in g.normal(size=2))
        mn = min(x0, x1) - float(g.exponential(.5)) - .05
        mx = max(x0, x1) + float(g.exponential(.5)) + .4
        mode = n % 3
        ue = None if mode == 0 else mx
        hit = None if mode < 2 else float(mn + .7 * (mx - mn))
        marks = None if mode < 2 else [True]
        t, x = np.array([0, fin]), np.array([x0, x1])
        if mode == 2 and max(x0, x1) >= hit:
            hit = float((max(x0, x1) + mx) / 2)

        def state(t, x, marks):
            k = K()
            k.t, k.x, k.tight_x, k.loose_x, k.hit_x, k.hit_i = t, x, mn, np.inf if ue is None else ue, 0. if hit is None else hit, marks
            return k
        old = state(t, x, marks)
        for _ in range(int(g.integers(1, 5))):
            req = np.unique(np.append(g.uniform(0, fin, int(g.integers(1, 5))), g.choice(old.t, 1) if g.uniform() < .5 else []))
            t, x, i, marks = ip.fill_wiener_outer(old.t, old.x, req, mn, ue, hit, marks, g)
            new = state(t, x, marks)
            recs, tr, vr = encode([old, new], req, x[i])
            out.append({'ev': 'Ask', 's': recs[0], 'n': recs[1], 'req': tr, 'res': vr, 'att': False, 'intact': True})
            old = new


def jobs(tier, seed, cases):
    c = cases['asks']
    g = rng_for('c08c', seed)
    c = [c[i] for i in sorted(g.choice(len(c), min(len(c), 800 if tier == 'quick' else 8000), replace=False))]
    per = -(-len(c) // 8)
    js = [('replay:%d' % i, replays, dict(seed=seed * 100 + i, cases=c[i:i + per]), 400) for i in range(0, len(c), per)]
    m = 1 if tier == 'quick' else 8
    for i in range(8 * m):
        js.append(('session', sessions, dict(seed=seed * 1000 + i, count=20, long=i % 4 == 3), 400))
        js.append(('coin', coins, dict(seed=seed * 1000 + i, count=24), 400))
        js.append(('fill', fills, dict(seed=seed * 1000 + i, count=24), 400))
    return js
