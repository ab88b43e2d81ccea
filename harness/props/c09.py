"""C09: the law of revealed paths."""
import numpy as np

from lib import fx, fxs, rng_for
from props.c08 import parts

LEVEL = 'model_checking'
TRACE = 'Trace_BridgeLaw'
CHUNKS = 8
ASSUMPTIONS = ['laws are judged on half-spaces, products of uncorrelated half-spaces and joint events of a value and the layer, at 6 standard deviations']
INF = (-np.inf, np.inf)


def models(tier):
    return [dict(spec='MC_BridgeLaw', cfg='MC_BridgeLaw' if tier == 'quick' else 'MC_BridgeLaw_big',
                 checks='OrderDoesNotMatter Proper; method of images')]


class Skel:
    """A layered path in its own scale."""

    def __init__(self, T, x0, x1, g):
        from ctbayes.ea3lib import skeleton as sk
        self.sk, self.g, self.T = sk, g, T
        self.k = sk.sample_raw_skeleton(T, x0, x1, INF, g)

    def ask(self, t):
        self.k, x = self.sk.interpolate_skeleton(self.k, np.asarray(t, dtype=float), self.g)
        return x

    def coin(self):
        self.k = self.sk.flip_poisson_coin(self.k, lambda x: np.zeros(len(x)), lambda a, b: (0., 0., 4. / self.T), self.g, 3)[1]

    def mirror(self):
        """Look at the path from the other side; times move by rounding, so known times are not asked again afterwards."""
        self.k = self.sk.flip_skeleton(self.sk.flip_skeleton(self.k))

    def range(self):
        p = parts(self.k)
        return min(p[2], p[3]), max(p[2], p[3])

    def unit(self):
        return self.T, float(self.k.x[0]), float(self.k.x[-1])


class Seed(Skel):
    """A seed, asked through the maps of two different parameter values in turn."""

    def __init__(self, T, x0, x1, g):
        from ctbayes.ea3lib import seed as sd
        self.sd, self.g, self.T, self.x0, self.x1, self.f = sd, g, T, x0, x1, 1.
        self.k = sd.sample_raw_seed(INF, self.norm, self.denorm, g)

    def norm(self, t, x):
        s = t / self.T
        return s, None if x is None else (x - self.x0 - s * (self.x1 - self.x0)) / (np.sqrt(self.T) * self.f)

    def denorm(self, s, z):
        return s * self.T, None if z is None else z * np.sqrt(self.T) * self.f + self.x0 + s * (self.x1 - self.x0)

    def ask(self, t):
        self.k, x = self.sd.interpolate_seed(self.k, np.asarray(t, dtype=float), self.norm, self.denorm, self.g)
        return x

    def coin(self):
        self.f = 2.
        r = self.sd.flip_dual_coin(self.k, 3. / self.T, self.norm, self.denorm, lambda x: np.zeros(len(x)), self.norm, self.denorm,
                                   lambda x: np.zeros(len(x)), True, self.g, 3)
        self.k = r[-1]
        self.f = 1.

    def mirror(self):
        pass

    def unit(self):
        return 1., 0., 0.


class MinFill:
    """Minimum first, then values given it."""

    def __init__(self, T, x0, x1, g, ub=None):
        from ctbayes.sdelib import hitting, interpolators
        self.ip, self.g, self.T, self.ub = interpolators, g, T, ub
        if ub is None:
            mt, self.m = hitting.sample_brownbr_min(T, x0, x1, ome=g)
        else:
            mt, self.m = hitting.sample_layerbr_min(T, x0, x1, ub, ome=g)
        self.t, self.x = np.array([0., mt, T]), np.array([x0, self.m, x1])

    def ask(self, t):
        self.t, self.x, i, _ = self.ip.fill_wiener_outer(self.t, self.x, np.asarray(t, dtype=float), self.m, self.ub, ome=self.g)
        return self.x[i]

    def coin(self):
        pass

    mirror = coin

    def range(self):
        return self.m, np.inf


class Direct:
    def __init__(self, T, x0, x1, g, *band):
        from ctbayes.sdelib import paths
        self.paths, self.g, self.a, self.band = paths, g, (T, x0, x1), band

    def ask(self, t):
        if self.band:
            return self.paths.sample_layerbr(np.asarray(t, dtype=float), *self.a, *self.band, ome=self.g)[0]
        return self.paths.sample_brownbr(np.asarray(t, dtype=float), *self.a, ome=self.g)

    def coin(self):
        pass

    mirror = coin


KINDS = {'skel': Skel, 'seed': Seed, 'minfill': MinFill, 'layerfill': MinFill, 'brownbr': Direct, 'layerbr': Direct}


def reveal(p, order, t, g):
    t = list(t)
    if order == 'once':
        return p.ask(t)
    x = {}
    if order == 'noise':
        u = np.sort(g.uniform(0, 1, 8)) * (t[-1] * 1.1 if t[-1] * 1.1 < p.T else p.T)
        p.ask(u[u < p.T])
        return p.ask(t)
    if order == 'coin':
        p.coin()
        x[t[1]] = p.ask([t[1]])[0]
        p.coin()
        return p.ask(t)
    if order == 'mirror':
        x0 = p.ask([t[1]])[0]
        p.mirror()
        return np.array([p.ask([t[0]])[0], x0, p.ask([t[2]])[0]])
    seq = {'fwd': [0, 1, 2], 'bwd': [2, 1, 0], 'mid': [1, 0, 2]}.get(order)
    if seq is None:
        seq = list(g.permutation(3))
    for j in seq:
        x[j] = p.ask([t[j]])[0]
        if order == 'rand':
            old = np.unique([t[i] for i in x])
            p.ask(old)
    return np.array([x[j] for j in range(3)])


def law(out, seed, n, kind, order, T, x0, x1, t, args=()):
    g = rng_for('c09', seed, kind, order, int(T * 100), int(abs(x0) * 100), int(abs(x1) * 100))
    t = np.array(t) * T
    X, lo, hi = np.empty((n, 3)), np.full(n, np.nan), np.full(n, np.nan)
    for i in range(n):
        p = KINDS[kind](T, x0, x1, g, *args)
        X[i] = reveal(p, order, t, g)
        if hasattr(p, 'range'):
            lo[i], hi[i] = p.range()
    base = {'T': fx(T), 'x0': fx(x0), 'x1': fx(x1)}
    mean = x0 + (x1 - x0) * t / T
    cov = np.minimum.outer(t, t) * (T - np.maximum.outer(t, t)) / T
    out.append({'ev': 'Begin', 'id': '%s %s' % (kind, order)})
    if kind not in ('layerfill', 'layerbr'):
        for c in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, -2, 1], [1, 1, 1], [-1, 0, 1], [1, -1, 0], [2, 1, -3]):
            c = np.array(c, dtype=float)
            sd = np.sqrt(c @ cov @ c)
            m = np.round(c @ mean + sd * np.array([-1.3, -.4, .3, 1.2]), 6)
            out.append({'ev': 'Half', 'c': fxs(c), 't': fxs(t), 'm': fxs(m), 'cnt': [int(np.sum(X @ c <= v)) for v in m], 'n': n, **base})
        # residuals of a later value given an earlier one, and of a middle value given its neighbours
        for c, d in (((1, 0, 0), (-cov[0, 2] / cov[0, 0], 0, 1)), ((0, 1, 0), (1, -cov[0, 1] / cov[1, 1], 0))):
            c, d = np.round(c, 6), np.round(d, 6)
            for zc, zd in ((-.8, -.8), (.5, -.5), (0., .7)):
                m, k = round(c @ mean + zc * np.sqrt(c @ cov @ c), 6), round(d @ mean + zd * np.sqrt(d @ cov @ d), 6)
                out.append({'ev': 'Cell', 'c': fxs(c), 'd': fxs(d), 't': fxs(t), 'm': fx(m), 'k': fx(k),
                            'cnt': int(np.sum((X @ c <= m) & (X @ d <= k))), 'n': n, **base})
    for j in range(3):
        sd = np.sqrt(cov[j, j])
        m = np.round(mean[j] + sd * np.array([-.9, -.1, .7, 1.6]), 6)

        def joint(num, den, keep, m=m, X=X[:, j], base=base, tj=t[j]):
            out.append({'ev': 'Joint', 't': fx(tj), 'm': fxs(m), 'num': [win(*w) for w in num], 'den': [win(*w) for w in den],
                        'cnt': [int(np.sum(keep & (X <= v))) for v in m], 'n': n, **base})
        if kind in ('skel', 'seed'):
            from ctbayes.sdelib.layers import compute_edges
            if kind == 'skel':
                for i in (1, 2):
                    a, b = (round(v, 6) for v in compute_edges(i, T, x0, x1))
                    joint([(1, a, b)], [], (lo >= a - 1e-5) & (hi <= b + 1e-5))
            else:
                for i in (1, 2):
                    a, b = (round(v, 6) for v in compute_edges(i, 1., 0., 0.))
                    Z = (X[:, j] - mean[j]) / np.sqrt(T)
                    mz = np.round((m - mean[j]) / np.sqrt(T), 6)
                    joint([(1, a, b)], [], (lo >= a - 1e-5) & (hi <= b + 1e-5), m=mz, X=Z, base={'T': fx(1.), 'x0': 0, 'x1': 0}, tj=t[j] / T)
        elif kind in ('minfill', 'layerfill'):
            ub = args[0] if args else np.inf
            for q in (.3, .7):
                c = round(float(np.quantile(lo, q)), 6)
                joint([(1, c, ub)], [(1, -np.inf, ub)] if args else [], lo > c)
            joint([(1, -np.inf, ub)], [(1, -np.inf, ub)], lo > -np.inf)
        elif kind == 'layerbr':
            inf, ub, lb = (tuple(args) + (None, None))[:3]
            wins = [(1, inf, np.inf if ub is None else ub)] + ([(-1, inf, lb)] if lb is not None else [])
            joint(wins, wins, np.ones(n, bool))


def win(s, a, b):
    return {'s': s, 'ha': bool(np.isfinite(a)), 'a': fx(a) if np.isfinite(a) else 0, 'hb': bool(np.isfinite(b)), 'b': fx(b) if np.isfinite(b) else 0}


CFGS = [(1., .5, -.3, (.2, .5, .8)), (.4, 0., 0., (.05, .4, .9)), (2.5, -1., 2.5, (.3, .6, .7)), (1., .2, .2, (.01, .5, .97))]


def jobs(tier, seed, cases):
    n = 2500 if tier == 'quick' else 40000
    js = []
    orders = ['once', 'fwd', 'bwd', 'mid', 'rand', 'noise', 'coin', 'mirror']
    for i, o in enumerate(orders):
        for kind in ('skel', 'seed'):
            cfgs = CFGS if tier != 'quick' else [CFGS[(i + 2 * (kind == 'seed')) % 4]]
            for c in cfgs:
                js.append(('law', law, dict(seed=seed, n=n, kind=kind, order=o, T=c[0], x0=c[1], x1=c[2], t=c[3]), 880))
    for o, c in (('once', CFGS[0]), ('rand', CFGS[1]), ('noise', CFGS[2]), ('bwd', CFGS[3])):
        T, x0, x1, t = c
        js.append(('law', law, dict(seed=seed, n=n, kind='minfill', order=o, T=T, x0=x0, x1=x1, t=t), 880))
        js.append(('law', law, dict(seed=seed, n=n, kind='layerfill', order=o, T=T, x0=x0, x1=x1, t=t, args=(max(x0, x1) + .5 * np.sqrt(T),)), 880))
    for c in CFGS:
        T, x0, x1, t = c
        s = np.sqrt(T)
        js.append(('law', law, dict(seed=seed, n=4 * n, kind='brownbr', order='once', T=T, x0=x0, x1=x1, t=t), 880))
        for b in ((min(x0, x1) - .4 * s,), (min(x0, x1) - .5 * s, max(x0, x1) + .6 * s), (min(x0, x1) - .3 * s, max(x0, x1) + .8 * s, max(x0, x1) + .3 * s),
                  (min(x0, x1), max(x0, x1) + .9 * s)):
            if len(b) == 2 and b[0] == min(x0, x1):
                continue
            js.append(('law', law, dict(seed=seed, n=n, kind='layerbr', order='once', T=T, x0=x0, x1=x1, t=t, args=b), 880))
    return js
