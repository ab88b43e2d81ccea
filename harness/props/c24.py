"""C24: whole sweeps leave the joint law of parameters, regimes, paths and data unchanged."""
import time

import numpy as np

import sw
from lib import fx, fxs, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Joint'
CHUNKS = 1
ASSUMPTIONS = ['the joint law is that of the shipped priors, the stationary regime process and the diffusion given its first value; '
               'starting points are exact draws from it: the path between regime changes by rejection with the coin of the library (checked in C07)',
               'proposals are those a sampler makes before it has adapted (adaptation is checked in C12)',
               'observation times start at 0; shipped models with a gradient bound (not cir), and the model ou under two data transforms']


def models(tier):
    return [dict(spec='MC_Joint', cfg='MC_Joint' if tier == 'quick' else 'MC_Joint_big',
                 checks='Fixed: the joint law of generator, regime path and parameter is a fixed point of every order of the three updates, in exact '
                        'arithmetic; without the weight of the first regime in the generator update it is not')]


def rate_vol(name, thi):
    """Rate and volatility per regime, after the documentation of the models."""
    a, b = np.asarray(thi, float).T
    return {'ou2': (a, a / b), 'ou3': (a * b, a)}.get(name, (a, 1. / b))


def jump_path(g, lam, fin):
    nr = len(lam)
    w, V = np.linalg.eig(lam.T)
    p = np.abs(np.real(V[:, np.argmin(np.abs(w))]))
    y, t, ts, ys = int(g.choice(nr, p=p / p.sum())), 0., [], []
    while t < fin:
        ts.append(t)
        ys.append(y)
        r = -lam[y, y]
        t += g.exponential(1 / r)
        q = np.maximum(lam[y], 0.)
        y = int(g.choice(nr, p=q / q.sum()))
    return np.array(ts), np.array(ys)


def ou_step(g, x, d, r, s):
    return x * np.exp(-r * d) + s * np.sqrt(-np.expm1(-2 * r * d) / (2 * r)) * g.normal()


def draw_piece(g, bounds_x, ops, inf, bounds, disc):
    """A path between two points from the law of the diffusion, by rejection."""
    from ctbayes.ea3lib import seed as S
    fin = float(ops[1](np.ones(1), None)[0][0])
    while True:
        z = S.sample_raw_seed(bounds_x, *ops, g)
        if np.log(g.uniform()) < S.integrate_disc_bound(z, *ops, bounds) + inf * fin:
            ok, _, z = S.flip_poisson_coin(z, *ops, disc, bounds, g, 5)
            if ok:
                return z


def middle(g, z, ops, vol):
    """The value in the middle of a piece, away from the straight line, squared and standardised; and its pull to zero."""
    from ctbayes.ea3lib import seed as S
    fin = float(ops[1](np.ones(1), None)[0][0])
    ends = ops[1](np.array([0., 1.]), np.zeros(2))[1]
    x = float(S.interpolate_seed(z, np.array([fin / 2]), *ops, g)[1][0])
    m = float(np.mean(ends))
    return abs(x - m) / (vol * np.sqrt(fin)), abs(x) - abs(m)


def draw_theta(g, nr):
    """Log-normal parameters inside their bounds."""
    th = np.exp(g.normal(size=(nr, 2)) * SD)
    while np.any((th <= BND[0]) | (th >= BND[1])):
        th = np.where((th <= BND[0]) | (th >= BND[1]), np.exp(g.normal(size=(nr, 2)) * SD), th)
    return th


class FromPrior:
    """Proposals drawn from the prior, whatever the present value is."""

    def __init__(self, g, now, j=None):
        self.g, self.now, self.j = g, np.atleast_1d(now), j

    def dens(self, th):
        sd = np.array(SD if self.j is None else SD[self.j:self.j + 1])
        return float(-np.sum(np.log(th) + np.log(th) ** 2 / (2 * sd ** 2)))

    def propose(self, ome):
        th = draw_theta(self.g, 1)[0]
        th = th if self.j is None else th[self.j:self.j + 1]
        return th if self.j is None else float(th[0]), self.dens(th), self.dens(self.now)

    def adapt(self, sample, prob):
        pass


def wide(s):
    """A sampler that has come to make larger steps."""
    s.log_prop_scale = [.6]
    return s


class Tally:
    """Events before and after: counts of each, and of those that appear or disappear."""

    def __init__(self, n, secs):
        self.n, self.ev, self.want, self.end = 0, {}, n, time.time() + secs

    def more(self):
        return self.n < self.want and (self.n < 20 or time.time() < self.end)

    def add(self, before, after):
        self.n += 1
        for k in before:
            a, b = bool(before[k]), bool(after[k])
            c = self.ev.setdefault(k, [0, 0, 0, 0])
            c[0] += a
            c[1] += b
            c[2] += b and not a
            c[3] += a and not b

    def write(self, out, laws):
        for k, (a, b, up, dn) in sorted(self.ev.items()):
            out.append(dict(ev='Steady', what=k, n=self.n, before=a, after=b, up=up, down=dn))
        for k, law in sorted(laws.items()):
            out.append(dict(ev='Prior', what=k, n=self.n, cnt=self.ev[k][1], law=law))


SD = .5, .35                    # spread of the log parameters
BND = np.array([.3, .5]), np.array([3., 2.])
LC = [-.6, -.2, .2, .6]         # thresholds for log parameters
GC = [.3, .8, 1.5]              # thresholds for transition rates


def theta_events(thi, v):
    e = {}
    for j, row in enumerate(np.atleast_2d(thi)):
        for k in range(2):
            for i, c in enumerate(LC):
                e['log theta %d %d below %g' % (j, k, c)] = np.log(row[k]) <= c
            e['theta %d %d against the data' % (j, k)] = np.log(row[k]) > .8 * np.log(np.mean(np.diff(v) ** 2) + 1e-3) * (-1 if k else 1)
        e['theta %d product' % j] = np.log(row[0]) > np.log(row[1]) * 1.5
    return e


def theta_laws(nr):
    return {'log theta %d %d below %g' % (j, k, c): dict(kind='normal', c=fx(c), sd=fx(SD[k]), lo=fx(np.log(BND[0][k])), hi=fx(np.log(BND[1][k])))
            for j in range(nr) for k in range(2) for c in LC}


def switching(out, seed, m, i, n, secs, K, nr, nobs, own, kw):
    from ctbayes.ea3lib import seed as S
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler
    from ctbayes.mjplib.skeleton import Skeleton
    from ctbayes.switching import mcmc, types
    M = sw.get(m)
    g = rng_for(seed, 'c24sw', m, i)
    A, B = 3., 2.
    T = Tally(n, secs)
    out.append({'ev': 'Begin', 'id': 'switching %s %d' % (m, i)})
    off = [(a, b) for a in range(nr) for b in range(nr) if a != b]

    def events(thi, lam, z, h, v):
        e = theta_events(thi, v)
        y = np.asarray(h.yt)
        ch = np.flatnonzero(np.diff(y) != 0)
        y0, y1 = int(y[0]), int(y[-1])
        for a in range(nr):
            e['first regime %d of %d' % (a, nr)] = y0 == a
            e['last regime %d of %d' % (a, nr)] = y1 == a
        for a, b in off:
            for c in GC:
                e['rate %d %d below %g' % (a, b, c)] = lam[a, b] <= c
        e['leaves its first regime faster'] = -lam[y0, y0] > -lam[(y0 + 1) % nr, (y0 + 1) % nr]
        e['leaves its last regime faster'] = -lam[y1, y1] > -lam[(y1 + 1) % nr, (y1 + 1) % nr]
        for c in (0, 1, 3):
            e['more than %d changes' % c] = len(ch) > c
        e['many changes for the rates'] = len(ch) > -h.t[-1] * np.trace(lam) / nr
        e['first regime is the more volatile'] = rate_vol(m, thi)[1][y0] > rate_vol(m, thi)[1][(y0 + 1) % nr]
        e['volatile at large steps'] = rate_vol(m, thi)[1][int(y[0])] > np.sqrt(np.mean(np.diff(v) ** 2 / np.diff(t)))
        r = rate_vol(m, thi)[0]
        e['first regime pulls harder'] = r[y0] > r[(y0 + 1) % nr]
        stay = np.bincount(y[:-1], np.diff(h.t), minlength=nr)
        e['more time in the regime that pulls hardest'] = stay[np.argmax(r)] > h.t[-1] / nr
        e['more time in the regime that is most volatile'] = stay[np.argmax(rate_vol(m, thi)[1])] > h.t[-1] / nr
        e['more time in the regime that is left fastest'] = stay[np.argmin(np.diag(lam))] > h.t[-1] / nr
        k = int(np.searchsorted(h.t, h.t[-1] / 2)) - 1
        x = np.asarray(M.reduce(h.vt), float)
        e['hidden values far out'] = np.max(np.abs(x)) > np.max(np.abs(M.reduce(v))) + .15
        mid, pull = middle(g, z[k], M.gen_normops(thi, *h)[k], rate_vol(m, thi)[1][int(y[k])])
        for c in (.2, .4, .7):
            e['middle away from the line by %g' % c] = mid > c
        e['middle closer to zero'] = pull < 0
        s = rate_vol(m, thi)[1][y[:-1]] * np.sqrt(np.diff(h.t))
        u = np.diff(x) / s
        free = ~np.isin(h.t[:-1], t) | ~np.isin(h.t[1:], t)
        q = np.mean(u[free] ** 2) if free.any() else 1.
        e['hidden steps large for the volatility'] = q > 1.5
        e['hidden steps small for the volatility'] = q < .5
        return e

    while T.more():
        t = np.append(0., np.cumsum(g.uniform(.3, 2.4 / nobs, nobs - 1)))
        thi = draw_theta(g, nr)
        lam = g.gamma(A, 1 / B, (nr, nr))
        np.fill_diagonal(lam, 0.)
        np.fill_diagonal(lam, -lam.sum(1))
        jt, jy = jump_path(g, lam, t[-1])
        tt = np.unique(np.concatenate([t, jt]))
        yt = jy[np.searchsorted(jt, tt, 'right') - 1]
        r, s = rate_vol(m, thi)
        x = [g.normal() * .7]
        for d, y in zip(np.diff(tt), yt):
            x.append(ou_step(g, x[-1], d, r[y], s[y]))
        v = np.asarray(M.dereduce(np.array(x)), float)
        h = types.Anchorage(tt, yt, v)
        z = [draw_piece(g, M.bounds_x, ops, -r[y] / 2, M.eval_bounds_disc(thi, int(y)), M.eval_disc(thi, int(y)))
             for ops, y in zip(M.gen_normops(thi, tt, yt, v), yt)]
        vo = v[np.searchsorted(tt, t)]
        mod = sw.mcmc_model(M, t, vo, nr, A, B)._replace(bounds_thi=BND, eval_log_prior=lambda th: M.eval_log_prior(th, SD[0], 2 * SD[1]))
        first = events(thi, lam, z, h, vo)
        for k in range(K):
            ps = [FromPrior(g, th) if own else wide(MyopicMvRwSampler(th, BND, .2)) for th in thi]
            rs = MyopicMjpSampler(types.prune_anchorage(h), .2)
            thi, lam, z, h = mcmc.update_joint(thi, lam, z, h, mod, mcmc.Controls(**kw), ps, rs, g)
        T.add(first, events(np.asarray(thi, float), np.asarray(lam, float), z, h, vo))
    laws = theta_laws(nr)
    for a in range(nr):
        laws['first regime %d of %d' % (a, nr)] = dict(kind='even', k=nr)
        laws['last regime %d of %d' % (a, nr)] = dict(kind='even', k=nr)
    for a, b in off:
        for c in GC:
            laws['rate %d %d below %g' % (a, b, c)] = dict(kind='erlang', k=int(A), b=fx(B), c=fx(c))
    T.write(out, laws)


def plain(out, seed, i, n, secs, K, nobs, own, kw):
    from ctbayes.ito import mcmc
    from ctbayes.ito.models import ou as M
    from ctbayes.misc.adapt import MyopicRwSampler
    g = rng_for(seed, 'c24ito', i)
    T = Tally(n, secs)
    out.append({'ev': 'Begin', 'id': 'plain %d' % i})

    def events(thi, z, t, v):
        e = theta_events(thi, v)
        k = len(z) // 2
        mid, pull = middle(g, z[k], M.gen_normops(thi, t, v)[k], 1.)
        for c in (.2, .4, .7):
            e['middle away from the line by %g' % c] = mid > c
        e['middle closer to zero'] = pull < 0
        e['volatile at large steps'] = thi[1] > np.sqrt(np.mean(np.diff(v) ** 2 / np.diff(t)))
        return e

    while T.more():
        t = np.append(0., np.cumsum(g.uniform(.2, 1.2, nobs - 1)))
        thi = draw_theta(g, 1)[0]
        x = [g.normal() * .7]
        for d in np.diff(t):
            x.append(ou_step(g, x[-1], d, thi[0], 1.))
        v = np.array(x) * thi[1]
        v0 = v[0]
        z = [draw_piece(g, M.bounds_x, ops, -thi[0] / 2, M.eval_bounds_disc(thi), M.eval_disc(thi)) for ops in M.gen_normops(thi, t, v)]
        mod = mcmc.Model(t, v, BND, lambda th: M.eval_log_prior(th, SD[0], 2 * SD[1]), M.sample_aug, M.gen_normops, M.eval_biased_log_lik, M.eval_disc,
                         M.eval_bounds_disc, M.eval_bounds_grad)
        first = events(thi, z, t, v)
        for k in range(K):
            ps = [FromPrior(g, th, j) if own else wide(MyopicRwSampler(th, b, .2)) for j, (th, b) in enumerate(zip(thi, np.array(BND).T))]
            thi, z = mcmc.update_joint(thi, z, mod, mcmc.Controls(**kw), ps, g)
        T.add(first, events(np.asarray(thi, float), z, t, v))
    T.write(out, theta_laws(1))


class Witness(np.random.Generator):
    """A generator that tells when gamma variables are drawn."""

    def gamma(self, *a, **k):
        self.tell()
        return super().gamma(*a, **k)

    def standard_gamma(self, *a, **k):
        self.tell()
        return super().standard_gamma(*a, **k)


def sweep_job(out, seed, m, i, n):
    """The order in which a sweep uses its blocks, seen from the model, the proposals and the random numbers given to it."""
    import warnings
    from ctbayes.misc.adapt import MyopicMjpSampler, MyopicMvRwSampler, MyopicRwSampler
    from ctbayes.switching import mcmc as smc, types
    from ctbayes.mjplib.skeleton import sample_forwards
    out.append({'ev': 'Begin', 'id': 'sweeps of %s %d' % (m, i)})
    g = rng_for(seed, 'c24order', m, i)
    steps = []
    ome = Witness(np.random.PCG64(np.random.SeedSequence(int(g.integers(1 << 30)))))
    ome.tell = lambda: steps.append(('gen', None))
    kw = CONF[i % 4]
    same = lambda a, b: all(np.array_equal(x, y) for x, y in zip(a, b))

    def emit(old, new, has):
        ev = []
        seen = any(k == 'gen' for k, _ in steps)
        for k, what in steps:
            o, w = ((True, True) if k == 'gen' or k not in old else (same(what, old[k]), same(what, new[k])))
            if k == 'prop' and not seen:        # generators drawn in some other way: either will do
                o = w = o or w
            r = dict(k=k, old=bool(o), new=bool(w))
            if not ev or ev[-1] != r:
                ev.append(r)
        out.append(dict(ev='Sweep', steps=ev, has=has))
        steps.clear()

    if m == 'plain':
        from ctbayes.ito import mcmc
        from ctbayes.ito.models import ou as M
        t, v = np.cumsum(np.append(0., g.uniform(.2, 1., 4))), g.normal(size=5)

        def aug(thi, *a):
            steps.append(('hid', (np.array(thi, float),)))
            return M.sample_aug(thi, *a)

        def prior(thi):
            steps.append(('par', ()))
            return M.eval_log_prior(thi)
        mod = mcmc.Model(t, v, M.bounds_thi, prior, aug, M.gen_normops, M.eval_biased_log_lik, M.eval_disc, M.eval_bounds_disc, M.eval_bounds_grad)
        thi = np.array([1., 1.])
        z = M.sample_aug(thi, t, v, ome)
        ps = [MyopicRwSampler(x, b, .2) for x, b in zip(thi, np.array(M.bounds_thi).T)]
        for _ in range(n):
            thi0 = np.array(thi, float)
            thi, z = mcmc.update_joint(thi, z, mod, mcmc.Controls(**kw), ps, ome)
            emit(dict(hid=(thi0,)), dict(hid=(np.array(thi, float),)), ['hid', 'par'])
        return
    M = sw.get(m)
    nr = 2 + i % 2
    t, v = sw.data(m, g, 5, 'irregular', 4.)
    base_mod = sw.mcmc_model(M, t, v, nr)

    def aug(thi, *a):
        steps.append(('hid', (np.array(thi, float),)))
        return M.sample_aug(thi, *a)

    def lik(thi, t_, y_, v_, restrict=None):
        if restrict is None:
            steps.append(('hid', (np.array(thi, float),)))
        else:
            steps.append(('par', (np.array(t_), np.array(y_), np.array(v_))))
        return M.eval_biased_log_lik(thi, t_, y_, v_, restrict)
    mod = base_mod._replace(sample_aug=aug, eval_biased_loglik=lik)
    thi = np.repeat(np.array([M.init_thi], float), nr, 0)
    lam = smc.mjp_inf.get_ev(*mod.hyper_lam)
    y = sample_forwards(t[-1], None, lam, ome)
    z, h = M.sample_aug(thi, y, t, v, ome)
    ps, rs = [MyopicMvRwSampler(M.init_thi, M.bounds_thi, .2) for _ in range(nr)], MyopicMjpSampler(y, .2)
    propose = rs.propose

    def tell(lam_, *a):
        steps.append(('prop', (np.array(lam_, float),)))
        return propose(lam_, *a)
    rs.propose = tell
    for _ in range(n):
        old = dict(hid=(np.array(thi, float),), prop=(np.array(lam, float),), par=(np.array(h.t), np.array(h.yt), np.array(h.vt)))
        thi, lam, z, h = smc.update_joint(thi, lam, z, h, mod, smc.Controls(**kw), ps, rs, ome)
        new = dict(hid=(np.array(thi, float),), prop=(np.array(lam, float),), par=(np.array(h.t), np.array(h.yt), np.array(h.vt)))
        emit(old, new, ['hid', 'par', 'prop'])


CONF = [dict(precoin=True, pr_portkey=.01, ea_batch_size=10), dict(precoin=False, pr_portkey=.01, ea_batch_size=2),
        dict(precoin=True, pr_portkey=.3, ea_batch_size=4), dict(precoin=False, pr_portkey=.2, ea_batch_size=10)]


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = [('order:%s%d' % (m, i), sweep_job, dict(seed=seed, m=m, i=i, n=40 if q else 400), 300 if q else 3600)
          for i in range(4) for m in (*sw.NAMES, 'plain')]
    for i in range(4 if q else 16):
        for k, m in enumerate(sw.NAMES):
            js.append(('switching:%s%d' % (m, i), switching, dict(seed=seed, m=m, i=i, n=3000 if q else 20000, secs=40 if q else 1200, K=(6, 6, 4, 3)[i % 4],
                                                                 nr=2 + (i % 4 == 3), nobs=2 + i % 4, own=bool((i // 2 + k) % 2), kw=CONF[(i + k) % 4]), 300 if q else 3600))
        js.append(('plain:%d' % i, plain, dict(seed=seed, i=i, n=6000 if q else 40000, secs=40 if q else 1200, K=(6, 4, 3, 3)[i % 4], nobs=2 + i % 4,
                                               own=bool(i // 2 % 2), kw=CONF[i % 4]), 300 if q else 3600))
    return js
