"""C15: hidden path updates."""
import numpy as np

import sw
import toy
from lib import fx, fxs, ints, ranks, rng_for
from props.c14 import Enc

LEVEL = 'model_checking'
TRACE = 'Trace_HiddenUpdate'
CHUNKS = 6
SLACK = .3
ASSUMPTIONS = ['acceptance laws are checked on models with constant rates and random drift terms, path laws on a rate linear in the path; '
               'the shipped models are checked for whole sections and kept points, their law in C24',
               'the proposal of an update is what the model\'s sample_aug returned during it']


def models(tier):
    return [dict(spec='MC_HiddenUpdate', cfg='MC_HiddenUpdate' if tier == 'quick' else 'MC_HiddenUpdate_big',
                 checks='TypeOk Stays Whole; invariance of prior times likelihood under section-wise sweeps in exact arithmetic')]


class Reg:
    """Stands in for the regime proposals: fixed path and conditioning times, or the real ones, noted."""

    def __init__(self, inner=None, y=None, cond=None):
        self.inner, self.y, self.cond, self.told = inner, y, cond, []

    def propose(self, lam, t, ome):
        if self.inner is not None:
            self.y, self.cond = self.inner.propose(lam, t, ome)
        return self.y, self.cond

    def adapt(self, y, prob):
        self.told.append((y, prob))
        if self.inner is not None:
            self.inner.adapt(y, prob)


def spy(mod):
    got = []

    def sample_aug(*a, **k):
        r = mod.sample_aug(*a, **k)
        got.append(r)
        return r
    return mod._replace(sample_aug=sample_aug), got


def hid(out, nil, prime, res, reg):
    e = Enc()
    rt = ranks(nil[1].t, prime[1].t, res[1].t, reg.cond, *[y.t for y, _ in reg.told])

    def enc(zh, t):
        z, h = zh
        return dict(t=t, y=ints(h.yt), v=[e(x) for x in h.vt],
                    z=[[[e(a), e(b)] for a, b in zip(q.s, q.z)] + [[0, e([q.tight_z, q.loose_z])]] for q in z])
    out.append(dict(ev='Hid', nil=enc(nil, rt[0]), prime=enc(prime, rt[1]), res=enc(res, rt[2]), cond=rt[3],
                    told=[dict(t=rt[4 + k], y=ints(y.xt), prob=fx(p)) for k, (y, p) in enumerate(reg.told)]))


def sde(out, old, prime, res):
    e = Enc()
    out.append(dict(ev='Sde', old=e.seeds(old), prime=e.seeds(prime), res=e.seeds(res),
                    lay0=e.layers(old), lay1=e.layers(prime), lay=e.layers(res)))


def sw_chain(out, seed, name, i, n):
    from ctbayes.misc.adapt import MyopicMjpSampler
    from ctbayes.mjplib.skeleton import sample_forwards
    from ctbayes.switching import mcmc
    from joblib import Parallel
    g = rng_for(seed, 'c15sw', name, i)
    m = sw.get(name)
    nr = int(g.choice([2, 3]))
    t, v = sw.data(name, g, int(g.choice([2, 4, 8, 12])), str(g.choice(['regular', 'tight', 'irregular'])))
    mod, got = spy(sw.mcmc_model(m, t, v, nr))
    ctrl = mcmc.Controls(pr_portkey=float(g.choice([.01, .3])), precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    thi = g.uniform(.6, 1.6, (nr, 2))
    lam = g.uniform(.2, 1., (nr, nr))
    np.fill_diagonal(lam, 0.)
    np.fill_diagonal(lam, -lam.sum(1))
    y = sample_forwards(t[-1], None, lam, g)
    z, h = m.sample_aug(thi, y, t, v, g)
    reg = Reg(MyopicMjpSampler(y, .2))
    out.append({'ev': 'Begin', 'id': 'sw chain %s %d' % (name, i)})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            reg.told = []
            got.clear()
            z2, h2 = mcmc.update_hidden(thi, lam, z, h, mod, ctrl, reg, g, pool)
            hid(out, (z, h), got[-1], (z2, h2), reg)
            z, h = z2, h2


def ito_chain(out, seed, i, n):
    from ctbayes.ito import mcmc
    from ctbayes.ito.models import ou
    from joblib import Parallel
    g = rng_for(seed, 'c15ito', i)
    t, v = sw.data('ou', g, int(g.choice([2, 4, 9])), str(g.choice(['regular', 'tight', 'irregular'])))
    mod, got = spy(mcmc.Model(t, v, ou.bounds_thi, ou.eval_log_prior, ou.sample_aug, ou.gen_normops, ou.eval_biased_log_lik,
                              ou.eval_disc, ou.eval_bounds_disc, ou.eval_bounds_grad))
    ctrl = mcmc.Controls(pr_portkey=float(g.choice([.01, .3])), ea_batch_size=int(g.choice([1, 2, 10])))
    thi = g.uniform(.5, 2., 2)
    z = mod.sample_aug(thi, t, v, g)
    out.append({'ev': 'Begin', 'id': 'ito chain %d' % i})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            got.clear()
            z2 = mcmc.update_sde(thi, z, mod, ctrl, g, pool)
            sde(out, z, got[-1], z2)
            z = z2
            if k % 5 == 4:
                thi = g.uniform(.5, 2., 2)


def pieces(t, y, ia, ib, v):
    """Observation intervals ia..ib-1 as pieces of constant regime."""
    from ctbayes.mjplib.skeleton import partition_skeleton
    part = partition_skeleton(y, t[1:-1])
    return [dict(d=fx(v[k + 1] - v[k]), p=[[fx(a), int(b)] for a, b in zip(np.diff(np.append(part[k].t, part[k].fin_t)), part[k].xt)])
            for k in range(ia, ib)]


def paths(g, t, cond_i, nr, style):
    """Two regime paths that agree at the conditioning times."""
    from ctbayes.mjplib.skeleton import Skeleton
    ends = [0] + list(cond_i) + [len(t) - 1]
    at = [int(g.integers(nr)) for _ in ends]
    res = []
    for _ in range(2):
        tt, xx = [], []
        for s in range(len(ends) - 1):
            a, b = t[ends[s]], t[ends[s + 1]]
            x0, x1 = at[s], at[s + 1]
            if s == 0:
                x0 = int(g.integers(nr))
            if s == len(ends) - 2:
                x1 = int(g.integers(nr))
            n = int(g.integers(0, 3))
            seq = [x0]
            for _ in range(n):
                seq.append(int(g.integers(nr)))
            seq.append(x1)
            cut = np.round(a + (b - a) * np.sort(g.uniform(.03, .97, len(seq) - 1)), 5)
            tt += [a] + list(cut)
            xx += seq
        tt, xx = np.array(tt), np.array(xx)
        keep = np.hstack([True, xx[1:] != xx[:-1]])
        res.append(Skeleton(tt[keep], xx[keep], t[-1]))
    return res


def sw_law(out, seed, i, n, nev=10):
    from ctbayes.switching import mcmc
    from joblib import Parallel
    g = rng_for(seed, 'c15swlaw', i)
    nr = int(g.choice([2, 3]))
    nobs = int(g.choice([2, 3, 4]))
    t = np.round(np.append(0, np.cumsum(g.uniform(.4, 1., nobs - 1))), 4) + 1e-7
    t[0] = 0.
    v = np.round(g.normal(scale=.7, size=nobs), 4)
    thi = np.round(np.stack([g.uniform(-1., 1., nr), g.uniform(.6, 1.4, nr)], 1), 4)
    cond_i = [k for k in range(1, nobs - 1) if g.uniform() < .6][:2]
    y_nil, y_prime = paths(g, t, cond_i, nr, None)
    base = toy.sw_model('const', t, v, [0, 0], nr)
    pk = float(g.choice([0., .05, .4]))
    ctrl = mcmc.Controls(pr_portkey=pk, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    mod, got = spy(base)
    lam = np.full((nr, nr), 1. / (nr - 1)) - np.eye(nr) * (1 + 1. / (nr - 1))
    cond = t[np.array(cond_i, int)]
    cuts = [0] + list(cond_i) + [nobs - 1]
    ns = len(cuts) - 1
    cnt, both = np.zeros(ns, int), 0
    out.append({'ev': 'Begin', 'id': 'sw law %d' % i})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            z, h = base.sample_aug(thi, y_nil, t, v, g)
            reg = Reg(y=y_prime, cond=cond)
            got.clear()
            z2, h2 = mcmc.update_hidden(thi, lam, z, h, mod, ctrl, reg, g, pool)
            if k < nev:
                hid(out, (z, h), got[-1], (z2, h2), reg)
            # a replaced section shows by the first random point of its first interval
            new = set((float(a), float(b)) for q in got[-1][0] for a, b in zip(q.s, q.z) if 0 < a < 1)
            acc = []
            for s in range(ns):
                j = int(np.searchsorted(h2.t, t[cuts[s]] - 1e-12))
                acc.append(any((float(a), float(b)) in new for a, b in zip(z2[j].s, z2[j].z) if 0 < a < 1))
            cnt += acc
            both += ns > 1 and acc[0] and acc[1]
    out.append(dict(ev='SecLaw', th=[fxs(x) for x in thi], pk=fx(pk), pre=ctrl.precoin, slack=fx(SLACK), n=n, cnt=cnt.tolist(), both=int(both),
                    nil=[pieces(t, y_nil, cuts[s], cuts[s + 1], v) for s in range(ns)],
                    prime=[pieces(t, y_prime, cuts[s], cuts[s + 1], v) for s in range(ns)]))


def ito_law(out, seed, i, n, nev=10):
    from ctbayes.ito import mcmc
    from joblib import Parallel
    g = rng_for(seed, 'c15itolaw', i)
    t = np.round(np.append(0, np.cumsum(g.uniform(.3, 2., 3))), 4)
    v = g.normal(scale=.7, size=4)
    thi = np.array([g.uniform(-1., 1.), g.uniform(.6, 1.4)])
    base = toy.ito_model('const', t, v, [0, 0])
    mod, got = spy(base)
    pk = float(g.choice([0., .1, .5]))
    ctrl = mcmc.Controls(pr_portkey=pk, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    cnt, both = np.zeros(3, int), 0
    out.append({'ev': 'Begin', 'id': 'ito law %d' % i})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            z = base.sample_aug(thi, t, v, g)
            got.clear()
            z2 = mcmc.update_sde(thi, z, mod, ctrl, g, pool)
            if k < nev:
                sde(out, z, got[-1], z2)
            acc = [any(b in set(p.z) for a, b in zip(q.s, q.z) if 0 < a < 1) for p, q in zip(got[-1], z2)]
            cnt += acc
            both += acc[0] and acc[1]
    out.append(dict(ev='SdeLaw', dt=fxs(np.diff(t)), pk=fx(pk), slack=fx(SLACK), n=n, cnt=cnt.tolist(), both=int(both)))


def tilt(out, seed, sp, i, n, burn):
    """The law of the path after many updates with a rate linear in the path."""
    from ctbayes.ea3lib import seed as sde_seed
    from ctbayes.ito import mcmc as ito
    from ctbayes.mjplib.skeleton import Skeleton
    from ctbayes.switching import mcmc as swm
    from joblib import Parallel
    g = rng_for(seed, 'c15tilt', sp, i)
    t = np.round(np.append(0, np.cumsum(g.uniform(.5, .9, 2))), 4)
    v = np.round(g.normal(scale=.3, size=3), 4)
    thi = np.round(np.array([g.choice([-1, 1]) * g.uniform(.7, 1.2), g.uniform(.8, 1.2)]), 4)
    kw = dict(pr_portkey=float(g.choice([.1, .3])), precoin=bool(i % 2), ea_batch_size=10)
    out.append({'ev': 'Begin', 'id': 'tilt %s %d' % (sp, i)})
    tau = [round(float(d) * f, 4) for d, f in zip(np.diff(t), g.choice([.25, .5, .7], 2))]
    xs = [[], []]
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            if sp == 'ito':
                mod = toy.ito_model('lin', t, v, [0, 0])
                z = mod.sample_aug(thi, t, v, g)
                for _ in range(burn):
                    z = ito.update_sde(thi, z, mod, ito.Controls(**kw), g, pool)
                ops = mod.gen_normops(thi, t, v)
            else:
                th2 = np.repeat(thi[None], 2, 0)
                mod = toy.sw_model('lin', t, v, [0, 0], 2)
                y = Skeleton(np.array([0.]), np.array([0]), t[-1])
                z, h = mod.sample_aug(th2, y, t, v, g)
                for j in range(burn):
                    reg = Reg(y=y, cond=t[1:-1] if j % 2 else t[:0])
                    z, h = swm.update_hidden(th2, np.array([[-1., 1.], [1., -1.]]), z, h, mod, swm.Controls(**kw), reg, g, pool)
                ops = mod.gen_normops(th2, *h)
            for q in range(2):
                xs[q].append(float(sde_seed.interpolate_seed(z[q], np.array([tau[q]]), *ops[q], g)[1][0]))
    for q in range(2):
        a, s = (thi[0], 1.) if sp == 'ito' else (thi[0], thi[1])
        x0, x1 = (v[q] / thi[1], v[q + 1] / thi[1]) if sp == 'ito' else (v[q], v[q + 1])
        c = np.round(np.quantile(xs[q], [.1, .35, .6, .85]), 5) + 5e-6
        out.append(dict(ev='TiltLaw', sp=sp, dt=fx(t[q + 1] - t[q]), tau=fx(tau[q]), x0=fx(x0), x1=fx(x1), a=fx(a), s=fx(s), c=fxs(c),
                        cnt=[int((np.array(xs[q]) <= w).sum()) for w in c], n=n))


def lay_law(out, seed, sp, i, n):
    """Constant rate with a lower level that depends on the layer: the outcome must not prefer layers."""
    from ctbayes.ea3lib import seed as sde_seed
    from ctbayes.ito import mcmc as ito
    from ctbayes.mjplib.skeleton import Skeleton
    from ctbayes.switching import mcmc as swm
    from joblib import Parallel
    g = rng_for(seed, 'c15lay', sp, i)
    t = np.round(np.array([0., g.uniform(.6, 1.2)]), 4)
    v = np.round(g.normal(scale=.3, size=2), 4)
    thi = np.array([round(g.uniform(-1., 1.), 3), 1.])
    pk = float(g.choice([0., .05, .3]))
    kw = dict(pr_portkey=pk, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2, 10])))
    th2 = np.repeat(thi[None], 2, 0)
    y = Skeleton(np.array([0.]), np.array([0]), t[-1])

    def cls(mod, z):
        """Which lower level the path has, by the same argument as the weights: its integral."""
        if sp == 'ito':
            (op, inv), = mod.gen_normops(thi, t, v)
            b = mod.eval_bounds_disc(thi)
        else:
            (op, inv), = mod.gen_normops(th2, t, np.array([0, 0]), v)
            b = mod.eval_bounds_disc(th2, 0)
        d = sde_seed.integrate_disc_bound(z, op, inv, b) / t[-1] + thi[0] ** 2 / 2
        return int(np.argmin(np.abs(np.array(toy.LAY) - d)))

    mk = toy.ito_model if sp == 'ito' else toy.sw_model
    draw = (lambda mod: mod.sample_aug(thi, t, v, g)) if sp == 'ito' else (lambda mod: mod.sample_aug(th2, y, t, v, g))
    base = mk(('lay', 1.), t, v, [0, 0])
    widths = []

    def note(le, ue):
        widths.append(ue - le)
        return 0., 0., 0.
    for _ in range(40):
        z = draw(base)
        z = z if sp == 'ito' else z[0]
        op, inv = (base.gen_normops(thi, t, v) if sp == 'ito' else base.gen_normops(th2, t, np.array([0, 0]), v))[0]
        sde_seed.integrate_disc_bound(z[0], op, inv, note)
    base = mk(('lay', float(np.median(widths))), t, v, [0, 0])
    mod, got = spy(base)
    cnt, tot = np.zeros((2, 2), int), np.zeros((2, 2), int)
    out.append({'ev': 'Begin', 'id': 'lay law %s %d' % (sp, i)})
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            got.clear()
            if sp == 'ito':
                z = draw(base)
                z2 = ito.update_sde(thi, z, mod, ito.Controls(**kw), g, pool)
                zp = got[-1]
            else:
                z, h = draw(base)
                z2, h2 = swm.update_hidden(th2, np.array([[-1., 1.], [1., -1.]]), z, h, mod, swm.Controls(**kw), Reg(y=y, cond=t[:0]), g, pool)
                zp = got[-1][0]
            a, b = cls(base, z[0]), cls(base, zp[0])
            tot[a, b] += 1
            cnt[a, b] += any(x in set(zp[0].z) for u, x in zip(z2[0].s, z2[0].z) if 0 < u < 1)
    out.append(dict(ev='LayLaw', dt=fx(t[1]), pk=fx(pk), pre=sp == 'sw' and kw['precoin'], gap=fxs(toy.LAY), cnt=cnt.tolist(), n=tot.tolist()))


def kept_points(out, seed, sp, i, n):
    """Values that the coins looked at: those outside the layer of the path that lost belong to the path that won."""
    from ctbayes.ito import mcmc as ito
    from ctbayes.mjplib.skeleton import Skeleton
    from ctbayes.switching import mcmc as swm
    from joblib import Parallel
    from lib import tranks
    g = rng_for(seed, 'c15kept', sp, i)
    out.append({'ev': 'Begin', 'id': 'kept points %s %d' % (sp, i)})
    t = np.array([0., 1.])
    v = np.repeat(np.round(g.normal(scale=.3), 4), 2)
    thi = np.array([g.choice([-1, 1]) * 2.5, 1.])
    kw = dict(pr_portkey=0. if i % 2 else .3, precoin=bool(i % 2), ea_batch_size=int(g.choice([1, 2])))
    th2 = np.repeat(thi[None], 2, 0)
    y = Skeleton(np.array([0.]), np.array([0]), 1.)
    base = toy.ito_model('lin', t, v, [0, 0]) if sp == 'ito' else toy.sw_model('lin', t, v, [0, 0], 2)
    with Parallel(1, 'loky') as pool:
        for k in range(n):
            mod, got = spy(base)
            mod, look = toy.Lookout.on(mod, sp != 'ito')
            if sp == 'ito':
                z = base.sample_aug(thi, t, v, g)
                z2 = ito.update_sde(thi, z, mod, ito.Controls(**kw), g, pool)
                zp, th, h2 = got[-1], thi, None
            else:
                z, h = base.sample_aug(th2, y, t, v, g)
                z2, h2 = swm.update_hidden(th2, np.array([[-1., 1.], [1., -1.]]), z, h, mod, swm.Controls(**kw), Reg(y=y, cond=t[:0]), g, pool)
                zp, th = got[-1][0], th2
            (_, inv), = base.gen_normops(th, t, v) if sp == 'ito' else base.gen_normops(th, *h2)
            lay = [sorted(float(inv(np.array([0.]), np.array([q]))[1][0]) for q in (w[0].tight_z, w[0].loose_z)) for w in (z, zp)]
            same = [w[0].tight_z == z2[0].tight_z and w[0].loose_z == z2[0].loose_z for w in (z, zp)]
            r = tranks([x for _, x in look.at(th)], [x for _, x in toy.held(base, th, z2, h2)], lay[0], lay[1], tol=1e-9)
            out.append(dict(ev='Kept', looked=sorted(set(r[0])), held=sorted(set(r[1])), nil=r[2], prime=r[3], isnil=bool(same[0]), isprime=bool(same[1])))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    for i in range(8 if q else 40):
        js.append(('swlaw:%d' % i, sw_law, dict(seed=seed, i=i, n=1500 if q else 12000), 300 if q else 1500))
    for i in range(4 if q else 10):
        js.append(('itolaw:%d' % i, ito_law, dict(seed=seed, i=i, n=1500 if q else 12000), 300 if q else 1500))
    for i in range(3 if q else 10):
        for sp in ['ito', 'sw']:
            js.append(('lay%s:%d' % (sp, i), lay_law, dict(seed=seed, sp=sp, i=i, n=1500 if q else 12000), 300 if q else 1500))
    for i in range(2 if q else 10):
        js.append(('tiltito:%d' % i, tilt, dict(seed=seed, sp='ito', i=i, n=250 if q else 6000, burn=5), 300 if q else 1500))
        js.append(('tiltsw:%d' % i, tilt, dict(seed=seed, sp='sw', i=i, n=200 if q else 6000, burn=4), 300 if q else 1500))
    for i in range(3 if q else 16):
        js.append(('ito:%d' % i, ito_chain, dict(seed=seed, i=i, n=60 if q else 600), 300))
    for name in sw.NAMES:
        for i in range(2 if q else 10):
            js.append(('sw:%s%d' % (name, i), sw_chain, dict(seed=seed, name=name, i=i, n=25 if q else 200), 300))
    js += [('kept:%s%d' % (sp, i), kept_points, dict(seed=seed, sp=sp, i=i, n=60 if q else 400), 300) for sp in ('ito', 'sw') for i in range(4 if q else 10)]
    return js
