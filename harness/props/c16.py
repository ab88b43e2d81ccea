"""C16: the EM estimators."""
import numpy as np

import sw
import toy
from lib import NINF, PINF, fx, fxm, fxs, rng_for
from props.c14 import Enc

LEVEL = 'model_checking'
TRACE = 'Trace_EmProtocol'
CHUNKS = 6
ASSUMPTIONS = ['a hidden state counts as latest from the last kept one on (kept states may lie anywhere within their block of sweeps)',
               'optimality is checked against neighbours of the returned parameter on models with explicit objective; '
               'log likelihoods entering the objective of the shipped models are taken from the model (C20)']


def models(tier):
    return [dict(spec='MC_EmProtocol', cfg='MC_EmProtocol' if tier == 'quick' else 'MC_EmProtocol_big',
                 checks='LatestParam KeptEvery Full StopRule Ends; schedule growth and closed-form generator step')]


def bnd(b, d):
    lo, hi = b
    f = lambda a, s: [s] * d if a is None else [fx(x) if np.isfinite(x) else s for x in a]
    return f(lo, NINF), f(hi, PINF)


def clip(b, buf):
    """The starting point of the optimiser: inside the buffered bounds."""
    def f(x):
        x = np.array(x, float)
        for k in range(len(x)):
            lo, hi = -np.inf if b[0] is None else b[0][k], np.inf if b[1] is None else b[1][k]
            d = min((hi - lo) / 2, buf)
            x[k] = min(max(x[k], lo + d), hi - d)
        return x
    return f


class Spy:
    """A model whose callables note what the estimator asks."""

    def __init__(self, mod, out, t, switching):
        self.out, self.t, self.sw, self.e = out, t, switching, Enc()
        self.born, self.k, self.lo, self.hi, self.disc = {}, -1, None, None, []

        def sample_aug(thi, *a, **k):
            r = mod.sample_aug(thi, *a, **k)
            self.k += 1
            for q in (self.firsts(*r) if switching else r):
                for u, x in zip(q.s, q.z):
                    if 0 < u < 1:
                        self.born[float(u), float(x)] = self.k
            out.append(dict(ev='Aug', tid=self.e(thi), n=len(t) - 1))
            return r

        def seen(thi):
            a = np.atleast_2d(np.asarray(thi, float))
            lo, hi = a.min(0), a.max(0)
            self.lo = lo if self.lo is None else np.minimum(self.lo, lo)
            self.hi = hi if self.hi is None else np.maximum(self.hi, hi)

        def prior(thi):
            seen(thi)
            return mod.eval_log_prior(thi)

        def loglik(thi, *a, **k):
            seen(thi)
            return mod.eval_biased_loglik(thi, *a, **k)

        def disc(thi, *a):
            if not a:
                return lambda *b: disc(thi, *b)
            if switching and len(a) < 2:
                return lambda *b: disc(thi, *a, *b)
            v = mod.eval_disc(thi, *a)
            self.disc.append((np.asarray(thi, float).tobytes(), np.size(a[-1]), float(np.mean(v)) if np.size(v) else np.nan))
            return v
        self.mod = mod._replace(sample_aug=sample_aug, eval_log_prior=prior, eval_biased_loglik=loglik, eval_disc=disc)

    def firsts(self, z, h):
        return [z[int(np.argmin(np.abs(h.t - a)))] for a in self.t[:-1]]

    def origin(self, q):
        o = {self.born[u, x] for u, x in zip(map(float, q.s), map(float, q.z)) if (u, x) in self.born}
        return o.pop() if len(o) == 1 else -1

    def reset(self):
        self.lo, self.hi, self.disc = None, None, []


def patched_regimes(spy):
    """Note the generators regime paths are proposed with, where the proposal class allows."""
    from ctbayes.misc import adapt
    cls = getattr(adapt, 'MyopicMjpSampler', None)
    orig = getattr(cls, 'propose', None)
    if orig is None:
        return lambda: None

    def propose(self, lam, *a, **k):
        spy.lams.append(spy.e(lam))
        spy.out.append(dict(ev='Lam', lid=spy.lams[-1]))
        return orig(self, lam, *a, **k)
    cls.propose = propose

    def undo():
        cls.propose = orig
    return undo


def run(out, spy, mcem, ctrl, init, switching, maxit, each, lam0=None):
    lb, ub = bnd(spy.mod.bounds_thi, len(init))
    tid0 = spy.e(np.repeat(np.asarray(init, float)[None], lam0.shape[0], 0) if switching else init)
    out.append(dict(ev='Start', tid=tid0, lid=spy.e(lam0) if switching else 0, thin=ctrl['n_thin_mcmc'], lr=fx(ctrl['learning_rate']),
                    ftol=fx(ctrl['ftol']), buf=fx(ctrl['bound_buffer']), lb=lb, ub=ub))
    spy.lams = []
    undo = patched_regimes(spy) if switching else lambda: None
    res = None
    try:
        gen = mcem.maximize_posterior(np.asarray(init), spy.mod, mcem.Controls(**ctrl), spy.ome)
        for it in range(maxit + 1):
            spy.reset()
            res = next(gen, None)
            if res is None:
                out.append(dict(ev='Stop'))
                out.append(dict(ev='Fits'))
                break
            if switching:
                obj, thi, lam, zz, hh = res
                org = [[spy.origin(q) for q in spy.firsts(z, h)] for z, h in zip(zz, hh)]
            else:
                obj, thi, zz = res
                lam, org = None, [[spy.origin(q) for q in z] for z in zz]
            out.append(dict(ev='Yield', obj=fx(obj), thi=fxm(np.atleast_2d(thi)), tid=spy.e(thi), lid=spy.e(lam) if switching else 0,
                            org=org, lo=fxs(spy.lo), hi=fxs(spy.hi)))
            each(it, res)
            if it == maxit:
                out.append(dict(ev='Fits'))
                break
    finally:
        undo()
    return res


def ito_run(out, seed, i, kind, tol):
    from ctbayes.ito import mcem
    g = rng_for(seed, 'c16ito', kind, i, str(tol))
    n = int(g.integers(3, 7))
    dt = round(float(g.uniform(.3, 1.2)), 3)
    t = np.arange(n) * dt
    if kind == 'const':
        v = np.round(np.append(0, np.cumsum(g.normal(.1, .7, n - 1))), 4)
        rate = np.round(g.uniform(0, .4, 2), 3)
        mod = toy.ito_model('const', t, v, rate)
        if i % 3 == 1:
            mod = mod._replace(bounds_thi=(np.array([-.15, .3]), np.array([.1, .8])))
        if i % 3 == 2:
            mod = mod._replace(bounds_thi=(np.array([-np.inf, .05]), None))
        mod, init = mcem.Model(*mod[:-1]), np.array([0., .6])
    else:
        import importlib
        m = importlib.import_module('ctbayes.ito.models.' + kind)
        v = g.uniform(.5, 2., n) if kind == 'cir' else g.normal(scale=.7, size=n)
        mod = mcem.Model(t, v, (np.array([0., 0.]), np.array([3., 3.])), m.eval_log_prior, m.sample_aug, m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)
        init = m.init_thi
    out.append({'ev': 'Begin', 'id': 'ito %s %d %g' % (kind, i, tol)})
    spy = Spy(mod, out, t, False)
    spy.ome = g
    ctrl = dict(n_thin_mcmc=int(g.choice([1, 2, 3])), n_disc_supports=int(g.choice([1, 2, 4])), learning_rate=float(g.choice([1., 1.5, 2.])),
                ftol=tol, bound_buffer=float(g.choice([.01, .03])))
    lb, ub = bnd(mod.bounds_thi, len(init))

    seen, frm = [np.asarray(init, float).tobytes()], [np.array(init, float)]
    inside = clip(mod.bounds_thi, ctrl['bound_buffer'])

    def each(it, res):
        obj, thi, zz = res
        key = np.asarray(thi, float).tobytes()
        at = [(s, d) for k, s, d in spy.disc if k == key]
        moved, seen[0] = key != seen[0], key
        if at and moved and abs(obj) < 500 and max(abs(d) for _, d in at) * t[-1] < 500:          # else the same parameter was also used in sweeps
            out.append(dict(ev='Obj', obj=fx(obj), ll=fx(mod.eval_biased_loglik(thi, t, v)), lp=fx(mod.eval_log_prior(thi)), time=fx(t[-1]),
                            disc=fx(np.mean([d for _, d in at])), sizes=sorted({s for s, _ in at}), supports=ctrl['n_disc_supports']))
        start, frm[0] = frm[0], np.array(thi)
        if kind == 'const' and tol < 1e-4:
            out.append(dict(ev='ItoFit', obj=fx(obj), **{'from': fxs(inside(start))}, thi=fxs(thi), r=fxs(rate), d=[[fx(a), fx(b)] for a, b in zip(np.diff(t), np.diff(v))],
                            lb=lb, ub=ub, buf=fx(ctrl['bound_buffer'])))
    run(out, spy, mcem, ctrl, init, False, 3 if kind != 'const' else 4 if tol < 1e-4 else 7, each)


def path_stats(h, nr):
    """Moves and times of a regime path, read off the anchors."""
    mv = np.zeros((nr, nr), int)
    for a, b in zip(h.yt, h.yt[1:]):
        mv[int(a), int(b)] += a != b
    hold = np.zeros(nr)
    for d, a in zip(np.diff(h.t), h.yt):
        hold[int(a)] += d
    return mv.tolist(), fxs(hold)


def sw_run(out, seed, i, kind, tol):
    from ctbayes.switching import mcem
    g = rng_for(seed, 'c16sw', kind, i, str(tol))
    nr = int(g.choice([2, 3]))
    n = int(g.integers(4, 7))
    a0, b0 = float(g.choice([1.5, 2.])), float(g.choice([.5, 1., 2.]))
    if kind == 'const':
        t = np.round(np.append(0, np.cumsum(g.uniform(.3, 1., n - 1))), 3)
        v = np.round(np.cumsum(g.normal(scale=.7, size=n)), 4)
        mod = toy.sw_model('const', t, v, [0, 0], nr, a0, b0)
        mod = mod._replace(bounds_thi=(np.array([-1., .2]), np.array([1., 2.])))
        mod, init = mcem.Model(*mod[:-1]), np.array([.1, .7])
    else:
        t, v = sw.data(kind, g, n, 'regular', 3.)
        m = sw.get(kind)
        mod, init = mcem.Model(*sw.mcmc_model(m, t, v, nr, a0, b0)[:-1]), m.init_thi
        mod = mod._replace(bounds_thi=(np.array([0., 0.]), np.array([3., 3.])))
    out.append({'ev': 'Begin', 'id': 'switching %s %d %g' % (kind, i, tol)})
    spy = Spy(mod, out, t, True)
    spy.ome = g
    ctrl = dict(n_thin_mcmc=int(g.choice([1, 2, 3])), n_disc_supports=int(g.choice([1, 2, 4])), learning_rate=float(g.choice([1., 1.5])),
                ftol=tol, bound_buffer=float(g.choice([.01, .03])))
    lb, ub = bnd(mod.bounds_thi, len(init))
    frm, inside = [np.repeat(np.array(init, float)[None], nr, 0)], clip(mod.bounds_thi, ctrl['bound_buffer'])
    lam0 = np.full((nr, nr), a0 / b0)
    np.fill_diagonal(lam0, 0)
    np.fill_diagonal(lam0, -lam0.sum(1))

    def each(it, res):
        obj, thi, lam, zz, hh = res
        st = [path_stats(h, nr) for h in hh]
        rec = dict(ev='Gen', lam=fxm(lam), mv=[s[0] for s in st], hold=[s[1] for s in st], a0=fx(a0), b0=fx(b0))
        start, frm[0] = frm[0], np.array(thi)
        if kind == 'const' and tol < 1e-4 and all(np.diff(h.t).min() > 2e-3 for h in hh):
            rec.update(ev='SwFit', obj=fx(obj), **{'from': fxm([inside(r) for r in start])}, thi=fxm(thi), lb=lb, ub=ub, buf=fx(ctrl['bound_buffer']),
                       d=[[[fx(a), fx(b), int(c)] for a, b, c in zip(np.diff(h.t), np.diff(h.vt), h.yt)] for h in hh])
        out.append(rec)
    run(out, spy, mcem, ctrl, init, True, 3 if kind != 'const' or tol < 1e-4 else 7, each, lam0)


def se_run(out, seed, i):
    """Standard errors on the model with constant rates, from many hidden states at a given parameter."""
    from joblib import Parallel
    from ctbayes.mjplib.skeleton import sample_forwards
    from ctbayes.switching import mcem
    g = rng_for(seed, 'c16se', i)
    n, nr, K = 12, 2, 5
    t = np.round(np.append(0, np.cumsum(g.uniform(.3, 1., n - 1))), 3)
    v = np.round(np.append(0, np.cumsum(g.normal(scale=.95 * np.sqrt(np.diff(t))))), 4)
    base = toy.sw_model('const', t, v, [0, 0], nr)._replace(bounds_thi=(np.array([-2., .1]), np.array([2., 3.])))
    mod = mcem.Model(*base[:-1])
    thi = np.round(np.stack([g.uniform(-.5, .5, nr), g.uniform(.7, 1.2, nr)], 1), 3)
    if i % 4 == 3:
        thi[0, 1] = .1 + .05
    lam = np.array([[-.3, .3], [.3, -.3]])
    out.append({'ev': 'Begin', 'id': 'standard errors %d' % i})
    zz, hh = zip(*[mod.sample_aug(thi, sample_forwards(t[-1], None, lam, g), t, v, g) for _ in range(K)])
    with Parallel(1, 'loky') as pool:
        se = mcem.est_se(thi, list(zz), list(hh), mod, mcem.Controls(bound_buffer=.05), g, pool)
    for r in range(nr):
        d = [[[fx(a), fx(b), int(c)] for a, b, c in zip(np.diff(h.t), np.diff(h.vt), h.yt) if int(c) == r] for h in hh]
        if not all(d):
            continue
        out.append(dict(ev='Se', thi=fxs(thi[r]), d=d, none=se[r] is None, edge=bool(abs(thi[r, 1] - .15) < 1e-9),
                        se=fxm(se[r]) if se[r] is not None else []))


def ito_se(out, seed, i):
    from joblib import Parallel
    from ctbayes.ito import mcem
    g = rng_for(seed, 'c16itose', i)
    n, K = 10, 3
    t = np.round(np.append(0, np.cumsum(g.uniform(.3, 1., n - 1))), 3)
    thi = np.array([round(g.uniform(-.5, .5), 3), round(g.uniform(.6, 1.2), 3)])
    v = np.round(np.append(0, np.cumsum(g.normal(scale=thi[1] * np.sqrt(np.diff(t))))), 4)
    mod = mcem.Model(*toy.ito_model('const', t, v, [0, 0])[:-1])
    if i % 3 == 2:
        mod = mod._replace(bounds_thi=(np.array([thi[0] - .05, .1]), np.array([2., 3.])))
        thi[0] = mod.bounds_thi[0][0] + .05
    out.append({'ev': 'Begin', 'id': 'ito standard errors %d' % i})
    zz = [mod.sample_aug(thi, t, v, g) for _ in range(K)]
    with Parallel(1, 'loky') as pool:
        se = mcem.est_se(thi, zz, mod, mcem.Controls(bound_buffer=.05), g, pool)
    out.append(dict(ev='ItoSe', thi=fxs(thi), d=[[fx(a), fx(b)] for a, b in zip(np.diff(t), np.diff(v))], none=se is None,
                    edge=i % 3 == 2, se=fxm(se) if se is not None else []))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    for i in range(6 if q else 24):
        for tol in [1e-6, .3, 2.]:
            js.append(('ito:const%d:%g' % (i, tol), ito_run, dict(seed=seed, i=i, kind='const', tol=tol), 200))
    for i in range(4 if q else 12):
        js.append(('ito:ou%d' % i, ito_run, dict(seed=seed, i=i, kind='ou', tol=.5), 300))
    for i in range(6 if q else 24):
        for tol in [1e-6, .7, 3.]:
            js.append(('sw:const%d:%g' % (i, tol), sw_run, dict(seed=seed, i=i, kind='const', tol=tol), 300))
    for name in sw.NAMES[:2 if q else 5]:
        for i in range(2 if q else 4):
            js.append(('sw:%s%d' % (name, i), sw_run, dict(seed=seed, i=i, kind=name, tol=1.), 600))
    for i in range(8 if q else 32):
        js.append(('se:%d' % i, se_run, dict(seed=seed, i=i), 200))
    for i in range(6 if q else 24):
        js.append(('itose:%d' % i, ito_se, dict(seed=seed, i=i), 200))
    return js
