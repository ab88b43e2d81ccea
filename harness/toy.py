"""Models whose acceptance probabilities are known in closed form: motion with constant drift, and the same data
model with a rate that is linear in the path instead of constant."""
import numpy as np
from toolz import curry

I = np.inf
LAY = (.2, 1.5)       # how far the rate of the layered kind is above its lower level, in narrow and in wide layers


class FixedProposal:
    """A proposal that always offers the same value and notes what it is told."""

    def __init__(self, state, prop, f, b):
        self.state, self.prop, self.f, self.b, self.told, self.asked = state, prop, f, b, [], 0

    def propose(self, ome):
        self.asked += 1
        return self.prop, self.f, self.b

    def adapt(self, sample, prob):
        self.told.append((sample, prob))


class Recorder:
    """Stands in for an adaptive proposal and notes proposals and outcomes."""

    def __init__(self, inner):
        self.inner, self.told, self.prop, self.asked = inner, [], None, 0

    def propose(self, ome):
        r = self.inner.propose(ome)
        self.prop, self.asked = r[0], self.asked + 1
        return r

    def adapt(self, sample, prob):
        self.told.append((np.array(sample).copy(), prob))
        return self.inner.adapt(sample, prob)

    def __getattr__(self, a):
        return getattr(self.inner, a)


class Lookout:
    """A rate function that notes the values it is asked about: entries (parameter, regime or None, values)."""

    def __init__(self, disc):
        self.disc, self.seen = disc, []

    def __call__(self, thi, *a):
        if len(a) == 0:
            return lambda *b: self(thi, *b)
        y, x = (a[0], a[1:]) if self.regimes else (None, a)
        if not x:
            return lambda q: self(thi, y, q)
        self.seen.append((np.array(thi, float), y, np.array(x[0], float).ravel()))
        return self.disc(thi, *a)

    @classmethod
    def on(cls, mod, regimes):
        s = cls(mod.eval_disc)
        s.regimes = regimes
        return mod._replace(eval_disc=s), s

    def at(self, thi):
        """values asked about under a parameter, by regime"""
        return [(y, float(v)) for p, y, x in self.seen if np.array_equal(p, thi) for v in x]


def held(mod, thi, z, h=None):
    """values of the path that are known, under a parameter, by regime"""
    ops = mod.gen_normops(thi, mod.t, mod.vt) if h is None else mod.gen_normops(thi, *h)
    ys = [None] * len(z) if h is None else [int(y) for y in h.yt[:-1]]
    return [(y, float(v)) for q, (_, inv), y in zip(z, ops, ys) for v in np.ravel(inv(np.asarray(q.s), np.asarray(q.z))[1])]


def looked(mod, spy, thi, z, h=None):
    """both, with values as tolerant ranks"""
    from lib import tranks
    a, b = spy.at(thi), held(mod, thi, z, h)
    ra, rb = tranks([v for _, v in a], [v for _, v in b], tol=1e-9)
    code = lambda y: 0 if y is None else int(y)
    return dict(looked=sorted({(code(y), r) for (y, _), r in zip(a, ra)}), held=sorted({(code(y), r) for (y, _), r in zip(b, rb)}))


def logprior(rate):
    def f(thi):
        thi = np.asarray(thi)
        return -float(np.sum(np.asarray(rate) * thi))
    return f


# ---------------------------------------------------------------- plain diffusion, x = v / thi[1], drift thi[0]
def ito_parts(kind):
    from ctbayes.ito import static
    reduce = curry(lambda thi, vt: vt / thi[1])
    dv = curry(lambda thi, vt: vt ** 0 / thi[1])
    dereduce = curry(lambda thi, xt: xt * thi[1])
    drift = curry(lambda thi, xt: thi[0] * xt ** 0)
    sx = curry(lambda thi, xt: thi[0] * xt)
    dx = curry(lambda thi, xt: 0. * xt)
    slack = .3

    @curry
    def bounds_disc(thi, le, ue):
        if kind == 'const':
            c = thi[0] ** 2 / 2
            return c - slack, c - slack, c + slack
        if isinstance(kind, tuple):                # constant rate, lower level by the width of the layer
            c = thi[0] ** 2 / 2
            d = LAY[0] if ue - le < kind[1] else LAY[1]
            return -I, c - d, c + .1
        a, b = sorted((thi[0] * le, thi[0] * ue))
        return -I, a, b

    @curry
    def bounds_grad(thi_nil, thi_prime, fin_t, v0, v1, lb_z, ub_z):
        if kind == 'const':
            return np.array([max(abs(thi_nil[0]), abs(thi_prime[0])) + .01, .2])
        lo = min(thi_nil[1], thi_prime[1])
        vm, zm = max(abs(v0), abs(v1)), max(abs(lb_z), abs(ub_z)) * np.sqrt(fin_t)
        return np.array([vm / lo + zm + .01, max(abs(thi_nil[0]), abs(thi_prime[0])) * vm / lo ** 2 + .01])
    disc, loglik, sample_aug, gen_normops, sample_sde, maxp, post = static.assemble_model(
        np.array([1., 1.]), (-I, I), (np.array([-I, 0.]), np.array([I, I])), reduce, dereduce, dv, drift, sx, dx,
        bounds_disc, bounds_grad, logprior([0, 0]))
    if kind == 'lin':
        disc = curry(lambda thi, xt: thi[0] * xt)
    return disc, loglik, sample_aug, gen_normops, bounds_disc, bounds_grad


def ito_model(kind, t, v, rate):
    from ctbayes.ito import mcmc
    disc, loglik, sample_aug, gen_normops, bounds_disc, bounds_grad = ito_parts(kind)
    return mcmc.Model(t=t, vt=v, bounds_thi=(np.array([-I, 0.]), np.array([I, I])), eval_log_prior=logprior(rate), sample_aug=sample_aug,
                      gen_normops=gen_normops, eval_biased_loglik=loglik, eval_disc=disc, eval_bounds_disc=bounds_disc,
                      eval_bounds_grad=bounds_grad)


# ---------------------------------------------------------------- switching: drift thi[y, 0], volatility thi[y, 1]
def sw_parts(kind):
    from ctbayes.switching import static
    vol = curry(lambda thi, yt: thi[yt, 1])
    drift = curry(lambda thi, yt, xt: thi[yt, 0] * xt ** 0)
    sx = curry(lambda thi, yt, xt: thi[yt, 0] * xt)
    dx = curry(lambda thi, yt, xt: 0. * xt)
    slack = .3

    @curry
    def bounds_disc(thi, y0, le, ue):
        if kind == 'const':
            c = (thi[y0, 0] / thi[y0, 1]) ** 2 / 2
            return c - slack, c - slack, c + slack
        if isinstance(kind, tuple):
            c = (thi[y0, 0] / thi[y0, 1]) ** 2 / 2
            d = LAY[0] if ue - le < kind[1] else LAY[1]
            return -I, c - d, c + .1
        a, b = sorted((thi[y0, 0] * le, thi[y0, 0] * ue))
        return -I, a, b

    @curry
    def bounds_grad(thi_nil, thi_prime, fin_t, v0, v1, lb_z, ub_z):
        hi = np.maximum(np.abs(thi_nil), np.abs(thi_prime))
        lo = np.minimum(np.abs(thi_nil), np.abs(thi_prime))
        if kind == 'const':
            return np.array([hi[0] / lo[1] ** 2 + .01, hi[0] ** 2 / lo[1] ** 3 + .01])
        vm, zm = max(abs(v0), abs(v1)), max(abs(lb_z), abs(ub_z)) * np.sqrt(fin_t)
        return np.array([vm + hi[1] * zm + .01, hi[0] * zm + .01])
    one = lambda v: v
    disc, loglik, sample_aug, gen_normops, maxp, post = static.assemble_model(
        np.array([1., 1.]), (-I, I), (np.array([-I, 0.]), np.array([I, I])), one, one, lambda v: np.asarray(v) ** 0, drift, sx, dx,
        vol, bounds_disc, bounds_grad, logprior([0, 0]))
    if kind == 'lin':
        disc = curry(lambda thi, yt, xt: thi[yt, 0] * xt)
    return disc, loglik, sample_aug, gen_normops, bounds_disc, bounds_grad


def sw_model(kind, t, v, rate, n_regimes=2, a0=2., b0=2.):
    from ctbayes.switching import mcmc, static
    disc, loglik, sample_aug, gen_normops, bounds_disc, bounds_grad = sw_parts(kind)
    return mcmc.Model(t=t, vt=v, bounds_thi=(np.array([-I, 0.]), np.array([I, I])), hyper_lam=static.construct_gen_hyperprior(n_regimes, a0, b0),
                      eval_log_prior=logprior(rate), sample_aug=sample_aug, gen_normops=gen_normops, eval_biased_loglik=loglik,
                      eval_disc=disc, eval_bounds_disc=bounds_disc, eval_bounds_grad=bounds_grad)
