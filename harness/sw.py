"""Regime-switching models used by several checks: the shipped ones and two with a non-trivial volatility transform."""
import types

import numpy as np

NAMES = ['ou', 'ou2', 'ou3', 'quad', 'log']


def get(name):
    import importlib
    if name in ('ou', 'ou2', 'ou3'):
        return importlib.import_module('ctbayes.switching.models.' + name)
    return custom(name)


def custom(name):
    """The model ou observed through v = x / 4 (quad, exact in floating point) or v = exp(x) (log)."""
    from ctbayes.switching import static
    from ctbayes.switching.models import ou
    if name == 'quad':
        reduce, dereduce, dv = (lambda v: np.asarray(v) * 4.), (lambda x: np.asarray(x) / 4.), (lambda v: 4. + 0. * np.asarray(v))
    else:
        reduce, dereduce, dv = np.log, np.exp, (lambda v: 1. / np.asarray(v))

    def bounds_grad(thi_nil, thi_prime, fin_t, init_v, fin_v, lb_z, ub_z):
        return ou.eval_bounds_grad(thi_nil, thi_prime, fin_t, reduce(init_v), reduce(fin_v), lb_z, ub_z)
    m = types.SimpleNamespace(init_thi=ou.init_thi, bounds_thi=ou.bounds_thi, bounds_x=ou.bounds_x, reduce=reduce,
                              dereduce=dereduce, dv_reduce=dv, eval_log_prior=ou.eval_log_prior, eval_vol=ou.eval_vol,
                              eval_drift=ou.eval_drift, eval_bounds_disc=ou.eval_bounds_disc, eval_bounds_grad=bounds_grad,
                              sx_eval_drift=ou.sx_eval_drift, dx_eval_drift=ou.dx_eval_drift)
    m.eval_disc, m.eval_biased_log_lik, m.sample_aug, m.gen_normops, m.maximize_posterior, m.sample_posterior = \
        static.assemble_model(ou.init_thi, ou.bounds_x, ou.bounds_thi, reduce, dereduce, dv, ou.eval_drift, ou.sx_eval_drift,
                              ou.dx_eval_drift, ou.eval_vol, ou.eval_bounds_disc, bounds_grad, ou.eval_log_prior)
    return m


def data(name, g, n, style='irregular', span=6.):
    if style == 'regular':
        t = np.linspace(0, span, n)
    elif style == 'tight':
        t = np.append(0, np.cumsum(g.choice([.03, .4, 1.1], n - 1)))
    else:
        t = np.append(0, np.cumsum(g.uniform(.05, 2 * span / max(1, n - 1), n - 1)))
    v = g.normal(scale=.7, size=n)
    if style == 'ties':
        v = np.round(v)
    return t, np.exp(v) if name == 'log' else v / 4 if name == 'quad' else v


def mcmc_model(m, t, v, n_regimes, a0=2., b0=2.):
    """The sampler's own view of a model, for calling its parts directly."""
    from ctbayes.switching import mcmc, static
    return mcmc.Model(t, v, m.bounds_thi, static.construct_gen_hyperprior(n_regimes, a0, b0), m.eval_log_prior, m.sample_aug,
                      m.gen_normops, m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc, m.eval_bounds_grad)
