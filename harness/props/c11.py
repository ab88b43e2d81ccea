"""C11: adaptive rejection sampling."""
import warnings
from itertools import islice

import numpy as np

from lib import fx, fxs, ranks, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Ars'
CHUNKS = 6
ASSUMPTIONS = ['targets with a closed-form distribution function; law judged at 6 standard deviations']
I = np.inf


def models(tier):
    return [dict(spec='MC_Ars', cfg='MC_Ars' if tier == 'quick' else 'MC_Ars_big',
                 checks='Hulls Budget Squeeze Exact: every concave function, hull and test level on a grid')]


# family: log density, derivative, support, mode (standard scale)
FAM = {
    'normal': (lambda z: -z * z / 2, lambda z: -z, (-I, I), 0.),
    'expon': (lambda z: -1. * z, lambda z: -1. + 0. * z, (0., I), 0.),
    'gamma2': (lambda z: np.log(z) - z, lambda z: 1 / z - 1, (0., I), 1.),
    'gamma3': (lambda z: 2 * np.log(z) - z, lambda z: 2 / z - 1, (0., I), 2.),
    'laplace': (lambda z: -np.abs(z), lambda z: -np.sign(z), (-I, I), 0.),
    'logistic': (lambda z: -z - 2 * np.logaddexp(0, -z), lambda z: -np.tanh(z / 2), (-I, I), 0.),
    'gumbel': (lambda z: -z - np.exp(-z), lambda z: np.exp(-z) - 1, (-I, I), 0.),
    'uniform': (lambda z: 0. * z, lambda z: 0. * z, (0., 1.), .5),
    'beta22': (lambda z: np.log(z) + np.log(1 - z), lambda z: 1 / z - 1 / (1 - z), (0., 1.), .5),
    'tri': (lambda z: np.log(z), lambda z: 1 / z, (0., 1.), 1.),
}
# family, location, scale, bounds (None: natural), starting points (None: brace), cap on hull points
CASES = [
    ('normal', 0., 1., None, None, 100), ('normal', 3., .05, None, None, 100), ('normal', -2., 4., None, None, 100),
    ('normal', 0., 1., None, (-1., 1.), 2), ('normal', 0., 1., None, (-2., -1., 1.5), 3), ('normal', 0., 1., None, (-1., 0., 1.), 100),
    ('normal', 0., 1., (-1., 2.), None, 100), ('normal', 0., 1., (.5, 1.5), None, 100), ('normal', 0., 1., (-2.5, -1.), None, 5),
    ('normal', 0., 1., (0., I), None, 100), ('normal', 1., .5, (-I, .7), None, 4), ('normal', 0., 1., (1.5, I), (1.6, 2.5), 100),
    ('normal', 0., 1., None, (-.2, 2.), 4), ('normal', 0., 1., None, (-3., -2.9, -2.8, .1), 6),
    ('expon', 0., 1., None, None, 100), ('expon', 0., .2, None, (.1, .5, .7), 100), ('expon', 1., 2., (1., 4.), None, 100),
    ('gamma2', 0., 1., None, None, 100), ('gamma2', 0., .1, None, (.02, .5), 3), ('gamma3', 0., 1., None, None, 100),
    ('gamma3', 0., 1., (1., 3.), None, 100), ('gamma2', 0., 1., (.05, .6), None, 2),
    ('laplace', 0., 1., None, None, 100), ('laplace', 0., 1., (-2., 1.), (-1., .5), 10),
    ('logistic', 0., 1., None, None, 100), ('logistic', 1., .3, None, (0., 1.5), 3), ('gumbel', 0., 1., None, None, 100),
    ('gumbel', 0., 1., None, (-1., 3.), 2), ('uniform', 0., 1., None, None, 100), ('uniform', -1., 3., None, None, 2),
    ('beta22', 0., 1., None, None, 100), ('beta22', 2., 2., None, (2.1, 2.6, 3.9), 4), ('tri', 0., 1., None, None, 100), ('tri', 0., 1., None, (.2, .9), 2),
]


class Target:
    def __init__(self, fam, m, s, bounds):
        lf, ld, sup, mode = FAM[fam]
        self.fam, self.m, self.s = fam, m, s
        self.f = lambda x: lf((x - m) / s)
        self.df = lambda x: ld((x - m) / s) / s
        nat = (sup[0] * s + m, sup[1] * s + m)
        self.lb, self.ub = bounds or nat
        self.cut = bounds is not None
        self.mode = min(max(mode * s + m, self.lb), self.ub)
        self.inner = self.lb < self.mode < self.ub

    def rec(self, **kw):
        hl, hu = bool(np.isfinite(self.lb)), bool(np.isfinite(self.ub))
        r = dict(fam=self.fam, m=fx(self.m), s=fx(self.s), hl=hl and self.cut, hu=hu and self.cut, a=fx(self.lb) if hl else 0, b=fx(self.ub) if hu else 0)
        r.update(kw)
        return r


def spy(ars, seen):
    old = getattr(ars, 'sample_envelope', None)
    if old is None:
        return

    def wrapped(x, *a, **k):
        seen.append(len(x))
        return old(x, *a, **k)
    ars.sample_envelope = wrapped


def draw_job(out, seed, i, n, m):
    warnings.simplefilter('ignore')
    from ctbayes.misc import ars
    fam, loc, sc, bounds, init, cap = CASES[i]
    out.append({'ev': 'Begin', 'id': 'draw%d' % i})
    t = Target(fam, loc, sc, bounds)
    g = rng_for(seed, 'c11', i)
    seen = []
    spy(ars, seen)
    ini = None if init is None else np.array(init)
    start = 2 if init is None else len(init)

    def emit(x, asked, got):
        p = np.quantile(x, [.05, .2, .5, .8, .95])
        # thresholds rounded so that the specification sees the same numbers
        z = np.unique(np.round(p, 5)) + 5e-7
        z = np.round(z, 6)
        out.append(t.rec(ev='Draw', z=fxs(z), cnt=[int((x <= v).sum()) for v in z], n=len(x), asked=asked, got=got,
                         r=ranks([t.lb, x.min(), x.max(), t.ub])[0], pts=max(seen, default=0), cap=cap, start=start))
        return z
    # one long run
    x = np.array(list(islice(ars.sample(t.f, t.df, t.lb, t.ub, ini, cap, g, n), n + 5)))
    emit(x, n, len(x))
    # many short runs: law of the first, second and third draw and their independence
    if init is None and i % 4:
        ini = ars.brace(t.f, t.lb, t.ub)
    xs, got = [], 0
    for _ in range(m):
        y = list(islice(ars.sample(t.f, t.df, t.lb, t.ub, None if ini is None else ini.copy(), cap, g, 3), 8))
        got += len(y)
        xs.append(y[:3])
    xs = np.array(xs)
    for c in range(3):
        z = emit(xs[:, c], 3 * m, got)
    for a, b in ((0, 1), (0, 2), (1, 2)):
        out.append(t.rec(ev='Pair', z=fxs(z), cnt=[int(((xs[:, a] <= v) & (xs[:, b] <= v)).sum()) for v in z], n=m))
    # none at all
    none = list(islice(ars.sample(t.f, t.df, t.lb, t.ub, ini, cap, g, 0), 3))
    out.append(t.rec(ev='Draw', z=[], cnt=[], n=0, asked=0, got=len(none), r=[0], pts=0, cap=cap, start=start))
    one = list(islice(ars.sample(t.f, t.df, t.lb, t.ub, ini, cap, g), 7))
    out.append(t.rec(ev='Draw', z=[], cnt=[], n=0, asked=7, got=len(one), r=[0], pts=0, cap=cap, start=start))


def brace_job(out, seed):
    warnings.simplefilter('ignore')
    from ctbayes.misc import ars
    g = rng_for(seed, 'c11brace')
    out.append({'ev': 'Begin', 'id': 'brace'})
    todo = [c[:4] for c in CASES if c[0] != 'uniform']
    for fam in ('normal', 'logistic', 'gumbel', 'gamma2', 'beta22'):
        for _ in range(6):
            m, s = float(g.normal(0, 5)), float(np.exp(g.normal(0, 1)))
            todo.append((fam, m, s, None))
            if fam in ('normal', 'logistic'):
                a = m + s * float(g.normal())
                todo += [(fam, m, s, (a, a + 2 * s)), (fam, m, s, (a, I)), (fam, m, s, (-I, a))]
    for c in todo:
        t = Target(*c)
        lo, hi = (float(v) for v in ars.brace(t.f, t.lb, t.ub))
        u = lambda v: fx((v - t.m) / t.s)
        out.append({'ev': 'Brace', 'r': ranks([t.lb, lo, hi, t.ub])[0], 'l': u(lo), 'h': u(hi), 'mode': u(t.mode), 'inner': t.inner})


def hull_job(out, seed, k):
    warnings.simplefilter('ignore')
    from ctbayes.misc import ars
    g = rng_for(seed, 'c11hull', k)
    out.append({'ev': 'Begin', 'id': 'hull%d' % k})
    for fam in ('normal', 'logistic', 'gumbel', 'gamma3', 'beta22', 'laplace', 'expon'):
        for _ in range(4):
            t = Target(fam, float(np.round(g.normal(), 2)), float(g.choice([.5, 1., 2.])), None)
            n = int(g.integers(2, 9))
            if fam in ('beta22',):
                z0 = np.linspace(.06, .94, 89)
            elif fam in ('gamma3', 'expon'):
                z0 = np.linspace(.3, 5, 95)
            else:
                z0 = np.linspace(-2., 2., 81)
            x = np.sort(g.choice(z0, n, False)) * t.s + t.m
            f, d = t.f(x), t.df(x)
            y = ars.gen_upper(x, f, d)
            yy = np.array([t.lb, *y, t.ub])
            z = (g.uniform(z0[0], z0[-1], 12)) * t.s + t.m
            z = np.concatenate([z, (x[1:] + x[:-1]) / 2])
            up = [float(ars.eval_upper(x, f, d, yy, v)) for v in z]
            lo = [float(ars.eval_lower(x, f, v)) for v in z]
            # a gap in slopes magnifies rounding of the intersection; values are compared, not positions
            out.append({'ev': 'Hull', 'x': fxs(x), 'f': fxs(f), 'd': fxs(d), 'y': fxs(y), 'z': fxs(z), 'tz': fxs(t.f(z)), 'up': fxs(up), 'lo': fxs(lo),
                        'tol': 40 + int(4 * np.abs(d).max()) + int(4 * np.abs(z).max())})


def jobs(tier, seed, cases):
    big = tier != 'quick'
    n, m = (60000, 12000) if big else (3000, 700)
    J = [('brace', brace_job, dict(seed=seed), 120)]
    J += [('draw:%d' % i, draw_job, dict(seed=seed, i=i, n=n, m=m), 1500 if big else 120) for i in range(len(CASES))]
    J += [('hull:%d' % k, hull_job, dict(seed=seed, k=k), 60) for k in range(20 if big else 3)]
    return J
