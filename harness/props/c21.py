"""C21: samplers with a budget of proposals."""
import numpy as np

from lib import fx, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Budget'
CHUNKS = 8
ASSUMPTIONS = ['the number of attempts is read off the callbacks and iterators handed to the sampler, off the amount of randomness used, '
               'and off the probability of running out, which is known in closed form for each sampler']
INF = np.inf


def models(tier):
    return [dict(spec='MC_Budget', cfg='MC_Budget' if tier == 'quick' else 'MC_Budget_big',
                 checks='WithinBudget OnlyAccepted AsPredicted BudgetIrrelevant Larger ItAsPredicted NoAttemptAfterSuccess')]


class Counting:
    """A random generator that counts the calls made to it."""

    def __init__(self, g):
        self.g, self.n = g, 0

    def __getattr__(self, name):
        f = getattr(self.g, name)
        if not callable(f):
            return f

        def call(*a, **k):
            self.n += 1
            return f(*a, **k)
        return call


def flat(o):
    if isinstance(o, (tuple, list)):
        return [q for p in o for q in flat(p)] + [-7.]
    return [np.nan] if o is None else [float(q) for q in np.ravel(np.asarray(o, float))]


class Names:
    def __init__(self):
        self.d = {}

    def __call__(self, o):
        return self.d.setdefault(np.asarray(flat(o)).tobytes(), len(self.d) + 1)


CASES = [(1., 0., 0.), (1., .3, -.2), (.25, -.5, -.1), (4., 1., 2.5), (2., -1., .5)]


def cases():
    """(kind, parameters for the specification, function of generator and budget, least budget)"""
    from ctbayes.misc import bfactories as bf
    from ctbayes.sdelib import hitting as h, layers as ly, paths as pt
    res = []
    for T, x0, x1 in CASES:
        s, lo, hi = np.sqrt(T), min(x0, x1), max(x0, x1)
        for f, lm, um in ((.4, None, None), (.7, lo - s, None), (.3, lo - .9 * s, lo - .2 * s)):
            ub = hi + f * s
            res.append(('layermin', dict(T=T, x0=x0, x1=x1, ub=ub, lm=lm, um=um),
                        lambda g, b, T=T, x0=x0, x1=x1, ub=ub, lm=lm, um=um: h.sample_layerbr_min(T, x0, x1, ub, lm, um, g, b), 0))
        for f1, f2 in ((.8, .7), (.6, 1.)):
            a, b_ = lo - f1 * s, hi + f2 * s
            res.append(('layer', dict(T=T, x0=x0, x1=x1, ub=b_, lm=a, um=None),
                        lambda g, b, T=T, x0=x0, x1=x1, a=a, b_=b_: ly.sample_layer(T, x0, x1, a, b_, g, b), 0))
        a1, a0, u1, u0 = lo - .8 * s, lo - .2 * s, hi + .1 * s, hi + .9 * s
        res.append(('edges', dict(T=T, x0=x0, x1=x1, ub=u0, lm=a1, um=a0, lbs=u1),
                    lambda g, b, T=T, x0=x0, x1=x1, q=(a1, a0), r=(u1, u0): ly.sample_edges(T, x0, x1, q, r, g, b), 1))
        t = T * np.array([.3, .55])
        inf, lbs, ub = lo - .8 * s, hi + .3 * s, hi + .9 * s
        res.append(('layerbr', dict(T=T, x0=x0, x1=x1, ub=ub, lm=inf, lbs=lbs, um=None),
                    lambda g, b, T=T, x0=x0, x1=x1, t=t, q=(inf, ub, lbs): pt.sample_layerbr(t, T, x0, x1, *q, g, b), 1))
        d = hi - lo + .2 * s
        for k in (0, 1, 2):
            res.append(('edge', dict(T=T, x0=0., x1=d, ub=d + .7 * s, lm=None, um=None),
                        lambda g, b, T=T, d=d, t=t[:k], u=d + .7 * s: pt.propose_layerbr_edge(t, T, d, u, None, g, b), 0))
        for rev in (False, True):
            x = (0., d) if not rev else (d, 0.)
            res.append(('besbr', dict(T=T, x0=0., x1=d, ub=d + 1.3 * s, lbs=d + .6 * s, lm=None, um=None),
                        lambda g, b, T=T, x=x, t=t, u=(d + 1.3 * s, d + .6 * s): pt.sample_layerbr(t, T, *x, 0., *u, g, b), 1))
    for dw, p1, p2, esc in ((0., .3, .1, 0.), (1., .05, .4, .2), (-2., .5, .15, .1), (0., 0., 0., .3), (.5, .2, .3, 0.)):
        v = 1 / (1 + np.exp(dw))

        def coin(g, p):
            while True:
                yield bool(g.uniform() < p), None

        def joint(g, p1, p2):
            up = (yield None, None)
            while True:
                up = (yield bool(g.uniform() < (p1 if up else p2)), None)
        res.append(('twocoin', dict(v=v, p1=p1, p2=p2, esc=esc),
                    lambda g, b, dw=dw, p1=p1, p2=p2, esc=esc: bf.sample_twocoin(0., dw, coin(g, p1), coin(g, p2), esc, None, g, b), 0))
        res.append(('twocoin', dict(v=v, p1=p1, p2=p2, esc=esc),
                    lambda g, b, dw=dw, p1=p1, p2=p2, esc=esc: bf.sample_twocoin_joint(0., dw, joint(g, p1, p2), esc, g, b), 0))
    for c, T in ((.4, 1.5), (1.2, 1.), (.3, 4.)):
        res.append(('rate', dict(c=c, T=T), lambda g, b, c=c, T=T: skeletons(g, b, T, c)(), 0))
        res.append(('rate', dict(c=c, T=T), lambda g, b, c=c, T=T: bridges(g, b, T, c, c / 2)(), 0))
    return res


def skeletons(g, b, T, c, ends=None):
    from ctbayes.ea3lib import skeleton as sk
    it = sk.sample_skeleton(T, 0., (-INF, INF), ends or iter(lambda: float(g.normal()), None), lambda x: np.full(np.shape(x), c),
                            lambda a, u: (0., 0., 2. * c), g, b)
    return lambda: next(it)


def bridges(g, b, T, c, c0):
    from ctbayes.ea3lib import seed as sd
    op = lambda t, x: (t / T, None if x is None else (x - .2 * t / T) / np.sqrt(T))
    inv = lambda s, z: (s * T, None if z is None else z * np.sqrt(T) + .2 * s)
    it = sd.sample_bridge((-INF, INF), op, inv, lambda x: np.full(np.shape(x), c), lambda a, u: (0., c0, 2. * c), g, b)
    return lambda: next(it)


def params(kind, p):
    if kind == 'twocoin' or kind == 'rate':
        return {k: fx(v) for k, v in p.items()}
    e = dict(T=fx(p['T']), x0=fx(p['x0']), x1=fx(p['x1']), ub=fx(p['ub']), hl=p['lm'] is not None, lm=fx(p['lm'] or 0.),
             hm=p['um'] is not None, um=fx(p['um'] or 0.), lbs=fx(p.get('lbs', 0.)))
    return e


def families(out, seed, part, nparts, reps):
    from ctbayes.misc.exceptions import BudgetConstraintError
    for i, (kind, p, f, least) in enumerate(cases()):
        if i % nparts != part:
            continue
        out.append({'ev': 'Begin', 'id': 'families %s %d' % (kind, i)})
        for r in range(reps):
            nm = Names()

            def run(b):
                g = Counting(rng_for(seed, 'c21fam', i, r))
                try:
                    o, ok = f(g, b), True
                except BudgetConstraintError:
                    o, ok = None, False
                n = g.n
                return ok, nm(o), n, nm(g.g.uniform())
            ok, id0, d0, f0 = run(20000)
            if not ok:
                raise RuntimeError('no acceptable proposal')
            bs = [b for b in list(range(0, 9)) + [20, 1000] if b >= least]
            rs = [run(b) for b in bs]
            out.append(dict(ev='Fam', kind=kind, b=bs, raised=[not q[0] for q in rs], id=[q[1] for q in rs], draws=[q[2] for q in rs],
                            fin=[q[3] for q in rs], id0=id0, d0=d0, f0=f0))


def laws(out, seed, part, nparts, n):
    from ctbayes.misc.exceptions import BudgetConstraintError
    for i, (kind, p, f, least) in enumerate(cases()):
        if i % nparts != part:
            continue
        out.append({'ev': 'Begin', 'id': 'laws %s %d' % (kind, i)})
        g = rng_for(seed, 'c21law', i)
        cnt = []
        bs = [1, 2, 4]
        for b in bs:
            c = 0
            for _ in range(n):
                try:
                    f(g, b)
                except BudgetConstraintError:
                    c += 1
            cnt.append(c)
        out.append(dict(ev='Law', kind=kind, b=bs, cnt=cnt, n=n, **params(kind, p)))


def items(out, seed, i, n):
    """Iterators over accepted paths; the rate is 0 or M, so that a point where it is M rejects."""
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    from ctbayes.misc.exceptions import BudgetConstraintError
    g0 = rng_for(seed, 'c21items', i)
    for r in range(n):
        T, M, lvl, many = float(g0.uniform(.5, 3.)), float(g0.uniform(.5, 4.)), float(g0.normal(scale=.4)), 4
        key = int(g0.integers(1 << 30))
        bridge = bool((r + i) % 2)
        out.append({'ev': 'Begin', 'id': 'items %d %d' % (i, r)})
        nm = Names()
        sgn = float(g0.choice([-1., 1.]))
        high = lambda x: sgn * np.asarray(x) > lvl

        def run(b, rec):
            g = rng_for('c21items', key)
            fails, pulls, vals, needs = [0], [0], [], []

            def disc(x):
                bad = bool(np.any(high(x)))
                fails[0] += bad
                if rec:
                    out.append({'ev': 'Look', 'fail': bad})
                return M * high(x)

            def ends():
                while True:
                    pulls[0] += 1
                    yield float(g.normal())
            bd = lambda a, u: (0., 0., M)
            op = lambda t, x: (t / T, None if x is None else x / np.sqrt(T))
            inv = lambda s, z: (s * T, None if z is None else z * np.sqrt(T))
            it = sd.sample_bridge((-INF, INF), op, inv, disc, bd, g, b) if bridge else sk.sample_skeleton(T, 0., (-INF, INF), ends(), disc, bd, g, b)
            if rec:
                out.append({'ev': 'Open', 'max': b})
            raised = False
            for _ in range(many):
                fails[0] = 0
                try:
                    o = next(it)
                except BudgetConstraintError:
                    raised = True
                    if rec:
                        out.append({'ev': 'Raise'})
                    break
                t, x = inv(o.s, o.z) if bridge else (o.t, o.x)
                tight = (o.z == o.tight_z) if bridge else (o.x == o.tight_x)
                inner = np.ones(len(t), bool)
                inner[[0, -1]] = False
                viol = int(np.sum(high(x[inner & ~tight])))
                vals.append(nm(tuple(o)))
                needs.append(fails[0] + 1)
                if rec:
                    out.append({'ev': 'Yield', 'viol': viol})
            return vals, needs, raised, pulls[0] if not bridge else -1
        ref, needs, raised, _ = run(2000, True)
        if raised:
            raise RuntimeError('budget of reference spent')
        bs = [0, 1, 2, 3, 5, 8, 50]
        rs = [run(b, True) for b in bs]
        out.append(dict(ev='Iter', b=bs, k=needs, yields=[len(q[0]) for q in rs], raised=[q[2] for q in rs],
                        same=[q[0] == ref[:len(q[0])] for q in rs], pulls=[q[3] for q in rs]))


def jobs(tier, seed, cases_):
    q = tier == 'quick'
    js = []
    for k in range(8):
        js.append(('families %d' % k, families, dict(seed=seed, part=k, nparts=8, reps=12 if q else 150), 900))
        js.append(('laws %d' % k, laws, dict(seed=seed, part=k, nparts=8, n=1500 if q else 20000), 1800))
        js.append(('items %d' % k, items, dict(seed=seed, i=k, n=6 if q else 60), 900))
    return js
