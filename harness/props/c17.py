"""C17: results depend only on the given random generator."""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys
import time
import types

import numpy as np

import sw
from lib import VERIF, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_Streams'
CHUNKS = 6
ASSUMPTIONS = ['computations are compared token by token (hash of all bits of each result), within one machine',
               'the order in which workers finish is varied by random delays in the callables of the model and by the number of workers']


def models(tier):
    return [dict(spec='MC_Streams', cfg='MC_Streams' if tier == 'quick' else 'MC_Streams_big', checks='ScheduleFree NoReuse AllDone')]


# ---------------------------------------------------------------- tokens
def bits(x, h):
    if x is None or isinstance(x, (str, bool, np.bool_)):
        h.update(repr(x).encode())
    elif isinstance(x, (int, float, np.number)):
        h.update(np.float64(x).tobytes())
    elif isinstance(x, np.ndarray):
        h.update(str(x.shape).encode() + np.asarray(x, float).tobytes())
    elif isinstance(x, (tuple, list)):
        h.update(b'(%d' % len(x))
        for y in x:
            bits(y, h)
    else:
        raise TypeError(type(x))


def token(x):
    h = hashlib.sha1()
    bits(x, h)
    return h.hexdigest()[:10]


def left(ome):
    return hashlib.sha1(repr(ome.bit_generator.state).encode()).hexdigest()[:10]


def poison(k):
    np.random.seed(k)
    random.seed(k)


def glob():
    s = np.random.get_state()
    return s[1].tobytes(), s[2], s[3], s[4], random.getstate()


# ---------------------------------------------------------------- computations: name -> function(parameters' rng, ome) -> results
def lib_calls():
    from ctbayes.ea3lib import seed as sd, skeleton as sk
    from ctbayes.ito.models import ou
    from ctbayes.misc import adapt, ars, bfactories as bf, testing
    from ctbayes.mjplib import inference as inf, skeleton as mj
    from ctbayes.sdelib import hitting as hi, interpolators as ip, layers as la, paths as pa

    def q(g, d=3):
        a = g.uniform(.2, 2, (d, d))
        np.fill_diagonal(a, 0)
        np.fill_diagonal(a, -a.sum(1))
        return a

    def tt(g, n=5, hi_=.95):
        return np.sort(g.uniform(.05, hi_, n))

    def coin(p, ome):
        k = 0
        while True:
            k += 1
            yield bool(ome.uniform() < p), k

    def joint(p, ome):
        s = yield None, 0
        while True:
            s = yield bool(ome.uniform() < p), 1

    def norm(g):
        thi, t, v = g.uniform(.5, 1.5, 2), np.array([0., g.uniform(.4, 1.5)]), g.normal(size=2)
        return thi, ou.gen_normops(thi, t, v)[0], t[1]

    def seed_calls(g, o):
        thi, (op, inv), T = norm(g)
        z = sd.sample_raw_seed((-np.inf, np.inf), op, inv, o)
        ok, w, z1 = sd.flip_poisson_coin(z, op, inv, ou.eval_disc(thi), ou.eval_bounds_disc(thi), o, int(g.choice([1, 3])))
        z2, x = sd.interpolate_seed(z1, T * tt(g), op, inv, o)
        e, b, z3 = sd.est_poisson_coin(z2, op, inv, ou.eval_disc(thi), ou.eval_bounds_disc(thi), o)
        th2 = thi * 1.2
        op2, inv2 = ou.gen_normops(th2, np.array([0, T]), g.normal(size=2))[0]
        d = sd.flip_dual_coin(z3, 60., op, inv, ou.eval_disc(thi), op2, inv2, ou.eval_disc(th2), True, o)
        return [tuple(z), ok, w, tuple(z1), tuple(z2), x, e, b, tuple(z3), d[0], tuple(d[1])]

    def bridge(g, o):
        thi, (op, inv), T = norm(g)
        it = sd.sample_bridge((-np.inf, np.inf), op, inv, ou.eval_disc(thi), ou.eval_bounds_disc(thi), o)
        return [tuple(z) for z in itertools.islice(it, 3)]

    def skel_calls(g, o):
        thi, T = g.uniform(.5, 1.5, 2), g.uniform(.4, 1.5)
        x = sk.sample_raw_skeleton(T, *g.normal(size=2), (-np.inf, np.inf), o)
        ok, x1 = sk.flip_poisson_coin(x, ou.eval_disc(thi), ou.eval_bounds_disc(thi), o, int(g.choice([1, 3])))
        x2, y = sk.interpolate_skeleton(x1, T * tt(g), o)
        e, x3 = sk.est_poisson_coin(x2, ou.eval_disc(thi), ou.eval_bounds_disc(thi), o)
        return [tuple(x), ok, tuple(x1), tuple(x2), y, e, tuple(x3)]

    def sample_skel(g, o):
        thi = g.uniform(.5, 1.5, 2)
        it = sk.sample_skeleton(.8, g.normal(), (-np.inf, np.inf), itertools.repeat(g.normal()), ou.eval_disc(thi), ou.eval_bounds_disc(thi), o)
        return [tuple(z) for z in itertools.islice(it, 3)]

    def wiener_fill(g, o):
        T = g.uniform(.5, 2)
        a, b = g.normal(size=2)
        m = min(a, b) - g.uniform(.1, 1)
        lo, up = m - g.uniform(.1, .5), max(a, b) + g.uniform(.3, 1)
        u, x = pa.sample_layerbr(tt(g) * T, T, a, b, min(a, b) - .3, None, None, o)
        return [u, x]

    calls = {
        'ppp': lambda g, o: [mj.sample_ppp(g.uniform(.5, 9), tuple(g.uniform(.5, 2, 2)), o)],
        'batch_ppp': lambda g, o: list(mj.sample_batch_ppp(g.uniform(.5, 9), tuple(g.uniform(.5, 2, 2)), int(g.choice([1, 3])), o)),
        'forwards': lambda g, o: [tuple(mj.sample_forwards(g.uniform(.5, 4), g.choice([None, 1]), q(g), o))],
        'backwards': lambda g, o: [tuple(mj.sample_backwards(g.uniform(.5, 4), 1, q(g), o))],
        'mjpbridge': lambda g, o: [tuple(mj.sample_bridge(g.uniform(.5, 4), 0, int(g.integers(3)), q(g), o))],
        'partition': lambda g, o: [[tuple(p) for p in r] if isinstance(r, list) else r for r in mj.sample_partition(mj.sample_forwards(3., 0, q(g), o), 2., o)],
        'mutate': lambda g, o: [tuple(p) for p in mj.mutate_partition(mj.partition_skeleton(mj.sample_forwards(3., 0, q(g), o), 3 * tt(g)), q(g), o)],
        'generator': lambda g, o: [mj.sample_trial_generator(3, o)],
        'rates': lambda g, o: [inf.sample_param(g.uniform(1, 3, (3, 3)), g.uniform(1, 3, (3, 3)), o)],
        'ars': lambda g, o: [np.asarray(list(itertools.islice(ars.sample(lambda x: -x ** 2 / 2, lambda x: -x, -np.inf, np.inf, np.array([-1., 1.]), int(g.choice([3, 20])), o), 5)), float)],
        'twocoin': lambda g, o: [bf.sample_twocoin(*g.normal(size=2), coin(.4, o), coin(.6, o), .1, 0, o)],
        'twocoin_joint': lambda g, o: [bf.sample_twocoin_joint(*g.normal(size=2), joint(.4, o), .1, o)],
        'euler': lambda g, o: list(testing.euler_simulate(2, 1, 0, lambda x: -x, lambda x: 1, .05, o)),
        'rw': lambda g, o: [adapt.MyopicRwSampler(1., (0., np.inf), .2).propose(o)],
        'mvrw': lambda g, o: [adapt.MyopicMvRwSampler(np.array([1., 1.]), (np.zeros(2), np.full(2, np.inf)), .2).propose(o)],
        'mjprw': lambda g, o: [(lambda r: (tuple(r[0]), r[1]))(adapt.MyopicMjpSampler(mj.sample_forwards(3., 0, q(g), o)).propose(q(g), np.linspace(0, 3, 8), o))],
        'wiener': lambda g, o: [pa.sample_wiener(tt(g), np.zeros(2), None, o)],
        'brownbr': lambda g, o: [pa.sample_brownbr(tt(g), 1., *g.normal(size=2), o)],
        'bessel': lambda g, o: [pa.sample_bessel(tt(g), .5, 3, None, o)],
        'besselbr': lambda g, o: [pa.sample_besselbr(tt(g), 1., .7, 3, o)],
        'minimum': lambda g, o: [hi.sample_brownbr_min(1., *g.normal(size=2), None, None, o)],
        'escape': lambda g, o: [[hi.sample_brownbr_esc(1., .2, .4, 1.2, 0. if k % 2 else None, None, o) for k in range(12)]],
        'escape3': lambda g, o: [[hi.sample_bessel3br_esc(1., .2, .4, 1.2, None, None, o) for _ in range(12)]],
        'layer': lambda g, o: [[la.sample_layer(1., a, b, -np.inf, np.inf, o) for a, b in g.normal(size=(8, 2))]],
        'anchor': lambda g, o: [list(la.sample_anchor(1., a, b, -np.inf, np.inf, o)) for a, b in g.normal(size=(8, 2))],
        'layerbr': wiener_fill,
        'seed': seed_calls, 'seedbridge': bridge, 'skeleton': skel_calls, 'sample_skeleton': sample_skel,
        'sde_free': lambda g, o: list(itertools.islice(ou.sample_sde(g.uniform(.5, 1.5, 2), tt(g), 1., g.normal(), None, o), 2)),
        'sde_bridge': lambda g, o: list(itertools.islice(ou.sample_sde(g.uniform(.5, 1.5, 2), tt(g), 1., g.normal(), g.normal(), o), 2)),
        'aug': lambda g, o: [tuple(z) for z in ou.sample_aug(g.uniform(.5, 1.5, 2), np.array([0, .5, 1.2]), g.normal(size=3), o)],
    }
    return calls


def one(name, k, seed, ome):
    return [token(r) for r in lib_calls()[name](rng_for(seed, 'c17', name, k), ome)]


def lib_job(out, seed, names, n):
    for name in names:
        for k in range(n):
            out.append({'ev': 'Begin', 'id': 'call %s %d' % (name, k)})
            for how, extra in [('first', 0), ('other global state', 1), ('after other calls', 2)]:
                poison(1000 * k + extra)
                if extra == 2:
                    one('layer', k, seed, np.random.default_rng(5))
                    one(name, k + 1, seed, np.random.default_rng(k))
                    np.random.uniform(size=3)
                before, o = glob(), np.random.default_rng([seed, k])
                tok = one(name, k, seed, o)
                out.append(dict(ev='Run', how=how, tok=tok, left=left(o), glob=before == glob()))
            before = glob()
            tok2 = one(name, k, seed, o)
            if name not in ('escape', 'escape3', 'layer', 'anchor', 'twocoin', 'twocoin_joint', 'ppp', 'batch_ppp', 'forwards', 'backwards', 'mjpbridge', 'mutate', 'mjprw', 'partition'):
                out.append(dict(ev='Again', same=tok == tok2, glob=before == glob()))
        # discrete results: different in at least one of many repetitions
        o, got = np.random.default_rng([seed, 9]), []
        before = glob()
        for _ in range(40):
            got.append(tuple(one(name, 0, seed, o)))
        out.append(dict(ev='Again', same=len(set(got)) == 1, glob=before == glob()))


# ---------------------------------------------------------------- samplers and estimators
class Slow:
    """A callable of the model that takes its time."""

    def __init__(self, f, scale):
        self.f, self.scale = f, scale

    def __call__(self, *a, **k):
        time.sleep(int.from_bytes(os.urandom(1), 'big') / 255 * self.scale)
        return self.f(*a, **k)


def chain(kind, name, i, seed, n, n_cores=1, slow=0., twice=False):
    """Tokens of the first n results."""
    g = rng_for(seed, 'c17chain', kind, name, i)
    o = np.random.default_rng([seed, i, 7])
    lag = (lambda f: Slow(f, slow)) if slow else (lambda f: f)
    if kind.startswith('ito'):
        import importlib
        from ctbayes.ito import mcem, mcmc
        m = importlib.import_module('ctbayes.ito.models.' + name)
        t = np.append(0, np.cumsum(g.uniform(.3, 1., 4)))
        v = g.uniform(.5, 2., 5) if name == 'cir' else g.normal(scale=.7, size=5)
        args = (t, v, m.bounds_thi, m.eval_log_prior, m.sample_aug, lag(m.gen_normops), m.eval_biased_log_lik, m.eval_disc, m.eval_bounds_disc)
        if kind == 'ito.mcmc':
            mk = lambda: mcmc.sample_posterior(m.init_thi, mcmc.Model(*args, m.eval_bounds_grad), mcmc.Controls(n_cores=n_cores, precoin=bool(i % 2)), o)
        else:
            mk = lambda: mcem.maximize_posterior(m.init_thi, mcem.Model(*args), mcem.Controls(n_cores=n_cores, ftol=.5), o)
    else:
        from ctbayes.switching import mcem, mcmc
        m = sw.get(name)
        t, v = sw.data(name, g, 6, 'irregular', 3.)
        mod = sw.mcmc_model(m, t, v, 2)._replace(gen_normops=lag(m.gen_normops))
        if kind == 'sw.mcmc':
            mk = lambda: mcmc.sample_posterior(m.init_thi, mod, mcmc.Controls(n_cores=n_cores, precoin=bool(i % 2)), o)
        else:
            mk = lambda: mcem.maximize_posterior(m.init_thi, mcem.Model(*mod[:-1]), mcem.Controls(n_cores=n_cores, ftol=.5), o)
    try:
        tok = [token(r) for r in itertools.islice(mk(), n)]
        if twice:
            return tok, [token(r) for r in itertools.islice(mk(), n)]
        return tok, left(o)
    finally:
        if n_cores > 1:
            from joblib.externals.loky import get_reusable_executor
            get_reusable_executor().shutdown(wait=True, kill_workers=True)


def chain_job(out, seed, kind, name, i, n, cores):
    out.append({'ev': 'Begin', 'id': '%s %s %d' % (kind, name, i)})
    for how, kw, p in [('first', {}, 1), ('other global state', {}, 2)] + \
                      [('%d workers' % c, dict(n_cores=c), 3) for c in cores] + \
                      [('%d workers with delays' % c, dict(n_cores=c, slow=.004), 4) for c in cores[:1]]:
        poison(p)
        before = glob()
        tok, lft = chain(kind, name, i, seed, n, **kw)
        out.append(dict(ev='Run', how=how, tok=tok, left=lft, glob=before == glob()))
    before = glob()
    a, b = chain(kind, name, i, seed, n, twice=True)
    out.append(dict(ev='Again', same=a == b, glob=before == glob()))


def api_job(out, seed, kind, name):
    """The functions users call, with the generator as an argument."""
    import importlib
    m = sw.get(name) if kind == 'sw' else importlib.import_module('ctbayes.ito.models.' + name)
    g = rng_for(seed, 'c17api', kind, name)
    if kind == 'sw':
        t, v = sw.data(name, g, 5, 'irregular', 3.)
        fs = {'sample_posterior': lambda o: m.sample_posterior(t, v, 2, 2., 2., ome=o),
              'maximize_posterior': lambda o: m.maximize_posterior(t, v, 2, 2., 2., ome=o, ftol=1e-9)}
    else:
        t, v = np.append(0, np.cumsum(g.uniform(.3, 1., 3))), g.normal(scale=.7, size=4)
        fs = {'sample_posterior': lambda o: m.sample_posterior(t, v, ome=o), 'maximize_posterior': lambda o: m.maximize_posterior(t, v, ome=o, ftol=1e-9)}
    for fn, f in fs.items():
        out.append({'ev': 'Begin', 'id': 'api %s %s %s' % (kind, name, fn)})
        for k, how in enumerate(['first', 'second call', 'other global state']):
            poison(5 * k)
            before, o = glob(), np.random.default_rng([seed, 3])
            tok = [token(r) for r in itertools.islice(f(o), 2 if fn[0] == 'm' else 5)]
            out.append(dict(ev='Run', how=how, tok=tok, left=left(o), glob=before == glob()))


def fresh(names, seed, n):
    """Tokens of library calls, for a process of its own."""
    return {name: [[one(name, k, seed, o), left(o)] for k in range(n) for o in [np.random.default_rng([seed, k])]] for name in names}


def fresh_job(out, seed, names, n):
    """The same calls in other processes with other hash seeds."""
    res = [fresh(names, seed, n)]
    for hs in ['1', '77']:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        code = 'import sys, json; sys.path[:0] = %r; from props import c17; c17.poison(%s); print(json.dumps(c17.fresh(%r, %d, %d)))' % (
            sys.path, hs, list(reversed(names)), seed, n)
        p = subprocess.run([sys.executable, '-c', code], env=env, capture_output=True, text=True, cwd=VERIF)
        if p.returncode:
            raise RuntimeError(p.stderr[-300:])
        res.append(json.loads(p.stdout.strip().splitlines()[-1]))
    for name in names:
        for k in range(n):
            out.append({'ev': 'Begin', 'id': 'fresh %s %d' % (name, k)})
            for how, r in zip(['first', 'another process', 'another process'], res):
                out.append(dict(ev='Run', how=how, tok=r[name][k][0], left=r[name][k][1], glob=True))


def indep_job(out, seed, kind, n):
    """Equal sections with even odds: their outcomes, sweep after sweep, agree as often as independent fair coins."""
    from ctbayes.ito import mcmc as ito
    from ctbayes.mjplib.skeleton import Skeleton
    from ctbayes.switching import mcmc as swm
    from joblib import Parallel
    import toy
    K = 4
    t, v, g = np.arange(K + 1.), np.zeros(K + 1), np.random.default_rng([seed, 41])
    res = []
    inner = lambda z: [(float(a), float(b)) for a, b in zip(z.s, z.z) if 0 < a < 1]
    with Parallel(1, 'loky') as pool:
        if kind == 'bridges':
            base, thi = toy.ito_model('const', t, v, [0, 0]), np.array([.5, 1.])
            one, two = base.sample_aug(thi, t, v, g), base.sample_aug(thi, t, v, g)
            new = set(p for z in two for p in inner(z))
            mod = base._replace(sample_aug=lambda *a: two)
            for _ in range(n):
                z = ito.update_sde(thi, one, mod, ito.Controls(pr_portkey=0.), g, pool)
                res.append([any(p in new for p in inner(q)) for q in z])
        elif kind == 'sections':
            base, thi = toy.sw_model('const', t, v, [0, 0]), np.array([[.5, 1.], [.5, 1.]])
            y = Skeleton(np.array([0.]), np.array([0]), t[-1])
            one, two = base.sample_aug(thi, y, t, v, g), base.sample_aug(thi, y, t, v, g)
            new = set(p for z in two[0] for p in inner(z))
            mod = base._replace(sample_aug=lambda *a: two)
            reg = types.SimpleNamespace(propose=lambda *a: (y, t[1:-1]), adapt=lambda *a: None)
            lam = np.array([[-1., 1.], [1., -1.]])
            for _ in range(n):
                z, h = swm.update_hidden(thi, lam, *one, mod, swm.Controls(pr_portkey=0., precoin=False), reg, g, pool)
                res.append([any(p in new for p in inner(q)) for q in z])
        else:
            mod, thi = toy.sw_model('const', t, v, [0, 0], K), np.tile([.5, 1.], (K, 1))
            y = Skeleton(t[:-1], np.arange(K), t[-1])
            z, h = mod.sample_aug(thi, y, t, v, g)
            for _ in range(n):
                ps = [toy.FixedProposal(k, thi[k] * [-1., 1.], 0., 0.) for k in range(K)]
                swm.update_params(thi, z, h, mod, swm.Controls(pr_portkey=0., precoin=False), ps, g, pool)
                res.append([bool(p.told[0][1]) for p in ps])
    r = np.array(res)
    out.append({'ev': 'Begin', 'id': 'independent ' + kind})
    out.append(dict(ev='Indep', what=kind, n=n, k=r.sum(0).tolist(), side=[int((r[:, a] == r[:, b]).sum()) for a in range(K) for b in range(a)],
                    next=(r[1:] == r[:-1]).sum(0).tolist()))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    names = sorted(lib_calls())
    js = []
    for i, name in enumerate(['ou', 'ou2', 'ou3'] if q else sw.NAMES):
        js.append(('sw.mcmc:' + name, chain_job, dict(seed=seed, kind='sw.mcmc', name=name, i=i, n=6 if q else 30, cores=[2] if q else [2, 3, 5]), 600))
        js.append(('api:sw:' + name, api_job, dict(seed=seed, kind='sw', name=name), 600))
    for i in range(2 if q else 8):
        js.append(('ito.mcmc:%d' % i, chain_job, dict(seed=seed, kind='ito.mcmc', name='ou', i=i, n=6 if q else 30, cores=[2, 3] if q else [2, 3, 5]), 600))
    js.append(('ito.mcem', chain_job, dict(seed=seed, kind='ito.mcem', name='ou', i=0, n=2 if q else 4, cores=[2]), 900))
    js.append(('sw.mcem', chain_job, dict(seed=seed, kind='sw.mcem', name='ou', i=0, n=2 if q else 3, cores=[2]), 900))
    js.append(('api:ito', api_job, dict(seed=seed, kind='ito', name='ou'), 600))
    for k in range(4):
        js.append(('calls:%d' % k, lib_job, dict(seed=seed, names=names[k::4], n=4 if q else 60), 600))
    for kind in ('bridges', 'sections', 'parameters'):
        js.append(('indep:' + kind, indep_job, dict(seed=seed, kind=kind, n=300 if q else 5000), 600))
    js.append(('fresh', fresh_job, dict(seed=seed, names=names, n=3 if q else 20), 600))
    return js
