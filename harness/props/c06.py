"""C06: the two-coin factories."""
import numpy as np

from lib import fx, fxs, fxm, rng_for

LEVEL = 'model_checking'
TRACE = 'Trace_TwoCoin'
CHUNKS = 8
ASSUMPTIONS = ['coins are supplied by the driver; escape and coin choice are internal and judged through their consequences and frequencies']


def models(tier):
    return [dict(spec='MC_TwoCoin', cfg='MC_TwoCoin' if tier == 'quick' else 'MC_TwoCoin_big',
                 checks='WithinBudget SuccessEnds NothingLost HeadsObject NeverStuck; kernel balance in exact arithmetic')]


class Tape:
    """Coins that record every flip; success of coin c at its k-th flip as prescribed (or by a function)."""

    def __init__(self, out, when):
        self.out, self.when, self.n, self.seen = out, when, 0, [0, 0, 0]

    def flip(self, c):
        self.n += 1
        self.seen[c] += 1
        ok = self.seen[c] == self.when[c]
        self.out.append({'ev': 'Flip', 'coin': c, 'ok': ok, 'obj': self.n})
        return ok, self.n

    def solo(self, c):
        while True:
            yield self.flip(c)

    def joint(self):
        upside = (yield None, 0)
        while True:
            upside = (yield self.flip(1 if upside else 2))


def run(out, when, mx, esc, joint, w1, w2, g, r, wcode, shift=0.):
    from ctbayes.misc.bfactories import sample_twocoin, sample_twocoin_joint
    from ctbayes.misc.exceptions import BudgetConstraintError
    out.append({'ev': 'Open', 'max': mx, 'joint': joint, 'obj': 0, 'esc': esc, 'w': wcode})
    tape = Tape(out, when)
    try:
        if joint:
            acc, es, obj = sample_twocoin_joint(w1, w2, tape.joint(), r, g, mx)
        else:
            acc, es, obj = sample_twocoin(w1, w2, tape.solo(1), tape.solo(2), r, 0, g, mx)
        out.append({'ev': 'Return', 'acc': bool(acc), 'esc': bool(es), 'obj': obj})
    except BudgetConstraintError:
        out.append({'ev': 'Raise'})


def replays(out, seed, cases):
    g = rng_for('c06r', seed)
    for n, c in enumerate(cases):
        if n % 20 == 0:
            out.append({'ev': 'Begin', 'id': 'replay %d' % n})
        w1, w2 = [(float(g.uniform(-1, 1)),) * 2, (-np.inf, .3), (-.2, -np.inf)][c['w']]
        if c['w'] == 0 and n % 2:
            s = float(g.choice([-700., 700., 0.]))
            w1, w2 = w1 + s, w2 + s + float(g.uniform(-1, 1))
        r = {0: 0., 1: .5, 2: 1.}[c['esc']]
        for _ in range(3):
            run(out, [None, c['k1'], c['k2']], c['max'], c['esc'], c['joint'], w1, w2, g, r, c['w'])


def law(out, seed, n, joint, d, p1, p2, r, mx):
    from ctbayes.misc.bfactories import sample_twocoin, sample_twocoin_joint
    from ctbayes.misc.exceptions import BudgetConstraintError
    g = rng_for('c06l', seed, int(joint), int(d * 10 + 500), int(p1 * 100), int(p2 * 100), int(r * 100), mx)
    base = float(g.uniform(-5, 5))
    h = {'heads': 0, 'tails': 0, 'escapes': 0, 'raised': 0}

    def solo(p):
        while True:
            yield bool(g.uniform() < p), None

    def jnt():
        up = (yield None, None)
        while True:
            up = (yield bool(g.uniform() < (p1 if up else p2)), None)
    for _ in range(n):
        try:
            if joint:
                acc, es, _o = sample_twocoin_joint(base, base + d, jnt(), r, g, mx)
            else:
                acc, es, _o = sample_twocoin(base, base + d, solo(p1), solo(p2), r, None, g, mx)
            h['heads' if acc else 'escapes' if es else 'tails'] += 1
        except BudgetConstraintError:
            h['raised'] += 1
    out.append({'ev': 'Begin', 'id': 'law'})
    out.append({'ev': 'Law', 'joint': joint, 'd': fx(d), 'p1': fx(p1), 'p2': fx(p2), 'r': fx(r), 'max': mx, 'n': n, **h})


def kernel(out, seed, n, joint, r, steps):
    from ctbayes.misc.bfactories import sample_twocoin, sample_twocoin_joint
    g = rng_for('c06k', seed, int(joint), int(r * 100), steps)
    w = np.array([1.0, 1.6])
    f = np.array([[.9, .15], [.2, .8]])
    m = np.array([[w[x] * (f[x, a] + f[x, b]) / 2 for a in (0, 1) for b in (0, 1)] for x in (0, 1)])
    m = (m / m.sum()).ravel()
    start = g.choice(8, n, p=m)
    u = g.bit_generator

    def look(z, x):
        z = list(z)
        c = int(g.uniform() < .5)
        if z[c] is None:
            z[c] = int(g.uniform() < .5)
        return bool(g.uniform() < f[x, z[c]]), tuple(z)

    def coin(z, x):
        while True:
            ok, z = look(z, x)
            yield ok, z

    def coins(z, x, y):
        up = (yield None, z)
        while True:
            ok, z = look(z, y if up else x)
            up = (yield ok, z)
    cnt = np.zeros((2, 4), int)
    for s in start:
        x, z = int(s) // 4, (int(s) % 4 // 2, int(s) % 2)
        for _ in range(steps):
            y = 1 - x
            if joint:
                acc, _e, z = sample_twocoin_joint(np.log(w[y]), np.log(w[x]), coins(z, x, y), r, g)
            else:
                acc, _e, z = sample_twocoin(np.log(w[y]), np.log(w[x]), coin((None, None), y), coin(z, x), r, z, g)
            x = y if acc else x
        z = [int(g.uniform() < .5) if v is None else v for v in z]
        cnt[x, 2 * z[0] + z[1]] += 1
    out.append({'ev': 'Begin', 'id': 'kernel'})
    out.append({'ev': 'Kernel', 'joint': joint, 'r': fx(r), 'steps': steps, 'w': fxs(w), 'f': fxm(f), 'cnt': cnt.tolist(), 'n': n})


def jobs(tier, seed, cases):
    c = cases['coins']
    per = -(-len(c) // 8)
    js = [('replay:%d' % i, replays, dict(seed=seed * 100 + i, cases=c[i:i + per]), 200) for i in range(0, len(c), per)]
    n = 30000 if tier == 'quick' else 500000
    for joint in (False, True):
        for d, p1, p2, r, mx in ((0., .5, .5, 0., 3), (1.2, .6, .3, .1, 4), (-2., .2, .7, .01, 1000), (0.5, .1, .05, .3, 2), (-.3, .9, .1, 0., 1000), (3., .5, .02, .05, 6)):
            js.append(('law', law, dict(seed=seed, n=n, joint=joint, d=d, p1=p1, p2=p2, r=r, mx=mx), 800))
        for r, steps in ((0., 3), (.5, 4), (1., 6)):
            js.append(('kernel', kernel, dict(seed=seed, n=n // 2, joint=joint, r=r, steps=steps), 800))
    return js
