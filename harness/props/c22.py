"""C22: symmetries of paths."""
import numpy as np

from lib import fx, fxs, fxm, rng_for, ticks

LEVEL = 'model_checking'
TRACE = 'Trace_Symmetry'
CHUNKS = 8
ASSUMPTIONS = ['grids are dyadic, so that doubles are exact; seeded extremes are judged in fixed point (1e-4)']


def models(tier):
    return [dict(spec='MC_Symmetry', cfg='MC_Symmetry' if tier == 'quick' else 'MC_Symmetry_big',
                 checks='Involution Order Commute FlipTwice FlipEnds FlipRoles FlipIsBoth PivotEnds')]


def arr(a, unit):
    return np.array(a, float) * unit


def plain_case(out, t, x, T, g, ut, ux):
    from ctbayes.sdelib import transforms as tr
    T_, t_, x_ = T * ut, arr(t, ut), arr(x, ux)
    t0, x0 = t_.copy(), x_.copy()
    rt, rx = tr.reverse(t_, x_, T_)
    bt, bx = tr.reverse(rt, rx, T_)
    out.append(dict(ev='Rev', t=t, x=x, T=T, rt=ticks(rt, ut), rx=ticks(rx, ux), bt=ticks(bt, ut), bx=ticks(bx, ux),
                    intact=bool(np.array_equal(t_, t0) and np.array_equal(x_, x0))))
    a = int(g.integers(-3, 4))
    timed = bool(len(t) and g.uniform() < .7)
    rt, rx = tr.reflect(t_ if timed else None, x_, a * ux)
    bt, bx = tr.reflect(rt, rx, a * ux)
    if g.uniform() < .2 and a == 0:
        rt, rx = tr.reflect(t_ if timed else None, x_)
    out.append(dict(ev='Ref', t=t, x=x, a=a, timed=timed, rt=ticks(rt, ut) if timed else [], rx=ticks(rx, ux), bx=ticks(bx, ux),
                    intact=bool(np.array_equal(t_, t0) and np.array_equal(x_, x0))))


def enc(s, ut, ux):
    return dict(t=ticks(s.t, ut), x=ticks(s.x, ux), tight=ticks([s.tight_x], ux)[0], loose=ticks([s.loose_x], ux)[0], hit=ticks([s.hit_x], ux)[0],
                hi=[bool(h) for h in s.hit_i] if s.hit_i is not None else [])


def flip_case(out, c, ut, ux, none):
    from ctbayes.ea3lib.skeleton import Skeleton, flip_skeleton
    hi = None if none else list(c['hi'])
    s = Skeleton(arr(c['t'], ut), arr(c['x'], ux), c['tight'] * ux, c['loose'] * ux, c['hit'] * ux, hi)
    c0 = enc(s, ut, ux)
    f = flip_skeleton(s)
    b = flip_skeleton(f)
    if none and not (f.hit_i is None and b.hit_i is None):
        raise RuntimeError('crossing marks appeared')
    out.append(dict(ev='Flip', s=c0, f=enc(f, ut, ux), b=enc(b, ut, ux), intact=bool(enc(s, ut, ux) == c0)))


def grid(out, seed, plain, lay, part, T):
    g = rng_for(seed, 'c22grid', part)
    out.append({'ev': 'Begin', 'id': 'grid %d' % part})
    for c in plain:
        plain_case(out, c['t'], c['x'], T, g, float(g.choice([.25, 1., .125, 16.])), float(g.choice([.5, 1., 32.])))
    for c in lay:
        flip_case(out, c, float(g.choice([.25, 1., 16.])), float(g.choice([.5, 1., .0625])), g.uniform() < .2)


def longer(out, seed, n):
    g = rng_for(seed, 'c22longer')
    out.append({'ev': 'Begin', 'id': 'random paths'})
    for _ in range(n):
        k = int(g.integers(3, 40))
        T = int(g.integers(k, 300))
        t = np.sort(g.choice(np.arange(1, T), k - 2, replace=False)) if T > k else np.arange(1, k - 1)
        t = [0] + [int(q) for q in t] + [T]
        x = [int(q) for q in g.integers(-200, 200, len(t))]
        sub = slice(1, -1) if g.uniform() < .5 else slice(None)
        plain_case(out, t[sub], x[sub], T, g, 1 / 64, 1 / 32)
        i = int(g.integers(1, len(x) - 1))
        tight = min(x) - 1
        x[i] = tight
        c = dict(t=t, x=x, tight=tight, hit=max(x) + 3, loose=max(x) + 40, hi=[bool(q) for q in g.integers(2, size=len(t) - 1)])
        if g.uniform() < .5:        # the extreme above
            c.update(x=[-q for q in x], tight=-tight, hit=-c['hit'], loose=-c['loose'])
        flip_case(out, c, 1 / 64, 1 / 32, g.uniform() < .2)


def pivots(out, seed, n):
    from ctbayes.sdelib import transforms as tr
    g = rng_for(seed, 'c22pivots')
    out.append({'ev': 'Begin', 'id': 'pivots'})
    for _ in range(n):
        m = int(g.integers(1, 6))
        k = [int(q) for q in np.sort(g.choice(5, min(m, 5), replace=False))]
        s = [q * q for q in k]
        if g.uniform() < .5:
            s = [int(q) for q in np.sort(g.integers(0, 17, m))]
            k = []
        z = [int(q) for q in g.integers(-20, 20, len(s))]
        x0, x1 = (int(q) for q in g.integers(-30, 30, 2))
        r = int(g.choice([1, 2, 4, 6]))
        clock = str(g.choice(['id', 'quad', 'square'] if k else ['id', 'quad']))
        if clock == 'id':
            T, kw = r * r, {}
        elif clock == 'quad':
            r = max(2, r)
            T, kw = r * r // 4, dict(norm_time=lambda q: 4 * q, denorm_time=lambda q: q / 4)
        else:
            T, kw = r, dict(norm_time=np.square, denorm_time=np.sqrt)
        u = float(g.choice([1., .5, .0625]))
        t, x = tr.pivot_brownbr(np.array(s) / 16, arr(z, u), float(T), x0 * u, x1 * u, **kw)
        out.append(dict(ev='Pivot', s=s, k=k, z=z, r=r, x0=x0, x1=x1, T=T, clock=clock, t=ticks(t, 1 / 16), x=ticks(x, u / 16)))
    for t, T in (([.5, 1.25], 1.), ([-.25, .5], 1.), ([1., 3.], 2.)):
        try:
            tr.reverse(np.array(t), np.zeros(2), T)
            bad = False
        except Exception:
            bad = True
        out.append(dict(ev='Refuse', refused=bad))


def seeds(out, seed, n):
    from ctbayes.sdelib import transforms as tr
    g = rng_for(seed, 'c22seeds')
    out.append({'ev': 'Begin', 'id': 'seeded extremes'})
    for i in range(n):
        u = g.uniform(.001, .999, 3)
        if i % 5 == 0:
            u[0] = float(g.choice([.002, .01, .99, .998]))
        r2 = float(g.chisquare(1))
        T = round(float(np.exp(g.uniform(np.log(.2), np.log(4.)))), 3)
        x0, x1 = np.round(g.normal(size=2) * float(g.choice([0, .5, 1.5])), 3)
        cs, ds = [1.], [0.]
        for _ in range(3):
            cs.append(round(float(np.exp(g.uniform(-.7, .7))), 3))
            ds.append(round(float(g.normal()), 3))
        m, order = [], True
        for c, d in zip(cs, ds):
            a, b, H = c * x0 + d, c * x1 + d, c * c * T
            t, x = tr.gen_seeded_brownbr_min(tuple(u), r2, H, a, b)
            order = order and bool(x <= min(a, b) and 0 < t < H)
            m.append(dict(t=fx(t), x=fx(x), T=fx(H), x0=fx(a), x1=fx(b)))
        up = tr.gen_seeded_brownbr_min((u[0] + (1 - u[0]) * .3, u[1], u[2]), r2, T, x0, x1)[1]
        mono = bool(up > tr.gen_seeded_brownbr_min(tuple(u), r2, T, x0, x1)[1])
        if x0 == 0 == x1 and T == 1.:
            m[0]['x'] = fx(tr.gen_seeded_brownbr_min(tuple(u), r2)[1])
        out.append(dict(ev='Seed', u=fx(u[0]), m=m, c=fxs(cs), d=fxs(ds), order=order, mono=mono))
        k = int(g.integers(1, 4))
        s = np.sort(np.round(g.uniform(.02, .98, k), 3))
        z = np.round(g.normal(scale=.6, size=(k, 3)), 3)
        y = round(abs(float(g.normal())), 3) * float(g.choice([0, 1, 1]))
        z0 = z.copy()
        t, x = tr.gen_seeded_bessel3br(s, z, T, y)
        if not np.array_equal(z, z0):
            raise RuntimeError('argument changed')
        out.append(dict(ev='Bes', s=fxs(s), z=fxm(z), T=fx(T), x1=fx(y), t=fxs(t), x=fxs(x)))


def jobs(tier, seed, cases):
    q = tier == 'quick'
    js = []
    pl, la = cases['plain'], cases['lay']
    T = max(max(c['t']) for c in la)
    if q:
        la = la[seed % 2::2]
    for k in range(8):
        js.append(('grid %d' % k, grid, dict(seed=seed, plain=pl[k::8], lay=la[k::8], part=k, T=T), 600))
    js += [('random paths', longer, dict(seed=seed, n=150 if q else 3000), 600), ('pivots', pivots, dict(seed=seed, n=400 if q else 5000), 600),
           ('seeded', seeds, dict(seed=seed, n=250 if q else 5000), 600)]
    return js
