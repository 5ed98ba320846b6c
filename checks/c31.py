"""C31: nearest-neighbour mapping uses the true neighbours with the true weights and copies values unchanged."""
import numpy as np
import pbe
from pelicun.tools.NNR import NNR

ID = 'C31'
RULE = ('seeded point sets (1-4 dimensions, clusters, regular grids with ties, duplicate and co-located points, single points), 1-3 '
        'features, single values or realizations, all weightings, 1 to all neighbours; expected values against a brute-force reference; '
        'resampled values traced back to (neighbour, realization) through unique codes; neighbour frequencies within 6 sigma')
QUICK, THOROUGH = 700, 60000
MIN_OBS = {'resampled': 250, 'expected': 200, 'frequencies': 300, 'colocated': 60, 'ties': 30, 'independence': 40}


def points(rng, n, d, like=None):
    k = rng.random()
    if k < .25:
        p = rng.integers(0, 4, (n, d)).astype(float) * 10 ** rng.uniform(-2, 2)
    elif k < .5:
        p = rng.normal(size=(n, d)) * .01 + rng.integers(0, 3, (n, 1)) + 120.
    else:
        p = rng.uniform(-1, 1, (n, d)) * 10 ** rng.uniform(-4, 4)
    if like is not None:
        lo, hi = like.min(axis=0), like.max(axis=0)
        p = lo + (hi - lo) * rng.uniform(-.2, 1.2, (n, d))
        for i in range(n):
            if rng.random() < .3:
                p[i] = like[int(rng.integers(len(like)))]
    return p


def case(ctx):
    rng = ctx.rng
    d, ns, nt = int(rng.integers(1, 4)), int(pbe.pick(rng, [1, 2, 4, 9, 30])), int(rng.integers(1, 8))
    src = points(rng, ns, d)
    tgt = points(rng, nt, d, src)
    k = int(rng.integers(1, min(ns, 7) + 1))
    weight = str(pbe.pick(rng, ['distance2', 'distance1', 'uniform']))
    nf, nr = int(rng.integers(1, 4)), int(pbe.pick(rng, [1, 3, 50]))
    kind = pbe.pick(rng, ['3d', '3d', '2d', '1d'])
    # every value tells the point, feature and realization it comes from
    code = np.arange(ns)[:, None, None] * 1e6 + np.arange(nf)[None, :, None] * 1e4 + np.arange(nr)[None, None, :] + .5
    known = {'3d': code, '2d': code[:, :, 0], '1d': code[:, 0, 0]}[kind]
    if kind == '1d':
        nf = 1
    S = int(pbe.pick(rng, [-1, 1, 7, 60, 1500]))
    seed = int(rng.integers(1e6))
    one = d == 1 and rng.random() < .5
    ctx.describe(dimensions=d, sources=ns, targets=nt, neighbors=k, weight=weight, values=kind, features=nf, realizations=nr, sample_size=S)
    args = [tgt.ravel() if one else tgt, src.ravel() if one else src, known]
    if rng.random() < .3:
        args = [np.asfortranarray(a) for a in args]
    before = [a.copy() for a in args]

    def call(sd=seed):
        return NNR(*args, sample_size=S, n_neighbors=k, weight=weight, seed=sd)

    out = call()
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, before)), 'mutates-input', 'arguments changed')
    shape = (nt, nf, S) if S > 0 else {'3d': (nt, nf, nr), '2d': (nt, nf), '1d': (nt,)}[kind]
    if not ctx.check(out.shape == shape, 'shape', f'{out.shape} instead of {shape}'):
        return
    np.random.seed(3)
    ctx.check(np.array_equal(out, call()), 'not-deterministic', 'same seed, different values')

    dist = np.sqrt(((tgt[:, None, :] - src[None, :, :]) ** 2).sum(axis=2))
    for t in range(nt):
        order = np.argsort(dist[t], kind='stable')
        dk = dist[t, order[k - 1]]
        tol = 1e-9 * (1e-3 * np.abs(src).max() + dk) + 1e-300
        sure = dist[t] < dk - tol
        maybe = ~sure & (dist[t] <= dk + tol)
        tie = maybe.sum() > k - sure.sum()
        ctx.count('ties', tie)
        if (dist[t] == 0).any():
            ctx.count('colocated')
        dd = dist[t, order[:k]] + 1e-20
        w = {'distance2': 1 / dd ** 2, 'distance1': 1 / dd, 'uniform': np.ones(k)}[weight]
        w = w / w.sum()
        # distances much smaller than the coordinates are only known roughly
        fuzzy = bool(((dd < 1e-6 * np.abs(src).max()) & (dd > 1e-19)).any())
        if S < 0:
            ctx.count('expected')
            if tie or fuzzy:
                v = known[sure | maybe].reshape(int((sure | maybe).sum()), -1)
                o = out[t].reshape(-1)
                ctx.check((o >= v.min(axis=0) - 1e-3).all() and (o <= v.max(axis=0) + 1e-3).all(), 'expected-range', lambda: f'target {t}')
                continue
            exp = np.tensordot(w, known[order[:k]], axes=(0, 0))
            ctx.close(out[t], exp, 'expected-value', f'target {t} distances {dd}', rtol=1e-7)
            ctx.observe('expected', kind, weight, k, d, bool((dist[t] == 0).any()))
            continue
        ctx.count('resampled')
        x = out[t]                                            # features x S
        p, f, r = (x // 1e6), (x % 1e6) // 1e4, x % 1e4 - .5
        good = (p == p[:1]).all() and (f == np.arange(nf)[:, None]).all() and (r == r[:1]).all()
        if not ctx.check(good, 'values-altered', lambda: f'target {t}: {x[:, :4].tolist()}'):
            return
        p = p[0].astype(int)
        ctx.check(np.isin(p, np.where(sure | maybe)[0]).all(), 'not-a-neighbor', lambda: f'target {t}: points {sorted(set(p.tolist()))}, nearest {order[:k].tolist()}')
        if kind == '3d':
            # realizations are passed on in order, starting over when there are more samples
            ctx.check((r[0] == np.arange(S) % nr).all(), 'realization', lambda: f'target {t}: {r[0][:6].tolist()}')
        if S >= 60 and not fuzzy and not tie:
            ctx.count('frequencies')
            for j, wj in zip(order[:k], w):
                obs, e = int((p == j).sum()), S * wj
                sd = np.sqrt(S * wj * (1 - wj))
                ctx.check(abs(obs - e) <= 6 * sd + 8 * (sd < 3) + 1e-6, 'weights', lambda: f'target {t} point {j}: {obs} of {S}, expected {e:.1f} +- {sd:.1f} (distances {dd})')
            ctx.observe('resampled', kind, weight, k, d, S, bool((dist[t] == 0).any()))
    if S >= 1500:
        # realizations and targets are drawn independently of each other
        ctx.count('independence')
        P = (out[:, 0, :] // 1e6).astype(int)
        for t in range(nt):
            w = np.bincount(P[t], minlength=ns) / S
            q = float((w ** 2).sum())
            same = float((P[t][1:] == P[t][:-1]).mean())
            ctx.check(abs(same - q) <= 7 * np.sqrt(q * (1 - q) / S) + .02, 'runs', lambda: f'target {t}: consecutive realizations from the same point in {same:.3f}, expected {q:.3f}')
            u = (t + 1) % nt
            if u != t:
                w2 = np.bincount(P[u], minlength=ns) / S
                q = float((w * w2).sum())
                same = float((P[t] == P[u]).mean())
                ctx.check(abs(same - q) <= 7 * np.sqrt(max(q * (1 - q), 1e-4) / S) + .02, 'dependent-targets', lambda: f'targets {t, u} from the same point in {same:.3f}, expected {q:.3f}')
        if 1 < k and (P != P[:, :1]).any():
            ctx.check(not np.array_equal(out, call(seed + 1)), 'seed-ignored', 'another seed gives the same sample')
            ctx.check(not np.array_equal(call(None), call(None)), 'unseeded-repeats', 'samples without a seed repeat')
