"""C21: damage-state losses follow the consequence functions and economies of scale."""
import numpy as np
import dmg
import loss
import pbe

ID = 'C21'
RULE = ('seeded buildings (1-12 stories, 1-5 components, blocks, random quantities), consequences per decision variable and damage '
        'state (constant or quantity dependent; none/deterministic/normal/lognormal; any unit), all four economies-of-scale '
        'settings; every loss column against quantity x interpolated median, and the observed deviations against the stated '
        'distribution (one per stratum for stratified samples, 6 sigma otherwise)')
QUICK, THOROUGH = 190, 9000
MIN_OBS = {'loss_columns': 3000, 'functional_columns': 800, 'uncertain_columns': 800, 'deviations': 8000, 'eco_TrueFalse': 25,
           'eco_TrueTrue': 25, 'eco_FalseTrue': 25, 'eco_FalseFalse': 25, 'cost_time_pairs': 10}


def case(ctx):
    rng = ctx.rng
    eco = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    method = pbe.pick(rng, ['LHS', 'LHS', 'LHS', 'MonteCarlo', 'LHS_midpoint'])
    big = rng.random() < .15
    rho = float(pbe.pick(rng, [.6, -.8, .95])) if big and rng.random() < .5 else 0.
    m = dmg.Model(rng, n=int(rng.choice([400, 1500])) if big else None, weights=True, random_quantities=True, exprs=False,
                  ncmp=2 if big else None)
    m.opts.update({'EconomiesOfScale': eco, 'SamplingMethod': method, 'RepairCostAndTimeCorrelation': rho})
    L = loss.Losses(rng, m, lf=0., dvs=('Cost', 'Time') if rho else None, p_family=.9 if big else .5,
                    families=('lognormal', 'normal') if rho else ('lognormal', 'normal', 'deterministic'))
    ctx.describe(frag=m.frag, consequences=L.table, eco=eco, map=L.map)
    a = m.build(seed=int(rng.integers(1e6)))
    a.damage.calculate()
    if L.table is None:
        L.table = L._frame({'unused.1-Cost': {'DV-Unit': 'USD', 'Quantity-Unit': '1 EA', 'Incomplete-': 0, 'DS1-Theta_0': 1.}})
    L.load(a)
    q = dmg.qty_dict(a)
    before = {k: v.copy() for k, v in q.items()}
    a.loss.calculate()
    ctx.count(f'eco_{eco["AcrossFloors"]}{eco["AcrossDamageStates"]}')
    after = dmg.qty_dict(a)
    ctx.check(list(after) == list(before) and all(np.array_equal(after[k], before[k], equal_nan=True) for k in before),
              'damage-changed', 'loss calculation changed the damage sample')
    exp = L.ds_losses(q, eco['AcrossFloors'], eco['AcrossDamageStates'])
    sample = a.loss.ds_model.sample
    if not exp:
        ctx.count('no_losses')
        ctx.check(sample is None or not (sample.to_numpy(dtype=float) != 0).any(), 'phantom', 'losses without consequences')
        return
    if not ctx.check(sample is not None, 'no-sample', lambda: f'no loss sample, expected {list(exp)[:3]}'):
        return
    if not ctx.check(list(sample.columns.names) == ['dv', 'loss', 'dmg', 'ds', 'loc', 'dir', 'uid'], 'levels', list(sample.columns.names)):
        return
    obs = pbe.as_dict(sample)
    if not ctx.check(set(obs) == set(exp) and len(obs) == sample.shape[1], 'columns',
                     lambda: f'extra {sorted(set(obs) - set(exp))[:3]} missing {sorted(set(exp) - set(obs))[:3]}'):
        return
    dev = {}
    for k, (x, tol, e) in exp.items():
        o = obs[k]
        ctx.count('loss_columns')
        if e['fn'] is not None:
            ctx.count('functional_columns')
        if not ctx.check(np.isfinite(o).all() and (o >= 0).all(), 'invalid', lambda: f'{k}: {o}'):
            continue
        if e['fam'] in (None, 'deterministic'):
            if e['fam'] and e['fn'] is None:
                x = x * e['t0']
            ctx.check(np.all(np.abs(o - x) <= tol + 1e-6 * np.abs(x)), 'value',
                      lambda: f'{k} eco {eco}: observed {o[:6]} expected {x[:6]} (quantity {q[k[2:3] + k[4:] + k[3:4]][:6]}, {e})')
            continue
        ctx.count('uncertain_columns')
        on = x > 0
        ctx.check((o[~on] == 0).all(), 'undamaged-loss', lambda: f'{k}: {o[~on][:5]} where nothing is damaged')
        if not on.any():
            continue
        r, w = np.full(len(x), np.nan), np.zeros(len(x))
        r[on] = o[on] / x[on]
        w[on] = r[on] * (2 * tol[on] / x[on] if e['fn'] is not None else 0) + 2e-6 * r[on]
        dev[k] = r
        ctx.count('deviations', on.sum())
        fnl = e['fn'] is not None
        cdf = lambda v: loss.ratio_cdf(e, fnl, v)  # noqa: E731
        if method != 'MonteCarlo' and not rho:
            bad = loss.crowded(r, w, cdf)
            ctx.check(bad == 0, 'distribution', lambda: f'{k}: {bad} of {on.sum()} deviations share a stratum of {e}: {r[on][:6]}')
        u = np.sort(cdf(r[on]))
        n = len(u)
        ks = max(np.abs(u - np.arange(1, n + 1) / n).max(), np.abs(u - np.arange(n) / n).max())
        # the damaged realizations are a random subset: bounded like an independent sample
        ctx.check(ks <= 3.5 / np.sqrt(n), 'distribution', lambda: f'{k}: deviations {r[on][:6]} do not follow {e} (KS {ks:.3f}, n {n})')
        ctx.check(len(np.unique(u)) >= min(n, 2) or method == 'LHS_midpoint', 'constant', lambda: f'{k}: deviations {r[on][:6]} do not vary')
    # deviations are independent between groups, and correlated between cost and time only if requested
    from scipy import stats
    ks_ = list(dev)
    for i, k in enumerate(ks_):
        for j in range(i):
            h = ks_[j]
            both = ~np.isnan(dev[k]) & ~np.isnan(dev[h])
            n = both.sum()
            if n < 200:
                continue
            zi, zj = (stats.norm.ppf(np.clip(loss.ratio_cdf(exp[t][2], exp[t][2]['fn'] is not None, dev[t][both]), 1e-12, 1 - 1e-12)) for t in (k, h))
            r = np.corrcoef(zi, zj)[0, 1]
            pair = {k[0], h[0]} == {'Cost', 'Time'} and k[2:] == h[2:]
            want = rho if pair else 0.
            ctx.count('cost_time_pairs' if pair and rho else 'independent_pairs')
            ctx.check(abs(np.arctanh(np.clip(r, -.99999, .99999)) - np.arctanh(want)) <= 6.5 / np.sqrt(n - 3), 'correlation',
                      lambda: f'{h} and {k}: correlation {r:.3f} of the deviations, expected {want}')
    ctx.observe('eco', eco, method, len(exp) > 10)
    for k, (x, tol, e) in exp.items():
        ctx.observe(e['fam'], e['fn'] is not None, eco['AcrossFloors'], eco['AcrossDamageStates'], k[3], (x > 0).all(), (x == 0).all(), len(x) > 1)
