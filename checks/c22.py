"""C22: loss-function losses interpolate the stated function at the demand."""
import numpy as np
import dmg
import loss
import pbe

ID = 'C22'
RULE = ('seeded buildings with components on loss functions for some or all decision variables (other ones on damage states), '
        'loss functions in any unit, directional and non-directional demands with offsets, blocks, random quantities, shared and '
        'renamed consequences; every column against function(demand) x quantity, deviations against the stated distribution, '
        'and proportionality to quantity by a second run with quantities doubled')
QUICK, THOROUGH = 220, 12000
MIN_OBS = {'loss_columns': 2000, 'uncertain_columns': 600, 'deviations': 4000, 'mixed_models': 40, 'doubled': 60, 'multi_block_tests': 20}


def run(ctx, m, L, seed, marginals=None):
    a = m.build(seed=seed, load=False, marginals=marginals)
    if len(m.frag):
        a.damage.load_model_parameters([m.frag], set(a.asset.list_unique_component_ids()))
        a.damage.calculate()
    L.load(a)
    marg = a.asset.cmp_marginal_params.copy()
    a.loss.calculate()
    ctx.check(marg.equals(a.asset.cmp_marginal_params), 'marginals-changed', 'loss calculation changed the component model')
    return a


def case(ctx):
    rng = ctx.rng
    method = pbe.pick(rng, ['LHS', 'LHS', 'LHS', 'MonteCarlo', 'LHS_midpoint'])
    big = rng.random() < .12
    m = dmg.Model(rng, n=int(rng.choice([400, 1500])) if big else None, random_quantities=True, exprs=False,
                  ncmp=1 if big else None, blocks=rng.random() < .8)
    m.opts.update({'SamplingMethod': method})
    L = loss.Losses(rng, m, lf=float(rng.choice([1., .6])), p_family=.9 if big else .5)
    if L.functions is None:
        ctx.count('no_functions')
        return
    mixed = L.table is not None and any(L.ds.values())
    ctx.count('mixed_models', mixed)
    keep_frag = mixed or rng.random() < .4
    if not keep_frag:
        m.frag = m.frag.iloc[:0]
    ctx.describe(functions=L.functions, map=L.map, marginals=m.marginals, frag=m.frag)
    seed = int(rng.integers(1e6))
    a = run(ctx, m, L, seed)
    qty = pbe.as_dict(a.asset.cmp_sample)
    exp = L.lf_losses(qty)
    sample = a.loss.lf_model.sample
    if not exp:
        ctx.check(sample is None or sample.shape[1] == 0, 'phantom', 'losses without loss functions')
        return
    if not ctx.check(sample is not None, 'no-sample', lambda: f'no loss sample, expected {list(exp)[:3]}'):
        return
    if not ctx.check(list(sample.columns.names) == ['dv', 'loss', 'dmg', 'loc', 'dir', 'uid'], 'levels', list(sample.columns.names)):
        return
    obs = pbe.as_dict(sample)
    if not ctx.check(set(obs) == set(exp) and len(obs) == sample.shape[1], 'columns',
                     lambda: f'extra {sorted(set(obs) - set(exp))[:3]} missing {sorted(set(exp) - set(obs))[:3]}'):
        return
    for k, (x, tol, e, nb) in exp.items():
        o = obs[k]
        ctx.count('loss_columns')
        ctx.observe(e['fam'], nb > 1, k[4] == '0', len(e['x']) > 2, mixed, big, method)
        if not ctx.check(np.isfinite(o).all() and (o >= 0).all(), 'invalid', lambda: f'{k}: {o}'):
            continue
        if e['fam'] in (None, 'deterministic'):
            ctx.check(np.all(np.abs(o - x) <= tol + 1e-6 * np.abs(x)), 'value',
                      lambda: f'{k}: observed {o[:6]} expected {x[:6]} (blocks {nb}, quantity {qty[k[2:]][:6]})')
            continue
        ctx.count('uncertain_columns')
        on = x > tol * 100
        r, w = np.full(len(x), np.nan), np.zeros(len(x))
        r[on] = o[on] / x[on]
        w[on] = r[on] * (2 * tol[on] / x[on] + 2e-6)
        ctx.count('deviations', on.sum())
        n = int(on.sum())
        if not n:
            continue
        cdf = lambda v: loss.ratio_cdf(e, True, v)  # noqa: E731
        if nb == 1:
            if method != 'MonteCarlo':
                bad = loss.crowded(r, w, cdf)
                ctx.check(bad == 0, 'distribution', lambda: f'{k}: {bad} of {n} deviations share a stratum of {e}: {r[on][:6]}')
            u = np.sort(cdf(r[on]))
        else:
            # the sum of independent blocks, against a simulated reference
            ref = np.sort(loss.ratio_ppf(e, True)(np.random.default_rng(1).uniform(size=(nb, 40000))).mean(axis=0))
            u = np.sort(np.searchsorted(ref, r[on]) / len(ref))
            ctx.count('multi_block_tests', n > 5)
        ks = max(np.abs(u - np.arange(1, n + 1) / n).max(), np.abs(u - np.arange(n) / n).max())
        ctx.check(ks <= 3.5 / np.sqrt(n) + (.02 if nb > 1 else 0), 'distribution',
                  lambda: f'{k}: deviations {r[on][:6]} of {nb} blocks do not follow {e} (KS {ks:.3f}, n {n})')
        ctx.check(n < 2 or len(np.unique(u)) >= 2, 'constant', lambda: f'{k}: deviations {r[on][:6]} do not vary')
    # twice the quantity is twice the loss, realization by realization
    if rng.random() < .4:
        M = m.marginals.copy()
        M['Theta_0'] = M['Theta_0'] * 2
        b = pbe.as_dict(run(ctx, m, L, seed, M).loss.lf_model.sample)
        ctx.count('doubled')
        ctx.check(set(b) == set(obs), 'double', lambda: f'{set(b) ^ set(obs)}')
        for k in set(b) & set(obs):
            ctx.close(b[k], 2 * obs[k], 'proportional', f'{k} with quantities doubled', rtol=1e-9)
