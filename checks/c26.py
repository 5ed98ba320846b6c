"""C26: reading results does not change them; consequence scaling is exact."""
import numpy as np
import pandas as pd
import loss
import pbe

ID = 'C26'
RULE = ('seeded buildings with demand, damage and losses of both kinds; random sequences of read operations (samples, parameters, '
        'aggregation, saving in memory and to files) with repeated outputs compared and all stored samples compared after every '
        'read; consequence scaling files with random targets, ranges and factors against an element-wise reference')
QUICK, THOROUGH = 140, 6000
MIN_OBS = {'reads': 900, 'repeated': 200, 'scalings': 90, 'scaled_columns': 400, 'kept_columns': 800, 'rejected': 10, 'ranges': 40}


def snapshot(a):
    out = {}
    for name, x in (('demand', a.demand.sample), ('asset', a.asset.cmp_sample), ('damage', a.damage.ds_model.sample),
                    ('ds', a.loss.ds_model.sample), ('lf', a.loss.lf_model.sample), ('ds params', a.loss.ds_model.loss_params),
                    ('lf params', a.loss.lf_model.loss_params), ('damage params', a.damage.ds_model.damage_params),
                    ('marginals', a.asset.cmp_marginal_params)):
        if x is not None:
            out[name] = x.copy()
    return out


def same(x, y):
    if isinstance(x, tuple):
        return isinstance(y, tuple) and all(same(u, v) for u, v in zip(x, y))
    if x is None or y is None:
        return x is y
    return (x.index.equals(y.index) and x.index.names == y.index.names
            and (not isinstance(x, pd.DataFrame) or (list(x.columns) == list(y.columns) and x.columns.names == y.columns.names))
            and x.equals(y))


def reads(ctx, a):
    d = ctx.tmp()

    def saved(f, name):
        def g():
            p = d / name
            if p.exists():
                p.unlink()
            f(str(p))
            return pd.read_csv(p, header=None)
        return g
    return {
        'aggregate': lambda: a.loss.aggregate_losses(future=True), 'aggregate_old': lambda: a.loss.aggregate_losses(),
        'sample': lambda: a.loss.sample, 'loss_params': lambda: a.loss.loss_params, 'save_loss': lambda: a.loss.save_sample(),
        'save_loss_units': lambda: a.loss.save_sample(save_units=True), 'file_loss': saved(a.loss.save_sample, 'l.csv'),
        'save_ds': lambda: a.loss.ds_model.save_sample() if a.loss.ds_model.sample is not None else None,
        'save_demand': lambda: a.demand.save_sample(), 'file_demand': saved(a.demand.save_sample, 'd.csv'),
        'save_demand_units': lambda: a.demand.save_sample(save_units=True),
        'save_asset': lambda: a.asset.save_cmp_sample(), 'file_asset': saved(a.asset.save_cmp_sample, 'a.csv'),
        'save_asset_units': lambda: a.asset.save_cmp_sample(save_units=True),
        'save_damage': lambda: a.damage.save_sample(), 'file_damage': saved(a.damage.save_sample, 'm.csv'),
        'save_damage_units': lambda: a.damage.save_sample(save_units=True),
    }


def case(ctx):
    rng = ctx.rng
    m, L, a = loss.problem(ctx, n=int(rng.choice([1, 4, 15])), lf=.4, missing=False, mapped=rng.random() < .5, replacement=.15, dm={'max_rows': 2, 'stories': int(rng.integers(1, 4))})
    if a.loss.sample is None:
        return
    ops = reads(ctx, a)
    base = snapshot(a)
    seen = {}
    names = [n for n in ops if n != 'save_ds' or a.loss.ds_model.sample is not None]
    for _ in range(int(rng.integers(6, 14))):
        n = pbe.pick(rng, names)
        r = ops[n]()
        ctx.count('reads')
        now = snapshot(a)
        for k in base:
            ctx.check(k in now and same(base[k], now[k]), 'changed', lambda: f'{n} changed {k}: {list(base[k].columns)[:3]} -> {list(now[k].columns)[:3]}')
        if n in seen:
            ctx.count('repeated')
            ctx.check(same(seen[n], r), 'different', lambda: f'{n} gave\n{r}\nafter\n{seen[n]}')
        seen[n] = r if not isinstance(r, (pd.DataFrame, pd.Series)) else r.copy()
        ctx.observe(n, a.loss.ds_model.sample is not None, a.loss.lf_model.sample is not None)
    # scaling
    cmps, locs = sorted(m.cmps), sorted({p['loc'] for p in m.pgs}, key=int)
    rows = []
    for _ in range(int(rng.integers(1, 5))):
        r = {'Decision Variable': pbe.pick(rng, [*L.dvs, 'Nothing']), 'Scale Factor': pbe.sig(rng.uniform(0, 3), 4)}
        if rng.random() < .5:
            r['Component'] = pbe.pick(rng, [*cmps, 'none.such'])
        for col, vals in (('Location', locs), ('Direction', ['0', '1', '2'])):
            if rng.random() < .4:
                lo = int(pbe.pick(rng, vals))
                if rng.random() < .5:
                    r[col] = f'{lo:0{int(rng.choice([1, 1, 1, 2]))}d}--{lo + int(rng.integers(0, 4))}'
                    ctx.count('ranges')
                else:
                    r[col] = str(lo)
        rows.append(r)
    df = pd.DataFrame(rows)
    df = df[list(rng.permutation(df.columns))]
    p = ctx.tmp() / 'scale.csv'
    if rng.random() < .12:
        col = pbe.pick(rng, ['Decision Variable', 'Scale Factor'])
        if rng.random() < .5 or len(df) == 1:
            df = df.drop(columns=col)
        else:
            df[col] = [None, *df[col][1:]]
        df.to_csv(p, index=False)
        ctx.count('rejected')
        try:
            a.loss.consequence_scaling(str(p))
        except ValueError:
            ctx.check(all(same(base[k], snapshot(a)[k]) for k in base), 'rejected-changed', 'a rejected scaling changed the samples')
            return
        ctx.violate('rejected', f'a scaling specification without {col} was accepted')
        return
    df.to_csv(p, index=False)
    ctx.describe(scaling=df)
    a.loss.consequence_scaling(str(p))
    ctx.count('scalings')
    now = snapshot(a)

    def factor(k):      # dv, dmg, loc, dir
        f = 1.
        for r in rows:
            ok = r['Decision Variable'] == k[0] and r.get('Component', k[1]) == k[1]
            for col, v in (('Location', k[2]), ('Direction', k[3])):
                if col in r:
                    x = r[col].split('--')
                    ok &= int(x[0]) <= int(v) <= int(x[-1])
            f *= r['Scale Factor'] if ok else 1.
        return f
    for name, i in (('ds', (0, 2, 4, 5)), ('lf', (0, 2, 3, 4))):
        if name not in base:
            continue
        if not ctx.check(list(base[name].columns) == list(now[name].columns), 'scaled-columns', lambda: f'{name} columns changed'):
            continue
        for c in base[name].columns:
            f = factor([str(c[j]) for j in i])
            ctx.count('scaled_columns' if f != 1 else 'kept_columns')
            ctx.close(now[name][c].to_numpy(dtype=float), base[name][c].to_numpy(dtype=float) * f, 'scaling', f'{c} x {f}', rtol=1e-12)
    for k in base:
        if k not in ('ds', 'lf'):
            ctx.check(same(base[k], now[k]), 'scaling-other', f'scaling changed {k}')
