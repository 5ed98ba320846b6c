"""C16: damage states follow from demands and capacities."""
import numpy as np
import pandas as pd
import dmg
import pbe

ID = 'C16'
RULE = ('seeded assets, demand samples and fragilities with known capacities: demand types and subtypes, offsets, directional '
        'and non-directional, expressions, 1-4 limit states (gaps, not monotone, equality), options, batch sizes; every block '
        'and realization is compared with an independent evaluation of the definition')
QUICK, THOROUGH = 220, 6000
MIN_OBS = {'blocks': 3000, 'states': 40000, 'expression_blocks': 200, 'missing_demand_rejected': 15}


def case(ctx):
    rng = ctx.rng
    m = dmg.Model(rng, gaps=True, n=int(rng.choice([1, 2, 5, 12, 40, 150])), magnitude=float(rng.choice([1., 1., 1., 1., 1e-12, 1e9])))
    ctx.describe(opts=m.opts, components={k: {**v, 'ls': len(v['ls'])} for k, v in list(m.cmps.items())[:3]},
                 demands=list(m.demands.columns)[:6], groups=len(m.pgs))
    frag = m.frag
    src = int(rng.integers(3))
    a = m.build(int(rng.integers(1e6)), load=False)
    if src == 0:
        p = str(ctx.tmp() / 'frag.csv')
        frag.to_csv(p)
        data = p
    elif src == 1:
        data = frag.copy()
        data.columns = pd.MultiIndex.from_tuples([tuple(c.split('-')) for c in data.columns])
    else:
        data = frag
    if rng.random() < .15:
        # the same demands, obtained by cloning
        cloning, cols = {}, []
        for i, c in enumerate(m.demands.columns):
            cols.append(f'PGV-{i}-1')
            cloning[cols[-1]] = [c]
        dup = m.demands.copy()
        dup.columns = cols
        a.demand.load_sample(dup)
        a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
        a.demand.generate_sample({'SampleSize': m.n, 'PreserveRawOrder': True, 'DemandCloning': cloning})
        ctx.count('cloned')
    a.damage.load_model_parameters([data], set(a.asset.list_unique_component_ids()))
    if rng.random() < .12:
        missing(ctx, m, a)
        return
    before = a.demand.sample.copy(deep=True)
    a.damage.calculate(block_batch_size=int(rng.choice([1, 2, 3, 7, 1000])))
    ctx.check(a.demand.sample.equals(before), 'demand_changed', 'the demand sample changed')
    got = dmg.ds_dict(a)
    want_cols = {(*k, str(b)) for k, p in zip(m.pg_keys(), m.pgs) for b in range(1, p['blocks'] + 1)}
    if not ctx.check(set(got) == want_cols, 'blocks', lambda: f'missing {sorted(want_cols - set(got))[:4]} extra {sorted(set(got) - want_cols)[:4]}'):
        return
    probs = a.damage.ds_model.probabilities()
    for p in m.pgs:
        ls, margin = m.limit_state(p)
        c = m.cmps[p['cmp']]
        to_ds = {0: 0, **{i: v['ds'][0] for i, v in c['ls'].items()}}
        want = np.array([to_ds[i] for i in ls])
        ok = margin > 1e-9
        for b in range(1, p['blocks'] + 1):
            k = (p['cmp'], p['loc'], p['dir'], p['uid'], str(b))
            x = got[k]
            ctx.count('blocks')
            ctx.count('states', len(x))
            if c['expr']:
                ctx.count('expression_blocks')
            for s in set(x.tolist()):
                ctx.observe(len(c['ls']), s, c['expr'], tuple(d[2] for d in c['dem']), tuple(d[1] for d in c['dem']))
            bad = ok & (x != want)
            if len(x) != len(want) or bad.any():
                i = int(np.argmax(bad))
                ctx.check(False, 'damage_state', f'{k} {c}: realization {i} demand {m.demand(p)[i]!r} in state {x[i]}, expected {want[i]}')
                return
            ctx.count('assertions')
            row = probs.loc[k]
            for s in set(x.tolist()):
                ctx.close(row[s], np.mean(x == s), 'probabilities', f'{k} DS{s}')
            ctx.check(np.isclose(row.sum(), 1.), 'probabilities', f'{k} sum {row.sum()}')
    ctx.observe('src', src, len(m.pgs) // 8, bool(m.opts))


def missing(ctx, m, a):
    """A demand that is needed but not available must be reported, not replaced."""
    rng = ctx.rng
    p = m.pgs[int(rng.integers(len(m.pgs)))]
    c = m.cmps[p['cmp']]
    x, o, dr = c['dem'][int(rng.integers(len(c['dem'])))]
    e = dmg.TYPES[x]
    lo = str(int(p['loc']) + o + m.offs.get(dmg.BASE(e), 0))
    drop = [k for k in m.dem if k[:2] == (e, lo) and (not dr or p['dir'] in {'0', k[2]})]
    keep = [c for c in m.demands.columns if tuple(c.split('-')) not in drop]
    if not keep:
        return
    a.demand.load_sample(m.demands[keep])
    try:
        a.damage.calculate()
    except (ValueError, KeyError):
        ctx.count('missing_demand_rejected')
        return
    ctx.check(False, 'missing_demand_accepted', f'{p} needs {drop}, which is not available')
