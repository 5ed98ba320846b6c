"""C17: damage calculations conserve component quantities, whatever the batching and the order of components."""
import numpy as np
import pandas as pd
import dmg
import pbe

ID = 'C17'
RULE = ('seeded assets (deterministic and random capacities, damage-state weights, random quantities, blocks, repeated rows); '
        'each is calculated with several batch sizes and component orders, with and without listing all damage states, saved '
        'and reloaded; quantities are checked for conservation against the component sample and for equality between variants')
QUICK, THOROUGH = 64, 2500
MIN_OBS = {'groups': 1500, 'variants': 150, 'reloads': 15}


def conserved(ctx, a, m, tag):
    q = pbe.as_dict(a.asset.cmp_sample)
    d = dmg.qty_dict(a)
    tot = {}
    for k, v in d.items():
        ctx.check(not np.isnan(v).any() and (v >= 0).all(), 'negative_or_missing', f'{tag} {k} {v[:4]}')
        tot[k[:4]] = tot.get(k[:4], 0) + v
    if not ctx.check(set(tot) == set(q), 'groups', lambda: f'{tag} missing {sorted(set(q) - set(tot))[:4]} extra {sorted(set(tot) - set(q))[:4]}'):
        return d
    for k, v in tot.items():
        ctx.count('groups')
        ctx.close(v, q[k], 'not_conserved', f'{tag} {k}')
    return d


def same(ctx, a, b, key, tag):
    if not ctx.check(set(a) == set(b), key, lambda: f'{tag} columns differ: {sorted(set(a) ^ set(b))[:4]}'):
        return
    ctx.check(all(np.allclose(a[k], b[k], rtol=1e-12, atol=0) for k in a), key,
              lambda: f'{tag}: {[k for k in a if not np.allclose(a[k], b[k], rtol=1e-12, atol=0)][:3]}')


def randomize(m, rng):
    """Replaces capacities by random ones."""
    f = m.frag
    for c in list(f.columns):
        if c.endswith('-Theta_0') and c.startswith('LS'):
            i = c.split('-')[0]
            fam, th = [], []
            for _ in f.index:
                k = pbe.pick(rng, ['normal', 'lognormal', None])
                fam.append(k)
                th.append({'normal': .2, 'lognormal': .4}.get(k, np.nan))
            f[f'{i}-Family'], f[f'{i}-Theta_1'] = fam, th


def case(ctx):
    rng = ctx.rng
    det = rng.random() < .5
    rq = bool(rng.random() < .5)
    m = dmg.Model(rng, weights=not det, gaps=True, random_quantities=rq, blocks=bool(rng.random() < .85), maxblocks=int(rng.choice([3, 8])))
    if not det:
        randomize(m, rng)
    seed = int(rng.integers(1e6))
    sizes = [1000] + [int(rng.choice([1, 2, 3, 5, 9, 17, 33])) for _ in range(2)]
    ctx.describe(deterministic=det, random_quantities=rq, batches=sizes, groups=len(m.pgs), blocks=sum(p['blocks'] for p in m.pgs))
    base = None
    for b in sizes:
        a = m.build(seed)
        q0 = a.asset.cmp_sample.copy(deep=True)
        a.damage.calculate(block_batch_size=b)
        ctx.count('variants')
        ctx.check(a.asset.cmp_sample.equals(q0), 'quantities_changed', 'component quantities changed')
        d = conserved(ctx, a, m, f'batch {b}')
        want = dmg.expected_quantities(m, dmg.ds_dict(a), pbe.as_dict(a.asset.cmp_sample))
        if ctx.check(set(want) == set(d), 'states', lambda: f'{sorted(set(want) ^ set(d))[:4]}'):  # noqa: B023
            for k, v in want.items():
                ctx.close(d[k], v, 'quantity', f'batch {b} {k}')
        if base is None:
            base, first = d, a
        elif det:
            same(ctx, base, d, 'batching', f'batch {b}')
    ctx.observe(det, rq, len(m.pgs) // 5, tuple(sorted(p['blocks'] for p in m.pgs))[:6])

    # order of components in the inputs
    if det and not rq:
        names = list(dict.fromkeys(m.marginals.index))
        perm = [names[i] for i in rng.permutation(len(names))]
        m2 = pd.concat([m.marginals.loc[[n]] for n in perm])
        m.frag = m.frag.loc[[n for n in reversed(perm)]]
        a = m.build(seed, marginals=m2)
        a.damage.calculate(block_batch_size=sizes[-1])
        ctx.count('variants')
        same(ctx, base, dmg.qty_dict(a), 'component_order', str(perm))

    # listing all damage states only adds empty columns
    m.opts['ListAllDamageStates'] = True
    a = m.build(seed)
    a.damage.calculate(block_batch_size=1000)
    d = dmg.qty_dict(a)
    # every damage state the fragility defines for a group appears
    groups = set(m.pg_keys())
    full = {(*k, str(s)) for k in groups for s in range(m.cmps[k[0]]['nds'] + 1)}
    ctx.check(set(d) == full, 'list_all_columns', lambda: f'missing {sorted(full - set(d))[:4]} extra {sorted(set(d) - full)[:4]}')
    if det or True:
        for k, v in d.items():
            if k in base:
                ctx.close(v, base[k], 'list_all_changes', str(k))
            else:
                ctx.check((v == 0).all(), 'list_all_nonzero', f'{k} {v[:4]}')

    # saved quantities are in the units of the components and can be read back
    if rng.random() < .5:
        p = str(ctx.tmp() / 'DMG.csv')
        first.damage.save_sample(p, save_units=True)
        saved = first.damage.save_sample(None, save_units=True)
        vals, un = saved
        for c in first.damage.ds_model.sample.columns:
            ctx.close(vals[c].to_numpy(dtype=float) * pbe.U[un[c]], first.damage.ds_model.sample[c].to_numpy(dtype=float), 'saved_values', str(c), rtol=1e-7)
            ctx.check(un[c] in set(m.marginals.loc[[c[0]], 'Units']), 'saved_units', str(c))
        b = m.build(seed)
        b.damage.load_sample(p)
        same_close(ctx, base, dmg.qty_dict(b))
        ctx.count('reloads')


def same_close(ctx, a, b):
    if ctx.check(set(a) == set(b), 'reload', lambda: f'{sorted(set(a) ^ set(b))[:4]}'):
        for k in a:
            ctx.close(b[k], a[k], 'reload', str(k), rtol=1e-7)
