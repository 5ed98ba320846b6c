"""C20: parameter sources are merged by stated precedence."""
import warnings

import numpy as np
import pandas as pd
import dmg
import pbe
from runner import Skip

ID = 'C20'
RULE = ('seeded buildings whose fragilities are split over 1-4 overlapping sources (tables and CSV files, any order) with conflicting '
        'later definitions (more limit states, families, weights, expressions), incomplete first definitions, unused and missing '
        'components; warnings on/off; ListAllDamageStates on/off; damage states recomputed from the first definition of each '
        'component, reported and excluded components, added columns, saved units and losses of the excluded components; '
        'inputs compared before and after')
QUICK, THOROUGH = 180, 10000
MIN_OBS = {'overlapping': 200, 'incomplete': 40, 'missing': 50, 'blocks': 2000, 'listed': 40, 'warned': 30, 'files': 60, 'added_columns': 100}


def alternative(rng, m, name):
    """Another definition of the component that needs no other demands."""
    c = dict(m.cmps[name])
    if c['expr'] is not None and rng.random() < .5:
        c['expr'], c['dem'] = None, c['dem'][:1]
    u = 'unitless' if c['expr'] == 'X1*X2' else pbe.pick(rng, pbe.EDP_UNITS[dmg.BASE(dmg.TYPES[c['dem'][0][0]])])
    keep = m.cmps[name]
    m.cmps[name] = c
    seen = np.concatenate([m.demand(p) for p in m.pgs if p['cmp'] == name])
    m.cmps[name] = keep
    row = {'Demand-Unit': u}
    c['ls'] = {}
    for i in range(1, int(rng.integers(1, 5)) + 1):
        v = pbe.sig(np.exp(rng.uniform(-.6, .9)) * rng.choice(seen) / pbe.U[u], 9)
        c['ls'][i] = {'cap': v * pbe.U[u], 'ds': [i], 'w': None}
        row[f'LS{i}-Theta_0'] = v
    c['nds'], c['unit'] = len(c['ls']), u
    for j, (x, o, dr) in enumerate(c['dem']):
        p = 'Demand' if j == 0 else f'Demand{j + 1}'
        row[f'{p}-Type'], row[f'{p}-Offset'], row[f'{p}-Directional'] = x, o, dr
    if c['expr'] is not None:
        row['Demand-Expression'] = c['expr']
    return c, row


def case(ctx):
    rng = ctx.rng
    m = dmg.Model(rng, ncmp=int(rng.integers(2, 7)), nls=3, max_rows=2)
    names = list(m.cmps)
    base = {c: m.frag.loc[c].dropna().to_dict() for c in names}
    ns = int(rng.integers(1, 5))
    src = [{} for _ in range(ns)]
    truth, missing, incomplete = {}, set(), set()
    for c in names:
        u = rng.random()
        if u < .12:
            missing.add(c)
            continue
        where = [i for i in range(ns) if rng.random() < .6] or [int(rng.integers(ns))]
        for r, i in enumerate(where):
            cdef, row = (m.cmps[c], dict(base[c])) if rng.random() < .5 else alternative(rng, m, c)
            row['Incomplete-'] = 0
            if r == 0:
                if rng.random() < .15:
                    row['Incomplete-'] = 1
                    incomplete.add(c)
                else:
                    truth[c] = cdef
            else:
                ctx.count('overlapping')
                if rng.random() < .1:
                    row['Incomplete-'] = 1
                for k in [k for k in row if k.endswith('Theta_0')]:
                    if rng.random() < .4:
                        row[k.replace('Theta_0', 'Family')] = 'lognormal'
                        row[k.replace('Theta_0', 'Theta_1')] = .4
                    if rng.random() < .2:
                        row[k.replace('Theta_0', 'DamageStateWeights')] = '0.4 | 0.6'
            src[i][c] = row
    if not truth:
        raise Skip
    for s in src:
        if rng.random() < .4:
            s[f'Z.99.{int(rng.integers(999))}'] = {**base[pbe.pick(rng, names)], 'Incomplete-': int(rng.random() < .3)}
    frames = []
    for s in src:
        if not s:
            continue
        df = pd.DataFrame.from_dict(s, orient='index')
        df = df.loc[list(rng.permutation(df.index)), list(rng.permutation(df.columns))]
        if not (df['Incomplete-'] == 1).any() and rng.random() < .3:
            df = df.drop(columns='Incomplete-')
        if 'LS1-Theta_0' not in df:
            raise Skip
        frames.append(df)
    ctx.count('incomplete', len(incomplete))
    ctx.count('missing', len(missing))
    lst = bool(rng.random() < .5)
    m.opts['ListAllDamageStates'] = lst
    out = missing | incomplete
    warn = bool(rng.random() < .7)
    ctx.describe(sources=frames, marginals=m.marginals, missing=sorted(missing), incomplete=sorted(incomplete), list_all=lst)
    a = m.build(seed=int(rng.integers(1e6)), load=False)
    given, keep = [], []
    for i, f in enumerate(frames):
        if rng.random() < .4:
            p = ctx.tmp() / f's{i}.csv'
            f.to_csv(p)
            given.append(str(p))
            ctx.count('files')
        else:
            given.append(f)
            keep.append((f, f.copy()))
    ids = set(a.asset.list_unique_component_ids())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if warn and rng.random() < .5:
            a.damage.load_model_parameters(given, ids)
        else:
            a.damage.load_model_parameters(given, ids, warn_missing=warn)
    for f, g in keep:
        ctx.check(f.equals(g), 'input-changed', 'a source table was modified')
    ctx.check(set(a.damage.missing_components) == out, 'missing', lambda: f'reported {a.damage.missing_components} expected {out}')
    txt = [str(x.message) for x in w if 'Pelicun' in x.category.__name__]
    named = {c for c in names if any(f"'{c}'" in t for t in txt)}
    ctx.check(named == (out if warn else set()), 'warning', lambda: f'warned of {named}, expected {out if warn else "nothing"}: {txt}')
    ctx.count('warned', bool(named))
    ctx.check(ids == set(names), 'ids-changed', lambda: f'{ids}')
    a.damage.calculate(block_batch_size=int(rng.choice([1, 3, 1000])))
    for c, cdef in truth.items():
        m.cmps[c] = cdef
    allp = m.pgs
    m.pgs = [p for p in m.pgs if p['cmp'] not in out]
    ds, exp = dmg.ds_dict(a), {}
    for p in m.pgs:
        k = (p['cmp'], p['loc'], p['dir'], p['uid'])
        lsid, _ = m.limit_state(p)
        ls = m.cmps[p['cmp']]['ls']
        d = m.demand(p)
        margin = np.min([np.abs(d / x['cap'] - 1) for x in ls.values()], axis=0)    # files may round the last digit
        for b in range(1, p['blocks'] + 1):
            ctx.count('blocks')
            s = ds.get(k + (str(b),))
            if not ctx.check(s is not None, 'block', lambda: f'{k} block {b} has no damage; first definition {m.cmps[p["cmp"]]}'):
                return
            for r in range(m.n):
                if margin[r] < 1e-7:
                    continue
                v = ls[lsid[r]]['ds'] if lsid[r] else [0]
                ctx.check(s[r] in v, 'state', lambda: f'{k} block {b} realization {r}: DS{s[r]} expected {v} by its first definition {ls}')
            exp[k + (str(b),)] = s
    ctx.check(set(ds) == set(exp), 'extra-blocks', lambda: f'{sorted(set(ds) - set(exp))[:4]}')
    qty = pbe.as_dict(a.asset.cmp_sample)
    eq = dmg.expected_quantities(m, exp, qty)
    sample = a.damage.ds_model.sample
    oq = dmg.qty_dict(a)
    full = {(p['cmp'], p['loc'], p['dir'], p['uid'], str(d)) for p in m.pgs for d in range(m.cmps[p['cmp']]['nds'] + 1)} if lst else set(eq)
    ctx.check(set(oq) == full | set(eq) and sample.columns.is_unique, 'columns',
              lambda: f'extra {sorted(set(oq) - full - set(eq))[:4]} missing {sorted((full | set(eq)) - set(oq))[:4]} (all listed: {lst})')
    ctx.count('listed', lst)
    for k, v in oq.items():
        if k in eq:
            ctx.close(v, eq[k], 'quantity', f'{k}', rtol=1e-9)
        else:
            ctx.count('added_columns')
            ctx.check(np.all(v == 0), 'added', lambda: f'{k}: added column is {v[:5]}')
    # the excluded components do not disturb what follows
    tab, units = a.damage.save_sample(save_units=True)
    mu = {(p['cmp']): None for p in allp}
    for c in mu:
        mu[c] = m.marginals.loc[[c], 'Units'].iloc[0]
    ctx.check(set(map(lambda k: tuple(map(str, k)), tab.columns)) == set(oq), 'saved-columns', lambda: f'{list(tab.columns)[:4]}')
    for k in tab.columns:
        f = pbe.U[units[k]]
        ctx.close(tab[k].to_numpy(float) * f, oq[tuple(map(str, k))], 'saved', f'{k} saved in {units[k]}', rtol=1e-9)
    ctx.observe(len(frames), bool(missing), bool(incomplete), lst, warn, max(m.cmps[c]['nds'] for c in truth))
