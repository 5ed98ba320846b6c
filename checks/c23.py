"""C23: loss maps and decision variables select exactly the stated consequences."""
import numpy as np
import pandas as pd
import dmg
import loss
import pbe

ID = 'C23'
RULE = ('seeded buildings; explicit (partial, extended) loss maps as table or CSV with policies none/fill/fill_all; consequences split '
        'over up to four overlapping sources of both kinds in any order, with incomplete, unused and conflicting definitions; '
        'decision variables in any number; loss columns and values against the first definition of each mapped consequence; '
        'inputs compared before and after')
QUICK, THOROUGH = 260, 10000
MIN_OBS = {'columns': 1500, 'fill': 50, 'fill_all': 50, 'none': 50, 'overlapping': 80, 'incomplete': 40, 'unmapped': 60,
           'excessiveRID': 15, 'rejected': 8}


def case(ctx):
    rng = ctx.rng
    names = [f'{pbe.pick(rng, "BCDE")}.{rng.integers(10, 99)}.{i}' for i in range(int(rng.integers(1, 5)))]
    if rng.random() < .2:
        names[0] = 'excessiveRID'
        ctx.count('excessiveRID')
    m = dmg.Model(rng, n=int(rng.choice([1, 3, 10])), random_quantities=True, exprs=False, cmp_names=names, max_rows=2)
    eco = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    m.opts['EconomiesOfScale'] = eco
    dvs = tuple(str(x) for x in rng.permutation(list(loss.DVU))[:int(rng.integers(1, 4))])
    fam = ('deterministic',)
    L = loss.Losses(rng, m, dvs=dvs, lf=.3, families=fam, p_family=.3)
    tables, functions = [L.table], [L.functions]
    # alternatives for the same consequences: only used if they come first
    alt = []
    for _ in range(int(rng.integers(0, 3))):
        O = loss.Losses.__new__(loss.Losses)
        O.rng, O.m, O.dvs, O.unit, O.kinds, O.cons, O.ds, O.lf = rng, m, dvs, L.unit, L.kinds, dict(L.cons), {}, {}
        rows, frows = {}, {}
        for (k, dv) in list(L.ds) + [(pbe.pick(rng, m_names), dv) for dv in dvs for m_names in [list(m.cmps)]]:
            users = [c for c in m.cmps if L.cons[c] == k] or ([k] if k in m.cmps else None)
            if users and rng.random() < .6 and (k, dv) not in L.lf and (k, dv) not in O.ds:
                rows[f'{k}-{dv}'] = O._ds(users, k, dv, fam, .3)
        for (k, dv) in list(L.lf):
            users = [c for c in m.cmps if L.cons[c] == k]
            if users and rng.random() < .6:
                frows[f'{k}-{dv}'] = O._lf(users, k, dv, fam, .3)
        if O.cons != L.cons:
            continue
        O.table, O.functions = O._frame(rows), O._frame(frows)
        alt.append(O)
    src = [(s, s.table, 'ds') for s in [L, *alt] if s.table is not None] + [(s, s.functions, 'lf') for s in [L, *alt] if s.functions is not None]
    if not src:
        return
    src = [src[i] for i in rng.permutation(len(src))]
    # incomplete definitions: excluded even if a later source completes them
    first, frames, bad = {}, [], set()
    for s, df, kind in src:
        df = df.copy()
        if 'Incomplete-' not in df:
            if rng.random() < .5:
                df['Incomplete-'] = 0
        for key in df.index:
            k, dv = key.split('-')
            if 'Incomplete-' in df and rng.random() < .12:
                df.loc[key, 'Incomplete-'] = 1
            inc = 'Incomplete-' in df and df.loc[key, 'Incomplete-'] == 1
            if (k, dv, kind) in first:
                ctx.count('overlapping')
                continue
            first[k, dv, kind] = None if inc else getattr(s, kind).get((k, dv))
            if inc:
                ctx.count('incomplete')
        frames.append(df)
    ds = {(k, dv): e for (k, dv, kind), e in first.items() if kind == 'ds' and e is not None}
    lf = {(k, dv): e for (k, dv, kind), e in first.items() if kind == 'lf' and e is not None}
    # the loss map
    policy = pbe.pick(rng, [None, 'fill', 'fill_all'])
    ctx.count(policy or 'none')
    give = policy is None or rng.random() < .7
    mp = {c: L.cons[c] for c in L.map.index if give and rng.random() < .7}
    lm = None
    if give:
        idx = list(mp)
        lm = pd.DataFrame({'Repair': [mp[c] for c in idx]}, index=idx, dtype=object)
        if rng.random() < .4:
            lm.loc['not.there'] = pbe.pick(rng, [*L.cons.values(), 'nothing'])
        if not len(lm):
            return
    full = dict(mp)
    for c in m.cmps:
        if c not in full and policy and not (policy == 'fill' and c == 'excessiveRID'):
            full[c] = c
    ctx.count('unmapped', len(set(m.cmps) - set(full)))
    L.cons, L.ds, L.lf = full, ds, lf
    ctx.describe(loss_map=lm, policy=policy, sources=frames, dvs=dvs, marginals=m.marginals)
    a = m.build(seed=int(rng.integers(1e6)))
    a.damage.calculate()
    a.loss.decision_variables = dvs
    if rng.random() < .06:
        ctx.count('rejected')
        try:
            a.loss.add_loss_map(*((None, None) if rng.random() < .5 else (lm, 'fil')))
        except ValueError:
            return
        ctx.violate('rejected', 'an invalid loss map request was accepted')
        return
    given = lm
    if lm is not None and rng.random() < .4:
        given = str(ctx.tmp() / 'map.csv')
        lm.to_csv(given)
    keep = [(x, x.copy()) for x in frames + ([lm] if lm is not None else [])]
    a.loss.add_loss_map(given, policy)
    srcs = []
    for i, f in enumerate(frames):
        if rng.random() < .4:
            p = str(ctx.tmp() / f's{i}.csv')
            f.to_csv(p)
            srcs.append(p)
        else:
            srcs.append(f)
    a.loss.load_model_parameters(srcs)
    a.loss.calculate()
    for x, y in keep:
        ctx.check(x.equals(y) and list(x.index) == list(y.index), 'input-changed', lambda: f'an input table was modified:\n{x}\nwas\n{y}')
    exp = {k: v[:2] + (v[2],) for k, v in L.ds_losses(dmg.qty_dict(a), eco['AcrossFloors'], eco['AcrossDamageStates']).items()}
    qty = pbe.as_dict(a.asset.cmp_sample)
    m.pgs = [p for p in m.pgs if p['cmp'] in full]
    expl = L.lf_losses(qty)
    obs = {} if a.loss.ds_model.sample is None else pbe.as_dict(a.loss.ds_model.sample)
    obsl = {} if a.loss.lf_model.sample is None else pbe.as_dict(a.loss.lf_model.sample)
    for o, e, name in ((obs, exp, 'damage states'), (obsl, expl, 'loss functions')):
        ctx.count('columns', len(e))
        if not ctx.check(set(o) == set(e), 'columns', lambda: f'{name}: extra {sorted(set(o) - set(e))[:3]} missing {sorted(set(e) - set(o))[:3]}'):
            continue
        for k, v in e.items():
            x = v[0] * (v[2]['t0'] if v[2]['fam'] and v[2].get('fn', 1) is None else 1)
            ctx.check(np.all(np.abs(o[k] - x) <= v[1] + 2e-6 * np.abs(x)), 'value', lambda: f'{name} {k}: observed {o[k][:5]} expected {x[:5]} from {v[2]}')
    # definitions missing for mapped components are reported
    want = {(k, dv) for k in ([*lm['Repair']] if lm is not None else []) + list(full.values()) for dv in dvs} - set(ds) - set(lf)
    ctx.check(set(a.loss.ds_model.missing) == want == set(a.loss.lf_model.missing), 'missing', lambda: f'{a.loss.ds_model.missing} expected {want}')
    ctx.observe(policy, give, len(src), len(dvs), bool(want), bool(exp), bool(expl))
