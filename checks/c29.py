"""C29: a calculation configuration gives what the equivalent direct calls give, or is rejected."""
import contextlib
import io
import json
import os
import sys
from pathlib import Path

import numpy as np
import pandas as pd
import dlcalc
import library
import pbe
from pelicun import base

ID = 'C29'
RULE = ('seeded calculation configurations (units inferred or given, collapse limits, calibration, coupled demands, cloning, residual drifts, '
        'collapse and irreparable damage, damage processes, one or several libraries, custom databases and loss maps, replacement values, '
        'decision variables, options; component-based and Hazus-type buildings, lifeline facilities and water networks; libraries by method and by earlier file name; explicit and auto-populated) through the tool, and the same '
        'assessment through the public API: every demand, quantity, damage and loss value; invalid configurations must be rejected '
        'without any result file')
QUICK, THOROUGH = 100, 2500
MIN_OBS = {'combined': 4, 'compared': 60, 'values': 80000, 'collapse': 25, 'collapsed_realizations': 30, 'irreparable': 18, 'rid': 10, 'limits': 12, 'process': 18,
           'user_process': 4, 'user_map': 8, 'own_collapse_map': 1, 'custom': 30, 'replacement': 30, 'dvs': 18, 'hazus': 4, 'lifelines': 1, 'water': 3, 'legacy_names': 6, 'none_entries': 3, 'auto': 5, 'unpopulated': 5, 'sample_file': 4,
           'rejections': 40, 'rejected_late': 7, 'units_inferred': 12, 'other_responses': 8, 'coupled': 7, 'functions': 7}
ASSUMPTIONS = ['the reference makes the calls in the same order, so both use the same random numbers']
LEGACY = {'FEMA_P58_2nd': 'FEMA P-58', 'Hazus_EQ_bldg': 'Hazus Earthquake - Buildings'}
PACKAGE = base.pelicun_path

EQ = 'Hazus Earthquake - Buildings'
WATER = 'Hazus Earthquake - Potable Water'
LF = 'Hazus Earthquake - Lifeline Facilities'
PROCESS = {'FEMA P-58': [('excessive.coll.DEM', 'DS1', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA'), ('excessiveRID', 'DS1', 'irreparable_DS1'),
                         ('irreparable', 'DS1', 'ALL_NA'), ('irreparable', 'DS1', 'collapse_DS0')],
           EQ: [('STR', 'DS5', 'collapse_DS1'), ('excessive.coll.DEM', 'DS1', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA'),
                ('excessiveRID', 'DS1', 'irreparable_DS1'), ('irreparable', 'DS1', 'ALL_NA'), ('irreparable', 'DS1', 'collapse_DS0')],
           LF: [('LF', 'DS5', 'collapse_DS1'), ('collapse', 'DS1', 'ALL_NA')]}
LONG = {v: k for k, v in {'Peak Floor Acceleration': 'PFA', 'Peak Interstory Drift Ratio': 'PID', 'Peak Spectral Acceleration': 'SA',
                          'Peak Ground Acceleration': 'PGA'}.items()}


def methods(given):
    """The libraries of a comma-separated list, which can use the earlier file names."""
    names = [x.strip() for x in (given or '').split(',') if x.strip() not in ('', 'None')]
    return [LEGACY.get(x.removesuffix('.csv').split('_DB_')[-1], x) if x.endswith('.csv') else x for x in names]


def demands(cfg, folder):
    """The demand table of the calculation, with units."""
    d = cfg['DL']['Demands']
    raw = pd.read_csv(folder / d.get('DemandFilePath', 'response.csv'), index_col=0, dtype=str)
    raw.columns = [c.strip() for c in raw.columns]
    units = raw.loc['Units'] if 'Units' in raw.index else None
    body = raw.drop('Units') if units is not None else raw
    parts = [c.split('-') for c in raw.columns]
    four = any(len(p) == 4 for p in parts)
    edp = [(p[1] if four else p[0]) if len(p) == (4 if four else 3) else None for p in parts]
    for e, lim in (d.get('CollapseLimits') or {}).items():
        cols = [c for c, x in zip(raw.columns, edp) if x == e]
        body = body[~(body[cols].astype(float).max(axis=1) > float(lim))]
    if units is None:
        cols = [c for c, x in zip(raw.columns, edp) if x]
        order = sorted(cols, key=lambda c: tuple(c.split('-')))
        units = pd.Series({c: dlcalc.units_of(c.split('-')[1 if four else 0], cfg['GeneralInformation']['units']['length']) for c in order})
        body = body[order]
    out = body.astype(float).astype(object)
    return pd.concat([pd.DataFrame([units[out.columns]], index=['Units']), out])


def row(t, unit, t0, fam=None, t1=None, off=0, ls=('LS1',)):
    r = {'Demand-Directional': 1, 'Demand-Offset': off, 'Demand-Type': t, 'Demand-Unit': unit, 'Incomplete-': 0}
    for x in ls:
        r[f'{x}-Theta_0'] = t0
    if fam:
        r['LS1-Family'], r['LS1-Theta_1'] = fam, t1
    return r


def reference(cfg, folder, lib, custom, combination=None):
    """The assessment through the public API."""
    from pelicun.assessment import Assessment
    dl = cfg['DL']
    dm, asset, damage = dl['Demands'], dl['Asset'], dl.get('Damage')
    opts = json.loads(json.dumps(dl['Options']))
    opts.setdefault('ListAllDamageStates', True)
    n = opts.setdefault('Sampling', {}).setdefault('SampleSize', None)
    n = int(n or dm['SampleSize'])
    opts['Sampling']['SampleSize'] = n
    a = Assessment(opts)
    a.demand.load_sample(demands(cfg, folder))
    a.demand.calibrate_model(dm.get('Calibration') or {'ALL': {'DistributionFamily': 'empirical'}})
    a.demand.generate_sample({'SampleSize': n, 'PreserveRawOrder': bool(dm.get('CoupledDemands')), 'DemandCloning': dm.get('DemandCloning')})
    smp, un = a.demand.save_sample(save_units=True)
    full = pd.concat([smp.astype(object), un.to_frame().T])
    inf = dict(dm.get('InferResidualDrift') or {})
    if inf:
        inf.pop('method')
        for d, y in inf.items():
            cols = [c for c in smp.columns if c[0] == 'PID' and c[2] == d]
            p = smp[cols].copy()
            p.columns = pd.MultiIndex.from_tuples([c[1:] for c in cols], names=smp.columns.names[1:])
            r = a.demand.estimate_RID(p, {'yield_drift': float(y)}).astype(object)
            r.loc['Units'] = 'unitless'
            full = pd.concat([full, r], axis=1)
    full['ONE', '0', '1'] = [1.] * n + ['unitless']
    flat = full.copy()
    flat.columns = ['-'.join(c) for c in full.columns]
    a.demand.load_sample(flat)

    types = {}
    for c in full.columns:
        types.setdefault(c[0], []).append(c)
    if asset.get('NumberOfStories'):
        a.stories = int(asset['NumberOfStories'])
    coll = (damage or {}).get('CollapseFragility')
    irr = (damage or {}).get('IrreparableDamage')
    per_floor = coll and not coll['DemandType'].startswith('SA') and coll['DemandType'] in types
    uniq = lambda t, k: ','.join(dict.fromkeys(c[k] for c in types[t]))   # noqa: E731
    if 'ComponentAssignmentFile' in asset:
        m = pd.read_csv(folder / asset['ComponentAssignmentFile'], index_col=0)
        add = []
        if per_floor:
            add.append(('excessive.coll.DEM', uniq(coll['DemandType'], 1), uniq(coll['DemandType'], 2)))
        add.append(('collapse', '0', '1'))
        if irr and 'RID' in types:
            add += [('excessiveRID', uniq('RID', 1), uniq('RID', 2)), ('irreparable', '0', '1')]
        extra = pd.DataFrame([('ea', lo, d, 1.) for _, lo, d in add], index=[x[0] for x in add], columns=['Units', 'Location', 'Direction', 'Theta_0'])
        a.asset.load_cmp_model({'marginals': pd.concat([m, extra])})
        a.asset.generate_cmp_sample()
    else:
        a.asset.load_cmp_sample(str(folder / asset['ComponentSampleFile']))
    present = [str(c) for c in dict.fromkeys(a.asset.cmp_sample.columns.get_level_values('cmp'))]

    if damage is not None:
        adf = {}
        if coll:
            e, _, spec = coll['DemandType'].partition('_')
            t = LONG[e] + (f'|{spec}' if spec else '')
            fam = coll.get('CapacityDistribution')
            at = 'excessive.coll.DEM' if 'excessive.coll.DEM' in present else 'collapse'
            off = -{**{'PFA': -1, 'PFV': -1}, **opts.get('DemandOffset', {})}.get(e, 0)
            adf[at] = row(t, dlcalc.units_of(e, cfg['GeneralInformation']['units']['length']), float(coll['CapacityMedian']), fam,
                          float(coll['Theta_1']) if fam else None, off)
        if WATER in asset.get('ComponentDatabase', ''):
            adf['aggregate'] = row('Peak Ground Velocity', 'mps', 1e10, ls=('LS1', 'LS2'))
        elif 'collapse' not in adf:
            adf['collapse'] = row('One', 'unitless', 1e10)
        if irr:
            adf['excessiveRID'] = row('Residual Interstory Drift Ratio', 'unitless', float(irr['DriftCapacityMedian']), 'lognormal', float(irr['DriftCapacityLogStd']))
            adf['irreparable'] = row('One', 'unitless', 1e10)
        adf = pd.DataFrame.from_dict(adf, orient='index')
        for x in ('LS1-Family', 'LS1-Theta_1'):
            if x not in adf:
                adf[x] = np.nan
        own = asset.get('ComponentDatabasePath')
        src = [own.replace('CustomDLDataFolder', custom)] if own else []
        src = [str(folder / x) for x in src]
        src += [str(lib / library.paths()[x] / 'fragility.csv') for x in methods(asset.get('ComponentDatabase'))][::-1]
        a.damage.load_model_parameters(src + [adf], set(present))
        how = damage['DamageProcess']
        proc = None
        if how in PROCESS:
            proc = {}
            for k, (s, ds, t) in enumerate(PROCESS[how]):
                if s in ('STR', 'LF'):
                    s = next((c for c in present if c.startswith(f'{s}.')), None)
                if s in present:
                    proc[f'{k + 1}_{s}'] = {ds: t}
        elif how == 'User Defined':
            proc = json.loads((folder / damage['DamageProcessFilePath']).read_text())
        a.damage.calculate(dmg_process=proc, scaling_specification=damage.get('ScalingSpecification'))

    loss = dl.get('Losses') or {}
    loss = loss.get('Repair') or loss.get('BldgRepair')
    agg = None
    if loss:
        src, ids = [], []
        hz = damage['DamageProcess'] in (EQ, LF)
        for x in methods(loss['ConsequenceDatabase']):
            f = lib / library.paths()[x]
            f = f / 'consequence_repair.csv' if (f / 'consequence_repair.csv').is_file() else f / 'loss_repair.csv'
            src.append(str(f))
        if loss.get('ConsequenceDatabasePath'):
            src.append(str(folder / loss['ConsequenceDatabasePath'].replace('CustomDLDataFolder', custom)))
        tabs = [pd.read_csv(f, index_col=0) for f in src]
        ids = {str(i).rsplit('-', 1)[0] for t in tabs for i in t.index}
        rep = {}
        p58 = damage['DamageProcess'] == 'FEMA P-58'
        for dv, u in (('Cost', 'USD_2011'), ('Time', 'worker_day'), ('Carbon', 'kg'), ('Energy', 'MJ')):
            v = loss.get(f'Replacement{dv}')
            r = {'Quantity-Unit': '1 EA'}
            if v:
                r.update({'DV-Unit': v['Unit'], 'DS1-Theta_0': float(v['Median'])})
                if v.get('Distribution'):
                    r.update({'DS1-Family': v['Distribution'], 'DS1-Theta_1': float(v['Theta_1'])})
            elif p58:
                r.update({'DV-Unit': u, 'DS1-Theta_0': 0.})
            elif hz and dv == 'Time':
                r.update({'DV-Unit': 'day', 'DS1-Theta_0': float(tabs[0].loc[f'{"LF" if damage["DamageProcess"] == LF else "STR"}.{asset["OccupancyType"]}-Time', 'DS5-Theta_0'])})
            elif dv in ('Cost', 'Time'):
                r.update({'DV-Unit': 'loss_ratio', 'DS1-Theta_0': 1.})
            else:
                continue
            rep[f'replacement-{dv}'] = r
        rep = pd.DataFrame.from_dict(rep, orient='index')
        for x in ('DS1-Family', 'DS1-Theta_1'):
            if x not in rep:
                rep[x] = np.nan
        if loss['MapApproach'] == 'Automatic':
            mp = {}
            for c in present:
                to = f'{c.split(".")[0]}.{asset["OccupancyType"]}' if hz else c
                if c != 'collapse' and to in ids:
                    mp[c] = to
        else:
            mp = pd.read_csv(folder / loss['MapFilePath'].replace('CustomDLDataFolder', custom), index_col=0)['Repair'].to_dict()
        for x in ('collapse', 'irreparable'):
            mp.setdefault(x, 'replacement')
        dvs = tuple(dv for dv, on in (loss.get('DecisionVariables') or {}).items() if on)
        if dvs:
            a.loss.decision_variables = dvs
        a.loss.add_loss_map(pd.DataFrame({'Repair': mp}), loss_map_policy=None)
        a.loss.load_model_parameters(src[::-1] + [rep])
        a.loss.calculate()
        agg, _ = a.loss.aggregate_losses(None, combination, future=True)
    return a, agg


def labelled(df):
    return {tuple(str(x) for x in (c if isinstance(c, tuple) else (c,))): df.iloc[:, i].to_numpy(dtype=float) for i, c in enumerate(df.columns)}


def compare(ctx, got, want, what):
    if got is None or want is None:
        ctx.check(got is None and want is None, f'{what}-presence', lambda: f'{what}: tool {got is not None}, reference {want is not None}')
        return
    g, w = labelled(got), labelled(want)
    if not ctx.check(set(g) == set(w), f'{what}-labels', lambda: f'{what}: only in the tool {sorted(set(g) - set(w))[:4]}, missing {sorted(set(w) - set(g))[:4]}'):
        return
    for k in w:
        ctx.count('values', len(w[k]))
        if not ctx.check(g[k].shape == w[k].shape and np.allclose(g[k], w[k], rtol=1e-9, atol=1e-12, equal_nan=True), f'{what}-values',
                         lambda: f'{what} {k}: {g[k][:5]} expected {w[k][:5]} ({int((~np.isclose(g[k], w[k], equal_nan=True)).sum()) if g[k].shape == w[k].shape else "shape"} differ)'):
            return


def against_reference(ctx, cfg, seen, folder, lib, combination=None):
    a = seen['assessment']
    b, agg = reference(cfg, folder, lib, 'custom', combination)
    ctx.count('compared')
    ctx.check(seen['inputs_kept'], 'configuration-modified', lambda: str(cfg['DL']['Demands'])[:300])
    compare(ctx, a.demand.save_sample(), b.demand.save_sample(), 'demands')
    compare(ctx, a.asset.save_cmp_sample(), b.asset.save_cmp_sample(), 'quantities')
    compare(ctx, a.damage.save_sample(), b.damage.save_sample(), 'damage')
    for x in ('ds_model', 'lf_model'):
        compare(ctx, getattr(a.loss, x).sample, getattr(b.loss, x).sample, 'losses')
    compare(ctx, seen.get('agg'), agg, 'aggregate')
    d = labelled(b.damage.save_sample())
    c = [v for k, v in d.items() if k[0] == 'collapse' and k[-1] == '1']
    ctx.count('collapsed_realizations', sum(np.nansum(v > 0) for v in c))
    dl = cfg['DL']
    dmg, loss = dl['Damage'], next(iter((dl.get('Losses') or {'': {}}).values()))
    ctx.count('collapse', 'CollapseFragility' in dmg)
    ctx.count('irreparable', 'IrreparableDamage' in dmg)
    ctx.count('rid', 'InferResidualDrift' in dl['Demands'])
    ctx.count('limits', 'CollapseLimits' in dl['Demands'])
    ctx.count('process', dmg['DamageProcess'] == 'FEMA P-58')
    ctx.count('user_process', dmg['DamageProcess'] == 'User Defined')
    ctx.count('user_map', loss.get('MapApproach') == 'User Defined')
    ctx.count('custom', 'ComponentDatabasePath' in dl['Asset'])
    ctx.count('replacement', any(k.startswith('Replacement') for k in loss))
    ctx.count('dvs', bool(loss.get('DecisionVariables')))
    ctx.count('coupled', bool(dl['Demands'].get('CoupledDemands')))
    ctx.count('functions', b.loss.lf_model.sample is not None)
    ctx.observe(dmg['DamageProcess'], 'CollapseFragility' in dmg and dmg['CollapseFragility']['DemandType'], 'IrreparableDamage' in dmg, tuple(sorted(loss)), tuple(sorted(dl['Demands'])))


def setup(ctx, **kw):
    base.pelicun_path = PACKAGE
    tmp = Path(ctx.tmp())
    lib = library.use(tmp / 'lib')
    folder = tmp / 'run'
    k = dlcalc.Calc(ctx.rng, folder, lib, **kw)
    return k, folder, lib, tmp


def explicit(ctx):
    rng = ctx.rng
    k, folder, lib, tmp = setup(ctx)
    cfg = k.config
    loss = next(iter((cfg['DL'].get('Losses') or {'': {}}).values()))
    if k.process != 'FEMA P-58' and loss and 'Cost' in k.dvs and rng.random() < .4:     # the default replacement
        loss.pop('ReplacementCost', None)
    if k.process != 'FEMA P-58' and loss and rng.random() < .4:       # no replacement is known
        for dv in ('Carbon', 'Energy'):
            ctx.count('no_replacement', dv in k.dvs and loss.pop(f'Replacement{dv}', None) is not None)
    of_states = [v for v in (getattr(k, 'user_map', None) or {}).values() if f'{v}-Cost' not in k.lf]
    if of_states and rng.random() < .4:
        k.user_map['collapse'] = of_states[0]
        ctx.count('own_collapse_map')
    if rng.random() < .2:
        cfg['DL']['Demands']['DemandFilePath'] = 'response.csv'
    rename(ctx, cfg['DL']['Asset'], loss)
    if not k.given_units and rng.random() < .5:
        # responses that no component needs, of any kind
        for e in rng.permutation(['SV', 'SD_1.5', 'PFD', 'PRD', 'DWD', 'RDR', 'PMD', 'PGV', 'PGD', 'PIH', 'PWS', 'SV_0.25'])[:int(rng.integers(1, 4))]:
            ctx.count('other_responses')
            at = int(rng.integers(len(k.demands.columns) + 1))
            k.demands.insert(at, f'{k.event}{e}-{rng.integers(0, 3)}-{rng.integers(1, 3)}', [pbe.sig(x, 6) for x in np.exp(.5 * rng.normal(size=len(k.demands)))])
    k.write()
    ctx.describe(config=cfg)
    ctx.count('units_inferred', not k.given_units)
    before = json.dumps(cfg)
    given = None if rng.random() < .2 or 'DemandFilePath' in cfg['DL']['Demands'] else 'response.csv'
    seen = dlcalc.run(folder, str(tmp / 'out'), given, custom='custom', n=None)
    against_reference(ctx, json.loads(before), seen, folder, lib)


def rename(ctx, asset, loss):
    """Libraries by their earlier file names, and entries that stand for no library."""
    rng = ctx.rng
    for d, key, kinds in ((asset, 'ComponentDatabase', ('damage', 'fragility')), (loss, 'ConsequenceDatabase', ('loss_repair', 'bldg_repair'))):
        if key not in d:
            continue
        x = [y.strip() for y in d[key].split(',')]
        if rng.random() < .2:
            x = [f'{pbe.pick(rng, kinds)}_DB_{ {v: k for k, v in LEGACY.items()}[y]}.csv' if y in LEGACY.values() else y for y in x]
            ctx.count('legacy_names')
        if rng.random() < .15:
            x.insert(int(rng.integers(len(x) + 1)), 'None')
            ctx.count('none_entries')
        d[key] = pbe.pick(rng, [',', ', ']).join(x)


def sample_file(ctx):
    """The asset model from a component sample."""
    k, folder, lib, tmp = setup(ctx)
    cfg = k.config
    ctx.describe(config=cfg)
    seen = dlcalc.run(folder, str(tmp / 'first'), custom='custom')
    seen['assessment'].asset.save_cmp_sample(str(folder / 'cmp_sample.csv'))
    cfg['DL']['Asset'].pop('ComponentAssignmentFile')
    cfg['DL']['Asset']['ComponentSampleFile'] = 'cmp_sample.csv'
    k.write()
    ctx.count('sample_file')
    seen = dlcalc.run(folder, str(tmp / 'out'), custom='custom')
    against_reference(ctx, cfg, seen, folder, lib)


def hazus(ctx):
    """Hazus-type buildings: consequences by occupancy."""
    rng = ctx.rng
    k, folder, lib, tmp = setup(ctx, losses=True)
    cfg = k.config
    ty = f'{pbe.pick(rng, ["W1", "C2", "S1"])}.{pbe.pick(rng, ["L", "M"])}.{pbe.pick(rng, ["HC", "PC"])}'
    occ = pbe.pick(rng, ['RES1', 'COM4', 'EDU1'])
    method, main_cmp = (LF, 'LF') if rng.random() < .35 else (EQ, 'STR')
    comps = {f'{main_cmp}.{ty}': ('PID', 5), f'NSD.{pbe.pick(rng, ["a", "b"])}': ('PID', 4), 'NSA.HC': ('PFA', 4)}
    comps = dict(list(comps.items())[:int(rng.integers(1, 4))])
    frag, cons = {}, {}
    for c, (e, nd) in comps.items():
        u = pbe.pick(rng, pbe.EDP_UNITS[e])
        r = {'Incomplete-': 0, 'Demand-Type': dlcalc.NAMES[e], 'Demand-Unit': u, 'Demand-Offset': 1 if e == 'PFA' else 0, 'Demand-Directional': 1}
        med = dlcalc.SCALE[e] * np.sort(np.exp(rng.uniform(-1, .8, 4))) / pbe.U[u]
        for i in range(4):
            r.update({f'LS{i + 1}-Family': 'lognormal', f'LS{i + 1}-Theta_0': pbe.sig(med[i], 4), f'LS{i + 1}-Theta_1': .4})
        if nd == 5:
            r['LS4-DamageStateWeights'] = '0.7 | 0.3'
        frag[c] = r
        cl = c.split('.')[0]
        for o in (occ, 'IND2'):
            for dv, un in (('Cost', 'loss_ratio'), ('Time', 'day')):
                if dv == 'Time' and cl != main_cmp:
                    continue
                cons[f'{cl}.{o}-{dv}'] = {'Incomplete-': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': un,
                                          **{f'DS{d}-Theta_0': pbe.sig(d * rng.uniform(.01, .15) * (1 if dv == 'Cost' else 100), 4) for d in range(1, nd + 1)}}
    frag[f'{main_cmp}.X.Y'] = dict(next(iter(frag.values())))
    cons.setdefault(f'{main_cmp}.{occ}-Time', {'Incomplete-': 0, 'Quantity-Unit': '1 EA', 'DV-Unit': 'day', 'DS5-Theta_0': 300.})
    library.add(lib, EQ, 'fragility.csv', k.frame(frag))
    library.add(lib, EQ, 'consequence_repair.csv', k.frame(cons, ['DS1-Family', 'DS1-Theta_1']))
    dl = cfg['DL']
    k.cmp = pd.DataFrame([('ea', '1', '1', 1., 'N/A')] * len(comps), index=list(comps), columns=['Units', 'Location', 'Direction', 'Theta_0', 'Family'])
    dl['Asset'] = {'ComponentAssignmentFile': 'CMP_QNT.csv', 'NumberOfStories': str(k.S), 'ComponentDatabase': EQ, 'OccupancyType': occ}
    d = {'DamageProcess': method}
    for x in ('CollapseFragility', 'IrreparableDamage'):
        if x in dl['Damage']:
            d[x] = dl['Damage'][x]
    dl['Damage'] = d
    dl.pop('Losses')
    dl['Losses'] = {'Repair': {'ConsequenceDatabase': EQ, 'MapApproach': 'Automatic'}}
    if rng.random() < .4:
        dl['Losses']['Repair']['DecisionVariables'] = {'Cost': True}
    if rng.random() < .3:
        dl['Losses']['Repair']['ReplacementCost'] = {'Unit': 'loss_ratio', 'Median': '1.1'}
    k.process = method
    rename(ctx, dl['Asset'], dl['Losses']['Repair'])
    ctx.describe(config=cfg)
    k.write()
    ctx.count('hazus' if method == EQ else 'lifelines')
    seen = dlcalc.run(folder, str(tmp / 'out'), custom='custom')
    against_reference(ctx, cfg, seen, folder, lib)
    # another building of the same process, in the same session
    if rng.random() < .5:
        new = pd.DataFrame([('ea', '1', '1', 1., 'N/A')], index=[f'{main_cmp}.X.Y'], columns=k.cmp.columns)
        k.cmp = new
        k.write()
        ctx.count('hazus' if method == EQ else 'lifelines')
        seen = dlcalc.run(folder, str(tmp / 'out'), custom='custom')
        against_reference(ctx, cfg, seen, folder, lib)


def auto(ctx):
    """Auto-populated: sample size, coupling, calibration and options as documented."""
    rng = ctx.rng
    k, folder, lib, tmp = setup(ctx)
    cfg, dl = dlcalc.automatic(rng, k, folder)
    given = {}
    if rng.random() < .5:
        given = {'Seed': int(rng.integers(1, 1000)), 'NonDirectionalMultipliers': {'ALL': 1.1}}
        cfg['Applications']['DL']['ApplicationData']['Options'] = given
        for x in given:
            dl['Options'].pop(x, None)
        if rng.random() < .4:
            dl['Options'] = {}
        (folder / 'custom' / 'dl.json').write_text(json.dumps(dl))
    if not dl['Options'] and not given:
        dl['Options'] = {'Seed': 3}
        (folder / 'custom' / 'dl.json').write_text(json.dumps(dl))
    coupled = bool(rng.random() < .5)
    n = int(rng.integers(2, 30))
    (folder / 'config.json').write_text(json.dumps(cfg))
    ctx.describe(config=cfg, dl=dl, n=n, coupled=coupled)
    ctx.count('auto')
    if rng.random() < .5:
        seen = dlcalc.run(folder, str(tmp / 'out'), custom='custom', n=n, coupled=coupled, detailed=bool(rng.random() < .5))
    else:
        args = ['-c', 'config.json', '-d', 'response.csv', '-s', str(n), '--dirnameOutput', str(tmp / 'out'), '--custom_model_dir', 'custom']
        args += pbe.pick(rng, [['--coupled_EDP', 'True'], ['--coupled_EDP'], ['--coupled_EDP', 'true']]) if coupled else pbe.pick(rng, [[], ['--coupled_EDP', 'False']])
        seen = main(folder, args)
    want = {'GeneralInformation': cfg['GeneralInformation'], 'DL': json.loads(json.dumps(dl))}
    d = want['DL']['Demands']
    d['SampleSize'] = n
    if coupled:
        d['CoupledDemands'] = True
    else:
        d['Calibration'] = {'ALL': {'DistributionFamily': 'lognormal'}}
    want['DL']['Options'].update(given)
    want['DL']['Asset']['ComponentAssignmentFile'] = 'custom/comp.csv'
    against_reference(ctx, want, seen, folder, lib)
    unpopulated(ctx, folder, tmp, n)


def unpopulated(ctx, folder, tmp, n):
    """A script that fails to give a configuration, or that says that there is nothing to do."""
    from pelicun.pelicun_warnings import PelicunInvalidConfigError
    script = folder / 'custom' / 'pelicun_config.py'
    what = pbe.pick(ctx.rng, ['{}', 'null', '"N/A"', '"N/A"', 'missing'])
    if what == 'missing':
        script.unlink()
    else:
        (folder / 'custom' / 'dl.json').write_text(what)
    ctx.count('unpopulated')
    out = tmp / 'unpopulated'
    try:
        dlcalc.run(folder, str(out), custom='custom', n=n)
    except PelicunInvalidConfigError as e:
        ctx.check(what != '"N/A"' and len(str(e)) > 10, 'nothing-to-do-rejected', lambda: f'{what}: {e}')
    else:
        ctx.check(what == '"N/A"', 'invalid-accepted', f'configuration from a script: {what}')
    left = [x.name for x in out.iterdir() if not x.name.startswith('pelicun_log')] if out.exists() else []
    ctx.check(not left, 'outputs-without-calculation', lambda: f'{what}: {left}')


def combined(ctx):
    """Wind and storm surge: two scripts, two libraries, losses combined by the table of the library."""
    rng = ctx.rng
    base.pelicun_path = PACKAGE
    tmp = Path(ctx.tmp())
    lib = library.use(tmp / 'lib')
    folder = tmp / 'run'
    folder.mkdir()
    length = pbe.pick(rng, ['m', 'ft', 'in'])
    m, n = int(rng.integers(5, 12)), int(rng.integers(4, 40))
    names = ['W.SF.1.gab', pbe.pick(rng, ['RES1.FIA.1S', 'A.flood', 'X.flood'])]
    edps = ['PWS', 'PIH']
    dem = {f'1-{e}-{pbe.pick(rng, [0, 1]) if e == "PIH" else 0}-1': [pbe.sig(s * np.exp(.5 * z) / pbe.U[dlcalc.LU[length]], 6) for z in rng.normal(size=m)] for e, s in (('PWS', 40.), ('PIH', 1.))}
    pd.DataFrame(dem).to_csv(folder / 'response.csv')
    floors = {c.split('-')[1]: c.split('-')[2] for c in dem}
    dvs = [('Cost', 'loss_ratio')] + ([('Time', 'day')] if rng.random() < .5 else [])
    methods = ['Hazus Hurricane Wind - Buildings', 'Hazus Hurricane Storm Surge - Buildings']
    for c, e, meth, script in zip(names, edps, methods, (0, 1)):
        rows = {}
        for x in (c, c + 'other'):
            for dv, u in dvs:
                y = np.sort(rng.uniform(0, 1, 4)) * (1 if dv == 'Cost' else 200)
                y[0] = 0.
                xs = [0.] + [s * (40 if e == 'PWS' else 1) for s in (.5, 1.5, 1e4)]
                rows[f'{x}-{dv}'] = {'DV-Unit': u, 'Incomplete-': 0, 'Demand-Type': {'PWS': 'Peak Gust Wind Speed', 'PIH': 'Peak Inundation Height'}[e],
                                     'Demand-Unit': 'mps' if e == 'PWS' else 'm', 'Demand-Offset': int(floors[e]), 'Demand-Directional': 1,
                                     'LossFunction-Theta_0': ','.join(map(str, np.round(y, 4))) + '|' + ','.join(map(str, xs))}
        library.add(lib, meth, 'loss_repair.csv', dlcalc.Calc.frame(rows, ['LossFunction-Family', 'LossFunction-Theta_1']))
        frag = {c: {k: v for k, v in rows[f'{c}-Cost'].items() if k[:3] in ('Inc', 'Dem')}}
        frag[c].update({'LS1-Theta_0': 40. if e == 'PWS' else 1., 'LS1-Family': 'lognormal', 'LS1-Theta_1': .3})
        if rng.random() < .4:
            frag = {f'{c}other': frag[c]}
        library.add(lib, meth, 'fragility.csv', dlcalc.Calc.frame(frag, ['LS1-Family', 'LS1-Theta_1', 'LS1-DamageStateWeights']))
        library.add(lib, meth, 'pelicun_config.py', dlcalc.SCRIPT)
        dl = {'Asset': {'NumberOfStories': '1', 'ComponentDatabase': meth}, 'Demands': {}, 'Damage': {'DamageProcess': 'Hazus Hurricane'},
              'Losses': {'Repair': {'ConsequenceDatabase': meth, 'MapApproach': 'Automatic', 'DecisionVariables': {dv: True for dv, _ in dvs}}},
              'Options': {'Seed': int(rng.integers(1, 10 ** 6)), 'NonDirectionalMultipliers': {'ALL': 1.}}}
        library.add(lib, meth, 'dl.json', json.dumps(dl))
        comp = pd.DataFrame([('ea', '0', '1', 1., 'N/A')], index=[c], columns=['Units', 'Location', 'Direction', 'Theta_0', 'Family'])
        library.add(lib, meth, 'comp.csv', comp)
        if not script:
            first = dl
            all_comps = comp
    all_comps = pd.concat([all_comps, comp])
    library.add(lib, 'FEMA P-58', 'fragility.csv', dlcalc.Calc.frame({'B.10': dict(next(iter(frag.values())))}, ['LS1-DamageStateWeights']))
    xs = np.linspace(0, 1, int(rng.integers(3, 7)))
    table = np.maximum.outer(xs, xs)
    table[1:, 1:] = np.minimum(1, table[1:, 1:] + rng.uniform(0, .3, (len(xs) - 1,) * 2))
    table = np.round(table, 6)
    f = lib / library.paths()[methods[0]] / 'combine_wind_flood.csv'
    pd.DataFrame(table).to_csv(f, header=False, index=False)
    cfg = {'GeneralInformation': {'units': {'length': length, 'force': 'kN'}}, 'assetType': 'Buildings',
           'Applications': {'DL': {'ApplicationData': {'DL_Method': ', '.join(methods)}}}}
    (folder / 'config.json').write_text(json.dumps(cfg))
    ctx.describe(config=cfg, dl=first, table=table.tolist())
    coupled = bool(rng.random() < .7)
    seen = dlcalc.run(folder, str(tmp / 'out'), n=n, coupled=coupled)
    first['Demands'] = {'SampleSize': n, 'CoupledDemands': True} if coupled else {'SampleSize': n, 'Calibration': {'ALL': {'DistributionFamily': 'lognormal'}}}
    first['Asset'].update({'ComponentDatabase': ','.join(methods), 'ComponentAssignmentFile': 'all.csv'})
    first['Losses']['Repair'].update({'ConsequenceDatabase': ','.join(methods)})
    all_comps.to_csv(folder / 'all.csv')
    ctx.count('combined')
    against_reference(ctx, {'GeneralInformation': cfg['GeneralInformation'], 'DL': first}, seen, folder, lib, {'Cost': {tuple(names): table}})


def water(ctx):
    """Water networks: a segment-wise damage calculation with a component for the whole segment."""
    rng = ctx.rng
    base.pelicun_path = PACKAGE
    tmp = Path(ctx.tmp())
    lib = library.use(tmp / 'lib')
    folder = tmp / 'run'
    folder.mkdir()
    length = pbe.pick(rng, ['m', 'ft', 'in'])
    m, n, segs = int(rng.integers(5, 12)), int(rng.integers(4, 60)), int(rng.integers(1, 4))
    dem = {f'1-{e}-{s}-1': [pbe.sig(v * np.exp(.5 * z) / pbe.U[dlcalc.LU[length]], 6) for z in rng.normal(size=m)]
           for e, v in (('PGV', .5), ('PGD', .1)) for s in range(1, segs + 1)}
    pd.DataFrame(dem).to_csv(folder / 'response.csv')
    frag = {}
    for c, e in (('PWP.B.GS', 'PGV'), ('PWP.D.GD', 'PGD'), ('PWP.X.GS', 'PGV')):
        u = pbe.pick(rng, ['mps', 'inchps'] if e == 'PGV' else ['m', 'inch'])
        med = np.sort(np.exp(rng.uniform(-1, 1, 2))) * (.5 if e == 'PGV' else .1) / pbe.U[u]
        frag[c] = {'Incomplete-': 0, 'Demand-Type': 'Peak Ground Velocity' if e == 'PGV' else 'Permanent Ground Deformation', 'Demand-Unit': u, 'Demand-Offset': 0,
                   'Demand-Directional': 1, **{f'LS{i + 1}-Theta_0': pbe.sig(med[i], 4) for i in (0, 1)},
                   **{f'LS{i + 1}-Family': 'lognormal' for i in (0, 1)}, **{f'LS{i + 1}-Theta_1': .4 for i in (0, 1)}}
    library.add(lib, WATER, 'fragility.csv', dlcalc.Calc.frame(frag, ['LS1-DamageStateWeights']))
    library.add(lib, 'FEMA P-58', 'fragility.csv', dlcalc.Calc.frame({'B.10': dict(frag['PWP.B.GS'])}, ['LS1-DamageStateWeights']))
    rows = [(c, 'ea', str(s), '1', pbe.sig(rng.uniform(1, 9), 3)) for c in frag for s in range(1, segs + 1) if rng.random() < .8 or c == 'PWP.B.GS']
    whole = bool(rng.random() < .8)
    if whole:
        rows += [('aggregate', 'ea', str(s), '1', 1.) for s in range(1, segs + 1)]
    pd.DataFrame([r[1:] for r in rows], index=[r[0] for r in rows], columns=['Units', 'Location', 'Direction', 'Theta_0']).to_csv(folder / 'CMP_QNT.csv')
    d = {'DamageProcess': 'None'}
    if whole and rng.random() < .8:
        d = {'DamageProcess': 'User Defined', 'DamageProcessFilePath': 'process.json'}
        p = {'1_PWP.B.GS-LOC': {'DS1': 'aggregate_DS1', 'DS2': 'aggregate_DS2'}}
        if any(r[0] == 'PWP.D.GD' for r in rows):
            p['2_PWP.D.GD-LOC'] = {'DS1': 'aggregate_DS2'} if rng.random() < .5 else {'DS1': 'aggregate_DS1', 'DS2': 'aggregate_DS2'}
        (folder / 'process.json').write_text(json.dumps(p))
    dl = {'Asset': {'ComponentAssignmentFile': 'CMP_QNT.csv', 'ComponentDatabase': WATER, 'NumberOfStories': segs},
          'Demands': {'SampleSize': n, 'Calibration': {'ALL': {'DistributionFamily': 'lognormal'}}}, 'Damage': d,
          'Options': {'Seed': int(rng.integers(1, 10 ** 6)), 'ListAllDamageStates': bool(rng.random() < .5)},
          'Outputs': {'Damage': {'Sample': True}}}
    cfg = {'GeneralInformation': {'units': {'length': length, 'force': 'kN'}}, 'assetType': 'WaterDistributionNetwork', 'DL': dl}
    (folder / 'config.json').write_text(json.dumps(cfg))
    ctx.describe(config=cfg)
    before = json.dumps(cfg)
    seen = dlcalc.run(folder, str(tmp / 'out'))
    ctx.count('water')
    ctx.count('segments', whole)
    against_reference(ctx, json.loads(before), seen, folder, lib)


def main(folder, args):
    """The command line, in this process."""
    from pelicun.tools import DL_calculation as D
    real = D.run_pelicun
    seen = {}

    def fake(**kw):
        seen.update(dlcalc.run(folder, kw['output_path'], kw['demand_file'], kw['config_path'], kw['custom_model_dir'], kw['output_format'],
                               kw['detailed_results'], kw['coupled_edp'], kw['realizations'], runner=real))

    old = sys.argv
    D.run_pelicun = fake
    sys.argv = ['pelicun', *args]
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            D.main()
    finally:
        D.run_pelicun, sys.argv = real, old
    return seen


def rejected(ctx):
    from pelicun.pelicun_warnings import PelicunInvalidConfigError
    rng = ctx.rng
    k, folder, lib, tmp = setup(ctx, losses=True)
    k.config['DL']['Outputs'] = {x: ({'Repair': {'Sample': True}} if x == 'Loss' else {'Sample': True}) for x in dlcalc.FULL}
    k.config['DL']['Losses'] = {'Repair': next(iter(k.config['DL']['Losses'].values()))}
    good = json.dumps(k.config)

    def cfg_edit(f):
        c = json.loads(good)
        f(c, c['DL'])
        return json.dumps(c)

    def put(path, v):
        def f(c, dl):
            for p in path[:-1]:
                c = c.setdefault(p, {})
            c[path[-1]] = v
        return f

    def drop(*path):
        def f(c, dl):
            for p in path[:-1]:
                c = c.setdefault(p, {})
            c.pop(path[-1], None)
        return f

    coll = {'DemandType': 'SA_1.13', 'CapacityMedian': 1.}
    both = lambda *fs: lambda c, dl: [f(c, dl) for f in fs]   # noqa: E731
    D = 'DL'
    C = PelicunInvalidConfigError
    bad = {
        'no units': (drop('GeneralInformation', 'units'), C), 'no information': (drop('GeneralInformation'), C),
        'sample size list': (put([D, 'Demands', 'SampleSize'], [10]), C), 'no damage process': (drop(D, 'Damage', 'DamageProcess'), C),
        'no sample size': (both(drop(D, 'Demands', 'SampleSize'), drop(D, 'Options', 'Sampling')), C),
        'no asset': (drop(D, 'Asset'), C), 'no components': (drop(D, 'Asset', 'ComponentAssignmentFile'), C),
        'two component sources': (put([D, 'Asset', 'ComponentSampleFile'], 'x.csv'), C),
        'no collapse median': (put([D, 'Damage', 'CollapseFragility'], {'DemandType': 'SA_1.13'}), C),
        'no collapse dispersion': (put([D, 'Damage', 'CollapseFragility'], {**coll, 'CapacityDistribution': 'lognormal'}), C),
        'no collapse demand': (put([D, 'Damage', 'CollapseFragility'], {'CapacityMedian': 2.}), C),
        'irreparable median only': (put([D, 'Damage', 'IrreparableDamage'], {'DriftCapacityMedian': .01}), C),
        'irreparable dispersion only': (put([D, 'Damage', 'IrreparableDamage'], {'DriftCapacityLogStd': .3}), C),
        'no drift method': (put([D, 'Demands', 'InferResidualDrift'], {'1': .005}), C),
        'user process without file': (both(put([D, 'Damage', 'DamageProcess'], 'User Defined'), drop(D, 'Damage', 'DamageProcessFilePath')), C),
        'outputs without losses': (drop(D, 'Losses'), C), 'outputs without damage': (drop(D, 'Damage'), C),
        'replacement unit': (put([D, 'Losses', 'Repair', 'ReplacementCost'], {'Median': 5.}), C),
        'replacement median': (put([D, 'Losses', 'Repair', 'ReplacementTime'], {'Unit': 'worker_day'}), C),
        'outputs of wrong type': (put([D, 'Outputs', 'Damage'], {'Sample': 'yes'}), C),
        'decision variables of wrong type': (put([D, 'Losses', 'Repair', 'DecisionVariables'], {'Cost': 'yes'}), C),
        'calibration list': (put([D, 'Demands', 'Calibration'], ['lognormal']), C),
        'unknown drift method': (put([D, 'Demands', 'InferResidualDrift'], {'method': 'magic', '1': .005}), None),
        'unknown map approach': (put([D, 'Losses', 'Repair', 'MapApproach'], 'Guess'), None),
        'unknown combination': (put([D, 'Losses', 'Repair', 'CombinationMethod'], 'Sum'), None),
        'unknown collapse demand': (put([D, 'Damage', 'CollapseFragility'], {'DemandType': 'XYZ', 'CapacityMedian': 1.}), None),
        'unknown library': (put([D, 'Asset', 'ComponentDatabase'], 'No Such Library'), None),
        'unknown consequence library': (put([D, 'Losses', 'Repair', 'ConsequenceDatabase'], 'No Such Library'), None),
        'unknown family': (put([D, 'Demands', 'Calibration'], {'ALL': {'DistributionFamily': 'magic'}}), None),
        'unknown length unit': (put(['GeneralInformation', 'units', 'length'], 'parsec'), 'units'),
        'missing demand file': (put([D, 'Demands', 'DemandFilePath'], 'nowhere.csv'), None),
        'missing component file': (put([D, 'Asset', 'ComponentAssignmentFile'], 'nowhere.csv'), None),
    }
    names = [x for x in bad]
    for name in [names[i] for i in rng.permutation(len(names))[:8]]:
        f, kind = bad[name]
        if kind == 'units':
            if k.given_units:
                continue
            kind = None
        text = cfg_edit(f)
        (folder / 'config.json').write_text(text)
        out = tmp / f'out {name}'
        ctx.count('rejections')
        ctx.describe(rejected=name)
        try:
            dlcalc.run(folder, str(out), custom='custom')
        except PelicunInvalidConfigError as e:
            ctx.check(len(str(e)) > 10, 'rejected-without-reason', name)
        except (Exception, SystemExit) as e:   # noqa: BLE001
            ctx.check(kind is None, 'not-an-invalid-config-error', lambda: f'{name}: {type(e).__name__} {e}')
            ctx.count('rejected_late')
        else:
            ctx.check(False, 'invalid-accepted', name)
        left = [x.name for x in out.iterdir() if not x.name.startswith('pelicun_log')] if out.exists() else []
        ctx.check(not left, 'outputs-of-rejected-configuration', lambda: f'{name}: {left}')
    # the unchanged configuration still works
    (folder / 'config.json').write_text(good)
    seen = dlcalc.run(folder, str(tmp / 'fine'), custom='custom')
    against_reference(ctx, json.loads(good), seen, folder, lib)


def case(ctx):
    [explicit, explicit, hazus, explicit, auto, water if ctx.index % 20 == 5 else explicit, rejected, explicit, sample_file, combined][ctx.index % 10](ctx)
