"""C40: deprecated interfaces and older file layouts give the results of what replaced them."""
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import c27  # noqa: E402
import pbe  # noqa: E402

ID = 'C40'
RULE = ('seeded whole assessments run once through the current interface and once with a random choice of the documented deprecated '
        'spellings (assessment.bldg_repair / .repair, damage.load_damage_model, damage.sample, loss.load_model, loss.load_model_parameters with '
        'decision variables, loss maps with DMG- labels or a BldgRepair column, loss.sample, loss.save_sample, loss.load_sample, '
        'aggregate_losses without `future`) and with samples in the layout without component uids; every sample compared bit by bit')
QUICK, THOROUGH = 90, 3000
MIN_OBS = {'runs': 80, 'frames': 500, 'bldg_repair': 12, 'repair': 12, 'load_damage_model': 15, 'damage.sample': 60, 'load_model': 8, 'dv_argument': 15,
           'dmg_map': 6, 'bldgrepair_map': 8, 'save_load': 40, 'no_uid': 20, 'aggregate': 70}
ASSUMPTIONS = ['the current interface is decided by the other checks', 'files with equal column headings are not covered']


def mapping(rng, ctx, mp, tmp):
    """The loss map in an older layout."""
    if mp is None:
        return None
    mp = mp.copy()
    u = rng.random()
    if u < .4:
        mp.index = ['DMG-' + i for i in mp.index]
        ctx.count('dmg_map')
    if rng.random() < .4:
        mp = mp.rename(columns={'Repair': 'BldgRepair'})
        ctx.count('bldgrepair_map')
    if rng.random() < .4:
        f = str(Path(tmp) / 'loss_map.csv')
        mp.to_csv(f)
        return f
    return mp


def start(P, marginals):
    from pelicun.assessment import Assessment
    a = Assessment(P['opts'])
    a.stories = P['m'].stories
    a.demand.load_sample(P['demands'])
    a.asset.load_cmp_model({'marginals': marginals})
    a.asset.generate_cmp_sample()
    return a


def rename(x, names):
    """Component names in every input replaced."""
    if isinstance(x, str):
        for o, n in names.items():
            if x == o or x.startswith((o + '-', o + '_')):
                return n + x[len(o):]
        return x
    if isinstance(x, pd.DataFrame):
        x = x.copy()
        x.index = [rename(i, names) for i in x.index]
        if 'Repair' in x:
            x['Repair'] = [rename(i, names) for i in x['Repair']]
        return x
    if isinstance(x, dict):
        return {rename(k, names): rename(v, names) for k, v in x.items()}
    return x


def process(x, names):
    """Keys of damage processes are <number>_<component>."""
    return {'_'.join([k.split('_', 1)[0], rename(k.split('_', 1)[1], names)]): {e: rename(t, names) for e, t in v.items()} for k, v in x.items()}


def same(ctx, key, x, y):
    ctx.count('frames')
    if x is None or y is None:
        return ctx.check(x is None and y is None, key, 'only one of them exists')
    return ctx.check(c27.digest(x) == c27.digest(y), key, lambda: c27.what(x, y))


def case(ctx):  # noqa: C901, PLR0915
    rng = ctx.rng
    P = c27.workload(rng)
    P['cal'] = None
    P['opts']['Seed'] = P['seed']
    tmp = ctx.tmp()
    if rng.random() < .3:
        # names that look like the old flags
        names = {c: f'{pbe.pick(rng, ["DMG", "X.DMG", "DMG.", "DVDMG"])}{i}' for i, c in enumerate(P['m'].cmps) if rng.random() < .7}
        for k in ('marginals', 'frag', 'map', 'table', 'functions'):
            P[k] = rename(P[k], names)
        P['dmg'] = dict(P['dmg'])
        if 'scaling_specification' in P['dmg']:
            P['dmg']['scaling_specification'] = rename(P['dmg']['scaling_specification'], names)
        if 'dmg_process' in P['dmg']:
            P['dmg']['dmg_process'] = process(P['dmg']['dmg_process'], names)
        ctx.count('flag_like_names')
    L = P['L']
    dvs, sources = L.dvs, [x for x in (P['table'], P['functions']) if x is not None]
    ctx.describe(**{k: repr(v) if isinstance(v, dict) else v for k, v in c27.inputs(P).items()}, seed=P['seed'])
    ctx.count('runs')

    new = start(P, P['marginals'])
    new.damage.load_model_parameters([P['frag']], set(new.asset.list_unique_component_ids()))
    new.damage.calculate(**P['dmg'])

    # the old one
    old = start(P, P['marginals'])
    if rng.random() < .7:
        old.damage.load_damage_model([P['frag']], warn_missing=bool(rng.random() < .5))
        ctx.count('load_damage_model')
    else:
        old.damage.load_model_parameters([P['frag']], set(old.asset.list_unique_component_ids()))
    old.damage.calculate(**P['dmg'])
    same(ctx, 'ds', old.damage.ds_model.ds_sample, new.damage.ds_model.ds_sample)
    same(ctx, 'damage', old.damage.sample, new.damage.ds_model.sample)
    ctx.count('damage.sample')

    new.loss.decision_variables = dvs
    new.loss.add_loss_map(P['map'], P['policy'])
    new.loss.load_model_parameters(sources)
    new.loss.calculate()

    u = rng.random()
    Q = old.loss
    if u < .35:
        Q = old.bldg_repair
        ctx.count('bldg_repair')
    elif u < .7:
        Q = old.repair
        ctx.count('repair')
    mp = mapping(rng, ctx, P['map'], tmp)
    before = c27.frozen({'m': mp, 's': sources})
    if P['policy'] is None and rng.random() < .6:
        Q.load_model(sources, mp, dvs)
        ctx.count('load_model')
    else:
        if rng.random() < .7:
            Q.add_loss_map(mp, P['policy'])
            Q.load_model_parameters(sources, dvs)
            ctx.count('dv_argument')
        else:
            Q.decision_variables = dvs
            Q.add_loss_map(mp, P['policy'])
            Q.load_model_parameters(sources)
    ctx.check(c27.frozen({'m': mp, 's': sources}) == before, 'inputs-modified', 'loss map or loss parameters of the caller changed')
    Q.calculate()
    a, b = new.loss, old.loss
    ctx.check(tuple(b.decision_variables) == tuple(dvs), 'decision-variables', lambda: f'{b.decision_variables} instead of {dvs}')
    same(ctx, 'ds-loss', b.ds_model.sample, a.ds_model.sample)
    same(ctx, 'lf-loss', b.lf_model.sample, a.lf_model.sample)
    if b.sample is not None:
        same(ctx, 'loss.sample', b.sample, a.sample)
    ctx.observe(P['policy'], type(mp).__name__, a.ds_model.sample is None, a.lf_model.sample is None, len(dvs), round(u, 1))

    x = b.aggregate_losses()
    ctx.check(isinstance(x, pd.DataFrame), 'aggregate', f'{type(x).__name__} without `future`')
    same(ctx, 'aggregate', x, a.aggregate_losses(future=True)[0])
    ctx.count('aggregate')

    # samples saved and loaded
    if a.ds_model.sample is None:
        return
    f = str(Path(tmp) / 'loss.csv')
    if rng.random() < .5:
        b.ds_model.save_sample(f)
        src = f
    else:
        src = b.ds_model.save_sample(save_units=True)
        src = pd.concat([src[1].to_frame().T, src[0]])
    table = pd.read_csv(f, index_col=0) if isinstance(src, str) else src
    c = start(P, P['marginals'])
    c.loss.decision_variables = dvs
    c.loss.load_sample(src)
    ctx.count('save_load')
    near(ctx, 'load_sample', c.loss.ds_model.sample, a.ds_model.sample)
    d = start(P, P['marginals'])
    d.loss.decision_variables = dvs
    units = d.loss.ds_model.load_sample(src)
    ctx.check(units == c.loss.dv_units, 'dv-units', lambda: f'{c.loss.dv_units} instead of {units}')
    same(ctx, 'load_sample', c.loss.ds_model.sample, d.loss.ds_model.sample)

    # without uids: the order of the columns tells the groups apart
    old_layout(ctx, P, tmp, a, table)


def near(ctx, key, x, y):
    """Equal up to the rounding of units."""
    y = y[list(x.columns)] if set(map(tuple, x.columns)) == set(map(tuple, y.columns)) else y
    ctx.count('frames')
    if ctx.check(list(map(tuple, x.columns)) == list(map(tuple, y.columns)), key, lambda: f'labels {list(x.columns)[:2]} vs {list(y.columns)[:2]}'):
        u, v = x.to_numpy(dtype=float), y.to_numpy(dtype=float)
        ctx.check(u.shape == v.shape and np.allclose(u, v, rtol=1e-9, atol=0), key, lambda: f'{u[:2, :3]} vs {v[:2, :3]}')


def old_layout(ctx, P, tmp, a, table):
    rng = ctx.rng
    s = a.ds_model.sample
    t = table.copy()
    parts = [tuple(str(c).split('-')) if isinstance(c, str) else tuple(map(str, c)) for c in t.columns]
    if {len(p) for p in parts} != {7}:
        return ctx.check(False, 'labels', f'{parts[:2]}')
    keep = [p[:-1] for p in parts]
    t.columns = ['-'.join(k) for k in keep]
    b = start(P, P['marginals'])
    # equal headings in a file are renamed by the CSV reader
    if len(set(keep)) == len(keep) and rng.random() < .7:
        f = str(Path(tmp) / 'old_loss.csv')
        t.to_csv(f)
        b.loss.load_sample(f)
    else:
        b.loss.load_sample(t)
    got = b.loss.ds_model.sample
    ctx.count('no_uid')
    # numbered in the order of the table
    n, labels = {}, []
    for k in keep:
        labels.append((*k, str(n.get(k, 0))))
        n[k] = n.get(k, 0) + 1
    want = s[[tuple(p) for p in parts]].copy()
    want.columns = pd.MultiIndex.from_tuples(labels, names=s.columns.names)
    near(ctx, 'loss-without-uid', got, want)

    # components
    cs, units = start(P, P['marginals']).asset.save_cmp_sample(save_units=True)
    t = pd.concat([units.to_frame().T, cs])
    keep = [tuple(map(str, c))[:-1] if not isinstance(c, str) else tuple(c.split('-'))[:-1] for c in t.columns]
    full = [tuple(map(str, c)) if not isinstance(c, str) else tuple(c.split('-')) for c in t.columns]
    t.columns = ['-'.join(k) for k in keep]
    c = start(P, P['marginals'])
    truth = c.asset.cmp_sample.copy()
    c.asset.load_cmp_sample(t)
    n, labels = {}, []
    for k in keep:
        labels.append((*k, str(n.get(k, 0))))
        n[k] = n.get(k, 0) + 1
    truth = truth[full]
    truth.columns = pd.MultiIndex.from_tuples(labels, names=truth.columns.names)
    near(ctx, 'components-without-uid', c.asset.cmp_sample, truth)
    return None
