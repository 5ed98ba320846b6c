"""C06: units convert exactly, and results do not depend on the units inputs and outputs are stated in."""
import contextlib
import io
import json

import numpy as np
import pandas as pd
import dmg
import loss
import pbe
from units import CATS, base_units
from pelicun import base

ID = 'C06'
RULE = ('seeded unit pairs, chains and values (scalar, list, array), user unit files (valid and broken), scale factors with counts; '
        'and seeded assessments run twice: demands (samples, calibrated with limits, marginal models), component quantities, '
        'fragilities, consequences, loss functions and outputs restated in other compatible units and/or other base units '
        '(user unit file), all samples compared as physical quantities')
QUICK, THOROUGH = 120, 6000
MIN_OBS = {'conversions': 1200, 'rejected': 200, 'restated': 45, 'base_changed': 20, 'losses': 300, 'states': 1800, 'user_files': 40,
           'sampled_demands': 60, 'limits': 5}
ASSUMPTIONS = ['factors of the unit table are accepted to 2e-6 of the definition (mass and force units are rounded)']

SAME = [*CATS.values(), ['ea', 'EA'], ['unitless', 'rad'], ['USD_2011', 'USD', 'loss_ratio'], ['worker_day'], ['J', 'MJ'], ['SF', 'ft2', 'm2']]


def case(ctx):
    return convert(ctx) if ctx.index % 5 == 0 else restate(ctx)


def raises(ctx, exc, key, f, *a, **k):
    ctx.count('rejected')
    try:
        r = f(*a, **k)
    except exc:
        return
    ctx.violate(key, f'{a} {k} was accepted and gave {r!r}')


def convert(ctx):
    rng = ctx.rng
    for _ in range(60):
        cat = pbe.pick(rng, list(CATS))
        u, v, w = (pbe.pick(rng, CATS[cat]) for _ in range(3))
        x = rng.uniform(-1, 1, int(rng.integers(1, 6))) * 10 ** rng.uniform(-9, 9)
        if rng.random() < .1:
            x[0] = pbe.pick(rng, [0., np.nan, np.inf])
        kind = int(rng.integers(3))
        arg = [float(x[0]), x.tolist(), x.reshape(-1, 1) if rng.random() < .3 else x][kind]
        keep = np.array(arg, copy=True)
        kw = {'category': cat} if rng.random() < .5 else {}
        y = base.convert_units(arg, u, v, **kw)
        ctx.count('conversions')
        ctx.check(type(y) is type(arg) or kind == 0 and isinstance(y, float), 'type', lambda: f'{type(arg)} became {type(y)}')
        ctx.close(y, keep * (pbe.U[u] / pbe.U[v]), 'convert', f'{u} to {v}', rtol=2e-6, atol=0)
        ctx.check(np.array_equal(np.asarray(arg), keep, equal_nan=True), 'input', lambda: 'convert_units changed its input')
        y = base.convert_units(base.convert_units(arg, u, w), w, v)
        ctx.close(y, base.convert_units(arg, u, v), 'compose', f'{u} to {w} to {v}', rtol=1e-13, atol=0)
        ctx.close(base.convert_units(base.convert_units(arg, u, v), v, u), keep, 'invert', f'{u} to {v} and back', rtol=1e-13, atol=0)
        other = pbe.pick(rng, [c for c in CATS if c != cat])
        t = pbe.pick(rng, CATS[other])
        how = int(rng.integers(5))
        if how == 0:
            raises(ctx, ValueError, 'incompatible', base.convert_units, arg, u, t)
        elif how == 1:
            raises(ctx, ValueError, 'incompatible', base.convert_units, arg, u, t, category=pbe.pick(rng, [cat, other]))
        elif how == 2:
            bad = pbe.pick(rng, ['furlong', '', 'M', ' m', 'm ', 'ft-2'])
            raises(ctx, ValueError, 'unknown', base.convert_units, arg, *((bad, v) if rng.random() < .5 else (u, bad)), **kw)
        elif how == 3:
            raises(ctx, ValueError, 'unknown-category', base.convert_units, arg, u, v, category='Length')
        else:
            raises(ctx, TypeError, 'wrong-type', base.convert_units, pbe.pick(rng, ['1.0', None, (1., 2.), {'a': 1.}]), u, v)
        ctx.observe('convert', cat, u, v)
    a = pbe.assessment()
    for u, f in pbe.U.items():
        k = pbe.pick(rng, [int(rng.integers(1, 500)), pbe.sig(rng.uniform(.01, .99)), pbe.sig(rng.uniform(1, 50))])
        ctx.close([a.calc_unit_scale_factor(u), a.calc_unit_scale_factor(f'{k} {u}'), a.scale_factor(u)], [f, k * f, f], 'factor', u, rtol=2e-6, atol=0)
    for bad in ('furlong', '2 smoots', 'M'):
        raises(ctx, KeyError, 'unknown-factor', a.calc_unit_scale_factor, bad)
        raises(ctx, ValueError, 'unknown-factor', a.scale_factor, bad)
    # user files
    cat = {'lengths': {'span': .2286, 'm': 1.}, 'other': {'dozen': '12', 'fraction': 1e-3}}
    d = ctx.tmp()
    p = d / 'u.json'
    p.write_text(json.dumps(cat))
    ctx.count('user_files')
    ctx.check(base.parse_units(str(p)) == {'span': .2286, 'm': 1., 'dozen': 12., 'fraction': 1e-3}, 'user-file', lambda: f'{base.parse_units(str(p))}')
    q = pbe.assessment({'UnitsFile': str(p)})
    ctx.close([q.calc_unit_scale_factor('3 span'), q.scale_factor('dozen')], [3 * .2286, 12.], 'user-factor', 'user file')
    for text, exc in (('{"a": {"x": 1, "x": 2}}', ValueError), ('{"a": {"x": 1}, "b": {"x": 2}}', ValueError), ('{"a": {"x": "one"}}', ValueError),
                      ('{"a": {"x": [1]}}', TypeError), ('{"x": 1}', TypeError), ('{"a": ', ValueError)):
        p.write_text(text)
        raises(ctx, exc, 'broken-file', base.parse_units, str(p))
    raises(ctx, FileNotFoundError, 'no-file', base.parse_units, str(d / 'none.json'))
    # unknown units of demands
    df = pd.DataFrame({'PFA-1-1': ['inchps3', 1., 2.]}, index=['Units', '0', '1'])
    raises(ctx, (KeyError, ValueError), 'unknown-demand-unit', a.demand.load_sample, df)
    df = pd.DataFrame({'Units': ['gs'], 'Family': ['normal'], 'Theta_0': [1.], 'Theta_1': [.2]}, index=['PFA-1-1'])
    raises(ctx, (KeyError, ValueError), 'unknown-demand-unit', a.demand.load_model, {'marginals': df})


def other(rng, u):
    """A unit that measures the same, and the factor that restates a value."""
    c = [x for s in SAME if u in s for x in s]
    v = pbe.pick(rng, c)
    return v, pbe.U[u] / pbe.U[v]


def number(x, f):
    return float(x) * f


def restate(ctx):
    rng = ctx.rng
    src = pbe.pick(rng, ['sample', 'sample', 'calibrated', 'calibrated', 'model'])
    m = dmg.Model(rng, n=60 if src == 'calibrated' else int(rng.choice([3, 10, 30])), ncmp=3 if src == 'calibrated' else None, exprs=False, random_quantities=True, max_rows=2, weights=True)
    # away from exact ties; random capacities for some
    for c in [c for c in m.frag if c.endswith('Theta_0')]:
        m.frag[c] *= 1.00001
        if rng.random() < .5:
            fam = pbe.pick(rng, ['lognormal', 'normal', 'normal_std'])
            b = c[:-7]
            m.frag[b + 'Family'] = fam
            m.frag[b + 'Theta_1'] = m.frag[c] * .2 if fam == 'normal_std' else .3
    if src == 'calibrated' and m.demands.shape[1] > 25:
        src = 'model'       # too few realizations for a joint fit
    L = loss.Losses(rng, m, lf=.4 if src == 'sample' else 0.)
    seed = int(rng.integers(1e6))
    eco = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    m.opts['EconomiesOfScale'] = eco
    edps = list(m.demands.columns)
    units = m.demands.loc['Units'].to_dict()
    lim = None
    if src == 'calibrated':
        fam = pbe.pick(rng, ['lognormal', 'empirical', 'normal'])
        lim = {'ALL': {'DistributionFamily': 'lognormal'}}
        t = edps[0].split('-')[0].split('_')[0]
        if t in pbe.EDP_UNITS:
            lim[t] = {'DistributionFamily': fam}
            if fam != 'empirical' and rng.random() < .5:
                u = units[edps[0]]
                lim[t] |= {'TruncateUpper': float(m.demands[edps[0]].iloc[1:].max()) * 20 * pbe.U[u] / pbe.U[u], 'Unit': u}
                ctx.count('limits')
            if rng.random() < .3 and fam == 'lognormal':
                lim[t]['AddUncertainty'] = .2
    marg = None
    if src == 'model':
        rows = {}
        for e in edps:
            v = m.demands[e].iloc[1:].astype(float)
            fam = pbe.pick(rng, ['lognormal', 'normal', 'normal_std'])
            rows[e] = {'Units': units[e], 'Family': fam, 'Theta_0': v.median(), 'Theta_1': .2 * v.median() if fam == 'normal_std' else .3,
                       'TruncateLower': v.median() * .3, 'TruncateUpper': np.nan if rng.random() < .5 else v.median() * 3}
        marg = pd.DataFrame.from_dict(rows, orient='index')
    ctx.describe(source=src, demands=m.demands, frag=m.frag, marginals=m.marginals, consequences=L.table, functions=L.functions)

    # ---- restated inputs
    d2, f2, c2 = m.demands.copy(), m.frag.copy(), m.marginals.copy()
    marg2, lim2 = None if marg is None else marg.copy(), None if lim is None else {k: dict(v) for k, v in lim.items()}
    for e in edps:
        v, f = other(rng, units[e])
        d2.loc['Units', e] = v
        d2.loc[d2.index[1:], e] = [number(x, f) for x in d2[e].iloc[1:]]
        if marg2 is not None:
            marg2.loc[e, 'Units'] = v
            for k in ('Theta_0', 'TruncateLower', 'TruncateUpper') + (('Theta_1',) if marg.loc[e, 'Family'] == 'normal_std' else ()):
                marg2.loc[e, k] *= f
    if lim2:
        for v in lim2.values():
            if 'Unit' in v:
                v['Unit'], f = other(rng, v['Unit'])
                v['TruncateUpper'] *= f
    for c in f2.index:
        v, f = other(rng, f2.loc[c, 'Demand-Unit'])
        f2.loc[c, 'Demand-Unit'] = v
        for k in f2.columns:
            if k.endswith('Theta_0') or k.endswith('Theta_1') and f2.loc[c, k.replace('Theta_1', 'Family')] == 'normal_std':
                f2.loc[c, k] = f2.loc[c, k] * f
    # a component has one unit
    for c in c2.index.unique():
        u = c2.loc[[c], 'Units']
        v, _ = other(rng, u.iloc[0])
        g = [pbe.U[x] / pbe.U[v] for x in u]
        c2.loc[c, 'Units'] = v
        c2.loc[c, 'Theta_0'] = [number(x, y) for x, y in zip(m.marginals.loc[[c], 'Theta_0'], g)]

    def text(s, fy, fx):
        if not isinstance(s, str):
            return s * fy
        y, x = s.split('|')
        return ','.join(repr(float(a) * fy) for a in y.split(',')) + '|' + ','.join(repr(float(a) * fx) for a in x.split(','))
    t2, l2 = (None if t is None else t.copy().astype(object) for t in (L.table, L.functions))
    dvu = {}
    for dv in L.dvs:
        dvu[dv] = other(rng, L.unit[dv])
    if t2 is not None:
        for k in t2.index:
            dv = k.split('-')[1]
            if dv not in dvu:
                continue
            t2.loc[k, 'DV-Unit'], fy = dvu[dv]
            q = t2.loc[k, 'Quantity-Unit']
            n, u = ([1., q] if ' ' not in q else q.split(' '))
            v, _ = other(rng, u)
            cnt = int(rng.integers(1, 50))
            t2.loc[k, 'Quantity-Unit'] = f'{cnt} {v}'
            r = cnt * pbe.U[v] / (float(n) * pbe.U[u])      # the new reference quantity in old ones
            for c in t2.columns:
                if c.endswith('Theta_0'):
                    x = t2.loc[k, c]
                    if isinstance(x, str):
                        t2.loc[k, c] = text(x, fy * r, 1 / r)
                    elif not pd.isna(x):
                        t2.loc[k, c] = x * fy * r
    if l2 is not None:
        for k in l2.index:
            l2.loc[k, 'DV-Unit'], fy = dvu[k.split('-')[1]]
            l2.loc[k, 'Demand-Unit'], fx = other(rng, l2.loc[k, 'Demand-Unit'])
            l2.loc[k, 'LossFunction-Theta_0'] = text(l2.loc[k, 'LossFunction-Theta_0'], fy, fx)
    ctx.count('restated')

    def run(dem, mg, lm, cmp, frag, table, functions, tab, opts):
        a = pbe.assessment({**m.opts, **opts}, m.stories, seed)
        if src == 'model':
            a.demand.load_model({'marginals': mg})
            a.demand.generate_sample({'SampleSize': m.n})
        else:
            a.demand.load_sample(dem)
            if src == 'calibrated':
                with contextlib.redirect_stdout(io.StringIO()):
                    a.demand.calibrate_model(lm)
                a.demand.generate_sample({'SampleSize': m.n, 'PreserveRawOrder': False})
        a.asset.load_cmp_model({'marginals': cmp})
        a.asset.generate_cmp_sample(sample_size=m.n)
        a.damage.load_model_parameters([frag], set(a.asset.list_unique_component_ids()))
        a.damage.calculate()
        L.load(a, sources=[x for x in (table, functions) if x is not None])
        a.loss.calculate()
        out = {}
        for name, obj, save in (('demand', a.demand.sample, a.demand.save_sample), ('cmp', a.asset.cmp_sample, a.asset.save_cmp_sample),
                                ('damage', a.damage.ds_model.sample, a.damage.save_sample), ('ds', a.loss.ds_model.sample, a.loss.ds_model.save_sample)):
            if obj is None:
                out[name] = {}
                continue
            # what the user reads, as a physical quantity
            t, us = save(save_units=True)
            out[name] = {tuple(map(str, k)): t[k].to_numpy(float) * pbe.U[us[k]] for k in t.columns}
            ctx.check(len(t.columns) == obj.shape[1], 'saved-columns', lambda: f'{name}: {len(t.columns)} columns of {obj.shape[1]}')
            o = pbe.as_dict(obj)
            fac = {k: tab[us[k2]] for k, k2 in zip(map(lambda k: tuple(map(str, k)), t.columns), t.columns)}
            for k, v in o.items():
                ctx.close(out[name][k] / pbe.U[us[[c for c in t.columns if tuple(map(str, c)) == k][0]]] * fac[k], v, 'saved', f'{name} {k}', rtol=2e-6)
        lf = a.loss.lf_model.sample
        out['lf'] = {} if lf is None else {k: v * pbe.U[L.unit[k[0]]] / tab[L.unit[k[0]]] for k, v in pbe.as_dict(lf).items()}
        out['states'] = dmg.ds_dict(a)
        agg, _ = a.loss.aggregate_losses(future=True)
        out['aggregate'] = {tuple(map(str, k)): agg[k].to_numpy(float) for k in agg.columns}
        return a, out
    opts, tab = {}, None
    # loss functions are per base unit of the component
    if rng.random() < .6 and (L.functions is None or all(k == 'ea' for k in L.kinds.values())):
        f, tab = base_units(ctx)
        opts['UnitsFile'] = f
        ctx.count('base_changed')
        ctx.count('user_files')
    a1, o1 = run(m.demands, marg, lim, m.marginals, m.frag, L.table, L.functions, pbe.U, {})
    a2, o2 = run(d2, marg2, lim2, c2, f2, t2, l2, tab or pbe.U, opts)
    tol = {'demand': 1e-3 if lim and 'TruncateUpper' in str(lim) else 3e-6, 'cmp': 3e-6, 'damage': 3e-6}
    for name in ('demand', 'cmp'):
        if ctx.check(set(o1[name]) == set(o2[name]), name + '-columns', lambda: f'{set(o1[name]) ^ set(o2[name])}'):
            for k, v in o1[name].items():
                ctx.close(o2[name][k], v, name, f'{k}', rtol=tol[name], atol=0)
    ctx.count('sampled_demands', 0 if src == 'sample' else len(o1['demand']))
    same = all(np.array_equal(o1['states'][k], o2['states'].get(k)) for k in o1['states'])
    ctx.count('states', sum(v.size for v in o1['states'].values()))
    diff = [k for k in o1['states'] if not np.array_equal(o1['states'][k], o2['states'].get(k))]
    nd = sum(int((o1['states'][k] != o2['states'][k]).sum()) for k in diff if k in o2['states'])
    if not ctx.check(set(o1['states']) == set(o2['states']) and nd <= (0 if tol['demand'] < 1e-5 else .02 * sum(v.size for v in o1['states'].values())), 'states',
                     lambda: f'damage states differ for {diff[:3]}: {nd} values'):
        return
    if not same:
        return
    for name in ('damage', 'ds', 'lf'):
        if not ctx.check(set(o1[name]) == set(o2[name]), name + '-columns', lambda: f'{sorted(set(o1[name]) ^ set(o2[name]))[:4]}'):
            return
    for k, v in o1['damage'].items():
        ctx.close(o2['damage'][k], v, 'damage', f'{k}', rtol=3e-6)
    ref = L.ds_losses(o1['damage'], eco['AcrossFloors'], eco['AcrossDamageStates'])
    lref = L.lf_losses(o1['cmp']) if src == 'sample' else {}
    for name, r in (('ds', ref), ('lf', lref)):
        for k, v in o1[name].items():
            ctx.count('losses')
            med, w = r[k][:2]
            with np.errstate(all='ignore'):
                rel = np.where(np.abs(med) > 0, np.broadcast_to(w, np.shape(med)) / np.abs(med), 0)
            ctx.check(np.all(np.abs(o2[name][k] - v) <= (4 * rel + 2e-5) * np.abs(v) + 1e-12 + (np.abs(med) <= 0) * 4 * np.abs(w)), 'loss',
                      lambda: f'{name} {k}: {o2[name][k][:5]} was {v[:5]}')
    # aggregated outputs are in the unit of the decision variable
    for k, v in o1['aggregate'].items():
        dv = next((d for d in L.dvs if k[0].lower().replace('repair_', '') == d.lower()), None)
        if dv is None or k not in o2['aggregate']:
            ctx.check(k in o2['aggregate'], 'aggregate-columns', lambda: f'{k} missing')
            continue
        f = dvu[dv][1]
        s = max(np.abs(v).max(), 1e-12)
        ctx.check(np.all(np.abs(o2['aggregate'][k] - v * f) <= 5e-3 * s * f), 'aggregate',
                  lambda: f'{k} in {dvu[dv][0]}: {o2["aggregate"][k][:4]} expected {v[:4] * f} (was in {L.unit[dv]})')
        ctx.count('aggregates')
    ctx.observe(src, bool(tab), tuple(L.dvs), eco['AcrossFloors'])
