"""C07: saved samples and models load back to the same state, and saving changes nothing."""
import contextlib
import io
import pickle

import numpy as np
import pandas as pd
import units as unitlib
import dmg
import loss
import pbe

ID = 'C07'
RULE = ('seeded assessments saved after each stage (demands, demand model, components, damage, losses) to files or in memory and '
        'reloaded, in chains, into new assessments with the same or other base units; stored samples, units and models compared as '
        'physical quantities, states before and after saving compared, remaining stages continued from the loaded state and compared '
        'with the original results; results with empty and missing entries included')
QUICK, THOROUGH = 170, 7000
MIN_OBS = {'file': 150, 'memory': 150, 'other_base': 20, 'continued_damage': 40, 'continued_loss': 60, 'continued_aggregate': 8,
           'models': 40, 'overwritten': 8, 'empirical': 5, 'missing_values': 1, 'model_samples': 100}
ASSUMPTIONS = ['text files may round the last digits of a value (1e-12 relative)']


def case(ctx):
    return models(ctx) if ctx.index % 3 == 0 else samples(ctx)


def strs(cols):
    return [tuple(map(str, c)) if isinstance(c, tuple) else (str(c),) for c in cols]


def state(x):
    """Everything a model holds, except the log and the parent."""
    out = {}
    for s in {s for t in type(x).__mro__ for s in getattr(t, '__slots__', [])} | set(getattr(x, '__dict__', {})):
        if s in ('_asmnt', 'log', 'ds_model', 'lf_model', '_cmp_RVs', '_RVs') or not hasattr(x, s):
            continue
        out[s] = pickle.dumps(getattr(x, s))
    return out


def transfer(ctx, save, mem_ok=True):
    """Saved data in the form a user passes on, and the channel."""
    rng = ctx.rng
    if mem_ok and rng.random() < .5:
        ctx.count('memory')
        t, u = save(save_units=True)
        ctx.check(t.equals(save()), 'saved-twice', 'saving with and without units differs')
        df = pd.concat([u.rename('Units').to_frame().T, t])
        return df if rng.random() < .6 else df.loc[[*df.index[1:3], 'Units', *df.index[3:]]]
    ctx.count('file')
    p = str(ctx.tmp() / 'saved.csv')
    save(p)
    return p


def physical(df, unit_of, tab):
    """{label: values in SI} of a stored sample in a base unit system."""
    return {k: df[c].to_numpy(float) / tab[unit_of(k)] * pbe.U[unit_of(k)] for k, c in zip(strs(df.columns), df.columns)}


def same(ctx, got, want, key, rtol=2e-6):
    if not ctx.check(set(got) == set(want), key + '-columns', lambda: f'extra {sorted(set(got) - set(want))[:3]} missing {sorted(set(want) - set(got))[:3]}'):
        return False
    ok = True
    for k, v in want.items():
        ok &= ctx.close(got[k], v, key, f'{k}', rtol=rtol, atol=1e-300)
    return ok


def samples(ctx):
    rng = ctx.rng
    m = dmg.Model(rng, n=int(rng.choice([1, 2, 3, 10, 30])), exprs=False, random_quantities=True, max_rows=2)
    for c in [c for c in m.frag if c.endswith('Theta_0')]:
        m.frag[c] *= 1.00001
    L = loss.Losses(rng, m, lf=.3, p_family=0.)
    m.opts['EconomiesOfScale'] = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    seed = int(rng.integers(1e6))
    proc = None
    if rng.random() < .3:
        c = pbe.pick(rng, list(m.cmps))
        o = pbe.pick(rng, list(m.cmps))
        if c != o:
            proc = {f'1_{c}': {'DS1': f'{o}_NA'}}
    ctx.describe(demands=m.demands, frag=m.frag, marginals=m.marginals, consequences=L.table, functions=L.functions, process=proc)
    per_q = any(k != 'ea' for k in L.kinds.values()) and L.functions is not None

    def system():
        if rng.random() < .5 and not per_q:
            f, tab = unitlib.base_units(ctx)
            ctx.count('other_base')
            return {'UnitsFile': f}, tab
        return {}, pbe.U

    def new(opts):
        return pbe.assessment({**m.opts, **opts}, m.stories, seed)

    def calc_damage(a):
        a.damage.load_model_parameters([m.frag], set(a.asset.list_unique_component_ids()))
        a.damage.calculate(dmg_process=proc)

    def calc_loss(a):
        L.load(a)
        a.loss.calculate()

    opts, tab = system()
    a = new(opts)
    a.demand.load_sample(m.demands)
    a.asset.load_cmp_model({'marginals': m.marginals})
    a.asset.generate_cmp_sample(sample_size=m.n)
    calc_damage(a)
    ctx.count('missing_values', int(a.damage.ds_model.sample.isna().any().any()))
    calc_loss(a)
    agg, _ = a.loss.aggregate_losses(future=True)
    du = {tuple(c.split('-')): u for c, u in m.demands.loc['Units'].items()}
    cu = {c: m.marginals.loc[[c], 'Units'].iloc[0] for c in m.marginals.index}
    readers = {
        'demand': lambda x, t: physical(x.demand.sample, lambda k: du[k], t),
        'cmp': lambda x, t: physical(x.asset.cmp_sample, lambda k: cu[k[0]], t),
        'damage': lambda x, t: physical(x.damage.ds_model.sample, lambda k: cu[k[0]], t),
        'loss': lambda x, t: {} if x.loss.ds_model.sample is None else physical(x.loss.ds_model.sample, lambda k: L.unit[k[0]], t),
    }
    want = {k: f(a, tab) for k, f in readers.items()}
    wagg = {k: agg[c].to_numpy(float) for k, c in zip(strs(agg.columns), agg.columns)}
    cur, ctab = a, tab
    used = bool(opts)
    for hop in range(int(rng.integers(1, 4))):
        opts, ntab = system()
        used = used or bool(opts)
        b = new(opts)
        before = {n: state(x) for n, x in parts(cur)}
        src = {'demand': transfer(ctx, cur.demand.save_sample), 'cmp': transfer(ctx, cur.asset.save_cmp_sample),
               'damage': transfer(ctx, cur.damage.save_sample)}
        if cur.loss.ds_model.sample is not None:
            src['loss'] = transfer(ctx, cur.loss.ds_model.save_sample)
        after = {n: state(x) for n, x in parts(cur)}
        for n, s in before.items():
            ctx.check(s == after[n], 'save-changes-state', lambda: f'saving changed {n}: {[k for k in s if s[k] != after[n].get(k)]}')
        keep = {k: v.copy() for k, v in src.items() if isinstance(v, pd.DataFrame)}
        b.demand.load_sample(src['demand'])
        b.asset.load_cmp_sample(src['cmp'])
        cont = pbe.pick(rng, ['damage', 'loss', 'aggregate'])
        if cont == 'damage':
            ctx.count('continued_damage')
            calc_damage(b)
        else:
            b.damage.load_sample(src['damage'])
        if cont == 'aggregate' and not ('loss' in src and cur.loss.lf_model.sample is None):
            cont = 'loss'
        if cont == 'aggregate':
            ctx.count('continued_aggregate')
            b.loss.decision_variables = L.dvs
            b.loss.dv_units = b.loss.ds_model.load_sample(src['loss'])
        else:
            ctx.count('continued_loss')
            calc_loss(b)
        for k, v in keep.items():
            ctx.check(v.equals(src[k]), 'input-changed', lambda: f'loading changed the {k} table')
        for name, f in readers.items():
            if not same(ctx, f(b, ntab), want[name], name, 2e-6 if used else 1e-10):
                return
        names = {'demand': (b.demand.sample, ['type', 'loc', 'dir']), 'cmp': (b.asset.cmp_sample, ['cmp', 'loc', 'dir', 'uid']),
                 'damage': (b.damage.ds_model.sample, ['cmp', 'loc', 'dir', 'uid', 'ds'])}
        for k, (df, lv) in names.items():
            ctx.check(list(df.columns.names) == lv and list(df.index) == list(range(m.n)), 'labels', lambda: f'{k}: {df.columns.names} {list(df.index)[:5]}')
        g, _ = b.loss.aggregate_losses(future=True)
        gd = {k: g[c].to_numpy(float) for k, c in zip(strs(g.columns), g.columns)}
        if not same(ctx, gd, wagg, 'aggregate', 2e-6 if used else 1e-10):
            return
        # a loaded state without losses of its own can be saved again
        if cont == 'aggregate' and b.loss.loss_params is None:
            break
        cur, ctab = b, ntab
        ctx.observe(hop, cont, bool(opts), m.n, proc is not None, 'loss' in src)


def parts(a):
    return [('demand', a.demand), ('asset', a.asset), ('damage', a.damage.ds_model), ('loss', a.loss.ds_model), ('functions', a.loss.lf_model)]


def models(ctx):
    """Demand models: calibrated or loaded, saved and loaded; the same samples follow."""
    rng = ctx.rng
    n = int(rng.choice([40, 80]))
    E = [(str(t), lo, d) for t in rng.permutation(['PFA', 'PFV', 'PID', 'SA_0.5'])[:int(rng.integers(1, 4))]
         for lo in range(1, int(rng.integers(2, 4))) for d in range(1, int(rng.integers(2, 4)))]
    units = {e: pbe.pick(rng, pbe.EDP_UNITS[dmg.BASE(e[0])]) for e in E}
    z0 = rng.normal(size=n)
    cols = ['-'.join(map(str, e)) for e in E]
    df = pd.DataFrame({c: pbe.SCALE[dmg.BASE(e[0])] * np.exp(.2 * z0 + .2 * rng.normal(size=n)) / pbe.U[units[e]] for c, e in zip(cols, E)}).astype(object)
    df = pd.concat([pd.DataFrame([[units[e] for e in E]], columns=cols, index=['Units']), df])
    opts, tab = ({}, pbe.U) if rng.random() < .5 else (lambda f: ({'UnitsFile': f[0]}, f[1]))(unitlib.base_units(ctx))
    seed = int(rng.integers(1e6))
    a = pbe.assessment(opts, None, seed)
    emp = False
    if rng.random() < .7:
        a.demand.load_sample(df)
        cfg = {'ALL': {'DistributionFamily': pbe.pick(rng, ['lognormal', 'normal_std', 'normal_cov', 'empirical'])}}
        t = dmg.BASE(E[0][0])
        if rng.random() < .6:
            cfg[t] = {'DistributionFamily': pbe.pick(rng, ['lognormal', 'lognormal', 'empirical'])}
            if cfg[t]['DistributionFamily'] == 'lognormal' and rng.random() < .6:
                cfg[t] |= {'TruncateUpper': 20 * pbe.SCALE[t] / pbe.U[units[E[0]]], 'Unit': units[E[0]]}
                if rng.random() < .5:
                    cfg[t]['TruncateLower'] = .02 * pbe.SCALE[t] / pbe.U[units[E[0]]]
            if rng.random() < .3:
                cfg[t]['AddUncertainty'] = .1
                if cfg[t]['DistributionFamily'] == 'empirical':
                    del cfg[t]['AddUncertainty']
        with contextlib.redirect_stdout(io.StringIO()):
            a.demand.calibrate_model(cfg)
        src = 'calibrated'
        emp = bool((a.demand.marginal_params['Family'] == 'empirical').any())
        ctx.count('empirical', emp)
    else:
        rows = {}
        for c, e in zip(cols, E):
            fam = pbe.pick(rng, ['lognormal', 'normal', 'normal_std', 'uniform', 'deterministic', None])
            s = pbe.sig(pbe.SCALE[dmg.BASE(e[0])] / pbe.U[units[e]])
            rows[c] = {'Units': units[e], 'Family': fam, 'Theta_0': s, 'Theta_1': {'lognormal': .3, 'normal': .2, 'normal_std': .2 * s, 'uniform': 1.7 * s}.get(fam, np.nan),
                       'TruncateLower': .8 * s if fam in ('lognormal', 'normal') and rng.random() < .5 else np.nan,
                       'TruncateUpper': 2 * s if fam in ('lognormal', 'normal_std') and rng.random() < .5 else np.nan}
        mg = pd.DataFrame.from_dict(rows, orient='index')
        if rng.random() < .4:
            mg = mg.drop(columns=['TruncateLower', 'TruncateUpper'])
        d = {'marginals': mg}
        if rng.random() < .5 and len(E) > 1 and not mg['Family'].isin(['deterministic', None]).any():
            r = np.full((len(E), len(E)), .4) + .6 * np.eye(len(E))
            d['correlation'] = pd.DataFrame(r, index=cols, columns=cols)
        a.demand.load_model(d)
        src = 'loaded'
    ctx.describe(demands=df, units=repr(units), source=src, marginals=a.demand.marginal_params)
    ctx.count('models')
    before = state(a.demand)
    pre = str(ctx.tmp() / 'model')
    if rng.random() < .3:
        # another model was saved here before
        ctx.count('overwritten')
        o = pbe.assessment({}, None, 1)
        o.demand.load_sample(df)
        with contextlib.redirect_stdout(io.StringIO()):
            o.demand.calibrate_model({'ALL': {'DistributionFamily': pbe.pick(rng, ['lognormal', 'empirical'])}})
        o.demand.save_model(pre)
    a.demand.save_model(pre)
    ctx.check(before == state(a.demand), 'save-changes-state', lambda: f'saving the demand model changed {[k for k, v in state(a.demand).items() if before[k] != v]}')
    o2, tab2 = ({}, pbe.U) if rng.random() < .5 else (lambda f: ({'UnitsFile': f[0]}, f[1]))(unitlib.base_units(ctx))
    s2 = int(rng.integers(1e6))
    b = pbe.assessment(o2, None, s2)
    b.demand.load_model(pre)
    # parameters
    ma, mb = a.demand.marginal_params, b.demand.marginal_params
    ka, kb = dict(zip(strs(ma.index), ma.index)), dict(zip(strs(mb.index), mb.index))
    U = {tuple(map(str, e)): u for e, u in units.items()}
    if not ctx.check(set(ka) == set(kb), 'marginals-index', lambda: f'{set(ka) ^ set(kb)}'):
        return
    for k in ka:
        ra, rb = ma.loc[ka[k]], mb.loc[kb[k]]
        fam = ra.get('Family')
        ctx.check(rb.get('Family') == fam or pd.isna(fam) and pd.isna(rb.get('Family')), 'family', lambda: f'{k}: {rb.get("Family")} was {fam}')
        fa, fb = pbe.U[U[k]] / tab[U[k]], pbe.U[U[k]] / tab2[U[k]]
        ctx.check(str(b.demand.user_units[kb[k]]) == U[k], 'unit', lambda: f'{k}: {b.demand.user_units[kb[k]]} was {U[k]}')
        if fam == 'empirical':
            continue
        for c in ('Theta_0', 'Theta_1', 'TruncateLower', 'TruncateUpper'):
            x, y = ra.get(c, np.nan), rb.get(c, np.nan)
            free = c == 'Theta_1' and fam not in ('normal_std', 'uniform')
            ctx.close(float(y) * (1 if free else fb), float(x) * (1 if free else fa), 'marginals', f'{k} {c}', rtol=2e-6)
    ca, cb = (None if c is None or not c.size else c for c in (a.demand.correlation, b.demand.correlation))
    # uncorrelated demands may be stored without a matrix
    if ctx.check((ca is None) == (cb is None), 'correlation', lambda: f'{ca} became {cb}') and ca is not None:
        cb2 = cb.copy()
        cb2.index = cb2.columns = strs(cb.index)
        ca2 = ca.copy()
        ca2.index = ca2.columns = strs(ca.index)
        ctx.check(strs(cb.index) == strs(cb.columns), 'correlation-labels', 'rows and columns differ')
        both = list(ca2.index)
        if ctx.check(set(both) == set(cb2.index), 'correlation-labels', lambda: f'{list(cb2.index)} was {both}'):
            ctx.close(cb2.loc[both, both].to_numpy(float), ca2.to_numpy(float), 'correlation', 'matrix', rtol=1e-10)
    if emp:
        ea, eb = a.demand.empirical_data, b.demand.empirical_data
        x = {k: ea[c].to_numpy(float) * pbe.U[U[k]] / tab[U[k]] for k, c in zip(strs(ea.columns), ea.columns)}
        y = {k: eb[c].to_numpy(float) * pbe.U[U[k]] / tab2[U[k]] for k, c in zip(strs(eb.columns), eb.columns)}
        same(ctx, y, x, 'empirical')
    # the models generate the same demands
    cfg = {'SampleSize': int(rng.choice([1, 5, 30])), 'PreserveRawOrder': False}
    if emp and rng.random() < .5:
        cfg = {'SampleSize': int(rng.integers(1, n + 1)), 'PreserveRawOrder': True}
    a.options.seed = s2
    a.demand.generate_sample(dict(cfg))
    b.demand.generate_sample(dict(cfg))
    x = physical(a.demand.sample, lambda k: U[k], tab)
    y = physical(b.demand.sample, lambda k: U[k], tab2)
    ctx.count('model_samples', len(x))
    # order of the demands decides which random numbers they get
    if strs(ma.index) == strs(mb.index):
        well = ca is None or np.linalg.cond(ca.to_numpy(float)) < 1e6
        if well:
            if ctx.check(set(x) == set(y), 'model-sample-columns', lambda: f'{set(x) ^ set(y)}'):
                for k in x:
                    ctx.close(y[k], x[k], 'model-sample', f'{k}', rtol=5e-6, atol=0)
    else:
        ctx.violate('order', f'demands were reordered: {strs(ma.index)} became {strs(mb.index)}')
    ctx.observe('model', src, emp, cfg['PreserveRawOrder'], ca is None, bool(opts), bool(o2))
