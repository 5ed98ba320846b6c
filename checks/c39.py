"""C39: invalid requests are rejected and leave the assessment as it was."""
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import c27  # noqa: E402
import dmg  # noqa: E402
import loss  # noqa: E402
import pbe  # noqa: E402

ID = 'C39'
RULE = ('seeded assessments without randomness, carried through all stages with invalid requests of a catalogue (steps out of order, malformed '
        'tables, unknown units, types, families, locations, expressions, targets, keys, files, wrong lengths) in between; each has to raise, '
        'samples, parameters and options are fingerprinted before and after, and the final results compared with those of an assessment '
        'that never saw an invalid request')
QUICK, THOROUGH = 64, 2000
MIN_OBS = {'rejected': 900, 'kinds': 60, 'finals': 40}
ASSUMPTIONS = ['how an invalid request is reported (type and text of the error) is not part of the property']


def state(a):
    """Everything results are made from, as fingerprints."""
    d, s, l = a.demand, a.damage.ds_model, a.loss
    out = {'demand': d.sample, 'demand parameters': d.marginal_params, 'demand correlation': d.correlation, 'demand units': d.user_units,
           'components': a.asset.cmp_sample, 'component parameters': a.asset.cmp_marginal_params, 'component units': a.asset.cmp_units,
           'ds': s.ds_sample, 'damage': s.sample, 'damage parameters': s.damage_params,
           'ds losses': l.ds_model.sample, 'lf losses': l.lf_model.sample, 'ds loss parameters': l.ds_model.loss_params,
           'lf loss parameters': l.lf_model.loss_params, 'loss map': l.ds_model.loss_map, 'empirical': d.empirical_data}
    r = {}
    for k, v in out.items():
        if isinstance(v, pd.Series):
            v = v.to_frame()
        r[k] = None if v is None else c27.digest(v)
    r['decision variables'] = str(l.decision_variables)
    o = a.options
    r['options'] = repr((o.sampling_method, o.list_all_ds, o.units_file, o.eco_scale, o.nondir_multi_dict, o.demand_offset, o.rho_cost_time, o.seed))
    return r


def without(df, row):
    return df.drop(index=row)


def demand_requests(rng, a, m):
    """Invalid requests once a demand sample is loaded."""
    raw = m.demands
    col = pbe.pick(rng, list(raw.columns))
    t = col.split('-')[0]
    n = len(raw) - 1

    def unit(u):
        x = raw.copy()
        x.loc['Units', col] = u
        return x

    D = a.demand
    yield 'demand-unknown-unit', lambda: D.load_sample(unit('furlongs'))
    yield 'demand-file-missing', lambda: D.load_sample('no/such/file.csv')
    yield 'demand-type', lambda: D.load_sample(3)
    yield 'demand-suffix', lambda: D.load_sample('sample.txt')
    yield 'clone-duplicate', lambda: D.clone_demands({col: [f'{t}-77-1', f'{t}-77-1']})
    yield 'clone-duplicate-2', lambda: D.clone_demands({c: [f'{t}-77-1'] for c in raw.columns[:2]} if raw.shape[1] > 1 else {col: [col, col]})
    yield 'expand-length', lambda: D.expand_sample('NEW', [1.] * (n + 1), 'unitless')
    yield 'expand-unit', lambda: D.expand_sample('NEW', 1., 'parsec')
    yield 'rid-method', lambda: D.estimate_RID(D.sample['PID'] if 'PID' in D.sample else D.sample, {'yield_drift': .01}, method='FEMA P-59')
    yield 'rid-method-2', lambda: D.estimate_RID_and_adjust_sample({'yield_drift': .01}, method='none')
    yield 'generate-too-early', lambda: D.generate_sample({'SampleSize': 5})
    yield 'calibrate-family', lambda: D.calibrate_model({'ALL': {'DistributionFamily': 'cauchy'}})
    yield 'calibrate-unit', lambda: D.calibrate_model({t: {'DistributionFamily': 'lognormal', 'TruncateUpper': 1e9, 'Unit': 'parsec'},
                                                       'ALL': {'DistributionFamily': 'empirical'}})
    yield 'calibrate-none', lambda: D.calibrate_model({})
    yield 'demand-model-missing', lambda: D.load_model('no/such/prefix')
    yield 'demand-model-type', lambda: D.load_model(17)


def demand_model_requests(rng, a, m):
    """... once it is calibrated."""
    D = a.demand
    yield 'generate-size', lambda: D.generate_sample({})
    yield 'generate-negative', lambda: D.generate_sample({'SampleSize': -3})
    yield 'generate-text', lambda: D.generate_sample({'SampleSize': 'many'})


def asset_requests(rng, a, m):
    """... before and after components are loaded."""
    marg = m.marginals
    i = int(rng.integers(len(marg)))

    def put(**kw):
        x = marg.copy().astype(object)
        for k, v in kw.items():
            if k not in x:
                x[k] = np.nan
            x.iloc[i, x.columns.get_loc(k)] = v
        return {'marginals': x}

    A = a.asset
    yield 'cmp-location', lambda: A.load_cmp_model(put(Location='penthouse'))
    yield 'cmp-direction', lambda: A.load_cmp_model(put(Direction='north'))
    yield 'cmp-unit', lambda: A.load_cmp_model(put(Units='parsec'))
    yield 'cmp-file', lambda: A.load_cmp_model({'marginals': 'no/such.csv'})
    yield 'cmp-no-marginals', lambda: A.load_cmp_model({})
    yield 'cmp-prefix', lambda: A.load_cmp_model('no/such/prefix')
    yield 'cmp-sample-file', lambda: A.load_cmp_sample('no/such.csv')
    yield 'cmp-sample-columns', lambda: A.load_cmp_sample(pd.DataFrame({'A-1': ['ea', '1', '2']}, index=['Units', '0', '1']))
    yield 'cmp-sample-unit', lambda: A.load_cmp_sample(pd.DataFrame({'A-1-1-0': ['parsec', '1', '2']}, index=['Units', '0', '1']))
    if A.cmp_marginal_params is None:
        yield 'cmp-too-early', lambda: A.generate_cmp_sample()


def damage_parameter_requests(rng, a, m):
    frag = m.frag
    on = [i for i in frag.index if i in set(m.marginals.index)]
    i = pbe.pick(rng, on or list(frag.index))

    def put(**kw):
        x = frag.copy().astype(object)
        for k, v in kw.items():
            x.loc[i, k.replace('_', '-', 1)] = v
        return [x]
    S = set(a.asset.list_unique_component_ids())
    M = a.damage
    yield 'frag-file', lambda: M.load_model_parameters(['no/such.csv'], S)
    if on and M.ds_model.damage_params is None:
        yield 'frag-unit', lambda: M.load_model_parameters(put(Demand_Unit='parsec'), S)
        yield 'frag-unit-2', lambda: M.load_model_parameters([frag.drop(index=i), *put(Demand_Unit='parsec')], S)
    yield 'frag-default', lambda: M.load_model_parameters(['PelicunDefault/No such method'], S)
    yield 'frag-columns', lambda: M.load_model_parameters([pd.DataFrame({'A': [1.], 'B': [2.]}, index=[i])], S)


def damage_requests(rng, a, m):
    M = a.damage
    c = pbe.pick(rng, list(m.cmps))
    yield 'process-source', lambda: M.calculate(dmg_process={f'1_{c}': {'LS1': f'{c}_DS1'}})
    yield 'process-target', lambda: M.calculate(dmg_process={f'1_{c}': {'DS1': f'{c}_XX1'}})
    yield 'scale-op', lambda: M.calculate(scaling_specification={c: {'LS1': '%3'}})
    yield 'scale-number', lambda: M.calculate(scaling_specification={c: {'LS1': '*a lot'}})
    yield 'scale-type', lambda: M.calculate(scaling_specification={c: {'LS1': 3.}})
    yield 'scale-ls', lambda: M.calculate(scaling_specification={c: {'DS1': '*1.2'}})
    yield 'scale-entry', lambda: M.calculate(scaling_specification={c: '*1.2'})
    yield 'damage-sample-file', lambda: M.ds_model.load_sample('no/such.csv')


def loss_map_requests(rng, a, m, L):
    Q = a.loss
    yield 'map-nothing', lambda: Q.add_loss_map(None, None)
    yield 'map-policy', lambda: Q.add_loss_map(L.map, 'overflow')
    yield 'map-file', lambda: Q.add_loss_map('no/such.csv')


def loss_parameter_requests(rng, a, m, L):
    Q = a.loss
    for name, x in (('cons', L.table), ('lf', L.functions)):
        if x is None:
            continue
        i = pbe.pick(rng, list(x.index))

        def put(x=x, i=i, **kw):
            y = x.copy().astype(object)
            for k, v in kw.items():
                y.loc[i, k.replace('_', '-', 1)] = v
            return [y]
        used = Q.ds_model.loss_params is None and Q.lf_model.loss_params is None and i.rsplit('-', 1)[0] in set(Q.ds_model.loss_map['Repair']) and i.rsplit('-', 1)[1] in Q.decision_variables
        if used:
            yield f'{name}-dv-unit', lambda put=put: Q.load_model_parameters(put(DV_Unit='parsec'))
            if name == 'cons':
                yield 'cons-quantity-unit', lambda put=put: Q.load_model_parameters(put(Quantity_Unit='1 parsec'))
            else:
                yield 'lf-demand-unit', lambda put=put: Q.load_model_parameters(put(Demand_Unit='parsec'))
        yield f'{name}-columns', lambda i=i: Q.load_model_parameters([pd.DataFrame({'A': [1.], 'B': [2.]}, index=[i])])
    yield 'loss-file', lambda: Q.load_model_parameters(['no/such.csv'])
    yield 'loss-default', lambda: Q.load_model_parameters(['PelicunDefault/No such method'])


def sizes(rng, a):
    """Demand and damage samples of different lengths."""
    def f():
        old = a.demand.sample
        try:
            a.demand.sample = pd.concat([old, old.iloc[:1]])
            a.loss.calculate()
        finally:
            a.demand.sample = old
    return f


def loss_requests(rng, a, m, L):
    Q = a.loss
    if a.damage.ds_model.sample is not None:
        yield 'sizes', sizes(rng, a)
    yield 'loss-sample-file', lambda: Q.ds_model.load_sample('no/such.csv')


def aggregate_requests(rng, a, m, L):
    from pelicun import uq
    Q = a.loss
    dvs = list(L.dvs)
    x = np.array([[0., 1., 2.], [1., 1., 2.], [2., 2., 3.]])

    def rv(names):
        r = uq.RandomVariableRegistry(np.random.default_rng(1))
        for k in names:
            r.add_RV(uq.DeterministicRandomVariable(name=k, theta=np.array([1e6])))
        return r
    agg = lambda **kw: Q.aggregate_losses(future=True, **kw)  # noqa: E731
    yield 'replacement-type', lambda: agg(replacement_configuration=({d: 1. for d in dvs}, {d: 1. for d in dvs}))
    yield 'replacement-missing', lambda: agg(replacement_configuration=(rv(dvs[1:]), {}))
    yield 'replacement-unknown', lambda: agg(replacement_configuration=(rv([*dvs, 'Happiness']), {}))
    yield 'ratio-unknown', lambda: agg(replacement_configuration=(rv(dvs), {'Happiness': 1.}))
    yield 'combination-dv', lambda: agg(loss_combination={'Happiness': {('a', 'b'): x}})
    yield 'combination-components', lambda: agg(loss_combination={dvs[0]: {'ab': x}})
    yield 'combination-names', lambda: agg(loss_combination={dvs[0]: {('a', 1): x}})
    yield 'combination-array', lambda: agg(loss_combination={dvs[0]: {('a', 'b'): x.tolist()}})
    yield 'scale-no-dv', lambda: Q.apply_consequence_scaling({'cmp': 'a'}, 2.)
    yield 'scale-level', lambda: Q.apply_consequence_scaling({'dv': dvs[0], 'storey': '1'}, 2.)


# a calculation that fails may have replaced some of its own results
OWN = {'process-source': {'ds', 'damage'}, 'process-target': {'ds', 'damage'}}


def invalid(ctx, a, requests):
    """Try a few, look at the state around each."""
    rng = ctx.rng
    todo = list(requests)
    todo = [todo[i] for i in rng.permutation(len(todo))][:int(rng.integers(3, 9))]
    before = state(a)
    for name, f in todo:
        ctx.count('rejected')
        ctx.observe(name)
        ctx.kinds.add(name)
        try:
            f()
        except Exception as e:  # noqa: BLE001
            ctx.log.append(f'{name}: {type(e).__name__}')
        else:
            ctx.violate('accepted', name)
            return False
        after = state(a)
        bad = [k for k in after if after[k] != before[k] and k not in OWN.get(name, ())]
        if bad:
            ctx.violate('state-changed', f'rejected request `{name}` changed: {bad}')
            return False
        before = after
    return True


def unusable(ctx, m, L):
    """Inputs that can only be found wrong when results are calculated."""
    rng = ctx.rng
    c = pbe.pick(rng, list(m.cmps))
    at = [p for p in m.pgs if p['cmp'] == c]
    e = m.cmps[c]
    opts, frag, dem, marg = dict(m.opts), m.frag.copy().astype(object), m.demands, m.marginals
    kinds = ['demand-gone', 'demand-gone', 'location', 'family', 'theta', 'direction']
    if e['expr'] is not None:
        kinds += ['expression', 'terms'] * 2
    kind = pbe.pick(rng, kinds)
    need = {f'{dmg.TYPES[t]}-{int(p["loc"]) + o + m.offs.get(dmg.BASE(dmg.TYPES[t]), 0)}' for p in at for t, o, _ in e['dem']}
    if kind == 'demand-gone':
        k = pbe.pick(rng, sorted(need))
        dem = dem.drop(columns=[x for x in dem if x.rsplit('-', 1)[0] == k])
        if dem.shape[1] == 0:
            return
    elif kind == 'direction':
        if not any(d for _, _, d in e['dem']) or (marg.index == c).sum() != 1:
            return
        marg = marg.copy().astype(object)
        marg.loc[c, 'Direction'] = '9'
    elif kind == 'location':
        row = [i for i, x in enumerate(marg.index) if x == c][0]
        marg = marg.copy().astype(object)
        frag.loc[c, 'Demand-Offset'] = -40
        if 'Demand2-Offset' in frag:
            return
        del row
    elif kind == 'family':
        frag.loc[c, 'LS1-Family'] = 'cauchy'
        frag.loc[c, 'LS1-Theta_1'] = .3
    elif kind == 'theta':
        ls = [x for x in frag if x.startswith('LS') and x.endswith('-Theta_0') and pd.notna(frag.loc[c, x])]
        frag.loc[c, ls[0]] = 'stiff'
    else:
        bad = {'expression': ['X1 + __import__("os").getpid()', '[X1, X1]', 'X1 > X1', 'X1; X1', 'X1 +', 'X1,X1', 'X1=X1', 'X1%X1'], 'terms': ['X1 + X9', 'Y1 + X1']}
        frag.loc[c, 'Demand-Expression'] = pbe.pick(rng, bad[kind])
    a = pbe.assessment(opts, m.stories, 1)
    before = None
    try:
        a.demand.load_sample(dem)
        a.asset.load_cmp_model({'marginals': marg})
        a.asset.generate_cmp_sample()
        before = state(a)
        a.damage.load_model_parameters([frag], set(a.asset.list_unique_component_ids()))
        a.damage.calculate()
    except Exception as x:  # noqa: BLE001
        ctx.count('unusable')
        ctx.observe(f'unusable-{kind}', type(x).__name__)
        after = state(a)
        bad = [k for k in after if before is not None and after[k] != before[k] and k not in ('damage parameters', 'ds', 'damage')]
        ctx.check(not bad, 'state-changed', lambda: f'{kind}: {bad}')
        ctx.check(a.damage.ds_model.sample is None, 'results-in-spite', lambda: f'{kind}: a damage sample was left')
    else:
        ctx.violate('accepted', f'{kind} of {c}')


def unusable_losses(ctx, m, L):
    """... and the same for losses."""
    rng = ctx.rng
    a = pbe.assessment(m.opts, m.stories, 1)
    a.demand.load_sample(m.demands)
    a.asset.load_cmp_model({'marginals': m.marginals})
    a.asset.generate_cmp_sample()
    a.damage.load_model_parameters([m.frag], set(a.asset.list_unique_component_ids()))
    a.damage.calculate()
    a.loss.decision_variables = L.dvs
    a.loss.add_loss_map(L.map)
    T, F = L.table, L.functions
    kinds = []
    cons = set(L.map['Repair'])
    if T is not None:
        # damage states that occur
        seen = {}
        for c, _, _, _, d in a.damage.ds_model.sample.columns[(a.damage.ds_model.sample > 0).any()]:
            if d != '0':
                seen.setdefault(L.map.loc[c, 'Repair'], set()).add(d)
        hit = [(i, d) for i in T.index for d in seen.get(i.rsplit('-', 1)[0], ()) if i.rsplit('-', 1)[1] in L.dvs
               and f'DS{d}-Theta_0' in T and pd.notna(T.loc[i, f'DS{d}-Theta_0'])]
        kinds += ['family', 'theta', 'mixed-units'] if hit else []
    if F is not None:
        use = [i for i in F.index if i.rsplit('-', 1)[0] in cons and i.rsplit('-', 1)[1] in L.dvs]
        kinds += ['domain', 'function', 'lf-demand', 'mixed-units-lf'] if use else []
    if not kinds:
        return
    kind = pbe.pick(rng, kinds)
    if kind in ('family', 'theta', 'mixed-units'):
        T = T.copy().astype(object)
        i, d = hit[int(rng.integers(len(hit)))]
        if kind == 'family':
            T.loc[i, f'DS{d}-Family'], T.loc[i, f'DS{d}-Theta_1'] = 'cauchy', .3
        elif kind == 'theta':
            T.loc[i, f'DS{d}-Theta_0'] = 'expensive'
        else:
            dv = i.rsplit('-', 1)[1]
            if sum(x.rsplit('-', 1)[1] == dv for x in T.index) < 2:
                return
            T.loc[i, 'DV-Unit'] = 'week'
    else:
        F = F.copy().astype(object)
        i = pbe.pick(rng, use)
        y, x = F.loc[i, 'LossFunction-Theta_0'].split('|')
        if kind == 'domain':
            F.loc[i, 'LossFunction-Theta_0'] = '1,2|1e12,2e12'
        elif kind == 'function':
            F.loc[i, 'LossFunction-Theta_0'] = pbe.pick(rng, [f'{y},7|{x}', f'{y}|{x},7', f'{y}|{x}x', f'{y};{x}'])
        elif kind == 'lf-demand':
            F.loc[i, 'Demand-Offset'] = 60
        else:
            dv = i.rsplit('-', 1)[1]
            if sum(z.rsplit('-', 1)[1] == dv for z in F.index) < 2:
                return
            F.loc[i, 'DV-Unit'] = 'week'
    before = state(a)
    try:
        a.loss.load_model_parameters([x for x in (T, F) if x is not None])
        a.loss.calculate()
    except Exception as x:  # noqa: BLE001
        ctx.count('unusable_losses')
        ctx.observe(f'unusable-{kind}', type(x).__name__)
        after = state(a)
        bad = [k for k in after if after[k] != before[k] and 'loss' not in k]
        ctx.check(not bad, 'state-changed', lambda: f'{kind}: {bad}')
    else:
        ctx.violate('accepted', f'{kind} of {i}')


def case(ctx):
    rng = ctx.rng
    m = dmg.Model(rng, n=int(rng.choice([1, 3, 8])), exprs=bool(rng.random() < .3), weights=False, max_rows=2, maxblocks=3, ncmp=int(rng.integers(2, 5)))
    L = loss.Losses(rng, m, lf=.35, p_family=0., missing=bool(rng.random() < .3))
    P = {'functions': L.functions, 'cal': True}
    c27.widen(P)
    ctx.kinds, ctx.log = set(), []

    def run(a, bad):
        out = {}
        ok = lambda *g: True  # noqa: E731
        if bad:
            ok = lambda *g: all(invalid(ctx, a, x) for x in g)  # noqa: E731
        D, A, M, Q = a.demand, a.asset, a.damage, a.loss
        a.stories = m.stories
        D.load_sample(m.demands)
        if not ok(demand_requests(rng, a, m)):
            return None
        D.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
        if not ok(demand_model_requests(rng, a, m)):
            return None
        D.generate_sample({'SampleSize': m.n, 'PreserveRawOrder': True})
        if not ok(asset_requests(rng, a, m)):
            return None
        A.load_cmp_model({'marginals': m.marginals})
        A.generate_cmp_sample()
        if not ok(asset_requests(rng, a, m), damage_parameter_requests(rng, a, m)):
            return None
        M.load_model_parameters([m.frag], set(A.list_unique_component_ids()))
        if not ok(damage_parameter_requests(rng, a, m), damage_requests(rng, a, m)):
            return None
        M.calculate()
        if not ok(loss_map_requests(rng, a, m, L)):
            return None
        Q.decision_variables = L.dvs
        Q.add_loss_map(L.map)
        if not ok(loss_map_requests(rng, a, m, L), loss_parameter_requests(rng, a, m, L)):
            return None
        Q.load_model_parameters([x for x in (L.table, L.functions) if x is not None])
        if not ok(loss_parameter_requests(rng, a, m, L), loss_requests(rng, a, m, L)):
            return None
        Q.calculate()
        if not ok(loss_requests(rng, a, m, L), damage_requests(rng, a, m), asset_requests(rng, a, m), demand_model_requests(rng, a, m)):
            return None
        if Q.ds_model.sample is None and Q.lf_model.sample is None:
            return None
        if not ok(aggregate_requests(rng, a, m, L)):
            return None
        out.update(demand=D.sample, components=A.cmp_sample, ds=M.ds_model.ds_sample, damage=M.ds_model.sample, ds_loss=Q.ds_model.sample,
                   lf_loss=Q.lf_model.sample)
        out['aggregate'], out['exceedance'] = Q.aggregate_losses(future=True)
        return out

    unusable(ctx, m, L)
    unusable_losses(ctx, m, L)
    got = run(pbe.assessment(m.opts, m.stories, 1), bad=True)
    ctx.count('kinds', len(ctx.kinds))
    if got is None:
        return
    want = run(pbe.assessment(m.opts, m.stories, 1), bad=False)
    ctx.count('finals')
    for k, v in want.items():
        same = (v is None) == (got[k] is None) and (v is None or c27.digest(v) == c27.digest(got[k]))
        if not ctx.check(same, 'results-changed', lambda: f'{k} after {ctx.log}'):
            return
