"""C36: the one-call methods of an assessment equal the documented sequence of steps."""
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import c27  # noqa: E402
import pbe  # noqa: E402
from runner import Skip  # noqa: E402

ID = 'C36'
RULE = ('seeded whole assessments (demand models given as tables or as files, sampled or kept in raw order, cloned, with residual drifts '
        'and an extra demand column for collapse at default and given locations, damage processes, batches, scaled capacities, loss maps '
        'with fill policies, subsets of decision variables, replacement and thresholds; some after an earlier assessment of other quantities with the same objects) run once through calculate_damage, calculate_loss '
        'and aggregate_loss and once through the individual steps; every sample compared bit by bit')
QUICK, THOROUGH = 100, 3000
MIN_OBS = {'damage': 80, 'loss': 70, 'aggregate': 70, 'rid': 5, 'collapse': 25, 'collapse_default': 5, 'collapse_place': 5, 'prefix': 20,
           'process': 4, 'scaled': 10, 'fill': 10, 'subset': 10, 'replacement': 10, 'method_default': 1, 'combination': 5, 'repeated': 15, 'repeated_loss': 8}
ASSUMPTIONS = ['the individual steps are decided by the other checks; here only their combination is']


def optional(rng, P, tmp):
    """Arguments of the three calls."""
    m, L = P['m'], P['L']
    from pelicun.assessment import Assessment
    a = Assessment({**P['opts'], 'Seed': 7})
    a.demand.load_sample(P['demands'])
    try:
        a.demand.calibrate_model(P['cal'])
    except ValueError as e:
        # censored fits of several normal demands can fail, see C05
        if 'standard normal space' in str(e):
            raise Skip from e
        raise
    pre = str(Path(tmp) / 'EDP')
    a.demand.save_model(pre)
    src = pre
    if rng.random() < .6:
        src = {}
        for k in ('marginals', 'empirical', 'correlation'):
            f = Path(f'{pre}_{k}.csv')
            if f.exists():
                src[k] = pd.read_csv(f, index_col=0)
    marg = P['marginals'].copy()
    allf = ','.join(map(str, range(1, m.stories + 1)))
    marg['Location'] = ['all' if x == allf and rng.random() < .7 else 'roof' if x == str(m.stories + 1) else x for x in marg['Location']]
    if rng.random() < .5:
        comp = {'marginals': marg}
    else:
        comp = str(Path(tmp) / 'CMP')
        marg.to_csv(comp + '_marginals.csv')
    gen = dict(P['gen'])
    cols = list(m.demands.columns)
    if rng.random() < .25:
        gen['DemandCloning'] = {c: [c, f'{c[:-1]}{5 + i}'] if rng.random() < .5 else [c] for i, c in enumerate(cols) if rng.random() < .7}
    A = {'num_stories': m.stories, 'demand_config': gen, 'demand_data_source': src, 'cmp_data_source': comp,
         'damage_data_paths': [P['frag']] if rng.random() < .6 else [P['frag'].iloc[:1], P['frag']], **P['dmg']}
    if P['rid']:
        A['residual_drift_configuration'] = {'parameters': P['rid'], **({'method': 'FEMA P58'} if rng.random() < .6 else {})}
    if rng.random() < .6:
        c = {'label': pbe.pick(rng, ['SA_1.13', 'SA_0.2', 'XX']), 'value': float(rng.uniform(.1, 2)), 'unit': pbe.pick(rng, ['g', 'mps2', 'unitless'])}
        if rng.random() < .4:
            c['location'] = str(rng.integers(0, 4))
        if rng.random() < .4:
            c['direction'] = str(rng.integers(0, 4))
        if not any(x.startswith(c['label']) for x in m.demands.columns):
            A['collapse_fragility_configuration'] = c
    dvs = tuple(L.dvs)
    if rng.random() < .35 and len(dvs) > 1:
        dvs = tuple(sorted(map(str, rng.choice(dvs, int(rng.integers(1, len(dvs))), replace=False))))
    pol, mp = None, P['map']
    if mp is None or rng.random() < .4:
        pol = pbe.pick(rng, ['fill', 'fill_all'])
    B = {'decision_variables': dvs, 'loss_model_data_paths': [x for x in (P['table'], P['functions']) if x is not None], 'loss_map_path': mp}
    if pol:
        B['loss_map_policy'] = pol
    return A, B


def earlier(rng, A, B):
    """Arguments for a call that precedes the one of interest."""
    src = A['cmp_data_source']
    marg = pd.read_csv(src + '_marginals.csv', index_col=0) if isinstance(src, str) else src['marginals'].copy()
    marg['Theta_0'] = marg['Theta_0'] * float(pbe.pick(rng, [2, 3, .5]))
    keep = ('num_stories', 'demand_config', 'demand_data_source', 'damage_data_paths', 'block_batch_size', *(k for k in A if rng.random() < .5))
    return {**{k: v for k, v in A.items() if k in keep}, 'cmp_data_source': {'marginals': marg}}, dict(B)


def by_steps(a, A, B):
    out = {}
    a.demand.load_model(A['demand_data_source'])
    a.demand.generate_sample(A['demand_config'])
    r = A.get('residual_drift_configuration')
    if r:
        a.demand.estimate_RID_and_adjust_sample(r['parameters'], r.get('method', 'FEMA P58'))
    c = A.get('collapse_fragility_configuration')
    if c:
        a.demand.expand_sample(c['label'], c['value'], c['unit'], c.get('location', '0'), c.get('direction', '1'))
    a.stories = A['num_stories']
    a.asset.load_cmp_model(A['cmp_data_source'])
    a.asset.generate_cmp_sample()
    a.damage.load_model_parameters(A['damage_data_paths'], set(a.asset.list_unique_component_ids()))
    a.damage.calculate(A.get('dmg_process'), block_batch_size=A.get('block_batch_size', 1000),
                       scaling_specification=A.get('scaling_specification'))
    out['damage'] = state(a)
    yield out
    a.loss.decision_variables = B['decision_variables']
    a.loss.add_loss_map(B['loss_map_path'], B.get('loss_map_policy'))
    a.loss.load_model_parameters(B['loss_model_data_paths'])
    a.loss.calculate()
    yield {'loss': losses(a)}


def state(a):
    return {'demand': a.demand.sample, 'units': a.demand.user_units.to_frame(), 'components': a.asset.cmp_sample, 'cmp_units': a.asset.cmp_units.to_frame(),
            'damage': a.damage.ds_model.sample, 'ds': a.damage.ds_model.ds_sample, 'stories': pd.DataFrame({'n': [a.stories]})}


def losses(a):
    return {k: v for k, v in {'ds_loss': a.loss.ds_model.sample, 'lf_loss': a.loss.lf_model.sample}.items() if v is not None}


def compare(ctx, got, want, key):
    ctx.check(list(got) == list(want), key, lambda: f'{list(got)} vs {list(want)}')
    for k in want:
        if k in got:
            ctx.count('frames')
            if not ctx.check(c27.digest(got[k]) == c27.digest(want[k]), key, lambda: f'{k}: {c27.what(got[k], want[k])}'):
                return


def shrink(df):
    """Consequences small enough for combination tables."""
    df = df.copy()
    for c in df.columns:
        if c.endswith('Theta_0'):
            df[c] = [x if isinstance(x, float) and np.isnan(x) else
                     '|'.join([','.join(repr(float(y) * 1e-12) for y in str(x).split('|')[0].split(',')), *str(x).split('|')[1:]])
                     if isinstance(x, str) else x * 1e-12 for x in df[c]]
        elif c.startswith('DS') and c.endswith('Theta_1'):
            fam = c.replace('Theta_1', 'Family')
            if (df[fam] == 'normal_std').any():
                df[c] *= 1e-12
    return df


def outcome(fn, *args):
    try:
        return fn(*args), None
    except (ValueError, KeyError, AssertionError) as e:
        return None, type(e).__name__ + f': {e}'


def registry(a, P, dvs):
    from pelicun import uq
    reg = uq.RandomVariableRegistry(a.options.rng)
    for dv in dvs:
        reg.add_RV(uq.rv_class_map('lognormal')(name=dv, theta=np.array([P['replacement'][dv], .4])))
    return reg, {dv: P['replacement'][dv] for dv in dvs}


def case(ctx):
    from pelicun.assessment import Assessment
    rng = ctx.rng
    P = c27.workload(rng)
    P['cal'] = P['cal'] or {'ALL': {'DistributionFamily': pbe.pick(rng, ['lognormal', 'empirical'])}}
    c27.widen(P)
    m = P['m']
    comb = None
    if rng.random() < .45:
        for k in ('table', 'functions'):
            P[k] = None if P[k] is None else shrink(P[k])
        if len(m.cmps) > 1:
            at = {c: {(p['loc'], p['dir'], p['uid']) for p in m.pgs if p['cmp'] == c} for c in m.cmps}
            pairs = [(x, y) for x in at for y in at if x != y and at[x] & at[y]]
            cs = pbe.pick(rng, pairs) if pairs else [str(c) for c in rng.choice(list(m.cmps), 2, replace=False)]
            xs = np.r_[0., np.sort(rng.uniform(.05, .95, 2)), 1.]
            T = np.add.outer(xs, xs)
            T[1:, 1:] *= rng.uniform(.5, 1., (3, 3))
            comb = {(cs[0], cs[1]): T}
    with ctx.tmp() as tmp:
        A, B = optional(rng, P, tmp)
        ctx.describe(damage=A, loss=B, replacement=P['replacement'], options=P['opts'], seed=P['seed'])
        P['opts']['Seed'] = P['seed']
        one, two = Assessment(dict(P['opts'])), Assessment(dict(P['opts']))
        if rng.random() < .3:
            one.stories = int(rng.integers(1, 9))
        frozen = c27.frozen({**A, **B})
        if rng.random() < .35:
            # an earlier assessment of other quantities with the same objects
            A0, B0 = earlier(rng, A, B)
            first = by_steps(two, A0, B0)
            next(first)
            one.calculate_damage(**A0)
            if rng.random() < .6:
                next(first)
                one.calculate_loss(**B0)
                ctx.count('repeated_loss')
            ctx.count('repeated')
        ref = by_steps(two, A, B)
        want = next(ref)['damage']
        one.calculate_damage(**A)
        compare(ctx, state(one), want, 'damage-differs')
        ctx.count('damage')
        c = A.get('collapse_fragility_configuration')
        if c:
            ctx.count('collapse')
            ctx.count('collapse_place' if {'location', 'direction'} & set(c) else 'collapse_default')
            col = (c['label'], c.get('location', '0'), c.get('direction', '1'))
            s = one.demand.sample
            if ctx.check(col in s.columns, 'collapse-column', f'{col} not among {list(s.columns)}'):
                ctx.close(s[col].to_numpy(), np.full(len(s), c['value'] * pbe.U[c['unit']]), 'collapse-value', rel=1e-12)
        if P['rid']:
            ctx.count('rid')
            ctx.count('method_default', 'method' not in A['residual_drift_configuration'])
            ctx.check('RID' in one.demand.sample.columns.get_level_values(0), 'rid-missing', 'no residual drifts')
        ctx.count('prefix', isinstance(A['demand_data_source'], str))
        ctx.count('process', 'dmg_process' in A)
        ctx.count('scaled', 'scaling_specification' in A)

        want = next(ref)['loss']
        one.calculate_loss(**B)
        compare(ctx, losses(one), want, 'loss-differs')
        ctx.count('loss')
        ctx.count('fill', 'loss_map_policy' in B)
        ctx.count('subset', len(B['decision_variables']) < len(P['L'].dvs))

        dvs = B['decision_variables']
        before = c27.frozen(losses(one))
        reg = P['replacement'] and all(dv in one.loss.dv_units for dv in dvs)
        args = []
        if comb:
            have = sorted(set(losses(one).get('ds_loss', losses(one).get('lf_loss', pd.DataFrame(columns=pd.MultiIndex.from_tuples([('', '')])))).columns
                              .get_level_values(0)))
            comb = {pbe.pick(rng, have): comb}
            args = [None, comb]
        if reg:
            args = [registry(one, P, dvs), *args[1:]]
        got, e1 = outcome(one.aggregate_loss, *args)
        if reg:
            args[0] = registry(two, P, dvs)
        exp, e2 = outcome(lambda *a: two.loss.aggregate_losses(*a, future=True), *(args or [None, None]))
        if not ctx.check(e1 == e2, 'aggregate-differs', lambda: f'{e1} vs {e2}') or e1:
            ctx.count('combination_rejected')
            return
        ctx.count('combination', bool(comb))
        compare(ctx, dict(zip(('sample', 'exceedance'), got)), dict(zip(('sample', 'exceedance'), exp)), 'aggregate-differs')
        ctx.check(c27.frozen(losses(one)) == before, 'aggregate-changes-losses', 'loss samples differ after aggregate_loss')
        ctx.count('aggregate')
        ctx.count('replacement', bool(reg))
        ctx.check(c27.frozen({**A, **B}) == frozen, 'arguments-modified', lambda: str([k for k, v in c27.frozen({**A, **B}).items() if v != frozen[k]]))
        ctx.observe(isinstance(A['demand_data_source'], str), tuple(sorted(k for k in A if 'config' in k or k in ('dmg_process', 'scaling_specification'))),
                    B.get('loss_map_policy'), len(dvs), bool(reg))
