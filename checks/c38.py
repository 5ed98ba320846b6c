"""C38: repeating and extending steps on one assessment has the effect the last inputs have on a new one."""
import contextlib
import io
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import c27  # noqa: E402
import dmg  # noqa: E402
import loss  # noqa: E402
import pbe  # noqa: E402

ID = 'C38'
RULE = ('seeded assessments without randomness whose steps (demands, components, damage parameters from several partial sources, damage with '
        'processes, batches and scaled capacities, loss maps, decision variables, loss parameters from several partial sources, losses, '
        'scaling of consequences, aggregation) are repeated in several rounds with the same or other inputs on one object; after every '
        'calculation all samples compared with those of a new assessment that was given the current inputs only; sequences of steps on a demand '
        'model (samples loaded, cloned, expanded, with residual drifts, models calibrated, loaded, generated from) compared with only the '
        'steps behind the current sample and model')
QUICK, THOROUGH = 150, 4500
MIN_OBS = {'damage': 150, 'loss': 150, 'aggregates': 150, 'demand_changes': 80, 'component_changes': 80, 'damage_sources': 150, 'loss_sources': 150,
           'map_changes': 60, 'overlaps': 80, 'processes': 40, 'repeated': 20, 'demand_steps': 120, 'demand_samples': 60, 'demand_models': 40}
ASSUMPTIONS = ['parameters loaded earlier take precedence over those loaded later, as documented for loading them']


def pieces(rng, frames):
    """Split the rows of tables into 1-3 overlapping sources."""
    out = []
    for _ in range(int(rng.integers(1, 4))):
        f = pbe.pick(rng, frames)
        out.append(f.iloc[np.sort(rng.choice(len(f), int(rng.integers(1, len(f) + 1)), replace=False))].dropna(axis=1, how='all'))
    out = [f for f in out if any(c.endswith('1-Theta_0') for c in f.columns) or 'LossFunction-Theta_0' in f.columns]
    if rng.random() < .6 or not out:
        out.append(pbe.pick(rng, frames))
    return out


def add(known, sources):
    """Earlier entries win; returns how many were defined more than once."""
    n = 0
    for s in sources:
        new = {i: s.loc[[i]] for i in s.index if i not in known}
        n += len(s) - len(new)
        known.update(new)
    return n


def table(known):
    return pd.concat(list(known.values())) if known else None


def scaled(df, f, cols):
    df = df.copy()
    for c in cols:
        df[c] = [x if isinstance(x, float) and np.isnan(x) else ','.join(repr(float(y) * f) for y in x.split('|')[0].split(',')) + '|' + x.split('|')[1]
                 if isinstance(x, str) and '|' in x else float(x) * f for x in df[c]]
    return df


class State:
    """The current inputs."""

    def apply_assets(self, a):
        a.stories = self.stories
        a.demand.load_sample(self.demands)
        if self.sampled:
            a.demand.calibrate_model({'ALL': {'DistributionFamily': 'empirical'}})
            a.demand.generate_sample({'SampleSize': len(self.demands) - 1, 'PreserveRawOrder': True})
        a.asset.load_cmp_model({'marginals': self.marginals})
        a.asset.generate_cmp_sample()

    def fresh(self, opts):
        a = pbe.assessment(opts, self.stories, 1)
        self.apply_assets(a)
        return a


def damage_state(a):
    s = a.damage.ds_model
    return {'demand': a.demand.sample, 'components': a.asset.cmp_sample, 'ds': s.ds_sample, 'damage': s.sample}


def loss_state(a):
    return {k: v for k, v in (('ds_loss', a.loss.ds_model.sample), ('lf_loss', a.loss.lf_model.sample)) if v is not None}


def close_frames(x, y):
    """'' if two frames agree (columns in any order), else what differs."""
    if sorted(map(str, x.columns)) != sorted(map(str, y.columns)):
        return f'labels {sorted(set(map(str, x.columns)) ^ set(map(str, y.columns)))[:4]}'
    if len(x) != len(y):
        return f'{len(x)} rows, expected {len(y)}'
    for c in y.columns:
        u, v = x[c].to_numpy(dtype=float), y[c].to_numpy(dtype=float)
        if not np.allclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True):
            return f'{c}: {u[:3]} instead of {v[:3]}'
    return ''


TYPES = {'PFA': ('g', 'mps2', 'inps2'), 'PFV': ('mps', 'inps', 'cmps'), 'PID': ('unitless', 'rad'), 'SA_0.5': ('g', 'mps2')}


def demand_table(rng):
    """Demands of 20-40 analyses, some with missing units, in any order."""
    cols = [f'{t}-{lo}-{d}' for t in rng.permutation(list(TYPES))[:int(rng.integers(1, 4))] for lo in range(1, int(rng.integers(2, 4))) for d in (1, 2)[:int(rng.integers(1, 3))]]
    cols = [str(c) for c in rng.permutation(cols)]
    n = int(rng.integers(20, 41))
    z = rng.normal(size=(n, 1))
    v = pd.DataFrame(np.exp(.2 * z + .3 * rng.normal(size=(n, len(cols)))) * [.01 if c.startswith('PID') else 1. for c in cols], columns=cols)
    v.index = [str(i) for i in range(n)]
    units = [pbe.pick(rng, TYPES[c.split('-')[0]]) for c in cols]
    return pd.concat([pd.DataFrame([units], columns=cols, index=['Units']), v.astype(object)])


def demand_model(rng):
    t = demand_table(rng)
    rows = {}
    for c in t.columns:
        fam = pbe.pick(rng, ['lognormal', 'normal_cov', 'deterministic'])
        rows[c] = {'Units': t.loc['Units', c], 'Family': fam, 'Theta_0': float(t[c].iloc[1]), 'Theta_1': np.nan if fam == 'deterministic' else .2}
    out = {'marginals': pd.DataFrame.from_dict(rows, orient='index')}
    if rng.random() < .4:
        for c in t.columns[:int(rng.integers(1, len(t.columns) + 1))]:
            out['marginals'].loc[c, ['Family', 'Theta_0', 'Theta_1']] = ['empirical', np.nan, np.nan]
        emp = out['marginals'].index[out['marginals']['Family'] == 'empirical']
        out['empirical'] = t[list(emp)]
    rest = [c for c in t.columns if rows[c]['Family'] != 'deterministic' and out['marginals'].loc[c, 'Family'] != 'empirical']
    if len(rest) > 1 and rng.random() < .5:
        out['correlation'] = pd.DataFrame(np.full((len(rest),) * 2, .3) + .7 * np.eye(len(rest)), index=rest, columns=rest)
    return out


def perform(a, op, where):
    """One step on the demand model of an assessment."""
    D = a.demand
    kind, x, seed = op
    a.options.seed = seed
    if kind == 'load':
        D.load_sample(x.copy())
    elif kind == 'model':
        D.load_model({k: v.copy() for k, v in x.items()})
    elif kind == 'model file':
        D.load_model(str(where / x))
    elif kind == 'calibrate':
        with contextlib.redirect_stdout(io.StringIO()):
            D.calibrate_model(x)
    elif kind == 'generate':
        D.generate_sample(x)
    elif kind == 'clone':
        D.clone_demands(x)
    elif kind == 'expand':
        D.expand_sample(*x)
    else:
        D.estimate_RID_and_adjust_sample(x)


def sample_view(a):
    t, u = a.demand.save_sample(save_units=True)
    t = t.copy()
    t.index = range(len(t))
    return a.demand.sample, t, {tuple(k): v for k, v in u.items()}


def model_view(a, d):
    d.mkdir()
    a.demand.save_model(str(d / 'm'))
    return {f.name: f.read_text() for f in d.iterdir()}


def demand_history(ctx):  # noqa: C901, PLR0912, PLR0915
    """Any sequence of steps leaves what the steps that the current sample and model come from give on their own."""
    rng = ctx.rng
    where = ctx.tmp()
    tables = [demand_table(rng) for _ in range(2)]
    models = [demand_model(rng) for _ in range(2)]
    opts = {'SamplingMethod': pbe.pick(rng, ['LHS', 'MonteCarlo'])}
    one = pbe.assessment(opts, None, 1)
    sample = model = None                 # the steps behind the current sample and model
    flags = set()                         # what the sample holds
    for r in range(int(rng.integers(3, 9))):
        can = ['load', 'model']
        if sample is not None:
            can += ['calibrate'] * 2 + ['clone', 'expand', 'expand']
            if any(c[0] == 'PID' for c in one.demand.sample.columns) and not any(c[0] == 'RID' for c in one.demand.sample.columns):
                can += ['rid'] * 2
        if model is not None:
            can += ['generate'] * 4
        kind = pbe.pick(rng, can)
        seed = int(rng.integers(1e6))
        cols = [] if sample is None else list(one.demand.sample.columns)
        if kind == 'load':
            op = (kind, pbe.pick(rng, tables), seed)
            flags = set()
        elif kind == 'model':
            x = pbe.pick(rng, models)
            op = (kind, x, seed)
            if rng.random() < .5:
                name = f'model{r}'
                o = pbe.assessment({}, None, 1)
                o.demand.load_model({k: v.copy() for k, v in x.items()})
                o.demand.save_model(str(where / name))
                op = ('model file', name, seed)
        elif kind == 'calibrate':
            fam = ['empirical'] if flags & {'const', 'clone', 'RID'} or len(one.demand.sample) < 20 else ['lognormal', 'normal_std', 'empirical', 'lognormal']
            cfg = {'ALL': {'DistributionFamily': pbe.pick(rng, fam)}}
            if len(fam) > 1 and rng.random() < .5:
                t = pbe.pick(rng, cols)[0].split('_')[0]
                cfg[t] = {'DistributionFamily': pbe.pick(rng, fam)}
                if cfg[t]['DistributionFamily'] == 'lognormal' and rng.random() < .5:
                    cfg[t]['AddUncertainty'] = .1
            op = (kind, cfg, seed)
        elif kind == 'generate':
            cfg = {'SampleSize': int(rng.integers(20, 41))}
            mp = one.demand.marginal_params
            if (mp['Family'] == 'empirical').any() and rng.random() < .5:
                cfg = {'SampleSize': int(rng.integers(1, len(one.demand.empirical_data) + 1)), 'PreserveRawOrder': True}
            src = [c for c in mp.index if c[0] != 'RID']
            flags = {'RID'} if len(src) < len(mp) else set()
            if (mp['Family'] == 'deterministic').any():
                flags.add('const')
            if rng.random() < .4:
                c = src[int(rng.integers(len(src)))]
                cfg['DemandCloning'] = {'-'.join(map(str, c)): [f'{c[0]}-{c[1]}-{k}' for k in ((50, 51) if rng.random() < .5 else (c[2], 51))]}
                flags.add('clone')
            op = (kind, cfg, seed)
        elif kind == 'clone':
            c = cols[int(rng.integers(len(cols)))]
            new = [f'{c[0]}-{c[1]}-{k}' for k in ((c[2], 10 + r) if rng.random() < .5 else (20 + r, 30 + r))]
            op = (kind, {'-'.join(c): new}, seed)
            flags.add('clone')
        elif kind == 'expand':
            val = float(rng.uniform(1, 2)) if rng.random() < .5 else np.exp(rng.normal(size=len(one.demand.sample)))
            t = pbe.pick(rng, ['SA_1.0', 'PFA', 'PGA'])
            op = (kind, (t, val, pbe.pick(rng, ('g', 'mps2')), str(int(rng.integers(0, 3))), '1'), seed)
            if isinstance(val, float):
                flags.add('const')
        else:
            op = (kind, {'yield_drift': .005}, seed)
            flags.add('RID')
        perform(one, op, where)
        if kind in ('load', 'generate'):
            sample = [op] if kind == 'load' else [*model, op]
        elif kind == 'calibrate':
            model = [*sample, op]
        elif kind == 'model':
            model, sample = [op], None    # the sample stays out of use until the next one
        else:
            sample = [*sample, op]
        ctx.count('demand_steps')
        log = [(k, x if isinstance(x, (dict, str)) and k != 'model' else '') for k, x, _ in [*(sample or []), op]]
        if kind not in ('model', 'calibrate'):
            two = pbe.assessment(opts, None, 2)
            for o in sample:
                perform(two, o, where)
            (b1, t1, u1), (b2, t2, u2) = sample_view(one), sample_view(two)
            ctx.count('demand_samples')
            why = close_frames(b1, b2) or close_frames(t1, t2) or ('' if u1 == u2 else f'units {u1}, expected {u2}')
            if not ctx.check(not why, 'demands-depend-on-history', lambda: f'{why}; steps {log}'):
                return
        if model is not None and (kind in ('model', 'calibrate') or rng.random() < .4):
            two = pbe.assessment(opts, None, 2)
            for o in model:
                perform(two, o, where)
            x, y = (model_view(v, where / f'{n}{r}') for v, n in ((one, 'one'), (two, 'two')))
            ctx.count('demand_models')
            if not ctx.check(x == y, 'model-depends-on-history', lambda: f'saved {sorted(x)}, expected {sorted(y)}: '
                             + next((f'{k}: {x[k][:200]!r} instead of {y[k][:200]!r}' for k in y if x.get(k) != y[k]), '') + f'; steps {log}'):
                return
    ctx.observe('demand', r, kind, sorted(flags), sample is None)


def case(ctx):  # noqa: C901, PLR0912, PLR0915
    if ctx.index % 3 == 2:
        return demand_history(ctx)
    rng = ctx.rng
    m = dmg.Model(rng, n=int(rng.choice([1, 3, 8])), exprs=bool(rng.random() < .3), weights=False, max_rows=2, maxblocks=3, ncmp=int(rng.integers(2, 5)))
    L = loss.Losses(rng, m, lf=.35, p_family=0., missing=bool(rng.random() < .3))
    P = {'functions': L.functions, 'cal': True}
    c27.widen(P)
    opts = dict(m.opts)
    if rng.random() < .5:
        opts['ListAllDamageStates'] = bool(rng.random() < .5)
    opts['EconomiesOfScale'] = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    caps = [c for c in m.frag if c.startswith('LS') and c.endswith('Theta_0')]
    frags = [m.frag, scaled(m.frag, 1.3, caps)]
    cons = [x for x in (L.table, L.functions) if x is not None]
    cons += [scaled(x, 1.7, [c for c in x if c.endswith('Theta_0')]) for x in cons]
    units = m.demands.iloc[:1]

    def demands():
        k, n = float(rng.choice([.6, 1., 1.4])), int(rng.integers(1, m.n + 3))
        v = m.demands.iloc[1:].astype(float).iloc[rng.integers(0, m.n, n)] * k
        v.index = [str(i) for i in range(n)]
        return pd.concat([units, v.astype(object)])

    def components():
        mm = m.marginals
        if rng.random() < .4:
            mm = mm.iloc[np.sort(rng.choice(len(mm), int(rng.integers(1, len(mm) + 1)), replace=False))]
        return mm.assign(Theta_0=mm['Theta_0'] * float(rng.choice([1., 2.5])))

    def lmap():
        mp = L.map.copy()
        if rng.random() < .3 and len(mp) > 1:
            mp = mp.iloc[:-1]
        return mp, (pbe.pick(rng, ['fill', 'fill_all']) if rng.random() < .3 else None)

    S = State()
    S.stories = m.stories
    S.demands, S.marginals, S.sampled = demands(), components(), bool(rng.random() < .3)
    one = S.fresh(opts)
    known, lknown = {}, {}
    has_damage = has_loss = False
    log = []
    rounds = int(rng.integers(2, 6))
    for r in range(rounds):
        log.append([])
        do = log[-1].append
        new_asset = False
        if r and rng.random() < .45:
            S.demands, S.sampled = demands(), bool(rng.random() < .3)
            ctx.count('demand_changes')
            do('demands')
            new_asset = True
        if r and rng.random() < .45:
            S.marginals = components()
            ctx.count('component_changes')
            do('components')
            new_asset = True
        if new_asset:
            S.apply_assets(one)
        elif r and rng.random() < .6:
            do('same again')
            ctx.count('repeated')
            S.apply_assets(one)
        if not r or new_asset or rng.random() < .5:
            cmps = set(one.asset.list_unique_component_ids())
            src = pieces(rng, frags)
            one.damage.load_model_parameters([s.copy() for s in src], set(cmps))
            n = add(known, src)
            known = {k: v for k, v in known.items() if k in cmps}
            ctx.count('damage_sources', len(src))
            ctx.count('overlaps', n > 0)
            do(f'damage parameters x{len(src)}')
            if not known:
                ctx.count('nothing_left')
                return          # no component of the asset has parameters
        # damage
        if not has_damage or new_asset or rng.random() < .6:
            kw = {}
            on = [c for c in known if (S.marginals.index == c).any()]
            if rng.random() < .4 and len(on) > 1:
                a, b = (str(x) for x in rng.choice(on, 2, replace=False))
                kw['dmg_process'] = {f'1_{a}': {'DS1': f'{b}_NA'}} if rng.random() < .5 else {f'1_{a}': {'DS1': f'{b}_DS1'}}
                ctx.count('processes')
            if rng.random() < .3:
                kw['block_batch_size'] = int(rng.choice([1, 2, 5]))
            if rng.random() < .3:
                kw['scaling_specification'] = {pbe.pick(rng, on): {'LS1': pbe.pick(rng, ['*1.2', '/1.3'])}}
            fresh = S.fresh(opts)
            fresh.damage.load_model_parameters([table(known)], set(fresh.asset.list_unique_component_ids()))
            one.damage.calculate(**kw)
            fresh.damage.calculate(**kw)
            ctx.count('damage')
            do(f'damage {kw}')
            x, y = damage_state(one), damage_state(fresh)
            for k in y:
                why = close_frames(x[k], y[k])
                if not ctx.check(not why, 'damage-depends-on-history', lambda: f'{k} {why}; history {log}'):
                    return
            has_damage = True
            last_kw, last_known = kw, dict(known)
        # losses
        if has_loss and rng.random() < .25:
            continue
        if not has_loss or new_asset or rng.random() < .4:
            S.map, S.policy = lmap()
            k = list(L.dvs)
            S.dvs = tuple(k if rng.random() < .6 else k[:int(rng.integers(1, len(k) + 1))])
            one.loss.decision_variables = S.dvs
            one.loss.add_loss_map(S.map.copy(), S.policy)
            ctx.count('map_changes', has_loss)
            do('loss map')
            need = True
        else:
            need = rng.random() < .5
        if need:
            src = pieces(rng, cons)
            one.loss.load_model_parameters([s.copy() for s in src])
            n = add(lknown, src)
            ctx.count('loss_sources', len(src))
            ctx.count('overlaps', n > 0)
            do(f'loss parameters x{len(src)}')
            full = set(S.map['Repair']) | (set(one.asset.list_unique_component_ids()) if S.policy else set())
            lknown = {i: v for i, v in lknown.items() if i.rsplit('-', 1)[0] in full}
        if not lknown:
            ctx.count('nothing_left')
            return
        # each consequence has one kind of parameters
        fresh = S.fresh(opts)
        fresh.damage.load_model_parameters([table(last_known)], set(fresh.asset.list_unique_component_ids()))
        fresh.damage.calculate(**last_kw)
        fresh.loss.decision_variables = S.dvs
        fresh.loss.add_loss_map(S.map.copy(), S.policy)
        ds = {i: v for i, v in lknown.items() if 'LossFunction-Theta_0' not in v.columns}
        lf = {i: v for i, v in lknown.items() if 'LossFunction-Theta_0' in v.columns}
        fresh.loss.load_model_parameters([t for t in (table(ds), table(lf)) if t is not None])
        one.loss.calculate()
        fresh.loss.calculate()
        has_loss = True
        ctx.count('loss')
        do('losses')
        x, y = loss_state(one), loss_state(fresh)
        if not ctx.check(set(x) == set(y), 'losses-depend-on-history', lambda: f'samples {sorted(x)}, expected {sorted(y)}; history {log}'):
            return
        for k in y:
            why = close_frames(x[k], y[k])
            if not ctx.check(not why, 'losses-depend-on-history', lambda: f'{k} {why}; history {log}'):
                return
        if y:
            for _ in range(int(rng.integers(1, 3))):
                got, want = one.loss.aggregate_losses(future=True)[0], fresh.loss.aggregate_losses(future=True)[0]
                why = close_frames(got, want)
                ctx.count('aggregates')
                if not ctx.check(not why, 'aggregate-depends-on-history', lambda: f'{why}; history {log}'):
                    return
        ctx.observe(r, len(known), len(lknown), new_asset, sorted(y), S.policy, len(S.dvs))
