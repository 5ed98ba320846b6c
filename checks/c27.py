"""C27: inputs and seed determine every sample of an assessment; inputs stay as they were."""
import copy
import hashlib
import json
import os
import pickle
import random
import subprocess
import sys
from pathlib import Path

import numpy as np
import pandas as pd

sys.path.insert(0, str(Path(__file__).resolve().parent.parent / 'lib'))
import dmg  # noqa: E402
import loss  # noqa: E402
import pbe  # noqa: E402

ID = 'C27'
RULE = ('seeded whole assessments (demand calibration with truncation, detection limits and added uncertainty; Latin hypercube and Monte '
        'Carlo sampling; residual drifts; random quantities, capacities, damage states, consequences and replacement) run as a sequence '
        'of steps: again with the same inputs and seed while other assessments advance between the steps and the global random '
        'generators are used, again with other seeds, and again in new processes with another string hash seed; all samples compared '
        'bit by bit and all inputs compared before and after')
QUICK, THOROUGH = 56, 1500
MIN_OBS = {'repeats': 50, 'foreign_steps': 300, 'other_seed': 50, 'stochastic_samples': 200, 'children': 6, 'inputs': 50}
ASSUMPTIONS = ['bitwise equality is expected on one machine with one set of libraries']


def workload(rng):
    m = dmg.Model(rng, n=int(rng.choice([3, 12, 40])), exprs=bool(rng.random() < .4), weights=True, random_quantities=True, max_rows=2, maxblocks=3,
                  ncmp=int(rng.integers(1, 4)), stories=int(rng.integers(1, 5)))
    for c in [c for c in m.frag if c.startswith('LS') and c.endswith('Theta_0')]:
        i = c.split('-')[0]
        if rng.random() < .8:
            on = m.frag[c].notna()
            m.frag[f'{i}-Family'] = pd.Series(np.where(on, pbe.pick(rng, ['lognormal', 'normal']), None), index=m.frag.index)
            m.frag[f'{i}-Theta_1'] = np.where(on, pbe.sig(rng.uniform(.1, .6), 3), np.nan)
    L = loss.Losses(rng, m, lf=.3, p_family=.7)
    m.opts['EconomiesOfScale'] = {'AcrossFloors': bool(rng.random() < .5), 'AcrossDamageStates': bool(rng.random() < .5)}
    m.opts['Sampling'] = {'SamplingMethod': pbe.pick(rng, ['LHS', 'LHS_midpoint', 'MonteCarlo'])}
    if rng.random() < .3:
        m.opts['RepairCostAndTimeCorrelation'] = float(rng.choice([.5, 1.]))
    P = {'m': m, 'L': L, 'opts': m.opts, 'demands': m.demands, 'marginals': m.marginals, 'frag': m.frag, 'map': L.map,
         'table': L.table, 'functions': L.functions}
    types = sorted({c.split('-')[0] for c in m.demands.columns})
    cal = None
    if rng.random() < .7:
        cal = {'ALL': {'DistributionFamily': pbe.pick(rng, ['lognormal', 'normal', 'empirical'])}}
        if rng.random() < .5 and m.n > 10:
            t = pbe.pick(rng, types)
            v = m.demands[[c for c in m.demands if c.split('-')[0] == t]].iloc[1:].astype(float)
            lims = {}
            if rng.random() < .5:
                lims['TruncateUpper'] = float(v.max().max() * 1.5)
            if rng.random() < .5:
                lims['CensorUpper'] = float(v.max().max() * .9)
            units = set(m.demands.loc['Units', v.columns])
            if lims and len(units) == 1:
                cal[t] = {'DistributionFamily': 'lognormal', 'Unit': units.pop(), **lims}
        if rng.random() < .3 and cal['ALL']['DistributionFamily'] != 'empirical':
            cal['ALL']['AddUncertainty'] = .2
    P['cal'] = cal
    P['gen'] = {'SampleSize': m.n, 'PreserveRawOrder': bool(cal and cal['ALL']['DistributionFamily'] == 'empirical' and rng.random() < .5)}
    P['rid'] = {'yield_drift': .004} if 'PID' in types and 'RID' not in types and rng.random() < .6 else None
    P['dmg'] = {}
    if rng.random() < .4:
        c = pbe.pick(rng, list(m.cmps))
        o = pbe.pick(rng, list(m.cmps))
        if c != o:
            P['dmg']['dmg_process'] = {f'1_{c}': {'DS1': f'{o}_NA'}, '2_' + o: {'DS1': f'{c}_DS1'}}
    if rng.random() < .4:
        P['dmg']['block_batch_size'] = int(rng.choice([1, 3, 7]))
    if rng.random() < .3:
        P['dmg']['scaling_specification'] = {pbe.pick(rng, list(m.cmps)): {'LS1': '*1.2'}}
    P['policy'] = pbe.pick(rng, [None, None, 'fill', 'fill_all'])
    if P['policy'] and rng.random() < .7:
        # the policy provides what the map does not
        P['map'] = None if rng.random() < .5 else P['map'].iloc[:int(rng.integers(1, len(P['map']) + 1))]
    P['replacement'] = {dv: float(10 ** rng.uniform(2, 5)) for dv in L.dvs} if rng.random() < .5 else None
    P['seed'] = int(pbe.pick(rng, [0, 1, int(rng.integers(1000)), int(rng.integers(1e9))]))
    return P


def steps(P, seed):
    """One assessment as a generator; yields {sample name: frame} after each step."""
    from pelicun import uq
    m, L = P['m'], P['L']
    P['opts']['Seed'] = seed
    from pelicun.assessment import Assessment
    a = Assessment(P['opts'])
    a.stories = m.stories
    yield {}
    a.demand.load_sample(P['demands'])
    yield {'demand0': a.demand.sample}
    if P['cal']:
        a.demand.calibrate_model(P['cal'])
        yield {'parameters': a.demand.marginal_params, **({} if a.demand.correlation is None else {'correlation': a.demand.correlation})}
        a.demand.generate_sample(P['gen'])
        yield {'demand': a.demand.sample}
    if P['rid']:
        a.demand.estimate_RID_and_adjust_sample(P['rid'])
        yield {'rid': a.demand.sample}
    a.asset.load_cmp_model({'marginals': P['marginals']})
    a.asset.generate_cmp_sample()
    yield {'components': a.asset.cmp_sample}
    a.damage.load_model_parameters([P['frag']], set(a.asset.list_unique_component_ids()))
    yield {}
    a.damage.calculate(**P['dmg'])
    yield {'ds': a.damage.ds_model.ds_sample, 'damage': a.damage.ds_model.sample}
    a.loss.decision_variables = L.dvs
    a.loss.add_loss_map(P['map'], P['policy'])
    a.loss.load_model_parameters([x for x in (P['table'], P['functions']) if x is not None])
    yield {}
    # calibrated demands can leave the range of a loss function
    for e in L.lf.values():
        pass
    a.loss.calculate()
    out = {'ds_loss': a.loss.ds_model.sample, 'lf_loss': a.loss.lf_model.sample}
    yield {k: v for k, v in out.items() if v is not None}
    reg = None
    if P['replacement'] and all(dv in a.loss.dv_units for dv in L.dvs):
        reg = uq.RandomVariableRegistry(a.options.rng)
        for dv, t in P['replacement'].items():
            reg.add_RV(uq.rv_class_map('lognormal')(name=dv, theta=np.array([t, .4])))
        reg = (reg, dict(P['replacement']))
    agg, exc = a.loss.aggregate_losses(replacement_configuration=reg, future=True)
    yield {'aggregate': agg, 'exceedance': exc}


def digest(df):
    """Bitwise fingerprint of a frame, columns in their own order."""
    h = hashlib.sha256(repr([tuple(map(str, c)) if isinstance(c, tuple) else str(c) for c in df.columns]).encode())
    h.update(repr([tuple(map(str, c)) if isinstance(c, tuple) else str(c) for c in df.index]).encode())
    for i in range(df.shape[1]):
        c = df.iloc[:, i]
        try:
            h.update(c.to_numpy(dtype=float).tobytes())
        except (TypeError, ValueError):
            h.update(repr(c.tolist()).encode())
    return h.hexdigest()


def collect(gen, between=None):
    out = {}
    for r in gen:
        out.update({k: (digest(v), v.copy()) for k, v in r.items()})
        if between:
            between()
    return out


def widen(P):
    """Loss functions reach far enough for every calibrated demand."""
    f = P['functions']
    if f is None or not P['cal']:
        return
    c = 'LossFunction-Theta_0'
    for i in f.index:
        if isinstance(f.loc[i, c], str) and '|' in f.loc[i, c]:
            y, x = (s.split(',') for s in f.loc[i, c].split('|'))
            y, x = [y[0], *y, y[-1]], ['-1e9', *x, '1e9']
            f.loc[i, c] = ','.join(y) + '|' + ','.join(x)


def make(seed_rng):
    P = workload(seed_rng)
    widen(P)
    return P


def inputs(P):
    return {k: v for k, v in P.items() if k not in ('m', 'L', 'seed')}


def frozen(x):
    """Comparable deep copy of nested inputs."""
    if isinstance(x, pd.DataFrame):
        return ('df', digest(x), tuple(map(str, x.dtypes)), str(x.index.names), str(x.columns.names))
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    return repr(x)


def case(ctx):
    rng = ctx.rng
    P = make(rng)
    seed = P['seed']
    ctx.describe(**{k: repr(v) if isinstance(v, dict) else v for k, v in inputs(P).items()}, seed=seed)
    P['opts']['Seed'] = seed
    before = frozen(inputs(P))
    first = collect(steps(P, seed))
    ctx.check(frozen(inputs(P)) == before, 'inputs-modified', lambda: str([k for k, v in frozen(inputs(P)).items() if v != before[k]]))
    ctx.count('inputs', 1)

    # again, with everything else happening in between
    others = [steps(make(rng), int(rng.integers(1e9))) for _ in range(2)]
    others.append(steps(P, seed + 1))

    def between():
        for _ in range(int(rng.integers(0, 3))):
            i = int(rng.integers(len(others)))
            try:
                next(others[i])
                ctx.count('foreign_steps')
            except StopIteration:
                others[i] = steps(P if rng.random() < .5 else make(rng), seed)
        np.random.seed(int(rng.integers(1e6)))
        np.random.rand(3)
        random.seed(1)
        # the shared options dictionary is read by the constructor only
        P['opts']['Seed'] = seed

    second = collect(steps(copy.deepcopy(P) if rng.random() < .3 else P, seed), between)
    ctx.count('repeats')
    compare(ctx, first, second, 'not-repeatable')
    P['opts']['Seed'] = seed
    ctx.check(frozen(inputs(P)) == before, 'inputs-modified', lambda: str([k for k, v in frozen(inputs(P)).items() if v != before[k]]))

    # other seeds
    runs = [collect(steps(P, seed + k)) for k in (1, 2)]
    ctx.count('other_seed')
    for k, (d, v) in first.items():
        if k not in runs[0]:
            continue
        diff = [r[k][0] != d for r in runs if k in r]
        if any(diff):
            ctx.count('stochastic_samples')
            ctx.observe(k, P['cal'] is not None and P['cal']['ALL']['DistributionFamily'], P['opts']['Sampling']['SamplingMethod'], P['rid'] is not None,
                        P['replacement'] is not None)
        if must_differ(P, k, v):
            ctx.count('must_differ')
            ctx.check(all(diff), 'seed-ignored', f'{k} is the same for different seeds')

    if ctx.index % 3 == 0:
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4e9))), VERIF_REPO_PATH=[p for p in sys.path if (Path(p) / 'pelicun').is_dir()][0])
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', str(Path(__file__).resolve()), str(ctx.seed), str(ctx.index)], env=env,
                           capture_output=True, text=True, check=False)
        if not ctx.check(r.returncode == 0, 'child-failed', r.stderr[-800:]):
            return
        ctx.count('children')
        got = json.loads(r.stdout.strip().splitlines()[-1])
        bad = [k for k, (d, _) in first.items() if got.get(k) != d]
        ctx.check(not bad, 'differs-between-processes', f'{bad} (hash seed {env["PYTHONHASHSEED"]})')


def must_differ(P, k, v):
    """Samples that certainly contain continuous random numbers (mid-point samples only permute a few values)."""
    if P['opts']['Sampling']['SamplingMethod'] == 'LHS_midpoint' or len(v) < 10:
        return False
    if k == 'demand':
        return P['cal']['ALL']['DistributionFamily'] != 'empirical'
    if k == 'rid':
        return bool((v['RID'] > 0).to_numpy().any())
    if k == 'components':
        return 'Family' in P['marginals'] and P['marginals']['Family'].notna().any()
    return False


def compare(ctx, a, b, key):
    if not ctx.check(list(a) == list(b), key, lambda: f'samples {list(a)} vs {list(b)}'):
        return
    for k in a:
        ctx.count('frames_compared')
        if not ctx.check(a[k][0] == b[k][0], key, lambda: f'{k}: {what(a[k][1], b[k][1])}'):
            return          # the rest follows


def what(x, y):
    if list(x.columns) != list(y.columns) or list(x.index) != list(y.index):
        return f'labels {list(x.columns)[:3]} vs {list(y.columns)[:3]}'
    n = [c for c in x.columns if not x[c].equals(y[c])]
    return f'{len(n)} columns differ, first {n[:1]}: {x[n[0]].to_list()[:3]} vs {y[n[0]].to_list()[:3]}' if n else 'types differ'


if __name__ == '__main__':
    sys.path.insert(0, os.environ['VERIF_REPO_PATH'])
    import io
    import contextlib
    h = hashlib.sha256(f'{ID}:{sys.argv[1]}:{sys.argv[2]}'.encode()).digest()
    with contextlib.redirect_stdout(io.StringIO()):
        P = make(np.random.default_rng(int.from_bytes(h[:8], 'little')))
        out = {k: d for k, (d, _) in collect(steps(P, P['seed'])).items()}
    print(json.dumps(out))
