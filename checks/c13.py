"""C13: residual drifts follow the FEMA P-58 relation with the stated dispersion."""
import numpy as np
import pandas as pd
import pbe

ID = 'C13'
RULE = ('seeded peak drifts over storeys and directions below, around and above yield, yield drifts, seeds, units; '
        'the multiplier of the median residual drift is judged per realization and as a population')
QUICK, THOROUGH = 96, 4000
MIN_OBS = {'calculations': 8, 'drifts': 20000, 'uncertain': 8000}
ASSUMPTIONS = ['population statistics are judged at 6 sigma']


def case(ctx):
    rng = ctx.rng
    S, D = int(rng.integers(1, 13)), int(rng.integers(1, 4))
    n = int(rng.choice([5, 50, 1000]))
    yd = pbe.sig(rng.uniform(.002, .02))
    E = [('PID', l, d) for l in range(1, S + 1) for d in range(1, D + 1)] + [('PFA', 0, 1)]
    if rng.random() < .3:
        E.append(('PIH', 0, 1))
    E = [E[i] for i in rng.permutation(len(E))]
    opts = {}
    unit = pbe.pick(rng, ['unitless', 'rad', 'percent'])
    if unit == 'percent':
        opts['UnitsFile'] = pbe.units_file(ctx, {'percent': .01})
    f = .01 if unit == 'percent' else 1.
    a = pbe.assessment(opts, seed=int(rng.integers(1e6)))
    cols, si = [], {}
    for e in E:
        k = tuple(map(str, e))
        si[k] = np.array([pbe.sig(v, 8) for v in (yd * np.exp(rng.uniform(-1.5, 2.5, n)) if e[0] == 'PID' else rng.uniform(1, 5, n))])
        if e[0] == 'PID' and rng.random() < .3:   # values at the limits of the subdomains
            si[k][rng.integers(n)] = yd
            si[k][rng.integers(n)] = 4 * yd
    cols = ['-'.join(map(str, e)) for e in E]
    us = [unit if e[0] == 'PID' else 'mps2' if e[0] == 'PFA' else 'm' for e in E]
    df = pd.DataFrame({c: si[tuple(map(str, e))] / (f if e[0] == 'PID' else 1) for c, e in zip(cols, E)}).astype(object)
    df = pd.concat([pd.DataFrame([us], columns=cols, index=['Units']), df])
    a.demand.load_sample(df)
    before = pbe.as_dict(a.demand.sample)
    how = pbe.pick(rng, ['adjust', 'adjust', 'direct', 'calculation'])
    method = pbe.pick(rng, ['FEMA P58', 'FEMA P-58'])
    ctx.describe(stories=S, directions=D, n=n, yield_drift=yd, unit=unit, call=how)
    params = {'yield_drift': yd}
    if how == 'adjust':
        a.demand.estimate_RID_and_adjust_sample(params, method)
        after = pbe.as_dict(a.demand.sample)
        ctx.check(set(after) == set(before) | {('RID', *k[1:]) for k in before if k[0] == 'PID'}, 'labels', str(sorted(after)[:6]))
        for k in before:
            ctx.close(after[k], before[k], 'other_demands_changed', str(k), rtol=1e-9)
        rid = {k[1:]: v for k, v in after.items() if k[0] == 'RID'}
    elif how == 'calculation':
        from pelicun.assessment import DLCalculationAssessment
        b = DLCalculationAssessment({'Seed': int(rng.integers(1e6)), 'Verbose': False, 'PrintLog': False, **opts})
        path = ctx.tmp() / 'demands.csv'
        df.to_csv(path)
        dirs = {str(d): pbe.pick(rng, [yd, repr(yd)]) for d in range(1, D + 1)}
        b.calculate_demand(path, None, pbe.pick(rng, [None, 'm', 'in']), None, n, None, {'method': 'FEMA P-58', **dirs}, coupled_demands=True)
        ctx.count('calculations')
        after = pbe.as_dict(b.demand.sample)
        ctx.check(set(after) == set(before) | {('RID', *k[1:]) for k in before if k[0] == 'PID'} | {('ONE', '0', '1')}, 'labels', str(sorted(after)[:6]))
        for k in before:
            ctx.close(after[k], before[k], 'other_demands_changed', str(k), rtol=1e-9)
        rid = {k[1:]: v for k, v in after.items() if k[0] == 'RID'}
    else:
        pid = a.demand.sample['PID'].copy(deep=True)
        keep = pid.copy(deep=True)
        r = a.demand.estimate_RID(pid, params, method)
        ctx.check(pid.equals(keep), 'mutates_input', 'peak drifts changed')
        rid = {k[1:]: v for k, v in pbe.as_dict(r).items()}
    ctx.check(params == {'yield_drift': yd}, 'mutates_params', str(params))
    z = []
    for k, r in rid.items():
        p = before[('PID', *k)]
        med = np.where(p < yd, 0., np.where(p < 4 * yd, .3 * (p - yd), p - 3 * yd))
        ctx.count('drifts', len(p))
        ctx.check((r >= 0).all() and (r <= p * (1 + 1e-9)).all(), 'bounds', lambda: f'{k}: residual drift outside of [0, peak drift]')
        zero = med <= 1e-12 * yd
        ctx.check((r[p < yd * (1 - 1e-12)] == 0).all() and (r[zero] < 1e-9).all(), 'below_yield', lambda: f'{k}: nonzero below yield')
        ctx.check((r[~zero] > 0).all(), 'above_yield', f'{k}: zero above yield')
        c = ~zero & (r < p * (1 - 1e-9))
        e = np.log(r[c] / med[c]) / .2
        # the multiplier that reaches the cap; values at the cap have a larger one
        cap = np.log(p[~zero] / med[~zero]) / .2
        ctx.check((np.abs(e) < 6.5).all(), 'dispersion', lambda: f'{k}: multiplier exp(.2*{np.abs(e).max():.1f})')
        far = cap > 6.5
        ctx.check((r[~zero][far] < p[~zero][far]).all(), 'capped_early', str(k))
        x = np.log(r[~zero][far] / med[~zero][far]) / .2
        z.append(x)
        for lo, hi, nm in ((0, yd, 'small'), (yd, 4 * yd, 'medium'), (4 * yd, np.inf, 'large')):
            if ((p >= lo) & (p < hi)).any():
                ctx.observe(nm, how, unit, D > 1)
    x = np.concatenate(z)
    ctx.count('uncertain', len(x))
    if len(x) > 30:
        m = len(x)
        ctx.check(abs(x.mean()) * np.sqrt(m) < 6, 'median_multiplier', f'mean {x.mean():.3f} of {m}')
        ctx.check(abs((x ** 2).mean() - 1) * np.sqrt(m / 2) < 6.5, 'multiplier_dispersion', f'variance {(x ** 2).mean():.3f} of {m}')
    # independent between storeys and directions
    if n == 1000 and len(z) > 1:
        ks = list(rid)
        for i in range(1, min(len(ks), 5)):
            u = []
            for k in (ks[0], ks[i]):
                p = before[('PID', *k)]
                u.append((p, np.where(p < 4 * yd, .3 * (p - yd), p - 3 * yd)))
            ok = np.logical_and.reduce([np.log(p / np.maximum(md, 1e-12)) / .2 > 6.5 for p, md in u] + [md > 1e-9 for p, md in u])
            if ok.sum() > 30:
                e = [np.log(rid[k][ok] / u_[1][ok]) for k, u_ in zip((ks[0], ks[i]), u)]
                ctx.check(abs(np.corrcoef(*e)[0, 1]) * np.sqrt(ok.sum()) < 6, 'independent_locations', f'{ks[0]} {ks[i]}')
    if ctx.index % 8 == 0:
        try:
            a.demand.estimate_RID(a.demand.sample['PID'], params, 'nonsense')
            ctx.violate('unknown_method', 'accepted')
        except ValueError:
            ctx.count('rejected')
